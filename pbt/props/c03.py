"""C03: the Metropolis acceptance rule, step by step."""
import math

import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require

P_MIN = 1e-10


def first_tries(cfg, rec, res):
    """(log ratio, accepted) of the first try of every step where the first try is identifiable"""
    sidx = mc.sampled(cfg)
    pr = mc.make_prior(cfg)
    ssf = mc.make_ss(cfg['tgt'])
    ntry = ref.eff_ntry(cfg)
    unbounded = all(np.isinf([cfg['par'][i]['min'], cfg['par'][i]['max']]).all() for i in sidx)
    us = ref.eff_updatesigma(cfg)
    s2_0 = ref.eff_sigma2_0(cfg)
    chain = np.asarray(res['chain'])
    _, sts, _ = mc.steps(rec)
    out = []
    for i, (_, acc, _, _, _, evs) in enumerate(sts, start=1):
        if not evs:
            require(not acc and np.array_equal(chain[i], chain[i - 1]), 'step {}: moved without evaluating a candidate', i)
            continue
        if ntry > 1 and not unbounded and not len(evs) == ntry:
            continue
        s2 = np.asarray(res['s2chain'][i - 1]) if us else s2_0
        old = chain[i - 1]
        new = evs[0][0][sidx]
        la = ref.log_ratio(ssf(mc.full(cfg, new)), ssf(mc.full(cfg, old)), s2, pr(new), pr(old))
        ok = bool(acc) and len(evs) == 1
        out.append((i, la, ok, old, new, s2, ntry == 1 or unbounded))
    return out


def judge(cfg, rec, res):
    tries = first_tries(cfg, rec, res)
    n_up = n_down = 0
    d, v, top, bot = {}, {}, {}, {}
    for i, la, ok, old, new, s2, graded in tries:
        if math.isnan(la) or la < -60:
            n_down += 1
            require(not ok, 'step {}: candidate {} accepted although its log posterior ratio to {} is {} (sigma2={})',
                    i, new.tolist(), old.tolist(), la, s2.tolist())
        elif la > 1e-9 * (1 + abs(la)):
            n_up += 1
            require(ok, 'step {}: candidate {} rejected although its log posterior ratio to {} is +{} (sigma2={})',
                    i, new.tolist(), old.tolist(), la, s2.tolist())
        elif la < -1e-9 and graded:     # (else: selected by having been rejected)
            p = math.exp(la)
            for b in ('all', 'near' if p > 0.9 else 'hi' if p > 0.6 else 'mid' if p > 0.1 else 'low' if p > 0.02 else 'rare'):
                d[b] = d.get(b, 0.0) + (float(ok) - p)
                v[b] = v.get(b, 0.0) + p * (1 - p)
                top[b] = max(top.get(b, 0.0), p)
                bot[b] = max(bot.get(b, 0.0), 1 - p)
    for b in d:
        pv = ref.bernstein(d[b], v[b], up=bot[b], down=top[b])
        require(pv > P_MIN, 'acceptance frequency off ({}): excess of {:.1f} acceptances over the posterior ratios, '
                'variance {:.1f}, p<{:.2g}', b, d[b], v[b], pv)
    return n_up, n_down, len(tries) - n_up - n_down, v.get('all', 0.0)


def check(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    up, down, mid, _ = judge(cfg, rec, res)
    for _ in range(cfg.get('again', 0)):            # the rule holds from the first step of a continued run on
        off = len(res['chain']) - 1
        del rec.ev[:]
        with mc.sut('continued run_simulation'):
            m.run_simulation(use_previous_results=True)
        res = m.simulation_results.results
        u, d, g, _ = judge(cfg, rec, {'chain': np.asarray(res['chain'])[off:],
                                      's2chain': None if res['s2chain'] is None else np.asarray(res['s2chain'])[off:]})
        up, down, mid = up + u, down + d, mid + g
    return {'nt': up + down > 0 and up + down + mid > 3, 'n_must_accept': up, 'n_must_reject': down, 'n_graded': mid}


def check_freq(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    _, rec, res = mc.run(cfg)
    up, down, mid, v = judge(cfg, rec, res)
    return {'nt': v > 60, 'n_graded': mid, 'n_must_accept': up}


def check_rare(cfg):
    _, rec, res = mc.run(cfg)
    up, down, mid, v = judge(cfg, rec, res)
    return {'nt': v > 20, 'n_graded': mid, 'n_must_accept': up}


@mc.st.composite
def strat_freq(draw):
    """long chains whose proposals are about as wide as the posterior"""
    c = draw(mc.config(nsimu=(2500, 2500), npar=(1, 3), qkinds=('vector',), methods=('mh', 'mh', 'am', 'dr', 'dram'),
                       extra=False, holes=False, adaptints=(None, 50)))
    n = len(c['par'])
    c['opt'].pop('ntry', None)
    for p in c['par']:
        t = p['theta0'] = draw(mc.fl(-2, 2, 1))
        p['min'], p['max'] = -math.inf, math.inf
        if draw(mc.st.sampled_from([0, 0, 1])):
            p['min'] = t - draw(mc.fl(0.3, 2, 1))
        if 'mu' in p and p.get('sigma', 0) > 0:
            p['mu'] = t + draw(mc.fl(-1, 1, 1)) if not math.isnan(p['mu']) else p['mu']
            p['sigma'] = draw(mc.st.sampled_from([0.5, 1.0, 2.0]))
    for j in range(len(c['tgt']['b'])):
        for i in range(n):
            c['tgt']['c'][j][i] = round(c['par'][i]['theta0'] + draw(mc.fl(-1, 1, 1)), 3)
            c['tgt']['w'][j][i] = draw(mc.st.sampled_from([0.5, 1.0, 2.0]))
    c['opt']['qcov'] = [draw(mc.st.sampled_from([0.3, 1.0, 2.0])) for _ in range(n)]
    for k in ('sigma2', 'S20'):
        if k in c['model']:
            f = lambda: draw(mc.st.sampled_from([0.4, 1.0, 2.5]))
            c['model'][k] = [f() for _ in c['model'][k]] if isinstance(c['model'][k], list) else f()
    return c


def check_from_inf(cfg):
    """from a start of zero posterior density every point of positive density is accepted, and no other"""
    m, rec, res = mc.run(cfg)
    ssf, sidx = mc.make_ss(cfg['tgt']), mc.sampled(cfg)
    chain = np.asarray(res['chain'])
    left = tries = 0
    _, sts, _ = mc.steps(rec)
    for i, (_, acc, _, _, _, evs) in enumerate(sts, start=1):
        if np.isfinite(ssf(mc.full(cfg, chain[i - 1]))).all():
            break
        for q, _ in evs:
            good = bool(np.isfinite(ssf(q)).all())
            tries += 1
            left += good
            require(bool(acc) == good, 'step {}: candidate {} {} although its sum-of-squares is {} and the current one infinite', i,
                    q.tolist(), 'accepted' if acc else 'rejected', 'finite' if good else 'infinite')
    return {'nt': left > 0 or tries > 3, 'n_left': left, 'n_tries': tries}


@mc.st.composite
def strat_from_inf(draw):
    c = draw(mc.config(nsimu=(2, 40), npar=(1, 3), methods=('mh', 'am'), ntry=[None, 1], updatesigma=False, holes=False))
    k = draw(mc.st.integers(0, len(c['par']) - 1))
    c['tgt']['hole'] = ['inf', k, round(c['par'][k]['theta0'] - draw(mc.fl(0.001, 1, 3)), 4)]
    c['model'].pop('N0', None)
    c.pop('priorhole', None)
    return c


@mc.st.composite
def strat_rare(draw, slight=False):
    """a two-level posterior: half of the candidates are less likely by a factor exp(-a)"""
    c = draw(mc.config(nsimu=(2, 2), npar=(1, 2), methods=('mh', 'am', 'dram'), bounds='none', prior='none', sample=True, extra=False,
                       holes=False, updatesigma=False, priorfun=False, scaled=False, ntry=[None], qkinds=('vector',)))
    c['opt'].pop('adaptint', None)
    a = draw(mc.st.sampled_from([2.5, 3.5, 4.2, 5.0]))
    if slight:
        a = draw(mc.st.sampled_from([0.1, 0.05, 0.02, 0.01, 0.01]))
    c['nsimu'] = int(240 / a) if slight else int(100 * math.exp(a))
    if c['method'] == 'dram':
        c['method'] = 'dr'
        c['nsimu'] //= 1 if slight else 2
    ns, n = len(c['tgt']['b']), len(c['par'])
    c['tgt']['w'] = [[0.0] * n for _ in range(ns)]
    c['model']['sigma2'] = s2 = draw(mc.st.sampled_from([0.5, 1.0, 3.0]))
    c['tgt']['cell'] = [draw(mc.st.sampled_from([0.1, 1.0, 7.0])), 2 * a * s2 / ns]
    c['opt']['qcov'] = [(3 * c['tgt']['cell'][0]) ** 2] * n
    c['forms'] = {}
    for p in c['par']:
        p['theta0'] = 0.25 * c['tgt']['cell'][0]
    return c


@mc.st.composite
def strat_again(draw):
    c = draw(mc.config(nsimu=(2, 25), npar=(1, 3), extra=False, adaptints=(None, 5)))
    c['again'] = draw(mc.st.integers(1, 6))
    return c


PROP = Prop('C03', 'Metropolis acceptance rule', [
    Sub('extremes', mc.config(nsimu=(2, 80), npar=(1, 3), methods=mc.ALL), check, 1500, 30000,
        'non-trivial: at least one candidate whose posterior ratio forces acceptance (>1) or rejection (<1e-26), and more '
        'than 3 judged tries'),
    Sub('extremes_free', mc.config(nsimu=(10, 80), npar=(1, 3), bounds='none', qkinds=('vector', 'matrix'), holes=True),
        check, 700, 15000, 'as above, unbounded parameters and any number of tries'),
    Sub('continued', strat_again(), check, 500, 10000, 'as extremes, over 1-6 continuations'),
    Sub('from_inf', strat_from_inf(), check_from_inf, 300, 5000, 'starts of infinite sum-of-squares; non-trivial: some candidates judged'),
    Sub('frequency', strat_freq(), check_freq, 90, 3000,
        'chains of 2500 steps; acceptances are compared with the sum of acceptance probabilities in bands of the ratio by a '
        'Bernstein martingale bound (p<1e-10 is a violation); non-trivial: the sum of p(1-p) exceeds 60', shrink=False),
    Sub('rare', strat_rare(), check_rare, 24, 600,
        'two-level posteriors whose upper level has acceptance probability exp(-2.5) to exp(-5), 1200-15000 steps, judged as '
        'frequency; non-trivial: the sum of p(1-p) exceeds 20', shrink=False),
    Sub('slight', strat_rare(slight=True), check_rare, 8, 200,
        'two-level posteriors whose upper level has acceptance probability exp(-0.1) to exp(-0.01), 2400-24000 steps, judged as '
        'frequency; non-trivial: the sum of p(1-p) exceeds 20', shrink=False),
], assumptions=['user callbacks are deterministic',
                'numpy random numbers are uniform/normal (frequency bands are statistical, level 1e-10 per band)'])
