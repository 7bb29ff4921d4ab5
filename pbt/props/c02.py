"""C02: chain bookkeeping."""
import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require


def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def close(a, b, rtol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=rtol, atol=0, equal_nan=True)


def judge(cfg, rec, res, nsimu=None, start=None):
    """start: first row of a continued run (res holds its rows only)"""
    nsimu = nsimu or cfg['nsimu']
    sidx = mc.sampled(cfg)
    ns = len(cfg['tgt']['b'])
    ssf = mc.make_ss(cfg['tgt'])
    chain, sschain = np.asarray(res['chain']), np.asarray(res['sschain'])
    require(chain.shape == (nsimu, len(sidx)), 'chain shape {} for nsimu={} and {} sampled parameters',
            chain.shape, nsimu, len(sidx))
    require(sschain.shape == (nsimu, ns), 'sschain shape {}', sschain.shape)
    us = ref.eff_updatesigma(cfg)
    if us:
        require(np.shape(res['s2chain']) == (nsimu, ns), 's2chain shape {}', np.shape(res['s2chain']))
        require(start is not None or close(res['s2chain'][0], ref.eff_sigma2_0(cfg)), 's2chain starts at {} instead of {}',
                np.asarray(res['s2chain'][0]).tolist(), ref.eff_sigma2_0(cfg).tolist())
        require((np.asarray(res['s2chain']) > 0).all(), 's2chain not positive')
    else:
        require(res['s2chain'] is None, 's2chain present without error variance updating')
    th0 = np.array([cfg['par'][i]['theta0'] for i in sidx]) if start is None else start
    require(eq(chain[0], th0), 'chain starts at {} instead of {}', chain[0].tolist(), th0.tolist())
    lead, sts, tail = mc.steps(rec)
    require(len(sts) == nsimu - 1, '{} steps for nsimu={}', len(sts), nsimu)
    require([s[0] for s in sts] == list(range(1, nsimu)), 'step numbers {}', [s[0] for s in sts][:5])
    rejected = empty = 0
    nev = []
    ntry = ref.eff_ntry(cfg)
    unbounded = all(np.isinf([cfg['par'][i]['min'], cfg['par'][i]['max']]).all() for i in sidx)
    stage_acc = np.zeros(ntry, dtype=int)
    for i, (isimu, acc, theta, ss, s2, evs) in enumerate(sts, start=1):
        require(len(evs) <= ntry, 'step {}: {} evaluations with ntry={}', i, len(evs), ntry)
        cand = [q[sidx] for q, _ in evs]
        require(eq(theta, chain[i]), 'step {}: current state {} but chain row {}', i, theta.tolist(), chain[i].tolist())
        if acc:
            require(len(evs) > 0 and eq(chain[i], cand[-1]),
                    'step {}: accepted, but row {} is not the last candidate {}', i, chain[i].tolist(),
                    cand[-1].tolist() if cand else None)
            if unbounded:
                stage_acc[len(evs) - 1] += 1
        else:
            rejected += 1
            require(eq(chain[i], chain[i - 1]), 'step {}: rejected, but row {} differs from previous {}', i,
                    chain[i].tolist(), chain[i - 1].tolist())
        if not evs:
            empty += 1
        want = ssf(mc.full(cfg, chain[i]))
        require(close(sschain[i], want), 'row {}: sschain {} but sum-of-squares of chain row is {}', i,
                sschain[i].tolist(), want.tolist())
        require(close(ss, want), 'step {}: current sum-of-squares {} but chain row has {}', i, ss.tolist(), want.tolist())
        if us:
            require(close(s2, res['s2chain'][i]), 'step {}: sigma2 {} but s2chain row {}', i, s2.tolist(),
                    np.asarray(res['s2chain'][i]).tolist())
        else:
            require(close(np.ones(ns) * s2, ref.eff_sigma2_0(cfg)), 'step {}: sigma2 changed to {}', i, s2.tolist())
        nev.append(len(evs))
    require(close(sschain[0], ssf(mc.full(cfg, chain[0]))), 'first sschain row {}', sschain[0].tolist())
    # summary statistics
    require(close(res['total_rejected'] * nsimu, rejected), 'total_rejected={} but {} of {} steps were rejected',
            res['total_rejected'], rejected, nsimu)
    ob = res['rejected_outside_bounds'] * nsimu
    require(abs(ob - round(ob)) < 1e-6 and 0 <= round(ob) <= rejected,
            'rejected_outside_bounds={} with {} rejections', res['rejected_outside_bounds'], rejected)
    if unbounded:
        require(round(ob) == 0, 'rejections outside bounds without bounds')
    if ntry == 1:
        require(round(ob) == empty, 'rejected_outside_bounds*nsimu={} but {} tries were outside', ob, empty)
    else:
        require(round(ob) >= empty, 'rejected_outside_bounds*nsimu={} but {} steps had all tries outside', ob, empty)
        iacce = np.asarray(res['iacce'])
        require(iacce.shape == (ntry,), 'iacce {}', iacce.tolist())
        require(iacce.sum() == nsimu - rejected, 'iacce {} does not add up to {} accepted', iacce.tolist(), nsimu - rejected)
        if unbounded:
            require(list(iacce[1:]) == list(stage_acc[1:]), 'iacce {} but accepted per stage {}', iacce.tolist(),
                    stage_acc.tolist())
    # description of the run
    require(eq(res['theta'], mc.full(cfg, chain[-1])), 'theta {} is not the last state', np.asarray(res['theta']).tolist())
    require(list(res['parind']) == sidx, 'parind {}', list(res['parind']))
    nm = mc.names_for(cfg)
    require(list(res['names']) == [nm[i] for i in sidx], 'names {}', list(res['names']))
    require(list(res['allnames']) == nm, 'allnames {}', list(res['allnames']))
    require(eq(res['limits'][0], [cfg['par'][i]['min'] for i in sidx]) and
            eq(res['limits'][1], [cfg['par'][i]['max'] for i in sidx]), 'limits {}', res['limits'])
    require(res['nsimu'] == nsimu, 'nsimu {}', res['nsimu'])
    mu = [p['theta0'] if np.isnan(p.get('mu', 0.0)) else p.get('mu', 0.0) for p in cfg['par']]
    require(eq(res['prior']['mu'], mu), 'prior mu {}', res['prior']['mu'])
    require(eq(res['prior']['sigma'], ref.prior_sigma(cfg)), 'prior sigma {}', res['prior']['sigma'])
    require(bool(res['simulation_options']['updatesigma']) == us, 'updatesigma {}', res['simulation_options']['updatesigma'])
    return rejected, sum(nev)


def check(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    rejected, ev = judge(cfg, rec, res)
    acc = cfg['nsimu'] - 1 - rejected
    return {'nt': acc > 0 and rejected > 0, 'n_accepted': acc, 'n_rejected': rejected, 'n_evaluations': ev}


def check_rerun(cfg):
    """a second, fresh run of the same object reports on itself only"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    first = judge(cfg, rec, res)
    keep = {k: np.array(res[k], copy=True) if res[k] is not None else None for k in ('chain', 'sschain', 's2chain', 'theta')}
    rec.ev.clear()
    c2 = dict(cfg, nsimu=cfg['nsimu2'])
    with mc.sut('second run_simulation'):
        m.simulation_options.define_simulation_options(**mc.user_opts(c2))
        m.model_settings.define_model_settings(sos_function=m.model_settings.sos_function,
                                               prior_function=m.model_settings.prior_function, **mc.user_model(c2))
        m.run_simulation()
    second = judge(c2, rec, m.simulation_results.results)
    for k, v in keep.items():
        require((v is None and res[k] is None) or eq(v, res[k]), 'results[{}] of the first run changed by the second', k)
    return {'nt': first[0] > 0 and second[0] > 0 and cfg['nsimu2'] > 2}


def check_continued(cfg):
    """each continuation reports on its own steps"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    rej = [judge(cfg, rec, res)[0]]
    for n in cfg['more']:
        off = len(res['chain']) - 1
        rec.ev.clear()
        c2 = dict(cfg, nsimu=n)
        with mc.sut('continued run_simulation'):
            m.simulation_options.define_simulation_options(**mc.user_opts(c2))
            m.run_simulation(use_previous_results=True)
        last = np.array(res['chain'][-1])
        res = m.simulation_results.results
        part = dict(res)
        for k in ('chain', 'sschain', 's2chain'):
            if res[k] is not None:
                part[k] = res[k][off:]
        rej.append(judge(c2, rec, part, start=last)[0])
    return {'nt': sum(r > 0 for r in rej) > 1, 'n_runs': len(rej)}


@mc.st.composite
def strat(draw, **kw):
    c = mc.zero_start(draw, draw(mc.config(methods=mc.ALL, **kw)))
    if 'from' in c:             # no error variance is defined by an infinite sum-of-squares
        c['opt']['updatesigma'] = False
        for k in ('N0', 'S20', 'N'):
            c['model'].pop(k, None)
    return c


@mc.st.composite
def strat_continued(draw):
    c = draw(strat(nsimu=(2, 30)))
    c['more'] = draw(mc.st.lists(mc.st.integers(2, 30), min_size=1, max_size=3))
    return c


@mc.st.composite
def strat_rerun(draw):
    c = draw(strat(nsimu=(2, 40)))
    c['nsimu2'] = draw(mc.st.integers(1, 40))
    return c


PROP = Prop('C02', 'Chain bookkeeping', [
    Sub('rows', strat(nsimu=(1, 60)), check, 1000, 20000,
        'non-trivial: the run has both accepted and rejected steps'),
    Sub('rows_free', strat(nsimu=(10, 120), bounds='none', qkinds=('none', 'vector', 'matrix'), npar=(1, 3)), check,
        500, 10000, 'unbounded parameters, so that the accepting try is known; non-trivial as above'),
    Sub('rows_long', strat(nsimu=(300, 1200)), check, 60, 1200, 'as above, 300-1200 steps', shrink=False),
    Sub('continued', strat_continued(), check_continued, 250, 4000, '2-4 runs of one history; non-trivial: two of them contain rejections'),
    Sub('rerun', strat_rerun(), check_rerun, 200, 3000, 'non-trivial: both runs contain rejections'),
], assumptions=['user callbacks are deterministic', 'a start of infinite or undefined sum-of-squares only without error variance updating'])
