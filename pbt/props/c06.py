"""C06: adaptation of the proposal covariance."""
import math
import os

import numpy as np
import scipy.stats as sst

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut
from .c03 import P_MIN


def near(M, C, rtol):
    d = np.sqrt(np.diag(C))
    return bool((np.abs(np.asarray(M, float) - C) <= rtol * np.outer(d, d)).all())


def same(M, W, xmax, scale):
    M, W = np.asarray(M, float), np.asarray(W, float)
    if M.shape != W.shape:
        return False
    d = np.sqrt(np.abs(np.diag(W)))
    tol = 1e-6 * np.outer(d, d) + 1e-13 * np.outer(xmax, xmax) * scale ** 2 + 1e-290
    return bool((np.abs(M - W) <= tol).all())


def judge(cfg, res, start=0, chain=None, n_total=None, nsimu=None):
    sidx = mc.sampled(cfg)
    d = len(sidx)
    chain = np.asarray(res['chain'])
    traj, nad = ref.adaptation(cfg, chain, sidx, start=start, nsimu=nsimu)
    fin = traj[-1]
    scale = ref.eff_scale(cfg, d)
    xmax = np.abs(chain).max(axis=0)
    R = np.asarray(res['R'], float)
    require(R.shape == (d, d), 'R has shape {}', R.shape)
    require((np.abs(np.tril(R, -1)) <= 1e-8 * np.abs(np.diag(R)).max()).all(), 'R is not upper triangular: {}', R.tolist())
    Q = np.asarray(res['qcov'], float)
    require(np.allclose(Q, R.T @ R, rtol=1e-9, atol=0), 'qcov {} is not R^T R', Q.tolist())
    require(any(same(Q, o, xmax, scale) for o in fin.options),
            'proposal covariance after {} adaptations is {} instead of {}', nad, Q.tolist(), [o.tolist() for o in fin.options])
    if fin.cov is None:
        require(res['cov'] is None and res['mean'] is None, 'covariance reported without adaptation')
    else:
        require(same(res['cov'], fin.cov, xmax, 1.0), 'chain covariance {} instead of {}', np.asarray(res['cov']).tolist(),
                fin.cov.tolist())
        require(np.allclose(res['mean'], fin.mean, rtol=1e-9, atol=1e-10 * xmax), 'chain mean {} instead of {}',
                np.asarray(res['mean']).tolist(), fin.mean.tolist())
    return traj, nad, xmax, scale


def spread(cfg, rec, chain, traj, sidx):
    """first candidates of every step follow the current proposal covariance (no limits)"""
    if not all(np.isinf([cfg['par'][i]['min'], cfg['par'][i]['max']]).all() for i in sidx):
        return 0
    _, sts, _ = mc.steps(rec)
    zs = []
    for i, s in enumerate(sts, start=1):
        require(len(s[5]) > 0, 'step {}: no candidate was evaluated although there are no limits', i)
        R = traj[i].R
        if R is not None:
            z = np.linalg.solve(R.T, s[5][0][0][sidx] - chain[i - 1])
            require((np.abs(z) < 9).all(), 'step {}: candidate {} proposal standard deviations away', i, z.tolist())
            zs.append(z)
    if not zs:
        return 0
    z = np.array(zs)
    q = float((z ** 2).sum())
    p2 = 2 * min(sst.chi2.cdf(q, z.size), sst.chi2.sf(q, z.size))
    require(p2 > P_MIN, 'candidates spread by {:.3f} of the adapted proposal width over {} steps (p={:.2g})',
            math.sqrt(q / z.size), len(z), p2)
    return len(zs)


def check(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    sidx = mc.sampled(cfg)
    if cfg.get('savesize'):
        with mc.tmpdir() as d:
            _, rec, res = mc.run(cfg, save_to_txt=True, savedir=os.path.join(d, 'log'), savesize=cfg['savesize'])
            with open(os.path.join(d, 'log', 'covchainfile.txt')) as f:
                log = np.loadtxt(f, ndmin=2)
    else:
        _, rec, res = mc.run(cfg)
        log = None
    traj, nad, xmax, scale = judge(cfg, res)
    n = 0
    if log is not None:
        k = len(sidx)
        sz = cfg['savesize'] if cfg['savesize'] <= cfg['nsimu'] else cfg['nsimu']
        at = [i for i in range(1, cfg['nsimu']) if i % sz == 0]
        require(log.shape == (k * (len(at) + 1), k), 'covariance log has shape {} for {} saves', log.shape, len(at) + 1)
        for j, i in enumerate(at):
            got = log[j * k:(j + 1) * k]
            require(any(same(got, o, xmax, scale) for o in traj[i + 1].options),
                    'proposal covariance after step {} is {} instead of {}', i, got.tolist(), [o.tolist() for o in traj[i + 1].options])
            n += 1
    nz = spread(cfg, rec, np.asarray(res['chain']), traj, sidx)
    return {'nt': nad > 0, 'n_adaptations': nad, 'n_logged': n, 'n_candidates_judged': nz}


def check_continue(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    judge(cfg, res)
    start = cfg['nsimu'] - 1
    nad = 0
    cur = cfg
    for n2 in cfg['more']:
        rec.ev.clear()
        prev = np.array(res['chain'])
        cur = dict(cfg, nsimu=n2)
        cur['par'] = [dict(p) for p in cfg['par']]
        for i, v in zip(mc.sampled(cfg), prev[-1]):
            p = cur['par'][i]
            if 'mu' in p and math.isnan(p['mu']):
                p['mu'] = p['theta0']
            p['theta0'] = float(v)
        with sut('continued run_simulation'):
            m.simulation_options.define_simulation_options(**mc.user_opts(cur))
            m.run_simulation(use_previous_results=True)
        res = m.simulation_results.results
        _, k, _, _ = judge(cur, res, start=start, nsimu=n2)
        nad += k
        start += n2 - 1
    return {'nt': nad > 0, 'n_adaptations': nad}


def check_never(cfg):
    """methods without adaptation keep their proposal"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    _, rec, res = mc.run(cfg)
    sidx = mc.sampled(cfg)
    q0 = ref.initial_qcov(cfg)[np.ix_(sidx, sidx)]
    require(near(res['qcov'], q0, 1e-8), '{} changed the proposal covariance from {} to {}', cfg['method'],
            q0.tolist(), np.asarray(res['qcov']).tolist())
    traj, _ = ref.adaptation(cfg, np.asarray(res['chain']), sidx)
    nz = spread(cfg, rec, np.asarray(res['chain']), traj, sidx)
    return {'nt': len(np.unique(res['chain'], axis=0)) > 1, 'n_candidates_judged': nz}


# ------------------------------------------------------------ the recursive moments
@mc.st.composite
def strat_moments(draw):
    p = draw(mc.st.integers(1, 4))
    n = draw(mc.st.integers(2, 25))
    cuts = sorted(set(draw(mc.st.lists(mc.st.integers(1, n), max_size=4))))
    return {'p': p, 'n': n, 'seed': draw(mc.seeds()), 'cuts': cuts, 'shift': draw(mc.st.sampled_from([0.0, 10.0, -300.0])),
            'weights': draw(mc.st.sampled_from(['none', 'one', 'each'])), 'scale': draw(mc.st.sampled_from([1.0, 1e-3, 50.0]))}


def check_moments(c):
    from pymcmcstat.samplers.Adaptation import cholupdate, update_covariance_mean_sum
    rs = np.random.RandomState(c['seed'] % (2 ** 32))
    x = rs.randn(c['n'], c['p']) * c['scale'] + c['shift']
    if c['weights'] == 'each':
        w = rs.randint(1, 4, size=c['n']).astype(float)
    elif c['weights'] == 'one':
        w = np.full(c['n'], 2.0)
    else:
        w = np.ones(c['n'])
    cov = mean = wsum = None
    edges = [0] + [k for k in c['cuts'] if k < c['n']] + [c['n']]
    for a, b in zip(edges[:-1], edges[1:]):
        ww = None if c['weights'] == 'none' else (np.array([2.0]) if c['weights'] == 'one' else w[a:b].copy())
        with sut('update of chain covariance'):
            cov, mean, wsum = update_covariance_mean_sum(x[a:b].copy(), ww, cov, mean, wsum)
    with sut('update of chain covariance with no samples'):
        c2 = update_covariance_mean_sum(x[0:0].copy(), np.ones(1), cov, mean, wsum)
    require(c2[0] is cov or np.array_equal(c2[0], cov), 'empty update changed the covariance')
    W = w.sum()
    m = (w[:, None] * x).sum(0) / W
    C = ((x - m) * w[:, None]).T @ (x - m) / (W - 1)
    require(np.allclose(wsum, W), 'weights add to {} instead of {}', wsum, W)
    require(np.allclose(mean, m, rtol=1e-9, atol=1e-9 * c['scale']), 'mean {} instead of {}', np.asarray(mean).tolist(), m.tolist())
    require(np.allclose(cov, C, rtol=1e-6, atol=1e-8 * c['scale'] ** 2), 'covariance {} instead of {}', np.asarray(cov).tolist(),
            C.tolist())
    A = rs.randn(c['p'], c['p']) * 0.3 + np.eye(c['p'])
    R = np.linalg.cholesky(A @ A.T + 0.1 * np.eye(c['p'])).T
    v = rs.randn(c['p'])
    with sut('cholupdate'):
        R1 = cholupdate(R.copy(), v.copy())
    require(np.allclose(R1.T @ R1, R.T @ R + np.outer(v, v), rtol=1e-8, atol=1e-9), 'cholesky update is not R^T R + v v^T')
    return {'nt': len(edges) > 2, 'n_updates': len(edges) - 1}


@mc.st.composite
def strat(draw, **kw):
    a = dict(nsimu=(3, 90), npar=(1, 4), methods=('am', 'dram'), adaptints=(1, 2, 3, 5, 7, 10, 25), ntry=[None, None, 1, 2, 3])
    a.update(kw)
    c = draw(mc.config(**a))
    c['savesize'] = draw(mc.st.sampled_from([0, 0, 1, 5, 7, 10]))
    _wake(draw, c)
    return c


def _wake(draw, c):
    """make acceptance likely, so that the chain covariance has full rank"""
    if draw(mc.st.sampled_from([True, True, False])):
        n = len(c['par'])
        for j in range(len(c['tgt']['b'])):
            c['tgt']['w'][j] = [draw(mc.st.sampled_from([0.0, 0.3, 1.0])) for _ in range(n)]
            c['tgt']['c'][j] = [p['theta0'] for p in c['par']]
        c['opt']['qcov'] = draw(mc.qcov(n, kinds=('vector', 'matrix')))
        c['opt'].pop('RDR', None)
    for key in ('burnintime', 'lastadapt'):
        if draw(mc.st.sampled_from([False, False, True])):
            c['opt'][key] = draw(mc.st.integers(1, 60))
        elif draw(mc.st.booleans()):
            c['opt'].pop(key, None)


@mc.st.composite
def strat_cont(draw):
    c = draw(mc.config(nsimu=(1, 40), npar=(1, 3), methods=('am', 'dram'), adaptints=(1, 3, 5, 10), ntry=[None, None, 2]))
    _wake(draw, c)
    c['more'] = draw(mc.st.lists(mc.st.integers(1, 40), min_size=1, max_size=3))
    return c


@mc.st.composite
def strat_long(draw):
    c = draw(mc.config(nsimu=(700, 700), npar=(1, 3), methods=('am', 'dram'), adaptints=(None, 10, 50), ntry=[None, 2],
                       bounds='none'))
    _wake(draw, c)
    return c


@mc.st.composite
def strat_burnin(draw):
    """rejection rates around the thresholds of the scaling during burn-in"""
    c = draw(mc.config(nsimu=(60, 200), npar=(1, 2), methods=('am', 'dram'), adaptints=(20, 25, 40, 50), ntry=[None, 1, 1],
                       bounds='none', updatesigma=False, holes=False, priorfun=False))
    n = len(c['par'])
    s = draw(mc.st.sampled_from([0.1, 0.16, 0.2, 0.24, 0.3, 0.4, 8.0, 14.0, 20.0, 30.0, 45.0]))
    ns = len(c['tgt']['b'])
    for j in range(ns):
        c['tgt']['w'][j] = [1.0 if j == 0 else 0.0] * n
        c['tgt']['c'][j] = [p['theta0'] for p in c['par']]
    c['model'].pop('sigma2', None)
    c['opt']['qcov'] = [s ** 2] * n if n == 1 else [[s ** 2 if i == j else 0.0 for j in range(n)] for i in range(n)]
    c['opt'].pop('RDR', None)
    c['opt']['burnintime'] = draw(mc.st.integers(20, 220))
    c['opt'].pop('lastadapt', None)
    c['savesize'] = draw(mc.st.sampled_from([0, 0, 10]))
    return c


@mc.st.composite
def strat_never(draw):
    return draw(mc.config(nsimu=(50, 150), npar=(1, 4), methods=('mh', 'dr')))


def check_ram(cfg):
    """robust adaptive rule: R'R becomes R'(I + n^-eta (min(1, a) - target) uu'/|u|^2)R with the draw u and ratio a of the step"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    sidx = mc.sampled(cfg)
    d = len(sidx)
    over = {k: cfg['ram'][k] for k in ('alphatarget', 'etaparam') if k in cfg['ram']}
    with mc.tmpdir() as t:
        m, rec, res = mc.run(cfg, save_to_txt=True, savedir=os.path.join(t, 'log'), savesize=1, **over)
        with open(os.path.join(t, 'log', 'covchainfile.txt')) as f:
            log = np.loadtxt(f, ndmin=2)
    target, eta = over.get('alphatarget', 0.234), over.get('etaparam', 0.7)
    _, sts, _ = mc.steps(rec)
    chain, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    prior = mc.make_prior(cfg)
    C = ref.initial_qcov(cfg)[np.ix_(sidx, sidx)]
    ai = cfg['opt'].get('adaptint', 1)
    last = cfg['opt'].get('lastadapt') or cfg['nsimu']
    sc = cfg['opt'].get('adascale', 1.0)
    n = 0
    s2 = np.asarray(res['s2chain']) if res.get('s2chain') is not None else None
    fixed = np.asarray(cfg['model'].get('sigma2', 1.0), float)
    require(log.shape == (d * (len(sts) + 1), d), 'covariance log has shape {}', log.shape)
    for i, s in enumerate(sts, 1):
        require(1 <= len(s[5]) <= ref.eff_ntry(cfg), 'step {}: {} candidates', i, len(s[5]))
        q, v = s[5][0]
        L = np.linalg.cholesky(C)
        u = np.linalg.solve(L, q[sidx] - chain[i - 1])
        sig = s2[i - 1] if s2 is not None else fixed
        lr = ref.log_ratio(v, ss[i - 1], sig, prior(q[sidx]), prior(chain[i - 1]))
        a = 0.0 if math.isnan(lr) else math.exp(min(0.0, lr))
        if i % ai == 0 and i <= last:
            uu = u / np.linalg.norm(u)
            C = sc ** 2 * L @ (np.eye(d) + float(i) ** -eta * (a - target) * np.outer(uu, uu)) @ L.T
            n += 1
        got = log[(i - 1) * d:i * d]
        dd = np.sqrt(np.diag(C))
        require((np.abs(got - C) <= 1e-6 * np.outer(dd, dd)).all(), 'step {}: proposal covariance {} instead of {} (ratio {:.4g})', i, got.tolist(), C.tolist(), a)
        C = got                                     # no accumulation of rounding
    require(near(res['qcov'], C, 1e-8), 'final proposal covariance {} instead of {}', np.asarray(res['qcov']).tolist(), C.tolist())
    return {'nt': n > 2 and len(np.unique(chain, axis=0)) > 1, 'n_adaptations': n}


@mc.st.composite
def strat_ram(draw):
    c = draw(mc.config(nsimu=(2, 40), methods=('ram',), bounds='none', adapt=True, ntry=[None, 1, 2, 3], adaptints=(None, None, 1, 2, 3), extra=False))
    c['ram'] = {k: v for k, v in (('alphatarget', draw(mc.st.sampled_from([None, None, 0.1, 0.44]))), ('etaparam', draw(mc.st.sampled_from([None, None, 0.5, 1.0]))))
                if v is not None}
    la = draw(mc.st.sampled_from([None, None, 5, 12]))
    if la:
        c['opt']['lastadapt'] = la
    return c


PROP = Prop('C06', 'Adaptation', [
    Sub('trajectory', strat(), check, 1200, 24000,
        'runs of the adaptive methods: final and logged proposal covariance, chain covariance and mean against a batch '
        'reference; non-trivial: at least one adaptation'),
    Sub('trajectory_long', strat_long(), check, 48, 1500,
        'as above with 700 steps without limits, and the spread of the candidates', shrink=False),
    Sub('burnin', strat_burnin(), check, 200, 5000,
        'long burn-in with rejection rates on both sides of the scaling thresholds; non-trivial: at least one adaptation'),
    Sub('continued', strat_cont(), check_continue, 300, 6000, 'continued simulations; non-trivial: adaptation in a continuation'),
    Sub('robust', strat_ram(), check_ram, 200, 4000, 'method ram: covariance after every step against the robust adaptive rule; non-trivial: more than '
        'two adaptations and the chain moves'),
    Sub('never', strat_never(), check_never, 200, 4000, 'mh/dr; non-trivial: the chain moved'),
    Sub('moments', strat_moments(), check_moments, 600, 12000, 'recursive mean/covariance for any split of the samples; '
        'non-trivial: more than one chunk'),
], assumptions=['where the empirical covariance is singular to rounding, any outcome a Cholesky factorisation may give is accepted'])
