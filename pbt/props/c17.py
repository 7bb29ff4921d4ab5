"""C17: the proposal distribution that is asked for is the one that is used."""
import math

import numpy as np
import scipy.stats as sst
from scipy.special import ndtr

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut


def near(a, b):
    """covariances agree, each entry in units of its own deviations"""
    d = np.sqrt(np.diag(b))
    return bool((np.abs(np.asarray(a, dtype=float) - b) <= 1e-9 * np.outer(d, d)).all())


def check_initial(cfg):
    """reported proposal covariance of a run that does not adapt"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    _, _, res = mc.run(cfg, observe=False)
    smp = mc.sampled(cfg)
    full = ref.initial_qcov(cfg)
    want = full[np.ix_(smp, smp)]
    R = np.asarray(res['R'], dtype=float)
    require(R.shape == want.shape and near(R.T @ R, want), 'proposal factor gives covariance {} instead of {}',
            (R.T @ R).tolist(), want.tolist())
    require(near(res['qcov'], want), 'reported proposal covariance {} instead of {}', np.asarray(res['qcov']).tolist(), want.tolist())
    require(np.allclose(np.tril(R, -1), 0), 'proposal factor {} is not upper triangular', R.tolist())
    qo = np.asarray(res['qcovorig'], dtype=float)
    require(qo.shape == full.shape and near(qo, full),
            'covariance of all parameters reported as {} instead of {}', qo.tolist(), full.tolist())
    return {'nt': len(smp) > 1, 'n_par': len(smp), 'n_default': 'qcov' not in cfg['opt']}


def check_draws(cfg):
    """differences between candidates and the state they are proposed from, whitened, are standard normal"""
    _, rec, res = mc.run(cfg)
    smp = mc.sampled(cfg)
    C = ref.initial_qcov(cfg)[np.ix_(smp, smp)]
    L = np.linalg.cholesky(C)
    chain = np.asarray(res['chain'])
    ntry = ref.eff_ntry(cfg)
    sc = ref.eff_drscale(cfg)
    z = [[] for _ in range(ntry)]
    _, sts, _ = mc.steps(rec)
    for i, (_, acc, _, _, _, evs) in enumerate(sts, 1):
        for t, (q, _) in enumerate(evs):
            f = np.prod([sc[min(k, len(sc)) - 1] for k in range(1, t + 1)]) if t else 1.0
            z[t].append(np.linalg.solve(L, q[smp] - chain[i - 1]) * f)
    d = len(smp)
    used = 0
    rng = np.random.RandomState(cfg['seed'] % 2**31)
    for t in range(ntry):
        if len(z[t]) < 100:
            continue
        Z = np.array(z[t])
        used += len(Z)
        dirs = list(np.eye(d)) + [v / np.linalg.norm(v) for v in rng.randn(2 * d, d)]
        for v in dirs:
            p = ref.ks_p(ndtr(Z @ v))
            require(p > 1e-9, 'candidates of try {} in direction {} do not follow the configured normal distribution (n={}, p<{:.2g}, '
                    'mean {:.3f}, deviation {:.3f} in units of it)', t + 1, v.tolist(), len(Z), p, float((Z @ v).mean()), float((Z @ v).std()))
        if len(Z) > 2:
            w = (Z[1:] * Z[:-1]).sum(axis=1) / math.sqrt(d)
            s = w.sum() / math.sqrt(len(w))
            require(abs(s) < 12, 'successive candidates of try {} are correlated ({:.1f} deviations)', t + 1, s)
    return {'nt': used > 500, 'n_draws': used}


@mc.st.composite
def strat_initial(draw):
    c = draw(mc.config(nsimu=(1, 6), methods=('mh', 'dr'), npar=(1, 5), qkinds=('none', 'none', 'vector', 'matrix', 'matrix')))
    if 'qcov' not in c['opt'] and draw(mc.st.booleans()):        # parameters of very different size
        for p in c['par']:
            how = draw(mc.st.sampled_from(['as is', 'small', 'large', 'narrow', 'wide']))
            if how in ('small', 'large') and 'hole' not in c['tgt']:
                p['theta0'] = draw(mc.st.sampled_from([1e-6, -1e-6, 3e-9, 1e-12] if how == 'small' else [1e5, -1e5, 3e8]))
                p['min'], p['max'] = -math.inf, math.inf
            elif how in ('narrow', 'wide'):
                p['mu'], p['sigma'] = p['theta0'], draw(mc.st.sampled_from([1e-7, 1e-4] if how == 'narrow' else [1e4, 1e7]))
    return c


@mc.st.composite
def strat_draws(draw, adaptive=False):
    c = draw(mc.config(nsimu=(900, 900), methods=('mh', 'dr'), npar=(1, 4), bounds='none', holes=False, qkinds=('none', 'vector', 'matrix'),
                       ntry=[None, 1, 2, 3], updatesigma=False, priorfun=False, nsos=1))
    if draw(mc.st.booleans()):              # everything is rejected: all tries are used
        c['tgt'].update(w=[[0.0] * len(c['par'])], hole=['inf', 0, -1e9])
        c['flat'] = False
    c['tgt']['w'] = [[0.0] * len(c['par'])]
    return c


def check_draws_any(cfg):
    hole = cfg['tgt'].pop('hole', None)
    if hole is None:
        return check_draws(cfg)
    base = mc.make_ss(cfg['tgt'])
    first = []

    def ss(q):                              # only the starting point is possible
        v = base(q)
        if not first:
            first.append(q.copy())
        return v if np.array_equal(q, first[0]) else v * 0 + np.inf
    smp = mc.sampled(cfg)
    _, rec, res = mc.run(cfg, ss=ss)
    require(len(np.unique(np.asarray(res['chain']), axis=0)) == 1, 'moved to a point of infinite sum-of-squares')
    return judge_stuck(cfg, rec, smp)


def judge_stuck(cfg, rec, smp):
    C = ref.initial_qcov(cfg)[np.ix_(smp, smp)]
    L = np.linalg.cholesky(C)
    x0 = np.array([cfg['par'][i]['theta0'] for i in smp])
    ntry = ref.eff_ntry(cfg)
    sc = ref.eff_drscale(cfg)
    _, sts, _ = mc.steps(rec)
    n = 0
    for t in range(ntry):
        f = np.prod([sc[min(k, len(sc)) - 1] for k in range(1, t + 1)]) if t else 1.0
        require(all(len(s[5]) == ntry for s in sts), 'rejected steps use {} tries instead of {}', sorted({len(s[5]) for s in sts}), ntry)
        Z = np.array([np.linalg.solve(L, s[5][t][0][smp] - x0) * f for s in sts])
        n += len(Z)
        for v in np.eye(len(smp)):
            p = ref.ks_p(ndtr(Z @ v))
            require(p > 1e-9, 'candidates of try {} (after rejections) do not follow the configured normal distribution in whitened direction '
                    '{} (n={}, p<{:.2g}, deviation {:.3f})', t + 1, v.tolist(), len(Z), p, float((Z @ v).std()))
        if t:
            P = np.array([np.linalg.solve(L, s[5][t - 1][0][smp] - x0) for s in sts])
            s = float((P * Z).sum() / math.sqrt(P.size) / P.std())
            require(abs(s) < 12, 'candidates of tries {} and {} are correlated', t, t + 1)
    return {'nt': True, 'n_draws': n}


@mc.st.composite
def strat_tails(draw):
    return {'seed': draw(mc.seeds()), 'd': draw(mc.st.integers(8, 60)), 'nsimu': draw(mc.st.sampled_from([1200, 2500])),
            'method': draw(mc.st.sampled_from(['mh', 'dr'])), 'moves': draw(mc.st.booleans()),
            'qcov': draw(mc.st.sampled_from(['none', 'vector', 'matrix'])), 'rng': draw(mc.st.integers(0, 10 ** 6))}


def check_tails(c):
    """many parameters: enough deviates to judge the tails"""
    d = c['d']
    r = np.random.RandomState(c['rng'])
    x0 = np.round(r.uniform(0.5, 4, d), 2)
    if c['qcov'] == 'matrix':
        A = np.tril(r.uniform(-0.4, 0.4, (d, d)), -1) / math.sqrt(d) + np.diag(r.uniform(0.5, 2, d))
        C = A @ A.T
    elif c['qcov'] == 'vector':
        C = np.diag(r.uniform(0.1, 3, d))
    else:
        C = np.diag((0.05 * x0) ** 2)
    seen = []

    def ss(q, data):
        seen.append(np.array(q))
        return 1.0 if c['moves'] or len(seen) == 1 else np.inf
    with sut('run_simulation with many parameters'):
        from pymcmcstat.MCMC import MCMC
        m = MCMC(rngseed=c['seed'])
        m.data.add_data_set(np.zeros(1), np.zeros(1))
        for i in range(d):
            m.parameters.add_model_parameter('p%d' % i, x0[i])
        opt = {} if c['qcov'] == 'none' else {'qcov': C.copy() if c['qcov'] == 'matrix' else np.diag(C).copy()}
        m.simulation_options.define_simulation_options(nsimu=c['nsimu'], method=c['method'], waitbar=False, verbosity=0,
                                                       updatesigma=False, **opt)
        m.model_settings.define_model_settings(sos_function=ss, sigma2=1.0)
        m.run_simulation()
    chain = np.asarray(m.simulation_results.results['chain'])
    L = np.linalg.cholesky(C)
    ntry = 2 if c['method'] == 'dr' and not c['moves'] else 1
    cand = np.array(seen[1:])
    require(len(cand) == (c['nsimu'] - 1) * ntry, '{} candidates evaluated in {} steps', len(cand), c['nsimu'] - 1)
    n = 0
    for t in range(ntry):
        Z = np.linalg.solve(L, (cand[t::ntry] - chain[:-1]).T) * (5.0 if t else 1.0)
        n += Z.size
        p = ref.ks_p(ndtr(Z.ravel()))
        require(p > 1e-10, 'try {}: {} candidate deviates are not standard normal (p<{:.2g})', t + 1, Z.size, p)
        for lim in (2.0, 2.5, 3.0, 3.5, 4.0):
            for what, k in (('above', int((Z > lim).sum())), ('below', int((Z < -lim).sum()))):
                q = float(ndtr(-lim))
                pv = 2 * min(sst.binom.cdf(k, Z.size, q), sst.binom.sf(k - 1, Z.size, q))
                require(pv > 1e-11, 'try {}: {} of {} candidate deviates are {} {} deviations, expected {:.1f} (p={:.2g})', t + 1, k,
                        Z.size, what, lim, Z.size * q, pv)
        cc = (Z @ Z.T / Z.shape[1] - np.eye(d)) * math.sqrt(Z.shape[1])
        require((np.abs(cc) < 12).all(), 'try {}: deviates of different parameters are correlated (up to {:.1f} deviations)', t + 1,
                float(np.abs(cc).max()))
    return {'nt': True, 'n_draws': n}


PROP = Prop('C17', 'Proposal distribution', [
    Sub('covariance', strat_initial(), check_initial, 1500, 25000, 'non-trivial: more than one parameter is sampled'),
    Sub('draws', strat_draws(), check_draws_any, 150, 3000, 'runs of 900 steps in which everything, or nothing, is accepted; candidates are whitened '
        'with the configured covariance and tested by the DKW bound (p<1e-9); non-trivial: more than 500 candidates', shrink=False),
    Sub('tails', strat_tails(), check_tails, 14, 500, '8-60 parameters in which everything, or nothing, is accepted: tail counts, '
        'distribution and correlations of all deviates; non-trivial: always', attempts=3, shrink=False),
], assumptions=['numpy normal deviates'])
