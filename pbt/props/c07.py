"""C07: sampling of the error variance."""
import math

import numpy as np
import scipy.special as sp
import scipy.stats as sst

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut
from .c03 import P_MIN


def uniform_or_fail(u, what):
    u = np.asarray(u, float)
    n = len(u)
    if n == 0:
        return
    lo = float(np.minimum(u, 1 - u).min())
    require(lo * n > 1e-13, '{}: a value has conditional probability {:.2g}', what, lo)
    if n >= 20:
        p = ref.ks_p(u)
        require(p > P_MIN, '{}: values do not follow the conditional distribution (n={}, p<{:.2g}, mean of PIT {:.3f})', what, n,
                p, u.mean())
        z = (u.mean() - 0.5) * math.sqrt(12 * n)
        require(abs(z) < 6.9, '{}: mean of PIT {:.3f} over {} values (z={:.1f})', what, u.mean(), n, z)


def pit(s2, ssrow, N0, S20, N):
    """P(variance <= s2) for inverse gamma((N0+N)/2, (N0*S20+SS)/2)"""
    return sp.gammaincc(0.5 * (N0 + N), 0.5 * (N0 * S20 + ssrow) / s2)


def judge(cfg, res, start=0):
    ns = len(cfg['tgt']['b'])
    N0, S20, N = ref.eff_N0_S20_N(cfg)
    s2, ssc = np.asarray(res['s2chain'], float), np.asarray(res['sschain'], float)
    require(s2.shape == ssc.shape == (len(res['chain']), ns), 's2chain {} sschain {}', s2.shape, ssc.shape)
    require((s2 > 0).all() and np.isfinite(s2).all(), 'error variance not positive and finite')
    allu = []
    for j in range(ns):
        u = pit(s2[start + 1:, j], ssc[start + 1:, j], N0[j], S20[j], N[j])
        uniform_or_fail(u, 'error variance {} (N0={}, S20={}, N={})'.format(j, N0[j], S20[j], N[j]))
        allu.append(u)
    if ns > 1 and len(allu[0]) >= 50:
        for j in range(1, ns):
            a, b = sst.norm.ppf(np.clip(allu[0], 1e-12, 1 - 1e-12)), sst.norm.ppf(np.clip(allu[j], 1e-12, 1 - 1e-12))
            require(abs((a * b).sum()) < 8 * math.sqrt(len(a)) + 20, 'error variances 0 and {} are drawn dependently', j)
    for j in range(ns):
        u = allu[j]
        if len(u) >= 100:
            a = sst.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
            require(abs((a[1:] * a[:-1]).sum()) < 8 * math.sqrt(len(a)) + 20, 'error variance {}: successive draws are dependent', j)
    uniform_or_fail(np.concatenate(allu), 'all error variances')
    return len(allu) * (len(s2) - 1 - start)


def arrays(cfg):
    return {k: np.array(v, float) if isinstance(v, list) else v for k, v in cfg['model'].items()}


def check(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    user = arrays(cfg)
    keep = {k: np.array(v, copy=True) for k, v in user.items()}
    with sut('run_simulation'):
        m, rec = mc.build(cfg, observe=False)
        m.model_settings.define_model_settings(sos_function=m.model_settings.sos_function,
                                               prior_function=m.model_settings.prior_function, **user)
        m.run_simulation()
    res = m.simulation_results.results
    require(res['s2chain'] is not None, 'no error variance chain although updating was requested')
    require(np.allclose(res['s2chain'][0], ref.eff_sigma2_0(cfg), rtol=1e-9, atol=0), 'error variance starts at {} instead of {}',
            np.asarray(res['s2chain'][0]).tolist(), ref.eff_sigma2_0(cfg).tolist())
    n = judge(cfg, res)
    for k in keep:
        require(np.array_equal(keep[k], user[k]), 'the {} array passed by the user changed from {} to {}', k, keep[k].tolist(),
                np.asarray(user[k]).tolist())
    N0, S20, _ = ref.eff_N0_S20_N(cfg)
    require(np.allclose(res['model_settings']['S20'], S20, rtol=1e-9, atol=0), 'S20 is reported as {} instead of {}',
            np.asarray(res['model_settings']['S20']).tolist(), S20.tolist())
    require(np.allclose(res['model_settings']['N0'], N0, rtol=1e-9, atol=0), 'N0 is reported as {} instead of {}',
            np.asarray(res['model_settings']['N0']).tolist(), N0.tolist())
    if cfg.get('more'):
        start = cfg['nsimu'] - 1
        last = np.array(res['s2chain'][-1])
        with sut('continued run_simulation'):
            m.run_simulation(use_previous_results=True)
        res = m.simulation_results.results
        require(np.array_equal(res['s2chain'][start], last), 'continuation changed the last error variance')
        n += judge(cfg, res, start=start)
    return {'nt': cfg['nsimu'] > 20, 'n_draws': n}


def check_off(cfg):
    """no updating requested: the variance stays at its value, also in later runs of the same object"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    want = ref.eff_sigma2_0(cfg)
    for k in range(2):
        require(res['s2chain'] is None, 'run {}: error variance was updated without being requested', k + 1)
        st = [e for e in rec.ev if e[0] == 'step']
        require(all(np.allclose(e[5], want, rtol=1e-9, atol=0) for e in st), 'run {}: error variance is {} instead of {}', k + 1,
                st[-1][5].tolist() if st else None, want.tolist())
        require(np.allclose(res['model_settings']['sigma2'], want, rtol=1e-9, atol=0), 'run {}: sigma2 reported as {}', k + 1,
                np.asarray(res['model_settings']['sigma2']).tolist())
        if k == 0:
            with sut('second run_simulation'):
                m.run_simulation(use_previous_results=cfg['prev'])
            res = m.simulation_results.results
    return {'nt': len(rec.ev) > 10}


def check_gamma(c):
    from pymcmcstat.procedures.ErrorVarianceEstimator import ErrorVarianceEstimator
    np.random.seed(c['seed'] % (2 ** 32))
    with sut('gamma sampler'):
        y = ErrorVarianceEstimator().gammar(c['m'], c['n'], c['a'], c['b'])
    require(np.shape(y) == (c['m'], c['n']), 'shape {}', np.shape(y))
    if c['a'] <= 0:
        require((np.asarray(y) == 0).all(), 'non-positive shape parameter must give zeros')
        return {'nt': True}
    u = sst.gamma.cdf(np.asarray(y).ravel(), c['a'], scale=c['b'])
    if c['a'] < 0.1:
        u = np.clip(u, 1e-9, 1 - 1e-9)
    uniform_or_fail(u, 'gamma({}, {})'.format(c['a'], c['b']))
    return {'nt': u.size >= 20, 'n_draws': u.size}


@mc.st.composite
def strat(draw, nsimu=(20, 200)):
    c = draw(mc.config(nsimu=nsimu, npar=(1, 3), updatesigma=True, bounds='any', extra=False, holes=draw(mc.st.booleans())))
    # wide spread of N0, S20 and number of data
    if 'N0' in c['model'] and draw(mc.st.booleans()):
        f = lambda: draw(mc.st.sampled_from([0.5, 1, 7, 40]))
        c['model']['N0'] = [f() for _ in c['model']['N0']] if isinstance(c['model']['N0'], list) else f()
    c['ndata'] = [draw(mc.st.sampled_from([1, 1, 2, 2, 5, 30, 100, 800, 5000])) for _ in c['ndata']]
    if 'N' in c['model']:
        c['model']['N'] = list(c['ndata'])
    if 'N0' in c['model'] and draw(mc.st.booleans()):
        c['opt']['updatesigma'] = False                     # N0 alone requests updating
    c['more'] = draw(mc.st.booleans())
    return c


def score_moments(u, what):
    """normal scores of the PIT values: mean, variance, skewness and kurtosis (sharper than a test of the distribution function)"""
    n = len(u)
    g = sst.norm.ppf(np.clip(u, 1e-13, 1 - 1e-13))
    for k, (v, sd, lim) in enumerate([(g, 1, 7), (g ** 2 - 1, math.sqrt(2), 8), (g ** 3 - 3 * g, math.sqrt(6), 9),
                                      (g ** 4 - 6 * g ** 2 + 3, math.sqrt(24), 11)], start=1):
        z = v.sum() / (sd * math.sqrt(n))
        require(abs(z) < lim, '{}: moment {} of the normal scores of {} draws is off by {:.1f} standard errors', what, k, n, z)


def check_many(c):
    """many error variances with the same conditional shape: pooled draws"""
    from pymcmcstat.MCMC import MCMC
    ns, nsimu = c['nsos'], c['nsimu']
    base = np.linspace(0.5, 8, ns)
    m = MCMC(rngseed=c['seed'])
    for _ in range(ns):
        m.data.add_data_set(np.arange(float(c['ndata'])), np.arange(float(c['ndata'])))
    with sut('run_simulation'):
        m.simulation_options.define_simulation_options(nsimu=nsimu, method='mh', updatesigma=True, verbosity=0, waitbar=False,
                                                       qcov=np.eye(1) * 1e-4)
        m.model_settings.define_model_settings(sos_function=lambda q, d: base + q[0] ** 2, N0=c['N0'], S20=c['S20'])
        m.parameters.add_model_parameter('q', 0.5)
        m.run_simulation()
    r = m.simulation_results.results
    s2, ss = np.asarray(r['s2chain'], float), np.asarray(r['sschain'], float)
    require(s2.shape == (nsimu, ns), 'error variance chain has shape {}', s2.shape)
    u = pit(s2[1:], ss[1:], c['N0'], c['S20'], c['ndata']).ravel()
    what = 'error variances (N0={}, N={})'.format(c['N0'], c['ndata'])
    uniform_or_fail(u, what)
    score_moments(u, what)
    return {'nt': True, 'n_draws': u.size}


@mc.st.composite
def strat_many(draw):
    return {'seed': draw(mc.seeds()), 'nsos': 40, 'nsimu': 1500, 'N0': draw(mc.st.sampled_from([0.25, 0.5, 1.0, 3.0, 20.0])),
            'S20': draw(mc.st.sampled_from([0.1, 1.0, 7.0])), 'ndata': draw(mc.st.sampled_from([1, 1, 2, 3, 10, 50, 3000]))}


@mc.st.composite
def strat_off(draw):
    c = draw(mc.config(nsimu=(2, 30), npar=(1, 2), updatesigma=False))
    c['prev'] = draw(mc.st.booleans())
    return c


@mc.st.composite
def strat_gamma(draw):
    return {'seed': draw(mc.seeds()), 'm': draw(mc.st.sampled_from([1, 3, 40, 200])), 'n': draw(mc.st.sampled_from([1, 2, 10])),
            'a': draw(mc.st.one_of(mc.st.sampled_from([-1.0, 0.0, 0.5, 0.9, 1.0, 1.1, 2.0, 0.25]), mc.fl(0.05, 60, 2), mc.fl(60, 5000, 0))),
            'b': draw(mc.st.sampled_from([0.01, 1.0, 2.5, 300.0]))}


PROP = Prop('C07', 'Error variance', [
    Sub('conditional', strat(), check, 500, 12000,
        'every variance in the chain is transformed by the inverse-gamma CDF given the sum-of-squares of its row; the values '
        'are tested for uniformity (Dvoretzky-Kiefer-Wolfowitz, p<1e-10), independence and extremes; non-trivial: more than '
        '20 steps'),
    Sub('conditional_long', strat(nsimu=(1500, 1500)), check, 40, 1500, 'as above with 1500 steps', shrink=False),
    Sub('many', strat_many(), check_many, 24, 600, '40 error variances over 1500 steps with the same conditional shape, from 0.6 '
        'to 35: uniformity and moments of the normal scores of the 60000 pooled draws', shrink=False),
    Sub('off', strat_off(), check_off, 200, 4000, 'no updating requested; non-trivial: more than 10 observations'),
    Sub('gamma', strat_gamma(), check_gamma, 250, 6000, 'the gamma sampler; non-trivial: at least 20 draws or a degenerate shape'),
], assumptions=['statistical decisions at level 1e-10', 'positive sums of squares'])
