"""C16: meaning of the prior settings."""
import math
import os

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut
from .c09 import exact
from .c12 import usable


def prior_of(cfg):
    mu, sg = [], []
    for p in cfg['par']:
        m = p.get('mu', 0.0)
        mu.append(p['theta0'] if math.isnan(m) else m)
        s = p.get('sigma', math.inf)
        sg.append(s if s > 0 else math.inf)
    return np.array(mu), np.array(sg)


def check_user(cfg):
    """the user's prior function gets sampled values with their mean and deviation"""
    from pymcmcstat.MCMC import MCMC
    if not mc.initial_ok(cfg):
        raise Unsupported()
    calls = []
    rec = mc.Rec()

    def prior(th, mu, sigma):
        calls.append((np.array(th, dtype=float), np.array(mu, dtype=float).ravel(), np.array(sigma, dtype=float).ravel()))
        rec.ev.append(('pr', calls[-1][0], 0.0))
        r = (np.asarray(th) - np.where(np.isinf(calls[-1][2]), 0, calls[-1][1])) / np.where(np.isinf(calls[-1][2]), 3.0, calls[-1][2])
        return float((r ** 2).sum())
    def make(**over):
        m = MCMC(rngseed=cfg['seed'])
        mc.data_for(cfg, m)
        m.simulation_options.define_simulation_options(**mc.user_opts(cfg, **over))
        sos, _ = mc.callbacks(cfg, rec)
        m.model_settings.define_model_settings(sos_function=sos, prior_function=prior, **mc.user_model(cfg))
        mc.add_params(cfg, m)
        return m
    with mc.tmpdir():
        with sut('run_simulation'):
            m = make(**(dict(save_to_json=True, savedir='out', results_filename='r.json') if cfg['restart'] else {}))
            m.run_simulation()
            for _ in range(cfg['again']):
                m.run_simulation(use_previous_results=True)
        r = m.simulation_results.results
        if cfg['restart'] and usable(r['qcovorig']) and usable(r['qcov']):
            with sut('restart from results file'):
                m = make(json_restart_file=os.path.join('out', 'r.json'))
                m.run_simulation()
    mu, sg = prior_of(cfg)
    smp = mc.sampled(cfg)
    require(len(calls) > 0, 'the prior function was not called')
    for th, m_, s_ in calls:
        require(exact(m_, mu[smp]) and exact(s_, sg[smp]), 'prior called with mean {} and deviation {} instead of {} and {}', m_.tolist(), s_.tolist(),
                mu[smp].tolist(), sg[smp].tolist())
        require(th.shape == (len(smp),), 'prior called with {} values', th.shape)
    pr = m.simulation_results.results['prior']
    require(exact(np.asarray(pr['mu'], float)[smp], mu[smp]) and exact(np.asarray(pr['sigma'], float)[smp], sg[smp]),
            'prior in the results has mean {} and deviation {}', np.asarray(pr['mu']).tolist(), np.asarray(pr['sigma']).tolist())
    return {'nt': np.isfinite(sg[smp]).any() and len(calls) > 1, 'n_calls': len(calls)}


def check_default(c):
    """without a prior function, the default is sum(((theta - mu)/sigma)^2)"""
    from pymcmcstat.procedures.PriorFunction import PriorFunction
    mu, sg, th = (np.array(c[k], dtype=float) for k in ('mu', 'sigma', 'theta'))
    with sut('default prior'):
        v = PriorFunction(mu=mu.copy(), sigma=sg.copy()).evaluate_prior(th.copy())
        w = PriorFunction(priorfun=lambda t, m, s: float(t.sum() + m.sum()), mu=mu, sigma=sg).evaluate_prior(th)
    want = math.fsum(((a - b) / s) ** 2 for a, b, s in zip(th, mu, sg))
    v = float(np.asarray(v).reshape(-1)[0]) if np.size(v) == 1 else v
    require(np.ndim(v) == 0 and abs(v - want) <= 1e-12 * max(1.0, abs(want)) * len(th), 'default prior gives {} instead of {}', v, want)
    require(w == float(th.sum() + mu.sum()), 'user-defined prior gives {}', w)
    return {'nt': bool(np.isfinite(sg).any()), 'n_par': len(th)}


def check_equal(cfg):
    """default priors and an equivalent user-defined prior function give the same simulation"""
    if not mc.initial_ok(cfg):
        raise Unsupported()
    from pymcmcstat.MCMC import MCMC
    out = []
    for user in (False, True):
        rec = mc.Rec()
        sos, _ = mc.callbacks(cfg, rec)
        kw = {'prior_function': (lambda th, mu, sigma: float((((np.asarray(th) - mu) / sigma) ** 2).sum()))} if user else {}
        with sut('run_simulation'):
            m = MCMC(rngseed=cfg['seed'])
            mc.data_for(cfg, m)
            m.simulation_options.define_simulation_options(**mc.user_opts(cfg))
            m.model_settings.define_model_settings(sos_function=sos, **dict(mc.user_model(cfg), **kw))
            mc.add_params(cfg, m)
            m.run_simulation()
        out.append(m.simulation_results.results)
    require(np.allclose(out[0]['chain'], out[1]['chain'], rtol=1e-6, atol=1e-9), 'the default prior and the equivalent prior function give '
            'different simulations')
    return {'nt': len(np.unique(out[0]['chain'], axis=0)) > 1 and any(p.get('sigma', 0) > 0 for p in cfg['par'] if p['sample'])}


@mc.st.composite
def strat_user(draw):
    c = draw(mc.config(nsimu=(2, 30), priorfun=False))
    c['restart'] = draw(mc.st.sampled_from([False, False, True]))
    c['again'] = draw(mc.st.sampled_from([0, 1, 2]))
    return c


@mc.st.composite
def strat_default(draw):
    n = draw(mc.st.integers(1, 5))
    return {'mu': [draw(mc.fl(-9, 9)) for _ in range(n)], 'sigma': [draw(mc.st.sampled_from([math.inf, 1e-6, 1e-4, 0.01, 1.0, 4.0, 1e6])) for _ in range(n)],
            'theta': [draw(mc.fl(-9, 9)) for _ in range(n)]}


PROP = Prop('C16', 'Prior settings', [
    Sub('arguments', strat_user(), check_user, 700, 12000, 'a user-defined prior function records its arguments; non-trivial: a sampled parameter '
        'has a Gaussian prior'),
    Sub('default', strat_default(), check_default, 1200, 20000, 'non-trivial: some deviation is finite'),
    Sub('equivalent', mc.config(nsimu=(2, 40), priorfun=False), check_equal, 400, 8000, 'non-trivial: the chain moves and a sampled parameter has a '
        'Gaussian prior'),
])
