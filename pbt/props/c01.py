"""C01: limits and fixed parameters."""
import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require


def judge(cfg, rec, res, what=''):
    sidx = mc.sampled(cfg)
    lo = np.array([cfg['par'][i]['min'] for i in sidx])
    hi = np.array([cfg['par'][i]['max'] for i in sidx])
    fixed = [i for i in range(len(cfg['par'])) if i not in sidx]
    fv = np.array([cfg['par'][i]['theta0'] for i in fixed])
    chain = np.asarray(res['chain'])
    require(chain.ndim == 2 and chain.shape[1] == len(sidx), 'chain has shape {}', chain.shape)
    bad = ~((chain >= lo) & (chain <= hi))
    require(not bad.any(), 'chain row {} outside limits: {} not in [{}, {}]',
            np.argwhere(bad)[:1].tolist(), chain[bad.any(axis=1)][:1].tolist(), lo.tolist(), hi.tolist())
    nss = 0
    for e in rec.ev:
        if e[0] == 'ss':
            nss += 1
            q = e[1]
            require(q.shape == (len(cfg['par']),), 'sum-of-squares got {} values', q.shape)
            v = q[sidx]
            require(((v >= lo) & (v <= hi)).all(), 'sum-of-squares evaluated outside limits at {}', q.tolist())
            require((q[fixed] == fv).all(), 'unsampled parameter changed: {} evaluated, fixed at {}',
                    q[fixed].tolist(), fv.tolist())
        elif e[0] == 'pr':
            require(e[1].shape == (len(sidx),), 'prior got {} values', e[1].shape)
            require(((e[1] >= lo) & (e[1] <= hi)).all(), 'prior evaluated outside limits at {}', e[1].tolist())
        elif e[0] == 'step':
            require(((e[3] >= lo) & (e[3] <= hi)).all(), 'state outside limits at {}', e[3].tolist())
    th = np.asarray(res['theta'], dtype=float)
    require(th.shape == (len(cfg['par']),), 'theta has shape {}', th.shape)
    require((th[fixed] == fv).all(), 'unsampled parameter reported as {} instead of {}', th[fixed].tolist(), fv.tolist())
    require(((th[sidx] >= lo) & (th[sidx] <= hi)).all(), 'theta outside limits')
    return nss


def check(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    m, rec, res = mc.run(cfg)
    nss = judge(cfg, rec, res)
    runs = 1
    for _ in range(cfg.get('again', 0)):
        with mc.sut('continued run_simulation'):
            m.run_simulation(use_previous_results=True)
        nss = judge(cfg, rec, m.simulation_results.results)
        runs += 1
    _, sts, _ = mc.steps(rec)
    tries = (cfg['nsimu'] - 1) * runs
    empty = sum(1 for s in sts if len(s[5]) == 0)
    bounded = any(np.isfinite([p['min'], p['max']]).any() and p['sample'] for p in cfg['par'])
    return {'nt': bounded and (empty > 0 or ref.eff_ntry(cfg) > 1) and len(sts) > 0,
            'n_steps': tries, 'n_evaluations': nss, 'n_steps_without_evaluation': empty,
            'n_fixed': sum(1 for p in cfg['par'] if not p['sample'])}


@mc.st.composite
def strat(draw, nsimu=(2, 60)):
    c = draw(mc.config(nsimu=nsimu, methods=mc.ALL))
    c['again'] = draw(mc.st.sampled_from([0, 0, 1, 2]))
    mc.zero_start(draw, c)
    return c


@mc.st.composite
def strat_multi(draw):
    """several bounded parameters, wide proposals, several tries"""
    c = draw(mc.config(nsimu=(20, 120), npar=(2, 5), methods=mc.ALL, bounds='finite', qkinds=('vector', 'matrix'), ntry=[1, 2, 3, 5],
                       adaptints=(None, 3, 10)))
    c['again'] = draw(mc.st.sampled_from([0, 1]))
    mc.zero_start(draw, c)
    return c


@mc.st.composite
def strat_edge(draw):
    """steps many orders of magnitude smaller than the parameters, which start at a limit"""
    c = draw(mc.config(nsimu=(5, 40), npar=(1, 3), bounds='finite', ntry=[None, 1, 2, 3], scaled=False, qkinds=('none',)))
    rel = draw(mc.st.sampled_from([1e-13, 1e-11, 1e-9, 1e-7, 1e-5]))
    q = []
    for p in c['par']:
        t = p['theta0'] = draw(mc.st.sampled_from([1.0, -1.0, 3.0, 1e3, -2e3, 1e6])) * draw(mc.fl(1, 2, 2))
        p['min'], p['max'] = draw(mc.st.sampled_from([(t, t + abs(t)), (t - abs(t), t), (t, np.inf), (-np.inf, t)]))
        q.append((rel * abs(t)) ** 2)
    c['opt']['qcov'] = q
    c['opt'].pop('qcov_adjust', None)
    c['forms'] = {}
    c['tgt'].pop('hole', None)
    c['again'] = 0
    return c


PROP = Prop('C01', 'Limits and fixed parameters', [
    Sub('limits', strat(), check, 900, 20000,
        'non-trivial: a sampled parameter is bounded and some try fell outside the limits (step without an '
        'evaluation) or several tries are allowed'),
    Sub('limits_wide', strat_multi(), check, 420, 8000, 'as above, with wide proposals in 2-5 bounded parameters'),
    Sub('limits_edge', strat_edge(), check, 250, 5000, 'as above, started at a limit with steps 1e-13 to 1e-5 of the parameters\' size'),
    Sub('limits_long', strat(nsimu=(300, 1200)), check, 60, 1200, 'as above, 300-1200 steps', shrink=False),
], assumptions=['user callbacks are deterministic', 'the starting point has finite sum-of-squares'])
