"""C15: data sets and the default sum-of-squares."""
import math

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut
from .c09 import exact


def arr(v, form):
    a = np.array(v, dtype=float)
    if a.ndim == 2 and form == 'list':
        return a.tolist()
    if a.ndim == 2 and form != 'int':
        return a
    if form == 'column':
        return a.reshape(-1, 1)
    if form == 'list':
        return [float(x) for x in v]
    if form == 'int':
        return np.round(a).astype(int)
    return a


def make_model(kind, ncol=1):
    one = model_column(kind)
    if ncol == 1:
        return one
    return lambda x, th: np.concatenate([one(x, th) * (1.0 - 0.3 * k) + k for k in range(ncol)], axis=1)


def model_column(kind):
    if isinstance(kind, list):                      # undefined for part of the data beyond some parameter value
        def gap(x, th):
            y = th[0] + th[-1] * x[:, :1]
            if th[kind[1]] > kind[2]:
                y[:1] = np.nan
            return y
        return gap
    if kind == 'line':
        return lambda x, th: th[0] + th[-1] * x[:, :1]
    if kind == 'decay':
        return lambda x, th: th[0] * np.exp(-0.1 * abs(th[-1]) * x[:, :1])
    return lambda x, th: x.sum(axis=1, keepdims=True) * th.sum() + th[0]


def check_ss(c):
    from pymcmcstat.MCMC import MCMC
    cfg = c['cfg']
    ncol = c.get('ncol', 1)
    model = make_model(c['model'], ncol)
    calls = []

    def fun(xdata, theta):
        calls.append((np.array(xdata, copy=True), np.array(theta, copy=True)))
        y = model(np.asarray(xdata, dtype=float), np.array(theta, dtype=float))
        if c.get('inplace'):                    # models that transform their argument in place
            theta[...] = 0.5 * theta - 3.0
        return y
    sets = [(arr(s['x'], s['form']), arr(s['y'], s['form']), s['w']) for s in c['sets']]
    with sut('run_simulation with model function'):
        m = MCMC(rngseed=cfg['seed'])
        for x, y, w in sets:
            m.data.add_data_set(x, y, **({} if w is None else {'weight': w}))
        m.simulation_options.define_simulation_options(**mc.user_opts(cfg))
        m.model_settings.define_model_settings(model_function=fun, **dict(c['ms'], **({'nbatch': len(sets)} if c['nbatch'] else {})))
        mc.add_params(cfg, m)
        m.run_simulation()
    res = m.simulation_results.results
    chain, ss = np.asarray(res['chain']), np.asarray(res['sschain'])
    require(ss.shape == (cfg['nsimu'], len(sets)), 'sum-of-squares chain has shape {} for {} data sets', ss.shape, len(sets))
    X = [np.asarray(x, float).reshape(len(x), -1) for x, _, _ in sets]
    Y = [np.asarray(y, float).reshape(len(x), -1) for x, y, _ in sets]
    for r in range(len(chain)):
        q = mc.full(cfg, chain[r])
        for b in range(len(sets)):
            w = 1.0 if sets[b][2] is None else sets[b][2]
            v = math.fsum((w * (Y[b] - model(X[b], q)) ** 2).ravel().tolist())
            require(abs(v - ss[r, b]) <= 1e-9 * (abs(v) + 1e-12), 'row {}, data set {}: weighted sum-of-squares is {}, reported {}', r, b, v,
                    ss[r, b])
    fixed = [i for i in range(len(cfg['par'])) if i not in mc.sampled(cfg)]
    q0 = mc.full(cfg, chain[0])
    for x, th in calls:
        require(th.shape == (len(cfg['par']),), 'model called with {} parameters', th.shape)
        require(np.array_equal(th[fixed], q0[fixed]), 'model called with unsampled parameters at {} instead of {}', th[fixed].tolist(), q0[fixed].tolist())
        require(any(exact(x, xb) for xb in X), 'model called with independent values that are not those of a data set')
    n = np.asarray(res['model_settings']['N'], dtype=float)
    require(exact(n, [len(y) for y in Y]), 'numbers of observations {} for data sets of {} observations', n.tolist(), [len(y) for y in Y])
    return {'nt': len(np.unique(chain, axis=0)) > 1 and len(sets) > 1, 'n_rows': len(chain), 'n_sets': len(sets)}


def check_same(c):
    """model function and the equivalent user sum-of-squares give the same simulation"""
    from pymcmcstat.MCMC import MCMC
    cfg = c['cfg']
    ncol = c.get('ncol', 1)
    model = make_model(c['model'], ncol)
    sets = [(arr(s['x'], 'column'), arr(s['y'], 'column'), s['w'] or 1.0) for s in c['sets']]
    chains = []
    for how in ('model', 'sos'):
        def sos(q, data):
            return np.array([sum(data.weight[k] * (data.ydata[k] - model(data.xdata[k], q)) ** 2).sum() for k in range(len(sets))])
        with sut('run_simulation ' + how):
            m = MCMC(rngseed=cfg['seed'])
            for x, y, w in sets:
                m.data.add_data_set(x, y, weight=w)
            m.simulation_options.define_simulation_options(**mc.user_opts(cfg))
            fn = {'model_function': model} if how == 'model' else {'sos_function': sos}
            m.model_settings.define_model_settings(**dict(c['ms'], **fn))
            mc.add_params(cfg, m)
            m.run_simulation()
        chains.append(m.simulation_results.results)
    a, b = chains
    require(np.allclose(a['sschain'], b['sschain'], rtol=1e-6, atol=1e-9) and np.allclose(a['chain'], b['chain'], rtol=1e-6, atol=1e-9),
            'a model function and the equivalent sum-of-squares function give different simulations')
    return {'nt': len(np.unique(a['chain'], axis=0)) > 1, 'n_rows': len(a['chain'])}


def check_data(c):
    """what is added can be read back"""
    from pymcmcstat.settings.DataStructure import DataStructure
    d = DataStructure()
    exp = []
    with sut('data structure'):
        for s in c['sets']:
            rng = np.random.RandomState(s['seed'])
            x = rng.rand(s['n']) if s['xcols'] == 0 else rng.rand(s['n'], s['xcols'])
            y = rng.rand(s['n']) if s['ycols'] == 0 else rng.rand(s['n'], s['ycols'])
            if s['scalar']:
                x, y = float(x.ravel()[0]), float(y.ravel()[0])
            elif s['list']:
                x, y = x.tolist(), y.tolist()
            kw = {}
            if s['w'] is not None:
                kw['weight'] = s['w']
            if s['over'] is not None:
                kw['n'] = s['over']
            if s['obj'] is not None:
                kw['user_defined_object'] = None if s['obj'] == 'none' else s['obj']
            d.add_data_set(x, y, **kw)
            exp.append((np.array(x, dtype=float).reshape(1 if s['scalar'] else s['n'], -1), np.array(y, dtype=float).reshape(1 if s['scalar'] else s['n'], -1),
                        s['over'] if s['over'] is not None else (1 if s['scalar'] else s['n']), 1 if s['w'] is None else s['w'],
                        0 if s['obj'] is None else None if s['obj'] == 'none' else s['obj']))
        nb, nd, no = d.get_number_of_batches(), d.get_number_of_data_sets(), d.get_number_of_observations()
    for k, name in enumerate(['xdata', 'ydata']):
        got = getattr(d, name)
        require(len(got) == len(exp), '{} of {} data sets', name, len(got))
        for i, e in enumerate(exp):
            require(exact(e[k], got[i]), '{} of data set {} is {} instead of {}', name, i, np.asarray(got[i]).tolist(), e[k].tolist())
    require([int(v) for v in d.n] == [e[2] for e in exp], 'numbers of observations {} instead of {}', d.n, [e[2] for e in exp])
    require(list(d.weight) == [e[3] for e in exp], 'weights {}', d.weight)
    require(list(d.user_defined_object) == [e[4] for e in exp], 'user objects {}', d.user_defined_object)
    require([tuple(s) for s in d.shape] == [e[1].shape for e in exp], 'shapes {}', d.shape)
    require(int(nb) == len(exp), '{} batches', nb)
    require(int(nd) == sum(e[1].shape[1] for e in exp), '{} data sets', nd)
    require(float(np.sum(no)) == sum(e[2] for e in exp), '{} observations', no)
    return {'nt': len(exp) > 1, 'n_sets': len(exp)}


@mc.st.composite
def sets(draw, hi=5, ncol=1):
    out = []
    for _ in range(draw(mc.st.sampled_from(list(range(1, hi + 1)) * 3 + [9]))):
        n = draw(mc.st.integers(1, 8))
        out.append({'x': [draw(mc.fl(0, 5, 1)) for _ in range(n)], 'y': [draw(mc.fl(-5, 5, 1)) if ncol == 1 else [draw(mc.fl(-5, 5, 1)) for _ in range(ncol)] for _ in range(n)],
                    'w': draw(mc.st.sampled_from([None, 1, 0.5, 3.0, 0])), 'form': draw(mc.st.sampled_from(['flat', 'column', 'int', 'list']))})
    return out


@mc.st.composite
def strat_ss(draw):
    ncol = draw(mc.st.sampled_from([1, 1, 1, 1, 2, 3]))
    s = draw(sets(ncol=ncol))
    cfg = draw(mc.config(nsimu=(2, 30), nsos=len(s), holes=False))
    ms = {k: v for k, v in cfg['model'].items() if k != 'N' and not isinstance(v, list)}
    k = draw(mc.st.integers(0, len(cfg['par']) - 1))
    gap = ['gap', k, max(cfg['par'][k]['theta0'], round(cfg['par'][k]['theta0'] + draw(mc.fl(0.0, 0.5, 2)), 4))]
    return {'cfg': cfg, 'sets': s, 'model': draw(mc.st.sampled_from(['line', 'decay', 'sum', gap])), 'ms': ms, 'nbatch': draw(mc.st.booleans()),
            'ncol': ncol, 'inplace': draw(mc.st.sampled_from([False, False, True]))}


@mc.st.composite
def strat_data(draw):
    out = []
    for _ in range(draw(mc.st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 9]))):
        out.append({'seed': draw(mc.st.integers(0, 999)), 'n': draw(mc.st.integers(1, 6)), 'xcols': draw(mc.st.integers(0, 3)),
                    'ycols': draw(mc.st.integers(0, 3)), 'scalar': draw(mc.st.sampled_from([False, False, False, True])),
                    'list': draw(mc.st.sampled_from([False, False, True])),
                    'w': draw(mc.st.sampled_from([None, 2, 0.5])), 'over': draw(mc.st.sampled_from([None, None, None, None, 7, 7, 40000])),
                    'obj': draw(mc.st.sampled_from([None, 'abc', 5, 'none', [1, 2]]))})
    return {'sets': out}


PROP = Prop('C15', 'Data sets and the default sum-of-squares', [
    Sub('sum_of_squares', strat_ss(), check_ss, 700, 12000, 'generated data sets (1-5 or 9) with weights and a model function; non-trivial: the '
        'chain moves and there is more than one data set'),
    Sub('equivalent', strat_ss(), check_same, 350, 6000, 'the same simulation through a model and through a sum-of-squares function; non-trivial: the chain moves'),
    Sub('data', strat_data(), check_data, 900, 15000, 'data sets of 1-D, 2-D arrays, lists and numbers; non-trivial: several sets'),
], assumptions=['a model function returns an array of the shape of the data set', 'data are arrays, lists of numbers (or rows) or numbers'])
