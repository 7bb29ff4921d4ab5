"""C20: propagation of parameter and observation uncertainty."""
import math

import numpy as np
from scipy.special import ndtr
from scipy.stats import chi2

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut


@mc.st.composite
def strat_intervals(draw, lo=2, hi=40, rows=12):
    n = draw(mc.st.integers(lo, hi))
    npar = draw(mc.st.integers(1, 5))
    smp = [i for i in range(npar) if draw(mc.st.sampled_from([True, True, False]))] or [draw(mc.st.integers(0, npar - 1))]
    ncol = draw(mc.st.sampled_from([1, 1, 1, 2, 3, 4, 5]))
    nrow = draw(mc.st.integers(1 if ncol == 1 else 2, 12)) if rows == 12 else rows
    s2kinds = (['none'] if rows == 12 else []) + ['float', 'one', 'vector', 'column']
    if ncol > 1:
        s2kinds += ['columns', 'columns', 'values', 'row']
    shape = draw(mc.st.sampled_from(['flat', 'column', 'row'])) if ncol == 1 else 'matrix'
    return {'n': n, 'npar': npar, 'smp': smp, 'ncol': ncol, 'nrow': nrow, 'shape': shape, 'seed': draw(mc.seeds()),
            's2': draw(mc.st.sampled_from(s2kinds)), 'sstype': draw(mc.st.sampled_from([0, 0, 0, 1, 2])),
            'nsample': draw(mc.st.one_of(mc.st.none(), mc.st.integers(1, n), mc.st.integers(n, 2 * n))),
            'parind': draw(mc.st.sampled_from(['list', 'array'])), 'theta': draw(mc.st.sampled_from(['list', 'array'])),
            'waitbar': draw(mc.st.sampled_from([False, False, False, True])), 'inplace': draw(mc.st.sampled_from([False, False, True]))}


def setup(c):
    rng = np.random.RandomState(c['seed'])
    chain = rng.randn(c['n'], len(c['smp'])) + 3
    theta = rng.randn(c['npar']) + 10
    coef = rng.randn(c['ncol'], c['npar'])
    t = np.linspace(0.5, 2, c['nrow'])

    def response(q):
        """(nrow, ncol), positive"""
        return np.exp(0.2 * np.sin(np.outer(np.arange(1, c['nrow'] + 1), q)) @ coef.T) * t[:, None] * np.arange(1, c['ncol'] + 1)
    k = c['s2']
    # variances of very different sizes, so that a wrong row or column shows
    rows = 10.0 ** rng.uniform(-10, 2, size=(c['n'], c['ncol']))
    if c['sstype'] == 2:
        rows = np.minimum(rows, 1.0)
    if k == 'none':
        s2, used = None, None
    elif k == 'float':
        s2 = float(rows[0, 0])
        used = np.full_like(rows, s2)
    elif k == 'one':
        s2 = rows[0, :1].copy()
        used = np.full_like(rows, s2[0])
    elif k == 'vector':
        s2 = rows[:, 0].copy()
        used = np.repeat(rows[:, :1], c['ncol'], axis=1)
    elif k == 'column':
        s2 = rows[:, :1].copy()
        used = np.repeat(rows[:, :1], c['ncol'], axis=1)
    elif k == 'columns':
        s2 = used = rows.copy()
    elif k == 'values':
        s2 = rows[0].copy()
        used = np.repeat(rows[:1], c['n'], axis=0)
    else:
        s2 = rows[:1].copy()
        used = np.repeat(rows[:1], c['n'], axis=0)
    if k in ('values', 'row') and c['n'] == c['ncol'] or (k in ('one', 'row') and c['n'] == 1):
        raise Unsupported()                    # ambiguous by construction
    return chain, theta, response, s2, used


def whiten(obs, y, s2, sstype):
    s = np.sqrt(s2)
    if sstype == 0:
        return (obs - y) / s
    if sstype == 1:
        return np.sqrt(y), (np.sqrt(np.maximum(obs, 0))), s
    return np.log(obs / y) / s


def run_intervals(c, extra=None):
    from pymcmcstat import propagation as up
    chain, theta, response, s2, used = setup(c)
    res = {'parind': list(c['smp']) if c['parind'] == 'list' else np.array(c['smp']),
           'theta': theta.tolist() if c['theta'] == 'list' else theta.copy()}
    calls = []
    data = object()
    bad = []

    def model(arg, d):
        q = np.array(arg, dtype=float)
        calls.append(q)
        if c.get('inplace'):                    # models that transform their argument in place
            arg[...] = 0.5 * arg - 3.0
        if d is not data:
            bad.append('the model did not get the data')
        y = response(q)
        return {'flat': y[:, 0], 'column': y, 'row': y.T, 'matrix': y}[c['shape']].copy()
    keep = chain.copy(), theta.copy(), None if s2 is None else np.array(s2)
    kw = {}
    if c['nsample'] is not None:
        kw['nsample'] = c['nsample']
    if s2 is not None:
        kw['s2chain'] = s2
    if c['sstype'] or c['seed'] % 2:
        kw['sstype'] = c['sstype']
    if extra:
        kw.update(extra)
    np.random.seed(c['seed'])
    with sut('calculate_intervals'):
        out = up.calculate_intervals(chain, res, data, model, waitbar=c['waitbar'], **kw)
    require(not bad, bad[0] if bad else '')
    require(np.array_equal(chain, keep[0]), 'the chain was modified')
    require(np.array_equal(np.asarray(res['theta']), keep[1]) and list(res['parind']) == list(c['smp']) and set(res) == {'parind', 'theta'},
            'the results were modified')
    require(s2 is None or np.array_equal(s2, keep[2]), 'the variances were modified')
    return chain, theta, response, s2, used, calls, out


def check_intervals(c):
    chain, theta, response, s2, used, calls, out = run_intervals(c)
    n = c['n']
    nsample = 500 if c['nsample'] is None else c['nsample']
    want = n if nsample >= n else nsample
    require(len(calls) == want, 'model evaluated {} times for {} samples', len(calls), want)
    q0 = theta.copy()
    rows = []
    for i, q in enumerate(calls):
        m = np.where((chain == q[c['smp']]).all(axis=1))[0]
        require(len(m) >= 1, 'parameters {} of sample {} are no row of the chain', q.tolist(), i)
        e = q0.copy()
        e[c['smp']] = chain[m[0]]
        require(np.array_equal(e, q), 'parameters of sample {} are {} instead of {}', i, q.tolist(), e.tolist())
        rows.append(int(m[0]))
    if nsample >= n:
        require(rows == list(range(n)), 'rows used are {} instead of all', rows)
    outs = out if c['ncol'] > 1 else [out]
    require(isinstance(outs, (list, tuple)) and len(outs) == c['ncol'], 'no intervals for each of the {} outputs', c['ncol'])
    ys = np.array([response(q) for q in calls])
    zs, us = [], []
    for j, o in enumerate(outs):
        cr = np.asarray(o['credible'])
        require(np.array_equal(cr, ys[:, :, j]), 'model responses of output {} (shape {}) are not those of the samples (shape {})',
                j, cr.shape, ys[:, :, j].shape)
        if s2 is None:
            require(o['prediction'] is None, 'predictions without error variance')
            continue
        pr = np.asarray(o['prediction'])
        require(pr.shape == cr.shape, 'predictions of output {} have shape {} instead of {}', j, pr.shape, cr.shape)
        v = used[rows, j][:, None]
        if c['sstype'] == 1:
            # observation is (sqrt(y) + e)^2: e is one of two values; the one closer to zero must be plausible
            require((pr >= 0).all(), 'negative prediction of a squared quantity')
            z = (np.sqrt(pr) - np.sqrt(cr)) / np.sqrt(v)
            require((np.abs(z) < 7.5).all(), 'prediction of output {} deviates by {} standard deviations', j, np.abs(z).max())
            us.append(ndtr(z) - ndtr((-np.sqrt(pr) - np.sqrt(cr)) / np.sqrt(v)))        # distribution function of the square
        else:
            z = whiten(pr, cr, v, c['sstype'])
            require((np.abs(z) < 7.5 + 1e-9 * np.abs(cr) / np.sqrt(v)).all(), 'prediction of output {} deviates by {} standard deviations', j,
                    np.abs(z).max())
            zs.append(z)
            us.append(ndtr(z))
    nz = 0
    if us:
        u = np.concatenate([a.ravel() for a in us])
        nz = len(u)
        if nz > 20:
            p = ref.ks_p(u)
            require(p > 1e-9, 'predictions do not scatter with the error variance (n={}, p<{:.2g})', nz, p)
        if c['sstype'] != 1 and nz > 20:
            for a in zs:
                for x, y in ((a[:, 1:], a[:, :-1]), (a[1:], a[:-1])):
                    if x.size > 20:
                        s = (x * y).sum() / math.sqrt(x.size)
                        require(abs(s) < 12, 'errors of neighbouring predictions are correlated ({:.1f} deviations)', s)
            if len(zs) > 1:
                s = (zs[0] * zs[1]).sum() / math.sqrt(zs[0].size)
                require(abs(s) < 12, 'errors of different outputs are correlated ({:.1f} deviations)', s)
    return {'nt': want > 1 and c['nrow'] > 1, 'n_predictions': nz, 'n_multiple': int(c['ncol'] > 1), 'n_subsampled': int(nsample < n)}


def check_uniform(c):
    """samples fewer than rows: every row of the chain is equally likely"""
    from pymcmcstat import propagation as up
    n = c['n']
    ns = min(c['k'], n - 1)
    chain = np.arange(n, dtype=float)[:, None] + 1.0
    seen = []

    def model(q, d):
        seen.append(int(q[0]) - 1)
        return np.array([q[0]])
    np.random.seed(c['seed'])
    with sut('calculate_intervals'):
        for _ in range(int(math.ceil(30 * n / ns))):
            up.calculate_intervals(chain, {'parind': [0], 'theta': np.array([0.0])}, None, model, nsample=ns, waitbar=False)
    cnt = np.bincount(seen, minlength=n)
    e = len(seen) / n
    x = float(((cnt - e) ** 2 / e).sum())
    p = float(chi2.sf(x, n - 1))
    require(len(cnt) == n and p > 1e-9, 'rows of the chain are not equally likely to be used: counts {} (p={:.2g})', cnt.tolist()[:40], p)
    return {'nt': n > 2, 'n_draws': len(seen)}


def check_quantiles(c):
    from pymcmcstat import propagation as up
    from pymcmcstat.plotting import utilities as pu
    rng = np.random.RandomState(c['seed'])
    x = rng.randn(c['n'], c['d']) * 3
    if c['ties']:
        x = np.round(x)
    if c['flat']:
        x = x[:, 0]
    keep = x.copy()
    p = np.array(c['p'])
    kw = {} if c['default'] else {'p': p}
    pp = np.array([0.25, 0.5, 0.75]) if c['default'] else p
    with sut('quantiles'):
        a = np.asarray(up.generate_quantiles(x, **kw))
        b = np.asarray(pu.empirical_quantiles(x, **kw))
    require(np.array_equal(x, keep), 'the sample was modified')
    want = np.quantile(keep, pp, axis=0)
    for nm, g in (('generate_quantiles', a), ('empirical_quantiles', b)):
        require(g.shape == want.shape and np.allclose(g, want, rtol=1e-10, atol=1e-12), '{} at {} of {} values: {} instead of {}', nm, pp.tolist(),
                c['n'], g.ravel().tolist()[:6], want.ravel().tolist()[:6])
    return {'nt': c['n'] > 2 and c['d'] > 1}


@mc.st.composite
def strat_quantiles(draw):
    return {'n': draw(mc.st.one_of(mc.st.integers(2, 60), mc.st.integers(2, 60), mc.st.integers(900, 3000))), 'd': draw(mc.st.integers(1, 6)), 'seed': draw(mc.seeds()), 'ties': draw(mc.st.booleans()),
            'flat': draw(mc.st.sampled_from([False, False, True])), 'default': draw(mc.st.sampled_from([False, False, True])),
            'p': draw(mc.st.one_of(mc.fl(0, 1, 3), mc.st.lists(mc.st.one_of(mc.fl(0, 1, 3), mc.st.sampled_from([0.0, 0.5, 1.0])), min_size=1, max_size=6)))}


@mc.st.composite
def strat_run(draw):
    c = draw(mc.config(nsimu=(2, 30), methods=('mh', 'dram'), npar=(1, 4), holes=False, priorfun=False))
    c['nsample'] = draw(mc.st.sampled_from([None, 5]))
    return c


def check_run(cfg):
    """on the results of a simulation"""
    from pymcmcstat import propagation as up
    mcs, _, res = mc.run(cfg, observe=False)
    chain = np.asarray(res['chain'])
    keep = {k: np.array(res[k]) for k in ('theta', 'chain', 'parind', 's2chain') if res.get(k) is not None}
    calls = []

    def model(q, d):
        calls.append((np.array(q), d))
        return np.array([q.sum(), (q ** 2).sum(), q[0]])
    kw = {'nsample': cfg['nsample']} if cfg['nsample'] else {}
    s2 = res['s2chain'] if cfg['opt']['updatesigma'] and np.asarray(res['s2chain']).shape[1] == 1 else None
    with sut('calculate_intervals'):
        out = up.calculate_intervals(res['chain'], res, mcs.data, model, s2chain=s2, waitbar=False, **kw)
    for k, v in keep.items():
        require(np.array_equal(np.array(res[k]), v), 'propagation modified {} in the results', k)
    legal = {mc.full(cfg, th).tobytes() for th in chain}
    for i, (q, d) in enumerate(calls):
        require(q.tobytes() in legal, 'sample {} evaluated at {}, which is no row of the chain with the other parameters at their values', i, q.tolist())
        require(d is mcs.data, 'the model did not get the data')
        require(np.array_equal(out['credible'][i], [q.sum(), (q ** 2).sum(), q[0]]), 'response of sample {} was not kept', i)
    require((out['prediction'] is None) == (s2 is None), 'prediction without variances or variances without prediction')
    require(len(calls) == (5 if cfg['nsample'] and len(chain) > 5 else len(chain)), '{} samples', len(calls))
    return {'nt': len(mc.sampled(cfg)) < len(cfg['par']), 'n_calls': len(calls)}


@mc.st.composite
def strat_uniform(draw):
    return {'n': draw(mc.st.integers(2, 60)), 'k': draw(mc.st.integers(1, 59)), 'seed': draw(mc.seeds())}


PROP = Prop('C20', 'Propagation of uncertainty', [
    Sub('intervals', strat_intervals(), check_intervals, 700, 12000, 'chains of 2-40 rows, 1-5 parameters of which some are sampled, 1-5 outputs, '
        'all forms of error variances over twelve orders of magnitude, three error types; non-trivial: more than one sample and point'),
    Sub('scatter', strat_intervals(20, 40, 100), check_intervals, 150, 2500, 'the same with 2000 to 12000 predictions per case; non-trivial: all'),
    Sub('uniform', strat_uniform(), check_uniform, 60, 1000, 'use of rows when fewer samples than rows are requested; non-trivial: more than two rows'),
    Sub('quantiles', strat_quantiles(), check_quantiles, 500, 10000, 'samples with and without ties, any probabilities; non-trivial: several columns'),
    Sub('run', strat_run(), check_run, 100, 1500, 'results of generated simulations; non-trivial: some parameters are not sampled'),
], assumptions=['responses are positive for the square root and logarithmic error types',
                'a vector of variances as long as the chain counts as one per row'])
