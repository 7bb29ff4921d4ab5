"""C23: panels of chain plots, and the plotting utilities."""
import copy
import math

import numpy as np

from .. import mc
from ..engine import Prop, Sub, require, sut


@mc.st.composite
def strat_panel(draw):
    d = draw(mc.st.integers(1, 7))
    kind = draw(mc.st.sampled_from(['density', 'chain', 'pairs', 'hist']))
    if kind == 'pairs':
        d = draw(mc.st.sampled_from([2, 3, 3, 4, 4, 6]))
    n = draw(mc.st.integers(10, 320))
    return {'kind': kind, 'd': d, 'n': n, 'seed': draw(mc.seeds()), 'names': draw(mc.st.sampled_from(['none', 'all', 'some'])),
            'skip': draw(mc.st.sampled_from([None, 1, 2, 3, 7])), 'maxpoints': draw(mc.st.sampled_from([None, 5, 20, 100, 150])),
            'hist': draw(mc.st.booleans()), 'kde': draw(mc.st.booleans()), 'size': draw(mc.st.booleans()),
            'ncols': draw(mc.st.sampled_from([0, d // 2, d - 1, d - 1, d]))}


def ref_points(n, skip, maxpoints):
    skip = 1 if skip is None else skip
    mp = 500 if maxpoints is None else maxpoints
    if n > mp:
        skip = n // mp
    return list(range(0, n, skip))


def ref_density(x, grid):
    """normal kernels, normal reference bandwidth"""
    h = 1.06 * x.std() * len(x) ** -0.2
    return np.array([np.exp(-0.5 * ((g - x) / h) ** 2).mean() / (h * math.sqrt(2 * math.pi)) for g in grid])


def check_panel(c):
    from pymcmcstat.plotting import MCMCPlotting as MP
    rng = np.random.RandomState(c['seed'])
    d, n = c['d'], c['n']
    x = rng.randn(n, d) * 10.0 ** rng.uniform(-2, 2, d) + rng.randn(d) * 5
    keep = x.copy()
    own = ['n{}'.format('abcdefgh'[i]) for i in range(d)]
    kw, want = {}, ['$p_{{{}}}$'.format(i) for i in range(d)]
    given = None
    if c['names'] == 'all':
        given = list(own)
    elif c['names'] == 'some':
        given = own[:c['ncols']]
    if given is not None:
        want = given + want[len(given):]
        kw['names'] = list(given)
    if c['size']:
        kw['figsizeinches'] = [6, 3]
    if c['kind'] in ('chain', 'pairs'):
        for k in ('skip', 'maxpoints'):
            if c[k] is not None:
                kw[k] = c[k]
    pts = ref_points(n, c['skip'], c['maxpoints'])
    P = MP.Plot()
    kde = None
    with sut('plot_{}_panel'.format(c['kind'])):
        if c['kind'] == 'density':
            kw['hist_on'] = c['hist']
            if c['kde']:
                kw['return_kde'] = True
                f, kde = P.plot_density_panel(x, **kw)
            else:
                f = P.plot_density_panel(x, **kw)
        elif c['kind'] == 'chain':
            f = P.plot_chain_panel(x, **kw)
        elif c['kind'] == 'hist':
            f = P.plot_histogram_panel(x, **kw)
        else:
            f = P.plot_pairwise_correlation_panel(x, **kw)
    require(np.array_equal(x, keep), 'the chain was modified')
    require(given is None or kw['names'] == given, 'the list of names was modified')
    if c['size']:
        require(np.allclose(f.get_size_inches(), [6, 3]), 'figure size {}', f.get_size_inches().tolist())
    axes = list(f.axes)
    if c['kind'] == 'pairs':
        pairs = [(i, j) for j in range(1, d) for i in range(j)]
        require(len(axes) == len(pairs), '{} plots for {} pairs', len(axes), len(pairs))
        seen = set()
        pos = {}
        for ax in axes:
            px, py = ax.lines[0].get_data()
            m = [(i, j) for i, j in pairs if np.array_equal(px, keep[pts, i]) and np.array_equal(py, keep[pts, j])]
            require(len(m) == 1, 'a plot shows no pair of columns, each at the same rows')
            seen.add(m[0])
            pos[m[0]] = ax.get_position()
            i, j = m[0]
            if i == 0:
                require(ax.get_ylabel() == want[j], 'pair {} is labelled {}', m[0], ax.get_ylabel())
            if i == j - 1:
                require((ax.get_xlabel() if d == 2 else ax.get_title()) == want[i], 'pair {} is labelled {} {}', m[0], ax.get_xlabel(), ax.get_title())
        require(seen == set(pairs), 'pairs shown are {}', sorted(seen))
        for (i, j), p in pos.items():
            for (k, l), q in pos.items():
                if i == k and j < l:
                    require(p.y0 > q.y0, 'rows are out of order')
                if j == l and i < k:
                    require(p.x0 < q.x0, 'columns are out of order')
        return {'nt': d > 2, 'n_axes': len(axes)}
    require(len(axes) == d, '{} plots for {} parameters', len(axes), d)
    boxes = [tuple(np.round([a.get_position().x0, a.get_position().y0], 6)) for a in axes]
    require(len(set(boxes)) == d, 'plots overlap')
    for i, ax in enumerate(axes):
        v = keep[:, i]
        if c['kind'] == 'chain':
            px, py = ax.lines[0].get_data()
            require(list(px) == pts and np.array_equal(py, v[pts]), 'plot {} shows {} points instead of rows {}...', i, len(px), pts[:4])
            require(ax.get_ylabel() == want[i], 'plot {} is labelled {}', i, ax.get_ylabel())
        else:
            require(ax.get_xlabel() == want[i], 'plot {} is labelled {}', i, ax.get_xlabel())
        if c['kind'] == 'hist' or (c['kind'] == 'density' and c['hist']):
            hs = np.array([p.get_height() for p in ax.patches])
            ws = np.array([p.get_width() for p in ax.patches])
            xs = np.array([p.get_x() for p in ax.patches])
            dens, edges = np.histogram(v, bins=10, density=True)
            require(len(hs) == 10 and np.allclose(hs, dens) and np.allclose(xs, edges[:-1]) and np.allclose(ws, np.diff(edges)),
                    'histogram of parameter {} is not that of its chain', i)
        if c['kind'] == 'density':
            require(want[i] in ax.get_ylabel(), 'plot {} has label {}', i, ax.get_ylabel())
            px, py = (np.ravel(a) for a in ax.lines[0].get_data())
            g = ref_grid(v, 100)
            require(len(px) == len(g) and np.allclose(px, g, atol=1e-9 * np.abs(g).max()), 'density of parameter {} is drawn over {} to {}', i, px[0], px[-1])
            r = ref_density(v, g)
            require(np.allclose(py, r, rtol=1e-6, atol=1e-9 * r.max()), 'density of parameter {} is not the kernel estimate of its chain', i)
    require(kde is None or len(kde) == d, '{} densities returned', 0 if kde is None else len(kde))
    return {'nt': d > 1, 'n_axes': len(axes)}


@mc.st.composite
def strat_metrics(draw):
    return {'n': draw(mc.st.one_of(mc.st.integers(2, 300), mc.st.integers(300, 3000))), 'seed': draw(mc.seeds()), 'scale': draw(mc.st.sampled_from([1e-3, 1.0, 50.0])),
            'name': draw(mc.st.sampled_from([None, None, 'a', 'slope', '$\\theta_1$'])), 'size': draw(mc.st.booleans()), 'slice': draw(mc.st.booleans())}


def check_metrics(c):
    from pymcmcstat.plotting import MCMCPlotting as MP
    x = np.random.RandomState(c['seed']).randn(c['n'], 3) * c['scale'] + 2
    v = x[:, 1] if c['slice'] else x[:, 1].copy()
    keep = v.copy()
    kw = {} if c['name'] is None else {'name': c['name']}
    if c['size']:
        kw['figsizeinches'] = [6, 3]
    with sut('plot_chain_metrics'):
        f = MP.Plot().plot_chain_metrics(v, **kw)
    require(np.array_equal(v, keep), 'the chain was modified')
    require(np.allclose(f.get_size_inches(), [6, 3]) or not c['size'], 'figure size {}', f.get_size_inches().tolist())
    nm = '$p_{0}$' if c['name'] is None else c['name']
    require(len(f.axes) == 2, '{} plots', len(f.axes))
    a, b = f.axes
    require(a.get_position().y0 > b.get_position().y0, 'the chain is not above its histogram')
    px, py = a.lines[0].get_data()
    require(list(px) == list(range(c['n'])) and np.array_equal(py, keep), 'the chain shown has {} points, of {}', len(px), c['n'])
    num, edges = np.histogram(keep, bins=10)
    require(len(b.patches) == 10 and np.allclose([p.get_height() for p in b.patches], num) and
            np.allclose([p.get_x() for p in b.patches], edges[:-1]), 'the histogram is not that of the chain')
    require(b.get_xlabel() == nm, 'the histogram is labelled {}, the name is {}', b.get_xlabel(), nm)
    require(a.get_ylabel().startswith(nm), 'the chain is labelled {}, the name is {}', a.get_ylabel(), nm)
    return {'nt': c['n'] > 10}


def ref_grid(v, npts):
    if len(v) > 200:
        r = v.max() - v.min()
        return np.linspace(v.min() - 0.08 * r, v.max() + 0.08 * r, npts)
    m, s = v.mean(), math.sqrt(((v - v.mean()) ** 2).sum() / (len(v) - 1))
    return np.linspace(m - 4 * s, m + 4 * s, npts)


@mc.st.composite
def strat_util(draw):
    return {'seed': draw(mc.seeds()), 'n': draw(mc.st.integers(2, 260)), 'm': draw(mc.st.integers(1, 40)), 'npts': draw(mc.st.integers(2, 120)),
            'rho': draw(mc.fl(-0.99, 0.99, 2)), 's': [draw(mc.st.sampled_from([0.01, 1.0, 30.0])) for _ in range(2)],
            'skip': draw(mc.st.integers(1, 9)), 'max': draw(mc.st.sampled_from([1, 2, 7, 50, 100, 500, 20000])),
            'rows': draw(mc.st.one_of(mc.st.integers(1, 300), mc.st.integers(300, 60000))), 'ndp': draw(mc.st.integers(4, 120)),
            'def': draw(nested()), 'user': draw(nested()), 'nonpd': draw(mc.st.booleans()), 'cols': draw(mc.st.integers(1, 3))}


def nested():
    leaf = mc.st.one_of(mc.st.integers(0, 3), mc.st.sampled_from(['a', 'b']), mc.st.none())
    return mc.st.dictionaries(mc.st.sampled_from('pqrs'), mc.st.one_of(leaf, mc.st.dictionaries(mc.st.sampled_from('xyz'), leaf, max_size=3)), max_size=4)


def ref_merge(d, u):
    out = {}
    for k in set(d) | set(u):
        if k in d and k in u and isinstance(d[k], dict) and isinstance(u[k], dict):
            out[k] = ref_merge(d[k], u[k])
        else:
            out[k] = copy.deepcopy(u[k] if k in u else d[k])
    return out


def check_util(c):
    from pymcmcstat.plotting import utilities as U
    from pymcmcstat.utilities import general as G
    rng = np.random.RandomState(c['seed'])
    with sut('generate_subplot_grid'):
        a, b = U.generate_subplot_grid(c['m'])
    require(a * b >= c['m'], 'a grid of {} by {} does not hold {} plots', a, b, c['m'])
    require(a * b < c['m'] + a + b, 'a grid of {} by {} for {} plots', a, b, c['m'])
    with sut('setup_subsample'):
        got = list(U.setup_subsample(c['skip'], c['max'], c['rows']))
    require(got == ref_points(c['rows'], c['skip'], c['max']), 'subsample of {} rows with skip {} and at most {} points: {}', c['rows'], c['skip'], c['max'], got[:5])
    x = rng.randn(c['n'], 1) * c['s'][0] + c['s'][1]
    keep = x.copy()
    with sut('make_x_grid'):
        g = np.asarray(U.make_x_grid(x, npts=c['npts']))
    r = ref_grid(keep[:, 0], c['npts'])
    require(g.shape == (c['npts'], 1) and np.allclose(g[:, 0], r, rtol=1e-9, atol=1e-9 * np.abs(r).max()), 'grid from {} to {}', g[0], g[-1])
    X = rng.randn(c['n'], c['cols']) * c['s'][0]
    keepX = X.copy()
    with sut('iqrange and scale_bandwidth'):
        q = np.ravel(U.iqrange(X))
        bw = float(np.ravel(U.scale_bandwidth(x))[0])
    iq = lambda v: np.subtract(*np.quantile(v, [0.75, 0.25], method='weibull'))
    require(np.array_equal(X, keepX) and np.array_equal(x, keep), 'the sample was modified')
    require(len(q) == c['cols'] and np.allclose(q, [iq(keepX[:, j]) for j in range(c['cols'])], rtol=1e-8), 'interquantile range {}', q.tolist())
    sd = keep.std(ddof=1)
    require(abs(bw - 1.06 * min(sd, iq(keep[:, 0]) / 1.34) * c['n'] ** -0.2) <= 1e-8 * bw, 'bandwidth {}', bw)
    mu, s2 = float(rng.randn()), c['s'][1] ** 2
    z = float(mu + rng.randn() * c['s'][1])
    with sut('gaussian_density_function'):
        gd = U.gaussian_density_function(z, mu, s2)
    require(abs(gd - math.exp(-(z - mu) ** 2 / (2 * s2)) / math.sqrt(2 * math.pi * s2)) <= 1e-9 * gd, 'normal density {}', gd)
    # contour of a covariance matrix
    s = c['s']
    C = np.array([[s[0] ** 2, c['rho'] * s[0] * s[1]], [c['rho'] * s[0] * s[1], s[1] ** 2]])
    m = rng.randn(2)
    if c['nonpd']:
        for bad in (np.array([[1.0, 2.0], [2.0, 1.0]]), np.array([[1.0, 0.3], [0.1, 1.0]]), np.eye(3)):
            try:
                U.generate_ellipse(m, bad)
            except (SystemExit, Exception):
                continue
            require(False, 'ellipse of the invalid covariance {}', bad.tolist())
    with sut('generate_ellipse'):
        ex, ey = U.generate_ellipse(m, C, ndp=c['ndp'])
    e = np.array([np.ravel(ex) - m[0], np.ravel(ey) - m[1]])
    require(e.shape[1] == c['ndp'], '{} points', e.shape[1])
    val = (e * np.linalg.solve(C, e)).sum(axis=0)
    require(np.allclose(val, 1, rtol=1e-6), 'points of the ellipse are at distances {}', np.sqrt(val).tolist()[:4])
    L = np.linalg.cholesky(C)
    w = np.linalg.solve(L, e)
    ang = np.unwrap(np.arctan2(w[1], w[0]))
    require(abs(abs(ang[-1] - ang[0]) - 2 * math.pi) < 1e-4 or c['ndp'] < 4, 'the ellipse is not closed')
    # merging of settings
    d, u = copy.deepcopy(c['def']), copy.deepcopy(c['user'])
    clash = any(isinstance(d.get(k), dict) and k in u and not isinstance(u[k], dict) for k in d)
    if not clash:
        for f in (U.check_settings, G.check_settings):
            with sut('check_settings'):
                got = f(d, u)
                got0 = f(d, None)
            require(got == ref_merge(c['def'], c['user']), 'settings {} over defaults {} give {}', u, d, got)
            require(got0 == c['def'] and d == c['def'] and u == c['user'], 'merging modified the settings')
    return {'nt': not clash}


PROP = Prop('C23', 'Chain plots', [
    Sub('panels', strat_panel(), check_panel, 160, 2500, 'chains of 10-320 rows and 1-7 columns, all panels and options; non-trivial: several parameters'),
    Sub('metrics', strat_metrics(), check_metrics, 60, 1000, 'chain and histogram of a single parameter, 2-3000 rows, with and without name; non-trivial: more than 10 rows'),
    Sub('utilities', strat_util(), check_util, 500, 8000, 'grids, subsampling, covariance contours, bandwidths and merging of settings; non-trivial: '
        'settings can be merged'),
], assumptions=['the kernel density estimator of statsmodels is installed'])
