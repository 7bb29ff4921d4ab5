"""C21: interval plots show the requested quantiles."""
import numpy as np

from .. import mc
from ..engine import Prop, Sub, require, sut


def band(coll):
    """x -> (lowest, highest) of a filled band"""
    v = np.concatenate([p.vertices for p in coll.get_paths()])
    xs = np.unique(v[:, 0])
    return xs, np.array([v[v[:, 0] == x, 1].min() for x in xs]), np.array([v[v[:, 0] == x, 1].max() for x in xs])


def same_color(a, b):
    from matplotlib.colors import to_rgba
    return np.allclose(to_rgba(a)[:3], to_rgba(b)[:3])


@mc.st.composite
def strat(draw):
    lim = mc.st.lists(mc.st.sampled_from([10, 25, 50, 68, 75, 90, 95, 99, 99.9, 100]), min_size=1, max_size=4, unique=True)
    c = {'n': draw(mc.st.integers(2, 60)), 'm': draw(mc.st.integers(2, 15)), 'seed': draw(mc.seeds()), 'pred': draw(mc.st.booleans()),
         'limits': draw(mc.st.one_of(mc.st.none(), lim)), 'ci': draw(mc.st.one_of(mc.st.none(), mc.st.none(), lim)),
         'pi': draw(mc.st.one_of(mc.st.none(), mc.st.none(), lim)), 'ydata': draw(mc.st.sampled_from(['none', 'time', 'x', 'same'])),
         'timeshape': draw(mc.st.sampled_from(['flat', 'column'])), 'fig': draw(mc.st.booleans()), 'settings': draw(mc.st.booleans()),
         'flags': {}, 'display': draw(mc.st.booleans()), 'colors': draw(mc.st.sampled_from(['none', 'none', 'match', 'wrong'])),
         'cmap': draw(mc.st.sampled_from([None, None, 'viridis'])), 'order': draw(mc.st.sampled_from(['up', 'up', 'up', 'down', 'mixed']))}
    for k in ('adddata', 'addmodel', 'addlegend', 'addcredible', 'addprediction'):
        v = draw(mc.st.sampled_from([None, None, None, True, False]))
        if v is not None:
            c['flags'][k] = v
    return c


def check(c):
    import matplotlib
    import matplotlib.pyplot as plt
    from pymcmcstat import propagation as up
    rng = np.random.RandomState(c['seed'])
    time = np.cumsum(rng.uniform(0.1, 1.0, c['m']))
    if c.get('order') == 'down':
        time = time[::-1].copy()
    elif c.get('order') == 'mixed':
        time = rng.permutation(time)
    cred = rng.randn(c['n'], c['m']) + time
    pred = cred + 2 * rng.randn(c['n'], c['m']) if c['pred'] else None
    iv = {'credible': cred, 'prediction': pred}
    keep = cred.copy(), None if pred is None else pred.copy(), time.copy()
    t = time.copy() if c['timeshape'] == 'flat' else time.copy().reshape(-1, 1)
    kw = dict(c['flags'])
    lim = [95] if c['limits'] is None else list(c['limits'])
    if c['limits'] is not None:
        kw['limits'] = list(c['limits'])
    sets, want = {}, {}
    cols = ['r', 'g', 'b', 'm', 'y']
    for key, tag, own in (('ciset', 'CI', c['ci']), ('piset', 'PI', c['pi'])):
        l = sorted(lim if own is None else own, reverse=True)
        d = {}
        if own is not None:
            d['limits'] = list(own) if c['colors'] == 'none' else list(l)
        elif c['colors'] != 'none':
            d['limits'] = list(l)                       # colours refer to limits in plotting order
        if c['colors'] != 'none':
            d['colors'] = cols[:len(l)] if c['colors'] == 'match' else cols[:len(l) + 1]
        if c['cmap']:
            d['cmap'] = matplotlib.colormaps[c['cmap']]
        if d:
            kw[key] = d
            sets[key] = dict(d, **({'limits': list(d['limits'])} if 'limits' in d else {}))
        want[tag] = l
    yd = xd = None
    if c['ydata'] != 'none':
        k = c['m'] if c['ydata'] in ('time', 'same') else max(1, c['m'] - 1)
        yd = rng.randn(k)
        kw['ydata'] = yd
        if c['ydata'] in ('x', 'same'):
            xd = rng.uniform(0, 5, k)
            kw['xdata'] = xd
    mlab, dlab = 'Model', 'Data'
    if c['display']:
        mlab, dlab = 'M!', 'D!'
        kw['model_display'] = {'label': mlab, 'color': 'c'}
        kw['data_display'] = {'label': dlab, 'marker': 'x'}
        kw['interval_display'] = {'alpha': 0.25}
    if c['fig']:
        kw['fig'] = plt.figure()
    if c['settings']:
        kw['return_settings'] = True
    with sut('plot_intervals'):
        out = up.plot_intervals(iv, t, **kw)
    fig, ax = out[:2]
    require(len(out) == (3 if c['settings'] else 2), '{} items returned', len(out))
    require(not c['fig'] or fig is kw['fig'], 'not drawn into the given figure')
    require(ax in fig.axes and len(fig.axes) == 1, 'the axes are not those of the figure')
    require(np.array_equal(cred, keep[0]) and (pred is None or np.array_equal(pred, keep[1])) and np.array_equal(t.ravel(), keep[2]), 'inputs were modified')
    require(c['limits'] is None or kw['limits'] == c['limits'], 'the list of limits was modified to {}', kw.get('limits'))
    for k, d in sets.items():
        require({a: b for a, b in kw[k].items() if a != 'cmap'} == {a: b for a, b in d.items() if a != 'cmap'}, '{} was modified', k)
    bands = []
    if c['flags'].get('addprediction', True) and pred is not None:
        bands += [('PI', l, keep[1]) for l in want['PI']]
    if c['flags'].get('addcredible', True):
        bands += [('CI', l, keep[0]) for l in want['CI']]
    got = list(ax.collections)
    labels = [g.get_label() for g in got]
    require(labels == ['{}% {}'.format(l, tag) for tag, l, _ in bands], 'bands drawn are {} instead of {}', labels, [(l, tag) for tag, l, _ in bands])
    for g, (tag, l, x) in zip(got, bands):
        xs, lo, hi = band(g)
        o = np.argsort(time)
        x = x[:, o]
        require(np.allclose(xs, time[o]), 'band {}% {} is drawn at {}', l, tag, xs.tolist())
        wl, wh = np.quantile(x, 0.5 - l / 200.0, axis=0), np.quantile(x, 0.5 + l / 200.0, axis=0)
        require(np.allclose(lo, wl, atol=1e-9) and np.allclose(hi, wh, atol=1e-9), 'band {}% {} covers {} to {} instead of {} to {}', l, tag,
                lo.tolist(), hi.tolist(), wl.tolist(), wh.tolist())
        if c['colors'] == 'match':
            require(same_color(g.get_facecolor()[0], cols[want[tag].index(l)]), 'band {}% {} is not drawn in its colour', l, tag)
    for tag in ('CI', 'PI'):
        fc = [tuple(np.round(g.get_facecolor()[0], 6)) for g, b in zip(got, bands) if b[0] == tag]
        require(len(set(fc)) == len(fc) or min(-np.diff(want[tag])) < 4, 'bands of different limits share a colour')
    lines = {ln.get_label(): ln for ln in ax.lines}
    wl = []
    if c['flags'].get('addmodel', True):
        wl.append(mlab)
    if yd is not None and c['flags'].get('adddata', True):
        wl.append(dlab)
    require([ln.get_label() for ln in ax.lines] == wl, 'lines drawn are {} instead of {}', list(lines), wl)
    if mlab in wl:
        x, y = lines[mlab].get_data()
        require(np.allclose(x, time) and np.allclose(y, np.median(keep[0], axis=0)), 'the model line is not the median response')
    if dlab in wl:
        x, y = lines[dlab].get_data()
        require(np.array_equal(x, time if xd is None else xd) and np.array_equal(y, yd), 'the data points are not the data')
    leg = ax.get_legend()
    if c['flags'].get('addlegend', True):
        require(leg is not None and sorted(x.get_text() for x in leg.get_texts()) == sorted(labels + wl), 'legend does not name all that is drawn')
    else:
        require(leg is None, 'legend although switched off')
    if c['settings']:
        s = out[2]
        for key, tag in (('ciset', 'CI'), ('piset', 'PI')):
            require(list(s[key]['limits']) == want[tag] and len(s[key]['colors']) == len(want[tag]) and
                    np.allclose(s[key]['quantiles'], [[0.5 - l / 200.0, 0.5 + l / 200.0] for l in want[tag]]), 'returned settings of {} are {}', tag, s[key])
    return {'nt': len(bands) > 1, 'n_bands': len(bands)}


@mc.st.composite
def strat_3d(draw):
    c = draw(strat())
    c['adddata'] = c['flags'].pop('adddata', False)
    return c


def check_3d(c):
    """bands over a path in the plane"""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from pymcmcstat import propagation as up
    rng = np.random.RandomState(c['seed'])
    time = np.cumsum(rng.uniform(0.1, 1.0, (c['m'], 2)), axis=0)
    cred = rng.randn(c['n'], c['m']) + time[:, 0]
    pred = cred + 2 * rng.randn(c['n'], c['m']) if c['pred'] else None
    iv = {'credible': cred, 'prediction': pred}
    keep = cred.copy(), None if pred is None else pred.copy(), time.copy()
    kw = dict(c['flags'], adddata=c['adddata'])
    lim = [95] if c['limits'] is None else list(c['limits'])
    if c['limits'] is not None:
        kw['limits'] = list(c['limits'])
    want, cols = {}, ['r', 'g', 'b', 'm', 'y']
    for key, tag, own in (('ciset', 'CI', c['ci']), ('piset', 'PI', c['pi'])):
        want[tag] = sorted(lim if own is None else own, reverse=True)
        if own is not None:
            kw[key] = {'limits': list(want[tag])}
            if c['colors'] == 'match':
                kw[key]['colors'] = cols[:len(want[tag])]
    yd = xd = None
    if c['ydata'] != 'none':
        k = c['m'] if c['ydata'] in ('time', 'same') else max(1, c['m'] - 1)
        yd = rng.randn(k)
        kw['ydata'] = yd if c['timeshape'] == 'flat' else yd.reshape(-1, 1)
        if c['ydata'] in ('x', 'same'):
            xd = rng.uniform(0, 5, (k, 2))
            kw['xdata'] = xd
    mlab, dlab = 'Model', 'Data'
    if c['display']:
        mlab, dlab = 'M!', 'D!'
        kw.update(model_display={'label': mlab, 'color': 'c'}, data_display={'label': dlab, 'marker': 'x'}, interval_display={'alpha': 0.25})
    if c['fig']:
        kw['fig'] = plt.figure()
        kw['fig'].add_subplot(projection='3d')
    if c['settings']:
        kw['return_settings'] = True
    with sut('plot_3d_intervals'):
        out = up.plot_3d_intervals(iv, time, **kw)
        out[0].canvas.draw()
    fig, ax = out[:2]
    require(len(out) == (3 if c['settings'] else 2), '{} items returned', len(out))
    require(not c['fig'] or fig is kw['fig'], 'not drawn into the given figure')
    require(fig.axes == [ax], 'the axes are not those of the figure')
    require(np.array_equal(cred, keep[0]) and (pred is None or np.array_equal(pred, keep[1])) and np.array_equal(time, keep[2]), 'inputs were modified')
    require(c['limits'] is None or kw['limits'] == c['limits'], 'the list of limits was modified')
    bands = []
    if c['flags'].get('addprediction', True) and pred is not None:
        bands += [('PI', l, keep[1]) for l in want['PI']]
    if c['flags'].get('addcredible', True):
        bands += [('CI', l, keep[0]) for l in want['CI']]
    labels = [g.get_label() for g in ax.collections]
    require(labels == ['{}% {}'.format(l, tag) for tag, l, _ in bands], 'bands drawn are {} instead of {}', labels, [(l, tag) for tag, l, _ in bands])
    vec = getattr(ax.collections[0], '_vec', None) if bands else None
    for g, (tag, l, x) in zip(ax.collections, bands) if vec is not None else []:
        v = np.asarray(g._vec)[:3].T
        w = np.quantile(x, [0.5 - l / 200.0, 0.5 + l / 200.0], axis=0)
        ref = np.concatenate([np.column_stack([time, w[0]]), np.column_stack([time, w[1]])[::-1]])
        if len(v) == len(ref) + 1:
            require(np.array_equal(v[0], v[-1]), 'outline of band {}% {} has {} points', l, tag, len(v))
            v = v[:-1]
        n = len(ref)                            # the same closed outline, from any start and in any direction
        same = len(v) == n and any(np.allclose(np.roll(r, k, axis=0), v, atol=1e-9) for r in (ref, ref[::-1]) for k in range(n))
        require(same, 'outline of band {}% {} is {} instead of {}', l, tag, v.tolist(), ref.tolist())
        own = c['ci'] if tag == 'CI' else c['pi']
        if c['colors'] == 'match' and own is not None:
            require(np.allclose(to_rgba(g.get_facecolor()[0])[:3], to_rgba(cols[want[tag].index(l)])[:3]), 'band {}% {} is not drawn in its colour', l, tag)
        if c['display']:
            require(g.get_alpha() == 0.25, 'display settings of bands are not used')
    wl = ([mlab] if c['flags'].get('addmodel', True) else []) + ([dlab] if yd is not None and c['adddata'] else [])
    require([ln.get_label() for ln in ax.lines] == wl, 'lines drawn are {} instead of {}', [ln.get_label() for ln in ax.lines], wl)
    for ln in ax.lines:
        x, y, z = (np.asarray(a).ravel() for a in ln.get_data_3d())
        p = time if ln.get_label() == mlab or xd is None else xd
        v = np.median(keep[0], axis=0) if ln.get_label() == mlab else yd
        require(np.allclose(x, p[:, 0]) and np.allclose(y, p[:, 1]) and np.allclose(z, v), 'line {} is not drawn at its values', ln.get_label())
    leg = ax.get_legend()
    if c['flags'].get('addlegend', True):
        require(leg is not None and sorted(x.get_text() for x in leg.get_texts()) == sorted(labels + wl), 'legend does not name all that is drawn')
    else:
        require(leg is None, 'legend although switched off')
    if c['settings']:
        for key, tag in (('ciset', 'CI'), ('piset', 'PI')):
            require(list(out[2][key]['limits']) == want[tag], 'returned limits of {} are {}', tag, out[2][key]['limits'])
    return {'nt': len(bands) > 1, 'n_bands': len(bands)}


PROP = Prop('C21', 'Interval plots', [
    Sub('plot', strat(), check, 300, 4000, 'generated response distributions, limits, settings and flags; non-trivial: at least two bands'),
    Sub('plot_3d', strat_3d(), check_3d, 150, 2000, 'the same for bands over a path in the plane'),
], assumptions=['user-defined colours are given with limits in decreasing order, the order in which bands are drawn'])
