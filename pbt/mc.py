"""Generated MCMC configurations, and running them with observers attached.

A configuration is a JSON-able dict, so that every failing case is a replay
file.  Everything is driven and observed through the public interface: user
callbacks (sum-of-squares, prior, custom sampler), the results dictionary and
the files written.
"""
import contextlib
import math
import os
import shutil
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from .engine import sut

NAN = float('nan')
ALL = ('mh', 'am', 'dr', 'dram', 'mh', 'am', 'dr', 'dram', 'ram')


def fl(lo, hi, nd=3):
    """floats on a decimal grid: short in replay files, no subnormal noise"""
    k = 10 ** nd
    return st.integers(int(math.floor(lo * k)), int(math.ceil(hi * k))).map(lambda i: i / k)


def seeds():
    return st.one_of(st.integers(0, 2 ** 31 - 1), st.integers(0, 2 ** 31 - 1), st.integers(0, 2 ** 32 - 1))


# ------------------------------------------------------------------ strategies
@st.composite
def parameter(draw, bounds='any', prior='any', sample=None, adapt=None):
    p = {}
    p['theta0'] = draw(st.one_of(fl(-5, 5), st.sampled_from([0.0, 1.0, -1.0, 100.0])))
    t = p['theta0']
    kinds = {'any': ['none', 'none', 'both', 'lower', 'upper', 'tight', 'atlow', 'athigh'],
             'none': ['none'], 'finite': ['both', 'tight', 'atlow', 'athigh']}[bounds]
    kind = draw(st.sampled_from(kinds))
    lo, hi = -math.inf, math.inf
    if kind in ('both', 'lower'):
        lo = t - draw(fl(0.05, 3, 2))
    if kind in ('both', 'upper'):
        hi = t + draw(fl(0.05, 3, 2))
    if kind == 'tight':
        lo, hi = t - draw(fl(0.001, 0.02)), t + draw(fl(0.001, 0.02))
    if kind == 'atlow':
        lo, hi = t, t + draw(fl(0.1, 3, 2))
    if kind == 'athigh':
        lo, hi = t - draw(fl(0.1, 3, 2)), t
    p['min'], p['max'] = lo, hi
    pk = {'any': ['none', 'none', 'gauss', 'gauss', 'zero', 'neg', 'nanmu'], 'none': ['none'],
          'gauss': ['gauss']}[prior]
    pk = draw(st.sampled_from(pk))
    if pk == 'gauss':
        p['mu'], p['sigma'] = draw(fl(-5, 5, 2)), draw(fl(0.05, 5, 2))
    elif pk == 'zero':
        p['mu'], p['sigma'] = draw(fl(-5, 5, 2)), 0.0
    elif pk == 'neg':
        p['mu'], p['sigma'] = draw(fl(-5, 5, 2)), -draw(fl(0.1, 3, 2))
    elif pk == 'nanmu':
        p['mu'], p['sigma'] = NAN, draw(fl(0.05, 5, 2))
    p['sample'] = draw(st.sampled_from([True, True, True, False])) if sample is None else sample
    p['adapt'] = draw(st.sampled_from([True, True, True, False])) if adapt is None else adapt
    return p


@st.composite
def parameters(draw, lo=1, hi=4, **kw):
    n = draw(st.integers(lo, hi))
    if hi >= 4 and draw(st.sampled_from([False] * 14 + [True])):
        n = draw(st.sampled_from([6, 9, 12]))   # now and then many parameters
    ps = [draw(parameter(**kw)) for _ in range(n)]
    if not any(p['sample'] for p in ps):
        ps[draw(st.integers(0, n - 1))]['sample'] = True
    if kw.get('bounds', 'any') == 'any':
        side = draw(st.sampled_from([None] * 8 + ['positive', 'negative', 'below']))
        for p in ps if side else []:            # the same one-sided limit for all parameters
            t = p['theta0'] = abs(p['theta0']) * (-1.0 if side == 'negative' else 1.0)
            p['min'], p['max'] = {'positive': (0.0, math.inf), 'negative': (-math.inf, 0.0),
                                  'below': (-math.inf, round(t + 0.5, 3))}[side]
    if draw(st.sampled_from([False, False, True])):
        # names that are parts of each other
        for p, nm in zip(ps, draw(st.permutations(['a', 'ab', 'b', 'abc', 'a_b', 'bb', 'B']))):
            p['name'] = nm
    return ps


@st.composite
def target(draw, npar, nsos=None, holes=True):
    """sum-of-squares: per element, a diagonal quadratic plus offset; optional forbidden region"""
    nsos = draw(st.sampled_from([1] * 9 + [2] * 3 + [3] * 3 + [5])) if nsos is None else nsos
    t = {'c': [[draw(fl(-5, 5, 2)) for _ in range(npar)] for _ in range(nsos)],
         'w': [[draw(st.sampled_from([0.0, 0.3, 1.0, 2.0, 25.0])) for _ in range(npar)] for _ in range(nsos)],
         'b': [draw(st.sampled_from([0.5, 1.0, 3.0])) for _ in range(nsos)]}
    t['ret'] = draw(st.sampled_from(['scalar', 'scalar', 'array', 'array', 'matrix', 'point', 'numpy', 'list'] if nsos == 1 else ['array', 'array', 'array', 'list']))
    t['sig'] = draw(st.sampled_from(['plain', 'custom']))
    t['habit'] = draw(st.sampled_from(['none', 'none', 'none', 'buffer', 'inplace', 'both']))
    if holes:
        h = draw(st.sampled_from([None, None, None, 'inf', 'nan']))
        if h:
            t['hole'] = [h, draw(st.integers(0, npar - 1)), draw(fl(-4, 4, 2))]
            if nsos > 1 and draw(st.booleans()):
                t['hole'].append(draw(st.integers(0, nsos - 1)))
    return t


@st.composite
def qcov(draw, npar, kinds=('none', 'none', 'vector', 'matrix')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'none':
        return None
    sd = [draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 2.0])) for _ in range(npar)]
    if kind == 'vector':
        return [s * s for s in sd]
    L = np.zeros((npar, npar))
    for i in range(npar):
        L[i, i] = sd[i]
        for j in range(i):
            L[i, j] = sd[i] * draw(fl(-0.8, 0.8, 1))
    return np.round(L @ L.T + 1e-6 * np.eye(npar), 8).tolist()


@st.composite
def config(draw, nsimu=(1, 40), methods=('mh', 'am', 'dr', 'dram'), npar=(1, 4), bounds='any', prior='any',
           sample=None, adapt=None, updatesigma=None, nsos=None, holes=True, ntry=None, qkinds=None,
           priorfun=True, adaptints=(None, 2, 3, 5, 10, 25), extra=True, scaled=True):
    c = {'seed': draw(seeds())}
    c['par'] = draw(parameters(npar[0], npar[1], bounds=bounds, prior=prior, sample=sample, adapt=adapt))
    n = len(c['par'])
    c['nsimu'] = draw(st.integers(*nsimu))
    c['method'] = draw(st.sampled_from(methods))
    o = c['opt'] = {}
    if ntry is None:
        nt = draw(st.sampled_from([None, None, None, None, 1, 1, 2, 2, 3, 3, 4, 5]))
    else:
        nt = draw(st.sampled_from(ntry))
    if nt is not None:
        o['ntry'] = nt
    ai = draw(st.sampled_from(adaptints))
    if ai is not None:
        o['adaptint'] = ai
    if extra:
        for key, vals in (('burnintime', [0, 0, 0, 6, 15]), ('lastadapt', [0, 0, 0, 5, 12]),
                          ('adascale', [None, None, None, None, 0.3, 1.7, 12.0, 0, -1]), ('initqcovn', [None, None, None, 3, 10]),
                          ('drscale', [None, None, [3.0], [2.0, 4.0], [5.0, 4.0, 3.0]]),
                          ('burnin_scale', [None, None, 2.0]), ('qcov_adjust', [None, None, 1e-5])):
            v = draw(st.sampled_from(vals))
            if v is not None and (v != 0 or key == 'adascale'):
                o[key] = v
    q = draw(qcov(n, kinds=qkinds or ('none', 'none', 'vector', 'matrix')))
    if q is not None:
        o['qcov'] = q
        if draw(st.sampled_from([False] * 4 + [True])):         # whole numbers
            d = [draw(st.sampled_from([1.0, 1.0, 4.0, 9.0])) for _ in range(n)]
            o['qcov'] = d if not isinstance(q[0], list) else np.diag(d).tolist()
    c['forms'] = {k: draw(st.sampled_from(['float', 'int', 'list'])) for k in ('qcov', 'drscale') if k in o}
    c['tgt'] = draw(target(n, nsos=nsos, holes=holes))
    ns = len(c['tgt']['b'])
    if 'hole' in c['tgt']:
        k = c['tgt']['hole'][1]
        c['tgt']['hole'][2] = round(c['par'][k]['theta0'] + draw(fl(0.0, 2.0, 2)), 4)
    if draw(st.booleans()):
        for j in range(ns):
            for i in range(n):
                c['tgt']['c'][j][i] = round(c['par'][i]['theta0'] + c['tgt']['c'][j][i] / 5.0, 4)
    # data sets: only their sizes matter to a user defined sum-of-squares
    nb = draw(st.sampled_from([1, ns] if ns > 1 else [1, 1, 2, 3]))
    c['ndata'] = [draw(st.integers(1, 12)) for _ in range(nb)]
    if draw(st.sampled_from([False] * 11 + [True])):
        c['ndata'][draw(st.integers(0, nb - 1))] = draw(st.sampled_from([300, 2500, 7000]))
    m = c['model'] = {}
    us = draw(st.booleans()) if updatesigma is None else updatesigma
    c['opt']['updatesigma'] = us
    form = draw(st.sampled_from(['none', 'scalar', 'vector']))
    if form == 'scalar' or (form == 'vector' and ns == 1):
        m['sigma2'] = draw(fl(0.05, 5, 2))
    elif form == 'vector':
        m['sigma2'] = [draw(fl(0.05, 5, 2)) for _ in range(ns)]
    if us:
        n0 = draw(st.sampled_from(['none', 'scalar', 'vector']))
        if n0 == 'scalar':
            m['N0'] = draw(st.sampled_from([1, 2, 10]))
        elif n0 == 'vector':
            m['N0'] = [draw(st.sampled_from([1.0, 2.0, 10.0])) for _ in range(ns)]
        s20 = draw(st.sampled_from(['none', 'scalar', 'vector']))
        if s20 == 'scalar':
            m['S20'] = draw(fl(0.05, 5, 2))
        elif s20 == 'vector':
            m['S20'] = [draw(fl(0.05, 5, 2)) for _ in range(ns)]
        if draw(st.sampled_from([False, False, True])):
            m['N'] = list(c['ndata'])
    if not us and draw(st.sampled_from([False, False, False, True])):
        # -2 log likelihood functions may be negative when no error variance is drawn
        c['tgt']['b'] = [draw(st.sampled_from([-40.0, -3.0, 0.0])) for _ in range(ns)]
    if priorfun and draw(st.sampled_from([False, False, False, True])):
        # center, width and normalisation of a user's -2 log prior, which may be negative
        c['priorfun'] = [draw(fl(-3, 3, 1)), draw(st.sampled_from([0.5, 4.0])), draw(st.sampled_from([0.0, 0.0, -6.0, -50.0]))]
        if holes and draw(st.booleans()):       # excludes a region
            s = [p for p in c['par'] if p['sample']]
            k = draw(st.integers(0, len(s) - 1))
            c['priorhole'] = [draw(st.sampled_from(['inf', 'inf', 'nan'])), k, round(s[k]['theta0'] + draw(fl(0.0, 2.0, 2)), 4)]
    if draw(st.sampled_from([False] * 9 + [True])) and (not us or 'N0' in m):
        j = draw(st.integers(0, ns - 1))        # an element that is zero everywhere
        c['tgt']['b'][j], c['tgt']['w'][j] = 0.0, [0.0] * n
    if scaled and draw(st.sampled_from([False] * 6 + [True])):
        rescale(c, [draw(st.sampled_from([1.0, 1e-7, 1e-3, 1e6])) for _ in range(n)], draw(st.sampled_from([1.0, 1.0, 1e-9, 1e5])))
    for i, p in enumerate(c['par']):
        if not p['sample'] and draw(st.sampled_from([False] * 5 + [True])):
            v = p['theta0'] = draw(st.sampled_from([1e-12, -3e-10, 0.0, 2e11]))
            p['min'], p['max'] = -math.inf, math.inf
            for j in range(ns):
                c['tgt']['c'][j][i] = v
    return c


def rescale(c, unit, ssunit):
    """the same problem in other units of the parameters and of the observations"""
    for p, s in zip(c['par'], unit):
        for k in ('theta0', 'min', 'max', 'mu', 'sigma'):
            if k in p:
                p[k] = p[k] * s
    t = c['tgt']
    t['c'] = [[v * s for v, s in zip(row, unit)] for row in t['c']]
    t['w'] = [[v / s / s * ssunit for v, s in zip(row, unit)] for row in t['w']]
    t['b'] = [v * ssunit for v in t['b']]
    if 'hole' in t:
        t['hole'][2] *= unit[t['hole'][1]]
    if 'priorhole' in c:
        h = c['priorhole']
        h[2] *= unit[[i for i, p in enumerate(c['par']) if p['sample']][h[1]]]
    q = c['opt'].get('qcov')
    if q is not None:
        c['opt']['qcov'] = ([[v * a * b for v, b in zip(row, unit)] for row, a in zip(q, unit)] if isinstance(q[0], list)
                            else [v * a * a for v, a in zip(q, unit)])
    if ssunit != 1.0:
        m = c['model']
        if not ('sigma2' in m or 'S20' in m):
            if c['opt']['updatesigma']:
                return
            m['sigma2'] = 1.0
        for k in ('sigma2', 'S20'):
            if k in m:
                m[k] = [v * ssunit for v in m[k]] if isinstance(m[k], list) else m[k] * ssunit


# ------------------------------------------------------------------ execution
class Rec:
    """Everything observable during a run, in order."""

    def __init__(self):
        self.t = []           # times of the steps of the latest run
        self.ev = []          # ('ss', q, ss) ('pr', th, val) ('step', isimu, accept, theta, ss, sigma2)


def make_ss(tgt):
    c, w, b = (np.array(tgt[k], dtype=float) for k in 'cwb')
    hole, cell = tgt.get('hole'), tgt.get('cell')

    def ss(q):
        v = (w * (np.asarray(q, dtype=float)[None, :] - c) ** 2).sum(axis=1) + b
        if cell is not None:
            v = v + cell[1] * (math.floor(q[0] / cell[0]) % 2)
        if hole is not None and q[hole[1]] > hole[2]:
            bad = np.inf if hole[0] == 'inf' else np.nan
            if len(hole) > 3:               # in one element only
                v[hole[3]] = bad
            else:
                v = v * 0 + bad
        return v
    return ss


def make_prior(cfg):
    """reference -2 log prior over sampled parameters, from the documentation"""
    pf = cfg.get('priorfun')
    sp = [p for p in cfg['par'] if p['sample']]
    if pf:
        ph = cfg.get('priorhole')

        def user(th):
            if ph and th[ph[1]] > ph[2]:
                return math.inf if ph[0] == 'inf' else math.nan
            return float((((np.asarray(th) - pf[0]) / pf[1]) ** 2).sum()) + (pf[2] if len(pf) > 2 else 0.0)
        return user
    mu = np.array([p['theta0'] if ('mu' in p and math.isnan(p['mu'])) else p.get('mu', 0.0) for p in sp])
    sg = np.array([p.get('sigma', math.inf) for p in sp], dtype=float)
    sg[sg <= 0] = math.inf

    def f(th):
        r = (mu - np.asarray(th)) / sg
        return float((r ** 2).sum())
    return f


def deep(v):
    """copy of nested results, arrays included"""
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep(x) for x in v]
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else v


def deep_diff(a, b, path=''):
    """where two nested results differ (None: nowhere)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '{} (entries {})'.format(path, sorted(set(a) ^ set(b), key=str))
        for k in a:
            d = deep_diff(a[k], b[k], '{}/{}'.format(path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + ' (length)'
        for i, (x, y) in enumerate(zip(a, b)):
            d = deep_diff(x, y, '{}/{}'.format(path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return path
        return None if np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc') else path
    if a is b or a == b or (isinstance(a, float) and isinstance(b, float) and a != a and b != b):
        return None
    return path


class Observer:
    """custom sampler used as a step boundary observer"""

    def __init__(self, rec):
        self.rec = rec

    def setup(self):
        self.rec.ev.append(('setup',))
        self.rec.t = []
        return None

    def update(self, accept, isimu, current_set):
        self.rec.t.append(time.time())
        self.rec.ev.append(('step', int(isimu), bool(accept), np.array(current_set.theta, dtype=float).copy(),
                            np.array(current_set.ss, dtype=float).ravel(),
                            np.array(current_set.sigma2, dtype=float).ravel()))
        return None


def user_opts(cfg, **over):
    o = {}
    for k, v in cfg['opt'].items():
        if k in ('qcov', 'drscale'):
            form = cfg.get('forms', {}).get(k)
            v = np.array(v, dtype=float)
            if form == 'int' and (v == np.round(v)).all():
                v = v.astype(int)
            elif form == 'list':
                v = [int(x) for x in v] if v.ndim == 1 and (v == np.round(v)).all() else v.tolist()
        o[k] = v
    o.update(nsimu=cfg['nsimu'], method=cfg['method'], verbosity=0, waitbar=False)
    o.update(over)
    return o


def user_model(cfg):
    m = {}
    for k, v in cfg['model'].items():
        m[k] = v if not isinstance(v, list) else np.array(v)
    return m


def data_for(cfg, mc):
    for k, n in enumerate(cfg['ndata']):
        x = np.arange(n, dtype=float)
        mc.data.add_data_set(x, x * 0.5 + k)


def names_for(cfg):
    return [p.get('name', 'q{}'.format(i)) for i, p in enumerate(cfg['par'])]


def add_params(cfg, mc):
    for nm, p in zip(names_for(cfg), cfg['par']):
        kw = dict(name=nm, theta0=p['theta0'], sample=p['sample'], adapt=p['adapt'])
        if p['min'] > -math.inf or p.get('explicit'):
            kw['minimum'] = p['min']
        if p['max'] < math.inf or p.get('explicit'):
            kw['maximum'] = p['max']
        if 'mu' in p:
            kw['prior_mu'], kw['prior_sigma'] = p['mu'], p['sigma']
        mc.parameters.add_model_parameter(**kw)


def callbacks(cfg, rec, ss=None, fault=None):
    ssref = ss or make_ss(cfg['tgt'])
    prref = make_prior(cfg)
    tgt = cfg['tgt']
    ret = {'scalar': lambda v: float(v[0]), 'numpy': lambda v: v[0], 'matrix': lambda v: v.reshape(1, 1).copy(),
           'point': lambda v: np.array(v[0]), 'list': lambda v: v.tolist(), 'array': lambda v: v.copy()}[tgt.get('ret', 'array')]
    habit = tgt.get('habit', 'none')
    buffer = []

    def base(arg):
        q = np.array(arg, dtype=float)
        if fault is not None:
            fault(q)
        v = ssref(q)
        rec.ev.append(('ss', q, v.copy()))
        if habit in ('inplace', 'both'):        # functions that transform their argument in place
            arg[...] = -7.0 + 0.25 * arg
        if habit in ('buffer', 'both') and tgt.get('ret') == 'array':         # functions that reuse the array they return
            if not buffer:
                buffer.append(v.copy())
            buffer[0][...] = v
            return buffer[0]
        return ret(v)
    if tgt.get('sig') == 'custom':
        def sos(q, data, custom=None):
            return base(q)
    else:
        def sos(q, data):
            return base(q)

    def prior(th, mu, sigma):
        v = prref(th)
        rec.ev.append(('pr', np.array(th, dtype=float), v))
        if habit in ('inplace', 'both'):
            th[...] = 0.5 * th - 3.0
            mu[...] = 1.0
        return {'matrix': np.array([[v]]), 'list': np.array([v]), 'numpy': np.float64(v), 'point': np.array(v)}.get(tgt.get('ret'), v)
    return sos, (prior if cfg.get('priorfun') else None)


def build(cfg, rec=None, observe=True, ss=None, fault=None, **over):
    from pymcmcstat.MCMC import MCMC
    rec = rec if rec is not None else Rec()
    mc = MCMC(rngseed=cfg['seed'])
    data_for(cfg, mc)
    mc.simulation_options.define_simulation_options(**user_opts(cfg, **over))
    sos, prior = callbacks(cfg, rec, ss=ss, fault=fault)
    mm = user_model(cfg)
    if prior is not None:
        mm['prior_function'] = prior
    mc.model_settings.define_model_settings(sos_function=sos, **mm)
    add_params(cfg, mc)
    if observe:
        mc.custom_samplers.append(Observer(rec))
    return mc, rec


def run(cfg, what='run_simulation', **kw):
    with sut(what):
        mc, rec = build(cfg, **kw)
        mc.run_simulation()
    return mc, rec, mc.simulation_results.results


@contextlib.contextmanager
def tmpdir():
    d = tempfile.mkdtemp(prefix='case_', dir=os.environ.get('VP_SCRATCH'))
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def sampled(cfg):
    return [i for i, p in enumerate(cfg['par']) if p['sample']]


def full(cfg, th):
    q = np.array([p['theta0'] for p in cfg['par']], dtype=float)
    q[sampled(cfg)] = th
    return q


def zero_start(draw, c, often=6, kinds=('inf', 'inf', 'nan')):
    """now and then a start of zero posterior density"""
    if draw(st.sampled_from([False] * (often - 1) + [True])):
        i = draw(st.sampled_from(sampled(c)))
        t = c['par'][i]['theta0']
        c['tgt']['hole'] = [draw(st.sampled_from(kinds)), i, t - draw(fl(0.001, 1, 3)) * (abs(t) or 1.0)]
        c['from'] = 'zero density'
    return c


def initial_ok(cfg):
    """the start has a finite posterior density (the user's responsibility)"""
    if 'from' in cfg:
        return True
    th = [cfg['par'][i]['theta0'] for i in sampled(cfg)]
    return bool(np.isfinite(make_ss(cfg['tgt'])(full(cfg, th))).all()) and math.isfinite(make_prior(cfg)(th))


def steps(rec):
    """[(isimu, accept, theta, ss, sigma2, [evaluations (q, ss)])], plus leading evaluations"""
    out, cur, lead = [], [], []
    started = False
    for e in rec.ev:
        if e[0] == 'setup':
            started = True
            lead, cur = cur, []
        elif e[0] == 'ss':
            cur.append((e[1], e[2]))
        elif e[0] == 'step':
            out.append((e[1], e[2], e[3], e[4], e[5], cur))
            cur = []
    return (lead if started else []), out, cur
