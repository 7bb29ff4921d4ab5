"""C19: several chains: Gelman-Rubin diagnostic, burn-in removal and combination."""
import contextlib
import io
import math
import re

import numpy as np

from .. import mc
from ..engine import Prop, Sub, require, sut
from .c18 import make_chain

KIND = ['iid', 'ar', 'ar', 'walk', 'metro', 'trend', 'heavy']


@mc.st.composite
def chains_case(draw, equal=True):
    m = draw(mc.st.one_of(mc.st.integers(1, 6), mc.st.integers(7, 15)))
    d = draw(mc.st.integers(1, 4))
    n0 = draw(mc.st.integers(4, 150))
    cols = [{'kind': draw(mc.st.sampled_from(KIND)), 'rho': draw(mc.fl(-0.9, 0.99, 2)), 'loc': draw(mc.st.sampled_from([0.0, 1.0, -3.0, 100.0])),
             'scale': draw(mc.st.sampled_from([1.0, 0.01, 50.0, 1e-8]))} for _ in range(d)]
    for col in cols:
        if col['scale'] < 1e-6:
            col['loc'] *= 1e-8
    return {'m': m, 'cols': cols, 'n': [n0 if equal else draw(mc.st.integers(2, 120)) for _ in range(m)], 'seed': draw(mc.seeds()),
            'shift': draw(mc.st.sampled_from([0.0, 0.0, 0.5, 3.0])),
            'burn': draw(mc.st.sampled_from([None, 0, 10, 25, 33, 50, 50, 75, 90, 12.5])),
            'last': draw(mc.st.sampled_from([1.0, 1.0, 0.6, 0.1]))}     # share of the rows made by the latest of several runs


def make_chains(c):
    out = []
    for i in range(c['m']):
        x = make_chain({'n': c['n'][i], 'cols': c['cols'], 'seed': (c['seed'] + 7919 * i) % (2 ** 31)})
        x = x + c['shift'] * i * np.array([s['scale'] for s in c['cols']])
        out.append(x)
    return out


def ref_psrf(xs):
    """xs: list of 1-d sequences of equal length"""
    m, n = len(xs), len(xs[0])
    means = [math.fsum(x) / n for x in xs]
    within = math.fsum(math.fsum((x - mu) ** 2) / (n - 1) for x, mu in zip(xs, means)) / m
    gm = math.fsum(means) / m
    between = n * math.fsum((mu - gm) ** 2 for mu in means) / (m - 1)
    v = (n - 1) / n * within + between / n + between / (m * n)
    r = math.sqrt(v / within)
    return {'R': r, 'B': between, 'W': within, 'V': v, 'neff': min(m * n * v / between, m * n) if between else m * n}


def check_gr(c):
    from pymcmcstat.chain import ChainStatistics as CS
    chains = make_chains(c)
    d = chains[0].shape[1]
    keep = [x.copy() for x in chains]
    pres = c['form'] == 'results'
    arg = [{'chain': x, 'nsimu': max(1, int(len(x) * c['last']))} for x in chains] if pres else list(chains)
    used = [x[int(len(x) * 0.5):] for x in chains] if pres else chains
    kw, want = {}, ['$p_{{{}}}$'.format(i) for i in range(d)]
    if c['names'] == 'names':
        want = ['par {}'.format('zyxw'[i]) for i in range(d)]
        kw['names'] = list(want)
    elif c['names'] == 'results':
        want = ['par {}'.format('zyxw'[i]) for i in range(d)]
        kw['results'] = {'names': list(want)}
    buf = io.StringIO()
    if c['m'] < 2:
        try:
            with contextlib.redirect_stdout(buf):
                CS.gelman_rubin(arg, **kw)
        except (Exception, SystemExit):
            return {'nt': False}
        require(False, 'the diagnostic of a single chain was not refused')
    with sut('gelman_rubin'):
        with contextlib.redirect_stdout(buf):
            out = CS.gelman_rubin(arg, display=c['display'], **kw)
    require(all(np.array_equal(a, b) for a, b in zip(chains, keep)), 'the chains were modified')
    require(list(out) == want, 'parameters are {} instead of {}', list(out), want)
    for j, nm in enumerate(want):
        if all(np.ptp(x[:, j]) == 0 for x in used):
            continue                                  # no variation within chains: not defined
        ref = ref_psrf([x[:, j] for x in used])
        sc = max(np.abs(x[:, j]).max() for x in used)
        noise = 1e-13 * sc * sc                       # cancellation in the variance of nearly equal numbers
        for k in ('R', 'B', 'W', 'V', 'neff'):
            got, r = float(out[nm][k]), ref[k]
            if k in ('B', 'W', 'V'):
                tol = 1e-8 * abs(r) + noise * len(used[0])
            else:
                rel = 1e-8 + noise * len(used[0]) / max(ref['W'], 1e-300) + (noise * len(used[0]) / max(ref['B'], 1e-300) if k == 'neff' else 0)
                tol = rel * abs(r) * 10
            require(abs(got - r) <= tol, '{} of parameter {} over {} chains is {}, reported {}', k, nm, len(used), r, got)
    txt = buf.getvalue()
    if c['display']:
        heads = re.findall(r'Parameter: (.*)', txt)
        require([h.strip() for h in heads] == want, 'displayed parameters {}', heads)
        vals = re.findall(r'^\s+(\w+) = (\S+)', txt, re.M)
        seen = {}
        for i, (k, v) in enumerate(vals):
            seen.setdefault(k, []).append(float(v))
        for k in ('R', 'B', 'W', 'V', 'neff'):
            require(len(seen.get(k, [])) == d and all(str(a) == str(float(out[nm][k])) or abs(a - float(out[nm][k])) <= 1e-6 * abs(a) for a, nm in zip(seen[k], want)),
                    'displayed {} are {}', k, seen.get(k))
    else:
        require(not txt.strip(), 'output {} although display is off', txt[:50])
    return {'nt': c['m'] >= 2 and len(used[0]) >= 3, 'n_chains': c['m'], 'n_from_results': int(pres)}


def check_combine(c):
    from pymcmcstat.chain import ChainProcessing as CP
    chains = make_chains(c)
    keep = [x.copy() for x in chains]
    pres = [{'chain': x, 'nsimu': max(1, int(len(x) * c['last'])), 'names': ['a']} for x in chains]
    kw = {} if c['burn'] is None else {'burnin_percentage': c['burn']}
    frac = 50 if c['burn'] is None else c['burn']
    with sut('generate_chain_list / generate_combined_chain_with_index'):
        lst = CP.generate_chain_list(pres, **kw)
        comb, idx = CP.generate_combined_chain_with_index(pres, **kw)
    want = [x[int(len(x) * frac / 100):] for x in keep]
    require(len(lst) == len(want), '{} chains instead of {}', len(lst), len(want))
    for i, (a, b) in enumerate(zip(lst, want)):
        require(np.array_equal(np.asarray(a), b), 'chain {} after {} per cent burn-in has {} rows instead of the last {}', i, frac, len(a), len(b))
    require(np.array_equal(np.asarray(comb), np.concatenate(want)), 'the combined chain of {} rows is not the {} rows of the chains in order',
            np.asarray(comb).shape, sum(len(x) for x in want))
    require(list(idx) == ['Chain {}'.format(i) for i, x in enumerate(want) for _ in range(len(x))], 'the index does not label the rows by their chain')
    comb2 = np.array(comb)
    comb2 += 1
    require(all(np.array_equal(a, b) for a, b in zip(chains, keep)) and all(p['chain'] is x and set(p) == {'chain', 'nsimu', 'names'}
                                                                          for p, x in zip(pres, chains)), 'the results were modified')
    return {'nt': c['m'] > 1, 'n_rows': int(sum(len(x) for x in want))}


@mc.st.composite
def strat_gr(draw):
    c = draw(chains_case())
    c.update(form=draw(mc.st.sampled_from(['arrays', 'results'])), names=draw(mc.st.sampled_from(['none', 'names', 'results'])),
             display=draw(mc.st.booleans()))
    return c


PROP = Prop('C19', 'Diagnostics over several chains', [
    Sub('gelman_rubin', strat_gr(), check_gr, 700, 12000, '1-15 synthetic chains of 4-150 rows, as arrays or results (also of continued runs), with and without separated '
        'locations; non-trivial: at least two chains of three rows'),
    Sub('combine', chains_case(equal=False), check_combine, 500, 8000, 'chains of different lengths, burn-in 0-90 per cent; non-trivial: '
        'more than one chain'),
])
