"""C18: chain statistics."""
import contextlib
import io
import math

import numpy as np
from scipy.special import ndtr

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut


@mc.st.composite
def chain_case(draw, lo=40, hi=400):
    n = draw(mc.st.integers(lo, hi))
    d = draw(mc.st.integers(1, 5))
    cols = []
    for _ in range(d):
        cols.append({'kind': draw(mc.st.sampled_from(['iid', 'ar', 'ar', 'walk', 'metro', 'trend', 'heavy'])), 'rho': draw(mc.fl(-0.9, 0.99, 2)),
                     'loc': draw(mc.st.sampled_from([0.0, 1.0, -3.0, 100.0])), 'scale': draw(mc.st.sampled_from([1.0, 0.01, 50.0, 1.0, 0.01, 50.0, 1e-9, 1e7]))})
    for s in cols:
        if s['scale'] in (1e-9, 1e7):
            s['loc'] *= s['scale']
    return {'n': n, 'cols': cols, 'seed': draw(mc.seeds())}


def make_chain(c):
    rng = np.random.RandomState(c['seed'])
    out = []
    for s in c['cols']:
        e = rng.randn(c['n'])
        k = s['kind']
        if k == 'iid':
            x = e
        elif k in ('ar', 'metro'):
            x = np.zeros(c['n'])
            x[0] = e[0]
            for i in range(1, c['n']):
                if k == 'ar':
                    x[i] = s['rho'] * x[i - 1] + e[i]
                else:
                    x[i] = e[i] if rng.rand() < 0.3 else x[i - 1]
        elif k == 'walk':
            x = np.cumsum(e)
        elif k == 'trend':
            x = e + np.arange(c['n']) * 0.05
        else:
            x = e ** 3
        out.append(s['loc'] + s['scale'] * x)
    return np.array(out).T


def ref_bm(x, b=None):
    n = len(x)
    b = max(10, n // 20) if b is None else b
    nb = n // b
    m = np.array([x[i * b:(i + 1) * b].mean() for i in range(nb)])
    return math.sqrt(((m - x.mean()) ** 2).sum() / (nb - 1) * b)


def ref_s0(x):
    """spectral density at frequency zero: averaged, Hanning windowed, half overlapping quarter segments"""
    m = len(x)
    nw = m // 4
    ov = nw // 2
    w = np.array([0.5 * (1 - math.cos(2 * math.pi * i / (nw + 1))) for i in range(1, nw + 1)])
    k = (m - ov) // (nw - ov)
    return sum(float((w * x[i * (nw - ov):i * (nw - ov) + nw]).sum()) ** 2 for i in range(k)) / (k * float((w ** 2).sum()))


def ref_geweke(x, a=0.1, b=0.5):
    n = len(x)
    na, nl = int(math.floor(a * n)), int(math.floor(b * n))
    xa, xb = x[:na], x[n - nl:]
    z = (xa.mean() - xb.mean()) / math.sqrt(ref_s0(xa) / len(xa) + ref_s0(xb) / len(xb))
    return z, 2 * float(ndtr(-abs(z)))


def ref_iact(x):
    """Sokal's estimator: tau = 1 + 2 sum_{k<=M} r_k with periodic autocorrelation; returns tau, m, margin"""
    n = len(x)
    y = x - x.mean()
    r0 = float((y * y).sum())
    r = []
    s, margin = -1.0 / 3, 1.0
    for i in range(n):
        r.append(float((y * np.roll(y, -i)).sum()) / r0)
        s += r[i] - 1.0 / 6
        margin = min(margin, abs(s))
        if s < 0:
            return 2 * sum(r) - 1, i + 1, margin
    return 0.0, 0, margin


def close(a, b, tol=1e-7, scale=0.0):
    return abs(a - b) <= tol * (abs(b) + scale) + 1e-300


def check_stats(c):
    from pymcmcstat.chain import ChainStatistics as CS
    x = make_chain(c)
    keep = x.copy()
    names = ['alpha{}'.format(i) for i in range(x.shape[1])]
    res = {'names': list(names)} if c['names'] else None
    if c['names'] and c['iacce']:
        res.update(iacce=np.array(c['iacce']), nsimu=c['nsimu'])
    buf = io.StringIO()
    with sut('chainstats'):
        with contextlib.redirect_stdout(buf):
            st = CS.chainstats(x, res, returnstats=True, display_details=c['details'])
            none = CS.chainstats(x, res)
    require(np.array_equal(x, keep), 'the chain was modified')
    require(none is None, 'statistics returned without being asked for')
    require(set(st) >= {'mean', 'std', 'bmstd', 'mcerr', 'geweke', 'iact'}, 'statistics {}', sorted(st))
    amb = 0
    for j in range(x.shape[1]):
        v = x[:, j]
        sc = np.abs(v).max()
        m = math.fsum(v) / len(v)
        s = math.sqrt(math.fsum((v - m) ** 2) / len(v))
        require(close(st['mean'][j], m, 1e-10, sc), 'mean of parameter {} is {}, reported {}', j, m, st['mean'][j])
        require(close(st['std'][j], s, 1e-8, 1e-6 * sc), 'deviation of parameter {} is {}, reported {}', j, s, st['std'][j])
        bm = ref_bm(v)
        require(close(st['bmstd'][j], bm, 1e-7, 1e-6 * sc), 'batch mean deviation of parameter {} is {}, reported {}', j, bm, st['bmstd'][j])
        require(close(st['mcerr'][j], bm / math.sqrt(len(v)), 1e-7, 1e-6 * sc), 'Monte Carlo error of parameter {} is {}, reported {}', j,
                bm / math.sqrt(len(v)), st['mcerr'][j])
        z, p = ref_geweke(v)
        require(close(st['geweke']['z'][j], z, 1e-6, 1e-3), 'Geweke statistic of parameter {} is {}, reported {}', j, z, st['geweke']['z'][j])
        require(abs(st['geweke']['p'][j] - p) <= 1e-12 + 1e-5 * p * max(1, z * z), 'Geweke p-value of parameter {} is {}, reported {}', j, p, st['geweke']['p'][j])
        tau, mm, margin = ref_iact(v)
        if margin < 1e-7:
            amb += 1
            continue
        require(close(st['iact']['tau'][j], tau, 1e-5, 1.0), 'autocorrelation time of parameter {} is {}, reported {}', j, tau, st['iact']['tau'][j])
        require(st['iact']['m'][j] == mm, 'autocorrelation of parameter {} summed over {} lags, reported {}', j, mm, st['iact']['m'][j])
    # display
    txt = buf.getvalue()
    rows = [ln for ln in txt.splitlines() if ':' in ln and len(ln.split(':')[1].split()) == 5]
    want = names if c['names'] else ['$p_{{{}}}$'.format(i) for i in range(x.shape[1])]
    body = [ln for ln in rows if ln.split(':')[0].strip() in want][:len(want)]
    require([ln.split(':')[0].strip() for ln in body] == want, 'displayed parameters {} instead of {}', [ln.split(':')[0].strip() for ln in body], want)
    for j, ln in enumerate(body):
        for val, ref in zip(ln.split(':')[1].split(), (st['mean'][j], st['std'][j], st['mcerr'][j], st['iact']['tau'][j], st['geweke']['p'][j])):
            require(abs(float(val) - ref) <= (0.0051 if 0.01 < abs(ref) < 1e4 else 0.0051 * abs(ref)) + 1e-300, 'displayed {} for {}', val, ref)
    acc = len(np.unique(x[:, 0]))
    require('{:4.2f}% -> {:d}/{:d}'.format(acc / len(x) * 100, acc, len(x)) in txt, 'acceptance of the chain ({} of {}) is not displayed', acc, len(x))
    if res is not None and 'iacce' in res:
        for i, k in enumerate(c['iacce']):
            require('Stage {:d}: {:4.2f}%'.format(i + 1, k / c['nsimu'] * 100) in txt, 'acceptance of stage {} is not displayed', i + 1)
        tot = sum(c['iacce'])
        require('{:4.2f}% -> {:d}/{:d}'.format(tot / c['nsimu'] * 100, tot, c['nsimu']) in txt, 'net acceptance is not displayed')
    return {'nt': amb < x.shape[1] and c['n'] >= 40, 'n_columns': x.shape[1], 'n_ambiguous': amb}


def check_parts(c):
    """the single statistics with their own settings"""
    from pymcmcstat.chain import ChainStatistics as CS
    x = make_chain(c)
    keep = x.copy()
    n = len(x)
    b = c['b']
    with sut('batch means'):
        bm = CS.batch_mean_standard_deviation(x, b=b)
    for j in range(x.shape[1]):
        r = ref_bm(x[:, j], b)
        require(close(bm[j], r, 1e-7, 1e-6 * np.abs(x[:, j]).max()), 'batch mean deviation with step {} is {}, reported {}', b, r, bm[j])
    a, bb = c['a'], c['bb']
    if 4 <= int(math.floor(a * n)) < int(math.floor(bb * n)):
        with sut('geweke'):
            z, p = CS.geweke(x, a=a, b=bb)
        for j in range(x.shape[1]):
            rz, rp = ref_geweke(x[:, j], a, bb)
            require(close(z[j], rz, 1e-6, 1e-3) and abs(p[j] - rp) <= 1e-12 + 1e-5 * rp * max(1, rz * rz), 'Geweke statistic of first {} and last {} is {} ({}), reported {} ({})',
                    a, bb, rz, rp, z[j], p[j])
    require(np.array_equal(x, keep), 'the chain was modified')
    return {'nt': True}


@mc.st.composite
def strat_stats(draw, lo=40, hi=400):
    c = draw(chain_case(lo, hi))
    # a continued chain is longer than the latest run, which the counts are about
    c.update(nsimu=draw(mc.st.sampled_from([c['n'], c['n'], c['n'] // 2, 25])))
    c.update(names=draw(mc.st.booleans()), details=draw(mc.st.booleans()),
             iacce=draw(mc.st.one_of(mc.st.none(), mc.st.lists(mc.st.integers(0, 20), min_size=1, max_size=4))))
    return c


@mc.st.composite
def strat_parts(draw):
    c = draw(chain_case(20, 300))
    c.update(b=draw(mc.st.integers(1, c['n'] // 2)), a=draw(mc.st.sampled_from([0.05, 0.1, 0.2, 0.25, 0.4])),
             bb=draw(mc.st.sampled_from([0.1, 0.3, 0.5, 0.59])))
    return c


PROP = Prop('C18', 'Chain statistics', [
    Sub('summary', strat_stats(), check_stats, 700, 12000, 'synthetic chains (independent, autoregressive, random walk, with repeats, trends, heavy '
        'tails) of 40-400 rows; non-trivial: the truncation of the autocorrelation is not decided by rounding'),
    Sub('summary_long', strat_stats(1000, 6000), check_stats, 60, 800, 'as above, chains of 1000-6000 rows', shrink=False),
    Sub('summary_huge', strat_stats(18000, 32000), check_stats, 4, 80, 'as above, chains of 18000-32000 rows', shrink=False, attempts=3),
    Sub('parts', strat_parts(), check_parts, 700, 12000, 'single statistics with generated settings'),
], assumptions=['the first part compared by the Geweke statistic is shorter than the last', 'chains have at least 40 rows and no constant column'])
