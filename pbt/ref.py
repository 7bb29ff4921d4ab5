"""Reference models, written from the documentation and the literature, not from the code."""
import math

import numpy as np


def eff_ntry(cfg):
    return cfg['opt'].get('ntry') or {'mh': 1, 'am': 1, 'dr': 2, 'dram': 2, 'ram': 1}[cfg['method']]


def eff_adaptint(cfg):
    if cfg['method'] in ('mh', 'dr'):
        return 0
    return cfg['opt'].get('adaptint', 1 if cfg['method'] == 'ram' else 100)


def eff_drscale(cfg):
    return np.array(cfg['opt'].get('drscale', [5.0, 4.0, 3.0]), dtype=float)


def eff_sigma2_0(cfg):
    """error variance before the first step, one per sum-of-squares element"""
    ns = len(cfg['tgt']['b'])
    m = cfg['model']
    if 'sigma2' in m:
        v = m['sigma2']
    elif 'N0' in m and 'S20' in m:
        v = m['S20']
    else:
        v = 1.0
    return np.ones(ns) * np.asarray(v, dtype=float)


def eff_updatesigma(cfg):
    return bool(cfg['opt'].get('updatesigma')) or 'N0' in cfg['model']


def eff_N0_S20_N(cfg):
    ns = len(cfg['tgt']['b'])
    m = cfg['model']
    if 'N0' in m:
        N0 = m['N0']
    else:
        N0 = 1.0 if 'sigma2' in m else 0.0
    S20 = m['S20'] if 'S20' in m else eff_sigma2_0(cfg)
    nd = cfg['ndata']
    if len(nd) == ns:
        N = nd
    elif len(nd) == 1:
        N = nd[0]
    else:                      # several data sets, one sum-of-squares
        N = sum(nd)
    one = np.ones(ns)
    return one * np.asarray(N0, float), one * np.asarray(S20, float), one * np.asarray(N, float)


def prior_sigma(cfg):
    s = np.array([p.get('sigma', math.inf) for p in cfg['par']], dtype=float)
    s[~(s > 0)] = math.inf
    return s


def initial_qcov(cfg):
    """full (all parameters) initial proposal covariance"""
    q = cfg['opt'].get('qcov')
    if q is None:
        s = prior_sigma(cfg)
        th = np.array([p['theta0'] for p in cfg['par']], dtype=float)
        v = np.where(np.isinf(s), (0.05 * np.abs(th)) ** 2, s ** 2)
        v[v == 0] = 1.0
        return np.diag(v)
    q = np.array(q, dtype=float)
    if q.ndim == 1 or min(q.shape) == 1:
        return np.diag(q.ravel())
    return q


def log_ratio(ss_new, ss_old, s2, pr_new, pr_old):
    with np.errstate(all='ignore'):
        return float(-0.5 * np.sum(np.asarray(ss_new) / s2) + 0.5 * np.sum(np.asarray(ss_old) / s2)
                     - 0.5 * pr_new + 0.5 * pr_old)


def bernstein(S, V, up=1.0, down=1.0):
    """upper bound for P(|sum of martingale differences in [-down,up]| >= |S|), predictable variance V"""
    t = abs(S)
    if t == 0:
        return 1.0
    return 2.0 * math.exp(-t * t / (2.0 * (V + (up if S > 0 else down) * t / 3.0)))


def ks_p(u):
    """p-value (asymptotic bound) that values u are uniform(0,1)"""
    u = np.sort(np.asarray(u, dtype=float))
    n = len(u)
    i = np.arange(1, n + 1)
    d = max((i / n - u).max(), (u - (i - 1) / n).max())
    return min(1.0, 2.0 * math.exp(-2.0 * n * d * d))        # DKW-Massart


# ---------------------------------------------------------------- delayed rejection
def dr_alpha(lp, x, R):
    """Acceptance probability of the last point of path x[0..k] after rejecting the ones between.

    lp: log posterior of each point (-inf for points outside the support).
    R[i]: upper Cholesky factor (proposal covariance R^T R) of try i+1, centred on the current state.
    Mira (2001) / Haario et al. (2006); proposals are symmetric around the chain's position.
    """
    k = len(x) - 1

    def logq(i, frm, to):            # density of try i (0-based) from frm
        z = np.linalg.solve(R[i].T, np.asarray(to) - np.asarray(frm))
        return -0.5 * float(z @ z)

    def alpha(path):                 # path: indices into x
        m = len(path) - 1
        if lp[path[-1]] == -math.inf or np.isnan(lp[path[-1]]):
            return 0.0
        num, den = lp[path[-1]], lp[path[0]]
        a1 = a2 = 1.0
        for j in range(1, m):
            num += logq(j - 1, x[path[m]], x[path[m - j]])
            den += logq(j - 1, x[path[0]], x[path[j]])
            a1 *= 1.0 - alpha(path[:j + 1])
            a2 *= 1.0 - alpha(path[m:m - j - 1:-1])
        if a2 <= 0.0:
            return 0.0
        if a1 <= 0.0:
            return 1.0
        t = num - den + math.log(a2) - math.log(a1)
        return 1.0 if t >= 0 else math.exp(t)
    return alpha(list(range(k + 1)))


# ---------------------------------------------------------------- adaptation
def eff_scale(cfg, d):
    a = cfg['opt'].get('adascale')
    if cfg['method'] == 'ram' and a is None:
        return 1.0
    return 2.4 / math.sqrt(d) if a is None or a <= 0 else float(a)


class Adapted:
    """one admissible set of proposal covariances (without rounding there would be one)"""

    def __init__(self, options, cov=None, mean=None, ambiguous=False):
        self.options, self.cov, self.mean, self.ambiguous = options, cov, mean, ambiguous

    @property
    def R(self):
        """upper Cholesky factor, None where rounding decides"""
        if self.ambiguous:
            return None
        try:
            return np.linalg.cholesky(self.options[0]).T
        except np.linalg.LinAlgError:
            return None


def pd_class(m, floor=0.0):
    """+1 clearly positive definite, -1 clearly not, 0 rounding decides"""
    if np.abs(np.diag(m)).min() <= floor:
        return 0                       # a variance that is rounding noise
    d = np.sqrt(np.maximum(np.abs(np.diag(m)), 1e-300))
    if not np.all(np.isfinite(m)):
        return -1
    n = m / np.outer(d, d)
    if not np.all(np.isfinite(n)):
        return 0
    e = np.linalg.eigvalsh(n)
    lo = e.min()
    if lo > 1e-7:
        return 1
    if lo < -1e-7:
        return -1
    return 0


def distinct(ms):
    out = []
    for m in ms:
        if not any(np.allclose(m, o, rtol=1e-9, atol=0) for o in out):
            out.append(m)
    return out


def adaptation(cfg, chain, sidx, start=0, theta0=None, nsimu=None):
    """Proposal covariance used in each step (list index = step number, from 1) and after the run.

    chain: all rows; the run's first state is row `start`.
    """
    nsimu = nsimu or cfg['nsimu']
    d = len(sidx)
    q0 = initial_qcov(cfg)[np.ix_(sidx, sidx)]
    cur = Adapted([q0])
    if cfg['opt'].get('RDR') is not None:
        r0 = np.array(cfg['opt']['RDR'][0], float)
        cur = Adapted([r0.T @ r0])
    ai = eff_adaptint(cfg)
    la = cfg['opt'].get('lastadapt', 0)
    la = nsimu if la < 1 else la
    bt = cfg['opt'].get('burnintime', 0)
    bs = cfg['opt'].get('burnin_scale', 10)
    adj = cfg['opt'].get('qcov_adjust', 1e-8)
    n0 = cfg['opt'].get('initqcovn')
    scale = eff_scale(cfg, d)
    noad = np.array([not cfg['par'][i]['adapt'] for i in sidx])
    out = [None]
    m0 = np.array(chain[start] if theta0 is None else theta0, float)
    cov, mean = (q0, m0) if n0 is not None else (None, None)
    nad = 0
    for i in range(1, nsimu):
        out.append(cur)
        if not (ai > 0 and i % ai == 0 and i <= la):
            continue
        nad += 1
        k = start + i
        if i < bt:
            rows = chain[k - ai:k + 1]
            rej = [j for j in range(1, len(rows)) if np.array_equal(rows[j], rows[j - 1])]
            # a move too small for the precision of the row looks like a rejection
            lost = sum(any((np.sqrt(np.diag(o)) < 1e7 * 2.3e-16 * np.abs(rows[j])).all() for o in out[i - ai + j].options) for j in rej)
            f = set()
            for r in range(len(rej) - lost, len(rej) + 1):
                if abs(r / ai - 0.95) < 1e-9:          # rounding decides
                    f |= {1.0, bs ** -2.0}
                elif abs(r / ai - 0.05) < 1e-9:
                    f |= {1.0, bs ** 2.0}
                else:
                    f.add(bs ** -2.0 if r / ai > 0.95 else bs ** 2.0 if r / ai < 0.05 else 1.0)
            f = sorted(f)
            opts = [o * g for o in cur.options for g in f]
            cur = Adapted(opts if len(opts) < 40 else distinct(opts), cov, mean, cur.ambiguous or len(f) > 1)
            continue
        x = np.asarray(chain[:k], float)
        n = x.shape[0]
        xm = x.mean(axis=0)
        sx = (x - xm).T @ (x - xm)
        if n0 is None:
            mean = xm
            cov = sx / (n - 1) if n > 1 else np.zeros((d, d))
        else:
            dd = (m0 - xm)[:, None] @ (m0 - xm)[None, :]
            mean = (n0 * m0 + n * xm) / (n0 + n)
            cov = ((n0 - 1) * q0 + sx + n0 * n / (n0 + n) * dd) / (n0 + n - 1)
        up = cov.copy()
        up[noad, :] = q0[noad, :]
        up[:, noad] = q0[:, noad]
        c1 = pd_class(up, 1e-24 * (1 + np.abs(x).max() ** 2))
        up2 = up + adj * np.eye(d)
        opts, amb = [], False
        if c1 == 1:
            opts = [up * scale ** 2]
        else:
            if c1 == 0:
                opts.append(up * scale ** 2)
                amb = True
            c2 = pd_class(up2)
            if c2 >= 0:
                opts.append(up2 * scale ** 2)
            if c2 <= 0:
                opts += cur.options
            amb = amb or c2 == 0
        cur = Adapted(opts, cov, mean, amb or (cur.ambiguous and len(opts) > 1))
    cur.cov, cur.mean = cov, mean
    out.append(cur)
    return out, nad


def dr_factors(cfg, R, ntry):
    if cfg['opt'].get('RDR') is not None:
        return [np.array(r, float) for r in cfg['opt']['RDR']]
    s = eff_drscale(cfg)
    out = [R]
    for i in range(1, ntry):
        out.append(out[-1] / s[min(i, len(s)) - 1])
    return out
