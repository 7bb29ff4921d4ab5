"""C04: the posterior distribution is left invariant (and is what long adaptive runs report)."""
import math

import numpy as np
import scipy.stats as ss

from .. import mc, ref
from ..engine import Prop, Sub, require

T_LIMIT = 7.0


def gauss_post(cfg, s2):
    """per sampled parameter: mean and sd of the (untruncated) Gaussian posterior given sigma2"""
    sidx = mc.sampled(cfg)
    w, c = np.array(cfg['tgt']['w'], float), np.array(cfg['tgt']['c'], float)
    prec = (w / s2[:, None]).sum(0)
    num = (w * c / s2[:, None]).sum(0)
    sg = ref.prior_sigma(cfg)
    mu = np.array([p.get('mu', 0.0) for p in cfg['par']], float)
    if cfg.get('priorfun'):
        m, s = cfg['priorfun'][:2]
        prec, num = prec + 1 / s ** 2, num + m / s ** 2
    else:
        ok = np.isfinite(sg)
        prec[ok] += 1 / sg[ok] ** 2
        num[ok] += mu[ok] / sg[ok] ** 2
    return (num / prec)[sidx], np.sqrt(1 / prec)[sidx]


def functionals(u):
    """bounded functionals of uniforms (rows x dims) with known expectations under independence"""
    f, e, names = [], [], []
    for i in range(u.shape[1]):
        x = u[:, i]
        for nm, v, ex in (('mean', x, .5), ('sq', (2 * x - 1) ** 2, 1 / 3), ('q05', x < .05, .05), ('q25', x < .25, .25),
                          ('q50', x < .5, .5), ('q75', x < .75, .75), ('q95', x < .95, .95)):
            f.append(np.mean(v)), e.append(ex), names.append('{}[{}]'.format(nm, i))
        for j in range(i):
            f.append(np.mean((2 * x - 1) * (2 * u[:, j] - 1))), e.append(0.0), names.append('corr[{},{}]'.format(i, j))
    return np.array(f), np.array(e), names


def tstat(F, e):
    n = F.shape[0]
    sd = F.std(axis=0, ddof=1)
    sd = np.maximum(sd, 0.02)
    return (F.mean(axis=0) - e) / (sd / math.sqrt(n))


def check_fixed(cfg):
    rs = np.random.RandomState(cfg['seed'] % (2 ** 32))
    s2 = ref.eff_sigma2_0(cfg)
    m, sd = gauss_post(cfg, s2)
    sidx = mc.sampled(cfg)
    lo = np.array([cfg['par'][i]['min'] for i in sidx])
    hi = np.array([cfg['par'][i]['max'] for i in sidx])
    dist = ss.truncnorm((lo - m) / sd, (hi - m) / sd, loc=m, scale=sd)
    F = []
    moved = 0
    for r in range(cfg['reps']):
        th = np.clip(dist.ppf(rs.rand(len(sidx))), lo, hi)
        c = dict(cfg, seed=int(rs.randint(2 ** 31)), par=[dict(p) for p in cfg['par']])
        for k, i in enumerate(sidx):
            c['par'][i]['theta0'] = float(th[k])
        _, rec, res = mc.run(c, observe=False)
        chain = np.asarray(res['chain'])[1:]
        moved += (np.diff(chain[:, 0]) != 0).mean()
        f, e, names = functionals(np.clip(dist.cdf(chain), 0, 1))
        F.append(f)
    t = tstat(np.array(F), e)
    k = int(np.argmax(np.abs(t)))
    require(abs(t[k]) < T_LIMIT, 'posterior not invariant: {} has mean {:.4f} over {} chains started from exact posterior '
            'draws, expected {:.4f} (t={:.1f})', names[k], np.array(F)[:, k].mean(), cfg['reps'], e[k], t[k])
    return {'nt': moved / cfg['reps'] > 0.05, 'n_chains': cfg['reps'], 'n_steps': cfg['reps'] * (cfg['nsimu'] - 1),
            'max_t': round(float(np.abs(t).max()), 2)}


def check_joint(cfg):
    """error variance updated: joint posterior of parameters and error variances, one sum-of-squares"""
    rs = np.random.RandomState(cfg['seed'] % (2 ** 32))
    sidx = mc.sampled(cfg)
    d = len(sidx)
    N0, S20, N = ref.eff_N0_S20_N(cfg)
    a = 0.5 * (N0[0] + N[0])
    w = np.array(cfg['tgt']['w'][0])
    cc = np.array(cfg['tgt']['c'][0])
    fixedss = cfg['tgt']['b'][0] + sum(w[i] * (cfg['par'][i]['theta0'] - cc[i]) ** 2
                                       for i in range(len(w)) if i not in sidx)
    b = 0.5 * (N0[0] * S20[0] + fixedss)
    ig = ss.invgamma(a - d / 2.0, scale=b)
    w, cc = w[sidx], cc[sidx]
    F = []
    for r in range(cfg['reps']):
        s2 = float(ig.ppf(rs.rand()))
        th = cc + rs.randn(d) * np.sqrt(s2 / w)
        c = dict(cfg, seed=int(rs.randint(2 ** 31)), par=[dict(p) for p in cfg['par']], model=dict(cfg['model'], sigma2=s2))
        for k, i in enumerate(sidx):
            c['par'][i]['theta0'] = float(th[k])
        _, rec, res = mc.run(c, observe=False)
        chain, s2c = np.asarray(res['chain'])[1:], np.asarray(res['s2chain'])[1:, 0]
        u = np.column_stack([ss.norm.cdf((chain - cc) / np.sqrt(s2c[:, None] / w)), ig.cdf(s2c)])
        f, e, names = functionals(u)
        F.append(f)
    t = tstat(np.array(F), e)
    k = int(np.argmax(np.abs(t)))
    require(abs(t[k]) < T_LIMIT, 'joint posterior of parameters and error variance not invariant: {} has mean {:.4f} over {} '
            'chains, expected {:.4f} (t={:.1f}; last index is the variance)', names[k], np.array(F)[:, k].mean(), cfg['reps'],
            e[k], t[k])
    return {'n_chains': cfg['reps'], 'n_steps': cfg['reps'] * (cfg['nsimu'] - 1), 'max_t': round(float(np.abs(t).max()), 2)}


def check_adaptive(cfg):
    """long adaptive chains from anywhere report the posterior moments"""
    s2 = ref.eff_sigma2_0(cfg)
    m, sd = gauss_post(cfg, s2)
    sidx = mc.sampled(cfg)
    lo = np.array([cfg['par'][i]['min'] for i in sidx])
    hi = np.array([cfg['par'][i]['max'] for i in sidx])
    dist = ss.truncnorm((lo - m) / sd, (hi - m) / sd, loc=m, scale=sd)
    F = []
    for r in range(cfg['reps']):
        c = dict(cfg, seed=ref_seed(cfg['seed'], r))
        _, rec, res = mc.run(c, observe=False)
        chain = np.asarray(res['chain'])
        burn = chain.shape[0] // 3
        f, e, names = functionals(np.clip(dist.cdf(chain[burn:]), 0, 1))
        F.append(f)
    F = np.array(F)
    t = tstat(F, e)
    bias = np.abs(F.mean(axis=0) - e)
    bad = (np.abs(t) > 8.0) & (bias > 0.04)
    k = int(np.argmax(np.where(bad, bias, -1)))
    require(not bad.any(), 'adaptive chains do not report the posterior: {} has mean {:.4f} over {} chains of {} steps, '
            'expected {:.4f} (t={:.1f})', names[k], F[:, k].mean(), cfg['reps'], cfg['nsimu'], e[k], t[k])
    return {'n_chains': cfg['reps'], 'n_steps': cfg['reps'] * cfg['nsimu'], 'max_bias': round(float(bias.max()), 4)}


def ref_seed(seed, r):
    return int((seed * 7919 + r * 104729 + 12345) % (2 ** 31))


def _tame(draw, c, bounded=True):
    """posterior of roughly unit width around the parameter values, proposals of comparable width"""
    n = len(c['par'])
    for i, p in enumerate(c['par']):
        p['theta0'] = draw(mc.fl(-2, 2, 1))
        p['min'], p['max'] = -math.inf, math.inf
        if bounded and p['sample']:
            k = draw(mc.st.sampled_from(['none', 'low', 'high', 'both']))
            if k in ('low', 'both'):
                p['min'] = p['theta0'] - draw(mc.fl(0.1, 1.0, 1))
            if k in ('high', 'both'):
                p['max'] = p['theta0'] + draw(mc.fl(0.1, 1.0, 1))
        if 'mu' in p:
            if math.isnan(p['mu']) or p['sigma'] <= 0:
                p.pop('mu'), p.pop('sigma')
            else:
                p['mu'] = round(p['theta0'] + draw(mc.fl(-1, 1, 1)), 2)
                p['sigma'] = draw(mc.st.sampled_from([0.5, 1.0, 2.0]))
    for j in range(len(c['tgt']['b'])):
        for i in range(n):
            c['tgt']['c'][j][i] = round(c['par'][i]['theta0'] + draw(mc.fl(-1, 1, 1)), 2)
            c['tgt']['w'][j][i] = draw(mc.st.sampled_from([0.5, 1.0, 2.0]))
    c['ndata'] = [draw(mc.st.integers(4, 12)) for _ in c['ndata']]
    c['opt']['qcov'] = draw(mc.st.one_of(
        mc.st.lists(mc.st.sampled_from([0.5, 2.0, 6.0]), min_size=n, max_size=n),
        mc.st.lists(mc.st.sampled_from([1.0, 3.0]), min_size=n, max_size=n).map(
            lambda v: (np.diag(v) + 0.3 * np.sqrt(np.outer(v, v)) * (1 - np.eye(n))).round(6).tolist()) if n > 1
        else mc.st.just([2.0])))
    return c


@mc.st.composite
def strat_fixed(draw):
    c = draw(mc.config(nsimu=(20, 60), npar=(1, 3), methods=('mh', 'dr'), ntry=[None, 2, 3, 4], holes=False, updatesigma=False,
                       extra=False, nsos=draw(mc.st.sampled_from([1, 1, 2]))))
    c = _tame(draw, c)
    if draw(mc.st.booleans()):
        c['opt']['drscale'] = draw(mc.st.sampled_from([[2.0], [3.0, 2.0], [1.5, 2.0, 4.0]]))
    ns = len(c['tgt']['b'])
    c['model'] = {'sigma2': [draw(mc.st.sampled_from([0.5, 1.0, 2.0])) for _ in range(ns)]}
    c['reps'] = 250
    return c


@mc.st.composite
def strat_joint(draw):
    c = draw(mc.config(nsimu=(20, 50), npar=(1, 2), methods=('mh', 'dr'), ntry=[None, 2, 3], holes=False, updatesigma=True,
                       extra=False, nsos=1, bounds='none', prior='none', priorfun=False))
    c = _tame(draw, c, bounded=False)
    c['tgt']['b'] = [draw(mc.st.sampled_from([2.0, 6.0]))]
    c['model'] = {'N0': draw(mc.st.sampled_from([1, 4])), 'S20': draw(mc.st.sampled_from([0.5, 2.0]))}
    c['reps'] = 250
    return c


@mc.st.composite
def strat_adaptive(draw):
    c = draw(mc.config(nsimu=(3000, 3000), npar=(1, 3), methods=('am', 'dram'), ntry=[None, 3], holes=False, updatesigma=False,
                       extra=False, nsos=draw(mc.st.sampled_from([1, 1, 2])), adaptints=(20, 100), adapt=True))
    c = _tame(draw, c)
    c['model'] = {'sigma2': 1.0}
    c['reps'] = 12
    return c


PROP = Prop('C04', 'Posterior invariance', [
    Sub('invariance', strat_fixed(), check_fixed, 42, 1500,
        '250 chains started from exact posterior draws (Gaussian or truncated Gaussian posteriors, 1-3 parameters, several '
        'sums-of-squares, priors, bounds, 1-4 tries); chain averages of bounded functionals of the exact CDF are t-tested '
        '(|t|>7 is a violation); non-trivial: the chains move', shrink=False),
    Sub('joint', strat_joint(), check_joint, 18, 600,
        'the same for the joint posterior of parameters and updated error variance (normal-inverse-gamma)', shrink=False),
    Sub('adaptive', strat_adaptive(), check_adaptive, 18, 400,
        '12 adaptive chains of 3000 steps each; |t|>8 and a bias above 0.04 is a violation', shrink=False),
], assumptions=['statistical decision: a correct sampler is rejected with probability below 1e-9 per functional',
                'exact invariance is claimed for non-adaptive methods; adaptive ones are held to long-run averages'])
