"""C05: delayed rejection."""
import math

import numpy as np
import scipy.stats as sst

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut
from .c03 import P_MIN


# ------------------------------------------------------------ acceptance probability of a path
@mc.st.composite
def strat_path(draw):
    d = draw(mc.st.integers(1, 3))
    k = draw(mc.st.sampled_from([1, 2, 2, 3, 3, 4, 5]))                    # tries
    ns = draw(mc.st.sampled_from([1, 1, 2]))
    c = {'x': [[draw(mc.fl(-2, 2, 2)) for _ in range(d)] for _ in range(k + 1)],
         'ss': [[draw(mc.fl(0, 6, 2)) for _ in range(ns)] for _ in range(k + 1)],
         'prior': [draw(mc.fl(0, 3, 2)) for _ in range(k + 1)],
         's2': [draw(mc.st.sampled_from([0.5, 1.0, 2.0])) for _ in range(ns)],
         'out': [False] + [draw(mc.st.sampled_from([False, False, False, True])) for _ in range(k - 1)] + [False],
         'R': [[(draw(mc.fl(0.5, 2, 1)) if i == j else draw(mc.fl(-0.5, 0.5, 1)) if j > i else 0.0) for j in range(d)]
               for i in range(d)],
         'scale': [draw(mc.st.sampled_from([1.5, 2.0, 5.0])) for _ in range(3)]}
    if draw(mc.st.sampled_from([True, True, False])):       # make rejecting the earlier tries likely
        c['ss'][0] = [round(v / 4, 3) for v in c['ss'][0]]
        for m in range(1, k):
            c['ss'][m] = [round(v + 2.5, 3) for v in c['ss'][m]]
    if draw(mc.st.sampled_from([False, False, True])):      # some points of nearly equal density: tries nearly certain
        base = draw(mc.st.integers(0, k))
        for m in range(k + 1):
            if m != base and draw(mc.st.booleans()):
                e = draw(mc.st.sampled_from([1e-5, 1e-4, 1e-3, -1e-5, -1e-4, -1e-3, 12.0, -12.0]))
                c['ss'][m] = [v + e for v in c['ss'][base]]
                c['prior'][m] = c['prior'][base]
    if k == 1:
        c['out'] = [False, False]
    return c


def check_path(c):
    from pymcmcstat.samplers.DelayedRejection import DelayedRejection
    from pymcmcstat.settings.SimulationOptions import SimulationOptions
    from pymcmcstat.structures.ParameterSet import ParameterSet
    x = [np.array(v) for v in c['x']]
    k = len(x) - 1
    s2 = np.array(c['s2'])
    R = [np.array(c['R'])]
    for i in range(1, max(k, 1)):
        R.append(R[-1] / c['scale'][min(i, len(c['scale'])) - 1])
    invR = [np.linalg.inv(r) for r in R]
    lp = [-math.inf if o else float(-0.5 * (np.array(s) / s2).sum() - 0.5 * p)
          for s, p, o in zip(c['ss'], c['prior'], c['out'])]

    def feasible(idx):
        return all(ref.dr_alpha([lp[j] for j in idx[:m + 1]], [x[j] for j in idx[:m + 1]], R) < 1 - 1e-6
                   for m in range(1, len(idx) - 1))
    fwd, bwd = list(range(k + 1)), list(range(k, -1, -1))
    if not feasible(fwd):
        raise Unsupported()

    def sets(idx):
        out = []
        for j in idx:
            if c['out'][j]:
                out.append(ParameterSet(theta=x[j].copy(), sigma2=s2.copy(), ss=np.inf, prior=0, alpha=0))
            else:
                out.append(ParameterSet(theta=x[j].copy(), sigma2=s2.copy(), ss=np.array(c['ss'][j]), prior=c['prior'][j]))
        return out

    def alpha(idx):
        with sut('delayed rejection acceptance probability'):
            dr = DelayedRejection()
            so = SimulationOptions()
            so.define_simulation_options(ntry=max(2, k), method='dr')
            dr._initialize_dr_metrics(so)
            v = float(np.asarray(dr.alphafun(sets(idx), [r.copy() for r in invR])).ravel()[0])
        return v
    a = alpha(fwd)
    want = ref.dr_alpha(lp, x, R)
    require(0.0 <= a <= 1.0, 'acceptance probability {}', a)
    require(abs(a - want) < 1e-8 + 1e-6 * want, 'try {}: acceptance probability {} instead of {}', k, a, want)
    info = {'nt': k > 1 and 0 < want < 1, 'n_outside_tries': sum(c['out'])}
    # detailed balance of the whole path, independent of the recursion above
    if feasible(bwd) and a > 0:
        b = alpha(bwd)

        def flow(idx, last):
            v = lp[idx[0]]
            for m in range(1, len(idx)):
                z = (x[idx[m]] - x[idx[0]]) @ invR[m - 1]
                v += -0.5 * float(z @ z)
                if m < len(idx) - 1:
                    am = 0.0 if c['out'][idx[m]] else alpha(idx[:m + 1])
                    v += math.log(1 - am) if am < 1 else -math.inf
            # the last try's proposal density is symmetric and cancels
            return v + (math.log(last) if last > 0 else -math.inf)
        f1, f2 = flow(fwd, a), flow(bwd, b)
        if f1 > -600 and not (f1 == f2):
            require(abs(f1 - f2) < 1e-6 * (1 + abs(f1)), 'detailed balance fails: forward log flow {} backward {} (alphas {} {})',
                    f1, f2, a, b)
            info['n_balanced'] = 1
    return info


# ------------------------------------------------------------ complete runs
def check_run(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    over = {}
    if cfg['opt'].get('RDR') is not None:
        over['RDR'] = [np.array(r, float) for r in cfg['opt']['RDR']]
    _, rec, res = mc.run(cfg, **over)
    sidx = mc.sampled(cfg)
    d = len(sidx)
    ntry = ref.eff_ntry(cfg)
    chain = np.asarray(res['chain'])
    require(chain.shape == (cfg['nsimu'], d), 'chain shape {}', chain.shape)
    traj, nad = ref.adaptation(cfg, chain, sidx)
    ssf, pr = mc.make_ss(cfg['tgt']), mc.make_prior(cfg)
    us = ref.eff_updatesigma(cfg)
    s2_0 = ref.eff_sigma2_0(cfg)
    unbounded = all(np.isinf([cfg['par'][i]['min'], cfg['par'][i]['max']]).all() for i in sidx)
    _, sts, _ = mc.steps(rec)
    z2 = [[] for _ in range(ntry)]
    S = np.zeros(ntry)
    V = np.zeros(ntry)
    later = hard = 0
    for i, (_, acc, _, _, _, evs) in enumerate(sts, start=1):
        if not unbounded and len(evs) != ntry:
            continue
        R = traj[i].R
        x0 = chain[i - 1]
        s2 = np.asarray(res['s2chain'][i - 1]) if us else s2_0
        xs = [x0] + [q[sidx] for q, _ in evs]
        require(len(evs) == ntry or acc, 'step {}: gave up after {} of {} tries', i, len(evs), ntry)
        lp = []
        for x in xs:
            with np.errstate(all='ignore'):
                v = float(-0.5 * (ssf(mc.full(cfg, x)) / s2).sum() - 0.5 * pr(x))
            lp.append(v if not math.isnan(v) else -math.inf)
        Rs = None
        if cfg['opt'].get('RDR') is not None and nad == 0:
            Rs = ref.dr_factors(cfg, None, ntry)
        elif cfg['opt'].get('RDR') is not None:
            continue
        elif R is not None:
            Rs = ref.dr_factors(cfg, R, ntry)
        if Rs is None:
            continue
        for k in range(1, len(xs)):
            a = ref.dr_alpha(lp[:k + 1], xs[:k + 1], Rs)
            took = bool(acc) and k == len(xs) - 1
            if k > 1:
                later += 1
            if unbounded:
                z = np.linalg.solve(Rs[k - 1].T, xs[k] - x0)
                z2[k - 1].append(z)
            judged = unbounded or k == ntry           # otherwise selected by the outcome
            if a > 1 - 1e-7 or a < 1e-12:
                hard += 1
                require(took == (a > 0.5), 'step {} try {}: acceptance probability is {} but the candidate was {} '
                        '(path {}, log posterior {})', i, k, a, 'accepted' if took else 'rejected',
                        [v.tolist() for v in xs[:k + 1]], lp[:k + 1])
            elif judged:
                S[k - 1] += float(took) - a
                V[k - 1] += a * (1 - a)
    for k in range(ntry):
        pv = ref.bernstein(S[k], V[k])
        require(pv > P_MIN, 'try {}: {:.1f} more acceptances than the acceptance probabilities add up to (variance {:.1f}), '
                'p<{:.2g}', k + 1, S[k], V[k], pv)
        z = np.array(z2[k])
        if z.size:
            q = float((z ** 2).sum())
            p2 = 2 * min(sst.chi2.cdf(q, z.size), sst.chi2.sf(q, z.size))
            require(p2 > P_MIN, 'try {}: candidates spread by a factor {:.3f} of the expected proposal width over {} steps '
                    '(p={:.2g})', k + 1, math.sqrt(q / z.size), len(z), p2)
            zm = np.abs(z.mean(axis=0)) * math.sqrt(len(z))
            require((zm < 7.5).all(), 'try {}: candidates are not centred on the current state', k + 1)
            if d > 1 and len(z) > 30:
                cc = (z.T @ z / len(z) - np.eye(d)) * math.sqrt(len(z))
                require((np.abs(cc) < 14).all(), 'try {}: candidates have the wrong correlation {}', k + 1,
                        (cc / math.sqrt(len(z))).tolist())
    # reported factors
    RDR = res['RDR']
    require(len(RDR) == ntry, '{} proposal factors reported for {} tries', len(RDR), ntry)
    if not (cfg['opt'].get('RDR') is not None and nad == 0):
        want = ref.dr_factors(dict(cfg, opt={k: v for k, v in cfg['opt'].items() if k != 'RDR'}), np.asarray(res['R']), ntry)
    else:
        want = ref.dr_factors(cfg, None, ntry)
    for k in range(ntry):
        require(np.allclose(RDR[k], want[k], rtol=1e-8, atol=1e-300), 'proposal factor of try {} is {} instead of {}', k + 1,
                np.asarray(RDR[k]).tolist(), want[k].tolist())
    return {'nt': later > 5, 'n_later_tries': later, 'n_forced': hard}


@mc.st.composite
def strat_run(draw, bounds='none', nsimu=(60, 250)):
    c = draw(mc.config(nsimu=nsimu, npar=(1, 3), methods=('dr', 'dr', 'dram', 'mh', 'am'), ntry=[2, 2, 3, 4, 5, 6], bounds=bounds,
                       adaptints=(None, 7, 25)))
    n = len(c['par'])
    if 'hole' in c['tgt']:
        c['tgt']['hole'][0] = 'inf'       # no rule is claimed after an undefined (NaN) sum-of-squares
    if 'priorhole' in c:
        c['priorhole'][0] = 'inf'
    if draw(mc.st.booleans()):
        for j in range(len(c['tgt']['b'])):
            c['tgt']['w'][j] = [draw(mc.st.sampled_from([0.5, 2.0, 20.0])) for _ in range(n)]
        c['opt']['qcov'] = [draw(mc.st.sampled_from([0.5, 2.0, 9.0])) for _ in range(n)]
    if draw(mc.st.sampled_from([False, False, False, True])):
        d = len(mc.sampled(c))
        nt = c['opt']['ntry']
        c['opt']['RDR'] = [[[draw(mc.st.sampled_from([0.3, 1.0, 2.5])) if i == j else (0.1 if j > i else 0.0)
                             for j in range(d)] for i in range(d)] for _ in range(nt)]
    return c


@mc.st.composite
def strat_late(draw):
    """wide proposals throughout (a large adaptation scale), many tries with unequal scales"""
    c = draw(mc.config(nsimu=(400, 900), npar=(1, 2), methods=('dram', 'dram', 'dr'), ntry=[5, 6], bounds='none',
                       adaptints=(10, 40)))
    n = len(c['par'])
    c['tgt'].pop('hole', None)
    c.pop('priorhole', None)
    c['opt'].pop('RDR', None)
    c['opt']['drscale'] = draw(mc.st.sampled_from([[1.5, 2.0, 4.0], [3.0, 1.5, 1.2], [2.0, 1.2, 1.5, 4.0], [1.2, 4.0, 2.0, 1.5, 1.2],
                                                   [1.5, 1.5, 3.0, 1.2, 2.0]]))
    c['opt']['adascale'] = draw(mc.st.sampled_from([8.0, 20.0, 50.0]))
    for j in range(len(c['tgt']['b'])):
        c['tgt']['w'][j] = [draw(mc.st.sampled_from([0.5, 2.0, 20.0])) for _ in range(n)]
    c['opt']['qcov'] = [draw(mc.st.sampled_from([0.5, 2.0, 9.0])) for _ in range(n)]
    return c


PROP = Prop('C05', 'Delayed rejection', [
    Sub('path', strat_path(), check_path, 2500, 60000,
        'acceptance probability of generated paths of 1-5 tries (some outside the limits) against an independent n-stage '
        'recursion, and detailed balance of forward/backward path flow; non-trivial: more than one try and 0<alpha<1'),
    Sub('run', strat_run(), check_run, 330, 8000,
        'complete runs without limits: every try judged against its acceptance probability and proposal width; non-trivial: '
        'more than 5 later tries'),
    Sub('run_long', strat_run(nsimu=(1500, 1500)), check_run, 36, 1200, 'as run, 1500 steps', shrink=False),
    Sub('run_late', strat_late(), check_run, 60, 2000,
        'as run, 400-900 steps of 5-6 tries with unequal scales and wide adapted proposals, so that the later tries decide',
        shrink=False),
    Sub('run_bounded', strat_run(bounds='any'), check_run, 240, 6000,
        'with limits: steps whose tries all fell inside are judged; non-trivial as above'),
], assumptions=['statistical decisions at level 1e-10', 'candidate sets of a step are identified by the order of evaluations'])
