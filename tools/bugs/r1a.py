bug('S01', 'C01', [('samplers/DelayedRejection.py',
"""            outsidebounds = is_sample_outside_bounds(next_set.theta,
                                                     parameters._lower_limits[parameters._parind[:]],
                                                     parameters._upper_limits[parameters._parind[:]])
""",
"""            outsidebounds = is_sample_outside_bounds(next_set.theta,
                                                     parameters._lower_limits[:parameters.npar],
                                                     parameters._upper_limits[:parameters.npar])
""")],
"""
seen = []
def ss(q, d):
    seen.append(q[1]); return (q[1] - 3.) ** 2 * 10
m = mk([dict(theta0=0., sample=False), dict(theta0=0.5, minimum=0., maximum=1.)], ss, method='dr', nsimu=400,
       qcov=np.diag([1., 4.]))
r = run(m)
check(r['chain'].min() >= 0 and r['chain'].max() <= 1 and max(seen) <= 1 and min(seen) >= 0, 'outside limits')
""",
"delayed rejection with an unsampled parameter declared before a bounded sampled one",
"second-stage candidates are compared with another parameter's limits")

bug('S02', 'C02', [('MCMC.py',
"""        self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
        self.__old_set = self.__initial_set
""",
"""        if self.__chain_index == 0:
            self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
        self.__old_set = self.__initial_set
""")],
"""
m = mk([dict(theta0=0.)], lambda q, d: q[0] ** 2, nsimu=100, qcov=np.array([[9.]]))
run(m)
r = run(m, use_previous_results=True)
c = r['chain'][99:, 0]
check(abs(r['total_rejected'] * 100 - (np.diff(c) == 0).sum()) < 1e-9, 'rejection fraction of the continued run')
""",
"continuing a simulation",
"rejections of the earlier run are counted again in the fractions of the continued one")

bug('S03', 'C03', [('samplers/utilities.py',
"""    if alpha > np.log(np.random.rand(1, 1)):
        return True
    else:
        return False
""",
"""    if alpha <= np.log(np.random.rand(1, 1)):
        return False
    else:
        return True
""")],
"""
f = lambda q, d: np.nan if q[0] > 0.5 else (q[0] ** 2)
m = mk([dict(theta0=0.)], f, nsimu=300, qcov=np.array([[1.]]))
r = run(m)
check(not np.isnan(r['sschain']).any(), 'candidate with undefined sum of squares accepted')
""",
"a sum-of-squares function that returns NaN for some parameter values",
"candidates whose posterior ratio is undefined are accepted")

bug('S04', 'C04', [('samplers/Metropolis.py',
"""        if outsidebounds is True:
            # proposed value outside parameter limits
""",
"""        for _ in range(3):
            if outsidebounds is False:
                break
            # try again before giving up on this step
            newpar, npar_sample_from_normal = sample_candidate_from_gaussian_proposal(
                    npar=parameters.npar, oldpar=oldpar, R=R)
            outsidebounds = is_sample_outside_bounds(newpar, parameters._lower_limits[parameters._parind[:]],
                                                     parameters._upper_limits[parameters._parind[:]])
        if outsidebounds:
            # proposed value outside parameter limits
""")],
"""
m = mk([dict(theta0=0.5, minimum=0., maximum=1.)], lambda q, d: 0., nsimu=60000, qcov=np.array([[.49]]), seed=3)
c = run(m)['chain'][:, 0]
edge = ((c < .1) | (c > .9)).mean()
check(abs(edge - .2) < .015, 'uniform target: mass near the limits %.4f, should be 0.2' % edge)
""",
"a posterior with mass at a parameter limit (redrawing instead of rejecting biases it away from the limit)",
"the chain no longer leaves the posterior invariant")

bug('S05', 'C05', [('samplers/DelayedRejection.py',
"""        iR = invR[iq]  # proposal^(-1/2)
""",
"""        iR = invR[0]  # proposal^(-1/2)
""")],
"""
from pymcmcstat.samplers.DelayedRejection import DelayedRejection
from pymcmcstat.structures.ParameterSet import ParameterSet as P
S = lambda t: P(theta=np.array([t]), ss=np.array([t * t]), prior=0., sigma2=np.array([1.]))
D = DelayedRejection(); D.iacce = np.zeros(4, int); D.dr_step_counter = 0
path = [S(0.3), S(2.5), S(-2.2), S(0.8)]
inv = [np.array([[1.]]), np.array([[4.]]), np.array([[12.]])]
lp = lambda s: -.5 * s.ss.sum()
q1 = lambda a, b, k: -.5 * ((b.theta - a.theta)[0] * inv[k][0, 0]) ** 2
def al(p):
    n = len(p) - 1
    if n == 1: return min(1, np.exp(lp(p[1]) - lp(p[0])))
    num, den = lp(p[-1]), lp(p[0])
    a1 = a2 = 1.
    rev = p[::-1]
    for k in range(1, n):
        num += q1(rev[0], rev[k], k - 1); den += q1(p[0], p[k], k - 1)
        a1 *= 1 - al(p[:k + 1]); a2 *= 1 - al(rev[:k + 1])
    return min(1, np.exp(num - den) * a2 / a1)
check(abs(float(D.alphafun(path, inv)[0] if np.ndim(D.alphafun(path, inv)) else D.alphafun(path, inv)) - al(path)) < 1e-9,
      'third-stage acceptance probability')
""",
"three or more delayed rejection stages (ntry >= 3)",
"the acceptance probability of stages beyond the second uses the first stage's proposal scale for all stages")

bug('S06', 'C06', [('samplers/Adaptation.py',
"""            covchain = oldcovchain
            meanchain = oldmeanchain
            wsum = oldwsum
""",
"""            covchain, meanchain, wsum = oldcovchain, oldmeanchain, oldwsum
            last_index_since_adaptation = chainind
""")],
"""
m = mk([dict(theta0=0.), dict(theta0=1.)], lambda q, d: q[0] ** 2 + q[1] ** 2, nsimu=201, method='am', adaptint=20,
       burnintime=50, qcov=np.eye(2))
r = run(m)
check(np.allclose(r['cov'], np.cov(r['chain'][:200].T)), 'adapted covariance is not that of the chain')
""",
"burnintime > adaptint, so that adaptation runs during burn-in",
"rows sampled during burn-in are left out of the adapted covariance")

bug('S07', 'C07', [('procedures/ErrorVarianceEstimator.py',
"""            y = self._gammar_mt1(1+a, b)*np.random.rand(1)**(a**(-1))
""",
"""            y = self._gammar_mt1(1+a, b)*np.random.rand(1)**a
""")],
"""
from pymcmcstat.procedures.ErrorVarianceEstimator import ErrorVarianceEstimator as E
np.random.seed(0)
x = E().gammar(20000, 1, 0.4, 2.).ravel()
check(abs(x.mean() - .8) < .05, 'gamma mean %.3f, expected 0.8' % x.mean())
""",
"N0 + N < 2 (one observation and small prior accuracy), so the gamma shape is below one",
"error variances are not drawn from the conditional inverse-gamma distribution")

bug('S08', 'C08', [('MCMC.py',
"""        np.random.seed(seed=rngseed)
""",
"""        np.random.seed(seed=rngseed or None)
""")],
"""
def one():
    m = mk([dict(theta0=0.)], lambda q, d: q[0] ** 2, nsimu=50, seed=0)
    return run(m)['chain']
check(np.array_equal(one(), one()), 'same seed, different chains')
""",
"the seed 0", "runs with rngseed=0 are not reproducible")

bug('S09', 'C09', [('MCMC.py',
"""                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])
""",
"""                mtx = chain['mtx'][start:end, :]
                if len(mtx) > 1 or start == 0:
                    ChainProcessing._save_to_txt_file(chainfile, mtx=mtx)
""")],
"""
import pymcmcstat.chain.ChainProcessing as CP
m = mk([dict(theta0=0.)], lambda q, d: q[0] ** 2, nsimu=21, savesize=10, save_to_txt=True, savedir='log')
r = run(m)
with contextlib.redirect_stdout(io.StringIO()):
    o = CP.read_in_savedir_files('log', extension='txt')
check(o['chain'].shape == r['chain'].shape and np.array_equal(o['chain'], r['chain']), 'logged chain differs')
""",
"text logs whose last piece is a single row (length one more than a multiple of savesize, or savesize 1)",
"pieces of a single row are not written to the text logs")

bug('S10', 'C10', [('MCMC.py',
"""        self.__execute_simulator()
""",
"""        try:
            self.__execute_simulator()
        except KeyboardInterrupt:
            print('Simulation interrupted')
""")],
"""
n = [0]
def ss(q, d):
    n[0] += 1
    if n[0] > 30: raise KeyboardInterrupt
    return q[0] ** 2
m = mk([dict(theta0=5.)], ss, nsimu=100, savesize=10, save_to_bin=True, save_to_json=True, savedir='log')
try: run(m)
except KeyboardInterrupt: pass
else: check(False, 'interrupt swallowed')
check(not [f for f in os.listdir('log') if f.endswith('.json')], 'results written')
""",
"a keyboard interrupt during sampling",
"the interrupt does not reach the caller, and results with rows never sampled are written")

bug('S11', 'C11', [('settings/ModelParameters.py',
"                        self.parameters[kk]['theta0'] = theta[parii]\n",
"                        self.parameters[kk]['theta0'] = theta[ii]\n")],
"""
m = mk([dict(theta0=7., sample=False), dict(theta0=0.), dict(theta0=3.)], lambda q, d: q[1] ** 2 + q[2] ** 2, nsimu=30)
r = run(m); last = r['chain'][-1].copy()
seen = []
m.model_settings.sos_function = lambda q, d: (seen.append(q[1:].copy()), q[1] ** 2 + q[2] ** 2)[1]
r = run(m, use_previous_results=True)
check(np.array_equal(seen[0], last), 'continuation does not start from the last sample')
""",
"continuing a run that has an unsampled parameter before a sampled one",
"the continued run starts from another parameter's value")

bug('S12', 'C12', [('structures/ResultsStructure.py',
"""        light_results = results.copy()
""",
"""        light_results = results
"""), ('structures/ResultsStructure.py',
"""    for keyii in do_not_save_these_keys:
        results = removekey(results, keyii)
    return results
""",
"""    for keyii in do_not_save_these_keys:
        results.pop(keyii)
    return results
""")],
"""
m = mk([dict(theta0=0.)], lambda q, d: q[0] ** 2, nsimu=21, save_to_json=True, save_to_txt=True, savedir='log',
       results_filename='r.json')
r = run(m)
check('chain' in r and r['chain'].shape == (21, 1), 'chain missing from the results in memory')
""",
"save_to_json together with logging to file (light results)",
"writing the light results file removes the chains from the results in memory")
