bug('S13', 'C13', [('ParallelMCMC.py',
"""            self.parmc[ii].parameters = copy.deepcopy(parameters)
""",
"""            self.parmc[ii].parameters = copy.copy(parameters)
            self.parmc[ii].parameters.parameters = [par.copy() if par['sample'] else par
                                                    for par in parameters.parameters]
""")],
"""
from pymcmcstat.ParallelMCMC import ParallelMCMC
m = mk([dict(theta0=0., minimum=-5, maximum=5), dict(theta0=2., sample=False)], lambda q, d: (q[0] - q[1]) ** 2,
       nsimu=10, savedir='par')
P = ParallelMCMC()
with contextlib.redirect_stdout(io.StringIO()):
    P.setup_parallel_simulation(mcset=m, initial_values=np.array([[0., 3.], [1., 4.], [2., 5.]]), num_chain=3, num_cores=1)
check(m.parameters.parameters[1]['theta0'] == 2., 'serial setup modified')
check([p.parameters.parameters[1]['theta0'] for p in P.parmc] == [3., 4., 5.], 'initial values')
""",
"initial values given for a parameter that is not sampled",
"chains share the dictionary of unsampled parameters with each other and with the serial setup")

bug('S14', 'C14', [('settings/ModelSettings.py',
"""            if np.all(dsN[0] == udN):
                N = udN
""",
"""            if np.any(dsN[0] == udN):
                N = udN
""")],
"""
m = mk([dict(theta0=0.)], lambda q, d: np.array([q[0] ** 2, 1.]), nsimu=10, updatesigma=True,
       model=dict(N=[5, 500]), data=[(np.arange(5.), np.arange(5.))])
try: run(m)
except SystemExit: pass
else: check(False, 'inconsistent number of observations accepted')
""",
"one data set, several sum-of-squares elements, and a list of observation counts of which only some fit the data",
"an inconsistent number of observations is accepted")

bug('S15', 'C15', [('procedures/SumOfSquares.py',
"""            weight = data.weight[ibatch]
""",
"""            weight = data.weight[min(ibatch, 1)]
""")],
"""
m = MCMC(rngseed=1)
x = np.linspace(0, 1, 6).reshape(6, 1)
w = [1., 3., 7.]
for v in w:
    m.data.add_data_set(x, v * x, weight=v)
m.simulation_options.define_simulation_options(nsimu=20, waitbar=False, verbosity=0, method='mh')
m.model_settings.define_model_settings(model_function=lambda xd, q: q[0] * xd)
m.parameters.add_model_parameter(name='a', theta0=1.)
r = run(m)
want = [[(v * (v * x - a * x) ** 2).sum() for v in w] for a in r['chain'][:, 0]]
check(np.allclose(r['sschain'], want), 'weighted misfit')
""",
"three or more data sets, a later one with a weight of its own, and the default sum-of-squares",
"data sets from the third on are given the weight of the second")

bug('S16', 'C16', [('settings/ModelParameters.py',
"""        if np.isnan(mu):
            return value
""",
"""        if np.isnan(mu) or mu == 0:
            return value
""")],
"""
m = mk([dict(theta0=1., prior_mu=0., prior_sigma=.1)], lambda q, d: 0., nsimu=4000, qcov=np.array([[.04]]))
c = run(m)['chain'][500:, 0]
check(abs(c.mean()) < .05, 'prior mean 0 was not used: %.3f' % c.mean())
""",
"an informative prior with mean exactly zero", "a prior mean of zero is replaced by the initial value")

bug('S17', 'C17', [('procedures/CovarianceProcedures.py',
"""            qcov[qcov == 0] = 1.0  # if""",
"""            qcov[qcov < 1e-6] = 1.0  # if""")],
"""
m = mk([dict(theta0=0.001), dict(theta0=2.)], lambda q, d: q[1] ** 2, nsimu=20)
r = run(m)
check(np.allclose(r['qcov'], np.diag([0.00005 ** 2, .01])), 'default proposal covariance %s' % r['qcov'])
""",
"parameters at a small scale without given proposal covariance",
"the default proposal variance of small parameters is one")

bug('S18', 'C18', [('chain/ChainStatistics.py',
"""    s = np.sqrt(sum((y - npm.repmat(np.mean(chain, 0), nb, 1))**2)/(nb-1)*b)
""",
"""    s = np.sqrt(sum((y - npm.repmat(np.mean(y, 0), nb, 1))**2)/(nb-1)*b)
""")],
"""
from pymcmcstat.chain.ChainStatistics import batch_mean_standard_deviation as bm
np.random.seed(0)
x = np.random.randn(29, 2); x[20:] += 5
y = np.array([x[:10].mean(0), x[10:20].mean(0)])
check(np.allclose(bm(x), np.sqrt(((y - x.mean(0)) ** 2).sum(0) * 10)), 'batch mean standard deviation')
""",
"a chain whose length is not a multiple of the batch size",
"batch means are compared with their own mean, not with the chain's")

bug('S19', 'C19', [('chain/ChainProcessing.py',
"""        for jj in range(pr['chain'][burnin:, :].shape[0]):
""",
"""        for jj in range(pres[0]['chain'][burnin:, :].shape[0]):
""")],
"""
import pymcmcstat.chain.ChainProcessing as CP
a = np.arange(20.).reshape(10, 2); b = np.arange(40.).reshape(20, 2)
c, ix = CP.generate_combined_chain_with_index([dict(nsimu=10, chain=a), dict(nsimu=20, chain=b)], 50)
check(c.shape == (15, 2) and ix == ['Chain 0'] * 5 + ['Chain 1'] * 10, 'labels of the second chain')
""",
"combining chains of different lengths", "rows of later chains are labelled by the first chain's length")

bug('S20', 'C20', [('propagation.py',
"""                s2chain = s2chain * np.ones((nsimu, s2chain.size))
        else:
""",
"""                s2chain = s2chain.reshape(-1, 1)[np.arange(nsimu) % s2chain.size]
        else:
""")],
"""
from pymcmcstat.propagation import calculate_intervals
n = 400
chain = np.arange(n, dtype=float).reshape(n, 1)
f = lambda q, d: np.ones((5, 2)) * q[0]
np.random.seed(0)
out = calculate_intervals(chain, dict(parind=[0], theta=[0.]), None, f, s2chain=np.array([[0., 4.]]), nsample=400, waitbar=False)
check(np.array_equal(out[0]['prediction'], out[0]['credible']), 'variance of another output used')
""",
"constant variances for several outputs given as a single row",
"the variances of the outputs are used in turn for all outputs")

bug('S21', 'C21', [('propagation.py',
"""    ciset['labels'] = _setup_labels(ciset['limits'], inttype='CI')
    piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
    if fig is None:
        fig = plt.figure(figsize=figsize)
    ax = fig.gca()
    time = time""",
"""    ciset['labels'] = _setup_labels(ciset['limits'], inttype='CI')
    piset['labels'] = _setup_labels(ciset['limits'], inttype='PI')
    if fig is None:
        fig = plt.figure(figsize=figsize)
    ax = fig.gca()
    time = time""")],
"""
import matplotlib; matplotlib.use('Agg')
from pymcmcstat.propagation import plot_intervals
np.random.seed(0)
iv = dict(credible=np.random.randn(50, 4), prediction=np.random.randn(50, 4) * 3)
f, ax = plot_intervals(iv, np.arange(4.), ciset=dict(limits=[90, 50]), piset=dict(limits=[99, 80]))
check([c.get_label() for c in ax.collections] == ['99% PI', '80% PI', '90% CI', '50% CI'], 'labels')
""",
"different limits for credible and prediction intervals", "prediction bands carry the labels of the credible limits")

bug('S22', 'C22', [('plotting/PredictionIntervals.py',
"""                s2elem = s2elem.reshape(1, s2elem.shape[0])  # make row vector
""",
"""                s2elem = tests2chain[0].reshape(1, s2elem.shape[0])
""")],
"""
m = mk([dict(theta0=1.)], lambda q, d: ((d.ydata[0] - q[0]) ** 2).sum(), nsimu=400, updatesigma=True,
       model=dict(sigma2=100., S20=1., N0=1), data=[(np.arange(50.), np.ones(50) + np.random.RandomState(1).randn(50))])
r = run(m)
with contextlib.redirect_stdout(io.StringIO()):
    m.PI.setup_prediction_interval_calculation(results=r, data=m.data, modelfunction=lambda d, q: np.ones((50, 1)) * q[0])
    m.PI.generate_prediction_intervals(nsample=None, calc_pred_int=True)
p = m.PI.intervals['prediction_intervals'][0][0]
w = (p[2] - p[0]).mean()
check(w < 8, 'width %.2f of the 95%% prediction interval, sigma is about 1' % w)
""",
"an error variance that varies along the chain",
"prediction intervals use the variance of the first sampled row for all rows")

bug('S23', 'C23', [('plotting/MCMCPlotting.py',
"""        plt.plot(inds, chain, '.b')
""",
"""        plt.plot(chain, '.b')
""")],
"""
import matplotlib; matplotlib.use('Agg')
from pymcmcstat.plotting.MCMCPlotting import plot_chain_panel
f = plot_chain_panel(np.random.randn(1200, 2))
x = f.axes[0].lines[0].get_xdata()
check(x[1] == 2 and x[-1] == 1198, 'row numbers')
""",
"chains longer than maxpoints (or skip > 1)", "positions in the chain panel are not row numbers")

bug('S24', 'C24', [('MCMC.py',
"""                        invR=self._covariance._invR,
                        sosobj=self.__sos_object,
                        priorobj=self.__prior_object,
                        custom=self.custom_sampler_output)
""",
"""                        invR=self._covariance._invR,
                        sosobj=self.__sos_object,
                        priorobj=self.__prior_object)
""")],
"""
got = []
def ss(q, d, custom=None):
    got.append(custom); return 100 * q[0] ** 2
class C:
    def setup(self): return 's'
    def update(self, **kw): return kw['isimu']
m = mk([dict(theta0=0.)], ss, method='dr', nsimu=50, qcov=np.array([[1.]]))
m.custom_samplers.append(C())
run(m)
check(all(g is not None for g in got[1:]), 'candidate evaluated without the sampler outputs')
""",
"delayed rejection with a custom sampler", "later tries are evaluated without the custom samplers' outputs")
