"""Planted bugs, second round."""

bug('S26', 'C06', [('samplers/Adaptation.py',
"""        if isimu < burnintime:
""",
"""        if chainind < burnintime:
""")],
"""
m = mk([dict(theta0=1.)], lambda q, d: 0., nsimu=60, method='am', adaptint=10, burnintime=40, burnin_scale=2., qcov=np.array([.0025]))
run(m)
m.simulation_options.define_simulation_options(nsimu=31, method='am', adaptint=10, burnintime=40, burnin_scale=2., qcov=np.array([.0025]), waitbar=False, verbosity=0)
r = run(m, use_previous_results=True)
# everything is accepted: three enlargements by burnin_scale during the burn-in of the continued run
check(np.allclose(r['R'], .05 * 2. ** 3, rtol=1e-6), 'proposal after burn-in of a continued run %s' % r['R'])
""",
"a continued run with a burn-in period shorter than the chain so far",
"the burn-in of a continued run is skipped, the proposal adapts at once")

bug('S27', 'C03', [('samplers/Metropolis.py',
"""                    loglikestar=-0.5*(ss1/sigma2).sum(),
""",
"""                    loglikestar=-0.5*np.nansum(ss1/sigma2),
""")],
"""
def ss(q, d):
    return np.array([0., np.nan if q[0] > 1 else 0.])

m = mk([dict(theta0=0.)], ss, nsimu=400, qcov=np.array([[1.]]))
r = run(m)
check((r['chain'] <= 1).all(), 'accepted a point where the sum-of-squares is undefined')
""",
"a vector sum-of-squares of which a single element is NaN at the proposal",
"points of undefined posterior density are accepted")

bug('S31', 'C18', [('chain/ChainStatistics.py',
"""    z = (m1 - m2)/(np.sqrt(sa/na + sb/(nsimu - nb)))
""",
"""    z = (m1 - m2)/(np.sqrt(sa/na + sb/nb))
""")],
"""
from pymcmcstat.chain import ChainStatistics as CS
c = np.random.RandomState(0).randn(401, 1)
z, p = CS.geweke(c, a=.1, b=.3)
na, nb = 40, 401 - 120
sa, sb = CS.spectral_estimate_for_variance(c[:na]), CS.spectral_estimate_for_variance(c[nb:])
want = (c[:na].mean(0) - c[nb:].mean(0)) / np.sqrt(sa / na + sb / (401 - nb))
check(np.allclose(z, want), 'Geweke statistic %s instead of %s' % (z, want))
""",
"a last part other than half of the chain, or an odd chain length",
"the variance of the last part's mean uses the wrong number of rows")

bug('S32', 'C20', [('propagation.py',
"""        opred = y*np.exp(np.random.standard_normal(y.shape) * np.sqrt(s2))
""",
"""        opred = y*np.exp(np.random.standard_normal(y.shape) * np.sqrt(s2) - 0.5*s2)
""")],
"""
from pymcmcstat.propagation import calculate_intervals
np.random.seed(3)
c = np.ones((4000, 1))
with contextlib.redirect_stdout(io.StringIO()):
    iv = calculate_intervals(c, dict(parind=np.array([0]), theta=np.array([1.])), None, lambda q, d: q[0] * np.ones(3), s2chain=.25,
                             nsample=4000, waitbar=False, sstype=2)
check(np.abs(np.log(iv['prediction']).mean()) < .03, 'log of the predictions is off by %.3f' % np.log(iv['prediction']).mean())
""",
"errors on the logarithmic scale (sstype=2)",
"predictions are shifted down, so that their mean instead of their median is the response")

bug('S33', 'C23', [('plotting/utilities.py',
"""        skip = int(np.floor(nsimu/maxpoints))
""",
"""        skip = min(int(np.floor(nsimu/maxpoints)), 20)
""")],
"""
from pymcmcstat.plotting.utilities import setup_subsample
i = setup_subsample(1, 500, 25000)
check(np.array_equal(i, np.arange(0, 25000, 50)), '%d points plotted, 500 asked for' % len(i))
""",
"a chain of more than 21 times the maximum number of points",
"far more points are drawn than asked for")

bug('S34', 'C24', [('MCMC.py',
"""                for cs in self.custom_samplers:
                    if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
""",
"""                for cs in self.custom_samplers[:1]:
                    if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
""")],
"""
from pymcmcstat.chain import ChainProcessing as CP


class S:
    def __init__(self, f):
        self.save_chain, self.f = True, f

    def setup(self):
        self.n = 1
        self.chains = [dict(file=self.f, mtx=np.zeros((20, 1)))]

    def update(self, accept, isimu, current_set):
        self.chains[0]['mtx'][isimu] = isimu


m = mk([dict(theta0=0.)], lambda q, d: 0., nsimu=20, savesize=6, save_to_txt=True, savedir='log')
m.custom_samplers = [S('one'), S('two')]
run(m)
for f in ('one', 'two'):
    got = CP.read_in_txt_file(os.path.join('log', f + '.txt'))
    check(np.array_equal(np.ravel(got), np.arange(20.)), 'log of sampler %s holds %s' % (f, np.ravel(got)))
""",
"two custom samplers that save their chains, and a piece size below the simulation length",
"the completed pieces of the second sampler's chain are not logged")

bug('S35', 'C12', [('settings/ModelParameters.py',
"""                if name == self.parameters[kk]['name']:
""",
"""                if name.lower() == self.parameters[kk]['name'].lower():
""")],
"""
m = mk([dict(name='K', theta0=5.), dict(name='k', theta0=1.)], lambda q, d: ((q - 3.) ** 2).sum(), nsimu=50, save_to_json=True,
       results_filename='r.json', savedir='out')
r = run(m)
seen = []


def ss(q, d):
    seen.append(np.array(q))
    return ((q - 3.) ** 2).sum()


m = mk([dict(name='K', theta0=5.), dict(name='k', theta0=1.)], ss, nsimu=2, json_restart_file='out/r.json')
run(m)
check(np.allclose(seen[0], r['theta']), 'restarted at %s instead of %s' % (seen[0], r['theta']))
""",
"two parameters whose names differ only in case",
"a restarted simulation starts one of them at the other's final value")
