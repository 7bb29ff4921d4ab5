"""Planted bugs, third round."""

bug('S36', 'C25', [('samplers/DelayedRejection.py',
"""            self.iacce[itry - 1] += accept  # if accepted, adds 1, if not, adds 0
""",
"""            self.iacce[min(itry, 3) - 1] += accept  # if accepted, adds 1, if not, adds 0
""")],
"""
calls = [0]


class S:
    def setup(self):
        self.stage = np.zeros(4)
        self.stage[0] = 1
        self.seen = calls[0]

    def update(self, accept, isimu, current_set):
        if accept:
            self.stage[calls[0] - self.seen - 1] += 1
        self.seen = calls[0]


def ss(q, d):
    calls[0] += 1
    return float((q ** 2).sum())


m = mk([dict(theta0=.5)], ss, nsimu=400, method='dr', ntry=4, qcov=np.array([1e6]), drscale=np.array([5., 5., 5.]))
s = S()
m.custom_samplers = [s]
r = run(m)
check(s.stage[3] > 0, 'no acceptance in the last stage')
check(np.allclose(r['iacce'], s.stage), 'acceptances per stage %s instead of %s' % (r['iacce'], s.stage))
""",
"more than three tries",
"acceptances of the fourth and later tries are counted as those of the third")

bug('S37', 'C20', [('propagation.py',
"""        opred = (np.sqrt(y) + np.random.standard_normal(y.shape) * np.sqrt(s2))**2
""",
"""        opred = np.maximum(np.sqrt(y) + np.random.standard_normal(y.shape) * np.sqrt(s2), 0)**2
""")],
"""
from pymcmcstat import propagation as up
np.random.seed(3)
out = up.calculate_intervals(np.ones((200, 1)), {'parind': [0], 'theta': np.ones(1), 'local': [0]}, None, lambda q, d: np.full(20, 1e-4),
                             s2chain=1., sstype=1, nsample=200, waitbar=False)
pr = np.asarray(out['prediction'])
check((pr == 0).mean() < .01, 'a share of %s of the predictions is zero' % (pr == 0).mean())
check(abs(pr.mean() - 1.) < .15, 'predictions of mean %s instead of 1' % pr.mean())
""",
"errors on the square root scale that are as large as the response",
"half of the predictions are cut off at zero")

bug('S38', 'C15', [('settings/DataStructure.py',
"""            if len(dshapes[ii]) != 1:
""",
"""            if len(dshapes[ii]) != 1 and (ii < 4 or dshapes[ii] != dshapes[ii - 1]):
""")],
"""
from pymcmcstat.settings.DataStructure import DataStructure
d = DataStructure()
for k in range(6):
    d.add_data_set(np.arange(3.), np.arange(3.) + k)
    check(d.get_number_of_data_sets() == k + 1, '%s data sets added, %s counted' % (k + 1, d.get_number_of_data_sets()))
""",
"five or more data sets of the same shape",
"data sets after the fourth are not counted")

bug('S39', 'C25', [('settings/SimulationOptions.py',
"""            self.printint = max(100, min(1000, self.adaptint))
""",
"""            self.printint = max(100, min(500, self.adaptint))
""")],
"""
import io
from contextlib import redirect_stdout
m = mk([dict(theta0=.5)], lambda q, d: float((q ** 2).sum()), nsimu=1500, method='am', adaptint=700, verbosity=2)
buf = io.StringIO()
with redirect_stdout(buf):
    m.run_simulation()
got = [int(ln[2:].split(' ')[0]) for ln in buf.getvalue().splitlines() if ln.startswith('i:')]
check(got == [700, 1400], 'progress printed at %s' % got)
""",
"an adaptation interval above 500 and no print interval",
"progress is printed in the middle of adaptation intervals")
