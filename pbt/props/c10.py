"""C10: what an interrupted simulation leaves behind."""
import os

import numpy as np

from .. import mc
from ..engine import HarnessSignal, Prop, Sub, Unsupported, require, sut
from .c09 import compare, exact


class Crash(HarnessSignal):
    pass


class Fault(RuntimeError):
    pass


FAULTS = {'RuntimeError': Fault, 'TypeError': TypeError, 'ValueError': ValueError, 'LinAlgError': np.linalg.LinAlgError,
          'FloatingPointError': FloatingPointError, 'KeyError': KeyError, 'StopIteration': StopIteration, 'SystemExit': SystemExit}


class Count:
    """raises at the k-th event of a kind"""

    def __init__(self, k, action):
        self.k, self.n, self.action = k, 0, action

    def __call__(self, *a):
        self.n += 1
        if self.n == self.k:
            self.action()


class Stepper(mc.Observer):
    def __init__(self, rec, fault=None):
        super().__init__(rec)
        self.fault = fault

    def update(self, accept, isimu, current_set):
        if self.fault is not None:
            self.fault()
        return super().update(accept, isimu, current_set)


def simulate(cfg, sd, c, fault_kind=None, action=None):
    rec = mc.Rec()
    k = Count(c['k'], action) if action else None
    over = dict(save_to_bin=c['bin'], save_to_txt=c['txt'], savesize=c['savesize'], savedir=sd, save_to_json=c['json'],
                results_filename='res.json')
    m, rec = mc.build(cfg, rec=rec, observe=False, fault=k if fault_kind == 'sos' else None, **over)
    m.custom_samplers.append(Stepper(rec, k if fault_kind == 'step' else None))
    return m, rec


def check(c):
    from pymcmcstat.chain import ChainProcessing as CP
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with mc.tmpdir() as d:
        good, bad = os.path.join(d, 'good'), os.path.join(d, 'bad')
        with sut('run_simulation'):
            m, rec0 = simulate(cfg, good, c)
            m.run_simulation()
        res = m.simulation_results.results
        want = {k: np.array(res[k]) for k in ('chain', 'sschain') + (('s2chain',) if res.get('s2chain') is not None else ())}
        how = c['how']

        def action():
            if how == 'exception':
                raise FAULTS[c['kind']]('injected')
            if how == 'interrupt':
                raise KeyboardInterrupt()
            os._exit(17)
        # number of steps completed before the interruption, from the uninterrupted run
        nss, done, hit = 0, 0, False
        for e in rec0.ev:
            if e[0] == 'ss':
                nss += 1
                if c['at'] == 'sos' and nss == c['k']:
                    hit = True
                    break
            elif e[0] == 'step':
                if c['at'] == 'step' and e[1] == c['k']:
                    hit = True
                    break
                done += 1
        if not hit:
            raise Unsupported()
        if how == 'kill':
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    m, _ = simulate(cfg, bad, c, c['at'], action)
                    m.run_simulation()
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            _, status = os.waitpid(pid, 0)
            require(os.waitstatus_to_exitcode(status) == 17, 'the interrupted run did not reach the point of interruption (exit {})',
                    os.waitstatus_to_exitcode(status))
        else:
            raised = None
            with sut('interrupted run_simulation'):
                m, rec = simulate(cfg, bad, c, c['at'], action)
                try:
                    m.run_simulation()
                except (Exception, KeyboardInterrupt, SystemExit) as exc:
                    raised = exc
            require(type(raised) is KeyboardInterrupt if how == 'interrupt' else
                    type(raised) is FAULTS[c['kind']] and 'injected' in str(raised), 'the interruption did not reach the '
                    'caller: {!r}', raised)
        s = c['savesize'] if 0 < c['savesize'] <= cfg['nsimu'] else cfg['nsimu']
        rows = (done // s) * s
        exp = {k: v[:rows] for k, v in want.items()}
        for e, on in (('h5', c['bin']), ('txt', c['txt'])):
            if not on:
                continue
            if rows == 0:
                if os.path.isdir(bad):
                    left = [f for f in os.listdir(bad) if f.endswith('.' + e) and 'log' not in f]
                    require(not left, 'nothing was complete, but {} exist', left)
                continue
            with sut('reading logs'):
                got = CP.read_in_savedir_files(bad, extension=e)
            compare(exp, got, '{} logs after {} at {} {} ({} steps complete)'.format(e, how, c['at'], c['k'], done))
            npar = want['chain'].shape[1]
            cov = np.asarray(got['covchain'])
            require(cov.shape == ((done // s) * npar, npar), 'covariance log has shape {}', cov.shape)
        require(not os.path.exists(os.path.join(bad, 'res.json')), 'a results file was written for an interrupted simulation')
        # the same directory holds a usable simulation: loading without a results file
        if rows and c['bin']:
            with sut('loading'):
                lo = CP.load_serial_simulation_results(bad, extension='h5')
            compare(exp, lo, 'loaded after interruption')
    return {'nt': rows > 0 and len(np.unique(want['chain'][:rows], axis=0)) > 1, 'n_rows_recovered': rows, 'n_rows_lost': done + 1 - rows}


@mc.st.composite
def strat(draw):
    cfg = draw(mc.config(nsimu=(4, 50), holes=False))
    n = cfg['nsimu']
    at = draw(mc.st.sampled_from(['sos', 'step']))
    b, t = draw(mc.st.sampled_from([(True, False), (False, True), (True, True)]))
    return {'cfg': cfg, 'bin': b, 'txt': t, 'json': draw(mc.st.booleans()), 'at': at,
            'k': n - 1 - draw(mc.st.integers(0, n - 2)), 'savesize': draw(mc.st.sampled_from([1, 1, 2, 3, 3, 4, 5, 7, 10, 12, 0, n])),
            'how': draw(mc.st.sampled_from(['exception', 'exception', 'interrupt', 'kill'])),
            'kind': draw(mc.st.sampled_from(sorted(FAULTS)))}


def check_all(c):
    """every interruption point of one configuration"""
    n = c['cfg']['nsimu']
    tot = nt = 0
    for at in ('step', 'sos'):
        for k in range(1, n):
            try:
                i = check(dict(c, at=at, k=k))
            except Unsupported:
                continue
            tot += 1
            nt += bool(i['nt'])
    if not tot:
        raise Unsupported()
    return {'nt': nt > 0, 'n_points': tot, 'n_points_with_rows': nt}


@mc.st.composite
def strat_all(draw):
    c = draw(strat())
    c['cfg']['nsimu'] = draw(mc.st.integers(4, 14))
    c['savesize'] = draw(mc.st.integers(1, 5))
    c['how'] = 'exception'
    return c


PROP = Prop('C10', 'Interrupted simulations', [
    Sub('interrupt', strat(), check, 1200, 20000, 'an exception, keyboard interrupt or process exit at a drawn call of the '
        'sum-of-squares function or step; non-trivial: at least one piece was complete and the saved rows move'),
    Sub('every_point', strat_all(), check_all, 40, 1500, 'all interruption points (each call, each step) of a drawn configuration; '
        'non-trivial: some point leaves rows behind'),
], assumptions=['writing to the files itself does not fail', 'the operating system survives (process, not power, failures)'])
