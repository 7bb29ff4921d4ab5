"""Runner for property checks: generated cases, shrinking, replay files, evidence.

Outcomes: exit 0 (held on everything explored), exit 1 (a violation, with a
replay file), exit 2 (the machinery itself failed - never counted as either).
"""
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

from . import boot

CASE_CPU_LIMIT = 120.0     # CPU seconds one case may use before it counts as not terminating


CASE_WALL_LIMIT = 300.0    # the same in elapsed time, for cases that wait for other processes


class Violation(Exception):
    """The property does not hold for this case."""


class Unsupported(Exception):
    """Raised by a check for a case it cannot judge; counted as discarded."""


class CaseTimeout(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


@contextlib.contextmanager
def sut(what):
    """Code under test runs inside; an exception or exit on valid input is a violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(io.StringIO()):
                yield
    except (Violation, Unsupported, CaseTimeout, KeyboardInterrupt, MemoryError):
        raise
    except HarnessSignal:
        raise
    except CallbackError as exc:
        raise exc.original
    except (Exception, SystemExit) as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        loc = [f for f in tb if f.filename.startswith(boot.REPO)]
        where = '{}:{}'.format(os.path.relpath(loc[-1].filename, boot.REPO), loc[-1].lineno) if loc else '?'
        raise Violation('{}: raised {}: {} (at {})'.format(
            what, type(exc).__name__, str(exc)[:300], where)) from exc


class HarnessSignal(BaseException):
    """Exceptions a harness injects on purpose into callbacks."""


class CallbackError(BaseException):
    """Carries an exception out of a harness callback through code under test."""

    def __init__(self, original):
        super().__init__(str(original))
        self.original = original


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule, examples=(), shrink=True,
                 attempts=4):                        # attempts to reproduce a failure
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples, self.shrink, self.attempts = list(examples), shrink, attempts


class Prop:
    def __init__(self, pid, title, subs, assumptions=(), known=()):
        self.pid, self.title, self.subs = pid, title, subs
        self.assumptions, self.known = list(assumptions), list(known)


def canon(case):
    return json.dumps(case, sort_keys=True)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Run one case; returns info dict or raises Violation."""
    case = json.loads(canon(case))          # what a replay would see
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            info = sub.check(case)
    except CaseTimeout:
        raise Violation('did not finish within {} CPU or {} elapsed seconds'.format(CASE_CPU_LIMIT, CASE_WALL_LIMIT))
    except (Violation, Unsupported):
        raise
    except Exception as exc:
        # what the code under test returned could not be judged: wrong type, shape or missing entry
        tb = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation('observed outcome could not be evaluated: {}: {} ({}:{})'.format(
            type(exc).__name__, str(exc)[:300], os.path.basename(tb.filename), tb.lineno)) from exc
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            import matplotlib.pyplot as plt
            if plt.get_fignums():
                plt.close('all')
        except Exception:
            pass
    return info or {}


def derive_seed(*parts):
    return zlib.crc32('|'.join(str(p) for p in parts).encode()) & 0x7fffffff


def run_sub(sub, n, seed, budget, do_examples, shrink_budget):
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis import seed as hseed
    st = dict(name=sub.name, evaluations=0, discarded=0, nontrivial=set(), samples=[], failure=None,
              skipped=0, counters={}, wall=0.0)
    t0 = time.time()
    fail = {'best': None, 'first_at': None, 'seen': {}}

    def one(case):
        if fail['first_at'] is not None and time.time() - fail['first_at'] > shrink_budget:
            return                                       # stop shrinking
        if fail['first_at'] is None and time.time() - t0 > budget:
            st['skipped'] += 1
            return
        key = canon(case)
        st['evaluations'] += 1
        try:
            info = run_case(sub, case)
        except Unsupported:
            st['discarded'] += 1
            return
        except Violation as v:
            if fail['first_at'] is None:
                fail['first_at'] = time.time()
            fail['seen'][key] = str(v)
            if fail['best'] is None or len(key) <= len(fail['best'][0]):
                fail['best'] = (key, str(v))
            raise
        for k, v in info.items():
            if k.startswith('n_'):
                st['counters'][k] = st['counters'].get(k, 0) + int(v)
        if info.get('known'):
            st.setdefault('known', [])
            for k in info['known']:
                if k not in st['known']:
                    st['known'].append(k)
        if info.get('nt', True):
            h = zlib.crc32(key.encode()) ^ (zlib.adler32(key.encode()) << 32)
            st['nontrivial'].add(h)
            if len(st['samples']) < 2 or (len(st['samples']) < 3 and len(st['nontrivial']) > 20):
                s = key if len(key) < 1500 else key[:1500] + '...'
                st['samples'].append({'sub': sub.name, 'case': s,
                                      'observed': {k: v for k, v in info.items() if k not in ('nt',)}})

    err = None
    if do_examples:
        for ex in sub.examples:
            try:
                one(ex)
            except Violation:
                break
    if fail['best'] is None and n > 0:
        phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])

        @hseed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, phases=phases,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  print_blob=False, verbosity=Verbosity.quiet)
        @given(sub.strategy)
        def test(case):
            one(case)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except BaseException as exc:
            if fail['best'] is None:
                err = ''.join(traceback.format_exception(exc))
    if fail['best'] is not None:
        st['failure'] = {'case': json.loads(fail['best'][0]), 'message': fail['best'][1]}
        # larger failing cases, for outcomes that also depend on something beyond the case (directory order, say)
        others = [k for k in fail['seen'] if k != fail['best'][0]]
        st['others'] = [json.loads(k) for k in sorted(others, key=len)[:4] + others[:4]]
    st['error'] = err
    st['nontrivial'] = sorted(st['nontrivial'])
    st['wall'] = time.time() - t0
    return st


def reproduce(sub, case):
    for _ in range(sub.attempts):
        try:
            run_case(sub, case)
        except Violation as v:
            return str(v)
        except Unsupported:
            pass
    return None
