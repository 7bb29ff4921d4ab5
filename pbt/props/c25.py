"""C25: what is reported and printed describes the simulation that ran."""
import contextlib
import io
import math
import re
import time

import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)


def full_mu(cfg):
    return np.array([p['theta0'] if ('mu' in p and math.isnan(p['mu'])) else p.get('mu', 0.0) for p in cfg['par']], float)


def judge(cfg, res, rec, wall, names):
    sidx = mc.sampled(cfg)
    d, n = len(sidx), cfg['nsimu']
    chain = np.asarray(res['chain'], float)
    require(list(res['names']) == [names[i] for i in sidx], 'names {} instead of {}', res['names'], [names[i] for i in sidx])
    require(list(res['allnames']) == names, 'allnames {}', res['allnames'])
    require(same(res['parind'], sidx), 'indices of sampled parameters {} instead of {}', np.asarray(res['parind']).tolist(), sidx)
    require(same(res['limits'][0], [cfg['par'][i]['min'] for i in sidx]) and same(res['limits'][1], [cfg['par'][i]['max'] for i in sidx]),
            'limits {}', [np.asarray(v).tolist() for v in res['limits']])
    require(res['nsimu'] == n, 'nsimu {} instead of {}', res['nsimu'], n)
    require(0 <= res['simutime'] <= wall + 0.5, 'running time {} reported for a simulation of {:.3f} s', res['simutime'], wall)
    span = rec.t[-1] - rec.t[0] if rec.t else 0.0
    require(res['simutime'] >= 0.9 * span - 2e-3, 'running time {} reported for steps over {:.4f} s', res['simutime'], span)
    th = np.array([p['theta0'] for p in cfg['par']], float)
    th[sidx] = chain[-1]
    require(same(res['theta'], th), 'theta {} instead of {}', np.asarray(res['theta']).tolist(), th.tolist())
    require(same(res['qcov_scale'], ref.eff_scale(cfg, d)), 'qcov_scale {} instead of {}', res['qcov_scale'], ref.eff_scale(cfg, d))
    q0 = ref.initial_qcov(cfg)
    oc = np.asarray(res['original_covariance'], float)
    oc = np.diag(oc.ravel()) if 1 in oc.shape else oc
    require(same(oc, q0), 'original covariance {} instead of {}', oc.tolist(), q0.tolist())
    qf = q0.copy()
    qf[np.ix_(sidx, sidx)] = res['qcov']
    require(same(res['qcovorig'], qf), 'covariance of all parameters {} instead of {}', np.asarray(res['qcovorig']).tolist(), qf.tolist())
    # acceptance
    steps = mc.steps(rec)[1]
    nrej = sum(not s[1] for s in steps)
    require(same(res['total_rejected'], nrej / n), 'rejection fraction {} instead of {}/{}', res['total_rejected'], nrej, n)
    nt = ref.eff_ntry(cfg)
    stages = 0
    if nt > 1:
        ia = np.asarray(res['iacce'], float)
        require(ia.shape == (nt,), 'acceptances reported for {} stages with {} tries', ia.shape, nt)
        require(ia.sum() + nrej == n and (ia >= 0).all(), 'acceptances per stage {} with {} of {} rejected', ia.tolist(), nrej, n)
        if all(np.isinf([cfg['par'][i]['min'], cfg['par'][i]['max']]).all() for i in sidx):
            want = np.zeros(nt)
            want[0] = 1                                   # the start
            for s in steps:
                if s[1]:
                    want[len(s[5]) - 1] += 1
            require(same(ia, want), 'acceptances per stage {} instead of {}', ia.tolist(), want.tolist())
            stages = 1
        require(same(res['drscale'], ref.eff_drscale(cfg)), 'drscale {}', np.asarray(res['drscale']).tolist())
        R = np.asarray(res['R'], float)
        require(len(res['RDR']) == nt, '{} proposals for {} tries', len(res['RDR']), nt)
        for k, (a, b) in enumerate(zip(res['RDR'], ref.dr_factors(cfg, R, nt))):
            if cfg['opt'].get('RDR') is None:
                require(same(a, b, 1e-8), 'proposal factor of try {} is {} instead of {}', k + 1, np.asarray(a).tolist(), b.tolist())
    # settings
    so = res['simulation_options']
    for k, v in cfg['opt'].items():
        if k in ('qcov', 'updatesigma', 'lastadapt', 'adaptint') or k not in so:
            continue
        w = so[k]
        require(same(w, v) if isinstance(v, (list, int, float)) and not isinstance(v, bool) else w == v,
                'option {} reported as {} instead of {}', k, w, v)
    la = cfg['opt'].get('lastadapt', 0)
    for k, v in (('nsimu', n), ('method', cfg['method']), ('ntry', nt), ('adaptint', ref.eff_adaptint(cfg)),
                 ('updatesigma', ref.eff_updatesigma(cfg)), ('lastadapt', la if la >= 1 else n), ('savesize', n)):
        require(so[k] == v, 'option {} reported as {} instead of {}', k, so[k], v)
    ms = res['model_settings']
    N0, S20, N = ref.eff_N0_S20_N(cfg)
    ns = len(cfg['tgt']['b'])
    require(ms['nsos'] == ns, 'nsos {} instead of {}', ms['nsos'], ns)
    require(ms['nbatch'] == len(cfg['ndata']), 'nbatch {} for {} data sets', ms['nbatch'], len(cfg['ndata']))
    for k, v in (('N0', N0), ('S20', S20), ('N', N)):
        require(same(ms[k], v), '{} reported as {} instead of {}', k, np.asarray(ms[k]).tolist(), v.tolist())
    require(same(ms['sigma2'], ref.eff_sigma2_0(cfg)), 'sigma2 reported as {}', np.asarray(ms['sigma2']).tolist())
    pr = res['prior']
    require(same(pr['mu'], full_mu(cfg)), 'prior means {} instead of {}', np.asarray(pr['mu']).tolist(), full_mu(cfg).tolist())
    require(same(pr['sigma'], ref.prior_sigma(cfg)), 'prior deviations {}', np.asarray(pr['sigma']).tolist())
    return nrej, stages


def near(txt, v):
    x = float(txt)
    if math.isinf(v) or math.isinf(x):
        return x == v
    return abs(x - v) <= (0.0051 if 0.99e-2 < abs(v) < 1.01e4 else 0) + (0.0051 * abs(v) if abs(v) >= 0.99e4 or abs(v) <= 1.01e-2 else 0)


TABLE = re.compile(r'^\s*(\S+):\s+(\S+) \[\s*(\S+),\s*(\S+)\] N\(\s*([^,]+),\s*([^)^]+?)(\^2)?\)( \(\*\))?\s*$')
PROGRESS = re.compile(r'^i:(\d+) \(([^,()]+),([^,()]+),([^,()]+)\)\s*$')


SETTING = re.compile(r'^\t(\w+) = ', re.M)


def listed(out):
    """{section: {setting: text}} of the settings printed before the first step"""
    names = ('model settings', 'simulation options', 'covariance')
    res, cur = {}, None
    parts = re.split(r'^({}):\n'.format('|'.join(names)), out, flags=re.M)
    for name, body in zip(parts[1::2], parts[2::2]):
        require(name not in res, '{} listed twice', name)
        body = re.match(r'(?:(?:\t\w+ = | *\[|[ \d.]).*\n|\n)*', body).group(0)
        bits = SETTING.split(body)
        res[name] = dict(zip(bits[1::2], bits[2::2]))
    return res


def numbers(txt):
    return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)|nan', txt)]


def judge_settings(cfg, out, verbosity):
    sec = listed(out)
    if verbosity < 2:
        require(not sec, 'settings {} listed with verbosity {}', sorted(sec), verbosity)
        return 0
    n = cfg['nsimu']
    N0, S20, N = ref.eff_N0_S20_N(cfg)
    la = cfg['opt'].get('lastadapt', 0)
    want = {'model settings': {'sigma2': ref.eff_sigma2_0(cfg), 'N': N, 'N0': N0, 'S20': S20, 'nsos': len(cfg['tgt']['b']),
                               'nbatch': len(cfg['ndata'])},
            'simulation options': {'nsimu': n, 'adaptint': ref.eff_adaptint(cfg), 'ntry': ref.eff_ntry(cfg), 'method': cfg['method'],
                                   'lastadapt': la if la >= 1 else n},
            'covariance': {'last_index_since_adaptation': 0}}
    shown = 0
    for name, w in want.items():
        require(name in sec, '{} not listed with verbosity {}', name, verbosity)
        for k, v in w.items():
            if k not in sec[name]:
                continue
            txt = sec[name][k].strip()
            shown += 1
            if isinstance(v, str):
                require(txt == v, 'setting {} listed as {} instead of {}', k, txt, v)
                continue
            got, v = numbers(txt), np.atleast_1d(np.asarray(v, float))
            require(len(got) == len(v) and np.allclose(got, v, rtol=1e-6, atol=1e-8 * (1 + np.abs(v).max())), 'setting {} listed as {} '
                    'instead of {}', k, txt, v.tolist())
    sidx = mc.sampled(cfg)
    if 'R' in sec['covariance'] and len(sidx) <= 6:
        R = numbers(sec['covariance']['R'])
        require(len(R) == len(sidx) ** 2, 'proposal factor listed as {}', sec['covariance']['R'])
        R = np.array(R).reshape(len(sidx), -1)
        q = ref.initial_qcov(cfg)[np.ix_(sidx, sidx)]
        big = np.abs(R).max()
        require(np.allclose(R.T @ R, q, rtol=1e-5, atol=1e-7 * (big + big * big)), 'proposal factor listed as {} for the covariance {}', R.tolist(),
                q.tolist())
        shown += 1
    return shown


def judge_output(cfg, out, rec, names, verbosity, printint):
    rows = [TABLE.match(line) for line in out.splitlines()]
    rows = [r.groups() for r in rows if r]
    sidx = mc.sampled(cfg)
    require(len(rows) == (len(sidx) if verbosity > 0 else 0), '{} parameters listed for {} sampled ones', len(rows), len(sidx))
    mu, sg = full_mu(cfg), ref.prior_sigma(cfg)
    if verbosity > 0:
        for i, r in zip(sidx, rows):
            p = cfg['par'][i]
            require(r[0] == names[i], 'parameter {} listed as {}', names[i], r[0])
            for what, txt, v in (('start', r[1], p['theta0']), ('minimum', r[2], p['min']), ('maximum', r[3], p['max']),
                                 ('prior mean', r[4], mu[i]), ('prior deviation', r[5], sg[i])):
                require(near(txt, v), 'parameter {}: {} listed as {} instead of {}', names[i], what, txt, v)
            require((r[6] is not None) == (not math.isinf(sg[i])), 'parameter {}: prior spread {} {}', names[i], r[5],
                    'not marked as a standard deviation to square' if r[6] is None else 'marked as squared')
            require((r[7] is not None) == (not p['adapt']), 'parameter {}: {} as excluded from adaptation', names[i],
                    'marked' if r[7] else 'not marked')
    # progress
    prog = [PROGRESS.match(line) for line in out.splitlines()]
    prog = [p.groups() for p in prog if p]
    n = cfg['nsimu']
    ai = ref.eff_adaptint(cfg)
    pi = printint if printint is not None else max(100, min(1000, ai))
    want = [i for i in range(1, n) if pi and i % pi == 0] if verbosity >= 2 else []
    require([int(p[0]) for p in prog] == want, 'progress printed at {} instead of {}', [p[0] for p in prog], want)
    steps = mc.steps(rec)[1]
    la = cfg['opt'].get('lastadapt', 0)
    la = la if la >= 1 else n
    for p in prog:
        i = int(p[0])
        rej = sum(not s[1] for s in steps[:i])
        require(abs(float(p[1]) - 100.0 * rej / i) < 1e-6, 'progress at {}: {} per cent rejected instead of {}', i, p[1], 100.0 * rej / i)
        if ai and i <= la:
            j = (i - 1) // ai * ai                  # the current interval
            r2 = sum(not s[1] for s in steps[j:i])
            require(abs(float(p[2]) - 100.0 * r2 / (i - j)) < 1e-6, 'progress at {}: {} per cent rejected in the interval instead of {}',
                    i, p[2], 100.0 * r2 / (i - j))
        out_ = sum((not s[1]) and len(s[5]) == 0 for s in steps[:i])
        require(float(p[3]) <= float(p[1]) + 1e-9, 'more rejected for the limits than rejected')
        if ref.eff_ntry(cfg) == 1:
            require(abs(float(p[3]) - 100.0 * out_ / i) < 1e-6, 'progress at {}: {} per cent outside limits instead of {}', i, p[3],
                    100.0 * out_ / i)
    return len(rows), len(prog), judge_settings(cfg, out, verbosity)


def check(c):
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    names = mc.names_for(cfg)
    buf = io.StringIO()
    t0 = time.time()
    with sut('run_simulation'), contextlib.redirect_stdout(buf):
        m, rec = mc.build(cfg, verbosity=c['verbosity'], **({} if c['printint'] is None else {'printint': c['printint']}))
        m.run_simulation()
    res = m.simulation_results.results
    nrej, stages = judge(cfg, res, rec, time.time() - t0, names)
    rows, prog, sett = judge_output(cfg, buf.getvalue(), rec, names, c['verbosity'], c['printint'])
    cur = cfg
    for n2 in c['more']:                                   # again, continued: the reports are those of the latest run
        prev = np.asarray(res['chain'], float)[-1]
        nxt = dict(cur, nsimu=n2, par=[dict(p) for p in cur['par']], model=dict(cur['model']))
        for i, v in zip(mc.sampled(cur), prev):
            p = nxt['par'][i]
            if 'mu' in p and math.isnan(p['mu']):
                p['mu'] = p['theta0']
            p['theta0'] = float(v)
        rec.ev.clear()
        buf = io.StringIO()
        t0 = time.time()
        with sut('continued run_simulation'), contextlib.redirect_stdout(buf):
            m.simulation_options.define_simulation_options(**mc.user_opts(
                nxt, verbosity=c['verbosity'], **({} if c['printint'] is None else {'printint': c['printint']})))
            m.run_simulation(use_previous_results=True)
        res = m.simulation_results.results
        judge(nxt, res, rec, time.time() - t0, names)
        judge_output(nxt, buf.getvalue(), rec, names, c['verbosity'], c['printint'])
        cur = nxt
    return {'nt': nrej > 0 and nrej < cfg['nsimu'] - 1, 'n_stage_counts': stages, 'n_table_rows': rows, 'n_progress_lines': prog, 'n_settings': sett}


def check_defaults(c):
    """defaults documented for parameters and options"""
    from pymcmcstat.MCMC import MCMC
    m = MCMC(rngseed=1)
    m.data.add_data_set(np.arange(3.0), np.arange(3.0))
    with sut('definition with defaults'):
        m.simulation_options.define_simulation_options(method=c['method'], verbosity=0, waitbar=False, nsimu=5)
        for k, given in enumerate(c['given']):
            kw = {}
            if given['name']:
                kw['name'] = 'x{}'.format(k)
            if given['theta0']:
                kw['theta0'] = 2.5 + k
            m.parameters.add_model_parameter(**kw)
        m.model_settings.define_model_settings(sos_function=lambda q, d: float((np.asarray(q) ** 2).sum()) + 1.0)
        m.run_simulation()
    r = m.simulation_results.results
    for k, given in enumerate(c['given']):
        name = 'x{}'.format(k) if given['name'] else '$p_{{{}}}$'.format(k)
        require(r['names'][k] == name, 'parameter {} is named {} instead of {}', k, r['names'][k], name)
        v = 2.5 + k if given['theta0'] else 1.0
        require(r['chain'][0][k] == v, 'parameter {} starts at {} instead of {}', k, r['chain'][0][k], v)
        require(r['limits'][0][k] == -np.inf and r['limits'][1][k] == np.inf, 'default limits {}', r['limits'])
        require(r['prior']['mu'][k] == 0 and np.isinf(r['prior']['sigma'][k]), 'default prior {}', r['prior'])
    so = r['simulation_options']
    require(so['adaptint'] == {'mh': 0, 'am': 100, 'dr': 0, 'dram': 100, 'ram': 1}[c['method']], 'default adaptation interval {}', so['adaptint'])
    require(so['ntry'] == {'mh': 1, 'am': 1, 'dr': 2, 'dram': 2, 'ram': 1}[c['method']], 'default number of tries {}', so['ntry'])
    require(so['updatesigma'] is False or so['updatesigma'] == 0, 'error variance is updated by default')
    require(so['burnintime'] == 0 and so['burnin_scale'] == 10 and so['qcov_adjust'] == 1e-8, 'defaults of the adaptation {}', so)
    require(not so['save_to_bin'] and not so['save_to_txt'] and not so['save_to_json'], 'saving is on by default')
    if so['ntry'] > 1:
        require(same(r['drscale'], [5, 4, 3]), 'default drscale {}', r['drscale'])
    ms = r['model_settings']
    require(same(ms['sigma2'], [1.0]) and same(ms['N'], [3.0]), 'default sigma2 {} and N {}', ms['sigma2'], ms['N'])
    m2 = MCMC(rngseed=1)
    with sut('define_simulation_options()'):
        m2.simulation_options.define_simulation_options()
    o = m2.simulation_options
    require(o.nsimu == 10000 and o.method == 'dram' and o.waitbar and o.verbosity == 1, 'default options nsimu {} method {}', o.nsimu,
            o.method)
    return {'nt': True}


BAR = re.compile(r'\[([^\]]*)\]\s*(\d+) of (\d+) complete')


def check_bar(c):
    """the progress bar of a simulation and of interval propagation, under a clock that advances by c['tick'] per reading"""
    n = c['n']
    now = [1.0e9]

    def clock():
        now[0] += c['tick']
        return now[0]
    buf = io.StringIO()
    real = time.time
    with sut('progress bar'), contextlib.redirect_stdout(buf):
        time.time = clock
        try:
            if c['what'] == 'run':
                from pymcmcstat.MCMC import MCMC
                m = MCMC(rngseed=3)
                m.data.add_data_set(np.arange(3.0), np.arange(3.0))
                m.simulation_options.define_simulation_options(method='mh', verbosity=0, waitbar=True, nsimu=n)
                m.parameters.add_model_parameter(name='a', theta0=1.0)
                m.model_settings.define_model_settings(sos_function=lambda q, d: float((np.asarray(q) ** 2).sum()) + 1.0)
                m.run_simulation()
            elif c['what'] == 'propagate':
                from pymcmcstat import propagation as up
                up.calculate_intervals(np.arange(float(n)).reshape(n, 1), {'parind': [0], 'theta': np.zeros(1), 'local': [0]}, None,
                                       lambda q, d: np.asarray(q)[0] * np.ones(2), waitbar=True, nsample=n)
            else:
                from pymcmcstat.utilities.progressbar import progress_bar
                bar = progress_bar(iters=n)
                for i in range(n):
                    bar.update(i)
        finally:
            time.time = real
    seen = [(b, int(i), int(t)) for b, i, t in BAR.findall(buf.getvalue())]
    last = 0
    for b, i, t in seen:
        require(t == n, 'progress out of {} instead of {}', t, n)
        require(last <= i <= n, 'progress {} of {} shown after {}', i, n, last)
        pc = re.search(r'(\d+)%', b)
        require(pc is not None and abs(int(pc.group(1)) - 100.0 * i / n) <= 1, 'bar {!r} at {} of {}', b, i, n)
        full_ = b.rstrip(' ').replace(pc.group(0), '-' * len(pc.group(0)))
        require(i < n or (set(full_) <= {'-'} and len(full_) == len(b)), 'bar {!r} at the end', b)
        last = i
    if n > 1:
        require(seen and last == n, 'the last progress shown is {} of {}', last, n)
    return {'nt': len(seen) > 1, 'n_shown': len(seen)}


@mc.st.composite
def strat_bar(draw):
    return {'n': draw(mc.st.integers(1, 60)), 'tick': draw(mc.st.sampled_from([0.0, 0.01, 0.1, 0.26, 0.6, 2.0])),
            'what': draw(mc.st.sampled_from(['run', 'propagate', 'bar']))}


@mc.st.composite
def strat(draw, **kw):
    a = dict(nsimu=(1, 60), methods=mc.ALL)
    a.update(kw)
    cfg = draw(mc.config(**a))
    if draw(mc.st.booleans()):
        for i, p in enumerate(cfg['par']):
            p['name'] = ['alpha', '$k_1$', 'q', 'averylongparametername'][i % 4] + 'xyzuvabcdefgh'[i]
    if draw(mc.st.sampled_from([False] * 6 + [True])):
        for p in cfg['par']:
            if p.get('sigma', 0) > 0:
                p['sigma'] = draw(mc.st.sampled_from([0.002, 9999.0, 10000.0, 2.5e4, 1e6]))
    return {'cfg': cfg, 'verbosity': draw(mc.st.sampled_from([0, 1, 1, 2, 2, 5])), 'printint': draw(mc.st.sampled_from([None, 0, 1, 7, 10])),
            'more': draw(mc.st.lists(mc.st.integers(1, 30), max_size=2)) if draw(mc.st.booleans()) else []}


@mc.st.composite
def strat_defaults(draw):
    return {'method': draw(mc.st.sampled_from(['mh', 'am', 'dr', 'dram', 'ram'])),
            'given': [{'name': draw(mc.st.booleans()), 'theta0': draw(mc.st.booleans())} for _ in range(draw(mc.st.integers(1, 4)))]}


PROP = Prop('C25', 'Reports', [
    Sub('report', strat(), check, 700, 14000,
        'every entry of the results and every table row, setting and progress line printed, against the setup and the recorded history; '
        'non-trivial: some but not all steps rejected'),
    Sub('report_long', strat(nsimu=(210, 420), npar=(1, 3)), check, 60, 1500, 'as above over several intervals', shrink=False),
    Sub('report_far', strat(nsimu=(700, 1500), npar=(1, 2), adaptints=(600, 700, 1200), holes=False), check, 6, 150, 'as above over adaptation '
        'intervals above 500', shrink=False),
    Sub('bar', strat_bar(), check_bar, 150, 3000, 'progress bars of 1-60 steps under clocks of different speed; non-trivial: shown more '
        'than once'),
    Sub('defaults', strat_defaults(), check_defaults, 60, 400, 'documented defaults'),
])
