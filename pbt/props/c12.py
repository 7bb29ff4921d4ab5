"""C12: results files and restarting from them."""
import json
import math
import os

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut
from .c09 import exact

CHAINS = ('chain', 'sschain', 's2chain')


def plain(x):
    """what a JSON file can hold of a result"""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return x


def differs(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '{}: keys {}'.format(path, sorted(set(a) ^ set(b)))
        for k in a:
            d = differs(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '{}: {} and {} entries'.format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, '{}[{}]'.format(path, i))
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        return '{}: {!r} and {!r}'.format(path, a, b)
    return None if type(a) is type(b) and a == b else '{}: {!r} and {!r}'.format(path, a, b)


def check_file(c):
    from pymcmcstat.chain import ChainProcessing as CP
    from pymcmcstat.structures.ResultsStructure import ResultsStructure
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with mc.tmpdir() as d:
        sd = os.path.join(d, c['dir'])
        over = dict(save_to_json=True, save_to_bin=c['bin'], save_to_txt=c['txt'], savesize=c['savesize'], savedir=sd,
                    results_filename=c['name'], save_lightly=c['lightly'])
        if c['np']:                                             # settings computed with numpy
            for k, v in dict(mc.user_opts(cfg), **over).items():
                if type(v) in (int, float):
                    over[k] = np.int64(v) if type(v) is int else np.float32(v)
        m, _, res = mc.run(cfg, observe=False, **over)
        for i in range(c['again']):
            with sut('continued run'):
                m.run_simulation(use_previous_results=True)
            res = m.simulation_results.results
        want = plain(res)
        files = [f for f in os.listdir(sd) if f.endswith('.json')]
        require(len(files) == 1, 'results files: {}', files)
        require(c['name'] is None or files[0] == c['name'], 'results saved as {} instead of {}', files[0], c['name'])
        path = os.path.join(sd, files[0])
        light = c['bin'] or c['txt']
        exp = {k: v for k, v in want.items() if not (light and k in CHAINS)}
        for what, f in (('json', lambda: json.load(open(path))), ('load_json_object', lambda: CP.load_json_object(path)),
                        ('results structure', lambda: ResultsStructure().load_json_object(path))):
            with sut('reading the results file'):
                got = f()
            dd = differs(exp, got)
            require(dd is None, 'results file read with {} differs from the results at {}', what, dd)
        ext = 'h5' if c['bin'] else 'txt'
        with sut('load_serial_simulation_results'):
            lo = CP.load_serial_simulation_results(sd, json_file=files[0] if c['pass_name'] else None, extension=ext)
        for k in ('chain', 'sschain') + (('s2chain',) if res.get('s2chain') is not None else ()):
            require(isinstance(lo[k], np.ndarray) and exact(res[k], lo[k]), 'loaded {} differs: shape {} instead of {}', k,
                    np.shape(lo[k]), np.shape(res[k]))
        lop = plain({k: v for k, v in lo.items() if k not in CHAINS + ('covchain',)})
        dd = differs({k: v for k, v in want.items() if k not in CHAINS}, lop)
        require(dd is None, 'loaded results differ at {}', dd)
        # writing results by hand, in both forms
        for how, drop in (('full', ()), ('light', CHAINS)):
            sd2 = os.path.join(d, how)
            r2 = dict(res, simulation_options=dict(res['simulation_options'], savedir=sd2, results_filename='x.json'))
            with sut('exporting results'):
                if how == 'full':
                    m.simulation_results.export_simulation_results_to_json_file(r2)
                else:
                    m.simulation_results.export_lightly(r2)
                with open(os.path.join(sd2, 'x.json')) as f:
                    got = json.load(f)
            dd = differs({k: v for k, v in plain(r2).items() if k not in drop}, got)
            require(dd is None, 'exported ({}) results differ at {}', how, dd)
            require('chain' in r2 and 'sschain' in r2, 'exporting removed chains from the results')
    return {'nt': len(np.unique(res['chain'], axis=0)) > 1, 'n_rows': len(res['chain'])}


def usable(q):
    """a proposal covariance that is far enough from singular to be factorised again"""
    try:
        np.linalg.cholesky(q)
    except np.linalg.LinAlgError:
        return False
    return bool(np.linalg.cond(q) < 1e12)


def check_restart(c):
    cfg, cfg2 = c['cfg'], c['next']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with mc.tmpdir() as d:
        sd = os.path.join(d, 'one')
        over = dict(save_to_json=True, save_to_bin=c['bin'], savedir=sd, results_filename='r.json')
        m, _, res = mc.run(cfg, observe=False, **over)
        last = np.array(res['chain'])[-1]
        s1, s2 = mc.sampled(cfg), mc.sampled(cfg2)
        start = np.array([p['theta0'] for p in cfg2['par']], dtype=float)
        n1, n2 = mc.names_for(cfg), mc.names_for(cfg2)
        for j, i in enumerate(s1):
            k = n2.index(n1[i])
            if k in s2:
                start[k] = last[j]
        lo = np.array([p['min'] for p in cfg2['par']])
        hi = np.array([p['max'] for p in cfg2['par']])
        if not ((start >= lo) & (start <= hi))[s2].all() or not np.isfinite(mc.make_ss(cfg2['tgt'])(start)).all():
            raise Unsupported()
        if not usable(res['qcovorig']) or not usable(res['qcov']):
            raise Unsupported()
        path = os.path.join(sd, 'r.json')
        before = open(path).read()
        with sut('restart from results file'):
            m2, rec = mc.build(cfg2, json_restart_file=path)
            m2.run_simulation()
        res2 = m2.simulation_results.results
        chain = np.array(res2['chain'])
        require(chain.shape == (cfg2['nsimu'], len(s2)), 'restarted chain has shape {}', chain.shape)
        require(exact(chain[0], start[s2]), 'restarted at {} instead of {}', chain[0].tolist(), start[s2].tolist())
        lead, _, _ = mc.steps(rec)
        require(exact(lead[-1][0], start), 'restarted with parameters {} instead of {}', lead[-1][0].tolist(), start.tolist())
        mu = np.array([p['theta0'] if math.isnan(p.get('mu', 0.0)) else p.get('mu', 0.0) for p in cfg2['par']], dtype=float)
        got = np.asarray(res2['prior']['mu'], dtype=float).ravel()
        require(exact(got[s2], mu[s2]), 'restarted with prior means {} instead of {}', got.tolist(), mu.tolist())
        require(open(path).read() == before, 'restarting changed the results file')
        # the proposal covariance is carried over for the parameters sampled in both runs
        both1 = [s1.index(i) for i in s1 if i in s2]
        both2 = [s2.index(i) for i in s2 if i in s1]
        if cfg2['method'] in ('mh', 'dr') and both1 and n1 == n2:
            q1 = np.asarray(res['qcov'])[np.ix_(both1, both1)]
            q2 = np.asarray(res2['qcov'])[np.ix_(both2, both2)]
            require(np.allclose(q1, q2, rtol=1e-8, atol=1e-12 * np.abs(q1).max()), 'proposal covariance {} became {} on restart',
                    q1.tolist(), q2.tolist())
        # continued or run again, the restarted simulation goes on from itself or starts at the saved values again
        if c['after'] == 'continue' and cfg2['nsimu'] > 1 and usable(res2['qcovorig']):
            rec.ev = []
            with sut('continued after a restart'):
                m2.run_simulation(use_previous_results=True)
            more = np.array(m2.simulation_results.results['chain'])
            require(len(more) == 2 * cfg2['nsimu'] - 1 and exact(more[:len(chain)], chain), 'continuing a restarted simulation of {} rows '
                    'gives {} rows{}', len(chain), len(more), '' if exact(more[:len(chain)], chain) else ', other ones')
            lead, _, _ = mc.steps(rec)
            e = start.copy()
            e[s2] = chain[-1]
            require(exact(lead[-1][0], e), 'continued after a restart with parameters {} instead of {}', lead[-1][0].tolist(), e.tolist())
        elif c['after'] == 'again' and usable(res2['qcovorig']):
            with sut('run again after a restart'):
                m2.run_simulation()
            more = np.array(m2.simulation_results.results['chain'])
            require(len(more) == len(chain) and exact(more[0], start[s2]), 'a second restart begins at {} instead of {}', more[0].tolist(),
                    start[s2].tolist())
    return {'nt': not exact(last, [cfg['par'][i]['theta0'] for i in s1]), 'n_rows': len(chain), 'n_flags_changed': s1 != s2,
            'n_reordered': n1 != n2}


@mc.st.composite
def strat_file(draw, large=False):
    cfg = draw(mc.config(nsimu=(1000, 6000), npar=(1, 2), methods=('mh', 'am'), holes=False) if large else mc.config(nsimu=(1, 40)))
    if draw(mc.st.booleans()):
        for i, p in enumerate(cfg['par']):
            p['name'] = ['$\\alpha_1$', 'k "x"', u'\u03b8', 'p\n3', 'e'][i % 5] + ('' if i < 5 else str(i))
    return {'cfg': cfg, 'bin': draw(mc.st.sampled_from([False, False, True])), 'txt': draw(mc.st.sampled_from([False, False, True])),
            'savesize': draw(mc.st.sampled_from([0, 500] if large else [0, 1, 7])), 'dir': draw(mc.st.sampled_from(['out', 'a/b'])),
            'name': draw(mc.st.sampled_from([None, 'r.json', 'my results.json', 'run.v2.json', 'a.b.c.json', 'json.json'])), 'lightly': draw(mc.st.booleans()),
            'pass_name': draw(mc.st.booleans()), 'np': draw(mc.st.sampled_from([False, False, False, True])), 'again': draw(mc.st.sampled_from([0, 0, 1])) if cfg['nsimu'] > 1 else 0}


@mc.st.composite
def strat_restart(draw):
    cfg = draw(mc.config(nsimu=(2, 40)))
    nxt = json.loads(json.dumps(cfg))
    nxt.update(seed=draw(mc.seeds()), nsimu=draw(mc.st.integers(1, 15)), method=draw(mc.st.sampled_from(['mh', 'am', 'dr', 'dram'])))
    nxt['opt'].pop('qcov', None)
    nxt.pop('priorhole', None)          # (it counts the sampled parameters)
    for p in nxt['par']:
        if draw(mc.st.booleans()):
            p['theta0'] = round(p['theta0'] + draw(mc.fl(-1, 1, 2)), 4)
    q = cfg['opt'].get('qcov')
    if (q is None or not isinstance(q[0], list)) and draw(mc.st.booleans()):
        for p in nxt['par']:
            p['sample'] = draw(mc.st.booleans())
        if not any(p['sample'] for p in nxt['par']):
            nxt['par'][0]['sample'] = True
    if draw(mc.st.sampled_from([False, False, True])):          # parameters are recognised by name
        for c in (cfg, nxt):
            for i, p in enumerate(c['par']):
                p.setdefault('name', 'q{}'.format(i))
        nxt['par'] = draw(mc.st.permutations(nxt['par']))
        nxt['opt'].pop('RDR', None)
    return {'cfg': cfg, 'next': nxt, 'bin': draw(mc.st.booleans()), 'after': draw(mc.st.sampled_from(['', 'continue', 'again']))}


PROP = Prop('C12', 'Results files', [
    Sub('file', strat_file(), check_file, 600, 12000, 'non-trivial: the chain moves'),
    Sub('file_large', strat_file(large=True), check_file, 12, 300, 'as above, 1000-6000 rows', attempts=6),
    Sub('restart', strat_restart(), check_restart, 600, 12000, 'a run, and a run restarted from its results file with other '
        'starting values, method and sampled parameters; non-trivial: the first run ended elsewhere than it started'),
])
