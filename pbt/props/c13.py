"""C13: parallel chains."""
import contextlib
import io
import json
import math
import os
import re

import numpy as np

from .. import mc, parfun
from ..engine import Prop, Sub, Unsupported, Violation, require, sut
from .c09 import exact
from .c12 import differs, plain, usable


def serial(cfg, sd, **over):
    from pymcmcstat.MCMC import MCMC
    m = MCMC(rngseed=cfg['seed'])
    for k, n in enumerate(cfg['ndata']):
        x = np.arange(n, dtype=float)
        m.data.add_data_set(x, 0.5 * x + k, user_defined_object={'tgt': cfg['tgt']})
    m.simulation_options.define_simulation_options(**mc.user_opts(cfg, savedir=sd, **over))
    m.model_settings.define_model_settings(sos_function=parfun.sos, prior_function=parfun.prior if cfg.get('priorfun') else None,
                                           **mc.user_model(cfg))
    mc.add_params(cfg, m)
    return m


def limits(cfg):
    return np.array([p['min'] for p in cfg['par']]), np.array([p['max'] for p in cfg['par']])


def initial_values(c):
    """[chains, parameters] within the limits from drawn fractions"""
    cfg = c['cfg']
    lo, hi = limits(cfg)
    out = []
    for row in c['init']:
        r = []
        for j, p in enumerate(cfg['par']):
            f = row[j]
            a = lo[j] if math.isfinite(lo[j]) else (hi[j] if math.isfinite(hi[j]) else p['theta0']) - 10.0
            b = hi[j] if math.isfinite(hi[j]) else a + 10.0
            v = a + f * (b - a)
            r.append(min(max(v, a), b) if p['sample'] or c.get('free') else p['theta0'])
        out.append(r)
    return np.array(out)


def state(m):
    """what the user set up, as plain values"""
    out = {'parameters': plain(m.parameters.parameters)}
    for k in ('simulation_options', 'model_settings', 'data'):
        out[k] = {a: plain(v) for a, v in vars(getattr(m, k)).items() if not a.startswith('_') and not callable(v)}
    return out


def setup(c, d, **over):
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    cfg = c['cfg']
    m = serial(cfg, os.path.join(d, 'par'), **over)
    iv = initial_values(c) if c['init'] else None
    given = None if iv is None else (iv if not c['extra'] else np.hstack([iv, np.full((len(iv), c['extra']), 1e9)]))
    pars = state(m)
    keep = None if given is None else given.copy()
    p = ParallelMCMC()
    with sut('setup_parallel_simulation'):
        p.setup_parallel_simulation(mcset=m, initial_values=given, num_chain=c['num_chain'], num_cores=c['num_cores'])
    now = state(m)
    now = {k: v if k == 'parameters' else {a: v.get(a) for a in pars[k]} for k, v in now.items()}
    require(differs(pars, now) is None, 'setting up parallel chains changed the serial simulation: {}', differs(pars, now))
    require(keep is None or exact(keep, given), 'initial values of the user were modified')
    return m, p, iv


def check_setup(c):
    cfg = c['cfg']
    lo, hi = limits(cfg)
    fixed = [j for j, q in enumerate(cfg['par']) if not q['sample']]
    smp = mc.sampled(cfg)
    with mc.tmpdir() as d:
        m, p, iv = setup(c, d)
        n = len(iv) if iv is not None else c['num_chain']
        require(p.num_chain == n and len(p.parmc) == n, '{} chains set up instead of {}', len(p.parmc), n)
        got = np.asarray(p.initial_values, dtype=float)
        require(got.shape == (n, len(cfg['par'])), 'initial values have shape {}', got.shape)
        if iv is not None:
            require(exact(got, iv), 'initial values {} given, {} used', iv.tolist(), got.tolist())
        require(((got >= lo) & (got <= hi))[:, smp].all(), 'initial values {} outside the limits', got.tolist())
        for j in fixed:
            require(iv is not None or (got[:, j] == cfg['par'][j]['theta0']).all(), 'parameter {} is not sampled, but starts at {}', j, got[:, j].tolist())
        for i, mm in enumerate(p.parmc):
            th = [float(q['theta0']) for q in mm.parameters.parameters]
            require(exact(th, got[i]), 'chain {} starts at {} instead of {}', i, th, got[i].tolist())
            for j, q in enumerate(mm.parameters.parameters):
                require(q['name'] == mc.names_for(cfg)[j] and q['minimum'] == lo[j] and q['maximum'] == hi[j] and
                        q['sample'] == cfg['par'][j]['sample'] and q['adapt'] == cfg['par'][j]['adapt'],
                        'chain {}: settings of parameter {} differ: {}', i, j, q)
        if iv is None and n > 1:
            for j in smp:
                width = (hi[j] - lo[j]) if math.isfinite(hi[j] - lo[j]) else abs(cfg['par'][j]['theta0'])
                require(width == 0 or len(set(got[:, j])) == n, 'generated initial values of parameter {} repeat: {}', j, got[:, j].tolist())
        dirs = [mm.simulation_options.savedir for mm in p.parmc]
        require(len(set(os.path.abspath(x) for x in dirs)) == n, 'chains share directories {}', dirs)
        require(1 <= p.num_cores <= max(1, c['num_cores']), '{} cores requested, {} used', c['num_cores'], p.num_cores)
    return {'nt': n > 1 and bool(smp) and (np.isfinite(lo[smp]) | np.isfinite(hi[smp])).any(), 'n_chains': n}


def check_outside(c):
    """initial values outside the limits are refused"""
    from pymcmcstat.ParallelMCMC import ParallelMCMC
    cfg = c['cfg']
    lo, hi = limits(cfg)
    iv = initial_values(c)
    i, j = c['row'] % len(iv), mc.sampled(cfg)[c['col'] % len(mc.sampled(cfg))]
    if math.isfinite(hi[j]) and (c['up'] or not math.isfinite(lo[j])):
        iv[i, j] = hi[j] + max(c['by'], 8 * float(np.spacing(abs(hi[j]))))
    elif math.isfinite(lo[j]):
        iv[i, j] = lo[j] - max(c['by'], 8 * float(np.spacing(abs(lo[j]))))
    else:
        raise Unsupported()
    with mc.tmpdir() as d:
        m = serial(cfg, os.path.join(d, 'par'))
        try:
            with sut('setup_parallel_simulation'):
                ParallelMCMC().setup_parallel_simulation(mcset=m, initial_values=iv, num_chain=len(iv), num_cores=1)
        except Violation:
            return {'nt': True}
    raise Violation('initial values {} of chain {} were accepted with limits {} {}'.format(iv[i].tolist(), i, lo.tolist(), hi.tolist()))


def judge_chain(cfg, res, start, what):
    smp = mc.sampled(cfg)
    lo, hi = limits(cfg)
    chain, ss = np.asarray(res['chain'], dtype=float), np.asarray(res['sschain'], dtype=float)
    require(chain.shape == (cfg['nsimu'], len(smp)), '{}: chain has shape {}', what, chain.shape)
    require(exact(chain[0], start[smp]), '{}: starts at {} instead of {}', what, chain[0].tolist(), start[smp].tolist())
    require(((chain >= lo[smp]) & (chain <= hi[smp])).all(), '{}: leaves the limits', what)
    f = mc.make_ss(cfg['tgt'])
    for r in range(len(chain)):
        q = start.copy()
        q[smp] = chain[r]
        require(np.allclose(f(q), ss[r], rtol=1e-12, atol=0, equal_nan=True), '{}: row {} has sum-of-squares {}, the function gives {}', what, r,
                ss[r].tolist(), f(q).tolist())


def check_run(c):
    from pymcmcstat import ParallelMCMC as PMOD
    from pymcmcstat.chain import ChainProcessing as CP
    cfg = c['cfg']
    with mc.tmpdir() as d:
        m, p, iv = setup(c, d, save_to_bin=c['bin'], save_to_txt=c['txt'], save_to_json=c['json'], savesize=c['savesize'])
        start = np.array(p.initial_values, dtype=float)
        f = mc.make_ss(cfg['tgt'])
        if not all(np.isfinite(f(s)).all() for s in start):
            raise Unsupported()
        with sut('run_parallel_simulation'):
            p.run_parallel_simulation()
        n = p.num_chain
        results = [mm.simulation_results.results for mm in p.parmc]
        for i in range(n):
            judge_chain(cfg, results[i], start[i], 'chain {}'.format(i))
        if c['flat']:
            inc = [np.diff(np.asarray(r['chain']), axis=0) for r in results]
            for i in range(n):
                for j in range(i):
                    require(not np.allclose(inc[i], inc[j], rtol=1e-9, atol=1e-12), 'chains {} and {} make the same moves', j, i)
        # files
        binary = c['bin'] or not (c['bin'] or c['txt'] or c['json'])
        sd = os.path.join(d, 'par')
        for e, on in (('h5', binary), ('txt', c['txt'])):
            if on:
                with sut('reading logs'):
                    got = CP.read_in_parallel_savedir_files(sd, extension=e)
                require(len(got) == n, 'logs of {} chains found, {} were run', len(got), n)
                for i in range(n):
                    for k in ('chain', 'sschain', 's2chain'):
                        if results[i].get(k) is not None:
                            require(exact(results[i][k], got[i][k]), '{} log {} of chain {} differs', e, k, i)
                    cov, npar = np.asarray(got[i]['covchain']), len(mc.sampled(cfg))
                    require(cov.shape[1:] == (npar,) and len(cov) % npar == 0 and np.allclose(cov[-npar:], results[i]['qcov'], rtol=1e-10, atol=0),
                            '{} covariance log of chain {} ends with {}, final proposal covariance is {}', e, i, cov[-npar:].tolist(),
                            np.asarray(results[i]['qcov']).tolist())
        if c['json']:
            for mod in (PMOD, CP):
                with sut('load_parallel_simulation_results'):
                    lo = mod.load_parallel_simulation_results(sd, extension='h5' if binary else 'txt')
                require(len(lo) == n, '{} results loaded, {} were run', len(lo), n)
                for i in range(n):
                    for k in ('chain', 'sschain', 's2chain'):
                        if results[i].get(k) is not None:
                            require(exact(results[i][k], lo[i][k]), '{} of loaded result {} differs', k, i)
                    drop = ('chain', 'sschain', 's2chain', 'covchain')
                    dd = differs({k: v for k, v in plain(results[i]).items() if k not in drop},
                                 {k: v for k, v in plain(lo[i]).items() if k not in drop})
                    require(dd is None, 'loaded result {} differs at {}', i, dd)
            if c['restart'] and all(usable(r['qcovorig']) and usable(r['qcov']) for r in results):
                m2 = serial(dict(cfg, seed=(cfg['seed'] + 1) % 2 ** 32), os.path.join(d, 'par2'), json_restart_file=sd)
                p2 = PMOD.ParallelMCMC()
                with sut('restarted parallel simulation'):
                    p2.setup_parallel_simulation(mcset=m2, num_chain=n, num_cores=c['num_cores'], initial_values=iv)
                    p2.run_parallel_simulation()
                for i in range(n):
                    last = np.asarray(results[i]['chain'])[-1]
                    st = start[i].copy()
                    st[mc.sampled(cfg)] = last
                    judge_chain(cfg, p2.parmc[i].simulation_results.results, st, 'restarted chain {}'.format(i))
    return {'nt': n > 1, 'n_chains': n, 'n_rows': n * cfg['nsimu']}


def check_display(c):
    """the statistics displayed for each chain are those of that chain"""
    cfg = c['cfg']
    names = [mc.names_for(cfg)[i] for i in mc.sampled(cfg)]
    with mc.tmpdir() as d:
        m, p, _ = setup(c, d)
        with sut('run_parallel_simulation'):
            p.run_parallel_simulation()
        buf = io.StringIO()
        with sut('display_individual_chain_statistics'), contextlib.redirect_stdout(buf):
            p.display_individual_chain_statistics()
        parts = re.split(r'Displaying results for chain (\d+)\n', buf.getvalue())
        require([int(k) for k in parts[1::2]] == list(range(p.num_chain)), 'statistics of chains {} displayed', parts[1::2])
        for i, txt in enumerate(parts[2::2]):
            x = np.asarray(p.parmc[i].simulation_results.results['chain'], dtype=float)
            sd = p.parmc[i].simulation_options.savedir
            require(sd in txt and os.path.join(d, 'par') in sd, 'chain {}: files {} displayed as {}', i, sd, txt[:200])
            rows = [ln.split(':') for ln in txt.splitlines() if ':' in ln and len(ln.split(':')[1].split()) == 5]
            rows = [(a.strip(), b.split()) for a, b in rows if a.strip() in names]
            require([a for a, _ in rows] == names, 'chain {}: statistics of {} displayed instead of {}', i, [a for a, _ in rows], names)
            for j, (a, b) in enumerate(rows):
                for what, val, want in (('mean', b[0], x[:, j].mean()), ('deviation', b[1], x[:, j].std())):
                    require(abs(float(val) - want) <= (0.0051 if 0.0099 < abs(want) < 1.01e4 else 0.0051 * abs(want)) + 1e-300,
                            'chain {}: {} of {} displayed as {} instead of {}', i, what, a, val, want)
    return {'nt': p.num_chain > 1, 'n_chains': p.num_chain}


@mc.st.composite
def strat_display(draw):
    cfg = strip(draw(mc.config(nsimu=(60, 90), bounds='none', holes=False, prior='none', priorfun=False, npar=(1, 3), updatesigma=False,
                               methods=('mh', 'dr'), scaled=False)))
    cfg['tgt']['w'] = [[0.0 for _ in r] for r in cfg['tgt']['w']]
    c = draw(base(cfg, 4))
    c.update(extra=0)
    return c


@mc.st.composite
def base(draw, cfg, nmax=6):
    n = draw(mc.st.integers(1, nmax))
    npar = len(cfg['par'])
    init = None
    if draw(mc.st.booleans()):
        init = [[draw(mc.st.sampled_from([0.0, 0.25, 0.5, 0.9, 1.0])) for _ in range(npar)] for _ in range(n)]
    elif draw(mc.st.booleans()):
        for p in cfg['par']:                # a fixed parameter is not subject to limits
            if not p['sample'] and math.isfinite(p['max']):
                p['theta0'] = round(p['max'] + 0.5, 4)
            elif not p['sample'] and math.isfinite(p['min']):
                p['theta0'] = round(p['min'] - 0.5, 4)
    return {'cfg': cfg, 'init': init, 'free': draw(mc.st.booleans()), 'extra': draw(mc.st.sampled_from([0, 0, 1, 2])),
            'num_chain': n if init is None else draw(mc.st.sampled_from([n, n, n + 1, 1])), 'num_cores': draw(mc.st.integers(1, 8))}


def strip(cfg):
    cfg['tgt']['sig'] = 'plain'
    return cfg


@mc.st.composite
def strat_setup(draw):
    c = draw(base(strip(draw(mc.config(nsimu=(2, 10))))))
    if draw(mc.st.sampled_from([False, False, True])):
        c['num_cores'] = 1000
    return c


@mc.st.composite
def strat_outside(draw):
    cfg = strip(draw(mc.config(nsimu=(2, 10))))
    n = draw(mc.st.integers(1, 5))
    return {'cfg': cfg, 'init': [[draw(mc.st.sampled_from([0.0, 0.5, 1.0])) for _ in cfg['par']] for _ in range(n)], 'row': draw(mc.st.integers(0, 9)),
            'col': draw(mc.st.integers(0, 9)), 'up': draw(mc.st.booleans()), 'by': draw(mc.st.sampled_from([1e-6, 0.01, 1.0, 1e6]))}


@mc.st.composite
def strat_run(draw, many=None):
    flat = draw(mc.st.booleans())
    if many and many[0] > 50:
        flat, cfg = False, strip(draw(mc.config(nsimu=(2, 3), npar=(1, 2), nsos=1, holes=False)))
    elif flat:
        cfg = strip(draw(mc.config(nsimu=(4, 8), bounds='none', holes=False, prior='none', priorfun=False, npar=(1, 3), updatesigma=False)))
        cfg['tgt']['w'] = [[0.0 for _ in r] for r in cfg['tgt']['w']]
    else:
        cfg = strip(draw(mc.config(nsimu=(2, 25))))
    c = draw(base(cfg, 4))
    if many:
        c['init'], c['num_chain'] = None, draw(mc.st.integers(*many))
    c.update(flat=flat, bin=draw(mc.st.booleans()), txt=draw(mc.st.booleans()), json=draw(mc.st.booleans()),
             savesize=draw(mc.st.sampled_from([0, 1, 3])), restart=draw(mc.st.booleans()))
    return c


PROP = Prop('C13', 'Parallel chains', [
    Sub('setup', strat_setup(), check_setup, 900, 15000, 'non-trivial: several chains, a sampled parameter has a limit'),
    Sub('outside', strat_outside(), check_outside, 300, 5000, 'one initial value of one chain moved outside its limit'),
    Sub('run', strat_run(), check_run, 150, 3000, 'chains run in a pool of processes, files and restart checked; non-trivial: several chains', attempts=12),
    Sub('display', strat_display(), check_display, 20, 300, 'statistics displayed per chain; non-trivial: several chains', attempts=6),
    Sub('many', strat_run(many=(11, 13)), check_run, 24, 300, '11-13 chains; non-trivial: always', attempts=8),
    Sub('hundred', strat_run(many=(101, 104)), check_run, 8, 60, 'more than 100 short chains', attempts=4),
], assumptions=['user functions can be pickled', 'directories are fresh'])
