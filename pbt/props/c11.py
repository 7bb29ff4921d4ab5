"""C11: continuing a simulation."""
import os

import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut
from .c09 import compare, exact


def chains_of(res):
    return {k: np.array(res[k]) for k in ('chain', 'sschain', 's2chain') if res.get(k) is not None}


def judge_steps(cfg, ev, total, before, n, what):
    """the rows added by one run against what was observed during it"""
    rec = mc.Rec()
    rec.ev = ev
    lead, sts, _ = mc.steps(rec)
    sidx = mc.sampled(cfg)
    chain, ss = total['chain'], total['sschain']
    base = before - 1
    require(len(sts) == n - 1, '{}: {} steps for nsimu={}', what, len(sts), n)
    require(len(lead) > 0 and exact(lead[-1][0][sidx], chain[base]), '{}: did not start at the last row {}: {}', what,
            chain[base].tolist(), [x[0].tolist() for x in lead])
    require(exact(lead[-1][1], ss[base]), '{}: sum-of-squares of the starting row differs', what)
    for j, (isimu, acc, th, s, s2, evs) in enumerate(sts, 1):
        row = chain[base + j]
        require(exact(row, th), '{}: row {} is {}, the step ended at {}', what, base + j, row.tolist(), th.tolist())
        require(exact(ss[base + j], s), '{}: sum-of-squares of row {}', what, base + j)
        if 's2chain' in total:
            require(exact(total['s2chain'][base + j], s2), '{}: variance of row {}', what, base + j)
        if acc:
            require(any(exact(e[0][sidx], row) and exact(e[1], ss[base + j]) for e in evs), '{}: accepted row {} was not evaluated in '
                    'its step', what, base + j)
        else:
            require(exact(row, chain[base + j - 1]) and exact(ss[base + j], ss[base + j - 1]), '{}: rejected step changed row {}', what, base + j)
    return sum(1 for x in sts if x[1])


def check(c):
    from pymcmcstat.chain import ChainProcessing as CP
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    ext = [e for e, k in (('h5', 'bin'), ('txt', 'txt')) if c[k]]
    with mc.tmpdir() as d:
        sd = os.path.join(d, 'log')
        over = dict(save_to_bin=c['bin'], save_to_txt=c['txt'], savesize=c['savesize'], savedir=sd)
        with sut('run_simulation'):
            m, rec = mc.build(cfg, **over)
            m.run_simulation()
        prev = chains_of(m.simulation_results.results)
        require(len(prev['chain']) == cfg['nsimu'], 'first run has {} rows', len(prev['chain']))
        judge_steps(cfg, rec.ev, prev, 1, cfg['nsimu'], 'first run')
        kept = [(m.simulation_results.results, mc.deep(m.simulation_results.results))]
        n, acc = cfg['nsimu'], 0
        for i, r in enumerate(c['runs']):
            what = 'continuation {}'.format(i + 1)
            rec.ev = ev = []
            with sut(what):
                if r['nsimu'] is not None:
                    n = r['nsimu']
                    m.simulation_options.define_simulation_options(**mc.user_opts(cfg, **dict(over, nsimu=n, method=r['method'],
                                                                                             savesize=r['savesize'])))
                m.run_simulation(use_previous_results=True)
            res = m.simulation_results.results
            tot = chains_of(res)
            require(set(tot) == set(prev), '{}: chains {} became {}', what, sorted(prev), sorted(tot))
            for k in tot:
                b = len(prev[k])
                require(tot[k].shape == (b + n - 1,) + prev[k].shape[1:], '{}: {} of {} rows continued for {} simulations has shape {}', what,
                        k, b, n, tot[k].shape)
                require(exact(tot[k][:b], prev[k]), '{}: existing rows of {} changed', what, k)
            acc += judge_steps(cfg, ev, tot, len(prev['chain']), n, what)
            th = np.asarray(res['theta'], dtype=float)
            require(exact(th[mc.sampled(cfg)], tot['chain'][-1]), '{}: final values {} are not the last row', what, th.tolist())
            for old, snap in kept:
                require(not mc.deep_diff(snap, old), '{}: {} of earlier results changed', what, mc.deep_diff(snap, old))
            for e in ext:
                with sut('reading logs'):
                    got = CP.read_in_savedir_files(sd, extension=e)
                compare(tot, got, '{} logs after {}'.format(e, what))
            prev = tot
            kept.append((res, mc.deep(res)))
    return {'nt': acc > 0, 'n_rows': len(prev['chain']), 'n_continuations': len(c['runs'])}


def check_fresh(c):
    """without continuation, a new run of the same object starts over"""
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with sut('run_simulation'):
        m, rec = mc.build(cfg)
        m.run_simulation()
        first = chains_of(m.simulation_results.results)
        rec.ev = ev = []
        m.run_simulation()
    second = chains_of(m.simulation_results.results)
    require(set(first) == set(second), 'chains {} became {}', sorted(first), sorted(second))
    for k in first:
        require(first[k].shape == second[k].shape, '{} has shape {} in the first and {} in the second run', k, first[k].shape, second[k].shape)
        require(exact(first[k][0], second[k][0]), '{} starts with {} and then with {}', k, first[k][0].tolist(), second[k][0].tolist())
    judge_steps(cfg, ev, second, 1, cfg['nsimu'], 'second run')
    return {'nt': len(np.unique(second['chain'], axis=0)) > 1, 'n_rows': len(second['chain'])}


class Stop(RuntimeError):
    pass


def check_history(c):
    """fresh, continued and interrupted runs of one object in any order, against a model of its chains"""
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    left = [None]

    def fault(q):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                left[0] = None
                raise Stop('injected')
    with sut('set up'):
        m, rec = mc.build(cfg, fault=fault)
    sidx = mc.sampled(cfg)
    start = [cfg['par'][i]['theta0'] for i in sidx]
    s2start = ref.eff_sigma2_0(cfg)
    prev, kept, cont, stopped = None, [], 0, 0
    n = cfg['nsimu']
    for i, op in enumerate(c['ops']):
        go_on = op['go_on'] and prev is not None
        what = 'run {} ({})'.format(i + 1, 'continued' if go_on else 'new')
        rec.ev = ev = []
        left[0] = op['stop']
        done = False
        with sut(what):
            if op['nsimu'] is not None:
                n = op['nsimu']
                m.simulation_options.define_simulation_options(**mc.user_opts(cfg, nsimu=n, method=op['method']))
            try:
                m.run_simulation(use_previous_results=go_on)
                done = True
            except Stop:
                pass
        left[0] = None
        for old, snap in kept:
            require(not mc.deep_diff(snap, old), '{}: {} of earlier results changed', what, mc.deep_diff(snap, old))
        if not done:
            stopped += 1
            if prev is not None:
                require(m.simulation_results.results is kept[-1][0] or
                        all(exact(m.simulation_results.results[k], v) for k, v in prev.items()), '{}: interrupted, but the results changed', what)
            continue
        res = m.simulation_results.results
        tot = chains_of(res)
        base = len(prev['chain']) if go_on else 1
        for k in tot:
            require(len(tot[k]) == base + n - 1, '{}: {} has {} rows instead of {}', what, k, len(tot[k]), base + n - 1)
            if go_on:
                require(exact(tot[k][:base], prev[k]), '{}: existing rows of {} changed', what, k)
        if not go_on:
            require(exact(tot['chain'][0], start), '{}: starts at {} instead of {}', what, tot['chain'][0].tolist(), start)
            if 's2chain' in tot:
                require(np.allclose(tot['s2chain'][0], s2start, rtol=1e-12), '{}: error variance starts at {} instead of {}', what,
                        tot['s2chain'][0].tolist(), s2start.tolist())
        judge_steps(cfg, ev, tot, base, n, what)
        # the variance in use during the first step is that of the starting row
        cont += go_on
        prev = tot
        kept.append((res, mc.deep(res)))
    return {'nt': len(kept) > 1 and (cont > 0 or stopped > 0), 'n_runs': len(kept), 'n_interrupted': stopped, 'n_continued': cont}


@mc.st.composite
def strat_history(draw):
    cfg = draw(mc.config(nsimu=(2, 20)))
    ops = []
    for _ in range(draw(mc.st.integers(2, 6))):
        ops.append({'go_on': draw(mc.st.booleans()), 'stop': draw(mc.st.sampled_from([None, None, 0, 1, 2, 5, 9])),
                    'nsimu': draw(mc.st.sampled_from([None, 2, 5, 13])), 'method': draw(mc.st.sampled_from(['mh', 'am', 'dr', 'dram']))})
    return {'cfg': cfg, 'ops': ops}


@mc.st.composite
def strat(draw, far=False):
    if far:
        cfg = draw(mc.config(nsimu=(1000, 2300), npar=(1, 2), holes=False))
    else:
        cfg = draw(mc.config(nsimu=draw(mc.st.sampled_from([(2, 30)] * 15 + [(150, 400)]))))
    b, t = draw(mc.st.sampled_from([(True, False), (False, True), (True, True), (False, False)]))
    runs = []
    for _ in range(draw(mc.st.integers(1, 3))):
        runs.append({'nsimu': draw(mc.st.one_of(mc.st.none(), mc.st.integers(2, 30), mc.st.integers(2, 30), mc.st.sampled_from([120, 260]))), 'method': draw(mc.st.sampled_from(['mh', 'am', 'dr', 'dram'])),
                     'savesize': draw(mc.st.sampled_from([0, 1, 3, 7, 100]))})
    return {'cfg': cfg, 'bin': b, 'txt': t, 'savesize': draw(mc.st.sampled_from([0, 1, 2, 3, 7, 100])), 'runs': runs}


@mc.st.composite
def strat_fresh(draw):
    return {'cfg': draw(mc.config(nsimu=(2, 40)))}


PROP = Prop('C11', 'Continuing a simulation', [
    Sub('continue', strat(), check, 900, 18000, 'histories of 2-4 runs, lengths and methods changed between them; non-trivial: a '
        'continuation accepts a point'),
    Sub('long', strat(far=True), check, 12, 300, 'as above, 1000-2300 rows before the first continuation', attempts=8),
    Sub('history', strat_history(), check_history, 500, 10000, 'two to six new, continued and interrupted runs of one object in any order; '
        'non-trivial: at least two finished runs and a continued or interrupted one'),
    Sub('fresh', strat_fresh(), check_fresh, 300, 5000, 'two fresh runs of one object; non-trivial: the chain moves'),
], assumptions=['variance updating is on or off for all runs of a history', 'every run has at least two simulations (one only records the start)'])
