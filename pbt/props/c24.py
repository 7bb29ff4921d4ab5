"""C24: custom samplers take part in every step."""
import os

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut


class Sampler:
    def __init__(self, tag, nsimu, ev, kind, ncol, nchain):
        self.tag, self.nsimu, self.ev, self.kind = tag, nsimu, ev, kind
        self.n, self.run = 0, 0
        self.k = ncol
        self.want = nchain
        if kind == 'on':
            self.save_chain = True
        elif kind == 'off':
            self.save_chain = False

    def out(self):
        self.n += 1
        return ('out', self.tag, self.n)

    def setup(self):
        self.run += 1
        self.chains = [{'file': 'custom{}_{}'.format(self.tag, j), 'mtx': np.zeros((self.nsimu, self.k))} for j in range(self.want)]
        for j, ch in enumerate(self.chains):
            ch['mtx'][0] = np.arange(self.k) + 1000 * j - 0.5
        o = self.out()
        self.ev.append(('setup', self.tag, o))
        return o

    def update(self, accept, isimu, current_set):
        for j, ch in enumerate(self.chains):
            ch['mtx'][isimu] = np.arange(self.k) + 1000 * j + isimu / 7.0 + 100 * self.tag
        o = self.out()
        self.ev.append(('update', self.tag, int(isimu), bool(accept), np.array(current_set.theta, dtype=float), np.array(current_set.ss, dtype=float).ravel(),
                        np.array(current_set.sigma2, dtype=float).ravel(), o))
        return o


def make_run(cfg, over):
    from pymcmcstat.MCMC import MCMC
    ev = []
    ssref = mc.make_ss(cfg['tgt'])

    def core(q, custom):
        v = ssref(np.array(q, dtype=float))
        ev.append(('ss', np.array(q, dtype=float), None if custom is None else list(custom), v.copy()))
        return v
    if cfg['sig'] == 'custom':
        def sos(q, data, custom=None):
            return core(q, custom)
    elif cfg['sig'] == 'kwargs':
        def sos(q, data, **kw):
            return core(q, kw.get('custom'))
    elif cfg['sig'] == 'none':
        def sos(q, data):
            return core(q, 'not passed')
    mcs = MCMC(rngseed=cfg['seed'])
    mc.data_for(cfg, mcs)
    mcs.simulation_options.define_simulation_options(**mc.user_opts(cfg, **over))
    mcs.model_settings.define_model_settings(sos_function=sos, **mc.user_model(cfg))
    mc.add_params(cfg, mcs)
    sm = []
    for i, s in enumerate(cfg['samplers']):
        sm.append(Sampler(i, cfg['nsimu'], ev, s[0], s[1], s[2]))
        mcs.custom_samplers.append(sm[-1])
    return mcs, ev, sm


def judge(cfg, ev, sm, res, first, offset, cont=False):
    """events of one run against the protocol and the results; returns number of candidates seen"""
    n = len(sm)
    chain, ss, s2 = np.asarray(res['chain']), np.asarray(res['sschain']), res['s2chain']
    i = 0
    outs = None
    ncand = 0
    require(ev and ev[0][0] == 'ss' and ev[0][2] in (None, list('not passed')), 'the initial values were not evaluated before the samplers are set up')
    while i < len(ev) and ev[i][0] == 'ss':
        i += 1
    outs = []
    for t in range(n):
        require(i < len(ev) and ev[i][:2] == ('setup', t), 'sampler {} was not set up in order before the first step', t)
        outs.append(ev[i][2])
        i += 1
    step = 0
    while i < len(ev):
        step += 1
        cands = []
        while i < len(ev) and ev[i][0] == 'ss':
            if cfg['sig'] != 'none':
                require(ev[i][2] == outs, 'step {}: the sum-of-squares got {} from the samplers instead of {}', step, ev[i][2], outs)
            cands.append(ev[i])
            ncand += 1
            i += 1
        outs = []
        require(step <= cfg['nsimu'] - 1, 'more steps than simulations')
        r = offset + step
        for t in range(n):
            require(i < len(ev) and ev[i][0] == 'update' and ev[i][1] == t, 'step {}: sampler {} was not updated in order', step, t)
            _, _, isimu, acc, th, s, v, o = ev[i]
            require(isimu == step, 'step {}: sampler {} was told step {}', step, t, isimu)
            require(np.array_equal(th, chain[r]) and np.array_equal(s, ss[r]), 'step {}: sampler {} got state {} ({}) instead of {} ({})', step, t,
                    th.tolist(), s.tolist(), chain[r].tolist(), ss[r].tolist())
            if s2 is not None:
                require(np.array_equal(np.broadcast_to(v, np.asarray(s2)[r].shape), np.asarray(s2)[r]), 'step {}: sampler {} got variances {} instead of {}',
                        step, t, v.tolist(), np.asarray(s2)[r].tolist())
            last = cands[-1][1][mc.sampled(cfg)] if cands else None
            if acc:
                require(last is not None and any(np.array_equal(c[1][mc.sampled(cfg)], chain[r]) for c in cands), 'step {}: reported as accepted, but the '
                        'state is no candidate', step)
            else:
                require(np.array_equal(chain[r], chain[r - 1]), 'step {}: reported as rejected, but the state changed', step)
            outs.append(o)
            i += 1
    require(step == cfg['nsimu'] - 1, '{} steps with {} simulations', step, cfg['nsimu'])
    return ncand


def check_protocol(cfg):
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with sut('simulation with custom samplers'):
        mcs, ev, sm = make_run(cfg, {})
        mcs.run_simulation()
    res = mcs.simulation_results.results
    nc = judge(cfg, list(ev), sm, res, True, 0)
    # sampling does not depend on who watches
    with sut('simulation without custom samplers'):
        m2, _, _ = make_run(dict(cfg, samplers=[]), {})
        m2.run_simulation()
    require(np.array_equal(np.asarray(m2.simulation_results.results['chain']), np.asarray(res['chain'])), 'the chain changed because samplers were added')
    if cfg['again'] and cfg['nsimu'] > 1:
        del ev[:]
        off = len(np.asarray(res['chain'])) - 1 if cfg['again'] == 'continue' else 0
        with sut('second simulation with custom samplers'):
            mcs.run_simulation(use_previous_results=cfg['again'] == 'continue')
        nc += judge(cfg, list(ev), sm, mcs.simulation_results.results, False, off)
    require(all(s.run == (2 if cfg['again'] and cfg['nsimu'] > 1 else 1) for s in sm), 'samplers were set up {} times', [s.run for s in sm])
    return {'nt': nc > 2 and len(sm) > 0, 'n_candidates': nc}


def check_logs(cfg):
    from pymcmcstat.chain import ChainProcessing as CP
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with mc.tmpdir() as d:
        over = {'savedir': 'logs', 'save_to_bin': 'h5' in cfg['ext'], 'save_to_txt': 'txt' in cfg['ext']}
        if cfg['savesize'] is not None:
            over['savesize'] = cfg['savesize']
        with sut('simulation with logged custom samplers'):
            mcs, ev, sm = make_run(cfg, over)
            mcs.run_simulation()
        n = 0
        for s in sm:
            for ch in s.chains:
                for ext in ('h5', 'txt'):
                    f = os.path.join(d, 'logs', ch['file'] + '.' + ext)
                    if s.kind != 'on' or ext not in cfg['ext']:
                        require(not os.path.exists(f), 'chain {} of a sampler that is not saved was logged', ch['file'])
                        continue
                    require(os.path.exists(f), 'chain {} was not logged to {}', ch['file'], ext)
                    with sut('reading custom logs'):
                        got = CP.read_in_bin_file(f) if ext == 'h5' else CP.read_in_txt_file(f)
                    got = np.asarray(got)
                    require(got.shape == ch['mtx'].shape and np.array_equal(got, ch['mtx']), '{} log of sampler chain has shape {} of {} rows, or other values',
                            ext, got.shape, len(ch['mtx']))
                    n += 1
        # and the simulation's own logs are complete
        for ext in cfg['ext']:
            f = os.path.join(d, 'logs', 'chainfile.' + ext)
            with sut('reading logs'):
                got = np.asarray(CP.read_in_bin_file(f) if ext == 'h5' else CP.read_in_txt_file(f))
            require(np.array_equal(got, np.asarray(mcs.simulation_results.results['chain'])), 'the {} log of the chain is not the chain', ext)
    return {'nt': n > 0 and (cfg['savesize'] or 10 ** 9) < cfg['nsimu'], 'n_logs': n}


@mc.st.composite
def strat(draw, logs=False, nsimu=None):
    c = draw(mc.config(nsimu=nsimu or ((2, 30) if logs else (1, 30)), npar=(1, 3), priorfun=False))
    c['sig'] = draw(mc.st.sampled_from(['custom', 'custom', 'kwargs', 'none']))
    c['samplers'] = [[draw(mc.st.sampled_from(['on', 'on', 'off', 'absent'] if logs else ['off', 'absent'])), draw(mc.st.integers(1, 3)),
                      draw(mc.st.integers(1, 2))] for _ in range(draw(mc.st.sampled_from([1, 2, 3, 4, 5])))]
    c['again'] = draw(mc.st.sampled_from([None, None, 'continue', 'fresh']))
    if logs:
        c['ext'] = draw(mc.st.sampled_from([['h5'], ['txt'], ['h5', 'txt']]))
        c['savesize'] = draw(mc.st.sampled_from([None, 1, 2, 3, 5, 7, 10, 30]))
    return c


PROP = Prop('C24', 'Custom samplers', [
    Sub('protocol', strat(), check_protocol, 400, 6000, 'generated configurations with 1-5 samplers, first, continued and repeated runs; non-trivial: '
        'more than two candidates evaluated'),
    Sub('long', strat(nsimu=(210, 500)), check_protocol, 40, 800, 'as above, over 200 steps', shrink=False),
    Sub('logs', strat(logs=True), check_logs, 250, 4000, 'samplers with chains saved to binary and text logs; non-trivial: some log is written in several pieces'),
], assumptions=['chains of custom samplers are logged over a single simulation (their positions after a continuation are not defined)'])
