"""C14: invalid setups are refused, valid ones are not."""
import copy
import math

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, Violation, require, sut


def nsos(cfg):
    return len(cfg['tgt']['b'])


def attempt(cfg, opts=None, model=None, no_function=False, previous=False, data=True):
    """returns (refused, message, sums of squares evaluated, rows)"""
    from pymcmcstat.MCMC import MCMC
    rec = mc.Rec()
    with sut('constructing'):
        m = MCMC(rngseed=cfg['seed'])
        mc.data_for(cfg, m)
    try:
        with sut('run'):
            m.simulation_options.define_simulation_options(**dict(mc.user_opts(cfg), **(opts or {})))
            sos, prior = mc.callbacks(cfg, rec)
            mm = dict(mc.user_model(cfg), prior_function=prior, **({} if no_function else {'sos_function': sos}))
            mm.update(model or {})
            m.model_settings.define_model_settings(**mm)
            mc.add_params(cfg, m)
            m.custom_samplers.append(mc.Observer(rec))
            m.run_simulation(use_previous_results=previous)
    except Violation as v:
        return True, str(v), rec, m
    return False, '', rec, m


def bad_len(rng_len, ns):
    """a length that is neither one nor the number of elements"""
    return rng_len if rng_len not in (1, ns) else ns + 1


def check_invalid(c):
    cfg, kind = copy.deepcopy(c['cfg']), c['kind']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    ns = nsos(cfg)
    par = cfg['par'][mc.sampled(cfg)[c['which'] % len(mc.sampled(cfg))]]
    kw = {}
    by = max(c['by'], 8 * float(np.spacing(abs(par['theta0']))))          # not lost to rounding
    if kind == 'above':
        par['max'] = par['theta0'] - by
        par['min'] = min(par['min'], par['max'] - 1)
    elif kind == 'below':
        par['min'] = par['theta0'] + by
        par['max'] = max(par['max'], par['min'] + 1)
    elif kind == 'crossed':
        par['min'], par['max'] = par['theta0'] + by, par['theta0'] - by
    elif kind == 'crossed_above':
        par['min'], par['max'] = par['theta0'] - by, par['theta0'] - 2 * by
    elif kind in ('sigma2', 'S20', 'N0'):
        n = bad_len(c['len'], ns)
        kw['model'] = {kind: [1.0] * n if c['aslist'] else np.ones(n)}
        if kind != 'sigma2' and not cfg['model'].get('sigma2'):
            kw['model']['sigma2'] = 1.0
    elif kind == 'N':
        n = c['N']
        data = cfg['ndata']
        one = np.atleast_1d(n)
        if np.array_equal(one, data) or (one.size == 1 and (all(d == one[0] for d in data) or sum(data) == one[0])) or \
                (len(data) == 1 and one.size > 1 and all(x == data[0] for x in one)):
            raise Unsupported()
        kw['model'] = {'N': n}
    elif kind == 'function':
        kw['no_function'] = True
    elif kind == 'previous':
        kw['previous'] = True
    elif kind == 'method':
        kw['opts'] = {'method': c['method']}
    elif kind == 'type':
        kw['model'] = {c['setting']: {'str': '1.0', 'dict': {'a': 1}, 'tuple': (1.0,), 'object': object()}[c['type']]}
    refused, msg, rec, m = attempt(cfg, **kw)
    nsteps = sum(1 for e in rec.ev if e[0] == 'step')
    require(refused, 'accepted although invalid ({}): chain of {} rows', kind, nsteps + 1)
    require(nsteps == 0, 'refused ({}) only after {} steps', kind, nsteps)
    require(getattr(m, 'simulation_results', None) is None, 'refused ({}), but there are results', kind)
    if kind in ('above', 'below', 'crossed', 'crossed_above', 'function', 'previous', 'method', 'type', 'N'):
        require(not any(e[0] == 'ss' for e in rec.ev), 'refused ({}) after evaluating the user function', kind)
    return {'nt': True, 'n_' + kind: 1}


def check_valid(c):
    cfg, kind = copy.deepcopy(c['cfg']), c['kind']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    ns = nsos(cfg)
    k = c['which'] % len(cfg['par'])
    par = cfg['par'][k]
    kw = {}
    if kind == 'at_min':
        par['min'], par['max'] = par['theta0'], max(par['max'], par['theta0'] + 1)
    elif kind == 'at_max':
        par['max'], par['min'] = par['theta0'], min(par['min'], par['theta0'] - 1)
    elif kind == 'point':
        par['min'] = par['max'] = par['theta0']
    elif kind == 'fixed_outside':
        if len(mc.sampled(cfg)) < 2 and par['sample']:
            raise Unsupported()
        cfg.pop('priorhole', None)          # (it counts the sampled parameters)
        par['sample'] = False
        par['min'], par['max'] = par['theta0'] + 1, par['theta0'] + 2
    elif kind == 'explicit_inf':
        par['min'], par['max'], par['explicit'] = -math.inf, math.inf, True
    elif kind in ('sigma2', 'S20', 'N0'):
        form = c['form']
        v = {'int': 2, 'float': 2.0, 'np': np.float64(2.0), 'list1': [2.0], 'array1': np.array([2.0]), 'list': [2.0] * ns,
             'array': np.full(ns, 2.0), 'intlist': [2] * ns}[form]
        kw['model'] = {kind: v}
        if kind != 'sigma2':
            kw['model'].setdefault('sigma2', 1.0)
    elif kind == 'N':
        data = cfg['ndata']
        form = c['form']
        if form in ('int', 'list1', 'float'):
            v = sum(data)
            kw['model'] = {'N': {'int': v, 'list1': [v], 'float': float(v)}[form]}
        else:
            kw['model'] = {'N': list(data) if form != 'array' else np.array(data)}
    refused, msg, rec, m = attempt(cfg, **kw)
    require(not refused, 'refused although valid ({} {}): {}', kind, c['form'], msg)
    chain = np.asarray(m.simulation_results.results['chain'])
    require(chain.shape == (cfg['nsimu'], len(mc.sampled(cfg))), 'chain has shape {}', chain.shape)
    return {'nt': True, 'n_' + kind: 1}


@mc.st.composite
def strat_invalid(draw):
    cfg = draw(mc.config(nsimu=(2, 12)))
    kind = draw(mc.st.sampled_from(['above', 'below', 'crossed', 'crossed_above', 'sigma2', 'S20', 'N0', 'N', 'function', 'previous',
                                    'method', 'type']))
    parts = draw(mc.st.integers(1, max(1, sum(cfg['ndata']) - 1)))
    return {'cfg': cfg, 'kind': kind, 'which': draw(mc.st.integers(0, 5)), 'by': draw(mc.st.sampled_from([1e-9, 1e-3, 1.0, 1e3])),
            'len': draw(mc.st.integers(2, 5)), 'aslist': draw(mc.st.booleans()),
            'N': draw(mc.st.one_of(mc.st.integers(1, 30), mc.st.lists(mc.st.integers(1, 13), min_size=1, max_size=4),
                                 mc.st.just([parts, sum(cfg['ndata']) - parts]))),
            'method': draw(mc.st.sampled_from(['', 'DRAM', 'metropolis', 'xyz'])),
            'setting': draw(mc.st.sampled_from(['sigma2', 'S20', 'N0', 'N'])), 'type': draw(mc.st.sampled_from(['str', 'dict', 'tuple', 'object']))}


@mc.st.composite
def strat_valid(draw):
    return {'cfg': draw(mc.config(nsimu=(1, 12))), 'which': draw(mc.st.integers(0, 5)),
            'kind': draw(mc.st.sampled_from(['at_min', 'at_max', 'point', 'fixed_outside', 'explicit_inf', 'sigma2', 'S20', 'N0', 'N'])),
            'form': draw(mc.st.sampled_from(['int', 'float', 'np', 'list1', 'array1', 'list', 'array', 'intlist']))}


PROP = Prop('C14', 'Validation of setups', [
    Sub('invalid', strat_invalid(), check_invalid, 1200, 20000, 'a valid configuration with one defect put in'),
    Sub('valid', strat_valid(), check_valid, 900, 15000, 'a valid configuration moved to an edge of the valid region, or a setting in another form'),
])
