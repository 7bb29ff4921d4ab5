"""C08: reproducibility and isolation of runs."""
import os

import numpy as np

from .. import mc, ref
from ..engine import Prop, Sub, Unsupported, require, sut

KEYS = ('chain', 'sschain', 's2chain', 'theta', 'R', 'qcov', 'cov', 'mean', 'total_rejected', 'rejected_outside_bounds', 'iacce',
        'RDR', 'qcov_scale', 'qcovorig', 'original_covariance', 'parind', 'limits', 'names', 'nsimu')


def snap(res):
    out = {}
    for k in KEYS:
        v = res.get(k)
        out[k] = None if v is None else [np.array(x, copy=True) for x in v] if isinstance(v, list) else np.array(v, copy=True)
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def compare(a, b, what):
    for k in KEYS:
        require(same(a[k], b[k]), '{}: {} differs', what, k)


def check_seed(c):
    cfg, other = c['a'], c['b']
    if not (mc.initial_ok(cfg) and mc.initial_ok(other)):
        raise Unsupported()
    np.random.seed(c['noise'])
    np.random.rand(3)
    _, _, res1 = mc.run(cfg, observe=False)
    s1 = snap(res1)
    d1 = mc.deep(res1)
    _, _, reso = mc.run(other, observe=False)
    compare(s1, snap(res1), 'results of a finished run changed while another object was running')
    so = snap(reso)
    do = mc.deep(reso)
    _, _, res2 = mc.run(cfg, observe=False)
    compare(s1, snap(res2), 'same seed and settings, second run after an unrelated one')
    compare(so, snap(reso), 'results of a finished run changed while another object was running')
    for a, b in ((d1, res1), (do, reso)):
        require(not mc.deep_diff(a, b), '{} of the results of a finished run changed', mc.deep_diff(a, b))
    return {'nt': len(np.unique(s1['chain'], axis=0)) > 1, 'n_rows': len(s1['chain'])}


OUT = {'verbosity': [0, 1, 2, 3, 4, 5, 100], 'waitbar': [False, True], 'printint': [None, 1, 4], 'savesize': [0, 1, 3, 10, 1000],
       'save_to_bin': [False, True], 'save_to_txt': [False, True], 'save_to_json': [False, True], 'save_lightly': [False, True],
       'label': [None, 'a label'], 'results_filename': [None, 'r.json'], 'chainfile': ['chainfile', 'other']}


def check_output(c):
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    _, _, res = mc.run(cfg, observe=False)
    base = snap(res)
    with mc.tmpdir() as d:
        over = dict(c['out'], savedir=os.path.join(d, 'log'))
        _, _, res = mc.run(cfg, observe=c['observe'], **over)
    compare(base, snap(res), 'with output options {}'.format(c['out']))
    return {'nt': len(np.unique(base['chain'], axis=0)) > 1, 'n_rows': len(base['chain'])}


def check_inputs(cfg):
    """nothing the user passed in is modified"""
    from pymcmcstat.MCMC import MCMC
    if not mc.initial_ok(cfg):
        raise Unsupported()
    rec = mc.Rec()
    user = {'opt.' + k: v for k, v in mc.user_opts(cfg).items() if isinstance(v, (np.ndarray, list))}
    opts = mc.user_opts(cfg)
    for k in user:
        opts[k[4:]] = user[k]
    model = {k: (np.array(v, dtype=float) if isinstance(v, list) else v) for k, v in cfg['model'].items()}
    user.update({'model.' + k: v for k, v in model.items() if isinstance(v, np.ndarray)})
    xs = [np.arange(n, dtype=float) for n in cfg['ndata']]
    ys = [0.5 * x + 1 for x in xs]
    for i, (x, y) in enumerate(zip(xs, ys)):
        user['x{}'.format(i)], user['y{}'.format(i)] = x, y
    keep = mc.deep(user)
    with sut('run_simulation'):
        m = MCMC(rngseed=cfg['seed'])
        for x, y in zip(xs, ys):
            m.data.add_data_set(x, y)
        m.simulation_options.define_simulation_options(**opts)
        sos, prior = mc.callbacks(cfg, rec)
        m.model_settings.define_model_settings(sos_function=sos, prior_function=prior, **model)
        mc.add_params(cfg, m)
        pars = mc.deep(m.parameters.parameters)
        m.run_simulation()
        first = snap(m.simulation_results.results)
        for _ in range(cfg['again']):
            m.run_simulation(use_previous_results=True)
    require(not mc.deep_diff(pars, m.parameters.parameters), 'the parameters\' settings were modified: {}',
            mc.deep_diff(pars, m.parameters.parameters))
    for k, v in keep.items():
        require(not mc.deep_diff(v, user[k]), 'input {} was modified: {} became {}', k, np.asarray(v).tolist(),
                np.asarray(user[k]).tolist())
    return {'nt': len(np.unique(first['chain'], axis=0)) > 1 and len(user) > 2, 'n_inputs': len(user)}


def check_rerun(c):
    """one object, run again from the same generator state after other runs of it"""
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    with sut('run_simulation'):
        m, _ = mc.build(cfg, observe=False)
        np.random.seed(c['s'])
        m.run_simulation()
        first = snap(m.simulation_results.results)
        kept = [(m.simulation_results.results, mc.deep(m.simulation_results.results))]
        for go_on in c['between']:
            m.run_simulation(use_previous_results=go_on)
            kept.append((m.simulation_results.results, mc.deep(m.simulation_results.results)))
        np.random.seed(c['s'])
        m.run_simulation()
    for old, was in kept:
        require(not mc.deep_diff(was, old), '{} of the results of a finished run changed', mc.deep_diff(was, old))
    compare(first, snap(m.simulation_results.results), 'same seed, second new run of the object after {} others'.format(len(c['between'])))
    return {'nt': len(np.unique(first['chain'], axis=0)) > 1, 'n_rows': len(first['chain'])}


@mc.st.composite
def strat_rerun(draw):
    return {'cfg': draw(mc.config(nsimu=(2, 40), methods=mc.ALL)), 's': draw(mc.seeds()), 'between': draw(mc.st.lists(mc.st.booleans(), max_size=3))}


def check_differ(c):
    """different seeds, or none, give different chains"""
    from pymcmcstat.MCMC import MCMC
    cfg = c['cfg']
    ch = []
    for s in (c['s1'], c['s2'], None, None):
        with sut('run_simulation'):
            m = MCMC(rngseed=s)
            mc.data_for(cfg, m)
            m.simulation_options.define_simulation_options(**mc.user_opts(cfg))
            sos, prior = mc.callbacks(cfg, mc.Rec())
            m.model_settings.define_model_settings(sos_function=sos, prior_function=prior, **mc.user_model(cfg))
            mc.add_params(cfg, m)
            m.run_simulation()
        ch.append(np.array(m.simulation_results.results['chain']))
    for i in range(4):
        for j in range(i):
            require(not np.array_equal(ch[i], ch[j]), 'runs with seeds {} gave the same chain', [c['s1'], c['s2'], None, None][j:i + 1])
    return {'nt': True}


@mc.st.composite
def strat_seed(draw):
    return {'a': draw(mc.config(nsimu=draw(mc.st.sampled_from([(2, 50)] * 12 + [(300, 700)])), methods=mc.ALL)), 'b': draw(mc.config(nsimu=(2, 20))), 'noise': draw(mc.st.integers(0, 1000))}


@mc.st.composite
def strat_output(draw):
    return {'cfg': draw(mc.config(nsimu=draw(mc.st.sampled_from([(1, 40)] * 6 + [(41, 130)] * 3 + [(300, 700)])))), 'observe': draw(mc.st.booleans()),
            'out': {k: draw(mc.st.sampled_from(v)) for k, v in OUT.items()}}


@mc.st.composite
def strat_inputs(draw):
    c = draw(mc.config(nsimu=(2, 40), qkinds=('vector', 'matrix', 'matrix')))
    c['again'] = draw(mc.st.sampled_from([0, 1]))
    return c


@mc.st.composite
def strat_differ(draw):
    c = draw(mc.config(nsimu=(30, 30), bounds='none', holes=False, prior='none', priorfun=False))
    c['tgt']['w'] = [[0.0 for _ in r] for r in c['tgt']['w']]      # flat: everything is accepted
    s1 = draw(mc.st.integers(0, 5000))
    step = draw(mc.st.one_of(mc.st.integers(1, 5000), mc.st.integers(13, 31).map(lambda k: 2 ** k), mc.st.integers(4, 9).map(lambda k: 10 ** k)))
    return {'cfg': c, 's1': s1, 's2': s1 + step}


PROP = Prop('C08', 'Reproducibility and isolation', [
    Sub('seed', strat_seed(), check_seed, 500, 12000, 'two runs with one seed, with an unrelated run between them; non-trivial: '
        'the chain moves'),
    Sub('rerun', strat_rerun(), check_rerun, 300, 6000, 'one object run twice from the same generator state, with other new or continued '
        'runs between; non-trivial: the chain moves'),
    Sub('output', strat_output(), check_output, 600, 12000, 'output options (verbosity, progress bar, printing, saving, labels, '
        'observing sampler) drawn at random; non-trivial: the chain moves'),
    Sub('inputs', strat_inputs(), check_inputs, 400, 8000, 'arrays passed by the user compared before/after; non-trivial: the '
        'chain moves and at least 3 arrays were passed'),
    Sub('differ', strat_differ(), check_differ, 60, 1000, 'four runs that accept everything, with different seeds or none'),
], assumptions=['runs are sequential in one process (the library uses numpy\'s global generator)'])
