"""C22: the prediction interval interface of a simulation."""
import math

import numpy as np
from scipy.special import ndtr
from scipy.stats import chi2

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut
from .c21 import band

LIMS_CI = [0.005, 0.025, 0.05, 0.25, 0.5, 0.75, 0.95, 0.975, 0.995]
LIMS_PI = [0.025, 0.5, 0.975]


@mc.st.composite
def strat(draw, big=False):
    nb = draw(mc.st.sampled_from([1, 1, 1, 2, 2, 2, 3, 3, 4, 6]))
    sets = [{'rows': (60 if big else draw(mc.st.integers(2, 6))), 'cols': draw(mc.st.sampled_from([1, 1, 1, 2, 2, 3, 5])),
             'flat': draw(mc.st.booleans())} for _ in range(nb)]
    npar = draw(mc.st.integers(1, 4))
    smp = [i for i in range(npar) if draw(mc.st.sampled_from([True, True, False]))] or [0]
    n = draw(mc.st.integers(200, 400)) if big else draw(mc.st.integers(3, 40))
    kinds = ['one', 'batch', 'column'] if big else ['none', 'none', 'one', 'batch', 'column']
    k = draw(mc.st.sampled_from(kinds))
    if k == 'batch' and sum(s['cols'] for s in sets) == nb:
        k = 'column'
    return {'sets': sets, 'npar': npar, 'smp': smp, 'n': n, 's2': k, 'seed': draw(mc.seeds()),
            'burnin': draw(mc.st.sampled_from([None, 0, n // 3, min(n // 2 + 1, n - 2), n - 2])), 'list': draw(mc.st.booleans()),
            'nsample': draw(mc.st.sampled_from(['default', None, 'few', 'many'])) if not big else draw(mc.st.sampled_from(['default', None])),
            'calc': draw(mc.st.sampled_from([None, True, 'on', False, 'off'])) if not big else None,
            'sstype': draw(mc.st.sampled_from([None, None, None, 0, 1, 2])), 'rstype': draw(mc.st.sampled_from([None, None, 0, 1, 2])),
            'udo': draw(mc.st.booleans()), 'waitbar': draw(mc.st.sampled_from([False, False, True])),
            'plot': draw(mc.st.sampled_from([None, True, 'on', False, 'off'])), 'adddata': draw(mc.st.booleans()),
            'addlegend': draw(mc.st.booleans()), 'display': draw(mc.st.booleans()), 'inplace': draw(mc.st.sampled_from([False, False, True]))}


def build(c):
    from pymcmcstat.MCMC import MCMC
    rng = np.random.RandomState(c['seed'])
    mcs = MCMC(rngseed=1)
    resp = []
    for b, s in enumerate(c['sets']):
        x = np.cumsum(rng.uniform(0.1, 1, s['rows']))
        y = rng.randn(s['rows'], s['cols'])
        kw = {'user_defined_object': {'batch': b}} if c['udo'] else {}
        mcs.data.add_data_set(x, y if s['cols'] > 1 or not s['flat'] else y[:, 0], **kw)
        resp.append({'x': x, 'y': y, 'coef': rng.randn(c['npar'], s['cols'])})
    chain = rng.randn(c['n'], len(c['smp']))
    theta = rng.randn(c['npar'])
    tot = sum(s['cols'] for s in c['sets'])
    k = {'none': 0, 'one': 1, 'batch': len(c['sets']), 'column': tot}[c['s2']]
    s2 = None if k == 0 else 10.0 ** rng.uniform(-3, 0, size=(1, k)) * rng.uniform(0.3, 3, size=(c['n'], k))
    return mcs, resp, chain, theta, s2


def response(r, q):
    return np.exp(0.3 * np.sin(np.outer(r['x'], np.ones(len(q))) + q) @ r['coef']) + 0.5


def check(c):
    import matplotlib.pyplot as plt
    mcs, resp, chain, theta, s2 = build(c)
    nb = len(resp)
    res = {'chain': chain, 's2chain': s2, 'parind': list(c['smp']), 'theta': theta, 'local': np.zeros(c['npar']),
           'model_settings': {'nbatch': nb}}
    if c['rstype'] is not None:
        res['sstype'] = c['rstype']
    keep = chain.copy(), theta.copy(), None if s2 is None else s2.copy()
    calls = [[] for _ in range(nb)]
    bad = []

    def make(b):
        def model(data, q):
            if b is None:
                i = [j for j in range(nb) if np.array_equal(np.asarray(data.xdata[0]).ravel(), resp[j]['x'])]
                i = i[0] if i else 0
            else:
                i = b
            if not np.array_equal(np.asarray(data.xdata[0]).ravel(), resp[i]['x']) or len(data.xdata) != 1:
                bad.append('model of data set {} got other data'.format(i))
            if c['udo'] and data.user_defined_object[0] != {'batch': i}:
                bad.append('model of data set {} got user object {}'.format(i, data.user_defined_object))
            arg, q = q, np.array(q, dtype=float)
            calls[i].append(q)
            y = response(resp[i], q)
            if c.get('inplace'):                # models that transform their argument in place
                arg[...] = 0.5 * arg - 3.0
            return y[:, 0] if c['sets'][i]['flat'] and y.shape[1] == 1 else y
        return model
    mf = [make(b) for b in range(nb)] if c['list'] else make(None)
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    PI = PredictionIntervals()
    kw = {} if c['burnin'] is None else {'burnin': c['burnin']}
    burn = c['burnin'] or 0
    n = c['n'] - burn
    gkw = {'waitbar': c['waitbar']}
    if c['nsample'] != 'default':
        gkw['nsample'] = {'few': max(2, n // 2), 'many': 3 * n, None: None}[c['nsample']]
    if c['calc'] is not None:
        gkw['calc_pred_int'] = c['calc']
    if c['sstype'] is not None:
        gkw['sstype'] = c['sstype']
    np.random.seed(c['seed'])
    with sut('setup_prediction_interval_calculation'):
        PI.setup_prediction_interval_calculation(results=res, data=mcs.data, modelfunction=mf, **kw)
    for cl in calls:
        del cl[:]
    with sut('generate_prediction_intervals'):
        PI.generate_prediction_intervals(**gkw)
    require(not bad, bad[0] if bad else '')
    require(np.array_equal(chain, keep[0]) and np.array_equal(theta, keep[1]) and (s2 is None or np.array_equal(s2, keep[2])) and
            list(res['parind']) == list(c['smp']), 'the results were modified')
    require(all(np.array_equal(mcs.data.ydata[b], resp[b]['y']) for b in range(nb)), 'the data were modified')
    ns = gkw.get('nsample', 500)
    want = n if ns is None or ns >= n else ns
    use = chain[burn:]
    cred, pred = PI.intervals['credible_intervals'], PI.intervals['prediction_intervals']
    haspred = s2 is not None and c['calc'] not in (False, 'off')
    require((pred is not None) == haspred, 'prediction intervals {}', 'missing' if haspred else 'not asked for')
    require(len(cred) == nb and (pred is None or len(pred) == nb), '{} credible intervals for {} data sets', len(cred), nb)
    lims = LIMS_PI if haspred else LIMS_CI
    rowsets, known = [], []
    for b in range(nb):
        require(len(calls[b]) == want, 'model of data set {} evaluated {} times for {} samples', b, len(calls[b]), want)
        rows = []
        for i, q in enumerate(calls[b]):
            m = np.where((use == q[c['smp']]).all(axis=1))[0]
            require(len(m) == 1, 'sample {} is at {}, no row of the chain after burn-in', i, q.tolist())
            e = theta.copy()
            e[c['smp']] = use[m[0]]
            require(np.array_equal(e, q), 'sample {} has parameters {} instead of {}', i, q.tolist(), e.tolist())
            rows.append(int(m[0]))
        rowsets.append(rows)
        require(want < n or rows == list(range(n)), 'rows {} used instead of all', rows)
        Y = np.array([response(resp[b], q) for q in calls[b]])
        require(len(cred[b]) == Y.shape[2], '{} intervals for {} columns of data set {}', len(cred[b]), Y.shape[2], b)
        for j in range(Y.shape[2]):
            ref = np.quantile(Y[:, :, j], lims, axis=0)
            got = np.asarray(cred[b][j])
            require(got.shape == ref.shape, 'credible intervals of shape {} instead of {}', got.shape, ref.shape)
            for k in range(len(lims)):
                if np.allclose(got[k], ref[k], atol=1e-9):
                    continue
                if not haspred and k == 6 and np.allclose(got[k], np.quantile(Y[:, :, j], 0.9, axis=0), atol=1e-9):
                    known.append('pi-90-limit')
                    continue
                require(False, 'credible limit {} of data set {} column {} is {} instead of {}', lims[k], b, j, got[k].tolist(), ref[k].tolist())
    require(all(r == rowsets[0] for r in rowsets), 'data sets use different samples')
    nstat = 0
    if haspred:
        st = c['sstype'] if c['sstype'] is not None else (c['rstype'] or 0)
        kn = judge(c, resp, calls, rowsets[0], s2[burn:], pred, st)
        if kn is not None:
            require(c['sstype'] in (1, 2) and judge(c, resp, calls, rowsets[0], s2[burn:], pred, 0) is None, kn)
            known.append('pi-sstype-ignored')
        nstat = len(rowsets[0])
    check_plot(c, PI, mcs, resp, cred, pred)
    return {'nt': want > 2, 'known': sorted(set(known)), 'n_samples': want, 'n_predicting': int(haspred)}


def judge(c, resp, calls, rows, s2, pred, sstype):
    """None if the quantiles of predictions fit the error model, else what does not"""
    col0 = 0
    for b in range(len(resp)):
        Y = np.array([response(resp[b], q) for q in calls[b]])
        n, nr, nc = Y.shape
        require(len(pred[b]) == nc, '{} prediction intervals for {} columns of data set {}', len(pred[b]), nc, b)
        for j in range(nc):
            v = s2[rows, {'one': 0, 'batch': b, 'column': col0 + j}[c['s2']]]
            P = np.asarray(pred[b][j])
            require(P.shape == (3, nr), 'prediction intervals of shape {} instead of {}', P.shape, (3, nr))
            s = np.sqrt(v)[:, None]
            y = Y[:, :, j]
            for k, p in enumerate(LIMS_PI):
                q = P[k][None, :]
                if sstype == 0:
                    F = ndtr((q - y) / s)
                elif sstype == 1:
                    r = np.sqrt(np.maximum(q, 0))
                    F = ndtr((r - np.sqrt(y)) / s) - ndtr((-r - np.sqrt(y)) / s)
                else:
                    F = ndtr(np.log(np.maximum(q, 1e-300) / y) / s)
                f = F.mean(axis=0)
                m = abs(f.mean() - p)
                lim = 3.0 / n + 7 * math.sqrt(p * (1 - p) / n / nr) + 7.0 / (n * nr)
                if m > lim:
                    return 'prediction limit {} of data set {} column {} covers {:.4f} of the error distribution (allowed {:.4f})'.format(p, b, j, f.mean(), lim)
        col0 += nc
    return None


def check_plot(c, PI, mcs, resp, cred, pred):
    import matplotlib.pyplot as plt
    plt.close('all')
    kw = {'adddata': c['adddata'], 'addlegend': c['addlegend']}
    if c['plot'] is not None:
        kw['plot_pred_int'] = c['plot']
    ml, dl = 'model', 'data'
    if c['display']:
        ml, dl = 'M!', 'D!'
        kw.update(model_display={'label': ml}, data_display={'label': dl}, interval_display={'alpha': 0.9})
    with sut('plot_prediction_intervals'):
        figs, axes = PI.plot_prediction_intervals(**kw)
    show = pred is not None and c['plot'] not in (False, 'off')
    k = 0
    require(len(figs) == len(axes) == sum(s['cols'] for s in c['sets']), '{} plots', len(axes))
    require(len({id(a) for a in axes}) == len(axes), 'plots share axes')
    for b, r in enumerate(resp):
        for j in range(c['sets'][b]['cols']):
            ax = axes[k]
            k += 1
            if pred is not None:
                want = ([('95% PI', pred[b][j][0], pred[b][j][2])] if show else []) + [('95% CI', cred[b][j][0], cred[b][j][2])]
                med = cred[b][j][1]
            else:
                want = [(lab, cred[b][j][i], cred[b][j][8 - i]) for i, lab in enumerate(['99% CI', '95% CI', '90% CI', '50% CI'])]
                med = cred[b][j][4]
            got = list(ax.collections)
            require([g.get_label() for g in got] == [w[0] for w in want], 'bands {} instead of {}', [g.get_label() for g in got], [w[0] for w in want])
            for g, (lab, lo, hi) in zip(got, want):
                xs, a, z = band(g)
                require(np.allclose(xs, r['x']) and np.allclose(a, np.minimum(lo, hi)) and np.allclose(z, np.maximum(lo, hi)),
                        'band {} of data set {} column {} is not the interval computed', lab, b, j)
            ls = list(ax.lines)
            require([x.get_label() for x in ls] == [ml] + ([dl] if c['adddata'] else []), 'lines {}', [x.get_label() for x in ls])
            require(np.allclose(ls[0].get_xdata(), r['x']) and np.allclose(ls[0].get_ydata(), med), 'the model line is not the median')
            if c['adddata']:
                require(np.array_equal(np.ravel(ls[1].get_xdata()), r['x']) and np.array_equal(np.ravel(ls[1].get_ydata()), r['y'][:, j]),
                        'the data shown for data set {} column {} are not the data', b, j)
            require((ax.get_legend() is not None) == c['addlegend'], 'legend')
            t = ax.get_title()
            if len(resp) > 1:
                require(t == 'Batch #{}, Column #{}'.format(b, j), 'title {} of data set {} column {}', t, b, j)
            elif c['sets'][b]['cols'] > 1:
                require(t == 'Column #{}'.format(j), 'title {} of column {}', t, j)
    plt.close('all')


@mc.st.composite
def strat_run(draw):
    return draw(mc.config(nsimu=(4, 40), methods=('mh', 'dram'), npar=(1, 4), holes=False, priorfun=False))


def check_run(cfg):
    """with the results of a simulation, as returned and after another run"""
    mcs, _, res = mc.run(cfg, observe=False)
    ns = len(cfg['tgt']['b'])
    nb = len(cfg['ndata'])
    keep = {k: np.array(res[k]) for k in ('theta', 'chain', 'parind', 's2chain') if res.get(k) is not None}
    calls = []

    def model(data, q):
        q = np.array(q, dtype=float)
        calls.append(q)
        x = np.asarray(data.xdata[0])
        return x * q.sum() + q[0] + (q ** 2).sum()
    s2 = res.get('s2chain')
    fits = s2 is None or np.asarray(s2).shape[1] in (1, nb)
    if not fits:
        return {'nt': False}
    with sut('prediction intervals of a simulation'):
        mcs.PI.setup_prediction_interval_calculation(results=res, data=mcs.data, modelfunction=model)
        del calls[:]
        mcs.PI.generate_prediction_intervals(nsample=None)
    for k, v in keep.items():
        require(np.array_equal(np.array(res[k]), v), 'prediction intervals modified {} in the results', k)
    chain = np.asarray(res['chain'])
    require(len(calls) == nb * len(chain), '{} model evaluations', len(calls))
    for i, q in enumerate(calls):
        require(np.array_equal(q, mc.full(cfg, chain[i % len(chain)])), 'sample {} evaluated at {}', i, q.tolist())
    ci = mcs.PI.intervals['credible_intervals']
    pos = 2 if mcs.PI.intervals['prediction_intervals'] is None else 0
    for b, m in enumerate(cfg['ndata']):
        x = np.arange(m, dtype=float)
        Y = np.array([x * q.sum() + q[0] + (q ** 2).sum() for q in calls[:len(chain)]])
        lo = np.quantile(Y, 0.05 if pos else 0.025, axis=0)
        require(np.allclose(ci[b][0][pos], lo, rtol=1e-9, atol=1e-9), 'credible limit of data set {}', b)
    return {'nt': True}


@mc.st.composite
def strat_pairs(draw):
    n = draw(mc.st.one_of(mc.st.integers(30, 120), mc.st.integers(400, 900)))
    sets = [{'rows': draw(mc.st.integers(2, 5)), 'cols': draw(mc.st.sampled_from([1, 1, 2, 4]))} for _ in range(draw(mc.st.sampled_from([1, 2, 3, 5])))]
    return {'n': n, 'burnin': draw(mc.st.sampled_from([None, 0, 10, n // 2, n])), 'sets': sets, 'seed': draw(mc.seeds()),
            'share': draw(mc.st.sampled_from([0.3, 0.5, 0.7])), 'sorted': draw(mc.st.booleans()),
            'nsample': draw(mc.st.sampled_from(['default', None, n - 1, 25, 40])), 's2': draw(mc.st.sampled_from(['one', 'batch', 'column']))}


def check_pairs(c):
    """each sample is predicted with the error variance of its own row: rows without error must give exact predictions"""
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    rng = np.random.RandomState(c['seed'])
    burn = c['burnin'] or 0
    n = c['n'] + burn
    exact = rng.rand(n) < c['share']
    if c['sorted']:
        exact[burn:] = np.sort(exact[burn:])
    chain = np.where(exact, 0.0, 100.0)[:, None]
    var = np.where(exact, 0.0, 1.0)
    var[:burn] = 1.0 - var[:burn]
    tot = sum(s['cols'] for s in c['sets'])
    s2 = np.repeat(var[:, None], {'one': 1, 'batch': len(c['sets']), 'column': tot}[c['s2']], axis=1)
    mcs = MCMC(rngseed=1)
    for b, s in enumerate(c['sets']):
        x = np.arange(s['rows'], dtype=float) + 10 * b
        mcs.data.add_data_set(x, np.zeros((s['rows'], s['cols'])))
    calls = []

    def model(data, q):
        calls.append(float(q[0]))
        return np.full(data.ydata[0].shape, float(q[0]))
    res = {'chain': chain, 's2chain': s2, 'parind': [0], 'theta': np.zeros(1), 'local': np.zeros(1), 'model_settings': {'nbatch': len(c['sets'])}}
    np.random.seed(c['seed'])
    PI = PredictionIntervals()
    with sut('prediction intervals'):
        PI.setup_prediction_interval_calculation(results=res, data=mcs.data, modelfunction=model, **({} if c['burnin'] is None else {'burnin': burn}))
        del calls[:]
        PI.generate_prediction_intervals(waitbar=False, **({} if c['nsample'] == 'default' else {'nsample': c['nsample']}))
    f = calls.count(0.0) / len(calls)
    if not 0.15 < f < 0.85:
        raise Unsupported()
    for b, s in enumerate(c['sets']):
        for j in range(s['cols']):
            P = np.asarray(PI.intervals['prediction_intervals'][b][j])
            require(np.abs(P[0]).max() < 1e-9, 'samples without error have prediction limits {} (data set {}, column {}) instead of exactly 0', P[0].tolist(), b, j)
            require((np.abs(P[2] - 100) < 8).all() and (P[2] != 100).all(), 'samples with error variance 1 around 100 have upper prediction limits {}',
                    P[2].tolist())
    return {'nt': True, 'n_samples': len(calls)}


@mc.st.composite
def strat_uniform(draw):
    return {'n': draw(mc.st.integers(2, 40)), 'k': draw(mc.st.integers(1, 39)), 'seed': draw(mc.seeds()), 'burnin': draw(mc.st.sampled_from([None, 0, 7]))}


def check_uniform(c):
    """samples fewer than rows: every row of the chain after burn-in is equally likely"""
    from pymcmcstat.MCMC import MCMC
    from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
    burn = c['burnin'] or 0
    n = c['n']
    ns = min(c['k'], n - 1)
    seen = []
    mcs = MCMC(rngseed=1)
    mcs.data.add_data_set(np.zeros(1), np.zeros(1))

    def model(data, q):
        seen.append(int(q[0]))
        return np.array([q[0]])
    res = {'chain': np.arange(-burn, n, dtype=float)[:, None], 's2chain': None, 'parind': [0], 'theta': np.zeros(1), 'local': np.zeros(1),
           'model_settings': {'nbatch': 1}}
    np.random.seed(c['seed'])
    PI = PredictionIntervals()
    with sut('prediction intervals'):
        PI.setup_prediction_interval_calculation(results=res, data=mcs.data, modelfunction=model, **({} if c['burnin'] is None else {'burnin': burn}))
        del seen[:]
        for _ in range(int(math.ceil(30 * n / ns))):
            PI.generate_prediction_intervals(nsample=ns, waitbar=False)
    require(min(seen) >= 0 and max(seen) < n, 'rows {} to {} of the {} after burn-in used', min(seen), max(seen), n)
    cnt = np.bincount(seen, minlength=n)
    e = len(seen) / n
    p = float(chi2.sf(float(((cnt - e) ** 2 / e).sum()), n - 1))
    require(p > 1e-9, 'rows of the chain are not equally likely to be used: counts {} (p={:.2g})', cnt.tolist(), p)
    return {'nt': n > 2, 'n_draws': len(seen)}


PROP = Prop('C22', 'Prediction intervals', [
    Sub('intervals', strat(), check, 300, 4000, '1-3 data sets of 1-3 columns, sampled subsets, variances per column, data set or shared, burn-in, '
        'flags, plots; non-trivial: more than two samples'),
    Sub('errors', strat(big=True), check, 24, 300, 'the same with 200-400 rows at 60 points, for the distribution of predictions; non-trivial: all'),
    Sub('pairs', strat_pairs(), check_pairs, 200, 3000, 'chains of two kinds of rows, one of them without error, with burn-in and fewer samples than rows'),
    Sub('uniform', strat_uniform(), check_uniform, 40, 800, 'use of rows when fewer samples than rows are requested; non-trivial: more than two rows'),
    Sub('run', strat_run(), check_run, 100, 1200, 'results of generated simulations; non-trivial: error variances fit the data sets'),
], assumptions=['independent variables in one column', 'no local parameters'])
