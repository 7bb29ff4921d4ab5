"""C09: log files hold the simulation."""
import contextlib
import io
import os

import numpy as np

from .. import mc
from ..engine import Prop, Sub, Unsupported, require, sut

NAMES = ['chainfile', 'sschainfile', 's2chainfile', 'covchainfile']


def chains_of(res):
    out = {'chain': np.array(res['chain']), 'sschain': np.array(res['sschain'])}
    if res.get('s2chain') is not None:
        out['s2chain'] = np.array(res['s2chain'])
    return out


def exact(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def compare(want, got, what):
    for k, v in want.items():
        g = got[k]
        require(exact(v, g), '{}: {} differs from the simulation: shapes {} and {}, first difference at row {}', what, k, v.shape,
                np.shape(g), (np.argwhere(~((v == g) | (np.isnan(v) & np.isnan(g))).all(axis=1))[:1].tolist()
                              if np.shape(g) == v.shape else '-'))
    if 's2chain' not in want:
        require(len(got['s2chain']) == 0, '{}: variance chain {} although variance was not updated', what, np.shape(got['s2chain']))


def nsegments(nsimu, savesize):
    """number of pieces: one each time `savesize` steps are complete, and the rest"""
    s = savesize if 0 < savesize <= nsimu else nsimu
    return (nsimu - 1) // s + 1


def check(c):
    from pymcmcstat.chain import ChainProcessing as CP
    cfg = c['cfg']
    if not mc.initial_ok(cfg):
        raise Unsupported()
    files = dict(zip(NAMES, c['files'])) if c['files'] else {}
    ext = [e for e, k in (('h5', 'bin'), ('txt', 'txt')) if c[k]]
    with mc.tmpdir() as d:
        sd = os.path.join(d, *c['dir'].split('/')) if c['absolute'] else c['dir']
        over = dict(save_to_bin=c['bin'], save_to_txt=c['txt'], savesize=c['savesize'], savedir=sd, **files)
        if c['json']:
            over.update(save_to_json=True, results_filename='res.json')
        _, _, res = mc.run(cfg, observe=c['observe'], **over)
        want = chains_of(res)
        require(len(want['chain']) == cfg['nsimu'], 'chain has {} rows for {} simulations', len(want['chain']), cfg['nsimu'])
        for e in ext:
            with sut('reading {} logs'.format(e)):
                got = CP.read_in_savedir_files(sd, extension=e, **files)
            compare(want, got, e + ' logs')
            cov = np.asarray(got['covchain'])
            npar = want['chain'].shape[1]
            nseg = nsegments(cfg['nsimu'], c['savesize'])
            require(cov.shape == (nseg * npar, npar), '{} covariance log has shape {} for {} pieces of {} parameters', e, cov.shape, nseg, npar)
            require(np.allclose(cov[-npar:], res['qcov'], rtol=1e-10, atol=0), '{} covariance log ends with {}, final proposal covariance '
                    'is {}', e, cov[-npar:].tolist(), np.asarray(res['qcov']).tolist())
            with sut('loading results'):
                lo = CP.load_serial_simulation_results(sd, extension=e, json_file='res.json' if c['json'] and c['named'] else None, **files)
            compare(want, lo, 'results loaded from ' + e)
            require(exact(lo['covchain'], cov), 'covariance chain of loaded results differs from the log')
            # the index of pieces covers the simulation
            lf = os.path.join(sd, {'h5': 'binlogfile.txt', 'txt': 'txtlogfile.txt'}[e])
            with open(lf) as f:
                rows = [ln.rstrip('\n').split('\t') for ln in f]
            rng = [(int(r[1]), int(r[2])) for r in rows]
            require(len(rng) == nseg, '{} lists {} pieces instead of {}', os.path.basename(lf), len(rng), nseg)
            nxt = 0
            for a, b in rng:
                require(a == nxt and b >= a, '{} lists pieces {}', os.path.basename(lf), rng)
                nxt = b + 1
            require(nxt == cfg['nsimu'], '{} lists pieces {} for {} simulations', os.path.basename(lf), rng, cfg['nsimu'])
        if ext:
            buf = io.StringIO()
            with sut('print_log_files'):
                with contextlib.redirect_stdout(buf):
                    CP.print_log_files(sd)
            for e in ext:
                with open(os.path.join(sd, {'h5': 'binlogfile.txt', 'txt': 'txtlogfile.txt'}[e])) as f:
                    require(f.read() in buf.getvalue(), 'print_log_files did not show the {} log', e)
        else:
            require(c['json'] or not os.path.exists(sd), 'saving was not requested, but {} was written', sd)
        if not c['absolute']:
            left = [p for p in os.listdir(d) if p != c['dir'].split('/')[0]]
            require(not left, 'files {} written outside the save directory', left)
    moved = len(np.unique(want['chain'], axis=0)) > 1
    return {'nt': bool(ext) and moved and nsegments(cfg['nsimu'], c['savesize']) > 1, 'n_rows': len(want['chain']) * len(ext),
            'n_pieces': nsegments(cfg['nsimu'], c['savesize']) * len(ext)}


@mc.st.composite
def strat(draw, nsimu=(1, 45), **kw):
    cfg = mc.zero_start(draw, draw(mc.config(nsimu=nsimu, **kw)), kinds=('inf',))
    b, t = draw(mc.st.sampled_from([(True, False), (False, True), (True, True), (True, True), (False, False)]))
    n = cfg['nsimu']
    return {'cfg': cfg, 'bin': b, 'txt': t, 'json': draw(mc.st.booleans()), 'named': draw(mc.st.booleans()),
            'savesize': draw(mc.st.one_of(mc.st.sampled_from([0, 1, 2, 3, n, n - 1, n + 1]), mc.st.integers(1, max(1, n)))),
            'files': draw(mc.st.sampled_from([None, None, ['a', 'b', 'c', 'd'], ['chain.v1', 'ss_2', 'x10', 'cov 1'],
                                               ['run.chain', 'run.ss', 'run.s2', 'run.cov'], ['1', '2', '3', '4'],
                                               ['c', 'cc', 'ccc', 'cccc'], ['chain', 'sschain', 's2chain', 'covariance']])),
            'dir': draw(mc.st.sampled_from(['log', 'log', 'a/b/log', 'my logs', 'run1.', 'v1.0/.hidden', 'log ', '~chains', 'x.json', '$HOME'])), 'absolute': draw(mc.st.booleans()),
            'observe': draw(mc.st.booleans())}


@mc.st.composite
def huge(draw):
    c = draw(strat(nsimu=(10020, 12600), npar=(1, 1), holes=False, methods=('mh', 'am'), adaptints=(100, 500)))
    n = c['cfg']['nsimu']
    c['savesize'] = draw(mc.st.sampled_from([0, n, 10001, n - 1, 6000, 5000, 1000, 333]))
    c['bin'], c['txt'] = draw(mc.st.sampled_from([(True, False), (False, True), (True, True)]))
    c['observe'] = False
    return c


PROP = Prop('C09', 'Log files hold the simulation', [
    Sub('logs', strat(), check, 1300, 20000, 'non-trivial: something is saved in more than one piece and the chain moves'),
    Sub('huge', huge(), check, 12, 150, 'over ten thousand rows in a few large pieces', attempts=12),
    Sub('long', strat(nsimu=(100, 260), npar=(1, 2), holes=False), check, 150, 2500, 'as above, over 100 rows (many pieces)'),
], assumptions=['the save directory is fresh or does not exist yet'])
