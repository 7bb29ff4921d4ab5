"""Build and confirm planted bugs (development tool; no check uses it).

  python3 tools/seed.py [ID ...]      specs: tools/bugs/*.py, each calling bug(...)

For every bug: copy /repo to a scratch directory, apply the edits, confirm that
only lines of the original repository change, that the stable tests pass, that
the demonstration passes without and fails with the change; store it under
seeded/<id>/; then run its property's quick check (and, with --all, every
check) against the scratch copy and report.
"""
import difflib
import glob
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = '/tmp/seedwork'
BUGS = {}

COMMON = '''import contextlib, io, os, sys, warnings
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')
from pymcmcstat.MCMC import MCMC


def mk(pars, ss, seed=1, data=None, model=None, prior=None, **opt):
    """an MCMC object: pars are add_model_parameter keywords"""
    m = MCMC(rngseed=seed)
    for d in (data or [(np.arange(5.), np.arange(5.))]):
        m.data.add_data_set(d[0], d[1], **(d[2] if len(d) > 2 else {}))
    o = dict(nsimu=200, method='mh', waitbar=False, verbosity=0)
    o.update(opt)
    m.simulation_options.define_simulation_options(**o)
    m.model_settings.define_model_settings(sos_function=ss, prior_function=prior, **(model or {}))
    for i, p in enumerate(pars):
        m.parameters.add_model_parameter(**{**dict(name='p%d' % i), **p})
    return m


def run(m, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        m.run_simulation(**kw)
    return m.simulation_results.results


def check(cond, msg='property broken'):
    if not cond:
        print('FAIL:', msg)
        sys.exit(1)


'''
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not.  cwd is the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
work="$(mktemp -d)" || exit 2
export MPLCONFIGDIR="$work"
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def bug(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new), ...]; demo: python after COMMON, ends with check(...)s"""
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def original_lines(path):
    """line numbers of HEAD's file that come from the base commit"""
    base = sh(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
    out = sh(['git', '-C', REPO, 'blame', '-s', '-l', '--root', 'HEAD', '--', path]).stdout.splitlines()
    return {i for i, l in enumerate(out) if l.split()[0].lstrip('^')[:38] == base[:38]}


def build(b, allchecks, tier):
    d = os.path.join(WORK, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    copy = os.path.join(d, 'repo')
    os.makedirs(d)
    sh(['cp', '-a', REPO, copy])
    sh(['git', '-C', copy, 'checkout', '-q', '--', '.'])
    res = {'id': b['id'], 'prop': b['prop']}
    try:
        for f, old, new in b['edits']:
            p = os.path.join(copy, 'pymcmcstat', f)
            s = open(p).read()
            if s.count(old) != 1:
                return dict(res, error='%s: %d matches of %r' % (f, s.count(old), old[:60]))
            orig = s.splitlines()
            s2 = s.replace(old, new)
            open(p, 'w').write(s2)
            ok = original_lines('pymcmcstat/' + f)
            n = 0
            for tag, a, bb, *_ in difflib.SequenceMatcher(None, orig, s2.splitlines(), autojunk=False).get_opcodes():
                if tag in ('replace', 'delete'):
                    n += sum(1 for k in range(a, bb) if k in ok)
                    if any(k not in ok for k in range(a, bb)):
                        res['warn'] = 'touches lines of own commits in ' + f
            if n == 0:
                res['warn2'] = 'no original line changed in ' + f
        patch = sh(['git', '-C', copy, 'diff']).stdout
        sd = os.path.join(HERE, 'seeded', b['id'])
        probe = b['demo'] is None                   # only asks whether the check notices; not kept
        if not probe:
            tmp = os.path.join(d, 'demo')
            os.makedirs(tmp)
            open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(tmp, 'demo.py'), 'w').write(COMMON + b['demo'].strip('\n') + "\nprint('ok')\n")
            os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
            r0 = sh(['bash', os.path.join(tmp, 'demo.sh')], cwd=REPO)
            r1 = sh(['bash', os.path.join(tmp, 'demo.sh')], cwd=copy)
            res['demo'] = (r0.returncode, r1.returncode)
            if r0.returncode != 0 or r1.returncode == 0:
                return dict(res, error='demo: clean %d %s / patched %d %s' % (r0.returncode, r0.stdout[-600:],
                                                                              r1.returncode, r1.stdout[-600:]))
        t = open('/opt/vp/test.sh').read().replace('/repo', copy)
        t = t.replace('/opt/vp/cache/mpl', os.path.join(d, 'mpl'))
        open(os.path.join(d, 'test.sh'), 'w').write(t)
        sh(['bash', os.path.join(d, 'test.sh'), os.path.join(d, 'out.json')])
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = next(base[k] for k in ('stable', 'passed', 'passing', 'tests') if k in base)
        miss = set(names) - set(json.load(open(os.path.join(d, 'out.json')))['passed'])
        if miss:
            return dict(res, error='tests fail: %s' % sorted(miss)[:5])
        if not probe:
            os.makedirs(sd, exist_ok=True)
            open(os.path.join(sd, 'patch.diff'), 'w').write(patch)
            for n in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(tmp, n), sd)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        caught = []
        for prop in (['C%02d' % i for i in range(1, 40)] if allchecks else [b['prop']]):
            if not os.path.exists(os.path.join(HERE, 'pbt', 'props', prop.lower() + '.py')):
                continue
            r = sh(['bash', os.path.join(HERE, 'check.sh'), prop, '--tier', tier],
                   env=dict(os.environ, VP_REPO=copy, VERIF_SEED='1', VERIF_TIER=tier, VP_OUT=d))
            if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout:
                caught.append(prop)
            elif r.returncode != 0:
                caught.append('%s?rc%d' % (prop, r.returncode))
        res['caught'] = caught
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    allchecks = '--all' in sys.argv
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    ns = {'bug': bug, 'probe': lambda id, prop, *edits: bug(id, prop, edits, None, '', '')}
    probes = '--probes' in sys.argv                 # /tmp/probes/*.py: probe(id, property, (file, old, new), ...)
    for f in sorted(glob.glob('/tmp/probes/*.py' if probes else os.path.join(HERE, 'tools', 'bugs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), ns)
    todo = [b for i, b in BUGS.items() if not args or i in args]
    rp = os.path.join(HERE, 'tools', 'seed_results.json')
    log = json.load(open(rp)) if os.path.exists(rp) else {}
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda b: build(b, allchecks, tier), todo):
            print(json.dumps(r), flush=True)
            if 'caught' in r and BUGS[r['id']]['demo'] is not None:
                log[r['id']] = r['caught']
    json.dump(log, open(rp, 'w'), indent=1, sort_keys=True)
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        rows.append('| {} | {} | {} | {} |'.format(i, m['property'], m['needs'], ', '.join(log.get(i, [])) or 'missed'))
    dp = os.path.join(HERE, 'DESIGN.md')
    d = open(dp).read()
    a, b = d.index('<!-- seeds -->'), d.index('<!-- /seeds -->')
    open(dp, 'w').write(d[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + d[b:])


main()
