"""Mutation campaign (development tool): which small changes pass the tests and all relevant checks?

  python3 tools/mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S]
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = '/tmp/mutwork'
CORE = 'C02 C03 C06 C05 C01 C07 C11 C09 C17 C16 C12 C14 C15 C08 C10 C24 C13 C04'.split()
MAP = {
    'MCMC.py': 'C02 C24 C11 C09 C12 C10 C08 C06 C05 C01 C14 C16 C07 C13 C03'.split(),
    'ParallelMCMC.py': ['C13'],
    'propagation.py': ['C20', 'C21'],
    'chain/ChainProcessing.py': 'C09 C12 C13 C19 C10 C11'.split(),
    'chain/ChainStatistics.py': ['C18', 'C19'],
    'plotting/MCMCPlotting.py': ['C23'],
    'plotting/PredictionIntervals.py': ['C22'],
    'plotting/utilities.py': ['C23', 'C22', 'C18', 'C19'],
    'procedures/CovarianceProcedures.py': 'C17 C06 C05 C02 C12 C11 C08'.split(),
    'procedures/ErrorVarianceEstimator.py': ['C07', 'C04', 'C08'],
    'procedures/PriorFunction.py': ['C16', 'C03', 'C04'],
    'procedures/SumOfSquares.py': 'C15 C02 C24 C14 C01'.split(),
    'samplers/Adaptation.py': 'C06 C05 C11 C02 C08 C04'.split(),
    'samplers/DelayedRejection.py': 'C05 C02 C01 C24 C04'.split(),
    'samplers/Metropolis.py': 'C03 C02 C01 C04 C24'.split(),
    'samplers/utilities.py': 'C03 C01 C05 C17 C02 C13'.split(),
    'settings/DataStructure.py': 'C15 C07 C22'.split(),
    'settings/ModelParameters.py': 'C14 C16 C01 C02 C11 C06 C12 C17'.split(),
    'settings/ModelSettings.py': 'C14 C07 C15 C11 C08 C02'.split(),
    'settings/SimulationOptions.py': 'C09 C06 C05 C02 C12 C07 C14 C08'.split(),
    'structures/ResultsStructure.py': 'C12 C02 C06 C08 C11 C17'.split(),
    'structures/ParameterSet.py': 'C02 C03'.split(),
    'utilities/general.py': 'C08 C23 C12 C20 C18 C21 C22'.split(),
    'utilities/NumpyEncoder.py': ['C12'],
    'utilities/progressbar.py': ['C08'],
}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln))
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    tree = ast.parse(src)
    out = []

    def add(a, b, new, what, node):
        out.append((a, b, new, '{}:{} {}: {!r} -> {!r}'.format(os.path.basename(path), node.lineno, what, src[a:b][:70], new[:70])))

    def visit(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else '')
            if nm in ('print', 'message', 'exit', 'warn', 'format', 'deprecation'):
                return
            if nm == 'copy' and not n.args and isinstance(f, ast.Attribute):
                a, b = span(n)
                add(a, b, src[slice(*span(f.value))], 'drop copy', n)
            if nm in ('array', 'asarray', 'copy', 'deepcopy', 'list', 'dict', 'atleast_2d') and len(n.args) == 1 and not isinstance(n.args[0], ast.List):
                a, b = span(n)
                add(a, b, '(' + src[slice(*span(n.args[0]))] + ')', 'drop conversion', n)
            if nm in ('min', 'max', 'floor', 'ceil', 'any', 'all') and isinstance(f, (ast.Name, ast.Attribute)):
                a, b = span(f)
                new = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'any': 'all', 'all': 'any'}[nm]
                add(b - len(nm), b, new, 'function', n)
            for k in n.keywords:        # drop keyword
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            if t in CMP:
                a = span(n.left)[1]
                b = span(n.comparators[0])[0]
                seg = src[a:b]
                op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
                      ast.IsNot: 'is not'}[t]
                if op in seg:
                    for new in CMP[t]:
                        add(a, b, seg.replace(op, new, 1), 'compare', n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            seg = src[a:b]
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}[type(n.op)]
            if op in seg:
                add(a, b, seg.replace(op, BIN[type(n.op)], 1), 'arith', n)
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            seg = src[a:b]
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if o in seg:
                add(a, b, seg.replace(o, w, 1), 'bool', n)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, b = span(n)
            if n.value is True or n.value is False:
                add(a, b, str(not n.value), 'const', n)
            elif isinstance(n.value, (int, float)):
                add(a, b, repr(n.value + 1), 'const', n)
                if n.value not in (0, 1):
                    add(a, b, repr(n.value * 2), 'const', n)
                if n.value == 1:
                    add(a, b, '0', 'const', n)
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                a, b = span(n.lower)
                add(a, b, '', 'slice', n)
            if n.upper is not None:
                a, b = span(n.upper)
                add(a, b, '', 'slice', n)
            elif n.lower is not None:
                a, b = span(n.lower)
                add(a, b, '', 'slice', n)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id in ('ii', 'jj', 'kk', 'isa', 'parii'):
            a, b = span(n.slice)
            for o in ('ii', 'jj', 'kk', 'isa', '0'):
                if o != n.slice.id and (o == '0' or any(isinstance(m, ast.Name) and m.id == o for m in ast.walk(fn[-1]))):
                    add(a, b, o, 'index', n)
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            a, b = span(n.test)
            add(a, b, 'not (' + src[a:b] + ')', 'negate', n)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            simple = isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or not isinstance(n.targets[0], ast.Name) or True
            if simple and fn:
                a, b = span(n)
                add(a, b, 'pass', 'delete', n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            a, b = span(n)
            add(a, b, src[slice(*span(n.operand))], 'sign', n)
        isf = isinstance(n, (ast.FunctionDef,))
        if isf:
            fn.append(n)
            for c in n.body:
                visit(c)
            for c in n.args.defaults:
                visit(c)
            fn.pop()
        else:
            for c in ast.iter_child_nodes(n):
                visit(c)
    fn = []
    for c in tree.body:
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            visit(c)
    res, seen = [], set()
    for a, b, new, what in out:
        m = src[:a] + new + src[b:]
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m, path, 'exec')
        except SyntaxError:
            continue
        res.append((what, m))
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


local = threading.local()
cnt = [0]
lock = threading.Lock()
BASE = json.load(open('/opt/vp/BASELINE.json'))
NAMES = set(next(BASE[k] for k in ('stable', 'passed', 'passing', 'tests') if k in BASE))


def slot():
    if not hasattr(local, 'd'):
        with lock:
            cnt[0] += 1
            local.d = os.path.join(WORK, 'w%d' % cnt[0])
        shutil.rmtree(local.d, ignore_errors=True)
        os.makedirs(local.d)
        sh(['cp', '-a', REPO, local.d + '/repo'])
        t = open('/opt/vp/test.sh').read().replace('/repo', local.d + '/repo').replace('/opt/vp/cache/mpl', local.d + '/mpl')
        t = t.replace('-m pytest -q', '-m pytest -q --maxfail=9').replace('--timeout=300', '--timeout=20')
        open(local.d + '/test.sh', 'w').write(t)
    return local.d


def one(job):
    f, what, text = job
    d = slot()
    p = os.path.join(d, 'repo', 'pymcmcstat', f)
    orig = open(os.path.join(REPO, 'pymcmcstat', f)).read()
    open(p, 'w').write(text)
    try:
        try:
            sh(['bash', d + '/test.sh', d + '/out.json'], timeout=200)
            passed = set(json.load(open(d + '/out.json'))['passed'])
        except (subprocess.TimeoutExpired, OSError, ValueError):
            return dict(file=f, what=what, status='tests')
        if NAMES - passed:
            return dict(file=f, what=what, status='tests')
        for prop in MAP[f]:
            try:
                r = sh(['bash', os.path.join(HERE, 'check.sh'), prop, '--workers', '1'], timeout=400,
                       env=dict(os.environ, VP_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick', VP_OUT=d, VP_SCALE=SCALE))
            except subprocess.TimeoutExpired:
                return dict(file=f, what=what, status='timeout', by=prop)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return dict(file=f, what=what, status='caught', by=prop)
            if r.returncode != 0:
                return dict(file=f, what=what, status='rc%d' % r.returncode, by=prop, out=r.stdout[-300:])
        return dict(file=f, what=what, status='MISSED')
    finally:
        open(p, 'w').write(orig)


def main():
    global SCALE
    a = sys.argv[1:]
    opt = lambda k, dflt: a[a.index(k) + 1] if k in a else dflt
    SCALE = opt('--scale', '0.25')
    files = opt('--files', ','.join(MAP)).split(',')
    jobs = []
    for f in files:
        for what, text in mutants(os.path.join(REPO, 'pymcmcstat', f)):
            jobs.append((f, what, text))
    random.Random(int(opt('--seed', '1'))).shuffle(jobs)
    n = int(opt('--sample', '0'))
    skip = int(opt('--skip', '0'))
    jobs = jobs[skip:skip + n] if n else jobs
    if '--list' in a:
        from collections import Counter
        print(Counter(j[0] for j in jobs), len(jobs))
        return
    with open(a[0], 'a') as out, ThreadPoolExecutor(int(opt('--jobs', '7'))) as ex:
        for r in ex.map(one, jobs):
            out.write(json.dumps(r) + '\n')
            out.flush()


main()
