"""python -m pbt.run <PROPERTY> [--tier T] [--replay FILE]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

from . import boot


QUICK = 3          # cases per unit of a sub-check's quick count


def known_entries(pid):
    path = os.path.join(boot.VERIF, 'KNOWN_FINDINGS.json')
    with open(path) as f:
        return [e for e in json.load(f)['known'] if e['property'] == pid]


def load(pid):
    boot.start()
    import numpy  # noqa: F401
    mod = importlib.import_module('pbt.props.' + pid.lower())
    import pymcmcstat
    assert pymcmcstat.__file__.startswith(boot.REPO + os.sep), pymcmcstat.__file__
    return mod.PROP


def worker(args):
    from . import engine
    try:
        try:
            prop = load(args.property)
        except (Exception, SystemExit) as exc:
            from .engine import boot as b
            tb = traceback.extract_tb(exc.__traceback__)
            raise
        out = []
        nsubs = len(prop.subs)
        for sub in prop.subs:
            if args.only and sub.name != args.only:
                continue
            total = QUICK * sub.quick if args.tier == 'quick' else sub.thorough
            total = max(1, int(total * float(os.environ.get('VP_SCALE', '1'))))     # development only
            n = total // args.nworkers + (1 if args.worker < total % args.nworkers else 0)
            budget = (240.0 if args.tier == 'quick' else 1200.0) / max(1, nsubs)
            st = engine.run_sub(sub, n, engine.derive_seed(args.seed, prop.pid, sub.name, args.worker),
                                budget, args.worker == 0, 40.0 if args.tier == 'quick' else 120.0)
            if st['failure']:
                first, t1 = st['failure'], time.time()
                for case in [first['case']] + st.pop('others', []):
                    msg = engine.reproduce(sub, case)
                    if msg is not None or time.time() - t1 > 60:
                        break
                if msg is None:
                    st['error'] = 'failure did not reproduce: {}'.format(first)
                    st['failure'] = None
                else:
                    st['failure'] = {'case': case, 'message': msg}
            out.append(st)
            if st['failure'] or st['error']:
                break
        res = {'subs': out}
    except BaseException:
        res = {'crash': traceback.format_exc()}
    with open(args.out, 'w') as f:
        json.dump(res, f, default=lambda o: o.item() if hasattr(o, 'item') else str(o))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--worker', type=int, default=-1)
    ap.add_argument('--nworkers', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    if args.worker >= 0:
        return worker(args)
    scratch = boot.start()
    if args.replay:
        from . import engine
        prop = load(args.property)
        with open(args.replay) as f:
            rep = json.load(f)
        sub = [s for s in prop.subs if s.name == rep['sub']][0]
        try:
            info = engine.run_case(sub, rep['case'])
        except engine.Violation as v:
            print('replayed:', v)
            print('VIOLATION property={} replay={}'.format(args.property, args.replay))
            return 1
        print('replay did not fail', info)
        return 0
    t0 = time.time()
    ncpu = os.cpu_count() or 1
    W = args.workers or max(1, min(6, ncpu - 1))
    procs = []
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    for i in range(W):
        out = os.path.join(scratch, 'w{}.json'.format(i))
        cmd = [sys.executable, '-W', 'ignore', '-m', 'pbt.run', args.property, '--tier', args.tier,
               '--seed', str(args.seed), '--worker', str(i), '--nworkers', str(W), '--out', out]
        if args.only:
            cmd += ['--only', args.only]
        log = open(os.path.join(scratch, 'w{}.log'.format(i)), 'wb')
        procs.append((subprocess.Popen(cmd, cwd=boot.VERIF, env=env, stdout=log, stderr=log,
                                       start_new_session=True), out, log.name))
    hard = t0 + (780 if args.tier == 'quick' else 7200)
    pending = set(range(W))
    results = {}
    stop_at = None
    while pending:
        for i in list(pending):
            p, out, log = procs[i]
            if p.poll() is not None:
                pending.discard(i)
                try:
                    with open(out) as f:
                        results[i] = json.load(f)
                except Exception:
                    with open(log, 'rb') as f:
                        tail = f.read()[-2000:].decode(errors='replace')
                    results[i] = {'crash': 'worker {} ended with {}\n{}'.format(i, p.returncode, tail)}
                if any(s.get('failure') for s in results[i].get('subs', [])) and stop_at is None:
                    stop_at = time.time() + 5
        if pending and (time.time() > hard or (stop_at and time.time() > stop_at)):
            for i in pending:
                try:
                    os.killpg(procs[i][0].pid, 9)
                except OSError:
                    pass
                procs[i][0].wait()
                if i not in results and not stop_at:
                    results[i] = {'crash': 'worker {} exceeded the time limit'.format(i)}
            pending = set()
        if pending:
            time.sleep(0.05)
    return report(args, results, t0)


def report(args, results, t0):
    pid = args.property
    crashes = [r['crash'] for r in results.values() if 'crash' in r]
    subs, failures, errors, known = {}, [], [], []
    for i in sorted(results):
        for st in results[i].get('subs', []):
            a = subs.setdefault(st['name'], dict(evaluations=0, nontrivial=set(), samples=[], discarded=0,
                                                 skipped=0, counters={}, wall_s=0.0))
            a['evaluations'] += st['evaluations']
            a['discarded'] += st['discarded']
            a['skipped'] += st['skipped']
            a['nontrivial'].update(st['nontrivial'])
            a['samples'] += st['samples']
            a['wall_s'] = round(max(a['wall_s'], st['wall']), 2)
            for k, v in st['counters'].items():
                a['counters'][k] = a['counters'].get(k, 0) + v
            if st['failure']:
                failures.append((st['name'], st['failure']))
            if st['error']:
                errors.append('{}: {}'.format(st['name'], st['error']))
            for k in st.get('known', []):
                if k not in known:
                    known.append(k)
    nviol = 0
    code = 0
    if failures:
        nviol = len(failures)
        name, f = min(failures, key=lambda nf: len(json.dumps(nf[1]['case'])))
        os.makedirs(os.path.join(os.environ.get('VP_OUT', boot.VERIF), 'replays'), exist_ok=True)
        path = os.path.join(os.environ.get('VP_OUT', boot.VERIF), 'replays', '{}-{}.json'.format(pid, name))
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'sub': name, 'case': f['case'], 'message': f['message']}, fh,
                      indent=1, sort_keys=True)
        print('{} [{}]: {}'.format(pid, name, f['message']))
        print('case: {}'.format(json.dumps(f['case'], sort_keys=True)[:3000]))
        print('VIOLATION property={} replay={}'.format(pid, path))
        code = 1
    elif crashes or errors:
        for c in crashes + errors:
            print('HARNESS-ERROR', c)
        code = 2
    else:
        listed = {e['id']: e for e in known_entries(pid)}
        for k in known:
            if k not in listed:
                print('HARNESS-ERROR unlisted known finding', k)
                code = 2
            else:
                print('KNOWN-FINDING: property={} {}'.format(pid, listed[k]['what']))
    rules, assumptions = {}, []
    try:
        prop = load(pid)
        rules = {s.name: s.rule for s in prop.subs}
        assumptions = prop.assumptions
    except BaseException:
        pass
    rule = ('Hypothesis draws a structured case per sub-check (seeded from VERIF_SEED, sub-check name and '
            'worker number); a case counts once per distinct case text and only if non-trivial. ')
    rule += ' '.join('[{}] {}'.format(k, v) for k, v in rules.items())
    samples = []
    for name in subs:
        samples += subs[name]['samples'][:2]
    ev = {'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': level(pid),
          'coverage': {
              'evaluations': sum(s['evaluations'] for s in subs.values()),
              'distinct_nontrivial': sum(len(s['nontrivial']) for s in subs.values()),
              'rule': rule,
              'samples': samples,
              'per_subcheck': {k: {'evaluations': v['evaluations'], 'distinct_nontrivial': len(v['nontrivial']),
                                   'discarded': v['discarded'], 'skipped_for_time': v['skipped'],
                                   'wall_s': v['wall_s'], 'counters': v['counters']}
                               for k, v in subs.items()},
              'known_findings_seen': known},
          'wall_s': round(time.time() - t0, 2), 'violations': nviol, 'assumptions': assumptions}
    os.makedirs(os.path.join(os.environ.get('VP_OUT', boot.VERIF), 'evidence'), exist_ok=True)
    tmp = os.path.join(os.environ.get('VP_OUT', boot.VERIF), 'evidence', '.{}.tmp'.format(pid))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(os.environ.get('VP_OUT', boot.VERIF), 'evidence', '{}.json'.format(pid)))
    print('{} {}: {} cases, {} distinct non-trivial, {:.1f} s, exit {}'.format(
        pid, args.tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'],
        time.time() - t0, code))
    return code


def level(pid):
    try:
        with open(os.path.join(boot.VERIF, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == pid:
                    return c['level']
    except Exception:
        pass
    return 'exploration'


if __name__ == '__main__':
    sys.exit(main())
