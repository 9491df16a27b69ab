#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--replay FILE]

One property of /repo: (1) the contracts it owns are turned into obligations from the current source and discharged,
(2) the same property is run as a bounded oracle on the real code (validation of what is trusted, stand-in for what
is out of the verifier's reach, and search for a failing input when an obligation fails)."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)

from contracts import index            # noqa: E402

T0 = time.time()


def copy_source(dst):
    """the sources of the package (no compiled classes, no tests) in a scratch folder"""
    src = os.path.join(REPO, 'request_parser')
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        dirs[:] = [x for x in dirs if x not in ('tests', 'file_uploads', '__pycache__')]
        out = os.path.join(dst, 'request_parser', rel)
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f.endswith('.py'):
                shutil.copyfile(os.path.join(d, f), os.path.join(out, f))


def jython(args, cwd, timeout, **kw):
    return subprocess.Popen(['bash', os.path.join(HERE, 'jy', 'run.sh'), '-B'] + args, cwd=cwd, stdin=subprocess.DEVNULL,
                            stdout=kw.get('stdout', subprocess.PIPE), stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, (out or b'').decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        kill(p)
        return None, 'timeout'


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def dump_ast(scratch):
    path = os.path.join(scratch, 'ast.json')
    p = jython([os.path.join(HERE, 'jy', 'dump_ast.py'), os.path.join(scratch, 'src'), path], scratch, 120)
    rc, out = finish(p, 180)
    if not os.path.exists(path):
        raise SystemExit('cannot parse the sources: %s' % out[-2000:])
    return json.load(open(path))


def constants(ast):
    strs, ints = set(), set()

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            if n.get('_') in ('$b', '$u'):
                if 0 < len(n['s']) <= 60:
                    strs.add(n['s'])
                return
            if n.get('_') == '$i':
                ints.add(int(n['n']))
                return
            for v in n.values():
                walk(v)
    for name in ast:
        if name.startswith('request_parser'):
            walk(ast[name])
    return strs, ints


def hints(ast, models=()):
    strs, ints = constants(ast)
    for m in models:
        for v in m:
            if isinstance(v, str):
                strs.add(v)
            elif isinstance(v, int) and not isinstance(v, bool):
                ints.add(v)
    base = {'strs': [], 'ints': []}
    try:
        base = json.load(open(os.path.join(HERE, 'baseline_constants.json')))
    except OSError:
        pass
    bs, bi = set(base['strs']), set(base['ints'])
    return {'strs': sorted(s for s in strs if len(s) <= 20), 'ints': sorted(ints), 'new_strs': sorted(strs - bs), 'new_ints': sorted(ints - bi)}


class Oracle(object):
    """the bounded oracle of one property in several JVMs"""

    def __init__(self, pid, scratch, hint, tag):
        self.pid, self.scratch, self.tag = pid, scratch, tag
        self.hints = os.path.join(scratch, 'hints-%s.json' % tag)
        json.dump(hint, open(self.hints, 'w'))
        self.jobs = []

    def start(self, workers, seed, count, seconds):
        for w in range(workers):
            out = os.path.join(self.scratch, 'out-%s-%d.json' % (self.tag, w))
            work = os.path.join(self.scratch, 'work-%s-%d' % (self.tag, w))
            os.makedirs(work)
            p = jython([os.path.join(HERE, 'jy', 'oracle.py'), os.path.join(self.scratch, 'src'), self.pid, self.hints, out,
                        'soak', str(seed), str(w * count), str(count), str(seconds)], work, seconds + 90)
            self.jobs.append((p, out, seconds))

    def wait(self):
        tot = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'failures': [], 'skipped': 0, 'errors': []}
        end = time.time() + max(j[2] for j in self.jobs) + 120
        for p, out, seconds in self.jobs:
            rc, text = finish(p, max(1, end - time.time()))
            if not os.path.exists(out):
                tot['errors'].append('no result: %s' % text[-800:])
                continue
            r = json.load(open(out))
            if r['error']:
                tot['errors'].append(r['error'][-1500:])
            tot['evaluations'] += r['evaluations']
            tot['nontrivial'].update(r['nontrivial'])
            tot['samples'] += r['samples']
            tot['failures'] += r['failures']
            tot['skipped'] += r['skipped']
        return tot


def write_replay(pid, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, os.getpid()))
    json.dump(data, open(path, 'w'), indent=1)
    return path


def known_findings(pid):
    out = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


LIMITS = {'quick': (400, 560), 'thorough': (500, 640)}


def run_contracts(pid, ast, names, tier):
    from pyvc import builtins_spec, runner       # noqa: F401
    table, owned = {}, []
    for m in index.MODULES:
        mod = importlib.import_module('contracts.' + m)
        for c in mod.CONTRACTS:
            table.setdefault(c.func, []).append(c)
            if c.name in names:
                owned.append(c)
    missing = set(names) - {c.name for c in owned}
    if missing:
        raise SystemExit('no contract %s' % missing)
    owned.sort(key=lambda c: names.index(c.name))
    return runner.run(ast, table, owned, *(LIMITS[tier]))


def replay(pid, path, scratch):
    data = json.load(open(path))
    if data.get('case') is None:
        print('obligation without a failing input: %s' % data.get('obligations'))
        print('run the check again: check.py %s' % pid)
        return 2
    f = os.path.join(scratch, 'case')
    open(f, 'w').write(data['case'])
    out = os.path.join(scratch, 'replay.json')
    work = os.path.join(scratch, 'work')
    os.makedirs(work)
    p = jython([os.path.join(HERE, 'jy', 'oracle.py'), os.path.join(scratch, 'src'), pid, '-', out, 'replay', f], work, 120)
    finish(p, 180)
    r = json.load(open(out))
    for x in r['failures']:
        print('case %s\n%s' % (x['case'], x['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('the case passes')
    return 0


def main(args, scratch):
    pid = args.pid
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = index.PROPS[pid]
    src = os.path.join(scratch, 'src')
    copy_source(src)
    if args.replay:
        return replay(pid, args.replay, scratch)
    ast = dump_ast(scratch)
    quick = args.tier == 'quick'
    count, seconds, workers = spec.get('count', 4000), spec.get('seconds', 25), spec.get('workers', 4)
    if not quick:
        count, seconds, workers = count * 40, spec.get('deep_seconds', 180), 8
    hint = hints(ast)
    oracle = Oracle(pid, scratch, hint, 'base')
    oracle.start(workers, seed, count, seconds)
    results = []
    try:
        results = run_contracts(pid, ast, spec['contracts'], args.tier) if spec['contracts'] else []
    finally:
        found = oracle.wait()
    obligations = [o for r in results for o in r.obligations]
    failed = [o for o in obligations if o.result != 'proved']
    unsupported = [u for r in results for u in r.unsupported]
    if spec['contracts'] and not obligations and not unsupported:
        print('error: no obligations were generated')
        return 3
    failures = found['failures']
    deep = None
    if failed and not failures:
        models = []
        deep = Oracle(pid, scratch, hints(ast, models), 'deep')
        deep.start(8, seed + 7919, 10 ** 9, spec.get('search', 60))
        more = deep.wait()
        failures = more['failures']
        found['evaluations'] += more['evaluations']
        found['nontrivial'] |= more['nontrivial']
        found['errors'] += more['errors']
    known = known_findings(pid)
    fresh, seen_known = [], set()
    for x in failures:
        hit = [k for k in known if k[0] in x['message']]
        if hit:
            seen_known.add(hit[0])
        else:
            fresh.append(x)
    for m, text in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    names = []
    for o in failed:
        if o.name not in names:
            names.append(o.name)
    status = 0
    if fresh:
        x = fresh[0]
        path = write_replay(pid, {'property': pid, 'case': x['case'], 'message': x['message'], 'obligations': names})
        print('failing input: %s' % x['case'][:1500])
        print(x['message'][:1500])
        for n in names[:10]:
            print('failed obligation: %s' % n)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1
    elif failed:
        detail = [{'name': o.name, 'verdict': o.result, 'path': o.trace, 'goal': o.goal}
                  for o in failed[:20]]
        path = write_replay(pid, {'property': pid, 'case': None, 'obligations': names, 'detail': detail})
        for n in names[:10]:
            print('failed obligation: %s' % n)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        status = 1
    elif found['errors'] and not found['evaluations']:
        print('error: the oracle did not run: %s' % found['errors'][0])
        status = 3
    evidence(pid, spec, args, seed, results, obligations, failed, unsupported, found, status)
    print('%s: %d obligations, %d discharged, %d contracts (%d out of reach on this tree), %d bounded runs, %.0f s' % (
        pid, len(obligations), len(obligations) - len(failed), len(results), len([r for r in results if r.unsupported]),
        found['evaluations'], time.time() - T0))
    for u in unsupported:
        print('not verified on this tree (bounded oracle only): %s' % u)
    return status


def evidence(pid, spec, args, seed, results, obligations, failed, unsupported, found, status):
    import importlib
    trusted, inlined, used = set(), set(), set()
    for r in results:
        trusted |= {str(x) for x in r.trusted}
        inlined |= {str(x) for x in r.inlined}
        used |= {str(x) for x in r.used}
    backends = {}
    for o in obligations:
        backends[o.solver or 'none'] = backends.get(o.solver or 'none', 0) + 1
    own = {r.name for r in results}
    cov = {
        'obligations': len(obligations), 'discharged': len(obligations) - len(failed),
        'checker_cmd': 'python3 check.py %s --tier %s (VCs generated from the AST of /repo, discharged by cvc5 and z3)' % (pid, args.tier),
        'trusted_base': sorted(trusted) + ['VC generator pyvc (symbolic execution of Python 2.7 semantics)', 'cvc5 1.1.2, z3'],
        'functions_under_contract': sorted({r.func or r.name for r in results}),
        'functions_entered_without_contract': sorted(inlined),
        'contracts_assumed_here': sorted(u for u in used if u not in own),
        'out_of_reach_on_this_tree': unsupported,
        'paths': sum(r.paths for r in results), 'loops_with_invariant': sum(r.loops for r in results),
        'obligations_by_backend': backends,
        'solver_s': round(sum(r.stats.get('time', 0) for r in results), 1),
        'solver_queries': sum(r.stats.get('queries', 0) for r in results),
        'evaluations': found['evaluations'], 'distinct_nontrivial': len(found['nontrivial']),
        'rule': spec['rule'] if 'rule' in spec else oracle_rule(pid), 'samples': found['samples'][:4] or ['none'],
        'explanation': spec['note'], 'bounded_part': spec.get('bounded', ''),
    }
    ev = {'property': pid, 'tier': args.tier, 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + index.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 1),
          'violations': status if status == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    json.dump(ev, open(path + '.tmp', 'w'), indent=1)
    os.rename(path + '.tmp', path)


def oracle_rule(pid):
    text = open(os.path.join(HERE, 'oracles', pid.lower() + '.py')).read()
    m = re.search(r'^RULE = \(?(.*?)(?:\)\n|\n\n)', text, re.S | re.M)
    return ' '.join(re.findall(r"'([^']*)'", m.group(1))) if m else ''


def guarded():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    args = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        rc[0] = main(args, scratch)
    except SystemExit as e:
        print(e)
        rc[0] = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


rc = [3]
if __name__ == '__main__':
    th = threading.Thread(target=guarded)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
