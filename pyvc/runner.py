"""Contracts run in processes of their own (one per pre-state of a contract), with limits on the time."""
import os
import pickle
import signal
import subprocess
import tempfile
import time
import traceback

from . import contract, solve
from . import terms as t
from .sym import Engine, Obligation
from .values import Unsupported


class Done(object):
    """a discharged (or failed) obligation without its terms"""

    def __init__(self, o):
        self.name, self.result, self.solver, self.time = o.name, o.result, o.solver, o.time
        self.trace = [str(x) for x in o.trace][-12:]
        self.goal = str(o.goal)[:1500] if o.result != 'proved' else ''


class Plain(object):
    def __init__(self, c):
        self.name, self.func = c.name, c.func
        self.obligations, self.unsupported = [], []
        self.trusted, self.used, self.inlined = set(), set(), set()
        self.paths = self.loops = 0
        self.stats = {}

    @property
    def failed(self):
        return [o for o in self.obligations if o.result != 'proved']

    def add(self, other):
        self.obligations += other.obligations
        self.unsupported += other.unsupported
        self.trusted |= other.trusted
        self.used |= other.used
        self.inlined |= other.inlined
        self.paths += other.paths
        self.loops = max(self.loops, other.loops)
        for k in other.stats:
            self.stats[k] = self.stats.get(k, 0) + other.stats[k]


def one(ast, table, c, pick, gen_end, end, enough):
    out = Plain(c)
    solve.DEADLINE = gen_end
    r = contract.generate(ast, table, c, pick)
    solve.DEADLINE = None
    out.unsupported = list(r.unsupported)
    contract.discharge([r], end=end, enough=enough)
    if any(o.result == 'skipped' for o in r.obligations) and not [o for o in r.obligations if o.result not in ('proved', 'skipped')]:
        out.unsupported.append('%s: not all obligations could be tried in the time given' % c.name)
    out.obligations = [Done(o) for o in r.obligations if o.result != 'skipped']
    out.trusted, out.used, out.inlined = set(map(str, r.trusted)), set(map(str, r.used)), set(map(str, r.inlined))
    out.paths, out.loops = r.paths, r.loops
    out.stats = dict(solve.STATS)
    return out


LEMMAS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas', 'strings.lean')


def lemma_file(limit=120):
    """the lemmas about texts that the solver stage `places` uses, accepted by Lean: Done or None"""
    t0 = time.time()
    try:
        with open(LEMMAS) as f:
            text = f.read()
        p = subprocess.run(['lean', LEMMAS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, stdin=subprocess.DEVNULL)
    except (OSError, subprocess.TimeoutExpired):
        return None
    if p.returncode or p.stdout.strip() or 'sorry' in text or 'axiom' in text:
        return None
    o = Obligation('lemmas/strings.lean: front, cut, cut_contains, cut_bound', (), t.TRUE)
    o.result, o.solver, o.time = 'proved', 'lean', time.time() - t0
    return Done(o)


def jobs_of(ast, table, owned):
    out = []
    for c in owned:
        n = 1
        if c.func is not None:
            try:
                eng = Engine(ast, table)
                c.by_lookup or eng.func_by_name(c.func)
                n = len(c.setups(eng))
            except Exception:        # reported by generate
                n = 1
        out += [(c, i if n > 1 else None) for i in range(n)]
    return out


def run(ast, table, owned, gen_seconds=400, seconds=600, workers=8, enough=4):
    """{contract name: Plain}, in the order of `owned`"""
    t0 = time.time()
    results = {c.name: Plain(c) for c in owned}
    todo = jobs_of(ast, table, owned)
    todo.sort(key=lambda j: -getattr(j[0], 'cost', 1))
    running = {}
    scratch = tempfile.mkdtemp(prefix='verif-vc-')
    solve.WORKERS = 8 if len(todo) < 3 else 3

    def reap(pid, status):
        c, path = running.pop(pid)
        try:
            with open(path, 'rb') as f:
                x = pickle.load(f)
            results[c.name].add(x)
        except (OSError, EOFError, pickle.UnpicklingError):
            results[c.name].unsupported.append('%s: the verifier stopped (status %d)' % (c.name, status))
        if os.path.exists(path):
            os.unlink(path)
    try:
        while todo or running:
            while todo and len(running) < workers:
                c, pick = todo.pop(0)
                path = os.path.join(scratch, 'r%d' % len(todo))
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        try:
                            x = one(ast, table, c, pick, t0 + gen_seconds, t0 + seconds, enough)
                        except Exception:
                            x = Plain(c)
                            x.unsupported.append('%s: %s' % (c.name, traceback.format_exc()[-600:]))
                        with open(path + '.tmp', 'wb') as f:
                            pickle.dump(x, f)
                        os.rename(path + '.tmp', path)
                    except BaseException:
                        code = 1
                    os._exit(code)
                running[pid] = (c, path)
            for pid in list(running):
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    reap(p, status)
            if time.time() > t0 + seconds + 60:
                for pid in list(running):
                    os.kill(pid, signal.SIGKILL)
                    p, status = os.waitpid(pid, 0)
                    reap(p, status)
                for c, pick in todo:
                    results[c.name].unsupported.append('%s: not tried in the time given' % c.name)
                break
            time.sleep(0.02)
    finally:
        os.rmdir(scratch) if not os.listdir(scratch) else None
    if any(c.lemmas for c in owned):
        o = lemma_file()
        for c in owned:
            if c.lemmas and o:
                results[c.name].obligations.append(o)
            elif c.lemmas:
                results[c.name].obligations = []
                results[c.name].unsupported.append('%s: Lean does not accept lemmas/strings.lean' % c.name)
    return [results[c.name] for c in owned]
