"""Discharging obligations with cvc5 and z3 (separate processes, in parallel)."""
import concurrent.futures
import os
import re
import subprocess
import tempfile
import threading
import time

from . import terms as t
from .values import Unsupported

CVC5 = 'cvc5'
Z3 = '/usr/bin/z3-new' if os.path.exists('/usr/bin/z3-new') else 'z3-new'

AXIOMS = {}      # uninterpreted / spec function name -> fn(*args) -> list of formulas true of that application
FUEL = 2
RLIMIT = 150000      # cvc5 resource units per nominal second
Z3_RLIMIT = 1000000
STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0, 'z3': 0, 'simplifier': 0}
LEMMAS = False       # use the lemmas of lemmas/strings.lean (Contract.lemmas)
DEADLINE = None      # generation stops at this time
WORKERS = 8
_lock = threading.Lock()
_cache = {}


def axiom(name):
    def d(f):
        AXIOMS[name] = f
        return f
    return d


def with_axioms(fs, fuel=None):
    """Add, for every application of a function that has axioms, their instances (to a fixed depth)."""
    fuel = FUEL if fuel is None else fuel
    out = list(fs)
    done = set()
    frontier = list(fs)
    defs = {}
    for f in fs:        # what a sequence is made of, so that the axioms of a function see it
        if f.op == '=' and f.args[0].sort == t.SEQ:
            for a, b in (f.args, f.args[::-1]):
                if a.op == 'var' and b.op == 'seq.++' and any(y.op == 'seq.unit' for y in b.args):
                    defs.setdefault(a, b)
    for _ in range(fuel):
        new = []
        for x in t.subterms(frontier):
            if x.op == 'app' and x.id not in done:
                done.add(x.id)
                ax = AXIOMS.get(x.args[0])
                if ax and defs and x.sort != t.SEQ:
                    y = t.rebuild('app', tuple(seq_def(z, defs) if isinstance(z, t.T) else z for z in x.args), x.sort)
                    if y is not x:
                        new.append(t.Eq(x, y))
                        new.extend(a for a in ax(*y.args[1:]) if a is not t.TRUE)
                if ax:
                    new.extend(a for a in ax(*x.args[1:]) if a is not t.TRUE)
        if not new:
            break
        out.extend(new)
        frontier = new
    return out


def seq_def(x, defs):
    """a sequence with the variables in it replaced by what they are made of"""
    if x.sort != t.SEQ:
        return x
    if x.op == 'var':
        return defs.get(x, x)
    if x.op == 'seq.++':
        return t.seqcat(*[defs.get(y, y) for y in x.args])
    return x


def _run(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 2)
        return p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)


def _verdict(out):
    for line in out.splitlines():
        line = line.strip()
        if line in ('sat', 'unsat', 'unknown'):
            return line
    if 'timeout' in out or 'interrupted' in out:
        return 'unknown'
    return 'error'


def cvc5(text, timeout, extra=()):
    # the limit is a resource limit, so that a verdict does not depend on the load of the machine
    return _run([CVC5, '--strings-exp', '--rlimit=%d' % int(timeout * RLIMIT), '--tlimit=%d' % int(timeout * 10000 + 10000)] + list(extra),
                text, timeout * 10 + 10)


def z3(text, timeout):
    return _run([Z3, 'rlimit=%d' % int(timeout * Z3_RLIMIT), '-T:%d' % int(timeout * 10 + 10), '-smt2'], text, timeout * 10 + 10)


def symbols(f, memo={}):
    r = memo.get(f.id)
    if r is None:
        r = frozenset(x.args[0] for x in t.subterms([f]) if x.op == 'var')
        memo[f.id] = r
    return r


def relevant(pc, goal, depth):
    """The hypotheses connected to the goal through at most `depth` shared-symbol steps."""
    syms = set(symbols(goal))
    keep = [False] * len(pc)
    for _ in range(depth):
        add = set()
        for i, p in enumerate(pc):
            if not keep[i] and (symbols(p) & syms or not symbols(p)):
                keep[i] = True
                add |= symbols(p)
        if not add - syms:
            break
        syms |= add
    return [p for i, p in enumerate(pc) if keep[i]]


def check(fs, timeout, solvers=('cvc5', 'z3')):
    """sat / unsat / unknown of a conjunction."""
    fs = [f for f in fs if f is not t.TRUE]
    if any(f is t.FALSE for f in fs):
        return 'unsat', 'simplifier'
    if DEADLINE and time.time() > DEADLINE:
        raise Unsupported('no time left')
    key = (tuple(sorted(f.id for f in fs)), solvers)
    with _lock:
        hit = _cache.get(key)
    if hit and (hit[0] != 'unknown' or hit[2] >= timeout):
        return hit[0], hit[1]
    text = t.smt(fs)
    t0 = time.time()
    res, who = 'unknown', ''
    # short attempts of both solvers first: many obligations that are hard for one are immediate for the other
    stages = [('cvc5', min(timeout, 0.15)), ('z3', min(timeout, 0.5))] if timeout >= 0.15 else []
    if timeout > 2:
        stages += [('cvc5', 1), ('z3', 2)]
    stages.append(('cvc5', timeout))
    if 'z3' in solvers:
        stages.append(('z3', timeout))
    for s, lim in stages:
        out = cvc5(text, lim) if s == 'cvc5' else z3(text, lim)
        v = _verdict(out)
        if v == 'error':
            if s == 'z3':
                continue        # a construct z3 does not read
            raise RuntimeError('%s: %s\n%s' % (s, out[:500], text[:3000]))
        if v in ('sat', 'unsat'):
            res, who = v, s
            break
    with _lock:
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        _cache[key] = (res, who, timeout)
    return res, who


QUICK = False        # paths need not be shown infeasible: look at what the last condition is directly about first


def feasible(pc, timeout=0.4):
    if QUICK and pc:
        fs = with_axioms(relevant(list(pc[:-1]), pc[-1], 1) + [pc[-1]], 1)
        r, _ = check(fs, 0.15, ('cvc5',))
        if r == 'unsat':
            return False
        r, _ = check(with_axioms(pc, 1), 0.05 if r == 'sat' else 0.15, ('cvc5',))
        return r != 'unsat'
    fs = with_axioms(pc, 1)
    r, _ = check(fs, timeout, ('cvc5',))
    return r != 'unsat'


def under(pc, goal):
    """the goal with every fact of the path replaced by its truth value"""
    m, todo = {}, list(pc)
    while todo:
        f = todo.pop()
        if f.op == 'and':
            todo.extend(f.args)
        elif f.op == 'not':
            m[f.args[0]] = t.FALSE
        elif f.op != 'const':
            m[f] = t.TRUE
    return t.subst(goal, m)


def facts(pc):
    """the facts of a path with what is known to be true or false propagated into the disjunctions"""
    out, m = list(pc), {}
    for _ in range(3):
        flat, todo, n = [], list(reversed(out)), len(m)
        while todo:
            f = todo.pop()
            if f.op == 'and':
                todo.extend(reversed(f.args))
                continue
            flat.append(f)
            if f.op == 'not':
                m[f.args[0]] = t.FALSE
            elif f.op == '=':
                a, b = f.args
                if b.op == 'const':
                    a, b = b, a
                if a.op == 'const' and b.op == 'var':
                    m[b] = a
            elif f.op not in ('const', 'or', 'ite'):
                m[f] = t.TRUE
        out = [t.subst(f, m) if f.op in ('or', 'ite', '=>') else f for f in flat]
        if len(m) == n and out == flat:
            break
    return out


def age(x):
    """how young the youngest variable of a term is"""
    n = 0
    for v in symbols(x):
        k = v.rsplit('!', 1)[-1]
        n = max(n, int(k) if k.isdigit() else 0)
    return n


def rules(fs):
    """equations between concatenations of variables, older to younger"""
    out = []
    for f in fs:
        if f.op == '=' and f.args[0].sort == t.STR:
            a, b = f.args
            if age(a) > age(b):
                a, b = b, a
            la, lb = t._parts(a), t._parts(b)
            if LEMMAS and not all(x.op == 'var' for x in la):
                la, lb = lb, la
            if all(x.op == 'var' for x in la) and (len(la) > 1 or len(lb) > 1) and not set(la) & set(lb):
                out.append((tuple(la), tuple(lb)))
    return out


def rewrite(x, rs, cache):
    r = cache.get(x.id)
    if r is not None:
        return r
    if x.op in ('const', 'var'):
        r = x
    else:
        args = tuple(rewrite(a, rs, cache) if isinstance(a, t.T) else a for a in x.args)
        r = x if all(p is q for p, q in zip(args, x.args)) else t.rebuild(x.op, args, x.sort)
    if r.sort == t.STR:
        parts = tuple(t._parts(r))
        for _ in range(12):
            for la, lb in rs:
                hit = next((i for i in range(len(parts) - len(la) + 1) if all(p is q for p, q in zip(parts[i:i + len(la)], la))), None)
                if hit is not None:
                    parts = parts[:hit] + lb + parts[hit + len(la):]
                    break
            else:
                break
        r = t.concat(*parts) if parts else t.EMPTY
    cache[x.id] = r
    return r


def ends_of(u, fs):
    """the substrings of u up to its end: [(n, y)]"""
    out = []
    for x in t.subterms(fs):
        if x.op == 'str.substr' and x.args[0] is u and x.args[1] is not t.I(0) and t.add(x.args[1], x.args[2]) is t.slen(u):
            out.append((x.args[1], x))
    return out


def places(goal, fs):
    """The goal with the first place of a word in u ++ z replaced by what is known of it when the word is (or is not) in u, and the
    facts used for that: lemmas front, cut, cut_contains and cut_bound of lemmas/strings.lean."""
    known = {}
    for f in fs:
        pos = f.op != 'not'
        g = f if pos else f.args[0]
        if g.op == 'str.contains' and g.args[0].op != 'const':
            known.setdefault(g.args[1], []).append((g.args[0], pos))
    if not known:
        return [(goal, [])]
    extra, m, cuts = [], {}, {}
    for x in t.subterms([goal]):
        if x.op == 'str.contains' or x.op == 'str.indexof' and x.args[2] is t.I(0):
            s, b = x.args[0], x.args[1]
            for u, pos in known.get(b, ()):
                ps, pu = tuple(t._parts(s)), tuple(t._parts(u))
                if len(ps) <= len(pu) or not all(p is q for p, q in zip(ps, pu)):
                    continue
                z = t.concat(*ps[len(pu):])
                if pos:
                    m[x] = t.TRUE if x.op == 'str.contains' else t.indexof(u, b, 0)
                    if x.op == 'str.indexof':
                        m[t.substr(s, 0, x)] = t.substr(u, 0, m[x])
                    break
                for n, y in ends_of(u, fs + [goal]):
                    side = t.And(t.le(0, n), t.le(n + t.slen(b), t.slen(u)), t.lt(0, t.slen(b)))
                    if check(with_axioms(relevant(fs, t.Not(side), 3) + [t.Not(side)], 1), 2, ('cvc5',))[0] != 'unsat':
                        continue
                    c = cuts.get((u, n))
                    if c is None:
                        c = cuts[u, n] = t.fresh('front', t.STR), t.fresh('back', t.STR)
                        m[t.substr(u, 0, n)], m[y] = c
                        extra += [t.Eq(u, t.concat(*c)), t.Eq(t.slen(c[0]), n), t.Eq(t.slen(c[1]), t.slen(u) - n), t.Eq(c[0], t.substr(u, 0, n)), t.Eq(c[1], y)]
                    m[s] = t.concat(c[0], c[1], z)
                    has, j = t.contains(t.concat(c[1], z), b), t.indexof(t.concat(c[1], z), b, 0)
                    m[x] = has if x.op == 'str.contains' else t.Ite(has, t.slen(c[0]) + j, t.I(-1))
                    extra.append(t.Implies(has, t.And(t.le(0, j), t.lt(t.slen(c[1]), j + t.slen(b)))))
                    break
    if m:
        goal = under(fs, t.subst(goal, m))
    branches = [(goal, extra)]
    for (u, n), c in cuts.items():        # the word is behind the cut, or it is not
        for x in t.subterms([goal]):
            if x.op == 'str.contains' and x.args[1] in known and tuple(t._parts(x.args[0]))[:1] == (c[1],):
                s, b = x.args
                p, q = t.fresh('before', t.STR), t.fresh('after', t.STR)
                new = []
                for g, e in branches:
                    new.append((t.subst(g, {x: t.FALSE, t.indexof(s, b, 0): t.I(-1)}), e + [t.Not(x)]))
                    g = t.subst(g, {x: t.TRUE, t.indexof(s, b, 0): t.slen(p)})
                    g = t.subst(g, {s: t.concat(p, q), t.concat(c[0], s): t.concat(c[0], p, q)})
                    new.append((g, [t.subst(f, {x: t.TRUE, t.indexof(s, b, 0): t.slen(p)}) for f in e] + [
                        t.Eq(s, t.concat(p, q)), t.prefixof(b, q), t.Eq(t.slen(p), t.indexof(s, b, 0))]))
                branches = new
                break
    return branches


def prove(pc, goal, timeout=20, quick=False):
    """('proved'|'refuted'|'unknown', solver)"""
    if goal is t.TRUE:
        return 'proved', 'simplifier'
    neg = t.Not(goal)
    if any(p is goal for p in pc) or any(p is t.FALSE for p in pc):
        return 'proved', 'simplifier'
    goal = under(pc, goal)
    if goal is t.TRUE:
        return 'proved', 'simplifier'
    fs = facts(pc)
    rs = rules(fs)
    if rs:
        g = under(fs, rewrite(goal, rs, {}))
        if g is t.TRUE:
            return 'proved', 'simplifier'
        branches = places(g, fs) if LEMMAS else [(g, [])]
        if LEMMAS or g is not goal:
            for g, extra in branches:
                if g is t.TRUE:
                    continue
                r, s = check(with_axioms(relevant(fs + extra, t.Not(g), 2) + [t.Not(g)], FUEL), timeout if LEMMAS else 1,
                             ('cvc5', 'z3') if LEMMAS else ('cvc5',))
                if r != 'unsat':
                    break
            else:
                return 'proved', 'cvc5'
    neg = t.Not(goal)
    verdicts = []
    plan = [(4, min(timeout, 3), FUEL, ('cvc5',)), (2, min(timeout, 2), FUEL, ('cvc5',)), (1, min(timeout, 2), 1, ('cvc5',)),
            (99, timeout, FUEL, ('cvc5', 'z3'))]
    if quick:
        plan = [(2, 1, FUEL, ('cvc5',)), (99, 2, 1, ('cvc5', 'z3')), (99, timeout, FUEL, ('cvc5', 'z3'))]
    for depth, tm, fuel, who in plan:
        hyps = relevant(list(pc), neg, depth) if depth < 99 else list(pc)
        if len(hyps) == len(pc) and depth < 99 and verdicts:
            pass
        fs = with_axioms(hyps + [neg], fuel)
        r, s = check(fs, tm, who)
        if r == 'unsat':
            return 'proved', s
        verdicts.append(r)
        if r == 'sat' and len(hyps) == len(pc):
            return 'refuted', s
    return ('refuted' if verdicts[-1] == 'sat' else 'unknown'), ''


def model(pc, goal, terms_wanted, timeout=10):
    """Values of the wanted terms in a counter-model of pc -> goal, or None."""
    fs = with_axioms(list(pc) + [t.Not(goal)], 1)
    # the wanted terms must be declared: tie them in
    extra = [t.Eq(w, w) for w in terms_wanted]
    text = t.smt(fs + [t.mk('=', (w, w), t.BOOL) for w in terms_wanted], models=True)
    names = [(w, t.atom(w) or None) for w in terms_wanted]
    text += ''.join('(get-value (%s))\n' % n for w, n in names if n)
    for s in ('cvc5', 'z3'):
        out = cvc5(text, timeout) if s == 'cvc5' else z3(text, timeout)
        if _verdict(out) == 'sat':
            return parse_values(out)
    return None


def unescape(s):
    s = s.replace('""', '"')
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def parse_values(out):
    vals = {}
    for m in re.finditer(r'\(\((\|[^|]*\|)\s+("(?:[^"]|"")*"|\(- \d+\)|-?\d+|true|false)\)\)', out):
        v = m.group(2)
        if v.startswith('"'):
            r = unescape(v[1:-1])
        elif v in ('true', 'false'):
            r = v == 'true'
        else:
            r = int(v.replace('(- ', '-').rstrip(')'))
        vals[m.group(1).strip('|')] = r
    return vals


def parallel(jobs, n=None):
    """Run thunks in parallel threads (each waits on a solver process)."""
    jobs = list(jobs)
    if len(jobs) <= 1:
        return [j() for j in jobs]
    with concurrent.futures.ThreadPoolExecutor(n or WORKERS) as ex:
        return list(ex.map(lambda j: j(), jobs))
