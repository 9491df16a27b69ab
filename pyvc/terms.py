"""Hash-consed SMT terms with a small, sound simplifier and an SMT-LIB 2.6 printer.

Sorts: Int Bool String Val SeqV (= Seq Val) and arrays AVB (Val->Bool), AVS (Val->SeqV), AVV (Val->Val).
Val is the universal datatype of Python values that live inside containers.
"""
import itertools

INT, BOOL, STR, VAL, SEQ = 'Int', 'Bool', 'String', 'Val', '(Seq Val)'
AVB, AVS, AVV = '(Array Val Bool)', '(Array Val (Seq Val))', '(Array Val Val)'

_tab = {}


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, lift(o)) if self.sort == INT else concat(self, lift(o))

    def __radd__(self, o):
        return lift(o) + self

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __neg__(self):
        return sub(I(0), self)

    def __le__(self, o):
        return le(self, lift(o))

    def __lt__(self, o):
        return lt(self, lift(o))

    def __ge__(self, o):
        return le(lift(o), self)

    def __gt__(self, o):
        return lt(lift(o), self)

    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool: %r' % (self,))


_ids = itertools.count()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id = op, args, sort, next(_ids)
        _tab[key] = t
    return t


def lift(x):
    if isinstance(x, T):
        return x
    if x is True or x is False:
        return TRUE if x else FALSE
    if isinstance(x, int):
        return I(x)
    if isinstance(x, str):
        return S(x)
    if isinstance(x, bytes):
        return S(x.decode('latin-1'))
    raise TypeError(repr(x))


def I(n):
    return mk('const', (int(n),), INT)


def S(s):
    return mk('const', (s,), STR)


TRUE = mk('const', (True,), BOOL)
FALSE = mk('const', (False,), BOOL)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


_fresh = itertools.count()


def var(name, sort):
    return mk('var', (name,), sort)


def fresh(name, sort):
    return mk('var', ('%s!%d' % (name, next(_fresh)),), sort)


def app(f, sort, *args):
    """Application of an uninterpreted (or spec) function."""
    return mk('app', (f,) + tuple(lift(a) for a in args), sort)


# ---- booleans
def Not(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), BOOL)


def And(*xs):
    out, seen = [], set()
    for x in xs:
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            y = lift(y)
            for z in (y.args if y.op == 'and' else (y,)):
                if z is FALSE:
                    return FALSE
                if z is TRUE or z.id in seen:
                    continue
                seen.add(z.id)
                out.append(z)
    for z in out:
        if Not(z).id in seen:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', tuple(out), BOOL)


def Or(*xs):
    ys = []
    for x in xs:
        ys.extend(x if isinstance(x, (list, tuple)) else [x])
    return Not(And(*[Not(y) for y in ys])) if len(ys) != 2 else _or2(lift(ys[0]), lift(ys[1]))


def _or2(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if a is Not(b):
        return TRUE
    return mk('or', (a, b), BOOL)


def Implies(a, b):
    return _or2(Not(a), lift(b))


def Iff(a, b):
    return Eq(a, b)


def Ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == BOOL:
        if a is TRUE:
            return _or2(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return _or2(Not(c), a)
        if b is FALSE:
            return And(c, a)
    return mk('ite', (c, a, b), a.sort)


def Eq(a, b):
    a, b = lift(a), lift(b)
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return FALSE
    if a.sort == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
    if a.sort == INT:
        d = sub(a, b)
        if d.op == 'const':
            return TRUE if cval(d) == 0 else FALSE
    if a.sort == VAL and a.op.startswith('V') and b.op.startswith('V'):
        if a.op != b.op:
            return FALSE
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if a.sort in (STR, SEQ):
        r = _eq_concat(a, b)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), BOOL)


def _parts(t):
    return list(t.args) if t.op in ('str.++', 'seq.++') else [t]


def _eq_concat(a, b):
    """Cancel equal prefixes/suffixes of two concatenations."""
    pa, pb = _parts(a), _parts(b)
    if len(pa) == 1 and len(pb) == 1:
        if a.op == 'seq.unit' and b.op == 'seq.unit':
            return Eq(a.args[0], b.args[0])
        return None
    ch = False
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0), pb.pop(0)
        ch = True
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop(), pb.pop()
        ch = True
    # x ++ 'abc...' against y ++ 'xyz...' constants: only handle direct mismatches
    if a.sort == STR and pa and pb and pa[0].op == 'const' and pb[0].op == 'const':
        u, v = cval(pa[0]), cval(pb[0])
        n = min(len(u), len(v))
        if u[:n] != v[:n]:
            return FALSE
    if not ch:
        return None
    s = a.sort
    return Eq(_cat(pa, s), _cat(pb, s))


def _cat(ps, s):
    if s == STR:
        return concat(*ps)
    return seqcat(*ps)


# ---- integers: linear normal form kept as ('+', ...) with int coefficients via ('*', k, t)
def _lin(t):
    if t.op == 'const':
        return {}, cval(t)
    if t.op == '+':
        c, k = {}, 0
        for a in t.args:
            ca, ka = _lin(a)
            k += ka
            for x, n in ca.items():
                c[x] = c.get(x, 0) + n
        return c, k
    if t.op == '*' and t.args[0].op == 'const':
        ca, ka = _lin(t.args[1])
        n = cval(t.args[0])
        return {x: n * m for x, m in ca.items()}, n * ka
    return {t: 1}, 0


def _unlin(c, k):
    items = sorted(((x, n) for x, n in c.items() if n != 0), key=lambda p: p[0].id)
    ts = [x if n == 1 else mk('*', (I(n), x), INT) for x, n in items]
    if k != 0 or not ts:
        ts.append(I(k))
    return ts[0] if len(ts) == 1 else mk('+', tuple(ts), INT)


def add(*xs):
    c, k = {}, 0
    for x in xs:
        cx, kx = _lin(lift(x))
        k += kx
        for y, n in cx.items():
            c[y] = c.get(y, 0) + n
    return _unlin(c, k)


def sub(a, b):
    ca, ka = _lin(lift(a))
    cb, kb = _lin(lift(b))
    c = dict(ca)
    for y, n in cb.items():
        c[y] = c.get(y, 0) - n
    return _unlin(c, ka - kb)


def mul(a, b):
    a, b = lift(a), lift(b)
    if a.op == 'const':
        c, k = _lin(b)
        n = cval(a)
        return _unlin({x: n * m for x, m in c.items()}, n * k)
    if b.op == 'const':
        return mul(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('*', (a, b), INT)


def _nonneg(t):
    if t.op == 'const':
        return cval(t) >= 0
    return t.op in ('str.len', 'seq.len')


def _range(t):
    """(least, greatest) value known from the operator, None for unbounded"""
    if t.op in ('str.len', 'seq.len'):
        return 0, None
    if t.op == 'mod' and t.args[1].op == 'const' and cval(t.args[1]) > 0:
        return 0, cval(t.args[1]) - 1
    return None, None


def le(a, b):
    a, b = lift(a), lift(b)
    c, k = _lin(sub(b, a))
    if not c:
        return TRUE if k >= 0 else FALSE
    lo, hi = k, k
    for x, n in c.items():
        a1, b1 = _range(x)
        lo = None if lo is None or (a1 if n > 0 else b1) is None else lo + n * (a1 if n > 0 else b1)
        hi = None if hi is None or (b1 if n > 0 else a1) is None else hi + n * (b1 if n > 0 else a1)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk('<=', (a, b), BOOL)


def lt(a, b):
    return Not(le(b, a))


def Min(a, b):
    return Ite(le(a, b), a, b)


def Max(a, b):
    return Ite(le(b, a), a, b)


def div(a, b):
    a, b = lift(a), lift(b)
    if a.op == b.op == 'const' and cval(b) > 0:
        return I(cval(a) // cval(b))
    return mk('div', (a, b), INT)


def mod(a, b):
    a, b = lift(a), lift(b)
    if a.op == b.op == 'const' and cval(b) > 0:
        return I(cval(a) % cval(b))
    return mk('mod', (a, b), INT)


# ---- strings
EMPTY = S('')


def concat(*xs):
    out = []
    for x in xs:
        x = lift(x)
        for y in (x.args if x.op == 'str.++' else (x,)):
            if y is EMPTY:
                continue
            if out and out[-1].op == 'const' and y.op == 'const':
                out[-1] = S(cval(out[-1]) + cval(y))
                continue
            # substr(s,0,n) ++ substr(s,n,len-n)  ->  s   needs side conditions; left to the solver
            out.append(y)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else mk('str.++', tuple(out), STR)


def slen(s):
    s = lift(s)
    if s.op == 'const':
        return I(len(cval(s)))
    if s.op == 'str.++':
        return add(*[slen(x) for x in s.args])
    return mk('str.len', (s,), INT)


def substr(s, i, n):
    """SMT-LIB str.substr: from i, n characters ('' when out of range)."""
    s, i, n = lift(s), lift(i), lift(n)
    if s.op == 'const' and i.op == 'const' and n.op == 'const':
        a, b = cval(i), cval(n)
        if a < 0 or a >= len(cval(s)) or b <= 0:
            return EMPTY
        return S(cval(s)[a:a + b])
    if n.op == 'const' and cval(n) <= 0:
        return EMPTY
    if i.op == 'const' and cval(i) == 0 and n is slen(s):
        return s
    if i is slen(s):
        return EMPTY
    if s.op == 'str.++':
        # drop whole leading parts when i is a constant number of constant chars or the exact length of a prefix
        acc = I(0)
        parts = list(s.args)
        for j in range(len(parts)):
            if j and acc is i:
                return substr(concat(*parts[j:]), 0, n)
            acc = add(acc, slen(parts[j]))
        if i.op == 'const' and cval(i) == 0:
            acc = I(0)
            for j in range(len(parts)):
                acc = add(acc, slen(parts[j]))
                if acc is n:
                    return concat(*parts[:j + 1])
        if i.op == 'const' and parts[0].op == 'const' and 0 < cval(i) <= len(cval(parts[0])):
            return substr(concat(S(cval(parts[0])[cval(i):]), *parts[1:]), 0, n)
    if i.op == 'const' and cval(i) == 0 and _covers(n, s):
        return s
    return mk('str.substr', (s, i, n), STR)


def _covers(n, s):
    r = le(slen(s), n)
    return r is TRUE


def suffix_from(s, i):
    return substr(s, i, sub(slen(s), i))


def indexof(s, t, i):
    s, t, i = lift(s), lift(t), lift(i)
    if s.op == t.op == i.op == 'const':
        k = cval(i)
        if k < 0 or k > len(cval(s)):
            return I(-1)
        return I(cval(s).find(cval(t), k))
    return mk('str.indexof', (s, t, i), INT)


def contains(s, t):
    s, t = lift(s), lift(t)
    if s.op == t.op == 'const':
        return TRUE if cval(t) in cval(s) else FALSE
    if t is EMPTY or s is t:
        return TRUE
    if s.op == 'str.++' and t in s.args:
        return TRUE
    return mk('str.contains', (s, t), BOOL)


def prefixof(p, s):
    p, s = lift(p), lift(s)
    if p.op == s.op == 'const':
        return TRUE if cval(s).startswith(cval(p)) else FALSE
    if p is EMPTY or p is s:
        return TRUE
    if s.op == 'str.++':
        if s.args[0] is p:
            return TRUE
        if s.args[0].op == 'const' and p.op == 'const' and len(cval(s.args[0])) >= len(cval(p)):
            return TRUE if cval(s.args[0]).startswith(cval(p)) else FALSE
    return mk('str.prefixof', (p, s), BOOL)


def suffixof(p, s):
    p, s = lift(p), lift(s)
    if p.op == s.op == 'const':
        return TRUE if cval(s).endswith(cval(p)) else FALSE
    if p is EMPTY or p is s:
        return TRUE
    if s.op == 'str.++':
        if s.args[-1] is p:
            return TRUE
        if s.args[-1].op == 'const' and p.op == 'const' and len(cval(s.args[-1])) >= len(cval(p)):
            return TRUE if cval(s.args[-1]).endswith(cval(p)) else FALSE
    return mk('str.suffixof', (p, s), BOOL)


def replace_all(s, a, b):
    s, a, b = lift(s), lift(a), lift(b)
    if s.op == a.op == b.op == 'const' and cval(a):
        return S(cval(s).replace(cval(a), cval(b)))
    return mk('str.replace_all', (s, a, b), STR)


def char_at(s, i):
    return substr(s, i, 1)


def to_code(s):
    s = lift(s)
    if s.op == 'const':
        return I(ord(cval(s))) if len(cval(s)) == 1 else I(-1)
    return mk('str.to_code', (s,), INT)


# regular expressions: opaque SMT text
def in_re(s, re_text):
    return mk('in_re', (lift(s), re_text), BOOL)


# ---- Val
VNONE = mk('VNone', (), VAL)
_ctor = {'VB': ('vb', BOOL), 'VI': ('vi', INT), 'VS': ('vs', STR), 'VO': ('vo', INT)}


def VB(b):
    return mk('VB', (lift(b),), VAL)


def VI(i):
    return mk('VI', (lift(i),), VAL)


def VS(s):
    return mk('VS', (lift(s),), VAL)


def VO(i):
    return mk('VO', (lift(i),), VAL)


def VP(a, b):
    return mk('VP', (a, b), VAL)


def sel(name, v):
    ctor, i, sort = {'vb': ('VB', 0, BOOL), 'vi': ('VI', 0, INT), 'vs': ('VS', 0, STR), 'vo': ('VO', 0, INT),
                     'p1': ('VP', 0, VAL), 'p2': ('VP', 1, VAL)}[name]
    if v.op == ctor:
        return v.args[i]
    return mk(name, (v,), sort)


def is_ctor(c, v):
    if v.op in ('VNone', 'VB', 'VI', 'VS', 'VO', 'VP'):
        return TRUE if v.op == c else FALSE
    return mk('is', (c, v), BOOL)


# ---- sequences
SEMPTY = mk('seq.empty', (), SEQ)


def unit(v):
    assert v.sort == VAL
    return mk('seq.unit', (v,), SEQ)


def seqcat(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'seq.++' else (x,)):
            if y is not SEMPTY:
                out.append(y)
    if not out:
        return SEMPTY
    return out[0] if len(out) == 1 else mk('seq.++', tuple(out), SEQ)


def seqlen(s):
    if s is SEMPTY:
        return I(0)
    if s.op == 'seq.unit':
        return I(1)
    if s.op == 'seq.++':
        return add(*[seqlen(x) for x in s.args])
    return mk('seq.len', (s,), INT)


def nth(s, i):
    i = lift(i)
    if i.op == 'const' and s.op in ('seq.unit', 'seq.++'):
        k = cval(i)
        for p in _parts(s):
            if p.op == 'seq.unit':
                if k == 0:
                    return p.args[0]
                k -= 1
            else:
                break
        else:
            pass
    if s.op == 'seq.++' and s.args[-1].op == 'seq.unit' and i is sub(seqlen(s), 1):
        return s.args[-1].args[0]
    return mk('seq.nth', (s, i), VAL)


def seqsub(s, i, n):
    i, n = lift(i), lift(n)
    if n.op == 'const' and cval(n) <= 0:
        return SEMPTY
    if i.op == 'const' and cval(i) == 0 and n is seqlen(s):
        return s
    if i.op == 'const' and s.op == 'seq.++' and cval(i) > 0 and s.args[0].op == 'seq.unit':
        return seqsub(seqcat(*s.args[1:]), sub(i, 1), n)
    return mk('seq.extract', (s, i, n), SEQ)


# ---- arrays
def select(a, k):
    while a.op == 'store':
        e = Eq(a.args[1], k)
        if e is TRUE:
            return a.args[2]
        if e is FALSE:
            a = a.args[0]
            continue
        break
    if a.op == 'constarr':
        return a.args[0]
    return mk('select', (a, k), {AVB: BOOL, AVS: SEQ, AVV: VAL}[a.sort])


def store(a, k, v):
    if a.op == 'store' and a.args[1] is k:
        a = a.args[0]
    return mk('store', (a, k, v), a.sort)


def constarr(sort, v):
    return mk('constarr', (v,), sort)


# ---- traversal, printing
def subterms(ts):
    seen, out = set(), []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(t.args)
    return out


def subst(t, m, cache=None):
    """Simultaneous substitution of terms (rebuilding through smart constructors)."""
    cache = {} if cache is None else cache
    if t in m:
        return m[t]
    if t.id in cache:
        return cache[t.id]
    if t.op in ('const', 'var'):
        r = t
    else:
        args = tuple(subst(a, m, cache) if isinstance(a, T) else a for a in t.args)
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t.op, args, t.sort)
    cache[t.id] = r
    return r


def rebuild(op, args, sort):
    f = _builders.get(op)
    return f(*args) if f else mk(op, args, sort)


_builders = {
    'not': Not, 'and': And, 'or': Or, 'ite': Ite, '=': Eq, '+': add, '*': mul, '<=': le,
    'str.++': concat, 'str.len': slen, 'str.substr': substr, 'str.indexof': indexof, 'str.contains': contains,
    'str.prefixof': prefixof, 'str.suffixof': suffixof, 'str.replace_all': replace_all, 'seq.++': seqcat,
    'seq.len': seqlen, 'seq.nth': nth, 'seq.extract': seqsub, 'seq.unit': unit, 'select': select,
    'div': div, 'mod': mod, 'str.to_code': to_code, 'store': store,
}


def _esc(s):
    out = []
    for c in s:
        o = ord(c)
        if c == '"':
            out.append('""')
        elif c == '\\' or o < 32 or o > 126:
            out.append('\\u{%x}' % o)
        else:
            out.append(c)
    return '"' + ''.join(out) + '"'


smt_string = _esc


def atom(t):
    if t.op == 'const':
        v = cval(t)
        if v is True or v is False:
            return 'true' if v else 'false'
        if isinstance(v, int):
            return str(v) if v >= 0 else '(- %d)' % -v
        return _esc(v)
    if t.op == 'var':
        return '|%s|' % t.args[0]
    if t.op == 'seq.empty':
        return '(as seq.empty (Seq Val))'
    if t.op == 'VNone':
        return 'VNone'
    return None


def show(t, depth=12):
    a = atom(t)
    if a is not None:
        return a
    if depth == 0:
        return '...'
    if t.op == 'app':
        return '(%s)' % ' '.join([t.args[0]] + [show(x, depth - 1) for x in t.args[1:]])
    if t.op == 'is':
        return '((_ is %s) %s)' % (t.args[0], show(t.args[1], depth - 1))
    if t.op == 'in_re':
        return '(in_re %s ...)' % show(t.args[0], depth - 1)
    return '(%s)' % ' '.join([t.op] + [show(x, depth - 1) for x in t.args])


PRELUDE = '''(set-logic ALL)
(declare-datatypes ((Val 0)) (((VNone) (VB (vb Bool)) (VI (vi Int)) (VS (vs String)) (VP (p1 Val) (p2 Val)) (VO (vo Int)))))
'''


def smt(asserts, models=False):
    """SMT-LIB text of the conjunction of asserts (shared subterms become definitions)."""
    subs = subterms(asserts)
    decl, ufs = [], {}
    refs = {}
    for t in subs:
        for a in t.args:
            if isinstance(a, T):
                refs[a.id] = refs.get(a.id, 0) + 1
        if t.op == 'var':
            decl.append('(declare-const |%s| %s)' % (t.args[0], t.sort))
        if t.op == 'app':
            ufs[t.args[0]] = '(declare-fun f.%s (%s) %s)' % (t.args[0], ' '.join(a.sort for a in t.args[1:]), t.sort)
    out = [PRELUDE]
    if models:
        out.insert(0, '(set-option :produce-models true)\n')
    out.append('\n'.join(sorted(decl) + [ufs[k] for k in sorted(ufs)]) + '\n')
    names, defs = {}, []

    def pr(t):
        a = atom(t)
        if a is not None:
            return a
        if t.id in names:
            return names[t.id]
        if t.op == 'app':
            r = '(f.%s %s)' % (t.args[0], ' '.join(pr(x) for x in t.args[1:])) if len(t.args) > 1 else 'f.' + t.args[0]
        elif t.op == 'is':
            r = '((_ is %s) %s)' % (t.args[0], pr(t.args[1]))
        elif t.op == 'in_re':
            r = '(str.in_re %s %s)' % (pr(t.args[0]), t.args[1])
        elif t.op == 'constarr':
            r = '((as const %s) %s)' % (t.sort, pr(t.args[0]))
        else:
            r = '(%s %s)' % (t.op, ' '.join(pr(x) for x in t.args))
        if refs.get(t.id, 0) > 1 and len(r) > 20:
            n = '$d%d' % len(names)
            names[t.id] = n
            defs.append('(define-fun %s () %s %s)' % (n, t.sort, r))
            return n
        return r
    import sys
    sys.setrecursionlimit(100000)
    body = []
    for a in asserts:
        r = pr(a)
        body.append('(assert %s)' % r)
    # definitions are created in dependency order
    out.append('\n'.join(defs) + '\n')
    out.append('\n'.join(body) + '\n(check-sat)\n')
    return ''.join(out)
