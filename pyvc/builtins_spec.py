"""Trusted contracts of Python 2.7 builtins and of the external modules the repository uses.

Every entry is an assumption about code outside /repo; the names actually used by a proof are listed in its evidence.
"""
from . import solve, sym, terms as t
from .solve import axiom
from .sym import EXT, EXTATTR, GETATTR, METH, Frame, ext, is_ascii, meth, YieldStop
from .values import *
from .values import Unsupported

B = lambda s: Str(t.S(s), 'b')


def one(st, v):
    return [(st, v)]


def sarg(v):
    if not isinstance(v, Str):
        raise Unsupported('string expected, got %r' % (v,))
    return v


def kk(*vs):
    return 'u' if any(v.k == 'u' for v in vs) else 'b'


# ------------------------------------------------------------------ uninterpreted text functions and their facts
WS_B = '(re.* (re.union (str.to_re " ") (re.range "\\u{9}" "\\u{d}")))'
WSC_B = '(re.union (str.to_re " ") (re.range "\\u{9}" "\\u{d}"))'
WSC_U = ('(re.union (str.to_re " ") (re.range "\\u{9}" "\\u{d}") (re.range "\\u{1c}" "\\u{1f}") (str.to_re "\\u{85}") '
         '(str.to_re "\\u{a0}") (str.to_re "\\u{1680}") (str.to_re "\\u{180e}") (re.range "\\u{2000}" "\\u{200a}") (re.range "\\u{2028}" "\\u{2029}") '
         '(str.to_re "\\u{202f}") (str.to_re "\\u{205f}") (str.to_re "\\u{3000}"))')


def ws(k):
    return WSC_B if k == 'b' else WSC_U


def py_strip(s, k):
    return s.strip(' \t\n\r\x0b\x0c') if k == 'b' else s.strip()


def strip_term(s, k):
    if t.is_const(s):
        return t.S(py_strip(t.cval(s), k))
    return t.app('strip_' + k, t.STR, s)


def _strip_ax(k):
    def ax(s):
        r = t.app('strip_' + k, t.STR, s)
        l, q = t.app('strip_l_' + k, t.STR, s), t.app('strip_r_' + k, t.STR, s)
        W = '(re.* %s)' % ws(k)
        return [t.Eq(s, t.concat(l, r, q)), t.in_re(l, W), t.in_re(q, W),
                t.Or(t.Eq(r, t.EMPTY), t.And(t.Not(t.in_re(t.substr(r, 0, 1), ws(k))),
                                             t.Not(t.in_re(t.substr(r, t.slen(r) - 1, 1), ws(k)))))]
    return ax


solve.AXIOMS['strip_b'] = _strip_ax('b')
solve.AXIOMS['strip_u'] = _strip_ax('u')


def lower_term(s, f='lower'):
    if t.is_const(s):
        return t.S(ascii_case(t.cval(s), f))
    if s.op == 'str.++':
        return t.concat(*[lower_term(x, f) for x in s.args])
    if s.op == 'app' and s.args[0] == f:
        return s
    return t.app(f, t.STR, s)


def ascii_case(s, f):
    return ''.join((c.lower() if f == 'lower' else c.upper()) if ord(c) < 128 else c for c in s)


def _case_ax(f, bad):
    def ax(s):
        r = t.app(f, t.STR, s)
        return [t.Eq(t.slen(r), t.slen(s)), t.Not(t.in_re(r, '(re.++ re.all (re.range %s) re.all)' % bad)),
                t.Implies(t.Not(t.in_re(s, '(re.++ re.all (re.range %s) re.all)' % bad)), t.Eq(r, s))]
    return ax


solve.AXIOMS['lower'] = _case_ax('lower', '"A" "Z"')
solve.AXIOMS['upper'] = _case_ax('upper', '"a" "z"')


def rindex_term(s, c):
    return t.app('rindex', t.INT, s, c)


@solve.axiom('rindex')
def _rindex_ax(s, c):
    r = rindex_term(s, c)
    n = t.slen(c)
    return [t.le(-1, r), t.Iff(t.Eq(r, -1), t.Not(t.contains(s, c))),
            t.Implies(t.le(0, r), t.And(t.le(r + n, t.slen(s)), t.Eq(t.substr(s, r, n), c),
                                        t.Not(t.contains(t.substr(s, r + 1, t.slen(s)), c))))]


def split_term(s, sep):
    return t.app('split', t.SEQ, s, sep)


@solve.axiom('split')
def _split_ax(s, sep):
    r = split_term(s, sep)
    i = t.indexof(s, sep, 0)
    tail = t.substr(s, i + t.slen(sep), t.slen(s))
    return [t.Implies(t.Not(t.contains(s, sep)), t.Eq(r, t.unit(t.VS(s)))),
            t.Implies(t.contains(s, sep), t.And(
                t.Eq(r, t.seqcat(t.unit(t.VS(t.substr(s, 0, i))), split_term(tail, sep))),
                t.Not(t.contains(t.substr(s, 0, i), sep)),
                t.Eq(s, t.concat(t.substr(s, 0, i), sep, tail)))),
            t.Eq(t.seqlen(r), t.app('count', t.INT, s, sep) + 1),
            t.le(1, t.seqlen(r))]


def join_term(sep, seq):
    """sep.join(seq) over a sequence of strings, by cases on the shape of the term (snoc)."""
    if seq is t.SEMPTY:
        return t.EMPTY
    if seq.op == 'seq.unit':
        return t.sel('vs', seq.args[0])
    if seq.op == 'seq.++' and sep is t.EMPTY:
        return t.concat(*[join_term(sep, x) for x in seq.args])
    return t.app('join', t.STR, sep, seq)


@solve.axiom('join')
def _join_ax(sep, seq):
    r = t.app('join', t.STR, sep, seq)
    fs = [t.Implies(t.Eq(seq, t.SEMPTY), t.Eq(r, t.EMPTY))]
    if seq.op == 'seq.++' and seq.args[-1].op == 'seq.unit':
        init = t.seqcat(*seq.args[:-1])
        x = t.sel('vs', seq.args[-1].args[0])
        fs.append(t.Eq(r, t.Ite(t.Eq(init, t.SEMPTY), x, t.concat(join_term(sep, init), sep, x))))
    return fs


@solve.axiom('count')
def _count_ax(s, c):
    return [t.le(0, t.app('count', t.INT, s, c)), t.Iff(t.Eq(t.app('count', t.INT, s, c), 0), t.Not(t.contains(s, c)))]


@solve.axiom('int_str')
def _int_str_ax(i):
    r = t.app('int_str', t.STR, i)
    return [t.in_re(r, '(re.++ (re.opt (str.to_re "-")) (re.+ (re.range "0" "9")))'),
            t.Implies(t.le(0, i), t.Eq(r, t.mk('str.from_int', (i,), t.STR)))]


@solve.axiom('card')
def _card_ax(dom):
    r = t.app('card', t.INT, dom)
    fs = [t.le(0, r), t.Iff(t.Eq(r, 0), t.Eq(dom, t.constarr(t.AVB, t.FALSE)))]
    if dom.op == 'store':
        a, k, v = dom.args
        base = t.app('card', t.INT, a)
        had = t.Ite(t.select(a, k), t.I(1), t.I(0))
        now = t.Ite(v, t.I(1), t.I(0))
        fs.append(t.Eq(r, base - had + now))
    return fs


# ------------------------------------------------------------------ str / unicode methods
@meth('str', 'find')
def _find(eng, st, fr, o, a, kw):
    sub = sarg(a[0])
    start = eng.as_int(a[1]) if len(a) > 1 else t.I(0)
    s = o.t
    if t.is_const(start) and t.cval(start) < 0:
        raise Unsupported('find with negative start')
    if not t.is_const(start) and not eng.entails(st, t.le(0, start)):
        raise Unsupported('find with a start not known to be >= 0')
    if len(a) > 2:
        end = eng.as_int(a[2])
        if not eng.entails(st, t.And(t.le(0, end), t.le(end, t.slen(s)))):
            raise Unsupported('find with end')
        s = t.substr(s, 0, end)
    r = t.indexof(s, sub.t, start)
    fs = []
    if not t.is_const(r):
        fs = [t.le(-1, r), t.Or(t.Eq(r, -1), t.And(t.le(start, r), t.le(r + t.slen(sub.t), t.slen(s))))]
    return one(st.assume(*fs), Int(r))


@meth('str', 'index')
def _index(eng, st, fr, o, a, kw):
    out = []
    for s, v in _find(eng, st, fr, o, a, kw):
        for s2, b in eng.split(s, t.le(0, v.t)):
            out.extend(one(s2, v) if b else eng.raise_(s2, 'ValueError'))
    return out


@meth('str', 'rfind')
def _rfind(eng, st, fr, o, a, kw):
    if len(a) > 1:
        raise Unsupported('rfind bounds')
    return one(st, Int(rindex_term(o.t, sarg(a[0]).t)))


@meth('str', 'count')
def _count(eng, st, fr, o, a, kw):
    s = o.t
    if len(a) == 3:
        lo, hi = eng.slice_bounds(t.slen(s), a[1], a[2])
        s = t.substr(s, lo, hi - lo)
    elif len(a) == 2:
        raise Unsupported('count start')
    if t.is_const(s) and t.is_const(a[0].t):
        return one(st, Int(t.I(t.cval(s).count(t.cval(a[0].t)))))
    return one(st, Int(t.app('count', t.INT, s, sarg(a[0]).t)))


@meth('str', 'startswith')
def _starts(eng, st, fr, o, a, kw):
    xs = a[0].items if isinstance(a[0], Tup) else [a[0]]
    if len(a) > 1:
        raise Unsupported('startswith bounds')
    return one(st, Bool(t.Or(*[t.prefixof(sarg(x).t, o.t) for x in xs])))


@meth('str', 'endswith')
def _ends(eng, st, fr, o, a, kw):
    xs = a[0].items if isinstance(a[0], Tup) else [a[0]]
    if len(a) > 1:
        raise Unsupported('endswith bounds')
    return one(st, Bool(t.Or(*[t.suffixof(sarg(x).t, o.t) for x in xs])))


@meth('str', 'lower', 'upper')
def _case(eng, st, fr, o, a, kw):
    raise Unsupported('case')


METH[('str', 'lower')] = lambda eng, st, fr, o, a, kw: one(st, Str(lower_term(o.t, 'lower'), o.k))
METH[('str', 'upper')] = lambda eng, st, fr, o, a, kw: one(st, Str(lower_term(o.t, 'upper'), o.k))


@meth('str', 'strip')
def _strip(eng, st, fr, o, a, kw):
    if a and not isinstance(a[0], NoneV):
        raise Unsupported('strip of given characters')
    return one(st, Str(strip_term(o.t, o.k), o.k))


@meth('str', 'split')
def _split(eng, st, fr, o, a, kw):
    if not a or isinstance(a[0], NoneV):
        raise Unsupported('split on whitespace')
    sep = sarg(a[0])
    k = kk(o, sep)
    if not t.is_const(sep.t) or sep.t is t.EMPTY:
        if not eng.entails(st, t.Not(t.Eq(sep.t, t.EMPTY))):
            raise Unsupported('split separator')
    if len(a) > 1:
        n = eng.as_int(a[1])
        if not t.is_const(n) or t.cval(n) != 1:
            raise Unsupported('split count')
        out = []
        for s, b in eng.split(st, t.contains(o.t, sep.t)):
            s = s.clone()
            if b:
                i = t.indexof(o.t, sep.t, 0)
                x, y = t.substr(o.t, 0, i), t.substr(o.t, i + t.slen(sep.t), t.slen(o.t) - i - t.slen(sep.t))
                s = s.assume(t.Eq(o.t, t.concat(x, sep.t, y)), t.Not(t.contains(x, sep.t)), t.le(0, i),
                             t.Eq(t.slen(x), i), t.le(i + t.slen(sep.t), t.slen(o.t)))
                out.append((s, alloc(s, Lst([Str(x, k), Str(y, k)]))))
            else:
                out.append((s, alloc(s, Lst([Str(o.t, k)]))))
        return out
    s = st.clone()
    if t.is_const(o.t) and t.is_const(sep.t):
        return one(s, alloc(s, Lst([Str(t.S(x), k) for x in t.cval(o.t).split(t.cval(sep.t))])))
    return one(s, alloc(s, Lst(None, split_term(o.t, sep.t), ('s', k))))


@meth('str', 'rsplit')
def _rsplit(eng, st, fr, o, a, kw):
    sep = sarg(a[0])
    n = eng.as_int(a[1]) if len(a) > 1 else None
    if n is None or not t.is_const(n) or t.cval(n) != 1:
        raise Unsupported('rsplit')
    k = kk(o, sep)
    out = []
    for s, b in eng.split(st, t.contains(o.t, sep.t)):
        s = s.clone()
        if b:
            i = rindex_term(o.t, sep.t)
            x, y = t.substr(o.t, 0, i), t.substr(o.t, i + t.slen(sep.t), t.slen(o.t) - i - t.slen(sep.t))
            s = s.assume(t.Eq(o.t, t.concat(x, sep.t, y)), t.Not(t.contains(y, sep.t)), t.le(0, i),
                         t.Eq(t.slen(x), i))
            out.append((s, alloc(s, Lst([Str(x, k), Str(y, k)]))))
        else:
            out.append((s, alloc(s, Lst([Str(o.t, k)]))))
    return out


@meth('str', 'partition')
def _partition(eng, st, fr, o, a, kw):
    sep = sarg(a[0])
    k = kk(o, sep)
    out = []
    for s, b in eng.split(st, t.contains(o.t, sep.t)):
        if b:
            i = t.indexof(o.t, sep.t, 0)
            x, y = t.substr(o.t, 0, i), t.substr(o.t, i + t.slen(sep.t), t.slen(o.t) - i - t.slen(sep.t))
            s = s.assume(t.Eq(o.t, t.concat(x, sep.t, y)), t.Not(t.contains(x, sep.t)), t.le(0, i),
                         t.Eq(t.slen(x), i))
            out.append((s, Tup((Str(x, k), sep, Str(y, k)))))
        else:
            out.append((s, Tup((o, Str(t.EMPTY, k), Str(t.EMPTY, k)))))
    return out


@meth('str', 'rpartition')
def _rpartition(eng, st, fr, o, a, kw):
    sep = sarg(a[0])
    k = kk(o, sep)
    out = []
    for s, b in eng.split(st, t.contains(o.t, sep.t)):
        if b:
            i = rindex_term(o.t, sep.t)
            x, y = t.substr(o.t, 0, i), t.substr(o.t, i + t.slen(sep.t), t.slen(o.t) - i - t.slen(sep.t))
            s = s.assume(t.Eq(o.t, t.concat(x, sep.t, y)), t.Not(t.contains(y, sep.t)), t.le(0, i), t.Eq(t.slen(x), i))
            out.append((s, Tup((Str(x, k), sep, Str(y, k)))))
        else:
            out.append((s, Tup((Str(t.EMPTY, k), Str(t.EMPTY, k), o))))
    return out


@meth('str', 'replace')
def _replace(eng, st, fr, o, a, kw):
    x, y = sarg(a[0]), sarg(a[1])
    if len(a) > 2 or not t.is_const(x.t) or x.t is t.EMPTY:
        raise Unsupported('replace')
    return one(st, Str(t.replace_all(o.t, x.t, y.t), kk(o, x, y)))


@meth('str', 'join')
def _join(eng, st, fr, o, a, kw):
    x = a[0]
    items = eng.concrete_items(st, x) if not (isinstance(x, Ref) and isinstance(st.o(x), Gen)) else None
    if items is not None:
        res = [(st, Str(t.EMPTY, o.k))]
        for i, v in enumerate(items):
            if not isinstance(v, Str):
                return eng.raise_(st, 'TypeError')
            if i:
                res = eng.bind(res, lambda s, acc: eng.str_cat(s, acc, o))
            res = eng.bind(res, lambda s, acc, v=v: eng.str_cat(s, acc, v))
        return res
    if isinstance(x, Ref) and isinstance(st.o(x), Lst):
        sh = eng.lshape(st, x)
        if sh is None or sh[0] != 's':
            raise Unsupported('join of %r' % (sh,))
        return one(st, Str(join_term(o.t, eng.lseq(st, x)), 'u' if 'u' in (o.k, sh[1]) else 'b'))
    # a generator or an iterator object: accumulate
    s0 = st.clone()
    if o.t is t.EMPTY:
        h = alloc(s0, Env(None, {'$acc': Str(t.EMPTY, o.k)}))

        def add(s, v):
            if not isinstance(v, Str):
                return eng.raise_(s, 'TypeError')
            out = []
            for s1, c in eng.str_cat(s, s.o(h).vars['$acc'], v):
                if isinstance(c, Raise):
                    out.append((s1, c))
                else:
                    s1 = s1.clone()
                    s1.w(h).vars['$acc'] = c
                    out.append((s1, None))
            return out
        res = []
        for s, out in eng.for_value(s0, fr, x, add, lambda s: [(s, None)], lambda s: [(s, None)],
                                    {'_': 'join', 'lineno': None}):
            res.append((s, out if isinstance(out, Raise) else s.o(h).vars['$acc']))
        return res
    return eng.bind(to_list(eng, st, fr, x), lambda s, l: _join(eng, s, fr, o, [l], {}))


ASCII_SUPERSETS = {'ascii', 'us-ascii', 'utf-8', 'utf8', 'iso-8859-1', 'latin-1', 'latin1'}


def codec_of(a, kw, default='ascii'):
    c = kw.get('encoding') or (a[0] if a else None)
    if c is None:
        return default
    if isinstance(c, Str) and t.is_const(c.t):
        return t.cval(c.t).lower()
    return c


def errors_of(a, kw):
    e = kw.get('errors') or (a[1] if len(a) > 1 else None)
    return t.cval(e.t) if e is not None else 'strict'


def codec_term(c):
    return t.S(c) if isinstance(c, str) else c.t


@meth('str', 'encode')
def _encode(eng, st, fr, o, a, kw):
    c, errors = codec_of(a, kw), errors_of(a, kw)
    if not isinstance(c, str):
        return one(st, Str(t.app('encoded', t.STR, o.t, codec_term(c)), 'b'))
    out = []
    for s, b in eng.split(st, is_ascii(o.t)):
        if b:
            out.append((s, Str(o.t, 'b')))
        elif o.k == 'b':
            # Python 2: bytes are first decoded as ASCII
            out.extend(eng.raise_(s, 'UnicodeDecodeError'))
        elif c in ('ascii', 'us-ascii') and errors == 'strict':
            out.extend(eng.raise_(s, 'UnicodeEncodeError'))
        elif errors in ('', ):
            out.extend(eng.raise_(s, 'LookupError'))
        elif c in ('utf-8', 'utf8') or errors != 'strict':
            r = t.app('encoded', t.STR, o.t, t.S(c))
            out.append((s.assume(is_ascii(r)) if c in ('ascii', 'us-ascii') else s, Str(r, 'b')))
        else:
            for s2, ok in eng.split(s, t.app('encodable', t.BOOL, o.t, t.S(c))):
                if ok:
                    out.append((s2, Str(t.app('encoded', t.STR, o.t, t.S(c)), 'b')))
                else:
                    out.extend(eng.raise_(s2, 'UnicodeEncodeError'))
    return out


@meth('str', 'decode')
def _decode(eng, st, fr, o, a, kw):
    c, errors = codec_of(a, kw), errors_of(a, kw)
    if o.k == 'u':
        raise Unsupported('decode of unicode')
    if o.t is t.EMPTY:
        return one(st, Str(t.EMPTY, 'u'))
    if isinstance(c, str) and c in ('iso-8859-1', 'latin-1', 'latin1'):
        return one(st, Str(o.t, 'u'))
    out = []
    conds = eng.split(st, is_ascii(o.t)) if isinstance(c, str) and c in ASCII_SUPERSETS else [(st, False)]
    for s, b in conds:
        if b:
            out.append((s, Str(o.t, 'u')))
        elif isinstance(c, str) and c in ('ascii', 'us-ascii') and errors == 'strict':
            out.extend(eng.raise_(s, 'UnicodeDecodeError'))
        else:
            r = Str(t.app('decoded', t.STR, o.t, codec_term(c)), 'u')
            if errors != 'strict':
                out.append((s, r))
                continue
            for s2, ok in eng.split(s, t.app('decodable', t.BOOL, o.t, codec_term(c))):
                out.extend(one(s2, r) if ok else eng.raise_(s2, 'UnicodeDecodeError'))
    return out


@meth('str', 'format')
def _format(eng, st, fr, o, a, kw):
    if not t.is_const(o.t):
        raise Unsupported('format')
    f, out, cur, i, args = t.cval(o.t), [], '', 0, list(a)
    names = {}
    while i < len(f):
        if f[i] == '{' and f[i + 1:i + 2] == '{' or f[i] == '}' and f[i + 1:i + 2] == '}':
            cur += f[i]
            i += 2
        elif f[i] == '{':
            j = f.index('}', i)
            nm = f[i + 1:j]
            if nm and not nm.isalnum() and '_' not in nm:
                raise Unsupported('format spec')
            out.append(cur)
            cur = ''
            if nm == '':
                out.append(('s', None))
            elif nm.isdigit():
                out.append(('s', int(nm)))
            else:
                if nm not in names:
                    names[nm] = len(args)
                    args.append(kw[nm])
                out.append(('s', names[nm]))
            i = j + 1
        else:
            cur += f[i]
            i += 1
    out.append(cur)
    # positional automatic numbering must not count named ones
    auto, fixed = 0, []
    for p in out:
        if isinstance(p, tuple) and p[1] is None:
            p = (p[0], auto)
            auto += 1
        fixed.append(p)
    return eng.fmt(st, fr, fixed, args, o.k)


@meth('str', 'ljust')
def _ljust(eng, st, fr, o, a, kw):
    return one(st, Str(t.app('ljust', t.STR, o.t, eng.as_int(a[0]), sarg(a[1]).t), o.k))


@meth('str', 'splitlines', 'isalnum', 'isalpha', 'title', 'swapcase', 'translate', 'zfill', 'isspace', 'isupper', 'islower',
      'expandtabs', 'center', 'rjust', 'capitalize', 'rindex', 'istitle')
def _nostr(eng, st, fr, o, a, kw):
    raise Unsupported('string method')


@meth('str', 'isdigit')
def _isdigit(eng, st, fr, o, a, kw):
    if o.k != 'b':
        raise Unsupported('isdigit')
    return one(st, Bool(t.in_re(o.t, '(re.+ (re.range "0" "9"))')))


@meth('tuple', 'index', 'count')
def _tupm(eng, st, fr, o, a, kw):
    raise Unsupported('tuple method')


# ------------------------------------------------------------------ list methods
@meth('list', 'append')
def _append(eng, st, fr, o, a, kw):
    s = st.clone()
    h = s.o(o)
    if h.items is not None and h.view is None:
        s.w(o).items.append(a[0])
        return one(s, NONE)
    s, x = boxed(eng, s, a[0])
    sh = join_shape(eng.lshape(s, o), shape_of(x))
    eng.lset(s, o, t.seqcat(eng.lseq(s, o), t.unit(enc(x))), sh)
    return one(s, NONE)


# Lists inside symbolic sequences are stored by value: the list moves into the sequence and is not usable any more.
def boxed(eng, st, v):
    if isinstance(v, Tup):
        items = []
        for x in v.items:
            st, y = boxed(eng, st, x)
            items.append(y)
        return st, Tup(tuple(items))
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        if st.o(v).view is not None:
            raise Unsupported('list of a dictionary stored in another container')
        s = st.clone()
        x = Val(t.app('boxed', t.VAL, eng.lseq(s, v)), ('L', eng.lshape(s, v) or ('v',)))
        s.heap[v.id] = Moved()
        return s, x
    return st, v


def assoc_step(q):
    if q.op == 'seq.++':
        front, last = t.seqcat(*q.args[:-1]), q.args[-1]
    else:
        front, last = t.SEMPTY, q
    if last.op != 'seq.unit' or last.args[0].op != 'VP':
        return None
    k, v = last.args[0].args
    return (front, k, v.args[1]) if v.op == 'app' and v.args[0] == 'boxed' else None


@axiom('assoc_dom')
def _assoc_dom(q):
    r = t.app('assoc_dom', t.AVB, q)
    if q is t.SEMPTY:
        return [t.Eq(r, t.constarr(t.AVB, t.FALSE))]
    x = assoc_step(q)
    return [t.Eq(r, t.store(t.app('assoc_dom', t.AVB, x[0]), x[1], t.TRUE))] if x else []


@axiom('assoc_map')
def _assoc_map(q):
    r = t.app('assoc_map', t.AVS, q)
    x = assoc_step(q)
    return [t.Eq(r, t.store(t.app('assoc_map', t.AVS, x[0]), x[1], x[2]))] if x else []


@meth('list', 'extend')
def _extend(eng, st, fr, o, a, kw):
    h = st.o(o)
    x = a[0]
    items = eng.concrete_items(st, x)
    if items is not None and h.items is not None and h.view is None:
        s = st.clone()
        s.w(o).items.extend(items)
        return one(s, NONE)
    if items is not None or (isinstance(x, Ref) and isinstance(st.o(x), Lst)):
        s = st.clone()
        if items is not None:
            seq = t.seqcat(*[t.unit(enc(v)) for v in items]) if items else t.SEMPTY
            sh = None
            for v in items:
                sh = join_shape(sh, shape_of(v))
        else:
            seq, sh = eng.lseq(s, x), eng.lshape(s, x)
        eng.lset(s, o, t.seqcat(eng.lseq(s, o), seq), join_shape(eng.lshape(s, o), sh))
        return one(s, NONE)
    # a generator or iterator
    out = []
    for s, r in eng.for_value(st, fr, x, lambda s, v: eng.lift(_append(eng, s, fr, o, [v], {})), lambda s: [(s, None)],
                              lambda s: [(s, None)], {'_': 'extend', 'lineno': None}):
        out.append((s, r if isinstance(r, Raise) else NONE))
    return out


@meth('list', 'pop')
def _pop(eng, st, fr, o, a, kw):
    h = st.o(o)
    if h.items is not None:
        i = t.cval(eng.as_int(a[0])) if a else -1
        s = st.clone()
        try:
            v = s.w(o).items.pop(i)
        except IndexError:
            return eng.raise_(st, 'IndexError')
        return one(s, v)
    seq, sh = eng.lseq(st, o), eng.lshape(st, o)
    i = t.cval(eng.as_int(a[0])) if a else -1
    if i not in (0, -1):
        raise Unsupported('pop index')
    out = []
    for s, b in eng.split(st, t.Eq(seq, t.SEMPTY)):
        if b:
            out.extend(eng.raise_(s, 'IndexError'))
            continue
        x, r = t.fresh('el', t.VAL), t.fresh('rest', t.SEQ)
        s = s.assume(t.Eq(seq, t.seqcat(t.unit(x), r) if i == 0 else t.seqcat(r, t.unit(x))), wf(x, sh)).clone()
        eng.lset(s, o, r, sh)
        out.append((s, dec(x, sh)))
    return out


@meth('list', 'index')
def _lindex(eng, st, fr, o, a, kw):
    h = st.o(o)
    if h.items is None or len(a) != 1:
        raise Unsupported('list.index')
    eqs = [eng.equal(st, x, a[0]) for x in h.items]
    r = t.I(len(eqs))
    for i in range(len(eqs) - 1, -1, -1):
        r = t.Ite(eqs[i], t.I(i), r)
    out = []
    for s, b in eng.split(st, t.Or(*eqs)):
        out.extend(one(s, Int(r)) if b else eng.raise_(s, 'ValueError'))
    return out


@solve.axiom('is_int')
def _is_int_ax(s, base):
    if base is not t.I(10):
        return []
    d = t.in_re(s, sym.DECIMAL)
    return [t.Implies(d, t.And(t.app('is_int', t.BOOL, s, base), t.le(0, t.app('int_of', t.INT, s, base))))]


@meth('list', 'count', 'insert', 'remove', 'sort', 'reverse')
def _nolist(eng, st, fr, o, a, kw):
    h = st.o(o)
    raise Unsupported('list method')


# ------------------------------------------------------------------ dict methods
@meth('dict', 'get')
def _dget(eng, st, fr, d, a, kw):
    dflt = a[1] if len(a) > 1 else NONE
    out = []
    for s, v in eng.dict_get(st, fr, d, a[0]):
        if isinstance(v, Raise):
            out.append((s, dflt))
        else:
            out.append((s, v))
    return out


@meth('dict', '__getitem__')
def _dgi(eng, st, fr, d, a, kw):
    return eng.dict_get(st, fr, d, a[0])


@meth('dict', '__setitem__')
def _dsi(eng, st, fr, d, a, kw):
    return eng.dict_set(st, d, a[0], a[1])


@meth('dict', '__delitem__')
def _ddi(eng, st, fr, d, a, kw):
    return eng.dict_del(st, d, a[0])


@meth('dict', '__contains__', 'has_key')
def _dci(eng, st, fr, d, a, kw):
    return one(st, Bool(eng.dict_has(st, d, a[0])))


def dict_iter(eng, st, fr, d, what):
    o = st.o(d)

    def pick(s, k):
        if what == 'keys':
            return s, k
        s, v = eng.dict_value(s, d, k)
        return s, (v if what == 'values' else Tup((k, v)))
    if o.mode == 'c':
        s = st.clone()
        return one(s, alloc(s, Lst([k if what == 'keys' else v if what == 'values' else Tup((k, v)) for k, v in o.items])))

    def run(eng2, s, on_yield):
        def each(s1, k):
            s2, x = pick(s1, k)
            return on_yield(s2, x)
        return eng2.for_dict(s, fr, d, each, lambda s1: [(s1, None)], {'_': 'dict', 'lineno': None})
    s = st.clone()
    return one(s, alloc(s, Gen(run, 'dict.' + what)))


METH[('dict', 'items')] = METH[('dict', 'iteritems')] = lambda eng, st, fr, d, a, kw: dict_iter(eng, st, fr, d, 'items')
METH[('dict', 'keys')] = METH[('dict', 'iterkeys')] = METH[('dict', '__iter__')] = \
    lambda eng, st, fr, d, a, kw: dict_iter(eng, st, fr, d, 'keys')
METH[('dict', 'values')] = METH[('dict', 'itervalues')] = lambda eng, st, fr, d, a, kw: dict_iter(eng, st, fr, d, 'values')


@meth('dict', 'pop')
def _dpop(eng, st, fr, d, a, kw):
    out = []
    for s, v in eng.dict_get(st, fr, d, a[0]):
        if isinstance(v, Raise):
            out.extend([(s, a[1])] if len(a) > 1 else [(s, v)])
        else:
            for s2, r in eng.dict_del(s, d, a[0]):
                out.append((s2, r if isinstance(r, Raise) else v))
    return out


@meth('dict', 'clear')
def _dclear(eng, st, fr, d, a, kw):
    s = st.clone()
    w = s.w(d)
    if w.mode == 'c':
        w.items = []
    else:
        for i, x in list(s.heap.items()):
            if isinstance(x, Lst) and x.view is not None and x.view[0] == d.id:
                s.heap[i] = Lst(None, eng.lseq(s, Ref(i)), s.o(d).vshape, None)
        w = s.w(d)
        w.dom = t.constarr(t.AVB, t.FALSE)
    return one(s, NONE)


@meth('dict', 'setdefault')
def _dsetdefault(eng, st, fr, d, a, kw):
    dflt = a[1] if len(a) > 1 else NONE
    out = []
    for s, v in eng.dict_get(st, fr, d, a[0]):
        if isinstance(v, Raise):
            for s2, r in eng.dict_set(s, d, a[0], dflt):
                out.append((s2, r if isinstance(r, Raise) else dflt))
        else:
            out.append((s, v))
    return out


@meth('dict', 'popitem')
def _dpopitem(eng, st, fr, d, a, kw):
    o = st.o(d)
    if o.mode == 'c':
        raise Unsupported('popitem of a concrete dict')
    out = []
    for s, b in eng.split(st, t.Eq(o.dom, t.constarr(t.AVB, t.FALSE))):
        if b:
            out.extend(eng.raise_(s, 'KeyError'))
            continue
        k = t.fresh('key', t.VAL)
        s = s.assume(t.select(o.dom, k), wf(k, o.kshape) if o.kshape else t.TRUE)
        s, v = eng.dict_value(s, d, dec(k, o.kshape))
        for s2, r in eng.dict_del(s, d, dec(k, o.kshape)):
            out.append((s2, Tup((dec(k, o.kshape), v))))
    return out


@meth('dict', 'update', 'copy', '__len__', '__repr__')
def _dupdate(eng, st, fr, d, a, kw):
    raise Unsupported('dict method')


METH[('dict', '__len__')] = lambda eng, st, fr, d, a, kw: one(st, Int(eng.dlen(st, d)))
METH[('dict', '__repr__')] = lambda eng, st, fr, d, a, kw: one(st, Str(t.fresh('repr', t.STR), 'b'))


@ext('dict.fill')
def _dict_fill(eng, st, fr, a, kw):
    """dict.__init__ on an existing dictionary object"""
    d = a[0]
    if kw:
        raise Unsupported('dict keywords')
    if len(a) == 1:
        return one(st, NONE)
    src = a[1]
    if isinstance(src, Tup) and not src.items:
        return one(st, NONE)
    sd = eng.dict_of(st, src)
    if sd is not None:
        o = st.o(sd)
        if o.mode == 'c':
            res = [(st, NONE)]
            for k, v in o.items:
                res = eng.bind(res, lambda s, _, k=k, v=v: eng.dict_set(s, d, k, v))
            return res
        tgt = st.o(d)
        if tgt.mode == 'c' and not tgt.items:
            s = st.clone()
            w = s.w(d)
            w.mode, w.dom, w.map, w.kshape, w.vshape = o.mode, o.dom, o.map, o.kshape, o.vshape
            if o.mode == 'l':       # the inner lists are those of the source
                w.n = s.w(sd).n = 'shared'
            return one(s, NONE)
        raise Unsupported('dict update')
    if isinstance(src, Ref) and isinstance(st.o(src), Lst) and st.o(src).items is None and st.o(src).view is None:
        sh, tgt = st.o(src).shape, st.o(d)
        if sh is not None and sh[0] == 'p' and len(sh) == 3 and sh[2][0] == 'L' and tgt.mode == 'c' and not tgt.items:
            s = st.clone()
            w, q = s.w(d), s.o(src).seq
            w.mode, w.dom, w.map, w.kshape, w.vshape = 'l', t.app('assoc_dom', t.AVB, q), t.app('assoc_map', t.AVS, q), sh[1], sh[2][1]
            s.heap[src.id] = Moved()
            return one(s, NONE)

    def assign(s, x):
        if isinstance(x, Val):
            x = dec(x.t, x.shape)
        return eng.unpack(s, fr, x, 2, lambda s2, kv: eng.dict_set(s2, d, kv[0], kv[1]))
    out = []
    for s, r in eng.for_value(st, fr, src, lambda s, x: eng.lift(assign(s, x)), lambda s: [(s, None)],
                              lambda s: [(s, None)], {'_': 'dict', 'lineno': None}):
        out.append((s, r if isinstance(r, Raise) else NONE))
    return out


def _unbound_dict(name):
    def f(eng, st, fr, a, kw):
        d = eng.dict_of(st, a[0])
        if d is None:
            raise Unsupported('dict.%s' % name)
        return METH[('dict', name)](eng, st, fr, d, a[1:], kw)
    EXT['dict.' + name] = f


for _n in ('items', 'keys', 'values', '__setitem__', '__getitem__', 'get', '__delitem__', 'pop', 'setdefault', 'clear'):
    _unbound_dict(_n)


# ------------------------------------------------------------------ builtin functions
@ext('len')
def _len(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, Str):
        return one(st, Int(t.slen(v.t)))
    if isinstance(v, Tup):
        return one(st, Int(t.I(len(v.items))))
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o, Lst):
            return one(st, Int(t.I(len(o.items)) if o.items is not None else t.seqlen(eng.lseq(st, v))))
        if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.find('__len__'):
            return eng.call_method(st, fr, v, '__len__', [])
        d = eng.dict_of(st, v)
        if d is not None:
            return one(st, Int(eng.dlen(st, d)))
        if isinstance(o, Gen) or isinstance(o, Obj):
            return eng.raise_(st, 'TypeError')
    if isinstance(v, (NoneV, Int)):
        return eng.raise_(st, 'TypeError')
    if isinstance(v, ExtO) and v.kind == 'frozenset':
        return one(st, Int(t.I(len(v.data))))
    raise Unsupported('len(%r)' % (v,))


TYPE_NAMES = {'str', 'bytes', 'unicode', 'int', 'list', 'tuple', 'dict', 'bool', 'float', 'object', 'long', 'basestring', 'set',
              'type', 'frozenset'}


def type_of(st, v):
    """class value"""
    if isinstance(v, Str):
        return Ext('str' if v.k == 'b' else 'unicode')
    if isinstance(v, Bool):
        return Ext('bool')
    if isinstance(v, Int):
        return Ext('int')
    if isinstance(v, NoneV):
        return Ext('NoneType')
    if isinstance(v, Float):
        return Ext('float')
    if isinstance(v, Tup):
        return Ext('tuple')
    if isinstance(v, ExtO) and v.kind == 'frozenset':
        return Ext('set')
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o, Lst):
            return Ext('list')
        if isinstance(o, Dct):
            return Ext('dict')
        if isinstance(o, Obj):
            return o.cls
        if isinstance(o, Gen):
            return Ext('generator')
    if isinstance(v, (Cls,)):
        return Ext('type')
    if isinstance(v, Func):
        return Ext('function')
    if isinstance(v, Val):
        return Ext('list') if v.shape[0] == 'L' else None
    raise Unsupported('type of %r' % (v,))


def is_instance(eng, st, v, c):
    if isinstance(c, Tup):
        return t.Or(*[is_instance(eng, st, v, x) for x in c.items])
    ty = type_of(st, v)
    if ty is None:
        name = c.qual if isinstance(c, Cls) else c.name
        name = {'bytes': 'str'}.get(name, name)
        if v.shape[0] == 'o' and len(v.shape) > 1:
            return t.lift(name in v.shape[1:])
        return t.app('isinstance_' + ''.join(ch if ch.isalnum() else '_' for ch in name), t.BOOL, v.t)
    if isinstance(c, Cls):
        return t.lift(isinstance(ty, Cls) and c in ty.mro())
    n = {'bytes': 'str'}.get(c.name, c.name)
    c2 = EXTATTR.get(n)
    n = c2.name if isinstance(c2, Ext) else n
    if n == 'object':
        return t.TRUE
    if isinstance(ty, Cls):
        return t.lift(any(isinstance(m, Ext) and m.name == n for m in ty.mro()))
    if n == 'basestring':
        return t.lift(ty.name in ('str', 'unicode'))
    if n == 'int' and ty.name == 'bool':
        return t.TRUE
    return t.lift(any(m.name == n for m in __import__('pyvc.values', fromlist=['x']).ext_mro(ty)))


@ext('isinstance')
def _isinstance(eng, st, fr, a, kw):
    return one(st, Bool(is_instance(eng, st, a[0], a[1])))


@ext('issubclass')
def _issubclass(eng, st, fr, a, kw):
    c, w = a
    if isinstance(c, Ext) and isinstance(w, Ext):
        return one(st, Bool(t.lift({'bytes': 'str'}.get(c.name, c.name) == {'bytes': 'str'}.get(w.name, w.name) or w.name == 'object')))
    if isinstance(c, Cls):
        return one(st, Bool(t.lift(eng.isa(c, w))))
    raise Unsupported('issubclass')


@ext('type')
def _type(eng, st, fr, a, kw):
    r = type_of(st, a[0])
    if r is None:
        # an opaque value: its type is only ever compared
        return one(st, ExtO('typeof', a[0]))
    return one(st, r)


@ext('hasattr')
def _hasattr(eng, st, fr, a, kw):
    n = t.cval(a[1].t)
    out = []
    for s, v in eng.getattr(st, fr, a[0], n):
        if isinstance(v, Raise):
            out.append((st, Bool(t.FALSE)))       # Python 2: any exception
        else:
            out.append((s, Bool(t.TRUE)))
    return out


@ext('getattr')
def _getattr(eng, st, fr, a, kw):
    n = t.cval(a[1].t)
    out = []
    for s, v in eng.getattr(st, fr, a[0], n):
        if isinstance(v, Raise) and len(a) > 2 and eng.isa(eng.exc_cls(s, v), Ext('AttributeError')):
            out.append((st, a[2]))
        else:
            out.append((s, v))
    return out


@ext('setattr')
def _setattr(eng, st, fr, a, kw):
    return eng.setattr(st, fr, a[0], t.cval(a[1].t), a[2])


@ext('super')
def _super(eng, st, fr, a, kw):
    if not a:
        return eng.raise_(st, 'TypeError')
    return one(st, Super(a[0], a[1]))


@ext('property')
def _property(eng, st, fr, a, kw):
    return one(st, Wrap('property', a[0] if a else kw.get('fget'), a[1] if len(a) > 1 else kw.get('fset')))


EXT['object'] = lambda eng, st, fr, a, kw: (lambda s: [(s, alloc(s, Obj(Ext('object'), {})))])(st.clone())


@ext('str', 'bytes')
def _str(eng, st, fr, a, kw):
    if not a:
        return one(st, B(''))
    if len(a) > 1 or kw:
        return eng.raise_(st, 'TypeError')
    v = a[0]
    if isinstance(v, Str):
        if v.k == 'b':
            return one(st, v)
        return METH[('str', 'encode')](eng, st, fr, v, [], {})
    if isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Cls):
        if st.o(v).cls.find('__str__'):
            return eng.call_method(st, fr, v, '__str__', [])
    return eng.to_str(st, fr, v)


@ext('unicode')
def _unicode(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, Str) and len(a) == 1 and not kw:
        return eng.to_u(st, v)
    if isinstance(v, Str) and v.k == 'b':
        return METH[('str', 'decode')](eng, st, fr, v, a[1:], kw)
    return eng.bind(eng.to_str(st, fr, v), lambda s, x: eng.to_u(s, x))


@ext('repr')
def _repr(eng, st, fr, a, kw):
    return one(st, Str(t.fresh('repr', t.STR), 'b'))


@ext('int', 'long')
def _int(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, Int):
        return one(st, v)
    if isinstance(v, Bool):
        return one(st, Int(eng.as_int(v)))
    if isinstance(v, Str):
        base = a[1].t if len(a) > 1 else t.I(10)
        if t.is_const(v.t) and t.is_const(base):
            try:
                return one(st, Int(t.I(int(t.cval(v.t), t.cval(base)))))
            except ValueError:
                return eng.raise_(st, 'ValueError')
        out = []
        for s, b in eng.split(st, t.app('is_int', t.BOOL, v.t, base)):
            if b:
                out.append((s, Int(t.app('int_of', t.INT, v.t, base))))
            else:
                out.extend(eng.raise_(s, 'ValueError'))
        return out
    if isinstance(v, (NoneV, Tup)) or (isinstance(v, Ref)):
        return eng.raise_(st, 'TypeError')
    if isinstance(v, Val):
        out = []
        for s, b in eng.split(st, t.app('int_convertible', t.BOOL, v.t)):
            if b:
                out.append((s, Int(t.app('int_of_val', t.INT, v.t))))
            else:
                out.extend(eng.raise_(s, 'ValueError'))
        return out
    raise Unsupported('int(%r)' % (v,))


@ext('bool')
def _bool(eng, st, fr, a, kw):
    return [(s, Bool(t.lift(b))) for s, b in eng.truth_split(st, a[0])]


@ext('iter')
def _iter(eng, st, fr, a, kw):
    if len(a) == 2:
        fn, sentinel = a

        def run(eng2, s, on_yield):
            def step(s0):
                out = []
                for s1, v in eng2.call(s0, fr, fn, [], {}):
                    if isinstance(v, Raise):
                        out.append((s1, v))
                        continue
                    for s2, b in eng2.split(s1, eng2.equal(s1, v, sentinel)):
                        if b:
                            out.append((s2, 'exit'))
                        else:
                            s2 = s2.clone()
                            s2.heap[cell.id] = Env(None, {'$x': v})
                            out.append((s2, 'body'))
                return out
            s = s.clone()
            cell = alloc(s, Env(None, {}))

            def body(s1):
                return on_yield(s1, s1.o(cell).vars['$x'])
            return eng2.cut(s, fr, step, body, lambda s1: [(s1, None)], {'_': 'iter', 'lineno': None})
        s = st.clone()
        return one(s, alloc(s, Gen(run, 'iter')))
    v = a[0]
    if isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Cls):
        if st.o(v).cls.find('__iter__'):
            return eng.call_method(st, fr, v, '__iter__', [])
        if eng.dict_of(st, v) is None:
            return eng.raise_(st, 'TypeError')
    if isinstance(v, (Int, NoneV, Bool)):
        return eng.raise_(st, 'TypeError')
    if isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Ext):
        if st.o(v).f.get('$iterable') is False:
            return eng.raise_(st, 'TypeError')
    return one(st, v)


@ext('next')
def _next_(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o, Lst) or (isinstance(o, Dct)):
            return eng.raise_(st, 'TypeError')
        if isinstance(o, Obj):
            return eng.call_method(st, fr, v, 'next', [])
    raise Unsupported('next(%r)' % (v,))


@ext('min', 'max')
def _minmax(eng, st, fr, a, kw):
    raise Unsupported('min/max')


def _mm(f):
    def g(eng, st, fr, a, kw):
        items = a
        if len(a) == 1:
            items = eng.concrete_items(st, a[0])
            if items is None:
                raise Unsupported('min/max of a symbolic list')
        ts = [eng.as_int(x) for x in items]
        if any(x is None for x in ts) or not ts:
            raise Unsupported('min/max of %r' % (items,))
        r = ts[0]
        for x in ts[1:]:
            r = f(r, x)
        return one(st, Int(r))
    return g


EXT['min'], EXT['max'] = _mm(t.Min), _mm(t.Max)


@ext('range', 'xrange')
def _range(eng, st, fr, a, kw):
    ts = [eng.as_int(x) for x in a]
    if not all(t.is_const(x) for x in ts):
        raise Unsupported('symbolic range')
    r = range(*[t.cval(x) for x in ts])
    if len(r) > 64:
        raise Unsupported('long range')
    s = st.clone()
    return one(s, alloc(s, Lst([Int(t.I(i)) for i in r])))


@ext('enumerate')
def _enumerate(eng, st, fr, a, kw):
    items = eng.concrete_items(st, a[0])
    if items is None:
        raise Unsupported('enumerate')
    s = st.clone()
    return one(s, alloc(s, Lst([Tup((Int(t.I(i)), x)) for i, x in enumerate(items)])))


@ext('zip')
def _zip(eng, st, fr, a, kw):
    its = [eng.concrete_items(st, x) for x in a]
    if any(x is None for x in its):
        raise Unsupported('zip')
    s = st.clone()
    return one(s, alloc(s, Lst([Tup(tuple(x)) for x in zip(*its)])))


def _anyall(is_any):
    def f(eng, st, fr, a, kw):
        v = a[0]
        tag = {'_': 'any', 'lineno': None}
        res = []
        s0 = st.clone()
        h = alloc(s0, Env(None, {}))

        def assign(s, x):
            out = []
            for s1, b in eng.truth_split(s, x):
                out.append((s1, None if b != is_any else BRK))
            return out

        def brk(s, x):
            # leaving the loop early: mark it
            out = []
            for s1, o in assign(s, x):
                if o is BRK:
                    s1 = s1.clone()
                    out.append((s1, Ret(Bool(t.lift(is_any)))))
                else:
                    out.append((s1, o))
            return out
        for s, o in eng.for_value(s0, fr, v, brk, lambda s: [(s, None)], lambda s: [(s, None)], tag):
            if isinstance(o, Ret):
                res.append((s, o.v))
            elif isinstance(o, Raise):
                res.append((s, o))
            else:
                res.append((s, Bool(t.lift(not is_any))))
        return res
    return f


EXT['any'], EXT['all'] = _anyall(True), _anyall(False)


def to_list(eng, st, fr, v):
    items = eng.concrete_items(st, v)
    s = st.clone()
    if items is not None:
        return one(s, alloc(s, Lst(list(items))))
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        return one(s, alloc(s, Lst(None, eng.lseq(s, v), eng.lshape(s, v))))
    acc = alloc(s, Env(None, {'$acc': alloc(s, Lst([]))}))
    out = []
    for s1, r in eng.for_value(s, fr, v, lambda s1, x: eng.lift(METH[('list', 'append')](
            eng, s1, fr, s1.o(acc).vars['$acc'], [x], {})), lambda s1: [(s1, None)], lambda s1: [(s1, None)],
            {'_': 'list', 'lineno': None}):
        out.append((s1, r if isinstance(r, Raise) else s1.o(acc).vars['$acc']))
    return out


@ext('list')
def _list(eng, st, fr, a, kw):
    if not a:
        s = st.clone()
        return one(s, alloc(s, Lst([])))
    if isinstance(a[0], (NoneV, Int)):
        return eng.raise_(st, 'TypeError')
    return to_list(eng, st, fr, a[0])


@ext('tuple')
def _tuple(eng, st, fr, a, kw):
    if not a:
        return one(st, Tup(()))
    items = eng.concrete_items(st, a[0])
    if items is None:
        def done(s, l):
            xs = s.o(l).items
            if xs is None:
                raise Unsupported('tuple of a symbolic sequence')
            return one(s, Tup(tuple(xs)))
        return eng.bind(to_list(eng, st, fr, a[0]), done)
    return one(st, Tup(tuple(items)))


@ext('set', 'frozenset')
def _set(eng, st, fr, a, kw):
    items = eng.concrete_items(st, a[0]) if a else []
    if items is None:
        raise Unsupported('set of a symbolic sequence')
    return one(st, ExtO('frozenset', tuple(items)))


@ext('dict')
def _dict(eng, st, fr, a, kw):
    s = st.clone()
    d = alloc(s, Dct('c', []))
    if kw:
        raise Unsupported('dict(**kw)')
    return eng.bind(EXT['dict.fill'](eng, s, fr, [d] + a, {}), lambda s2, _: [(s2, d)])


@ext('id')
def _id(eng, st, fr, a, kw):
    return one(st, Int(t.I(a[0].id)) if isinstance(a[0], Ref) else Int(t.fresh('id', t.INT)))


@ext('ord')
def _ord(eng, st, fr, a, kw):
    return one(st, Int(t.to_code(a[0].t)))


@ext('chr')
def _chr(eng, st, fr, a, kw):
    out = []
    i = eng.as_int(a[0])
    for s, b in eng.split(st, t.And(t.le(0, i), t.lt(i, 256))):
        out.extend(one(s, Str(t.mk('str.from_code', (i,), t.STR), 'b')) if b else eng.raise_(s, 'ValueError'))
    return out


@ext('callable')
def _callable(eng, st, fr, a, kw):
    return one(st, Bool(t.lift(isinstance(a[0], (Func, Cls, Bound, BM)))))


@ext('divmod')
def _divmod(eng, st, fr, a, kw):
    x, y = eng.as_int(a[0]), eng.as_int(a[1])
    if not (t.is_const(y) and t.cval(y) > 0):
        raise Unsupported('divmod')
    return one(st, Tup((Int(t.div(x, y)), Int(t.mod(x, y)))))


@ext('reversed')
def _reversed(eng, st, fr, a, kw):
    items = eng.concrete_items(st, a[0])
    if items is None:
        raise Unsupported('reversed')
    s = st.clone()
    return one(s, alloc(s, Lst(list(reversed(items)))))


EXTATTR['os.name'] = B('java')
EXTATTR['os.SEEK_END'] = Int(t.I(2))
EXTATTR['os.SEEK_SET'] = Int(t.I(0))
EXTATTR['io.UnsupportedOperation'] = Ext('io.UnsupportedOperation')


# copies of strings and of opaque values
@ext('copy.deepcopy', 'copy.copy')
def _deepcopy(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, (Str, Int, Bool, NoneV)):
        return one(st, v)
    if isinstance(v, Tup):
        return one(st, v)
    if isinstance(v, Val):
        return one(st, Val(t.app('deepcopy', t.VAL, v.t), v.shape))
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        s = st.clone()
        o, sh = s.o(v), eng.lshape(s, v)
        if o.items is not None and o.view is None:
            if all(isinstance(x, (Str, Int, Bool, NoneV)) for x in o.items):
                return one(s, alloc(s, Lst(list(o.items))))
            raise Unsupported('deepcopy')
        q = eng.lseq(s, v)
        return one(s, alloc(s, Lst(None, q if sh is not None and sh[0] in 'sibn' else t.app('deepcopies', t.SEQ, q), sh)))
    if isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Cls) and st.o(v).cls.find('__deepcopy__'):
        s = st.clone()
        return eng.call_method(s, fr, v, '__deepcopy__', [a[1] if len(a) > 1 else alloc(s, Dct('c', []))])
    raise Unsupported('deepcopy')


def _copy_copy(eng, st, fr, a, kw):
    v = a[0]
    if isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Cls) and st.o(v).cls.find('__copy__'):
        return eng.call_method(st, fr, v, '__copy__', [])
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        s = st.clone()
        o = s.o(v)
        return one(s, alloc(s, Lst(list(o.items)) if o.items is not None and o.view is None else Lst(None, eng.lseq(s, v), eng.lshape(s, v))))
    if isinstance(v, (Str, Int, Bool, NoneV, Tup)):
        return one(st, v)
    raise Unsupported('copy')


EXT['copy.copy'] = _copy_copy


# ------------------------------------------------------------------ abstract byte sources
# producer: an iterator over byte strings whose concatenation is $rem (ghost)
@meth('ext.producer', 'next')
def _prod_next(eng, st, fr, o, a, kw):
    rem = st.o(o).f['$rem'].t
    c, r = t.fresh('chunk', t.STR), t.fresh('rem', t.STR)
    out = []
    if '$err' in st.o(o).f:
        s = st.clone()
        out.append((s, eng.exc(s, 'IOError', *s.o(o).f['$err'].items)))
    s = st.assume(t.Eq(rem, t.EMPTY)).clone()
    if eng.feasible(s.pc):
        out.append((s, eng.exc(s, 'StopIteration')))
    s = st.assume(t.Eq(rem, t.concat(c, r))).clone()
    if '$nonempty' in s.o(o).f:
        s = s.assume(t.Not(t.Eq(c, t.EMPTY)))
        if not eng.feasible(s.pc):
            return out
    s.w(o).f['$rem'] = Str(r, 'b')
    out.append((s, Str(c, 'b')))
    return out


METH[('ext.producer', '__iter__')] = lambda eng, st, fr, o, a, kw: one(st, o)


# file: an object read with read(n), whose remaining content is $rem (ghost); short reads are possible
@meth('ext.file', 'read')
def _file_read(eng, st, fr, o, a, kw):
    rem = st.o(o).f['$rem'].t
    fail = []
    if '$err' in st.o(o).f:
        s = st.clone()
        fail = [(s, eng.exc(s, 'IOError', *s.o(o).f['$err'].items))]
    if not a or isinstance(a[0], NoneV):
        s = st.clone()
        s.w(o).f['$rem'] = Str(t.EMPTY, 'b')
        return fail + one(s, Str(rem, 'b'))
    n = eng.as_int(a[0])
    c, r = t.fresh('chunk', t.STR), t.fresh('rem', t.STR)
    s = st.assume(t.Eq(rem, t.concat(c, r)), t.Implies(t.le(0, n), t.le(t.slen(c), n)),
                  t.Implies(t.And(t.Eq(c, t.EMPTY), t.Not(t.Eq(n, 0))), t.Eq(rem, t.EMPTY))).clone()
    s.w(o).f['$rem'] = Str(r, 'b')
    return fail + one(s, Str(c, 'b'))


# BytesIO / temporary file: $data with a position $pos
def new_buffer(st, data=t.EMPTY, cls='ext.buffer'):
    return alloc(st, Obj(Ext(cls), {'$data': Str(data, 'b'), '$pos': Int(t.I(0)), '$is_closed': Bool(t.FALSE)}))


@ext('io.BytesIO')
def _bytesio(eng, st, fr, a, kw):
    s = st.clone()
    if a and not isinstance(a[0], Str):
        return eng.raise_(st, 'TypeError')
    return one(s, new_buffer(s, a[0].t if a else t.EMPTY))


@meth('ext.buffer', 'write')
def _buf_write(eng, st, fr, o, a, kw):
    h = st.o(o)
    d, p = h.f['$data'].t, h.f['$pos'].t
    w = sarg(a[0]).t
    s = st.clone()
    if p is t.slen(d) or eng.entails(st, t.Eq(p, t.slen(d))):
        nd = t.concat(d, w)
    elif eng.entails(st, t.And(t.le(0, p), t.le(p, t.slen(d)))):
        nd = t.concat(t.substr(d, 0, p), w, t.substr(d, p + t.slen(w), t.slen(d)))
    else:
        raise Unsupported('write beyond the end')
    f = s.w(o).f
    f['$data'] = Str(nd, 'b')
    f['$pos'] = Int(p + t.slen(w))
    return one(s, Int(t.slen(w)))


@meth('ext.buffer', 'read')
def _buf_read(eng, st, fr, o, a, kw):
    h = st.o(o)
    d, p = h.f['$data'].t, h.f['$pos'].t
    if not (p is t.I(0) or eng.entails(st, t.And(t.le(0, p), t.le(p, t.slen(d))))):
        raise Unsupported('read at an unknown position')
    rem = t.slen(d) - p
    s = st.clone()
    if not a or isinstance(a[0], NoneV):
        s.w(o).f['$pos'] = Int(t.slen(d))
        return one(s, Str(t.substr(d, p, rem), 'b'))
    n = eng.as_int(a[0])
    if not eng.entails(st, t.le(0, n)):
        raise Unsupported('read of a possibly negative size')
    m = eng.simp_int(st, t.Min(n, rem))
    s.w(o).f['$pos'] = Int(p + m)
    return one(s, Str(t.substr(d, p, m), 'b'))


@meth('ext.buffer', 'seek')
def _buf_seek(eng, st, fr, o, a, kw):
    s = st.clone()
    wh = t.cval(eng.as_int(a[1])) if len(a) > 1 else 0
    if wh == 0:
        s.w(o).f['$pos'] = Int(eng.as_int(a[0]))
    elif wh == 2:
        s.w(o).f['$pos'] = Int(t.slen(s.o(o).f['$data'].t) + eng.as_int(a[0]))
    else:
        raise Unsupported('seek')
    return one(s, s.o(o).f['$pos'])


METH[('ext.buffer', 'tell')] = lambda eng, st, fr, o, a, kw: one(st, st.o(o).f['$pos'])


@meth('ext.buffer', 'close')
def _buf_close(eng, st, fr, o, a, kw):
    s = st.clone()
    s.w(o).f['$is_closed'] = Bool(t.TRUE)
    return one(s, NONE)


METH[('ext.buffer', 'flush')] = lambda eng, st, fr, o, a, kw: one(st, NONE)


# every value of an unmodelled external object type
@ext('six.reraise')
def _reraise(eng, st, fr, a, kw):
    """six.reraise(tp, value, tb=None) on Python 2 is `raise tp, value, tb`."""
    tp, value = a[0], a[1] if len(a) > 1 else NONE
    if isinstance(tp, Ref):
        if isinstance(value, NoneV):
            return one(st, Raise(tp))
        return eng.raise_(st, 'TypeError', B('instance exception may not have a separate value'))
    if isinstance(tp, Str):
        return eng.raise_(st, 'TypeError', B('exceptions must be old-style classes or derived from BaseException'))
    if isinstance(value, Ref):
        if eng.isa(st.o(value).cls, tp):
            return one(st, Raise(value))
        return eng.bind(eng.call(st, fr, tp, [value], {}), lambda s, o: [(s, Raise(o))])
    return eng.bind(eng.call(st, fr, tp, [] if isinstance(value, NoneV) else [value], {}), lambda s, o: [(s, Raise(o))])


from . import libspec     # noqa: E402,F401
