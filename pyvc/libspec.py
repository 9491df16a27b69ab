"""Trusted contracts of the library modules the repository uses (regular expressions, urllib, base64, dates, files)."""
import re as _re

from . import regex, solve, terms as t
from .builtins_spec import B, one, sarg
from .sym import EXT, EXTATTR, GETATTR, METH, Frame, ext, is_ascii, meth
from .values import *
from .values import Unsupported

# ------------------------------------------------------------------ regular expressions
FLAGS = {'re.X': _re.X, 're.VERBOSE': _re.X, 're.I': _re.I, 're.IGNORECASE': _re.I, 're.S': _re.S, 're.DOTALL': _re.S}


@ext('re.compile')
def _compile(eng, st, fr, a, kw):
    fl = 0
    if len(a) > 1:
        if not (isinstance(a[1], Ext) and a[1].name in FLAGS):
            raise Unsupported('flags of a regular expression')
        fl = FLAGS[a[1].name]
    if not t.is_const(a[0].t):
        raise Unsupported('symbolic regular expression')
    return one(st, ExtO('regex', (t.cval(a[0].t), fl)))


def rx(o):
    return regex.compile(*o.data)


def match_object(groups, text, k, names):
    gs = [(i, NONE if groups[i] is None else Str(groups[i], k)) for i in sorted(groups)]
    return ExtO('match', (tuple(gs), Str(text, k), tuple(sorted(names.items()))))


def do_match(eng, st, o, s):
    r = rx(o)
    if t.is_const(s.t):
        m = _re.compile(*o.data).match(t.cval(s.t))
        if m is None:
            return one(st, NONE)
        gs = {i: (None if m.group(i) is None else t.S(m.group(i))) for i in range(1, r.ngroups + 1)}
        return one(st, match_object(gs, t.S(m.group(0)), s.k, r.names))
    out = []
    for s1, b in eng.split(st, t.in_re(s.t, r.match_lang())):
        if not b:
            out.append((s1, NONE))
            continue
        for facts, groups, text in r.divisions(s.t):
            s2 = s1.assume(*facts)
            if len(r.divisions(s.t)) == 1 or eng.feasible(s2.pc):
                out.append((s2, match_object(groups, text, s.k, r.names)))
    return out


@meth('regex', 'match')
def _match(eng, st, fr, o, a, kw):
    return do_match(eng, st, o, sarg(a[0]))


@ext('re.match')
def _rematch(eng, st, fr, a, kw):
    return eng.bind(_compile(eng, st, fr, [a[0]] + a[2:3], {}), lambda s, o: do_match(eng, s, o, sarg(a[1])))


def group_of(o, which):
    groups, text, names = o.data
    if isinstance(which, Int) or isinstance(which, Str):
        i = t.cval(which.t) if isinstance(which, Int) else dict(names).get(t.cval(which.t))
        if i == 0:
            return text
        for j, v in groups:
            if i == j:
                return v
    return None


@meth('match', 'group')
def _group(eng, st, fr, o, a, kw):
    if not a:
        return one(st, o.data[1])
    out = []
    for x in a:
        v = group_of(o, x)
        if v is None:
            return eng.raise_(st, 'IndexError')
        out.append(v)
    return one(st, out[0] if len(out) == 1 else Tup(tuple(out)))


METH[('match', 'groups')] = lambda eng, st, fr, o, a, kw: one(st, Tup(tuple(v for _, v in o.data[0])))


# splitting at the single characters of a class (no groups): pieces of the whole string
def resplit_term(s, lang):
    return t.app('resplit', t.SEQ, s, t.S(lang))


@solve.axiom('resplit')
def _resplit_ax(s, lang):
    r = resplit_term(s, t.cval(lang))
    L = t.cval(lang)
    has = t.in_re(s, '(re.++ re.all %s re.all)' % L)
    i = t.app('resplit_at', t.INT, s, lang)
    tail = t.substr(s, i + 1, t.slen(s))
    return [t.Implies(t.Not(has), t.Eq(r, t.unit(t.VS(s)))),
            t.Implies(has, t.And(t.le(0, i), t.lt(i, t.slen(s)), t.in_re(t.substr(s, i, 1), L),
                                 t.Not(t.in_re(t.substr(s, 0, i), '(re.++ re.all %s re.all)' % L)),
                                 t.Eq(r, t.seqcat(t.unit(t.VS(t.substr(s, 0, i))), resplit_term(tail, L))))),
            t.le(1, t.seqlen(r))]


@meth('regex', 'split')
def _rsplit(eng, st, fr, o, a, kw):
    r, s = rx(o), sarg(a[0])
    if r.ngroups or r.begin or r.end or len(r.pieces) != 1 or r.pieces[0].lang.startswith('(re.*'):
        raise Unsupported('split at a complex expression')
    whole = resplit_term(s.t, r.lang)
    out = st.clone()
    n = a[1] if len(a) > 1 else kw.get('maxsplit')
    if n is None:
        return one(out, alloc(out, Lst(None, whole, ('s', s.k))))
    n = eng.as_int(n)
    part = t.fresh('pieces', t.SEQ)
    k = t.seqlen(whole)
    out = out.assume(t.Implies(t.Or(t.le(n, 0), t.le(k, n + 1)), t.Eq(part, whole)),
                     t.Implies(t.And(t.lt(0, n), t.lt(n + 1, k)), t.Eq(t.seqlen(part), n + 1)), t.le(1, k)).clone()
    return one(out, alloc(out, Lst(None, part, ('s', s.k))))


def resub_term(pattern, repl, s):
    return t.app('resub', t.STR, pattern, repl, s)


@ext('re.sub')
def _resub(eng, st, fr, a, kw):
    p, r, s = sarg(a[0]), sarg(a[1]), sarg(a[2])
    if len(a) != 3 or kw or not (t.is_const(p.t) and t.is_const(r.t)):
        raise Unsupported('re.sub')
    return one(st, Str(resub_term(p.t, r.t, s.t), s.k))


@meth('regex', 'sub')
def _rxsub(eng, st, fr, o, a, kw):
    if o.data[1] or len(a) != 2 or kw or not t.is_const(sarg(a[0]).t):
        raise Unsupported('sub')
    return one(st, Str(resub_term(t.S(o.data[0]), a[0].t, sarg(a[1]).t), a[1].k))


# ------------------------------------------------------------------ characters and stripping
@ext('unichr')
def _unichr(eng, st, fr, a, kw):
    i = eng.as_int(a[0])
    out = []
    for s, b in eng.split(st, t.And(t.le(0, i), t.lt(i, 0x110000))):
        out.extend(one(s, Str(t.mk('str.from_code', (i,), t.STR), 'u')) if b else eng.raise_(s, 'ValueError'))
    return out


@ext('unicodedata.category')
def _category(eng, st, fr, a, kw):
    r = t.app('ucategory', t.STR, sarg(a[0]).t)
    return one(st.assume(t.Eq(t.slen(r), 2)), Str(r, 'b'))


def char_class(chars):
    return regex.union(regex.rng(ord(c), ord(c)) for c in sorted(set(chars)))


def trim_term(s, chars, side):
    if t.is_const(s):
        v = t.cval(s)
        return t.S(v.rstrip(chars) if side == 'r' else v.lstrip(chars))
    if side == 'r' and s.op == 'str.++' and len(s.args) == 2 and s.args[0].op == 'app' and s.args[0].args[0] == 'b64core' and \
            '=' in chars and s.args[1] is b64pad(t.slen(s.args[0])) and not any(c.isalnum() or c in '-_' for c in chars):
        return s.args[0]        # the alphabet has none of the stripped characters, the padding only them
    return t.app(side + 'strip', t.STR, s, t.S(chars))


def _trim_ax(side):
    def ax(s, chars):
        r = t.app(side + 'strip', t.STR, s, chars)
        q = t.app(side + 'strip_rest', t.STR, s, chars)
        C = char_class(t.cval(chars))
        edge = t.substr(r, t.slen(r) - 1, 1) if side == 'r' else t.substr(r, 0, 1)
        return [t.Eq(s, t.concat(r, q) if side == 'r' else t.concat(q, r)), t.in_re(q, '(re.* %s)' % C),
                t.Or(t.Eq(r, t.EMPTY), t.Not(t.in_re(edge, C)))]
    return ax


solve.AXIOMS['rstrip'], solve.AXIOMS['lstrip'] = _trim_ax('r'), _trim_ax('l')
BLANKS = {'b': ' \t\n\r\x0b\x0c', 'u': None}


def _trim(side):
    def f(eng, st, fr, o, a, kw):
        if a and not isinstance(a[0], NoneV):
            if not t.is_const(sarg(a[0]).t):
                raise Unsupported('strip of symbolic characters')
            chars = t.cval(a[0].t)
        else:
            chars = BLANKS[o.k]
            if chars is None:
                raise Unsupported('%sstrip of unicode blanks' % side)
        return one(st, Str(trim_term(o.t, chars, side), o.k))
    return f


METH[('str', 'rstrip')], METH[('str', 'lstrip')] = _trim('r'), _trim('l')


# ------------------------------------------------------------------ urllib (future.backports): results and quoting
U = 'future.backports.urllib.parse.'


def split_result(cls, names):
    @ext(U + cls)
    def make(eng, st, fr, a, kw):
        if len(a) != len(names) or kw:
            return eng.raise_(st, 'TypeError')
        s = st.clone()
        f = dict(zip(names, a))
        f['$items'] = Tup(tuple(a))
        return one(s, alloc(s, Obj(Ext('ext.' + cls), f)))

    @meth('ext.' + cls, 'encode')
    def encode(eng, st, fr, o, a, kw):
        s, items = st, []
        for x in st.o(o).f['$items'].items:
            # what is split off an ASCII text is ASCII
            items.append(Str(sarg(x).t, 'b'))
        return make(eng, s, fr, items, {})
    return make


split_result('SplitResult', ('scheme', 'netloc', 'path', 'query', 'fragment'))
split_result('ParseResult', ('scheme', 'netloc', 'path', 'params', 'query', 'fragment'))


UNRESERVED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-')


def safe_set(safe):
    """the safe characters that make a difference, in a fixed order: quoting depends on the set only"""
    return ''.join(sorted(c for c in set(safe) - UNRESERVED if ord(c) < 128))


def quote_term(name, s, safe):
    if t.is_const(safe):
        safe = t.S(safe_set(t.cval(safe)))
    return t.app(name, t.STR, s, safe)


@solve.axiom('quote')
def _quote_ax(s, safe):
    """every character of the result is unreserved, safe or part of a percent escape; what needs no quoting is unchanged"""
    if not t.is_const(safe):
        return []
    r = quote_term('quote', s, safe)
    kept = ranges(UNRESERVED | set(t.cval(safe)))
    fs = [t.Implies(t.in_re(s, '(re.* %s)' % kept), t.Eq(r, s))]
    hexa = ranges('0123456789ABCDEF')
    fs.append(t.in_re(r, '(re.* %s)' % (kept if '%' in t.cval(safe) else regex.union([kept, '(re.++ (str.to_re "%%") %s %s)' % (hexa, hexa)]))))
    return fs


def ranges(chars):
    """a character class as few ranges"""
    cs = sorted(set(ord(c) for c in chars))
    out, i = [], 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        out.append(regex.rng(cs[i], cs[j]))
        i = j + 1
    return regex.union(out)


def _quoting(name, default_safe):
    @ext(U + name)
    def q(eng, st, fr, a, kw):
        safe = a[1] if len(a) > 1 else kw.get('safe', Str(t.S(default_safe), 'b'))
        if set(kw) - {'safe'} or len(a) > 2:
            raise Unsupported('quoting with an encoding')
        return one(st, Str(quote_term(name, sarg(a[0]).t, sarg(safe).t), 'u'))


_quoting('quote', '/')
_quoting('quote_plus', '')


def unquote_term(s, enc, errors):
    return t.app('unquote', t.STR, s, enc, errors)


@ext(U + 'unquote')
def _unquote(eng, st, fr, a, kw):
    e = a[1] if len(a) > 1 else kw.get('encoding', Str(t.S('utf-8'), 'b'))
    r = a[2] if len(a) > 2 else kw.get('errors', Str(t.S('replace'), 'b'))
    if isinstance(e, NoneV):
        e = Str(t.S('utf-8'), 'b')
    return one(st, Str(unquote_term(sarg(a[0]).t, sarg(e).t, sarg(r).t), 'u'))


@ext(U + 'unquote_plus')
def _unquote_plus(eng, st, fr, a, kw):
    return _unquote(eng, st, fr, [Str(t.replace_all(sarg(a[0]).t, t.S('+'), t.S(' ')), a[0].k)] + a[1:], kw)


EXTATTR['future.builtins.str'] = Ext('unicode')
EXTATTR['future.builtins.bytes'] = Ext('str')


# ------------------------------------------------------------------ base64
CORE = '[A-Za-z0-9_-]*'


def b64core(x):
    return t.app('b64core', t.STR, x)


def b64pad(n):
    m = t.mod(n, 4)
    return t.Ite(t.Eq(m, 2), t.S('=='), t.Ite(t.Eq(m, 3), t.S('='), t.EMPTY))


@solve.axiom('b64core')
def _b64core_ax(x):
    c = b64core(x)
    return [t.in_re(c, '(re.* %s)' % regex.compile('[A-Za-z0-9_-]', 0).lang), t.Not(t.Eq(t.mod(t.slen(c), 4), 1)),
            t.Eq(t.app('b64raw', t.STR, c), x)]


@ext('base64.urlsafe_b64encode')
def _b64e(eng, st, fr, a, kw):
    if sarg(a[0]).k != 'b':
        raise Unsupported('base64 of text')
    c = b64core(a[0].t)
    return one(st, Str(t.concat(c, b64pad(t.slen(c))), 'b'))


@ext('base64.urlsafe_b64decode')
def _b64d(eng, st, fr, a, kw):
    """defined for the alphabet with padding up to (or beyond) a multiple of four, anything else is left open"""
    y = sarg(a[0]).t
    c = t.app('rstrip', t.STR, y, t.S('='))
    A = regex.compile('[A-Za-z0-9_-]', 0).lang
    m = t.mod(t.slen(c), 4)
    pad = t.slen(y) - t.slen(c)
    good = t.And(t.in_re(c, '(re.* %s)' % A), t.Not(t.Eq(m, 1)), t.Implies(t.Eq(m, 2), t.le(2, pad)), t.Implies(t.Eq(m, 3), t.le(1, pad)))
    out = []
    for s, b in eng.split(st, good):
        if b:
            out.append((s, Str(t.app('b64raw', t.STR, c), 'b')))
        else:
            out.extend(eng.raise_(s.assume(t.app('b64bad', t.BOOL, y)), 'TypeError'))
            out.extend(eng.raise_(s.assume(t.app('b64bad', t.BOOL, y)), 'binascii.Error'))
            out.append((s.assume(t.Not(t.app('b64bad', t.BOOL, y))), Str(t.fresh('decoded', t.STR), 'b')))
    return out


def ljust_term(s, n, c):
    return t.app('ljust', t.STR, s, n, c)


@solve.axiom('ljust')
def _ljust_ax(s, n, c):
    r = ljust_term(s, n, c)
    q = t.app('ljust_fill', t.STR, s, n, c)
    fs = [t.Eq(r, t.concat(s, q)), t.Eq(t.slen(q), t.Max(t.I(0), n - t.slen(s)))]
    if t.is_const(c):
        fs.append(t.in_re(q, '(re.* %s)' % char_class(t.cval(c))))
    return fs


# ------------------------------------------------------------------ dates
DATE = ('year', 'month', 'day', 'hour', 'minute', 'second')


@ext('datetime.datetime')
def _datetime(eng, st, fr, a, kw):
    a = list(a) + [kw[n] for n in DATE[len(a):] if n in kw]
    if len(a) < 3 or len(a) > 6:
        raise Unsupported('datetime')
    xs = [eng.as_int(x) for x in a] + [t.I(0)] * (6 - len(a))
    out = []
    for s, b in eng.split(st, t.app('valid_date', t.BOOL, *xs)):
        if b:
            out.append((s, ExtO('datetime', tuple(xs))))
        else:
            out.extend(eng.raise_(s, 'ValueError'))
    return out


METH[('datetime', 'utctimetuple')] = lambda eng, st, fr, o, a, kw: one(st, o)
METH[('datetime', 'timetuple')] = METH[('datetime', 'utctimetuple')]


@ext('calendar.timegm')
def _timegm(eng, st, fr, a, kw):
    if not (isinstance(a[0], ExtO) and a[0].kind == 'datetime'):
        raise Unsupported('timegm')
    return one(st, Int(t.app('epoch', t.INT, *a[0].data)))


@ext('email.utils.formatdate')
def _formatdate(eng, st, fr, a, kw):
    x = a[0] if a else kw.get('timeval', NONE)
    local = a[1] if len(a) > 1 else kw.get('localtime', Bool(t.FALSE))
    gmt = a[2] if len(a) > 2 else kw.get('usegmt', Bool(t.FALSE))
    return one(st, Str(t.app('formatdate', t.STR, enc(x), enc(local), enc(gmt)), 'b'))
