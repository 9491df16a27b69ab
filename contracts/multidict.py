"""MultiValueDict, ImmutableMultiValueDict, QueryDict and ImmutableList (utils/datastructures.py, http/request.py).

Abstraction: a dictionary is a partial map from keys to sequences of values, `has(k)` and `at(k)`.  The contracts speak
about one arbitrary key k (a fresh constant), which is as good as all keys: what a call does to every key follows.
Methods are called the way a caller does (looked up on the object), so an override that disappears is seen."""
from pyvc import solve, terms as t
from pyvc.contract import Case, Contract, raises
from pyvc.values import *

DS = 'request_parser.utils.datastructures'
REQ = 'request_parser.http.request'
SET = 'request_parser.conf.settings'
ANY = ('v',)


def new_dict(st, vshape=ANY, kshape=ANY):
    return alloc(st, Dct('l', None, t.fresh('dom', t.AVB), t.fresh('map', t.AVS), kshape, vshape))


def new_multidict(eng, st, cls, f=None, vshape=ANY, kshape=ANY):
    eng.load(cls.split(':')[0])
    return alloc(st, Obj(eng.cls_by_name(cls), dict(f or {}, **{'$d': new_dict(st, vshape, kshape)})))


def inner(st, r):
    return st.o(r).f['$d']


def has(st, r, k):
    o = st.o(inner(st, r))
    if o.mode == 'c':
        if o.items:
            raise Unsupported('concrete dictionary')
        return t.FALSE
    return t.select(o.dom, k)


def at(st, r, k):
    o = st.o(inner(st, r))
    if o.mode == 'c':
        return t.SEMPTY
    return t.select(o.map, k)


def opaque(name, shape=ANY):
    return Val(t.fresh(name, t.VAL), shape) if shape[0] == 'v' else Str(t.fresh(name, t.STR), shape[1])


def lst(st, name, shape=ANY):
    return alloc(st, Lst(None, t.fresh(name, t.SEQ), shape))


def own(eng, st, r):
    """the list does not live in a dictionary"""
    return t.lift(st.o(r).view is None)


def seq(eng, st, v):
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        return eng.lseq(st, v)
    raise Unsupported('not a list')


def same(eng, st, v, want):
    """the value v is the opaque value `want`"""
    return t.Eq(enc(v), want)


class DictOp(Contract):
    """One method of a dictionary class.

    forms: [(label, {argument: builder(eng, st)})] in the order of the arguments;
    after(eng, old, a) -> (has'(k), at'(k)) or None when nothing changes; result(eng, old, new, a, v) -> [(label, formula)];
    fails(eng, old, a) -> (condition, exception class) of the other outcome, in which nothing changes"""
    by_lookup = True

    def __init__(self, cls, method, forms, after=None, result=None, fails=None, name=None, fields=None, vshape=ANY, kshape=ANY,
                 maker=None, invariants=None):
        self.cls, self.method, self.forms, self.after_, self.result, self.fails = cls, method, forms, after, result, fails
        self.name = name or '%s.%s' % (cls.split(':')[1], method)
        self.func = cls + '.' + method
        self.fields, self.vshape, self.kshape, self.maker, self.inv = fields, vshape, kshape, maker, invariants

    def setups(self, eng):
        out = []
        for label, args in self.forms:
            eng.load(self.cls.split(':')[0])
            st = eng.base.clone()
            d = self.maker(eng, st) if self.maker else new_multidict(eng, st, self.cls, self.fields, self.vshape, self.kshape)
            vs = [f(eng, st) for f in args.values()]
            out.append((label, st, [d] + vs, {'names': list(args)}))
        return out

    def enter(self, eng, st, args, kw):
        a = dict(zip(['self'] + kw['names'], args))
        self.k = t.fresh('anykey', t.VAL)
        self.a, self.old = a, st
        pos = [v for n, v in zip(kw['names'], args[1:]) if not n.startswith('kw_')]
        kws = {n[3:]: v for n, v in zip(kw['names'], args[1:]) if n.startswith('kw_')}
        return a, lambda s: eng.call_method(s, None, args[0], self.method, pos, kws)

    def modifies(self, eng, st, a):
        return [(inner(st, a['self']), None)]

    def unchanged(self, eng, old, new, a):
        k, d = self.k, a['self']
        return [('keys unchanged', t.Eq(has(new, d, k), has(old, d, k))),
                ('lists unchanged', t.Implies(has(old, d, k), t.Eq(at(new, d, k), at(old, d, k))))]

    def effect(self, eng, old, new, a):
        if self.after_ is None:
            return self.unchanged(eng, old, new, a)
        k, d = self.k, a['self']
        h2, s2 = self.after_(eng, old, a, k)
        out = [('keys', t.Eq(has(new, d, k), h2)), ('lists', t.Implies(h2, t.Eq(at(new, d, k), s2)))]
        for n, v in a.items():
            if n != 'self' and isinstance(v, Ref) and isinstance(old.o(v), Lst):
                out.append(('the list given is not kept', own(eng, new, v)))
        return out

    def post(self, eng, old, new, a, out):
        if isinstance(out, Raise):
            if self.fails is None:
                return None
            c, exc = self.fails(eng, old, a)
            if not eng.isa(new.o(out.exc).cls, eng.cls_by_name(exc)):
                return [('raises only %s' % exc, t.FALSE)]
            return [('%s: when it should' % exc, c)] + [('%s: %s' % (exc, l), f) for l, f in self.unchanged(eng, old, new, a)]
        fs = []
        if self.fails is not None:
            fs.append(('no exception when one is due', t.Not(self.fails(eng, old, a)[0])))
        fs += self.effect(eng, old, new, a)
        if self.result is not None:
            fs += self.result(eng, old, new, a, out)
        else:
            fs.append(('returns None', t.lift(isinstance(out, NoneV))))
        return fs

    def invariants(self, eng, h):
        return self.inv(self, eng, h) if self.inv else []


MVD, IMVD = DS + ':MultiValueDict', DS + ':ImmutableMultiValueDict'
key = lambda eng, st: opaque('key')
val = lambda eng, st: opaque('value')
lis = lambda eng, st: lst(st, 'list')
none = lambda eng, st: NONE


def D(eng, st, a):
    return lambda k: has(st, a['self'], k)


def last(s):
    return t.nth(s, t.seqlen(s) - 1)


def replaced(new):
    """the list of the key becomes new(...)"""
    def f(eng, old, a, k):
        d, kk = a['self'], enc(a['key'])
        is_it = t.Eq(k, kk)
        return t.Or(has(old, d, k), is_it), t.Ite(is_it, new(eng, old, a), at(old, d, k))
    return f


def only_missing(new):
    def f(eng, old, a, k):
        d, kk = a['self'], enc(a['key'])
        fresh = t.And(t.Eq(k, kk), t.Not(has(old, d, kk)))
        return t.Or(has(old, d, k), t.Eq(k, kk)), t.Ite(fresh, new(eng, old, a), at(old, d, k))
    return f


def appended(eng, old, a, k):
    d, kk = a['self'], enc(a['key'])
    before = t.Ite(has(old, d, kk), at(old, d, kk), t.SEMPTY)
    return t.Or(has(old, d, k), t.Eq(k, kk)), t.Ite(t.Eq(k, kk), t.seqcat(before, t.unit(enc(a['value']))), at(old, d, k))


def removed(eng, old, a, k):
    d, kk = a['self'], enc(a['key'])
    return t.And(has(old, d, k), t.Not(t.Eq(k, kk))), at(old, d, k)


def item(eng, st, a, v, d=None, k=None, s=None):
    """v is the last value of the list under the key, or an empty list when there is none"""
    s = at(st, a['self'], enc(a['key'])) if s is None else s
    if isinstance(v, Ref) and isinstance(st.o(v), Lst):
        return t.And(t.Eq(s, t.SEMPTY), t.Eq(seq(eng, st, v), t.SEMPTY), own(eng, st, v))
    return t.And(t.Not(t.Eq(s, t.SEMPTY)), t.Eq(enc(v), last(s)))


def missing(exc):
    return lambda eng, old, a: (t.Not(has(old, a['self'], enc(a['key']))), exc)


def get_result(eng, old, new, a, v):
    d, kk = a['self'], enc(a['key'])
    s = at(old, d, kk)
    dflt = a.get('default', NONE)
    usable = t.And(has(old, d, kk), t.Not(t.Eq(s, t.SEMPTY)), t.TRUE if old.o(inner(old, d)).vshape[0] == 's' else t.Not(t.app('is_empty_list', t.BOOL, last(s))))
    if isinstance(v, Ref):
        return [('the last value or the default', t.FALSE)]
    return [('the last value or the default', t.Ite(usable, t.Eq(enc(v), last(s)), t.Eq(enc(v), enc(dflt))))]


def getlist_result(copy):
    def f(eng, old, new, a, v):
        d, kk = a['self'], enc(a['key'])
        dflt = a.get('default', NONE)
        if isinstance(v, Ref) and isinstance(dflt, Ref) and v.id == dflt.id:
            return [('default for a missing key only', t.Not(has(old, d, kk)))]
        s = seq(eng, new, v)
        want = t.Ite(has(old, d, kk), at(old, d, kk), t.SEMPTY)
        fs = [('the list of the key', t.Eq(s, want))]
        if not isinstance(dflt, NoneV):
            fs.append(('default for a missing key', has(old, d, kk)))
        if copy:
            fs.append(('a list of its own', own(eng, new, v)))
        else:
            fs.append(('the list itself', t.Or(t.Not(has(old, d, kk)), t.lift(new.o(v).view is not None and new.o(v).view[0] == inner(old, d).id))))
        return fs
    return f


def list_given(eng, old, a):
    v = a['list']
    if isinstance(v, Ref):
        return eng.lseq(old, v)
    return t.SEMPTY if isinstance(v, NoneV) else t.unit(enc(v))


def dflt_list(eng, old, a):
    return t.SEMPTY if 'list' not in a else list_given(eng, old, a)


def now_item(eng, old, new, a, v):
    return [('the value now under the key', item(eng, new, a, v))]


def now_list(eng, old, new, a, v):
    d, kk = a['self'], enc(a['key'])
    o = new.o(v) if isinstance(v, Ref) else None
    inside = o is not None and isinstance(o, Lst) and o.view is not None and o.view[0] == inner(old, d).id
    return [('the list that is in the dictionary', t.And(t.lift(inside), t.Eq(o.view[1], kk)) if inside else t.FALSE)]


def popped(eng, old, new, a, v):
    d, kk = a['self'], enc(a['key'])
    if 'default' in a and isinstance(v, Val) and v.t is enc(a['default']):
        return [('default for a missing key only', t.Not(has(old, d, kk)))]
    return [('the list of the key', t.And(has(old, d, kk), t.Eq(seq(eng, new, v), at(old, d, kk))))]


def pop_after(eng, old, a, k):
    return removed(eng, old, a, k)


def cleared(eng, old, a, k):
    return t.FALSE, t.SEMPTY


def mvd(method, forms, **kw):
    return DictOp(MVD, method, forms, **kw)


class Iter(DictOp):
    """A generator method: every key is delivered exactly once, with what `value` says about it."""

    def __init__(self, cls, method, value, **kw):
        DictOp.__init__(self, cls, method, [('', {})], **kw)
        self.value = value

    def post(self, eng, old, new, a, out):
        if isinstance(out, Raise):
            return None
        if not (isinstance(out, Ref) and isinstance(new.o(out), Gen)):
            return [('an iterator', t.FALSE)]
        d, k = a['self'], self.k
        s = new.clone()
        self.ghost = alloc(s, Obj(Ext('ext.ghost'), {'n': Int(t.I(0))}))

        def on_yield(st, x):
            kx, ok = self.value(self, eng, st, a, x, k)
            for l, f in ok:
                eng.oblige(l, st, f)
            st = st.clone()
            w = st.w(self.ghost)
            w.f['n'] = Int(t.add(w.f['n'].t, t.Ite(kx, t.I(1), t.I(0))))
            return [(st, None)]
        for s2, o in s.o(out).run(eng, s, on_yield):
            if isinstance(o, Raise):
                eng.oblige('no exception while iterating', s2, t.FALSE)
            else:
                eng.oblige('every key once', s2, t.Eq(s2.o(self.ghost).f['n'].t, t.Ite(has(old, d, k), t.I(1), t.I(0))))
                for l, f in self.unchanged(eng, old, s2, a):
                    eng.oblige(l, s2, f)
        return [('an iterator', t.TRUE)]

    def invariants(self, eng, h):
        return [('the key was delivered once or not yet', lambda st: t.Eq(
            st.o(self.ghost).f['n'].t, t.Ite(t.select(h.processed(st), self.k), t.I(1), t.I(0))))]


def pair_value(check):
    def f(con, eng, st, a, x, k):
        if not (isinstance(x, Tup) and len(x.items) == 2):
            return t.FALSE, [('pairs', t.FALSE)]
        kk = enc(x.items[0])
        return t.Eq(kk, k), [('a key of the dictionary', has(st, a['self'], kk)), ('its value', check(eng, st, a, x.items[1], kk))]
    return f


def items_value(eng, st, a, v, kk):
    return item(eng, st, a, v, s=at(st, a['self'], kk))


def lists_value(eng, st, a, v, kk):
    return t.Eq(seq(eng, st, v), at(st, a['self'], kk))


def only_value(con, eng, st, a, x, k):
    """values() delivers no keys: the value belongs to the key the iteration has just taken"""
    ks = [o.vars['$P'].t.args[1] for o in st.heap.values() if isinstance(o, Env) and '$P' in o.vars and o.vars['$P'].t.op == 'store']
    if len(ks) != 1:
        raise Unsupported('values() does not iterate over the dictionary itself')
    return t.Eq(ks[0], k), [('a key of the dictionary', has(st, a['self'], ks[0])), ('its value', item(eng, st, a, x, s=at(st, a['self'], ks[0])))]


# ------------------------------------------------------------------ update
def other_mvd(eng, st):
    return new_multidict(eng, st, MVD)


def other_dict(eng, st):
    return alloc(st, Dct('v', None, t.fresh('dom', t.AVB), t.fresh('map', t.AVV), ANY, ANY))


def ohas(st, r, k):
    o = st.o(r)
    return t.select(o.dom, k) if isinstance(o, Dct) else has(st, r, k)


def oseq(st, r, k):
    o = st.o(r)
    return t.unit(t.select(o.map, k)) if isinstance(o, Dct) else at(st, r, k)


def merged(eng, old, a, k):
    d, h, s = a['self'], None, None
    h, s = has(old, d, k), at(old, d, k)
    if 'other' in a:
        o = a['other']
        h, s = t.Or(h, ohas(old, o, k)), t.Ite(ohas(old, o, k), t.seqcat(t.Ite(h, s, t.SEMPTY), oseq(old, o, k)), s)
    for n, v in a.items():
        if n.startswith('kw_'):
            is_it = t.Eq(k, enc(Str(t.S(n[3:]), 'b')))
            h, s = t.Or(h, is_it), t.Ite(is_it, t.seqcat(t.Ite(h, s, t.SEMPTY), t.unit(enc(v))), s)
    return h, s


def merging(con, eng, h):
    if 'other' not in con.a:
        return []
    old, d, o, k = con.old, con.a['self'], con.a['other'], con.k

    def inv(st):
        p = t.select(h.processed(st), k)
        return t.And(t.Eq(has(st, d, k), t.Or(has(old, d, k), p)), t.Implies(p, ohas(old, o, k)),
                     t.Implies(has(st, d, k), t.Eq(at(st, d, k), t.Ite(p, t.seqcat(t.Ite(has(old, d, k), at(old, d, k), t.SEMPTY), oseq(old, o, k)), at(old, d, k)))))
    return [('what was taken over so far', inv)]


UPDATES = [('nothing', {}), ('a MultiValueDict', {'other': other_mvd}), ('a dict', {'other': other_dict}), ('keywords', {'kw_x': val, 'kw_y': val}),
           ('a MultiValueDict and keywords', {'other': other_mvd, 'kw_x': val})]


# ------------------------------------------------------------------ immutable containers
class Refused(DictOp):
    """a mutating operation of an immutable container: AttributeError with a text that says so, nothing changes"""

    def __init__(self, cls, method, forms, noop=None, **kw):
        DictOp.__init__(self, cls, method, forms, name='%s.%s refused' % (cls.split(':')[1], method), **kw)
        self.noop = noop

    def modifies(self, eng, st, a):
        return []

    def post(self, eng, old, new, a, out):
        fs = self.unchanged(eng, old, new, a)
        if not isinstance(out, Raise):
            return fs + [('returns only where there is nothing to do', self.noop(eng, old, a, self.k) if self.noop else t.FALSE)]
        e = new.o(out.exc)
        args = e.f.get('args')
        if isinstance(args, Tup) and len(args.items) == 1 and isinstance(args.items[0], Str) and not t.is_const(args.items[0].t):
            raise Unsupported('a message that is put together')
        said = isinstance(args, Tup) and len(args.items) == 1 and isinstance(args.items[0], Str) and t.is_const(args.items[0].t) \
            and 'immutable' in t.cval(args.items[0].t)
        return fs + [('AttributeError', t.lift(eng.isa(e.cls, Ext('AttributeError')))), ('says that it is immutable', t.lift(bool(said)))]


def nothing_given(eng, old, a, k):
    if any(n.startswith('kw_') for n in a):
        return t.FALSE
    return t.Not(ohas(old, a['other'], k)) if 'other' in a else t.TRUE


MUTATORS = [
    ('__setitem__', [('', {'key': key, 'value': val})]),
    ('__delitem__', [('', {'key': key})]),
    ('setlist', [('', {'key': key, 'list': lis}), ('None', {'key': key, 'list': none})]),
    ('setdefault', [('', {'key': key}), ('value', {'key': key, 'value': val})]),
    ('setlistdefault', [('', {'key': key}), ('list', {'key': key, 'list': lis})]),
    ('appendlist', [('', {'key': key, 'value': val})]),
    ('update', UPDATES),
    ('pop', [('', {'key': key}), ('default', {'key': key, 'default': val})]),
    ('popitem', [('', {})]),
    ('clear', [('', {})]),
]


class ListRefused(Contract):
    by_lookup = True
    METHODS = {'__delitem__': 1, '__delslice__': 2, '__iadd__': 1, '__imul__': 1, '__setitem__': 2, '__setslice__': 3, 'append': 1, 'extend': 1,
               'insert': 2, 'pop': 0, 'remove': 1, 'sort': 0, 'reverse': 0}

    def __init__(self):
        self.cls, self.name = DS + ':ImmutableList', 'ImmutableList refused'
        self.func = self.cls + '.complain'

    def setups(self, eng):
        eng.load(DS)
        out = []
        for m in self.METHODS:
            for kind in ('text', 'exception'):
                st = eng.base.clone()
                w = opaque('warning', ('s', 'b')) if kind == 'text' else alloc(st, Obj(Ext('RuntimeError'), {'args': Tup(())}))
                o = alloc(st, Obj(eng.cls_by_name(self.cls), {'$items': Tup((opaque('x'), opaque('y'))), 'warning': w}))
                out.append(('%s, %s' % (m, kind), st, [o] + [opaque('arg') for _ in range(self.METHODS[m])], {'m': m}))
        return out

    def enter(self, eng, st, args, kw):
        return {'self': args[0]}, lambda s: eng.call_method(s, None, args[0], kw['m'], args[1:])

    def post(self, eng, old, new, a, out):
        if not isinstance(out, Raise):
            return [('raises', t.FALSE)]
        w, e = old.o(a['self']).f['warning'], new.o(out.exc)
        if isinstance(w, Ref):
            return [('the exception given', t.lift(out.exc == w))]
        args = e.f.get('args')
        ok = isinstance(args, Tup) and len(args.items) == 1 and isinstance(args.items[0], Str)
        return [('AttributeError', t.lift(eng.isa(e.cls, Ext('AttributeError')))), ('with the warning', t.Eq(args.items[0].t, w.t) if ok else t.FALSE)]


class PopItem(DictOp):
    """popitem(): some key and its list, which is then gone; KeyError when there is none"""

    def post(self, eng, old, new, a, out):
        d, k = a['self'], self.k
        if isinstance(out, Raise):
            return [('KeyError', t.lift(eng.isa(new.o(out.exc).cls, Ext('KeyError')))), ('only when it is empty', t.Not(has(old, d, k)))] + \
                self.unchanged(eng, old, new, a)
        if not (isinstance(out, Tup) and len(out.items) == 2):
            return [('a pair', t.FALSE)]
        kk = enc(out.items[0])
        return [('a key that was there', has(old, d, kk)), ('its list', t.Eq(seq(eng, new, out.items[1]), at(old, d, kk))),
                ('it is gone and nothing else', t.Eq(has(new, d, k), t.And(has(old, d, k), t.Not(t.Eq(k, kk))))),
                ('the other lists', t.Implies(has(new, d, k), t.Eq(at(new, d, k), at(old, d, k))))]


QD = REQ + ':QueryDict'
UTEXT = ('s', 'u')


def query_dict(mutable):
    def make(eng, st):
        eng.load(REQ)
        eng.load(SET)
        limit = t.fresh('limit', t.INT)
        encoding = t.fresh('encoding', t.STR)
        st.pc = st.pc + (t.le(0, limit), t.Not(t.Eq(encoding, t.EMPTY)))
        settings = alloc(st, Obj(eng.cls_by_name(SET + ':Settings'), {
            'DEFAULT_CHARSET': Str(t.fresh('charset', t.STR), 'b'), 'DATA_UPLOAD_MAX_NUMBER_FIELDS': Int(limit), '$open': True}))
        return new_multidict(eng, st, QD, {'settings': settings, '_encoding': Str(encoding, 'b'), '_mutable': Bool(t.lift(mutable))},
                             UTEXT, UTEXT)
    return make


def text_of(old, a, v):
    """what a QueryDict stores for a value: bytes decoded in its encoding (with replacement), anything else as it is"""
    from pyvc.builtins_spec import codec_term
    if isinstance(v, Str) and v.k == 'b':
        return t.VS(t.app('decoded', t.STR, v.t, codec_term(old.o(a['self']).f['_encoding'])))
    return enc(v)


def all_text(s, e):
    """the list with every element decoded"""
    return t.app('all_decoded', t.SEQ, s, e)


@solve.axiom('all_decoded')
def _all_text_ax(s, e):
    r = all_text(s, e)
    if s is t.SEMPTY:
        return [t.Eq(r, t.SEMPTY)]
    if s.op in ('seq.++', 'seq.unit'):
        lastx = s.args[-1].args[0] if s.op == 'seq.++' and s.args[-1].op == 'seq.unit' else s.args[0] if s.op == 'seq.unit' else None
        if lastx is not None:
            before = all_text(t.seqcat(*s.args[:-1]), e) if s.op == 'seq.++' else t.SEMPTY
            return [t.Eq(r, t.seqcat(before, t.unit(t.VS(t.app('decoded', t.STR, t.sel('vs', lastx), e)))))]
    return []


def q(k, n='key'):
    return lambda eng, st: opaque(n, ('s', k))


def qlis(k):
    return lambda eng, st: lst(st, 'list', ('s', k))


def qkeyed(after):
    """an effect on the decoded key"""
    def f(eng, old, a, k):
        b = dict(a)
        b['key'] = Val(text_of(old, a, a['key']), UTEXT)
        for n in ('value',):
            if n in a:
                b[n] = Val(text_of(old, a, a[n]), UTEXT)
        return after(eng, old, b, k)
    return f


def qitem(eng, old, new, a, v):
    return now_item(eng, old, new, dict(a, key=Val(text_of(old, a, a['key']), UTEXT)), v)


def qlist(eng, old, a):
    from pyvc.builtins_spec import codec_term
    l = a['list']
    s = eng.lseq(old, l)
    return all_text(s, codec_term(old.o(a['self']).f['_encoding'])) if old.o(l).shape == ('s', 'b') else s


def qlist_inv(con, eng, h):
    from pyvc.builtins_spec import codec_term
    e = codec_term(con.old.o(con.a['self']).f['_encoding'])
    out = []
    for n, g in h.lists():
        out.append(('%s is what was taken' % n, lambda st, g=g: t.Eq(g(st), h.done(st))))
        out.append(('%s is what was taken, decoded' % n, lambda st, g=g: t.Eq(g(st), all_text(h.done(st), e))))
    return out


def qd(method, forms, **kw):
    return DictOp(QD, method, forms, maker=query_dict(True), **kw)


def kv(**kw):
    return [(k, dict((n, f(k)) for n, f in kw.items())) for k in 'ub']


qval = lambda k: q(k, 'value')
TEXT_KEY = [('', {'key': q('u')})]

QUERY = [
    qd('__getitem__', TEXT_KEY, result=lambda eng, old, new, a, v: [('last value', item(eng, new, a, v))], fails=missing(DS + ':MultiValueDictKeyError')),
    qd('get', TEXT_KEY + [('default', {'key': q('u'), 'default': val})], result=get_result),
    qd('getlist', TEXT_KEY + [('default', {'key': q('u'), 'default': qlis('u')})], result=getlist_result(True)),
    qd('__contains__', TEXT_KEY, result=lambda eng, old, new, a, v: [('whether there is a list', t.Eq(v.t, has(old, a['self'], enc(a['key']))))]),
    qd('__setitem__', kv(key=q, value=qval) + [('None', {'key': q('u'), 'value': none})], after=qkeyed(replaced(lambda eng, old, a: t.unit(enc(a['value']))))),
    qd('setlist', kv(key=q, list=qlis), after=qkeyed(replaced(qlist)), invariants=qlist_inv),
    qd('appendlist', kv(key=q, value=qval), after=qkeyed(appended)),
    qd('setdefault', kv(key=q, value=qval) + [('None', {'key': q('u')})], after=qkeyed(only_missing(lambda eng, old, a: t.unit(enc(a.get('value', NONE))))),
       result=qitem),
    qd('setlistdefault', TEXT_KEY + [('list', {'key': q('u'), 'list': qlis('u')})], after=only_missing(dflt_list), result=now_list, invariants=qlist_inv),
    qd('__delitem__', TEXT_KEY, after=removed, fails=missing('KeyError')),
    qd('pop', TEXT_KEY, after=removed, result=popped, fails=missing('KeyError')),
    qd('pop', [('', {'key': q('u'), 'default': val})], after=removed, result=popped, name='QueryDict.pop with default'),
    PopItem(QD, 'popitem', [('', {})], maker=query_dict(True)),
    qd('clear', [('', {})], after=cleared),
    qd('update', [('nothing', {}), ('a QueryDict', {'other': query_dict(False)})], after=merged, invariants=merging),
]

# ------------------------------------------------------------------ copies
def deep_list(st, s, shape):
    return s if shape[0] in 'sibn' else t.app('deepcopies', t.SEQ, s)


class CopyOp(DictOp):
    """copy.copy, copy.deepcopy and copy(): an object of the same class with the same keys and with lists of its own"""

    def __init__(self, cls, how, deep, maker=None, kshape=ANY):
        DictOp.__init__(self, cls, {'copy.copy': '__copy__', 'copy.deepcopy': '__deepcopy__'}.get(how, how), [('', {})],
                        name='%s of %s' % (how, cls.split(':')[1]), maker=maker, kshape=kshape)
        self.how, self.deep = how, deep

    def enter(self, eng, st, args, kw):
        a, f = DictOp.enter(self, eng, st, args, kw)
        if '.' in self.how:
            from pyvc.sym import EXT
            f = lambda s: EXT[self.how](eng, s, None, [args[0]], {})
        return a, f

    def modifies(self, eng, st, a):
        return []

    def wanted(self, s):
        sh = self.old.o(inner(self.old, self.a['self'])).vshape
        return deep_list(self.old, s, sh) if self.deep else s

    def post(self, eng, old, new, a, out):
        d, k = a['self'], self.k
        if isinstance(out, Raise):
            return None
        if not (isinstance(out, Ref) and isinstance(new.o(out), Obj) and '$d' in new.o(out).f):
            return [('a dictionary', t.FALSE)]
        o, src = new.o(out), old.o(d)
        ind, ins = new.o(o.f['$d']), new.o(src.f['$d'])
        if ind.n == 'shared' or ins.n == 'shared':
            raise Unsupported('lists shared by two dictionaries')
        fs = [('same class', t.lift(o.cls is src.cls)), ('another object', t.lift(out.id != d.id and o.f['$d'].id != src.f['$d'].id)),
              ('the same keys', t.Eq(has(new, out, k), has(old, d, k))),
              ('the same lists', t.Implies(has(old, d, k), t.Eq(at(new, out, k), self.wanted(at(old, d, k)))))]
        fs += [('original: %s' % l, f) for l, f in self.unchanged(eng, old, new, a)]
        fs.append(('original: attributes', t.And(*[t.Eq(enc(v), enc(new.o(d).f[n])) if n in new.o(d).f else t.FALSE
                                                   for n, v in src.f.items() if n[0] != '$'])))
        if '_mutable' in src.f:
            m = o.f.get('_mutable')
            fs += [('mutable', m.t if isinstance(m, Bool) else t.FALSE), ('encoding', t.Eq(enc(o.f['_encoding']), enc(src.f['_encoding']))),
                   ('settings', t.lift(o.f.get('settings') == src.f['settings']))]
        return fs

    def invariants(self, eng, h):
        old, d, k = self.old, self.a['self'], self.k
        out = []

        def copied(dom, m):
            def f(st):
                if dom(st) is None:
                    return t.FALSE
                p = t.select(h.processed(st), k)
                return t.And(t.Eq(t.select(dom(st), k), p), t.Implies(p, t.Eq(t.select(m(st), k), self.wanted(at(old, d, k)))))
            return f
        for n, g in h.lists():
            out.append(('%s: copied so far' % n, copied(lambda st, g=g: t.app('assoc_dom', t.AVB, g(st)), lambda st, g=g: t.app('assoc_map', t.AVS, g(st)))))
            out.append(('%s: whole' % n, lambda st, g=g: t.Eq(g(st), h.done(st))))
        for r in h.wholes(Dct):
            if r.id != inner(old, d).id:
                empty = lambda st, r: st.o(r).mode == 'c' and not st.o(r).items
                out.append(('dictionary: copied so far', copied(lambda st, r=r: t.constarr(t.AVB, t.FALSE) if empty(st, r) else st.o(r).dom,
                                                                lambda st, r=r: t.constarr(t.AVS, t.SEMPTY) if empty(st, r) else st.o(r).map)))
        return out


COPIES = [CopyOp(c, how, deep, kshape=UTEXT if deep else ANY) for c in (MVD, IMVD)
          for how, deep in (('copy.copy', False), ('copy.deepcopy', True), ('copy', False))] + [
    CopyOp(QD, how, deep, maker=query_dict(m)) for m in (False,) for how, deep in (('copy.copy', False), ('copy.deepcopy', True), ('copy', True))]

CONTRACTS = COPIES + QUERY + [Refused(IMVD, m, f) for m, f in MUTATORS] + [
    Refused(QD, m, f, maker=query_dict(False), noop=nothing_given if m == 'update' else None) for m, f in MUTATORS] + [
    ListRefused(),

    mvd('__getitem__', [('', {'key': key})], result=lambda eng, old, new, a, v: [('last value', item(eng, new, a, v))],
        fails=missing(DS + ':MultiValueDictKeyError')),
    mvd('get', [('', {'key': key}), ('default', {'key': key, 'default': val})], result=get_result),
    mvd('_getlist', [('', {'key': key}), ('default', {'key': key, 'default': lis})], result=getlist_result(False)),
    mvd('getlist', [('', {'key': key}), ('default', {'key': key, 'default': lis})], result=getlist_result(True)),
    mvd('__setitem__', [('', {'key': key, 'value': val})], after=replaced(lambda eng, old, a: t.unit(enc(a['value'])))),
    mvd('setlist', [('list', {'key': key, 'list': lis}), ('None', {'key': key, 'list': none}), ('one value', {'key': key, 'list': lambda eng, st: opaque('value', ('s', 'u'))})],
        after=replaced(list_given)),
    mvd('setdefault', [('', {'key': key, 'value': val}), ('None', {'key': key})],
        after=only_missing(lambda eng, old, a: t.unit(enc(a.get('value', NONE)))), result=now_item),
    mvd('setlistdefault', [('', {'key': key}), ('list', {'key': key, 'list': lis})], after=only_missing(dflt_list), result=now_list),
    mvd('appendlist', [('', {'key': key, 'value': val})], after=appended),
    mvd('__delitem__', [('', {'key': key})], after=removed, fails=missing('KeyError')),
    mvd('pop', [('', {'key': key})], after=removed, result=popped, fails=missing('KeyError')),
    mvd('pop', [('', {'key': key, 'default': val})], after=removed, result=popped, name='MultiValueDict.pop with default'),
    PopItem(MVD, 'popitem', [('', {})]),
    mvd('clear', [('', {})], after=cleared),
    mvd('__contains__', [('', {'key': key})],
        result=lambda eng, old, new, a, v: [('whether there is a list', t.Eq(v.t, has(old, a['self'], enc(a['key']))))]),
    Iter(MVD, 'items', pair_value(items_value)),
    Iter(MVD, 'values', only_value),
    Iter(MVD, 'lists', pair_value(lists_value)),
    mvd('update', UPDATES, after=merged, invariants=merging),
]


# ------------------------------------------------------------------ QueryDict from a query string (P11)
def vals_of(pairs, k):
    """the values that a list of pairs has for a key, in order"""
    return t.app('vals_of', t.SEQ, pairs, k)


@solve.axiom('vals_of')
def _vals_of_ax(pairs, k):
    r = vals_of(pairs, k)
    if pairs is t.SEMPTY:
        return [t.Eq(r, t.SEMPTY)]
    if pairs.op in ('seq.++', 'seq.unit'):
        last = pairs.args[-1] if pairs.op == 'seq.++' else pairs
        if last.op == 'seq.unit':
            before = vals_of(t.seqcat(*pairs.args[:-1]), k) if pairs.op == 'seq.++' else t.SEMPTY
            p = last.args[0]
            return [t.Eq(r, t.Ite(t.Eq(t.sel('p1', p), k), t.seqcat(before, t.unit(t.sel('p2', p))), before))]
    return []


class QueryInit(Contract):
    """QueryDict(settings, query, mutable, encoding): for every name the values that the query has for it, in order, decoded in the
    encoding (or the default of the settings); TooManyFieldsSent above the limit of the settings"""
    name = 'QueryDict.__init__'
    func = QD + '.__init__'

    def setups(self, eng):
        out = []
        eng.load(REQ)
        for q_ in ('none', 'b', 'u'):
            for e in ('none', 'encoding'):
                for limited in (True, False):
                    st = eng.base.clone()
                    settings = alloc(st, Obj(Ext('ext.settings'), {
                        'DEFAULT_CHARSET': Str(t.fresh('charset', t.STR), 'b'), 'DATA_UPLOAD_MAX_NUMBER_FIELDS': Int(t.fresh('limit', t.INT)) if limited else NONE,
                        '$closed': Bool(t.TRUE)}))
                    d = alloc(st, Obj(eng.cls_by_name(QD), {'$d': alloc(st, Dct())}))
                    out.append(('%s, %s, %s' % (q_, e, 'limit' if limited else 'no limit'), st, [
                        d, settings, NONE if q_ == 'none' else Str(t.fresh('query', t.STR), q_), Bool(t.fresh('mutable', t.BOOL)),
                        NONE if e == 'none' else Str(t.fresh('encoding', t.STR), 'b')], {}))
        return out

    def applicable(self, eng, st, a):
        d = st.o(inner(st, a['self']))
        return d.mode == 'c' and not d.items and isinstance(a['mutable'], Bool) and isinstance(a['query_string'], Str) and \
            isinstance(a['encoding'], (Str, NoneV)) and a['query_string'].t is not t.EMPTY

    def key(self):
        if not hasattr(self, 'k'):
            self.k = t.fresh('anykey', t.VAL)
        return self.k

    def limit(self, st, a):
        return st.o(a['settings']).f['DATA_UPLOAD_MAX_NUMBER_FIELDS']

    def pre(self, eng, st, a):
        n = self.limit(st, a)
        return [('the limit is not negative', t.le(0, n.t))] if isinstance(n, Int) else []

    def modifies(self, eng, st, a):
        r = a['self']
        return [(r, x) for x in ('settings', '_encoding', '_mutable')] + [(inner(st, r), None)]

    def encoding(self, st, a):
        dflt = st.o(a['settings']).f['DEFAULT_CHARSET'].t
        e = a['encoding']
        return dflt if isinstance(e, NoneV) else t.Ite(t.Eq(e.t, t.EMPTY), dflt, e.t)

    def pairs(self, st, a):
        """(pairs, too many): of the text of the query"""
        from pyvc.libspec import resplit_term
        from .httputil import SEPARATORS, qs_pairs
        e, qs = self.encoding(st, a), a['query_string']
        if isinstance(qs, NoneV):
            return t.SEMPTY, t.FALSE
        text = qs.t
        if qs.k == 'b':
            text = t.Ite(t.Eq(qs.t, t.EMPTY), t.EMPTY, t.Ite(t.app('decodable', t.BOOL, qs.t, e), t.app('decoded', t.STR, qs.t, e), qs.t))
        pieces = resplit_term(text, SEPARATORS)
        n = self.limit(st, a)
        many = t.FALSE if isinstance(n, NoneV) else t.And(t.lt(0, n.t), t.lt(n.t, t.seqlen(pieces)))
        none = t.Eq(qs.t, t.EMPTY)
        return t.Ite(none, t.SEMPTY, qs_pairs(pieces, t.TRUE, e, t.S('replace'))), t.And(t.Not(none), many)

    def invariants(self, eng, h):
        k = self.key()
        out = []
        for r in h.wholes(Dct):
            def values(st, r=r):
                o = st.o(r)
                return t.SEMPTY if o.mode == 'c' else t.Ite(t.select(o.dom, k), t.select(o.map, k), t.SEMPTY)

            def there(st, r=r):
                o = st.o(r)
                return t.FALSE if o.mode == 'c' else t.select(o.dom, k)
            out.append(('the values so far', lambda st, values=values: t.Eq(values(st), vals_of(h.done(st), k))))
            out.append(('no key without values', lambda st, values=values, there=there: t.Iff(there(st), t.Not(t.Eq(values(st), t.SEMPTY)))))
        return out

    def cases(self, eng, st, a):
        r = a['self']
        pairs, many = self.pairs(st, a)
        e = self.encoding(st, a)
        own = eng.target is self

        def make(eng, st, a):
            f = st.w(r).f
            f['settings'], f['_encoding'], f['_mutable'] = a['settings'], Str(e, 'b'), a['mutable']
            d = st.w(f['$d'])
            d.mode, d.items, d.kshape, d.vshape = 'l', [], UTEXT, UTEXT
            d.dom, d.map = t.fresh('dom', t.AVB), t.fresh('map', t.AVS)
            return NONE

        def ens(eng, old, new, a, v):
            f = new.o(r).f
            out = [('within the limit', t.Not(many)), ('the encoding', t.Eq(f['_encoding'].t, e)), ('mutable as asked', t.Eq(f['_mutable'].t, a['mutable'].t)),
                   ('the settings', t.lift(f['settings'] == a['settings']))]
            if own:
                k = self.key()
                want = vals_of(pairs, k)
                out += [('a name is there if the query has it', t.Iff(has(new, r, k), t.Not(t.Eq(want, t.SEMPTY)))),
                        ('all its values in order', t.Implies(has(new, r, k), t.Eq(at(new, r, k), want)))]
            return out
        return [Case('ret', make, ens), raises('request_parser.exceptions.exceptions:TooManyFieldsSent', lambda *x: [('over the limit', many)])]


CONTRACTS.append(QueryInit())
