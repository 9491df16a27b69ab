"""Contracts of the multipart machinery (request_parser/http/multipartparser.py)."""
from pyvc import terms as t
from pyvc import solve
from pyvc.contract import Case, Contract, raises
from pyvc.values import *
from .streams import DS, EXC, SUSPICIOUS, history, is_stream, new_stream, new_producer, pos, rest, stream_locs

MP = 'request_parser.http.multipartparser'
EXHAUSTED = EXC + ':InputStreamExhausted'
CR, LF = t.S('\r'), t.S('\n')


# ---- the specification: where a part ends
def trim(x):
    """a part without the line break (LF, then CR) before the separator"""
    y = t.Ite(t.suffixof(LF, x), t.substr(x, 0, t.slen(x) - 1), x)
    return t.Ite(t.suffixof(CR, y), t.substr(y, 0, t.slen(y) - 1), y)


def content(r, b):
    i = t.indexof(r, b, 0)
    return t.Ite(t.contains(r, b), trim(t.substr(r, 0, i)), r)


def after(r, b):
    i = t.indexof(r, b, 0)
    return t.Ite(t.contains(r, b), t.substr(r, i + t.slen(b), t.slen(r)), t.EMPTY)


def separator():
    return Str(t.fresh('boundary', t.STR), 'b')


def boundary_iter(eng, st, done=None):
    """an arbitrary BoundaryIter on an arbitrary stream that never delivers empty chunks"""
    eng.load(MP)
    p = new_producer(st, nonempty=True)
    s = new_stream(eng, st, producer=p)
    b = separator()
    f = {'_stream': s, '_boundary': b, '_done': Bool(t.fresh('done', t.BOOL)) if done is None else done,
         '_rollback': Int(t.fresh('rollback', t.INT))}
    return alloc(st, Obj(eng.cls_by_name(MP + ':BoundaryIter'), f))


def bounded_ints(h):
    """a changed int stays at most an unchanged local one"""
    out = []
    env = h.entry.o(h.fr.env).vars
    changed = {n for (i, n) in h.H if i == h.fr.env.id}
    for i, ig in h.ints():
        for n, v in env.items():
            if isinstance(v, Int) and n not in changed:
                out.append(('%s <= %s' % (i, n), lambda st, ig=ig, v=v: t.le(ig(st), v.t)))
    for i, sg in h.strs():
        for n, v in env.items():
            if isinstance(v, Int) and n not in changed:
                out.append(('len(%s) <= %s' % (i, n), lambda st, sg=sg, v=v: t.le(t.slen(sg(st)), v.t)))
    return out


def sound_separator(b):
    return t.And(t.lt(0, t.slen(b)), t.Not(t.Eq(t.substr(b, 0, 1), CR)), t.Not(t.Eq(t.substr(b, 0, 1), LF)))


class BIter(Contract):
    def parts(self, st, a):
        f = st.o(a['self']).f
        return f['_stream'], f['_boundary'].t


class FindBoundary(Contract):
    """_find_boundary(data): where the part ends and where the next one begins, None without a separator"""
    name = 'BoundaryIter._find_boundary'
    func = MP + ':BoundaryIter._find_boundary'

    def setups(self, eng):
        st = eng.base.clone()
        it = boundary_iter(eng, st)
        return [('', st, [it, Str(t.fresh('data', t.STR), 'b')], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['data'], Str)

    def pre(self, eng, st, a):
        return [('the separator is not empty and no line break', sound_separator(st.o(a['self']).f['_boundary'].t))]

    def cases(self, eng, st, a):
        b = st.o(a['self']).f['_boundary'].t
        d = a['data'].t

        def pair(eng, st, a):
            return Tup((Int(t.fresh('end', t.INT)), Int(t.fresh('next', t.INT))))

        def found(eng, old, new, a, v):
            end, nxt = v.items[0].t, v.items[1].t
            i = t.indexof(d, b, 0)
            return [('there is a separator', t.contains(d, b)),
                    ('the next part begins behind the first separator', t.Eq(nxt, i + t.slen(b))),
                    ('the part ends before the line break before it', t.And(
                        t.le(0, end), t.le(end, i), t.Eq(t.substr(d, 0, end), trim(t.substr(d, 0, i)))))]

        def none(eng, old, new, a, v):
            return [('there is no separator', t.Not(t.contains(d, b)))]
        return [Case('ret', pair, found, match=lambda eng, st, v: isinstance(v, Tup), label='found'),
                Case('ret', None, none, match=lambda eng, st, v: isinstance(v, NoneV), label='none')]


class BoundaryNext(BIter):
    """next(): what is returned, followed by what later calls return, is exactly the content of the part"""
    name = 'BoundaryIter.next'
    func = MP + ':BoundaryIter.next'
    lemmas = True

    def setups(self, eng):
        st = eng.base.clone()
        return [('', st, [boundary_iter(eng, st)], {})]

    def pre(self, eng, st, a):
        s, b = self.parts(st, a)
        return [('the separator is not empty and no line break', sound_separator(b)),
                ('it keeps back at least the separator and a byte', t.lt(t.slen(b), st.o(a['self']).f['_rollback'].t))]

    def modifies(self, eng, st, a):
        return stream_locs(st, st.o(a['self']).f['_stream']) + [(a['self'], '_done')]

    def invariants(self, eng, h):
        s = None
        for i, o in h.entry.heap.items():
            if is_stream(eng, h.entry, Ref(i)):
                s = Ref(i)
        r0 = rest(eng, h.entry, s)
        out = []
        from pyvc.builtins_spec import join_term
        for name, g in h.lists():
            acc = lambda st, g=g: join_term(t.EMPTY, g(st))
            out.append(('%s ++ rest is what there was' % name, lambda st, acc=acc: t.Eq(r0, t.concat(acc(st), rest(eng, st, s)))))
            out.append(('%s is empty only if nothing was read' % name, lambda st, acc=acc, g=g: t.Iff(t.Eq(g(st), t.SEMPTY), t.Eq(acc(st), t.EMPTY))))
            for i, ig in h.ints():
                out.append(('%s is the size of %s' % (i, name), lambda st, acc=acc, ig=ig: t.Eq(ig(st), t.slen(acc(st)))))
        for name, g in h.strs():
            out.append(('%s ++ rest is what there was' % name, lambda st, g=g: t.Eq(r0, t.concat(g(st), rest(eng, st, s)))))
            for i, ig in h.ints():
                out.append(('%s is the size of %s' % (i, name), lambda st, g=g, ig=ig: t.Eq(ig(st), t.slen(g(st)))))
        return out + bounded_ints(h)

    def cases(self, eng, st, a):
        it = a['self']
        s, b = self.parts(st, a)
        done = lambda st: st.o(it).f['_done'].t

        def left(eng, st):
            return t.Ite(done(st), t.EMPTY, content(rest(eng, st, s), b))

        def ens(eng, old, new, a, v):
            r0, r1 = rest(eng, old, s), rest(eng, new, s)
            return [('the iterator was not done', t.Not(done(old))),
                    ('the bytes are the front of the part', t.Eq(content(r0, b), t.concat(v.t, left(eng, new)))),
                    ('what follows the part stays', t.Implies(t.Not(done(new)), t.Eq(after(r1, b), after(r0, b)))),
                    ('at the end of the part the stream is behind the separator', t.Implies(done(new), t.Eq(r1, after(r0, b))))]

        def stop(eng, old, new, a, v):
            r0, r1 = rest(eng, old, s), rest(eng, new, s)
            return [('the part is delivered', t.Eq(left(eng, old), t.EMPTY)),
                    ('nothing is taken from what follows', t.Ite(done(old), t.Eq(r1, r0), t.Eq(r1, after(r0, b)))),
                    ('it is done', done(new))]
        return [Case('ret', lambda eng, st, a: Str(t.fresh('bytes', t.STR), 'b'), ens), raises('StopIteration', stop),
                raises(SUSPICIOUS, lambda *x: [])]


def iter_fields(eng, old, new, it, s, b):
    """what makes an object an iterator over one part of s"""
    o = new.o(it)
    r0, r1 = rest(eng, old, s), rest(eng, new, s)
    return [('it reads this stream', t.lift(o.f.get('_stream') == s)), ('up to this separator', t.Eq(o.f['_boundary'].t, b)),
            ('it has yielded nothing', t.Not(o.f['_done'].t)), ('it keeps back at least the separator and a byte', t.lt(t.slen(b), o.f['_rollback'].t)),
            ('nothing is taken from the stream', t.Eq(r1, r0)), ('there is something to read', t.Not(t.Eq(r0, t.EMPTY)))]


class BoundaryInit(Contract):
    """BoundaryIter(stream, separator): an iterator over the part that begins here; InputStreamExhausted if the stream is at its end"""
    name = 'BoundaryIter.__init__'
    func = MP + ':BoundaryIter.__init__'

    def setups(self, eng):
        st = eng.base.clone()
        eng.load(MP)
        s = new_stream(eng, st)
        return [('', st, [alloc(st, Obj(eng.cls_by_name(MP + ':BoundaryIter'), {})), s, separator()], {})]

    def applicable(self, eng, st, a):
        return is_stream(eng, st, a['stream']) and isinstance(a['boundary'], Str)

    def modifies(self, eng, st, a):
        return stream_locs(st, a['stream']) + [(a['self'], '*')]

    def cases(self, eng, st, a):
        it, s, b = a['self'], a['stream'], a['boundary']

        def make(eng, st, a):
            st.w(it).f.update(_stream=s, _boundary=b, _done=Bool(t.FALSE), _rollback=Int(t.fresh('rollback', t.INT)))
            return NONE
        return [Case('ret', make, lambda eng, old, new, a, v: iter_fields(eng, old, new, it, s, b.t)),
                raises(EXHAUSTED, lambda eng, old, new, a, v: [('the stream is at its end', t.Eq(rest(eng, old, s), t.EMPTY)), ('and stays there', t.Eq(rest(eng, new, s), t.EMPTY))]),
                raises(SUSPICIOUS, lambda *x: [])]


class InterNext(Contract):
    """InterBoundaryIter.next(): a stream of the part that begins here, StopIteration at the end of the body"""
    name = 'InterBoundaryIter.next'
    func = MP + ':InterBoundaryIter.next'

    def setups(self, eng):
        st = eng.base.clone()
        eng.load(MP)
        s = new_stream(eng, st)
        return [('', st, [alloc(st, Obj(eng.cls_by_name(MP + ':InterBoundaryIter'), {'_stream': s, '_boundary': separator()}))], {})]

    def modifies(self, eng, st, a):
        return stream_locs(st, st.o(a['self']).f['_stream'])

    def cases(self, eng, st, a):
        f = st.o(a['self']).f
        s, b = f['_stream'], f['_boundary'].t

        def ens(eng, old, new, a, v):
            o = new.o(v)
            p = o.f['_producer']
            ok = isinstance(p, Ref) and isinstance(new.o(p), Obj) and getattr(new.o(p).cls, 'qual', '') == MP + ':BoundaryIter'
            return [('a fresh stream over an iterator of the part', t.lift(ok)), ('nothing in front of it', t.Eq(o.f['_leftover'].t, t.EMPTY)),
                    ('at its beginning', t.Eq(o.f['position'].t, t.I(0))), ('of no given length', t.lift(isinstance(o.f['_remaining'], NoneV)))] + (
                iter_fields(eng, old, new, p, s, b) if ok else [])

        def stop(eng, old, new, a, v):
            return [('the stream is at its end', t.Eq(rest(eng, old, s), t.EMPTY)), ('and stays there', t.Eq(rest(eng, new, s), t.EMPTY))]
        return [Case('ret', None, ens, match=lambda eng, st, v: is_stream(eng, st, v)), raises('StopIteration', stop), raises(SUSPICIOUS, lambda *x: [])]


CONTRACTS = [FindBoundary(), BoundaryNext(), BoundaryInit(), InterNext()]
