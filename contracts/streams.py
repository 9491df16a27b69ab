"""Contracts of LazyStream and ChunkIter (request_parser/utils/datastructures.py).

Abstraction: rest(stream) = stream._leftover ++ (all the bytes its producer still has).  Everything is stated over it."""
from pyvc import terms as t
from pyvc import solve
from pyvc.contract import Case, Contract, raises
from pyvc.values import *

DS = 'request_parser.utils.datastructures'
EXC = 'request_parser.exceptions.exceptions'
FIELDS = ['_leftover', 'position', '_unget_history']


def count_term(seq, n):
    """number of elements of an int list equal to n (recursive spec function over concatenations)"""
    return t.app('count_eq', t.INT, seq, n)


@solve.axiom('count_eq')
def _count_ax(seq, n):
    r = count_term(seq, n)
    if seq is t.SEMPTY:
        return [t.Eq(r, 0)]
    if seq.op == 'seq.++':
        return [t.Eq(r, t.add(*[count_term(x, n) for x in seq.args]))]
    if seq.op == 'seq.unit':
        return [t.Eq(r, t.Ite(t.Eq(t.sel('vi', seq.args[0]), n), t.I(1), t.I(0)))]
    fs = [t.le(0, r), t.le(r, t.seqlen(seq)), t.Implies(t.Eq(seq, t.SEMPTY), t.Eq(r, 0))]
    if seq.op == 'seq.extract':
        fs.append(t.le(r, count_term(seq.args[0], n)))      # additivity over whole = before ++ part ++ after
    return fs


def new_producer(st, nonempty=False, fails=False):
    f = {'$rem': Str(t.fresh('rem', t.STR), 'b')}
    if nonempty:
        f['$nonempty'] = Bool(t.TRUE)
    if fails:
        f['$err'] = Tup((Int(t.fresh('errno', t.INT)), Str(t.fresh('strerror', t.STR), 'b')))
    return alloc(st, Obj(Ext('ext.producer'), f))


def new_stream(eng, st, length=False, producer=None):
    """an arbitrary LazyStream; length: whether the stream was given a length"""
    eng.load(DS)
    cls = eng.cls_by_name(DS + ':LazyStream')
    rem = Int(t.fresh('length', t.INT)) if length else NONE
    h = alloc(st, Lst(None, t.fresh('history', t.SEQ), ('i',)))
    f = {'_producer': producer or new_producer(st), '_empty': Bool(t.FALSE), '_leftover': Str(t.fresh('leftover', t.STR), 'b'),
         'length': rem, 'position': Int(t.fresh('position', t.INT)), '_remaining': rem, '_unget_history': h}
    return alloc(st, Obj(cls, f))


def is_stream(eng, st, v):
    return isinstance(v, Ref) and isinstance(st.o(v), Obj) and isinstance(st.o(v).cls, Cls) and \
        st.o(v).cls.qual == DS + ':LazyStream'


def producer_rem(eng, st, p):
    o = st.o(p)
    if isinstance(o, Obj) and isinstance(o.cls, Ext) and o.cls.name == 'ext.producer':
        return o.f['$rem'].t
    if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.name == 'LazyStream':
        return rest(eng, st, p)
    if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.name == 'ChunkIter':
        return st.o(o.f['flo']).f['$rem'].t
    raise Unsupported('producer %r' % (o,))


def rest(eng, st, s):
    f = st.o(s).f
    return t.concat(f['_leftover'].t, producer_rem(eng, st, f['_producer']))


def pos(st, s):
    return st.o(s).f['position'].t


def history(eng, st, s):
    return eng.lseq(st, st.o(s).f['_unget_history'])


def stream_locs(st, s):
    p = st.o(s).f['_producer']
    return [(s, f) for f in FIELDS] + [(p, '$rem')]


def io_error(old, s):
    """the case of a producer that fails: its exception comes through"""
    p = old.o(old.o(s).f['_producer'])
    if not (isinstance(p, Obj) and '$err' in p.f):
        return []
    return [Case('raise', lambda eng, st, a: alloc(st, Obj(Ext('IOError'), {'args': p.f['$err']})),
                 lambda eng, old, new, a, v: [('the error of the producer', t.lift(new.o(v).f['args'] == p.f['$err']))], 'IOError')]


SUSPICIOUS = EXC + ':SuspiciousMultipartForm'


class StreamContract(Contract):
    lengths = (False,)
    nonempty = (False,)
    fails = (False,)

    def setups(self, eng):
        out = []
        for l in self.lengths:
            for ne in self.nonempty:
                for fa in self.fails:
                    st = eng.base.clone()
                    s = new_stream(eng, st, l, new_producer(st, ne, fa))
                    st = eng.sync(st)
                    for label, args in self.args(eng, st, s):
                        out.append((('length' if l else '') + label + ('no empty chunks' if ne else '') + (' failing producer' if fa else ''),
                                    st, [s] + args, {}))
        return out

    def args(self, eng, st, s):
        return [('', [])]

    def applicable(self, eng, st, a):
        if not is_stream(eng, st, a['self']):
            return False
        p = st.o(a['self']).f['_producer']
        o = st.o(p)
        return isinstance(o, Obj) and isinstance(o.cls, Ext) and o.cls.name == 'ext.producer'

    def modifies(self, eng, st, a):
        return stream_locs(st, a['self'])


class Next(StreamContract):
    """next(): the chunk returned is exactly the front of rest; StopIteration only at the end of the data"""
    name = 'LazyStream.next'
    func = DS + ':LazyStream.next'
    nonempty = (False, True)
    fails = (False, True)

    def cases(self, eng, st, a):
        s = a['self']

        def ens(eng, old, new, a, v):
            fs = [('returns the front of the remaining bytes', t.Eq(rest(eng, old, s), t.concat(v.t, rest(eng, new, s)))),
                  ('position advances by the bytes returned', t.Eq(pos(new, s), pos(old, s) + t.slen(v.t)))]
            if '$nonempty' in old.o(old.o(s).f['_producer']).f:
                fs.append(('never empty', t.Not(t.Eq(v.t, t.EMPTY))))
            return fs

        def stop(eng, old, new, a, v):
            return [('nothing remains', t.Eq(rest(eng, old, s), t.EMPTY)),
                    ('nothing is lost', t.Eq(rest(eng, new, s), t.EMPTY)),
                    ('position is kept', t.Eq(pos(new, s), pos(old, s)))]
        return [Case('ret', lambda eng, st, a: Str(t.fresh('out', t.STR), 'b'), ens), raises('StopIteration', stop)] + io_error(st, s)


class Unget(StreamContract):
    """unget(b): rest becomes b ++ rest and the position is rewound; refused only for a stuck parser"""
    name = 'LazyStream.unget'
    func = DS + ':LazyStream.unget'

    def args(self, eng, st, s):
        return [('', [Str(t.fresh('bytes', t.STR), 'b')])]

    def cases(self, eng, st, a):
        s, b = a['self'], a['bytes'].t

        def ens(eng, old, new, a, v):
            return [('bytes are put back in front', t.Eq(rest(eng, new, s), t.concat(b, rest(eng, old, s)))),
                    ('position is rewound', t.Eq(pos(new, s), pos(old, s) - t.slen(b)))]

        def susp(eng, old, new, a, v):
            return [('the same size was put back more than 39 times before',
                     t.lt(39, count_term(history(eng, old, s), t.slen(b)))),
                    ('nothing is lost', t.Eq(rest(eng, new, s), rest(eng, old, s)))]
        return [Case('ret', None, ens), raises(SUSPICIOUS, susp)]


class History(StreamContract):
    """_update_unget_history: remembers the last 50 sizes, refuses when more than 40 of them are this size"""
    name = 'LazyStream._update_unget_history'
    func = DS + ':LazyStream._update_unget_history'

    def args(self, eng, st, s):
        return [('', [Int(t.fresh('num_bytes', t.INT))])]

    def modifies(self, eng, st, a):
        return [(a['self'], '_unget_history')]

    def new_history(self, eng, old, a):
        h = history(eng, old, a['self'])
        return t.seqcat(t.unit(t.VI(a['num_bytes'].t)), t.seqsub(h, t.I(0), t.Min(t.I(49), t.seqlen(h))))

    def invariants(self, eng, h):
        return loop_count(eng, h)

    def cases(self, eng, st, a):
        n = a['num_bytes'].t

        def common(eng, old, new, a):
            return [('the last 50 sizes are remembered', t.Eq(history(eng, new, a['self']), self.new_history(eng, old, a)))]

        def ens(eng, old, new, a, v):
            return common(eng, old, new, a) + [('at most 40 equal sizes', t.le(count_term(self.new_history(eng, old, a), n), 40))]

        def susp(eng, old, new, a, v):
            return common(eng, old, new, a) + [('more than 40 equal sizes', t.lt(40, count_term(self.new_history(eng, old, a), n)))]
        return [Case('ret', None, ens), raises(SUSPICIOUS, susp)]


def loop_count(eng, h):
    """counting loops: an int variable or the length of a list equals the number of elements done that equal a local int"""
    env = h.fr.env
    out = []
    for name, g in list(h.ints()):
        for n in h.entry.o(env).vars:
            v = h.entry.o(env).vars[n]
            if isinstance(v, Int):
                out.append(('%s counts the elements equal to %s' % (name, n), lambda st, g=g, n=n: t.Eq(
                    g(st), count_term(h.done(st), st.o(env).vars[n].t))))
    for name, g in h.lists():
        e = env
        while e is not None:
            for n, v in h.entry.o(e).vars.items():
                if isinstance(v, Int):
                    out.append(('len(%s) counts the elements equal to %s' % (name, n), lambda st, g=g, n=n, e=e: t.Eq(
                        t.seqlen(g(st)), count_term(h.done(st), st.o(e).vars[n].t))))
            e = h.entry.o(e).parent
    return out


class Read(StreamContract):
    """read(size): exactly the next min(size, available) bytes, in order, and nothing else is consumed or lost"""
    name = 'LazyStream.read'
    func = DS + ':LazyStream.read'
    lengths = (False, True)
    fails = (False, True)
    no_contract = ()

    def args(self, eng, st, s):
        return [('size', [Int(t.fresh('size', t.INT))]), ('all', [NONE])]

    def applicable(self, eng, st, a):
        return StreamContract.applicable(self, eng, st, a) and isinstance(a['size'], (Int, NoneV))

    def limit(self, st, a):
        if isinstance(a['size'], Int):
            return a['size'].t
        r = st.o(a['self']).f['_remaining']
        return None if isinstance(r, NoneV) else r.t

    def pre(self, eng, st, a):
        n = self.limit(st, a)
        return [] if n is None else [('size is not negative', t.le(0, n))]

    def invariants(self, eng, h):
        s = self_of(h)
        r0, p0 = rest(eng, h.entry, s), pos(h.entry, s)
        out = []
        accs = h.strs()
        for name, g in accs:
            acc = lambda st, g=g: g(st)
            out.append(('remaining bytes: %s ++ rest' % name, lambda st, acc=acc: t.Eq(
                r0, t.concat(acc(st), rest(eng, st, s)))))
            out.append(('position: %s' % name, lambda st, acc=acc: t.Eq(pos(st, s), p0 + t.slen(acc(st)))))
            for i, ig in h.ints():
                i0 = h.entry
                out.append(('%s + len(%s) is constant' % (i, name), lambda st, acc=acc, ig=ig: t.Eq(
                    ig(st) + t.slen(acc(st)), ig(i0) + t.slen(acc(i0)))))
        for i, ig in h.ints():
            out.append(('%s >= 0' % i, lambda st, ig=ig: t.le(0, ig(st))))
        return out

    def cases(self, eng, st, a):
        s = a['self']
        n = self.limit(st, a)

        def ens(eng, old, new, a, v):
            r0 = rest(eng, old, s)
            fs = [('returns the front of the remaining bytes', t.Eq(r0, t.concat(v.t, rest(eng, new, s)))),
                  ('position advances by the bytes returned', t.Eq(pos(new, s), pos(old, s) + t.slen(v.t)))]
            if n is None:
                fs.append(('everything is returned', t.Eq(v.t, r0)))
            else:
                fs.append(('as many bytes as asked for and available', t.Eq(t.slen(v.t), t.Min(n, t.slen(r0)))))
            return fs

        def susp(eng, old, new, a, v):
            return []
        return [Case('ret', lambda eng, st, a: Str(t.fresh('data', t.STR), 'b'), ens), raises(SUSPICIOUS, susp)] + io_error(st, s)


def self_of(h):
    """the LazyStream in scope of a loop"""
    e = h.fr.env
    while e is not None:
        for v in h.entry.o(e).vars.values():
            if is_stream(h.eng, h.entry, v):
                return v
        e = h.entry.o(e).parent
    for r in list(h.entry.heap):
        if is_stream(h.eng, h.entry, Ref(r)):
            return Ref(r)
    raise Unsupported('no stream in scope')


class Tell(StreamContract):
    name = 'LazyStream.tell'
    func = DS + ':LazyStream.tell'

    def modifies(self, eng, st, a):
        return []

    def cases(self, eng, st, a):
        s = a['self']
        return [Case('ret', lambda eng, st, a: Int(t.fresh('pos', t.INT)),
                     lambda eng, old, new, a, v: [('the position', t.Eq(v.t, pos(old, s)))])]


class Iter(StreamContract):
    name = 'LazyStream.__iter__'
    func = DS + ':LazyStream.__iter__'

    def modifies(self, eng, st, a):
        return []

    def cases(self, eng, st, a):
        return [Case('ret', lambda eng, st, a: a['self'],
                     lambda eng, old, new, a, v: [('the stream itself', t.lift(v == a['self']))])]


class Init(Contract):
    name = 'LazyStream.__init__'
    func = DS + ':LazyStream.__init__'

    def setups(self, eng):
        st = eng.base.clone()
        p = new_producer(st)
        eng.load(DS)
        s = alloc(st, Obj(eng.cls_by_name(DS + ':LazyStream'), {}))
        return [('', st, [s, p], {})]

    def modifies(self, eng, st, a):
        return [(a['self'], '*')]

    def cases(self, eng, st, a):
        s = a['self']

        def ens(eng, old, new, a, v):
            return [('all the producer bytes remain', t.Eq(rest(eng, new, s), producer_rem(eng, old, a['producer']))),
                    ('position 0', t.Eq(pos(new, s), 0)),
                    ('nothing was put back', t.Eq(history(eng, new, s), t.SEMPTY)),
                    ('no length', t.lift(new.o(s).f['_remaining'] == NONE))]
        return [Case('ret', None, ens)]


class ChunkNext(Contract):
    """ChunkIter.next: non-empty front of what the file still has, StopIteration only at its end"""
    name = 'ChunkIter.next'
    func = DS + ':ChunkIter.next'

    def setups(self, eng):
        eng.load(DS)
        out = []
        for fails in (False, True):
            st = eng.base.clone()
            f = {'$rem': Str(t.fresh('rem', t.STR), 'b')}
            if fails:
                f['$err'] = Tup((Int(t.fresh('errno', t.INT)), Str(t.fresh('strerror', t.STR), 'b')))
            flo = alloc(st, Obj(Ext('ext.file'), f))
            c = alloc(st, Obj(eng.cls_by_name(DS + ':ChunkIter'), {'flo': flo, 'chunk_size': Int(t.fresh('chunk_size', t.INT))}))
            out.append(('failing file' if fails else 'file', st, [c], {}))
        return out

    def pre(self, eng, st, a):
        return [('chunk size is positive', t.lt(0, st.o(a['self']).f['chunk_size'].t))]

    def modifies(self, eng, st, a):
        return [(st.o(a['self']).f['flo'], '$rem')]

    def cases(self, eng, st, a):
        flo = st.o(a['self']).f['flo']
        rem = lambda st: st.o(flo).f['$rem'].t

        def ens(eng, old, new, a, v):
            return [('returns the front of the data', t.Eq(rem(old), t.concat(v.t, rem(new)))),
                    ('never an empty chunk', t.Not(t.Eq(v.t, t.EMPTY)))]

        def stop(eng, old, new, a, v):
            return [('no data remains', t.Eq(rem(old), t.EMPTY))]
        err = st.o(flo).f.get('$err')
        return [Case('ret', lambda eng, st, a: Str(t.fresh('chunk', t.STR), 'b'), ens), raises('StopIteration', stop)] + ([
            Case('raise', lambda eng, st, a: alloc(st, Obj(Ext('IOError'), {'args': err})),
                 lambda eng, old, new, a, v: [('the error of the file', t.lift(new.o(v).f['args'] == err))], 'IOError')] if err else [])


CONTRACTS = [Next(), Unget(), History(), Read(), Tell(), Iter(), Init(), ChunkNext()]
