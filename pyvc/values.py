"""Values, heap objects and states of the symbolic executor."""
from . import terms as t


class Unsupported(Exception):
    """A construct outside the verifier's subset (never mapped to a violation)."""


class V(object):
    __slots__ = ()

    def __eq__(self, o):
        return type(self) is type(o) and all(getattr(self, s) == getattr(o, s) if not isinstance(getattr(self, s), t.T)
                                             else getattr(self, s) is getattr(o, s) for s in self.__slots__)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self),) + tuple(id(x) if isinstance(x, t.T) else x for x in
                                          (getattr(self, s) for s in self.__slots__)))

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(getattr(self, s)) for s in self.__slots__))


def _mk(name, *slots):
    def __init__(self, *a):
        assert len(a) == len(slots), (name, a)
        for s, x in zip(slots, a):
            setattr(self, s, x)
    return type(name, (V,), {'__slots__': slots, '__init__': __init__})


Int = _mk('Int', 't')
Bool = _mk('Bool', 't')
Str = _mk('Str', 't', 'k')          # k: 'b' (str) or 'u' (unicode)
Float = _mk('Float', 'x')           # concrete only
NoneV = _mk('NoneV')
Tup = _mk('Tup', 'items')           # tuple of values
Ref = _mk('Ref', 'id')
Val = _mk('Val', 't', 'shape')      # opaque value of the universal sort
Bound = _mk('Bound', 'self', 'fn')
BM = _mk('BM', 'self', 'name')      # method of a builtin value
Mod = _mk('Mod', 'name')
Ext = _mk('Ext', 'name')            # something outside the repository, by dotted name
ExtO = _mk('ExtO', 'kind', 'data')  # immutable external object (compiled regex, ...)
Super = _mk('Super', 'cls', 'self')
Slice = _mk('Slice', 'lo', 'hi')
NONE = NoneV()
ELLIPSIS = Ext('Ellipsis')


class Func(object):
    def __init__(self, node, mod, env, qual, cls=None, defaults=()):
        self.node, self.mod, self.env, self.qual, self.cls, self.defaults = node, mod, env, qual, cls, defaults
        self.is_gen = has_yield(node)

    def __repr__(self):
        return '<Func %s>' % self.qual


class Wrap(object):
    """property / staticmethod / classmethod"""

    def __init__(self, kind, get=None, set=None):
        self.kind, self.get, self.set = kind, get, set


class Cls(object):
    def __init__(self, name, qual, bases, ns, mod):
        self.name, self.qual, self.bases, self.ns, self.mod = name, qual, bases, ns, mod
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in (b.mro() if isinstance(b, Cls) else ext_mro(b)):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return None

    def builtin_base(self):
        for c in self.mro():
            if isinstance(c, Ext):
                return c.name
        return None

    def __repr__(self):
        return '<Cls %s>' % self.qual


EXC_PARENT = {
    'BaseException': None, 'Exception': 'BaseException', 'StopIteration': 'Exception', 'StandardError': 'Exception',
    'ArithmeticError': 'StandardError', 'AssertionError': 'StandardError', 'AttributeError': 'StandardError',
    'LookupError': 'StandardError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError',
    'TypeError': 'StandardError', 'ValueError': 'StandardError', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'NotImplementedError': 'RuntimeError',
    'RuntimeError': 'StandardError', 'ImportError': 'StandardError', 'NameError': 'StandardError',
    'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError',
    'io.UnsupportedOperation': 'ValueError', 'binascii.Error': 'Exception',
}


def ext_mro(e):
    out, n = [], e.name
    while n is not None:
        out.append(Ext(n))
        n = EXC_PARENT.get(n)
    return out


def has_yield(node):
    def walk(n):
        if isinstance(n, list):
            return any(walk(x) for x in n)
        if isinstance(n, dict):
            if n['_'] == 'Yield':
                return True
            if n['_'] in ('FunctionDef', 'Lambda', 'ClassDef', 'GeneratorExp'):
                return False
            return any(walk(v) for k, v in n.items() if isinstance(v, (list, dict)))
        return False
    b = node['body']
    return walk(b if isinstance(b, list) else [b])


# ---- heap objects
class H(object):
    def copy(self):
        o = self.__class__.__new__(self.__class__)
        for s in self.__slots__:
            x = getattr(self, s)
            setattr(o, s, dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x)
        return o

    def locs(self):
        """location -> value, for diffing"""
        raise NotImplementedError

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (s, getattr(self, s)) for s in self.__slots__))


class Env(H):
    __slots__ = ('vars', 'parent')

    def __init__(self, parent=None, vars=None):
        self.vars, self.parent = dict(vars or {}), parent


class Obj(H):
    """Instance of a repository class, or of an external class (cls is Ext)."""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None):
        self.cls, self.f = cls, dict(f or {})


class Lst(H):
    """list: items (python list of values) or a symbolic sequence; view = (dict id, key) when it lives in a dict."""
    __slots__ = ('items', 'seq', 'shape', 'view')

    def __init__(self, items=None, seq=None, shape=None, view=None):
        self.items, self.seq, self.shape, self.view = items, seq, shape, view


class Dct(H):
    """dict: concrete items [(key value, value)] or symbolic dom/map (+ shapes). mode: 'c', 'l' (values are lists), 'v'."""
    __slots__ = ('mode', 'items', 'dom', 'map', 'kshape', 'vshape', 'n')

    def __init__(self, mode='c', items=None, dom=None, map=None, kshape=None, vshape=None, n=None):
        self.mode, self.items, self.dom, self.map = mode, list(items or []), dom, map
        self.kshape, self.vshape, self.n = kshape, vshape, n


class Gen(H):
    """A generator (not started): a python callable run(eng, st, on_yield) -> [(st, outcome)]"""
    __slots__ = ('run', 'label')

    def __init__(self, run, label):
        self.run, self.label = run, label


class Moved(H):
    """what is left of a list that moved into another container"""
    __slots__ = ()


class Deleted(object):
    pass


class St(object):
    __slots__ = ('heap', 'pc', 'trace')

    def __init__(self, heap=None, pc=(), trace=()):
        self.heap, self.pc, self.trace = heap if heap is not None else {}, pc, trace

    def clone(self):
        return St(dict(self.heap), self.pc, self.trace)

    def assume(self, *fs):
        pc = self.pc
        for f in fs:
            f = t.lift(f)
            if f is t.TRUE:
                continue
            for g in (f.args if f.op == 'and' else (f,)):
                if g not in pc:
                    pc = pc + (g,)
        s = St(dict(self.heap), pc, self.trace)
        return s

    def o(self, r):
        return self.heap[r.id if isinstance(r, Ref) else r]

    def w(self, r):
        """A private copy of the object, to be written."""
        i = r.id if isinstance(r, Ref) else r
        o = self.heap[i].copy()
        self.heap[i] = o
        return o


_next = [1]


def new_id():
    _next[0] += 1
    return _next[0]


def alloc(st, o):
    """Allocate in place (the state must be private to the caller); return the reference."""
    i = new_id()
    st.heap[i] = o
    return Ref(i)


# ---- outcomes
class Raise(object):
    """exc: Ref of the exception instance"""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'Raise(%r)' % (self.exc,)


class Ret(object):
    def __init__(self, v):
        self.v = v


class Abandon(object):
    """Leaves a generator body because its consumer left the loop."""

    def __init__(self, out, tag):
        self.out, self.tag = out, tag


BRK, CNT = 'break', 'continue'


# ---- shapes: how values are stored in the universal sort
def shape_of(v):
    if isinstance(v, Int):
        return ('i',)
    if isinstance(v, Bool):
        return ('b',)
    if isinstance(v, Str):
        return ('s', v.k)
    if isinstance(v, NoneV):
        return ('n',)
    if isinstance(v, Tup):
        return ('p',) + tuple(shape_of(x) for x in v.items)
    if isinstance(v, Val):
        return v.shape
    if isinstance(v, Ref):
        return ('r', v.id)
    return ('c', v)


def enc(v):
    """Val term of a value."""
    if isinstance(v, Int):
        return t.VI(v.t)
    if isinstance(v, Bool):
        return t.VB(v.t)
    if isinstance(v, Str):
        return t.VS(v.t)
    if isinstance(v, NoneV):
        return t.VNONE
    if isinstance(v, Val):
        return v.t
    if isinstance(v, Tup):
        if not v.items:
            return t.VO(t.I(-7))
        r = enc(v.items[-1])
        for x in reversed(v.items[:-1]):
            r = t.VP(enc(x), r)
        return r
    if isinstance(v, Ref):
        return t.VO(t.I(v.id))
    raise Unsupported('cannot store %r in a container' % (v,))


def dec(x, shape):
    """Value of a Val term under a shape."""
    if x.op == 'VI':
        return Int(x.args[0])
    if x.op == 'VB':
        return Bool(x.args[0])
    if x.op == 'VNone':
        return NONE
    if shape is None:
        raise Unsupported('element of unknown shape')
    k = shape[0]
    if k == 'i':
        return Int(t.sel('vi', x))
    if k == 'b':
        return Bool(t.sel('vb', x))
    if k == 's':
        return Str(t.sel('vs', x), shape[1])
    if k == 'n':
        return NONE
    if k == 'r':
        return Ref(shape[1])
    if k == 'c':
        return shape[1]
    if k == 'p':
        out, y = [], x
        for i, s in enumerate(shape[1:]):
            last = i == len(shape) - 2
            out.append(dec(y if last else t.sel('p1', y), s))
            if not last:
                y = t.sel('p2', y)
        return Tup(tuple(out))
    return Val(x, shape)


def wf(x, shape):
    """Well-formedness of a Val term under a shape (typing assumption)."""
    k = shape[0]
    if k == 'i':
        return t.is_ctor('VI', x)
    if k == 'b':
        return t.is_ctor('VB', x)
    if k == 's':
        return t.is_ctor('VS', x)
    if k == 'n':
        return t.Eq(x, t.VNONE)
    if k == 'p':
        fs, y = [], x
        for i, s in enumerate(shape[1:]):
            last = i == len(shape) - 2
            if not last:
                fs.append(t.is_ctor('VP', y))
            fs.append(wf(y if last else t.sel('p1', y), s))
            if not last:
                y = t.sel('p2', y)
        return t.And(*fs)
    return t.TRUE


def join_shape(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a[0] == 'p' and b[0] == 'p' and len(a) == len(b):
        return ('p',) + tuple(join_shape(x, y) for x, y in zip(a[1:], b[1:]))
    return ('v',)


def sort_of_shape(shape):
    return {'i': t.INT, 'b': t.BOOL, 's': t.STR}.get(shape[0], t.VAL)
