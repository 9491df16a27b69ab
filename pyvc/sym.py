"""Verification-condition generator for the Python 2.7 subset the repository is written in.

The syntax trees come from Jython's own parser (jy/dump_ast.py) on every run.  A function under contract is executed
symbolically from an arbitrary state satisfying its precondition; every path ends in an outcome that must satisfy the
contract.  Loops are cut: the locations a loop can change are havocked and inductive invariants (candidates proposed by
the contract, filtered by the solver at entry and around the body) are all that is known about them.  A call of a
function under contract is replaced by its contract; any other repository function is entered.
"""
from . import regex, solve, terms as t
from .values import *
from .values import Unsupported

MAXPATHS = 6000


class Obligation(object):
    def __init__(self, name, pc, goal, trace=(), note=''):
        self.name, self.pc, self.goal, self.trace, self.note = name, pc, goal, trace, note
        self.result = self.solver = None
        self.time = 0.0


class Frame(object):
    __slots__ = ('env', 'mod', 'func', 'on_yield', 'depth', 'contract')

    def __init__(self, env, mod, func=None, on_yield=None, depth=0, contract=None):
        self.env, self.mod, self.func, self.on_yield, self.depth, self.contract = env, mod, func, on_yield, depth, contract


EXT = {}        # dotted name -> fn(eng, st, fr, args, kwargs) -> [(st, value | Raise)]
EXTATTR = {}    # dotted name -> value
METH = {}       # (kind, method) -> fn(eng, st, fr, recv, args, kwargs)
GETATTR = {}    # external class name -> fn(eng, st, fr, ref, name) -> results or None


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def meth(kind, *names):
    def d(f):
        for n in names:
            METH[(kind, n)] = f
        return f
    return d


DECIMAL = '(re.++ (re.opt (str.to_re " ")) (re.+ (re.range "0" "9")))'
_within = {}


def language_facts(l1, l2):
    """True: every text of l1 is in l2; False: none is; None: neither, or unknown.  Asked of the solver once per pair."""
    key = (l1, l2)
    if key not in _within:
        x = t.fresh('text', t.STR)
        r = None
        if l1 == l2 or solve.check([t.in_re(x, l1), t.Not(t.in_re(x, l2))], 2, ('cvc5',))[0] == 'unsat':
            r = True
        elif solve.check([t.in_re(x, l1), t.in_re(x, l2)], 2, ('cvc5',))[0] == 'unsat':
            r = False
        _within[key] = r
    return _within[key]


def known_language(pc, c):
    """whether a fact about the language of a text is settled by a fact about the same text on the path"""
    if c.op == 'not':
        k = known_language(pc, c.args[0])
        return None if k is None else not k
    if c.op == 'app' and c.args[0] == 'is_int' and c.args[2] is t.I(10):
        return known_language(pc, t.in_re(c.args[1], DECIMAL)) or None
    if c.op != 'in_re':
        return None
    for f in pc:
        if f.op == 'in_re' and f.args[0] is c.args[0]:
            k = language_facts(f.args[1], c.args[1])
            if k is not None:
                return k
    return None


class Engine(object):
    def __init__(self, ast, contracts=None):
        self.ast = ast
        self.contracts = contracts or {}     # qualified function name -> [Contract]
        self.mods = {}
        self.base = St()
        self.target = None
        self.obligations = []
        self.recording = True
        self.trusted = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loops = 0
        self.paths = 0
        self.ob_count = {}
        self.prefix = ''
        self.consumers = []     # loops that drive a generator being run (node, frame)
        self.hyps = []          # extra always-true facts (lemma instances) added to every obligation
        self.calldepth = 0

    # ------------------------------------------------------------------ modules


    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        info = self.ast.get(name)
        if info is None:
            return None
        env = alloc(self.base, Env())
        self.mods[name] = env
        e = self.base.o(env)
        e.vars['__name__'] = Str(t.S(name), 'b')
        fr = Frame(env, name)
        for stmt in info['tree']['body']:
            try:
                outs = self.stmt(stmt, self.base, fr)
                if len(outs) != 1 or outs[0][1] is not None:
                    raise Unsupported('module statement with %d outcomes' % len(outs))
                if outs[0][0] is not self.base:
                    self.base.heap = outs[0][0].heap
                    self.base.pc = ()
            except Unsupported as e:
                for n in bound_names(stmt):
                    self.base.w(env).vars[n] = Val(t.VNONE, ('unsupported', '%s: %s' % (n, e)))
        return env

    def modname(self, cur, name):
        """absolute name of an import from module cur, if it is a repository module"""
        if name in self.ast:
            return name
        rel = cur.rsplit('.', 1)[0] + '.' + name
        if rel in self.ast:
            return rel
        return None

    # ------------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        return t.fresh(name, sort)

    def bind(self, results, fn):
        out = []
        for st, v in results:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(fn(st, v))
        return out

    def seq(self, thunks, st, fr, k, acc=()):
        """Evaluate expressions left to right, then k(st, values)."""
        if not thunks:
            return k(st, list(acc))
        return self.bind(thunks[0](st), lambda s, v: self.seq(thunks[1:], s, fr, k, acc + (v,)))

    def evs(self, nodes, st, fr, k):
        return self.seq([lambda s, n=n: self.ev(n, s, fr) for n in nodes], st, fr, k)

    def feasible(self, pc):
        return solve.feasible(list(pc))

    def split(self, st, c):
        """[(state, True/False)] for the feasible sides of a condition."""
        c = t.lift(c)
        if c is t.TRUE:
            return [(st, True)]
        if c is t.FALSE:
            return [(st, False)]
        nc = t.Not(c)
        if c in st.pc:
            return [(st, True)]
        if nc in st.pc:
            return [(st, False)]
        k = known_language(st.pc, c)
        if k is not None:
            return [(st, k)]
        self.paths += 1
        if self.paths > MAXPATHS:
            raise Unsupported('path limit')
        a, b = st.assume(c), st.assume(nc)
        ra, rb = solve.parallel([lambda: self.feasible(a.pc), lambda: self.feasible(b.pc)], 2)
        out = []
        if ra:
            out.append((a if rb else St(dict(st.heap), st.pc, st.trace).assume(c), True))
        if rb:
            out.append((b, False))
        return out

    def cond(self, results, then, els):
        """results of Bool values -> branch"""
        def f(st, v):
            out = []
            for s, b in self.truth_split(st, v):
                out.extend(then(s) if b else els(s))
            return out
        return self.bind(results, f)

    def truth(self, st, v):
        """Bool term of the truth value, or None when a method has to be called."""
        if isinstance(v, Bool):
            return v.t
        if isinstance(v, Int):
            return t.Not(t.Eq(v.t, 0))
        if isinstance(v, Str):
            return t.Not(t.Eq(v.t, t.EMPTY))
        if isinstance(v, NoneV):
            return t.FALSE
        if isinstance(v, Tup):
            return t.TRUE if v.items else t.FALSE
        if isinstance(v, Float):
            return t.lift(v.x != 0)
        if isinstance(v, Val):
            if v.shape[0] == 'unsupported':
                raise Unsupported(v.shape[1])
            return t.app('truthy', t.BOOL, v.t)
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, Lst):
                if o.items is not None:
                    return t.TRUE if o.items else t.FALSE
                return t.Not(t.Eq(t.seqlen(self.lseq(st, v)), 0))
            if isinstance(o, Dct):
                if o.mode == 'c':
                    return t.TRUE if o.items else t.FALSE
                return t.Not(t.Eq(self.dlen(st, v), 0))
            if isinstance(o, Obj):
                if isinstance(o.cls, Cls):
                    if o.cls.find('__nonzero__') or o.cls.find('__len__'):
                        return None
                    if '$d' in o.f:
                        return self.truth(st, o.f['$d'])
                elif o.cls.name in ('ext.count',):
                    raise Unsupported('truth of external object')
                return t.TRUE
            return t.TRUE
        if isinstance(v, (Func, Cls, Ext, ExtO, Mod, Bound, BM)):
            return t.TRUE
        raise Unsupported('truth of %r' % (v,))

    def truth_split(self, st, v):
        c = self.truth(st, v)
        if c is not None:
            return self.split(st, c)
        o = st.o(v)
        m = '__nonzero__' if o.cls.find('__nonzero__') else '__len__'
        out = []
        for s, r in self.call_method(st, None, v, m, []):
            if isinstance(r, Raise):
                raise Unsupported('exception in truth test')
            out.extend(self.truth_split(s, r))
        return out

    def exc(self, st, cls, *args):
        """Raise outcome of a builtin (Ext name) or repository class."""
        if isinstance(cls, str):
            cls = Ext(cls)
        r = alloc(st, Obj(cls, {'args': Tup(tuple(args))}))
        return Raise(r)

    def raise_(self, st, cls, *args):
        s = st.clone()
        return [(s, self.exc(s, cls, *args))]

    def exc_cls(self, st, r):
        return st.o(r.exc).cls

    def isa(self, cls, want):
        m = cls.mro() if isinstance(cls, Cls) else ext_mro(cls)
        if isinstance(want, Ext):
            w = want.name.split('.')[-1] if want.name.startswith('exceptions.') else want.name
            return any(isinstance(c, Ext) and c.name == w for c in m)
        return want in m

    def cls_by_name(self, name):
        """'mod:Class' or a builtin exception name"""
        if ':' in name:
            m, n = name.split(':')
            env = self.load(m)
            v = self.base.o(env).vars.get(n)
            if not isinstance(v, Cls):
                raise Unsupported('no class %s' % name)
            return v
        return Ext(name)

    def func_by_name(self, q):
        m, n = q.split(':')
        env = self.load(m)
        if env is None:
            raise Unsupported('no module %s' % m)
        v = None
        for i, part in enumerate(n.split('.')):
            if i == 0:
                v = self.base.o(env).vars.get(part)
            elif isinstance(v, Cls):
                v = v.find(part)
            else:
                v = None
        if isinstance(v, Wrap):
            v = v.get
        if not isinstance(v, Func):
            raise Unsupported('no function %s' % q)
        return v

    # ------------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        e = fr.env
        while e is not None:
            o = st.o(e)
            if name in o.vars:
                v = o.vars[name]
                if isinstance(v, Val) and v.shape[0] == 'unsupported':
                    raise Unsupported(v.shape[1])
                return v
            e = o.parent
        if name == 'None':
            return NONE
        if name in ('True', 'False'):
            return Bool(t.lift(name == 'True'))
        return Ext(name)

    def assign_name(self, st, fr, name, v):
        st.w(fr.env).vars[name] = v

    # ------------------------------------------------------------------ blocks and statements
    def block(self, stmts, st, fr):
        states = [(st, None)]
        for s in stmts:
            nxt = []
            for a, out in states:
                if out is None:
                    nxt.extend(self.stmt(s, a, fr))
                else:
                    nxt.append((a, out))
            states = nxt
        return states

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + n['_'], None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (n['_'], n.get('lineno')))
        if fr.func is not None:
            st = St(st.heap, st.pc, st.trace + ((fr.mod, n.get('lineno')),))
        return m(n, st, fr)

    def lift(self, results):
        """expression results -> statement results"""
        return [(s, v if isinstance(v, Raise) else None) for s, v in results]

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Expr(self, n, st, fr):
        return self.lift(self.ev(n['value'], st, fr))

    def s_Print(self, n, st, fr):
        return self.lift(self.evs(n['values'], st, fr, lambda s, vs: [(s, NONE)]))

    def s_Global(self, n, st, fr):
        raise Unsupported('global statement')

    def s_Assign(self, n, st, fr):
        def f(s, v):
            res = [(s, NONE)]
            for tg in n['targets']:
                res = self.bind(res, lambda s2, _, tg=tg: self.store(tg, s2, fr, v))
            return res
        return self.lift(self.bind(self.ev(n['value'], st, fr), f))

    def s_AugAssign(self, n, st, fr):
        tg = n['target']
        if tg['_'] == 'Name':
            def f(s, v):
                cur = self.lookup(s, fr, tg['id'])
                return self.bind(self.iop(n['op']['_'], s, fr, cur, v), lambda s2, r: self.store(tg, s2, fr, r))
            return self.lift(self.bind(self.ev(n['value'], st, fr), f))
        if tg['_'] == 'Attribute':
            def g(s, o):
                return self.bind(self.getattr(s, fr, o, tg['attr']), lambda s2, cur: self.bind(
                    self.ev(n['value'], s2, fr), lambda s3, v: self.bind(
                        self.iop(n['op']['_'], s3, fr, cur, v), lambda s4, r: self.setattr(s4, fr, o, tg['attr'], r))))
            return self.lift(self.bind(self.ev(tg['value'], st, fr), g))
        if tg['_'] == 'Subscript':
            def h(s, vs):
                o, ix = vs
                return self.bind(self.getitem(s, fr, o, ix), lambda s2, cur: self.bind(
                    self.ev(n['value'], s2, fr), lambda s3, v: self.bind(
                        self.iop(n['op']['_'], s3, fr, cur, v), lambda s4, r: self.setitem(s4, fr, o, ix, r))))
            return self.lift(self.seq([lambda s: self.ev(tg['value'], s, fr),
                                       lambda s: self.index(tg['slice'], s, fr)], st, fr, h))
        raise Unsupported('augmented assignment')

    def iop(self, op, st, fr, a, b):
        if op == 'Add' and isinstance(a, Ref) and isinstance(st.o(a), Lst):
            return self.bind(METH[('list', 'extend')](self, st, fr, a, [b], {}), lambda s, _: [(s, a)])
        return self.binop(op, st, fr, a, b)

    def store(self, tg, st, fr, v):
        k = tg['_']
        if k == 'Name':
            s = st.clone()
            self.assign_name(s, fr, tg['id'], v)
            return [(s, NONE)]
        if k in ('Tuple', 'List'):
            def f(s, items):
                if len(items) != len(tg['elts']):
                    return self.raise_(s, 'ValueError', Str(t.S('unpack'), 'b'))
                res = [(s, NONE)]
                for e, x in zip(tg['elts'], items):
                    res = self.bind(res, lambda s2, _, e=e, x=x: self.store(e, s2, fr, x))
                return res
            return self.unpack(st, fr, v, len(tg['elts']), f)
        if k == 'Attribute':
            return self.bind(self.ev(tg['value'], st, fr), lambda s, o: self.setattr(s, fr, o, tg['attr'], v))
        if k == 'Subscript':
            return self.seq([lambda s: self.ev(tg['value'], s, fr), lambda s: self.index(tg['slice'], s, fr)], st, fr,
                            lambda s, vs: self.setitem(s, fr, vs[0], vs[1], v))
        raise Unsupported('assignment target %s' % k)

    def unpack(self, st, fr, v, n, f):
        """f(st, items) for each way of unpacking v"""
        if isinstance(v, Tup):
            return f(st, list(v.items))
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, Lst):
                if o.items is not None:
                    return f(st, list(o.items))
                seq = self.lseq(st, v)
                out = []
                for s, b in self.split(st, t.Eq(t.seqlen(seq), n)):
                    if b:
                        out.extend(f(s, [dec(t.nth(seq, i), o.shape) for i in range(n)]))
                    else:
                        out.extend(self.raise_(s, 'ValueError', Str(t.S('unpack'), 'b')))
                return out
            if isinstance(o, Obj) and '$items' in o.f:
                return f(st, list(o.f['$items'].items))
        if isinstance(v, Val) and v.shape[0] == 'p':
            return f(st, list(dec(v.t, v.shape).items))
        raise Unsupported('unpacking %r' % (v,))

    def s_Delete(self, n, st, fr):
        res = [(st, NONE)]
        for tg in n['targets']:
            if tg['_'] == 'Name':
                def f(s, _, tg=tg):
                    s = s.clone()
                    s.w(fr.env).vars.pop(tg['id'], None)
                    return [(s, NONE)]
            elif tg['_'] == 'Attribute':
                def f(s, _, tg=tg):
                    return self.bind(self.ev(tg['value'], s, fr), lambda s2, o: self.delattr(s2, fr, o, tg['attr']))
            elif tg['_'] == 'Subscript':
                def f(s, _, tg=tg):
                    return self.seq([lambda s2: self.ev(tg['value'], s2, fr),
                                     lambda s2: self.index(tg['slice'], s2, fr)], s, fr,
                                    lambda s2, vs: self.delitem(s2, fr, vs[0], vs[1]))
            else:
                raise Unsupported('del')
            res = self.bind(res, f)
        return self.lift(res)

    def s_Return(self, n, st, fr):
        if n['value'] is None:
            return [(st, Ret(NONE))]
        return [(s, v if isinstance(v, Raise) else Ret(v)) for s, v in self.ev(n['value'], st, fr)]

    def s_Break(self, n, st, fr):
        return [(st, BRK)]

    def s_Continue(self, n, st, fr):
        return [(st, CNT)]

    def s_If(self, n, st, fr):
        out = []
        for s, v in self.ev(n['test'], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, b in self.truth_split(s, v):
                out.extend(self.block(n['body'] if b else n['orelse'], s2, fr))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, v in self.ev(n['test'], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, b in self.truth_split(s, v):
                if b:
                    out.append((s2, None))
                else:
                    out.extend(self.raise_(s2, 'AssertionError'))
        return out

    def s_Raise(self, n, st, fr):
        if n.get('type') is None:
            cur = self.lookup(st, fr, '$exc')
            if isinstance(cur, Ref):
                return [(st, Raise(cur))]
            raise Unsupported('bare raise')
        return [(s, r) for s, r in self.bind(self.ev(n['type'], st, fr), lambda s, v: self.do_raise(s, fr, v, n))]

    def do_raise(self, st, fr, v, n=None):
        if n is not None and n.get('inst') is not None:
            raise Unsupported('three-argument raise')
        if isinstance(v, (Cls, Ext)):
            return self.bind(self.call(st, fr, v, [], {}), lambda s, o: [(s, Raise(o))])
        if isinstance(v, Ref):
            return [(st, Raise(v))]
        raise Unsupported('raise of %r' % (v,))

    def s_FunctionDef(self, n, st, fr):
        def f(s, ds):
            fn = Func(n, fr.mod, fr.env, '%s:%s' % (fr.mod, n['name']), None, ds)
            v = fn
            for d in reversed(n['decorator_list']):
                v = self.decorate(d, v, s, fr)
            s = s.clone()
            self.assign_name(s, fr, n['name'], v)
            return [(s, NONE)]
        return self.lift(self.evs(n['args']['defaults'], st, fr, f))

    def decorate(self, d, v, st, fr):
        if d['_'] == 'Name' and d['id'] in ('property', 'staticmethod', 'classmethod'):
            return Wrap(d['id'], v)
        if d['_'] == 'Attribute' and d['attr'] == 'setter':
            cur = self.lookup(st, fr, d['value']['id'])
            return Wrap('property', cur.get, v)
        raise Unsupported('decorator')

    def s_ClassDef(self, n, st, fr):
        def f(s, bases):
            env = alloc(s, Env(fr.env))
            outs = self.block(n['body'], s, Frame(env, fr.mod, fr.func, None, fr.depth))
            if len(outs) != 1 or outs[0][1] is not None:
                raise Unsupported('class body')
            s2 = outs[0][0]
            ns = dict(s2.o(env).vars)
            c = Cls(n['name'], '%s:%s' % (fr.mod, n['name']), [b for b in bases], ns, fr.mod)
            for k, v in ns.items():
                for fn in ([v] if isinstance(v, Func) else [v.get, v.set] if isinstance(v, Wrap) else []):
                    if isinstance(fn, Func) and fn.cls is None and fn.env is env or (isinstance(fn, Func) and fn.env == env):
                        fn.cls = c
                        fn.qual = '%s:%s.%s' % (fr.mod, n['name'], fn.node.get('name', k))
                        fn.env = fr.env
            s2 = s2.clone()
            self.assign_name(s2, fr, n['name'], c)
            return [(s2, NONE)]
        return self.lift(self.evs(n['bases'], st.clone(), fr, f))

    def s_Import(self, n, st, fr):
        s = st.clone()
        for a in n['names']:
            m = self.modname(fr.mod, a['name'])
            if m:
                self.load(m)
                s = self.sync(s)
            nm = a['asname'] or a['name'].split('.')[0]
            s.w(fr.env).vars[nm] = Mod(m) if m else Ext(a['name'] if a['asname'] else nm)
        return [(s, None)]

    def sync(self, s):
        """make module objects loaded meanwhile visible in s"""
        s = s.clone()
        for i, o in self.base.heap.items():
            if i not in s.heap:
                s.heap[i] = o
        return s

    def s_ImportFrom(self, n, st, fr):
        s = st
        m = self.modname(fr.mod, n['module'])
        if m:
            self.load(m)
            s = self.sync(s)
        s = s.clone()
        for a in n['names']:
            nm = a['asname'] or a['name']
            if m and m + '.' + a['name'] in EXT:
                v = Ext(m + '.' + a['name'])       # a library function with a trusted contract of its own
            elif m:
                sub = self.modname(fr.mod, m + '.' + a['name'])
                src = s.heap[self.mods[m].id].vars
                if a['name'] in src:
                    v = src[a['name']]
                elif sub:
                    self.load(sub)
                    s = self.sync(s).clone()
                    v = Mod(sub)
                else:
                    v = Val(t.VNONE, ('unsupported', 'import of %s from %s' % (a['name'], m)))
            else:
                v = Ext(n['module'] + '.' + a['name'])
            s.w(fr.env).vars[nm] = v
        return [(s, None)]

    # ---- try
    def s_TryExcept(self, n, st, fr):
        out = []
        for s, o in self.block(n['body'], st, fr):
            if o is None:
                out.extend(self.block(n['orelse'] or [], s, fr))
            elif isinstance(o, Raise):
                out.extend(self.handle(n['handlers'], s, o, fr))
            else:
                out.append((s, o))
        return out

    def s_Try(self, n, st, fr):
        outs = self.s_TryExcept(n, st, fr)
        if n.get('finalbody'):
            outs = self.finally_(outs, n['finalbody'], fr)
        return outs

    def s_TryFinally(self, n, st, fr):
        return self.finally_(self.block(n['body'], st, fr), n['finalbody'], fr)

    def finally_(self, outs, body, fr):
        res = []
        for s, o in outs:
            for s2, o2 in self.block(body, s, fr):
                res.append((s2, o if o2 is None else o2))
        return res

    def handle(self, handlers, st, r, fr):
        if not handlers:
            return [(st, r)]
        h = handlers[0]
        if h['type'] is None:
            match = [(st, True)]
        else:
            tv = self.ev(h['type'], st, fr)
            if len(tv) != 1:
                raise Unsupported('except type')
            types = tv[0][1].items if isinstance(tv[0][1], Tup) else [tv[0][1]]
            cls = self.exc_cls(st, r)
            ok = any(self.isa(cls, self.canon_exc(w)) for w in types)
            match = [(st, ok)]
        s, ok = match[0]
        if not ok:
            return self.handle(handlers[1:], s, r, fr)
        s = s.clone()
        if h.get('name') is not None:
            nm = h['name']
            self.assign_name(s, fr, nm['id'] if isinstance(nm, dict) and nm['_'] == 'Name' else nm['s'] if isinstance(nm, dict) else nm, r.exc)
        self.assign_name(s, fr, '$exc', r.exc)
        return self.block(h['body'], s, fr)

    def canon_exc(self, w):
        if isinstance(w, Ext):
            return EXTATTR.get(w.name, w) if isinstance(EXTATTR.get(w.name), Ext) else w
        return w

    def s_With(self, n, st, fr):
        raise Unsupported('with statement')

    # ------------------------------------------------------------------ loops
    def s_While(self, n, st, fr):
        def step(s):
            out = []
            for s1, v in self.ev(n['test'], s, fr):
                if isinstance(v, Raise):
                    out.append((s1, v))
                    continue
                for s2, b in self.truth_split(s1, v):
                    out.append((s2, 'body' if b else 'exit'))
            return out
        return self.cut(st, fr, step, lambda s: self.block(n['body'], s, fr),
                        lambda s: self.block(n['orelse'] or [], s, fr), n)

    def s_For(self, n, st, fr):
        out = []
        for s, v in self.ev(n['iter'], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.for_value(s, fr, v, lambda s2, x: self.lift(self.store(n['target'], s2, fr, x)),
                                          lambda s2: self.block(n['body'], s2, fr),
                                          lambda s2: self.block(n['orelse'] or [], s2, fr), n))
        return out

    def for_value(self, st, fr, v, assign, body, orelse, node):
        """Iterate over v. assign(st, item) / body(st) / orelse(st) -> [(st, outcome)]"""
        items = self.concrete_items(st, v)
        if items is not None:
            return self.unroll(st, items, assign, body, orelse)

        def each(s, x):
            out = []
            for s1, o in assign(s, x):
                if o is not None:
                    out.append((s1, o))
                else:
                    out.extend(body(s1))
            return out
        if isinstance(v, Ref) and isinstance(st.o(v), Gen):
            g = st.o(v)
            tag = object()

            def on_yield(s, x):
                res = []
                for s1, o in each(s, x):
                    if o is None or o is CNT:
                        res.append((s1, None))
                    else:
                        res.append((s1, Abandon(o, tag)))
                return res
            out = []
            self.consumers.append((node, fr))
            try:
                driven = g.run(self, st, on_yield)
            finally:
                self.consumers.pop()
            for s, o in driven:
                if isinstance(o, Abandon) and o.tag is tag:
                    if o.out is BRK:
                        out.append((s, None))
                    else:
                        out.append((s, o.out))
                elif o is None or isinstance(o, Ret):
                    out.extend(orelse(s))
                else:
                    out.append((s, o))
            return out
        if isinstance(v, Str) or (isinstance(v, Ref) and isinstance(st.o(v), Lst)) or \
                (isinstance(v, ExtO) and v.kind == 'seq'):
            return self.for_seq(st, fr, v, each, orelse, node)
        d = self.dict_of(st, v)
        if d is not None and not self.user_iter(st, v):
            return self.for_dict(st, fr, d, each, orelse, node)
        if isinstance(v, Ref) and isinstance(st.o(v), Obj):
            def with_iter(s, it):
                if it == v or (isinstance(it, Ref) and isinstance(s.o(it), Obj) and self.has_next(s, it)):
                    def step(s0):
                        res = []
                        for s1, x in self.call_method(s0, fr, it, 'next', []):
                            if isinstance(x, Raise):
                                if self.isa(self.exc_cls(s1, x), Ext('StopIteration')):
                                    res.append((s1, 'exit'))
                                else:
                                    res.append((s1, x))
                            else:
                                for s2, o in assign(s1, x):
                                    res.append((s2, 'body' if o is None else o))
                        return res
                    return self.cut(s, fr, step, body, orelse, node)
                return self.for_value(s, fr, it, assign, body, orelse, node)
            o = st.o(v)
            if isinstance(o.cls, Cls) and o.cls.find('__iter__'):
                out = []
                for s, it in self.call_method(st, fr, v, '__iter__', []):
                    if isinstance(it, Raise):
                        out.append((s, it))
                    else:
                        out.extend(with_iter(s, it))
                return out
            return with_iter(st, v)
        raise Unsupported('iteration over %r' % (v,))

    def user_iter(self, st, v):
        o = st.o(v)
        return isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.find('__iter__') is not None

    def has_next(self, st, v):
        o = st.o(v)
        return (o.cls.find('next') is not None) if isinstance(o.cls, Cls) else (o.cls.name, 'next') in METH

    def concrete_items(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Str) and t.is_const(v.t):
            return [Str(t.S(c), v.k) for c in t.cval(v.t)]
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, Lst) and o.items is not None:
                return list(o.items)
            if isinstance(o, Dct) and o.mode == 'c':
                return [k for k, _ in o.items]
            if isinstance(o, Obj) and '$items' in o.f:
                return list(o.f['$items'].items)
        if isinstance(v, ExtO) and v.kind in ('frozenset',):
            return list(v.data)
        return None

    def unroll(self, st, items, assign, body, orelse):
        live, done = [st], []
        for x in items:
            nxt = []
            for s in live:
                for s1, o in assign(s, x):
                    if o is not None:
                        done.append((s1, o))
                        continue
                    for s2, o2 in body(s1):
                        if o2 is None or o2 is CNT:
                            nxt.append(s2)
                        elif o2 is BRK:
                            done.append((s2, None))
                        else:
                            done.append((s2, o2))
            live = nxt
        for s in live:
            done.extend(orelse(s))
        return done

    def seq_of(self, st, v):
        """(whole term, is_string, element decoder)"""
        if isinstance(v, Str):
            return v.t, True, lambda x: Str(x, v.k)
        if isinstance(v, ExtO):
            return v.data[0], False, lambda x: dec(x, v.data[1])
        o = st.o(v)
        sh = self.lshape(st, v)
        return self.lseq(st, v), False, lambda x: dec(x, sh)

    def for_seq(self, st, fr, v, each, orelse, node):
        whole, is_str, decode = self.seq_of(st, v)
        s0 = st.clone()
        sort = t.STR if is_str else t.SEQ
        empty = t.EMPTY if is_str else t.SEMPTY
        cat = t.concat if is_str else t.seqcat
        h = alloc(s0, Env(None, {'$done': Val(empty, ('seq', sort)), '$rest': Val(whole, ('seq', sort))}))
        shape = None if is_str else (self.lshape(st, v) if isinstance(v, Ref) else v.data[1])

        def step(s):
            done, rest = s.o(h).vars['$done'].t, s.o(h).vars['$rest'].t
            out = []
            for s1, b in self.split(s, t.Eq(rest, empty)):
                if b:
                    out.append((s1, 'exit'))
                    continue
                if is_str:
                    x = t.fresh('ch', t.STR)
                    fact = t.Eq(t.slen(x), 1)
                    u = x
                else:
                    x = t.fresh('el', t.VAL)
                    fact = wf(x, shape) if shape else t.TRUE
                    u = t.unit(x)
                r2 = t.fresh('rest', sort)
                s2 = s1.assume(t.Eq(rest, cat(u, r2)), fact)
                e = s2.w(h)
                e.vars['$done'] = Val(cat(done, u), ('seq', sort))
                e.vars['$rest'] = Val(r2, ('seq', sort))
                e.vars['$x'] = Val(x, ('seq', t.STR if is_str else t.VAL))
                out.append((s2, 'body'))
            return out

        def body(s):
            x = s.o(h).vars['$x'].t
            s = s.clone()
            s.w(h).vars.pop('$x')
            return each(s, decode(x))

        def auto(s):
            e = s.o(h).vars
            return t.Eq(whole, cat(e['$done'].t, e['$rest'].t))
        return self.cut(s0, fr, step, body, orelse, node, auto=[('whole = done ++ rest', auto)], ghost=h, whole=whole)

    def for_dict(self, st, fr, d, each, orelse, node):
        """d: Ref of a symbolic Dct; iterates over its keys in some order."""
        o = st.o(d)
        dom0 = o.dom
        s0 = st.clone()
        h = alloc(s0, Env(None, {'$P': Val(t.constarr(t.AVB, t.FALSE), ('seq', t.AVB))}))

        def step(s):
            P = s.o(h).vars['$P'].t
            s1 = s.assume(t.Eq(P, dom0))
            out = []
            if self.feasible(s1.pc):
                out.append((s1, 'exit'))
            k = t.fresh('key', t.VAL)
            s2 = s.assume(t.select(dom0, k), t.Not(t.select(P, k)), wf(k, o.kshape) if o.kshape else t.TRUE)
            if self.feasible(s2.pc):
                e = s2.w(h)
                e.vars['$P'] = Val(t.store(P, k, t.TRUE), ('seq', t.AVB))
                e.vars['$x'] = Val(k, ('seq', t.VAL))
                out.append((s2, 'body'))
            return out

        def body(s):
            x = s.o(h).vars['$x'].t
            s = s.clone()
            s.w(h).vars.pop('$x')
            return each(s, dec(x, o.kshape))
        return self.cut(s0, fr, step, body, orelse, node, ghost=h, whole=dom0)

    # ---- the cut rule
    def cut(self, st, fr, step, body, orelse, node, auto=(), ghost=None, whole=None):
        self.loops += 1
        con = self.target
        rec, self.recording = self.recording, False
        entry = st

        def run(head):
            """one iteration: (end-of-iteration states, exits [(st, 'exit'|outcome)])"""
            ends, exits = [], []
            for s, o in step(head):
                if o == 'body':
                    for s2, o2 in body(s):
                        if o2 is None or o2 is CNT:
                            ends.append(s2)
                        else:
                            exits.append((s2, o2))
                else:
                    exits.append((s, o))
            return ends, exits

        # 1. the locations the loop changes
        H = {}
        try:
            for _ in range(8):
                shapes = 1
                for ds in H.values():
                    shapes *= len(ds)
                heads = self.make_heads(entry, H if shapes <= 8 else self.poison(entry, H, fr, node, auto, run))
                new = dict(H)
                grown = False
                for hd in heads:
                    for s, _ in auto:
                        pass
                    hd2 = hd.assume(*[f(hd) for _, f in auto])
                    ends, _x = run(hd2)
                    for e in ends:
                        grown |= self.diff(entry, hd2, e, new)
                H = new
                if not grown:
                    break
            else:
                raise Unsupported('loop state does not stabilise')

            H = self.poison(entry, H, fr, node, auto, run)
            heads = self.make_heads(entry, H)
            # 2. candidate invariants, filtered at entry and around the body
            cands = list(auto)
            h = LoopView(self, entry, H, fr, ghost, whole, node)
            if con is not None:
                for c in con.invariants(self, h):
                    cands.append(c)
            cands = [c for c in cands]

            def ok(pc, c, s):
                try:
                    f = c[1](s)
                except (Unsupported, KeyError, AttributeError):
                    return None
                return f

            def holds(job):
                pc, f = job
                return solve.prove(list(pc) + self.hyps, f, 4, quick=True)[0] == 'proved'
            jobs = []
            keep = []
            for c in cands:
                f = ok(None, c, entry)
                if f is None:
                    continue
                keep.append(c)
                jobs.append((entry.pc, f))
            res = solve.parallel([lambda j=j: holds(j) for j in jobs])
            cands = [c for c, r in zip(keep, res) if r]
            import os
            dbg = os.environ.get('VERIF_DEBUG')
            if dbg:
                print('loop line', node.get('lineno'), 'havoc', {k: v for k, v in H.items()})
                print('  candidates at entry', [c[0] for c in cands], 'dropped', [c[0] for c, r in zip(keep, res) if not r])
            while True:
                jobs, owner = [], []
                for hd in self.make_heads(entry, H):
                    fs = [ok(None, c, hd) for c in cands]
                    hd2 = hd.assume(*[f for f in fs if f is not None])
                    ends, _x = run(hd2)
                    for e in ends:
                        for i, c in enumerate(cands):
                            f = ok(None, c, e)
                            if f is t.TRUE:
                                continue
                            if f is None:
                                f = t.FALSE
                            jobs.append((e.pc, f))
                            owner.append(i)
                res = solve.parallel([lambda j=j: holds(j) for j in jobs])
                bad = {i for i, r in zip(owner, res) if not r}
                if dbg and bad:
                    print('  not inductive:', [cands[i][0] for i in sorted(bad)])
                    if dbg == '2':
                        for j, r, i in zip(jobs, res, owner):
                            if not r:
                                print('   ---', cands[i][0], *['\n       %s' % (x,) for x in j[0]], '\n     => %s' % (j[1],))
                    for j, i, r in zip(jobs, owner, res):
                        if not r and dbg == '2':
                            print('   %s: %s' % (cands[i][0], '\n      '.join(map(str, j[0]))))
                            print('       =>', j[1])
                if not bad:
                    break
                cands = [c for i, c in enumerate(cands) if i not in bad]
        finally:
            self.recording = rec
        if self.recording:
            self.note_loop(fr, node, cands)
        # 3. the arbitrary iteration and what follows the loop
        out = []
        for hd in self.make_heads(entry, H):
            fs = []
            for c in cands:
                f = ok(None, c, hd)
                if f is not None:
                    fs.append(f)
            hd2 = hd.assume(*fs)
            ends, exits = run(hd2)
            for s, o in exits:
                if o == 'exit':
                    out.extend(orelse(self.forget(entry, s, H, fr, node, ghost, con, h)))
                elif o is BRK:
                    out.append((self.forget(entry, s, H, fr, node, ghost, con, h), None))
                else:
                    out.append((s, o))
        return out

    def forget(self, entry, s, H, fr, node, ghost, con, h):
        """After a loop for which the contract states what holds at its exits: keep what is proved of that and what does not
        speak about the loop's own variables (dropping hypotheses only makes the rest harder to prove)."""
        facts = con.after_loop(self, h) if con is not None else None
        if not facts:
            return s
        got = []
        for f in facts(s):
            if t.Not(f) not in got and solve.prove(list(s.pc) + self.hyps, f, 3, quick=True)[0] == 'proved':
                got.append(f)
        if not got:
            return s
        s = s.clone()
        if ghost is not None:
            s.heap.pop(ghost.id, None)
        for (i, n) in H:
            if i == fr.env.id and n is not None and fr.func is not None and loads(fr.func.node, n, [node]) == 0:
                s.w(i).vars.pop(n, None)
        live = set()
        for o in s.heap.values():
            for x in terms_in(o):
                live |= solve.symbols(x)
        for f in got:
            live |= solve.symbols(f)
        for f in entry.pc:
            live |= solve.symbols(f)
        keep = tuple(f for f in s.pc if solve.symbols(f) <= live)
        return St(s.heap, keep, s.trace).assume(*got)

    def poison(self, entry, H, fr, node, auto, run):
        """Variables that every iteration sets before it reads them, and that nothing outside the loop reads, need not be
        described at the loop head: they get a value whose use is an error of the generator."""
        frames = {f.env.id: f for _, f in self.consumers}
        frames[fr.env.id] = fr
        skip = [x for x, _ in self.consumers] + [node]
        cand = [k for k, ds in H.items() if len(ds) > 1 and ('absent',) in ds and k[0] in frames and frames[k[0]].func is not None and
                loads(frames[k[0]].func.node, k[1], skip) == 0]
        while cand:
            new = dict(H)
            for k in cand:
                new[k] = (('unsupported', 'loop temporary %s' % k[1]),)
            try:
                for hd in self.make_heads(entry, new):
                    run(hd.assume(*[f(hd) for _, f in auto]))
                return new
            except Unsupported as e:
                used = [k for k in cand if str(e).endswith('loop temporary %s' % k[1])]
                if 'loop temporary' not in str(e):
                    raise
                cand = [k for k in cand if k not in used] if used else []
        return H

    def note_loop(self, fr, node, cands):
        """what was shown of every loop: each invariant holds at entry and after an arbitrary iteration"""
        for c in cands:
            o = Obligation('%s/loop in %s: invariant: %s' % (self.prefix, fr.func.qual.split(':')[-1] if fr.func else 'module', c[0]),
                           (), t.TRUE)
            o.result, o.solver, o.time = 'proved', 'loop check', 0.0
            if not any(x.name == o.name for x in self.obligations):
                self.obligations.append(o)

    def diff(self, entry, head, end, H):
        """Add to H the locations of head that end changed (with the kinds of values seen). True if H grew."""
        grown = False
        for i, o in head.heap.items():
            e = end.heap.get(i)
            if e is o:
                continue
            if isinstance(o, Env):
                slots = set(o.vars) | set(e.vars)
                get = lambda x, n: x.vars.get(n)
            elif isinstance(o, Obj):
                slots = set(o.f) | set(e.f)
                get = lambda x, n: x.f.get(n)
            else:
                slots = [None]
                get = lambda x, n: x
            for n in slots:
                a, b = get(o, n), get(e, n)
                if n is not None and (a is b or (a is not None and b is not None and a == b)):
                    continue
                if n is None and same_h(o, e):
                    continue
                key = (i, n)
                orig = entry.heap.get(i)
                if orig is None:
                    continue
                ov = get(orig, n)
                ds = H.get(key, ())
                for s, v in ((entry, ov), (end, b)):
                    d = self.describe(s, v, end is s)
                    if not any(d2 == d for d2 in ds):
                        nd = merge_desc(list(ds), d)
                        if nd != list(ds):
                            ds = tuple(nd)
                            grown = True
                if key not in H:
                    grown = True
                H[key] = tuple(ds)
        return grown

    def describe(self, st, v, in_end=False):
        if v is None:
            return ('absent',)
        if isinstance(v, Int):
            return ('int',)
        if isinstance(v, Bool):
            return ('bool',)
        if isinstance(v, Str):
            return ('str', v.k)
        if isinstance(v, NoneV):
            return ('none',)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.describe(st, x) for x in v.items)
        if isinstance(v, Val):
            if v.shape[0] == 'seq':
                return ('seq', v.shape[1])
            return ('val', v.shape)
        if isinstance(v, Lst) or (isinstance(v, Ref) and isinstance(st.o(v), Lst)):
            o = v if isinstance(v, Lst) else st.o(v)
            if o.view:
                return ('unsupported', 'loop temporary: list of a dictionary taken in an earlier iteration')
            sh = o.shape
            if o.items is not None:
                sh = None
                for x in o.items:
                    sh = join_shape(sh, self.shape_in(st, x))
            return ('lst', sh)
        if isinstance(v, Dct) or (isinstance(v, Ref) and isinstance(st.o(v), Dct)):
            o = v if isinstance(v, Dct) else st.o(v)
            if o.mode == 'c':
                ks = vs = None
                lists = False
                for k, x in o.items:
                    ks = join_shape(ks, shape_of(k))
                    if isinstance(x, Ref) and isinstance(st.o(x), Lst):
                        lists = True
                        l = st.o(x)
                        xs = l.shape
                        for y in (l.items or []):
                            xs = join_shape(xs, shape_of(y))
                        vs = join_shape(vs, xs)
                    else:
                        vs = join_shape(vs, shape_of(x))
                return ('dct', ('l' if lists else 'v') if o.items else None, ks, vs)
            return ('dct', o.mode, o.kshape, o.vshape)
        if isinstance(v, Ref) and isinstance(st.o(v), Obj):
            o = st.o(v)
            if '$shared' in o.f:
                return ('ref', v)
            return ('obj', o.cls, tuple(sorted((k, self.describe(st, x)) for k, x in o.f.items())), v.id)
        if isinstance(v, ExtO) and v.kind == 'match':
            return ('unsupported', 'loop temporary: match object of an earlier iteration')
        return ('const', v)

    def make_heads(self, entry, H):
        states = [entry.clone()]
        for (i, n), ds in sorted(H.items(), key=lambda p: (p[0][0], str(p[0][1]))):
            nxt = []
            for s in states:
                for d in ds:
                    s2 = s.clone()
                    o = s2.w(i)
                    if n is None:
                        self.havoc_whole(s2, o, d)
                    elif isinstance(o, Env):
                        if d == ('absent',):
                            o.vars.pop(n, None)
                        else:
                            o.vars[n] = self.make(s2, d, n)
                    else:
                        if d == ('absent',):
                            o.f.pop(n, None)
                        else:
                            o.f[n] = self.make(s2, d, n)
                    nxt.append(s2)
            states = nxt
            if len(states) > 16:
                raise Unsupported('too many loop-head shapes: %s' % [(k, v) for k, v in H.items() if len(v) > 1])
        return [self.bump(s) for s in states]

    def bump(self, s):
        fs = getattr(self, '_wf', [])
        self._wf = []
        return s.assume(*fs) if fs else s

    def havoc_whole(self, st, o, d):
        if isinstance(o, Lst):
            self.move_inner(st, o.items)
            o.items, o.seq, o.shape = None, t.fresh('lst', t.SEQ), d[1]
        elif isinstance(o, Dct):
            o.items, o.mode, o.kshape, o.vshape = [], d[1] or 'v', d[2], d[3]
            o.dom = t.fresh('dom', t.AVB)
            o.map = t.fresh('map', t.AVS if o.mode == 'l' else t.AVV)
        else:
            raise Unsupported('havoc of %r' % (o,))

    def make(self, st, d, name):
        k = d[0]
        name = str(name).strip('$') or 'v'
        if k == 'int':
            return Int(t.fresh(name, t.INT))
        if k == 'bool':
            return Bool(t.fresh(name, t.BOOL))
        if k == 'str':
            return Str(t.fresh(name, t.STR), d[1])
        if k == 'none':
            return NONE
        if k == 'unsupported':
            return Val(t.VNONE, d)
        if k == 'tup':
            return Tup(tuple(self.make(st, x, name) for x in d[1:]))
        if k == 'seq':
            return Val(t.fresh(name, d[1]), ('seq', d[1]))
        if k == 'val':
            return Val(t.fresh(name, t.VAL), d[1])
        if k == 'lst':
            return alloc(st, Lst(None, t.fresh(name, t.SEQ), d[1]))
        if k == 'dct':
            o = Dct()
            self.havoc_whole(st, o, d)
            return alloc(st, o)
        if k == 'obj':
            o = Obj(d[1], {})
            r = alloc(st, o)
            for f, x in d[2]:
                o.f[f] = self.make(st, x, f)
            return r
        return d[1]

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + n['_'].replace('$', '_'), None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (n['_'], n.get('lineno')))
        return m(n, st, fr)

    def e__b(self, n, st, fr):
        return [(st, Str(t.S(n['s']), 'b'))]

    def e__u(self, n, st, fr):
        return [(st, Str(t.S(n['s']), 'u'))]

    def e_Str(self, n, st, fr):
        return self.ev(n['s'], st, fr)

    def e_Num(self, n, st, fr):
        x = n['n']
        if x['_'] == '$i':
            return [(st, Int(t.I(int(x['n']))))]
        return [(st, Float(float(x['n'])))]

    def e_Name(self, n, st, fr):
        return [(st, self.lookup(st, fr, n['id']))]

    def e_Tuple(self, n, st, fr):
        return self.evs(n['elts'], st, fr, lambda s, vs: [(s, Tup(tuple(vs)))])

    def e_List(self, n, st, fr):
        def f(s, vs):
            s = s.clone()
            return [(s, alloc(s, Lst(list(vs))))]
        return self.evs(n['elts'], st, fr, f)

    def e_Set(self, n, st, fr):
        return self.evs(n['elts'], st, fr, lambda s, vs: [(s, ExtO('frozenset', tuple(vs)))])

    def e_Dict(self, n, st, fr):
        def f(s, vs):
            s = s.clone()
            k = len(n['keys'])
            r = alloc(s, Dct('c', []))
            res = [(s, NONE)]
            for a, b in zip(vs[:k], vs[k:]):
                res = self.bind(res, lambda s2, _, a=a, b=b: self.dict_set(s2, r, a, b))
            return [(s2, r) for s2, _ in res]
        return self.evs(n['keys'] + n['values'], st, fr, f)

    def e_Lambda(self, n, st, fr):
        return self.evs(n['args']['defaults'], st, fr,
                        lambda s, ds: [(s, Func(n, fr.mod, fr.env, '%s:<lambda>' % fr.mod, None, ds))])

    def e_IfExp(self, n, st, fr):
        return self.cond(self.ev(n['test'], st, fr), lambda s: self.ev(n['body'], s, fr),
                         lambda s: self.ev(n['orelse'], s, fr))

    def e_BoolOp(self, n, st, fr):
        is_and = n['op']['_'] == 'And'

        def go(vals, s):
            if len(vals) == 1:
                return self.ev(vals[0], s, fr)

            def f(s1, v):
                c = None
                out = []
                for s2, b in self.truth_split(s1, v):
                    if b == is_and:
                        out.extend(go(vals[1:], s2))
                    else:
                        out.append((s2, v))
                return out
            return self.bind(self.ev(vals[0], s, fr), f)
        return go(n['values'], st)

    def e_UnaryOp(self, n, st, fr):
        def f(s, v):
            op = n['op']['_']
            if op == 'Not':
                c = self.truth(s, v)
                if c is not None:
                    return [(s, Bool(t.Not(c)))]
                return [(s2, Bool(t.lift(not b))) for s2, b in self.truth_split(s, v)]
            if op == 'USub':
                return [(s, Int(-v.t))] if isinstance(v, Int) else [(s, Float(-v.x))]
            raise Unsupported('unary ' + op)
        return self.bind(self.ev(n['operand'], st, fr), f)

    def e_BinOp(self, n, st, fr):
        return self.evs([n['left'], n['right']], st, fr, lambda s, vs: self.binop(n['op']['_'], s, fr, vs[0], vs[1]))

    def as_int(self, v):
        if isinstance(v, Int):
            return v.t
        if isinstance(v, Bool):
            return t.Ite(v.t, t.I(1), t.I(0))
        return None

    def binop(self, op, st, fr, a, b):
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            if op == 'Add':
                return [(st, Int(ia + ib))]
            if op == 'Sub':
                return [(st, Int(ia - ib))]
            if op == 'Mult':
                return [(st, Int(ia * ib))]
            if op == 'Pow' and t.is_const(ia) and t.is_const(ib) and 0 <= t.cval(ib) <= 64:
                return [(st, Int(t.I(t.cval(ia) ** t.cval(ib))))]
            if op in ('Mod', 'FloorDiv', 'Div') and t.is_const(ib) and t.cval(ib) > 0:
                return [(st, Int((t.mod if op == 'Mod' else t.div)(ia, ib)))]
            raise Unsupported('integer %s' % op)
        if op == 'Mod' and isinstance(a, Str):
            return self.percent(st, fr, a, b)
        if op == 'Add' and isinstance(a, Str) and isinstance(b, Str):
            return self.str_cat(st, a, b)
        if op == 'Add' and isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if op == 'Add' and isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.o(a), st.o(b)
            if isinstance(x, Lst) and isinstance(y, Lst):
                s = st.clone()
                if x.items is not None and y.items is not None:
                    return [(s, alloc(s, Lst(x.items + y.items)))]
                sh = join_shape(self.lshape(s, a), self.lshape(s, b))
                return [(s, alloc(s, Lst(None, t.seqcat(self.lseq(s, a), self.lseq(s, b)), sh)))]
        if op == 'Mult' and isinstance(a, Ref) and isinstance(st.o(a), Lst) and isinstance(b, Int):
            x = st.o(a)
            if x.items is not None and t.is_const(b.t):
                s = st.clone()
                return [(s, alloc(s, Lst(x.items * max(0, t.cval(b.t)))))]
        if op == 'Mult' and isinstance(a, Str) and t.is_const(a.t) and isinstance(b, Int) and t.is_const(b.t):
            return [(st, Str(t.S(t.cval(a.t) * max(0, t.cval(b.t))), a.k))]
        raise Unsupported('%s on %r and %r' % (op, a, b))

    def str_cat(self, st, a, b):
        if a.k == b.k:
            return [(st, Str(t.concat(a.t, b.t), a.k))]
        return self.bind(self.to_u(st, a), lambda s, x: self.bind(
            self.to_u(s, b), lambda s2, y: [(s2, Str(t.concat(x.t, y.t), 'u'))]))

    def to_u(self, st, a):
        """implicit ASCII decoding of a byte string"""
        if a.k == 'u':
            return [(st, a)]
        out = []
        for s, b in self.split(st, is_ascii(a.t)):
            if b:
                out.append((s, Str(a.t, 'u')))
            else:
                out.extend(self.raise_(s, 'UnicodeDecodeError'))
        return out

    def percent(self, st, fr, a, b):
        if not t.is_const(a.t):
            raise Unsupported('% with a symbolic format')
        args = list(b.items) if isinstance(b, Tup) else [b]
        return self.fmt(st, fr, parse_percent(t.cval(a.t)), args, a.k)

    def fmt(self, st, fr, pieces, args, k):
        res = [(st, Str(t.EMPTY, k))]
        i = 0
        for p in pieces:
            if isinstance(p, tuple):
                ix = p[1] if p[1] is not None else i
                i += 1
                if ix >= len(args):
                    raise Unsupported('format arguments')
                v = args[ix]
                res = self.bind(res, lambda s, acc, v=v, p=p: self.bind(
                    self.to_str(s, fr, v, p[0]), lambda s2, x: self.str_cat(s2, acc, x)))
            elif p:
                res = self.bind(res, lambda s, acc, p=p: [(s, Str(t.concat(acc.t, p), acc.k))])
        return res

    def to_str(self, st, fr, v, conv='s'):
        if conv == 's' and isinstance(v, Str):
            return [(st, v)]
        if isinstance(v, Int):
            return [(st, Str(t.app('int_str', t.STR, v.t) if not t.is_const(v.t) else t.S(str(t.cval(v.t))), 'b'))]
        if isinstance(v, NoneV):
            return [(st, Str(t.S('None'), 'b'))]
        if isinstance(v, Bool) and t.is_const(v.t):
            return [(st, Str(t.S(str(t.cval(v.t))), 'b'))]
        # some text we do not model
        return [(st, Str(t.fresh('repr', t.STR), 'b'))]

    def e_Compare(self, n, st, fr):
        def f(s, vs):
            ops = [o['_'] for o in n['ops']]

            def go(i, s1):
                r = self.compare(ops[i], s1, fr, vs[i], vs[i + 1])
                if i == len(ops) - 1:
                    return r
                return self.bind(r, lambda s2, v: [
                    x for s3, b in self.split(s2, v.t) for x in (go(i + 1, s3) if b else [(s3, Bool(t.FALSE))])])
            return go(0, s)
        return self.evs([n['left']] + n['comparators'], st, fr, f)

    def compare(self, op, st, fr, a, b):
        if op in ('Is', 'IsNot'):
            r = self.is_same(st, a, b)
            return [(st, Bool(r if op == 'Is' else t.Not(r)))]
        if op in ('In', 'NotIn'):
            return self.bind(self.contains(st, fr, b, a),
                             lambda s, v: [(s, Bool(v.t if op == 'In' else t.Not(v.t)))])
        if op in ('Eq', 'NotEq'):
            r = self.equal(st, a, b)
            return [(st, Bool(r if op == 'Eq' else t.Not(r)))]
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            return [(st, Bool({'Lt': t.lt, 'LtE': t.le, 'Gt': lambda x, y: t.lt(y, x), 'GtE': lambda x, y: t.le(y, x)}[op](ia, ib)))]
        if isinstance(a, NoneV) and ib is not None or isinstance(b, NoneV) and ia is not None:
            return [(st, Bool(t.lift((op in ('Lt', 'LtE')) == isinstance(a, NoneV))))]   # None sorts first in Python 2
        if isinstance(a, Str) and isinstance(b, Str):
            f = lambda x, y: t.mk('str.<', (x, y), t.BOOL)
            g = lambda x, y: t.mk('str.<=', (x, y), t.BOOL)
            return [(st, Bool({'Lt': f, 'LtE': g, 'Gt': lambda x, y: f(y, x), 'GtE': lambda x, y: g(y, x)}[op](a.t, b.t)))]
        raise Unsupported('%s on %r, %r' % (op, a, b))

    def is_same(self, st, a, b):
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, NoneV):
                    if isinstance(y, NoneV):
                        return t.TRUE
                    if isinstance(y, Val) and y.shape[0] == 'v':
                        return t.Eq(y.t, t.VNONE)
                    return t.FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return t.lift(a.id == b.id)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return t.Eq(a.t, b.t)
        if type(a) is not type(b):
            if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
                return t.FALSE
            raise Unsupported('is')
        if isinstance(a, (Cls, Func)):
            return t.lift(a is b)
        if isinstance(a, Ext):
            return t.lift(canon_type(a.name) == canon_type(b.name))
        raise Unsupported('is on %r, %r' % (a, b))

    def equal(self, st, a, b):
        """Bool term of a == b."""
        if isinstance(a, Val) or isinstance(b, Val):
            x, y = (a, b) if isinstance(a, Val) else (b, a)
            if isinstance(y, Ref):
                o = st.o(y)
                if isinstance(o, Lst) and o.items == []:
                    return t.app('is_empty_list', t.BOOL, x.t) if x.shape[0] == 'v' else t.FALSE
                raise Unsupported('comparison of an opaque value with an object')
            return t.Eq(enc(a), enc(b))
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            return t.Eq(ia, ib)
        if isinstance(a, Str) and isinstance(b, Str):
            if a.k != b.k and not any(t.is_const(x.t) and all(ord(c) < 128 for c in t.cval(x.t)) for x in (a, b)):
                return t.And(t.Eq(a.t, b.t), is_ascii(a.t))
            return t.Eq(a.t, b.t)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return t.lift(isinstance(a, NoneV) and isinstance(b, NoneV))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return t.FALSE
            return t.And(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            return self.is_same(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return t.TRUE
            x, y = st.o(a), st.o(b)
            if isinstance(x, Lst) and isinstance(y, Lst):
                return t.Eq(self.lseq(st, a), self.lseq(st, b))
            raise Unsupported('object equality')
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            x = st.o(r)
            if isinstance(x, (Lst, Dct)) or (isinstance(x, Obj) and not (isinstance(x.cls, Cls) and x.cls.find('__eq__'))):
                if isinstance(o, (Int, Bool, Str, Float)) or isinstance(x, (Lst, Dct)):
                    return t.FALSE
        if type(a) is not type(b):
            return t.FALSE
        raise Unsupported('== on %r, %r' % (a, b))

    def contains(self, st, fr, coll, x):
        if isinstance(coll, Str) and isinstance(x, Str):
            if t.is_const(coll.t) and len(t.cval(coll.t)) > 3 and t.Eq(t.slen(x.t), 1) in st.pc:
                return [(st, Bool(t.in_re(x.t, regex.chars_re(t.cval(coll.t)))))]
            return [(st, Bool(t.contains(coll.t, x.t)))]
        if isinstance(coll, Tup):
            return [(st, Bool(t.Or(*[self.equal(st, x, y) for y in coll.items])))]
        if isinstance(coll, ExtO) and coll.kind == 'frozenset':
            return [(st, Bool(t.Or(*[self.equal(st, x, y) for y in coll.data])))]
        if isinstance(coll, Val):
            return [(st, Bool(t.app('val_contains', t.BOOL, coll.t, enc(x))))]
        if isinstance(coll, Ref):
            o = st.o(coll)
            if isinstance(o, Lst):
                if o.items is not None:
                    return [(st, Bool(t.Or(*[self.equal(st, x, y) for y in o.items])))]
                return [(st, Bool(t.mk('seq.contains', (self.lseq(st, coll), t.unit(enc(x))), t.BOOL)))]
            d = self.dict_of(st, coll)
            if d is not None and not (isinstance(o, Obj) and o.cls.find('__contains__')):
                return [(st, Bool(self.dict_has(st, d, x)))]
            if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.find('__contains__'):
                return self.call_method(st, fr, coll, '__contains__', [x])
        if isinstance(coll, Ext) and ('in:' + coll.name) in EXT:
            return EXT['in:' + coll.name](self, st, fr, [x], {})
        raise Unsupported('in %r' % (coll,))

    # ---- attributes
    def e_Attribute(self, n, st, fr):
        return self.bind(self.ev(n['value'], st, fr), lambda s, o: self.getattr(s, fr, o, n['attr']))

    def getattr(self, st, fr, o, name):
        if isinstance(o, Ref):
            h = st.o(o)
            if isinstance(h, Obj):
                if isinstance(h.cls, Ext):
                    g = GETATTR.get(h.cls.name)
                    if g:
                        r = g(self, st, fr, o, name)
                        if r is not None:
                            return r
                    if name in h.f:
                        return [(st, h.f[name])]
                    if (h.cls.name, name) in METH:
                        return [(st, BM(o, name))]
                    if self.isa(h.cls, Ext('BaseException')) or h.f.get('$noattr'):
                        return self.raise_(st, 'AttributeError')
                    if h.f.get('$closed'):
                        return self.raise_(st, 'AttributeError', Str(t.S(name), 'b'))
                    raise Unsupported('attribute %s of %s' % (name, h.cls.name))
                c = h.cls.find(name)
                if isinstance(c, Wrap) and c.kind == 'property':
                    return self.call(st, fr, c.get, [o], {})
                if name in h.f:
                    return [(st, h.f[name])]
                if c is not None:
                    return self.class_attr(st, h.cls, c, o)
                if name == '__class__':
                    return [(st, h.cls)]
                if name == '__dict__':
                    raise Unsupported('__dict__')
                d = self.dict_of(st, o)
                if d is not None and ('dict', name) in METH:
                    return [(st, BM(o, name))]
                if self.isa(h.cls, Ext('BaseException')):
                    if name == 'args':
                        return [(st, Tup(()))]
                if h.f.get('$open'):
                    raise Unsupported('attribute %s of an open object' % name)
                return self.raise_(st, 'AttributeError', Str(t.S(name), 'b'))
            if isinstance(h, Lst):
                return [(st, BM(o, name))]
            if isinstance(h, Dct):
                return [(st, BM(o, name))]
            if isinstance(h, Gen):
                return [(st, BM(o, name))]
        if isinstance(o, (Str, Tup, Int)):
            kind = {'Str': 'str', 'Tup': 'tuple', 'Int': 'int'}[type(o).__name__]
            if (kind, name) in METH:
                return [(st, BM(o, name))]
            if name == '__iter__' and kind == 'str':
                return self.raise_(st, 'AttributeError')
            if kind == 'int' or not hasattr(str if kind == 'str' else tuple, name):
                return self.raise_(st, 'AttributeError', Str(t.S(name), 'b'))
            raise Unsupported('%s.%s' % (kind, name))
        if isinstance(o, NoneV):
            return self.raise_(st, 'AttributeError', Str(t.S(name), 'b'))
        if isinstance(o, Mod):
            vs = st.o(self.mods[o.name]).vars
            if name in vs:
                return [(st, vs[name])]
            return self.raise_(st, 'AttributeError')
        if isinstance(o, Ext):
            full = o.name + '.' + name
            if full in EXTATTR:
                return [(st, EXTATTR[full])]
            return [(st, Ext(full))]
        if isinstance(o, ExtO):
            if (o.kind, name) in METH:
                return [(st, BM(o, name))]
            raise Unsupported('%s.%s' % (o.kind, name))
        if isinstance(o, Cls):
            c = o.find(name)
            if name == '__name__':
                return [(st, Str(t.S(o.name), 'b'))]
            if c is None:
                if o.builtin_base():
                    return [(st, Ext(o.builtin_base() + '.' + name))]
                return self.raise_(st, 'AttributeError')
            if isinstance(c, Wrap):
                if c.kind == 'classmethod':
                    return [(st, Bound(o, c.get))]
                return [(st, c.get)]
            return [(st, c)]
        if isinstance(o, Super):
            c = (st.o(o.self).cls if isinstance(o.self, Ref) else o.self).find(name, after=o.cls)
            if c is not None:
                return self.class_attr(st, o.cls, c, o.self)
            if isinstance(o.self, Ref):
                return [(st, BM(Super(Ext('builtin'), o.self), name))]
        if isinstance(o, Val):
            if o.shape[0] == 'unsupported':
                raise Unsupported(o.shape[1])
            if ('val', name) in METH:
                return [(st, BM(o, name))]
        if isinstance(o, Func):
            if name == '__name__':
                return [(st, Str(t.S(o.node.get('name', '<lambda>')), 'b'))]
        raise Unsupported('attribute %s of %r' % (name, o))

    def class_attr(self, st, cls, c, o):
        if isinstance(c, Func):
            return [(st, Bound(o, c))]
        if isinstance(c, Wrap):
            if c.kind == 'classmethod':
                return [(st, Bound(cls, c.get))]
            if c.kind == 'property':
                return self.call(st, None, c.get, [o], {})
            return [(st, c.get)]
        return [(st, c)]

    def setattr(self, st, fr, o, name, v):
        if isinstance(o, Ref) and isinstance(st.o(o), Obj):
            h = st.o(o)
            if isinstance(h.cls, Cls):
                c = h.cls.find(name)
                if isinstance(c, Wrap) and c.kind == 'property':
                    if c.set is None:
                        return self.raise_(st, 'AttributeError')
                    return self.bind(self.call(st, fr, c.set, [o, v], {}), lambda s, _: [(s, NONE)])
                if h.cls.find('__setattr__'):
                    raise Unsupported('__setattr__')
            elif (h.cls.name, 'setattr') in METH:
                return METH[(h.cls.name, 'setattr')](self, st, fr, o, [Str(t.S(name), 'b'), v], {})
            s = st.clone()
            s.w(o).f[name] = v
            return [(s, NONE)]
        if isinstance(o, NoneV):
            return self.raise_(st, 'AttributeError')
        raise Unsupported('setattr on %r' % (o,))

    def delattr(self, st, fr, o, name):
        if isinstance(o, Ref) and isinstance(st.o(o), Obj):
            h = st.o(o)
            if name not in h.f:
                return self.raise_(st, 'AttributeError')
            s = st.clone()
            s.w(o).f.pop(name)
            return [(s, NONE)]
        raise Unsupported('delattr')

    # ---- subscripts
    def index(self, n, st, fr):
        if n['_'] == 'Index':
            return self.ev(n['value'], st, fr)
        if n['_'] == 'Slice':
            if n['step'] is not None and not (n['step']['_'] == 'Name' and n['step']['id'] == 'None'):
                raise Unsupported('slice step')
            parts = [n['lower'], n['upper']]
            return self.seq([(lambda s, p=p: self.ev(p, s, fr)) if p is not None else (lambda s: [(s, NONE)])
                             for p in parts], st, fr, lambda s, vs: [(s, Slice(vs[0], vs[1]))])
        if n['_'] in ('ExtSlice', 'Ellipsis'):
            raise Unsupported('slice')
        return self.ev(n, st, fr)

    def e_Subscript(self, n, st, fr):
        return self.seq([lambda s: self.ev(n['value'], s, fr), lambda s: self.index(n['slice'], s, fr)], st, fr,
                        lambda s, vs: self.getitem(s, fr, vs[0], vs[1]))

    def slice_bounds(self, ln, lo, hi):
        """(start, length) terms of s[lo:hi] for a sequence of length ln"""
        def norm(v, dflt):
            if isinstance(v, NoneV):
                return dflt
            x = self.as_int(v)
            if x is None:
                raise Unsupported('slice bound %r' % (v,))
            if t.is_const(x):
                k = t.cval(x)
                if k >= 0:
                    return t.Min(x, ln)
                return t.Max(ln + x, t.I(0))
            return t.Ite(t.lt(x, 0), t.Max(ln + x, t.I(0)), t.Min(x, ln))
        return norm(lo, t.I(0)), norm(hi, ln)

    def simp_int(self, st, x):
        """resolve ite's in an index under the path condition"""
        seen = 0
        while seen < 6:
            it = [y for y in t.subterms([x]) if y.op == 'ite']
            if not it:
                return x
            y = it[-1]
            c = y.args[0]
            if c in st.pc or self.entails(st, c):
                x = t.subst(x, {y: y.args[1]})
            elif t.Not(c) in st.pc or self.entails(st, t.Not(c)):
                x = t.subst(x, {y: y.args[2]})
            else:
                return x
            seen += 1
        return x

    def entails(self, st, f):
        fs = f.args if f.op == 'and' else (f,)
        if all(g in st.pc for g in fs):
            return True
        if any(t.Not(g) in st.pc for g in fs):
            return False
        if f.op == 'not' and f.args[0].op == 'and' and any(t.Not(g) in st.pc for g in f.args[0].args):
            return True
        if f is t.TRUE or f in st.pc:
            return True
        if f is t.FALSE:
            return False
        k = known_language(st.pc, f)
        if k is not None:
            return k
        f = solve.under(st.pc, f)
        if f is t.TRUE or f is t.FALSE:
            return f is t.TRUE
        hyps = solve.relevant(list(st.pc), f, 3)
        return solve.check(solve.with_axioms(hyps + [t.Not(f)], 1), 0.4, ('cvc5',))[0] == 'unsat'

    def getitem(self, st, fr, o, ix):
        if isinstance(o, Str):
            ln = t.slen(o.t)
            if isinstance(ix, Slice):
                a, b = self.slice_bounds(ln, ix.lo, ix.hi)
                a, b = self.simp_int(st, a), self.simp_int(st, b)
                return [(st, Str(t.substr(o.t, a, t.sub(b, a)), o.k))]
            i = self.as_int(ix)
            if i is None:
                return self.raise_(st, 'TypeError')
            out = []
            j = i if (t.is_const(i) and t.cval(i) >= 0) else (ln + i if t.is_const(i) else t.Ite(t.lt(i, 0), ln + i, i))
            for s, ok in self.split(st, t.And(t.le(0, j), t.lt(j, ln))):
                if ok:
                    out.append((s, Str(t.substr(o.t, self.simp_int(s, j), 1), o.k)))
                else:
                    out.extend(self.raise_(s, 'IndexError'))
            return out
        if isinstance(o, Tup):
            if isinstance(ix, Slice):
                lo = None if isinstance(ix.lo, NoneV) else t.cval(ix.lo.t)
                hi = None if isinstance(ix.hi, NoneV) else t.cval(ix.hi.t)
                return [(st, Tup(o.items[lo:hi]))]
            i = self.as_int(ix)
            if not t.is_const(i):
                raise Unsupported('symbolic tuple index')
            try:
                return [(st, o.items[t.cval(i)])]
            except IndexError:
                return self.raise_(st, 'IndexError')
        if isinstance(o, Ref):
            h = st.o(o)
            if isinstance(h, Lst):
                return self.list_get(st, fr, o, ix)
            if isinstance(h, Dct):
                return self.dict_get(st, fr, o, ix)
            if isinstance(h, Obj):
                if isinstance(h.cls, Cls) and h.cls.find('__getitem__'):
                    return self.call_method(st, fr, o, '__getitem__', [ix])
                if '$d' in h.f:
                    return self.dict_get(st, fr, h.f['$d'], ix)
                if '$items' in h.f:
                    return self.getitem(st, fr, h.f['$items'], ix)
                if isinstance(h.cls, Ext) and (h.cls.name, '__getitem__') in METH:
                    return METH[(h.cls.name, '__getitem__')](self, st, fr, o, [ix], {})
        if isinstance(o, Val) and ('val', '__getitem__') in METH:
            return METH[('val', '__getitem__')](self, st, fr, o, [ix], {})
        if isinstance(o, NoneV):
            return self.raise_(st, 'TypeError')
        raise Unsupported('subscript of %r' % (o,))

    def list_get(self, st, fr, o, ix):
        h = st.o(o)
        if h.items is not None:
            if isinstance(ix, Slice):
                b = []
                for x in (ix.lo, ix.hi):
                    if isinstance(x, NoneV):
                        b.append(None)
                    elif t.is_const(self.as_int(x)):
                        b.append(t.cval(self.as_int(x)))
                    else:
                        break
                else:
                    s = st.clone()
                    return [(s, alloc(s, Lst(h.items[b[0]:b[1]])))]
            else:
                i = self.as_int(ix)
                if t.is_const(i):
                    try:
                        return [(st, h.items[t.cval(i)])]
                    except IndexError:
                        return self.raise_(st, 'IndexError')
                if 0 < len(h.items) <= 8:
                    out = []
                    n = len(h.items)
                    j = t.Ite(t.lt(i, 0), i + n, i)
                    rest = st
                    for q in range(n):
                        nxt = None
                        for s, b in self.split(rest, t.Eq(j, q)):
                            if b:
                                out.append((s, h.items[q]))
                            else:
                                nxt = s
                        if nxt is None:
                            return out
                        rest = nxt
                    return out + self.raise_(rest, 'IndexError')
        seq, sh = self.lseq(st, o), self.lshape(st, o)
        ln = t.seqlen(seq)
        if isinstance(ix, Slice):
            a, b = self.slice_bounds(ln, ix.lo, ix.hi)
            a, b = self.simp_int(st, a), self.simp_int(st, b)
            s = st.clone()
            return [(s, alloc(s, Lst(None, t.seqsub(seq, a, t.sub(b, a)), sh)))]
        i = self.as_int(ix)
        j = i if (t.is_const(i) and t.cval(i) >= 0) else (ln + i if t.is_const(i) else t.Ite(t.lt(i, 0), ln + i, i))
        out = []
        for s, ok in self.split(st, t.And(t.le(0, j), t.lt(j, ln))):
            if ok:
                x = t.nth(seq, j)
                out.append((s.assume(wf(x, sh)), dec(x, sh)))
            else:
                out.extend(self.raise_(s, 'IndexError'))
        return out

    def lseq(self, st, r):
        """Seq term of a list"""
        o = st.o(r)
        if o.view is not None:
            d = st.o(o.view[0])
            return t.select(d.map, o.view[1])
        if o.items is not None:
            return t.seqcat(*[t.unit(self.enc_in(st, x)) for x in o.items]) if o.items else t.SEMPTY
        if o.seq is None:
            raise Unsupported('list that moved')
        return o.seq

    def enc_in(self, st, v):
        """enc of a list element; lists inside are taken by value"""
        if isinstance(v, Tup):
            return enc(Tup(tuple(Val(self.enc_in(st, x), ('v',)) for x in v.items)))
        if isinstance(v, Ref) and isinstance(st.o(v), Lst) and st.o(v).view is None:
            return t.app('boxed', t.VAL, self.lseq(st, v))
        return enc(v)

    def shape_in(self, st, v):
        if isinstance(v, Tup):
            return ('p',) + tuple(self.shape_in(st, x) for x in v.items)
        if isinstance(v, Ref) and isinstance(st.o(v), Lst) and st.o(v).view is None:
            return ('L', self.lshape(st, v) or ('v',))
        return shape_of(v)

    def move_inner(self, st, items):
        for x in items or ():
            if isinstance(x, Tup):
                self.move_inner(st, x.items)
            elif isinstance(x, Ref) and isinstance(st.heap.get(x.id), Lst) and st.o(x).view is None:
                st.heap[x.id] = Moved()

    def lshape(self, st, r):
        o = st.o(r)
        if o.view is not None:
            return st.o(o.view[0]).vshape
        if o.items is not None:
            sh = None
            for x in o.items:
                sh = join_shape(sh, self.shape_in(st, x))
            return sh
        return o.shape

    def lset(self, st, r, seq, shape):
        """replace the content of a list (in place)"""
        o = st.w(r)
        if o.view is not None:
            d = st.w(o.view[0])
            if d.n == 'shared':
                raise Unsupported('lists shared by two dictionaries')
            d.map = t.store(d.map, o.view[1], seq)
            d.vshape = join_shape(d.vshape, shape)
        else:
            self.move_inner(st, o.items)
            o.items, o.seq, o.shape = None, seq, shape

    def setitem(self, st, fr, o, ix, v):
        if isinstance(o, Ref):
            h = st.o(o)
            if isinstance(h, Lst):
                if isinstance(ix, Slice):
                    raise Unsupported('slice assignment')
                i = self.as_int(ix)
                if h.items is not None and t.is_const(i):
                    s = st.clone()
                    try:
                        s.w(o).items[t.cval(i)] = v
                    except IndexError:
                        return self.raise_(st, 'IndexError')
                    return [(s, NONE)]
                raise Unsupported('symbolic list assignment')
            if isinstance(h, Dct):
                return self.dict_set(st, o, ix, v)
            if isinstance(h, Obj):
                if isinstance(h.cls, Cls) and h.cls.find('__setitem__'):
                    return self.bind(self.call_method(st, fr, o, '__setitem__', [ix, v]), lambda s, _: [(s, NONE)])
                if '$d' in h.f:
                    return self.dict_set(st, h.f['$d'], ix, v)
        if isinstance(o, (Tup, Str)):
            return self.raise_(st, 'TypeError')
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, st, fr, o, ix):
        if isinstance(o, Ref):
            h = st.o(o)
            if isinstance(h, Dct):
                return self.dict_del(st, o, ix)
            if isinstance(h, Obj):
                if isinstance(h.cls, Cls) and h.cls.find('__delitem__'):
                    return self.bind(self.call_method(st, fr, o, '__delitem__', [ix]), lambda s, _: [(s, NONE)])
                if '$d' in h.f:
                    return self.dict_del(st, h.f['$d'], ix)
        raise Unsupported('del item on %r' % (o,))

    # ---- dictionaries
    def dict_of(self, st, v):
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o, Dct):
                return v
            if isinstance(o, Obj) and '$d' in o.f:
                return o.f['$d']
        return None

    def dict_has(self, st, d, k):
        o = st.o(d)
        if o.mode == 'c':
            return t.Or(*[self.equal(st, k, x) for x, _ in o.items]) if o.items else t.FALSE
        return t.select(o.dom, enc(k))

    def dict_value(self, st, d, k):
        """value stored under k (assumed present), as (state, value)"""
        o = st.o(d)
        if o.mode == 'l':
            if o.n == 'shared':
                raise Unsupported('lists shared by two dictionaries')
            key = enc(k)
            for i, x in st.heap.items():
                if isinstance(x, Lst) and x.view == (d.id, key):
                    return st, Ref(i)
            s = st.clone()
            return s, alloc(s, Lst(None, None, None, (d.id, key)))
        x = t.select(o.map, enc(k))
        s = st.assume(wf(x, o.vshape))
        return s, dec(x, o.vshape)

    def dict_get(self, st, fr, d, k):
        o = st.o(d)
        if o.mode == 'c':
            out, rest = [], st
            for x, v in o.items:
                nxt = None
                for s, b in self.split(rest, self.equal(rest, k, x)):
                    if b:
                        out.append((s, v))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                rest = nxt
            return out + self.raise_(rest, 'KeyError', k)
        out = []
        for s, b in self.split(st, self.dict_has(st, d, k)):
            if b:
                out.append(self.dict_value(s, d, k))
            else:
                out.extend(self.raise_(s, 'KeyError', k))
        return out

    def dict_set(self, st, d, k, v):
        o = st.o(d)
        if o.mode == 'c':
            for i, (x, _) in enumerate(o.items):
                c = self.equal(st, k, x)
                if c is t.TRUE or self.entails(st, c):
                    s = st.clone()
                    s.w(d).items[i] = (x, v)
                    return [(s, NONE)]
                if c is not t.FALSE and not self.entails(st, t.Not(c)):
                    break
            else:
                s = st.clone()
                s.w(d).items.append((k, v))
                return [(s, NONE)]
            st = self.symbolise(st, d)
            o = st.o(d)
        s = st.clone()
        if isinstance(v, Ref) and isinstance(s.o(v), Lst) and o.mode == 'v' and o.vshape is None:
            s.w(d).mode = 'l'
            if o.dom is not None and o.map.sort != t.AVS:
                raise Unsupported('mixed dict')
        o = s.o(d)
        key = enc(k)
        w = s.w(d)
        w.kshape = join_shape(w.kshape, shape_of(k))
        if o.mode == 'l':
            if not (isinstance(v, Ref) and isinstance(s.o(v), Lst)):
                raise Unsupported('non-list stored in a dict of lists: %r' % (v,))
            l = s.o(v)
            if l.view is not None:
                raise Unsupported('list shared between two dict entries')
            seq, sh = self.lseq(s, v), self.lshape(s, v)
            self.detach(s, d, key)
            w = s.w(d)
            w.dom = t.store(w.dom, key, t.TRUE)
            w.map = t.store(w.map, key, seq)
            w.vshape = join_shape(w.vshape, sh)
            s.heap[v.id] = Lst(None, None, None, (d.id, key))
            return [(s, NONE)]
        w.dom = t.store(w.dom, key, t.TRUE)
        w.map = t.store(w.map, key, enc(v))
        w.vshape = join_shape(w.vshape, shape_of(v))
        return [(s, NONE)]

    def detach(self, s, d, key):
        """the list stored under key stops living in the dict"""
        for i, x in list(s.heap.items()):
            if isinstance(x, Lst) and x.view is not None and x.view[0] == d.id:
                c = t.Eq(x.view[1], key)
                if c is t.TRUE or self.entails(s, c):
                    s.heap[i] = Lst(None, self.lseq(s, Ref(i)), s.o(d).vshape, None)
                elif not (c is t.FALSE or self.entails(s, t.Not(c))):
                    # unknown aliasing: snapshot is wrong on one side
                    raise Unsupported('list view may alias a replaced entry')

    def dict_del(self, st, d, k):
        out = []
        for s, b in self.split(st, self.dict_has(st, d, k)):
            if not b:
                out.extend(self.raise_(s, 'KeyError', k))
                continue
            s = s.clone()
            o = s.o(d)
            if o.mode == 'c':
                for i, (x, _) in enumerate(o.items):
                    c = self.equal(s, k, x)
                    if c is t.TRUE or self.entails(s, c):
                        del s.w(d).items[i]
                        break
                    if c is not t.FALSE and not self.entails(s, t.Not(c)):
                        raise Unsupported('del of an ambiguous key')
            else:
                key = enc(k)
                if o.mode == 'l':
                    self.detach(s, d, key)
                w = s.w(d)
                w.dom = t.store(w.dom, key, t.FALSE)
            out.append((s, NONE))
        return out

    def dlen(self, st, d):
        o = st.o(d)
        if o.mode == 'c':
            return t.I(len(o.items))
        return t.app('card', t.INT, o.dom)

    def symbolise(self, st, d):
        """turn a concrete dict into a symbolic one"""
        s = st.clone()
        o = s.o(d)
        items = list(o.items)
        lists = bool(items) and all(isinstance(v, Ref) and isinstance(s.o(v), Lst) for _, v in items)
        w = s.w(d)
        w.items = []
        w.mode = 'l' if lists else 'v'
        w.dom = t.constarr(t.AVB, t.FALSE)
        w.map = t.constarr(t.AVS, t.SEMPTY) if lists else t.constarr(t.AVV, t.VNONE)
        for k, v in items:
            r = self.dict_set(s, d, k, v)
            s = r[0][0]
        return s

    # ---- comprehensions
    def e_ListComp(self, n, st, fr):
        s = st.clone()
        h = alloc(s, Env(None, {'$acc': alloc(s, Lst([]))}))

        def elt(s1):
            return self.lift(self.bind(self.ev(n['elt'], s1, fr), lambda s2, v: METH[('list', 'append')](
                self, s2, fr, s2.o(h).vars['$acc'], [v], {})))
        out = []
        for s1, o in self.comp(n['generators'], s, fr, elt, n):
            out.append((s1, o if isinstance(o, Raise) else s1.o(h).vars['$acc']))
        return out

    def e_SetComp(self, n, st, fr):
        raise Unsupported('set comprehension')

    def e_DictComp(self, n, st, fr):
        s = st.clone()
        d = alloc(s, Dct('c', []))
        env = alloc(s, Env(fr.env))
        fr2 = Frame(env, fr.mod, fr.func, fr.on_yield, fr.depth, fr.contract)

        def elt(s1):
            return self.lift(self.evs([n['key'], n['value']], s1, fr2, lambda s2, vs: self.dict_set(s2, d, vs[0], vs[1])))
        return [(s1, o if isinstance(o, Raise) else d) for s1, o in self.comp(n['generators'], s, fr2, elt, n)]

    def comp(self, gens, st, fr, elt, node):
        if not gens:
            return elt(st)
        g = gens[0]

        def body(s):
            live = [(s, None)]
            for c in g['ifs']:
                nxt = []
                for s1, o in live:
                    if o is not None:
                        nxt.append((s1, o))
                        continue
                    for s2, v in self.ev(c, s1, fr):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                        else:
                            for s3, b in self.truth_split(s2, v):
                                nxt.append((s3, None if b else CNT))
                live = nxt
            out = []
            for s1, o in live:
                out.extend(self.comp(gens[1:], s1, fr, elt, node) if o is None else [(s1, o)])
            return out
        out = []
        for s, v in self.ev(g['iter'], st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.for_value(s, fr, v, lambda s2, x: self.lift(self.store(g['target'], s2, fr, x)), body,
                                          lambda s2: [(s2, None)], node))
        return out

    def e_GeneratorExp(self, n, st, fr):
        # the outermost iterable is evaluated now
        def f(s, it):
            s = s.clone()

            def run(eng, s0, on_yield):
                s1 = s0.clone()
                env = alloc(s1, Env(fr.env))
                fr2 = Frame(env, fr.mod, fr.func, None, fr.depth, fr.contract)

                def elt(s2):
                    out = []
                    for s3, v in eng.ev(n['elt'], s2, fr2):
                        out.extend([(s3, v)] if isinstance(v, Raise) else on_yield(s3, v))
                    return out
                g = n['generators'][0]

                def body(s2):
                    live = [(s2, None)]
                    for c in g['ifs']:
                        nxt = []
                        for s3, o in live:
                            if o is not None:
                                nxt.append((s3, o))
                                continue
                            for s4, v in eng.ev(c, s3, fr2):
                                if isinstance(v, Raise):
                                    nxt.append((s4, v))
                                else:
                                    for s5, b in eng.truth_split(s4, v):
                                        nxt.append((s5, None if b else CNT))
                        live = nxt
                    out = []
                    for s3, o in live:
                        out.extend(eng.comp(n['generators'][1:], s3, fr2, elt, n) if o is None else [(s3, o)])
                    return out
                return eng.for_value(s1, fr2, it, lambda s2, x: eng.lift(eng.store(g['target'], s2, fr2, x)), body,
                                     lambda s2: [(s2, None)], n)
            return [(s, alloc(s, Gen(run, 'genexp')))]
        return self.bind(self.ev(n['generators'][0]['iter'], st, fr), f)

    def e_Yield(self, n, st, fr):
        if fr.on_yield is None:
            raise Unsupported('yield outside a driven generator')

        def f(s, v):
            out = []
            for s1, o in fr.on_yield(s, v):
                if o is None:
                    out.append((s1, NONE))
                else:
                    out.append((s1, YieldStop(o)))
            return out
        if n['value'] is None:
            return f(st, NONE)
        return self.bind(self.ev(n['value'], st, fr), f)

    # ---- calls
    def e_Call(self, n, st, fr):
        kws = n['keywords']
        thunks = [lambda s: self.ev(n['func'], s, fr)]
        thunks += [lambda s, a=a: self.ev(a, s, fr) for a in n['args']]
        thunks += [lambda s, k=k: self.ev(k['value'], s, fr) for k in kws]
        if n.get('starargs'):
            thunks.append(lambda s: self.ev(n['starargs'], s, fr))
        if n.get('kwargs'):
            thunks.append(lambda s: self.ev(n['kwargs'], s, fr))

        def f(s, vs):
            fv = vs[0]
            args = vs[1:1 + len(n['args'])]
            i = 1 + len(n['args'])
            kw = {}
            for k in kws:
                a = k['arg']
                kw[a if isinstance(a, str) else a['s']] = vs[i]
                i += 1
            if n.get('starargs'):
                it = self.concrete_items(s, vs[i])
                if it is None:
                    raise Unsupported('symbolic *args')
                args = args + it
                i += 1
            if n.get('kwargs'):
                d = s.o(vs[i])
                if not isinstance(d, Dct) or d.mode != 'c':
                    raise Unsupported('symbolic **kwargs')
                for k, v in d.items:
                    kw[t.cval(k.t)] = v
            # super() and a few others need the frame
            return self.call(s, fr, fv, args, kw)
        return self.seq(thunks, st, fr, f)

    def call_method(self, st, fr, o, name, args, kw=None):
        return self.bind(self.getattr(st, fr, o, name), lambda s, m: self.call(s, fr, m, args, kw or {}))

    def call(self, st, fr, fv, args, kw):
        if isinstance(fv, Bound):
            return self.call(st, fr, fv.fn, [fv.self] + list(args), kw)
        if isinstance(fv, Func):
            return self.call_func(st, fr, fv, list(args), dict(kw))
        if isinstance(fv, Cls):
            return self.instantiate(st, fr, fv, args, kw)
        if isinstance(fv, BM):
            return self.call_bm(st, fr, fv, args, kw)
        if isinstance(fv, Ext):
            f = EXT.get(fv.name)
            if f is None and (fv.name in EXC_PARENT or isinstance(EXTATTR.get(fv.name), Ext)):
                s = st.clone()
                c = EXTATTR.get(fv.name, fv)
                return [(s, alloc(s, Obj(c, {'args': Tup(tuple(args))})))]
            if f is None:
                raise Unsupported('call of external %s' % fv.name)
            self.trusted.add(fv.name)
            return f(self, st, fr, list(args), dict(kw))
        if isinstance(fv, ExtO) and (fv.kind, '__call__') in METH:
            return METH[(fv.kind, '__call__')](self, st, fr, fv, list(args), dict(kw))
        if isinstance(fv, Ref) and isinstance(st.o(fv), Obj) and isinstance(st.o(fv).cls, Ext) and \
                (st.o(fv).cls.name, '__call__') in METH:
            return METH[(st.o(fv).cls.name, '__call__')](self, st, fr, fv, list(args), dict(kw))
        if isinstance(fv, Val) and fv.shape[0] == 'unsupported':
            raise Unsupported(fv.shape[1])
        if isinstance(fv, (Int, Str, NoneV, Bool)):
            return self.raise_(st, 'TypeError')
        raise Unsupported('call of %r' % (fv,))

    def call_bm(self, st, fr, bm, args, kw):
        o = bm.self
        if isinstance(o, Super):       # builtin base class of an instance
            ref = o.self
            h = st.o(ref)
            if bm.name == '__init__':
                base = h.cls.builtin_base()
                if base == 'dict':
                    return self.dict_init(st, fr, h.f['$d'], args, kw)
                if base and self.isa(Ext(base), Ext('BaseException')):
                    s = st.clone()
                    s.w(ref).f['args'] = Tup(tuple(args))
                    return [(s, NONE)]
                if base in (None, 'object'):
                    return [(st, NONE)]
                raise Unsupported('super().__init__ of %s' % base)
            if '$d' in h.f:
                if (('dict', bm.name)) in METH:
                    return METH[('dict', bm.name)](self, st, fr, h.f['$d'], args, kw)
            raise Unsupported('super().%s' % bm.name)
        if isinstance(o, Ref):
            h = st.o(o)
            if isinstance(h, Lst):
                kind = 'list'
            elif isinstance(h, Dct):
                kind = 'dict'
            elif isinstance(h, Gen):
                kind = 'generator'
            elif isinstance(h, Obj) and isinstance(h.cls, Ext):
                kind = h.cls.name
            elif isinstance(h, Obj) and '$d' in h.f:
                kind, o = 'dict', h.f['$d']
            else:
                raise Unsupported('method %s' % bm.name)
        else:
            kind = {'Str': 'str', 'Tup': 'tuple', 'Int': 'int', 'Val': 'val'}.get(type(o).__name__) or o.kind
        if kind == 'str' and bm.name in FOLD and not kw and t.is_const(o.t) and all(
                isinstance(x, NoneV) or (isinstance(x, (Str, Int)) and t.is_const(x.t)) for x in args):
            r = fold_str(st, bm.name, o, args)
            if r is not None:
                self.trusted.add('str.%s (constant)' % bm.name)
                return r
        f = METH.get((kind, bm.name))
        if f is None:
            raise Unsupported('method %s.%s' % (kind, bm.name))
        self.trusted.add('%s.%s' % (kind, bm.name))
        return f(self, st, fr, o, list(args), dict(kw))

    def dict_init(self, st, fr, d, args, kw):
        f = EXT['dict.fill']
        return f(self, st, fr, [d] + list(args), kw)

    def instantiate(self, st, fr, cls, args, kw):
        s = st.clone()
        base = cls.builtin_base()
        if cls.find('__new__'):
            raise Unsupported('__new__ of %s' % cls.name)
        o = Obj(cls, {})
        r = alloc(s, o)
        if base == 'dict':
            o.f['$d'] = alloc(s, Dct('c', []))
        elif base == 'tuple':
            raise Unsupported('tuple subclass')
        init = cls.find('__init__')
        if init is None:
            if base and self.isa(Ext(base), Ext('BaseException')):
                s.w(r).f['args'] = Tup(tuple(args))
                return [(s, r)]
            if base == 'dict':
                return self.bind(self.dict_init(s, fr, o.f['$d'], args, kw), lambda s2, _: [(s2, r)])
            if args or kw:
                return self.raise_(s, 'TypeError')
            return [(s, r)]
        return self.bind(self.call(s, fr, init, [r] + list(args), kw), lambda s2, _: [(s2, r)])

    def bind_args(self, st, fn, args, kw):
        """parameter dict, or None when the call raises TypeError"""
        a = fn.node['args']
        names = [x['id'] if x['_'] == 'Name' else None for x in a['args']]
        if None in names:
            raise Unsupported('tuple parameter')
        out = {}
        if len(args) > len(names):
            if not a['vararg']:
                return None
        for n, v in zip(names, args):
            out[n] = v
        va, kwa = pname(a['vararg']), pname(a['kwarg'])
        if va:
            out[va] = Tup(tuple(args[len(names):]))
        extra = []
        for k, v in kw.items():
            if k in names:
                if k in out:
                    return None
                out[k] = v
            elif kwa:
                extra.append((Str(t.S(k), 'b'), v))
            else:
                return None
        if kwa:
            out[kwa] = alloc(st, Dct('c', extra))
        nd = len(fn.defaults)
        for n, v in zip(names[len(names) - nd:], fn.defaults):
            out.setdefault(n, v)
        for n in names:
            if n not in out:
                return None
        return out

    def call_func(self, st, fr, fn, args, kw, force=False):
        st = st.clone()
        params = self.bind_args(st, fn, args, kw)
        if params is None:
            return self.raise_(st, 'TypeError', Str(t.S('arguments of %s' % fn.qual), 'b'))
        if not force:
            for c in self.contracts.get(fn.qual, ()):
                if self.target is not None and c.name in self.target.no_contract:
                    continue
                try:
                    ok = c.applicable(self, st, params)
                except Unsupported:
                    ok = False
                if ok:
                    if c is self.target or (self.target and c.name == self.target.name):
                        pass     # a recursive call uses the contract too
                    self.used_contracts.add(c.name)
                    return self.apply(st, fr, c, params, fn)
        depth = (fr.depth if fr else 0) + 1
        if depth > 40:
            raise Unsupported('call depth')
        if not force:
            self.inlined.add(fn.qual)
        env = alloc(st, Env(fn.env, params))
        f2 = Frame(env, fn.mod, fn, None, depth)
        if fn.is_gen:
            def run(eng, s, on_yield):
                f3 = Frame(env, fn.mod, fn, on_yield, depth)
                out = []
                for s1, o in eng.block(fn.node['body'], s, f3):
                    if isinstance(o, YieldStop):
                        o = o.out
                    out.append((s1, o))
                return out
            return [(st, alloc(st, Gen(run, fn.qual)))]
        body = fn.node['body']
        if not isinstance(body, list):      # lambda
            return self.ev(body, st, f2)
        out = []
        for s, o in self.block(body, st, f2):
            if o is None:
                out.append((s, NONE))
            elif isinstance(o, Ret):
                out.append((s, o.v))
            elif isinstance(o, Raise):
                out.append((s, o))
            else:
                raise Unsupported('outcome %r of %s' % (o, fn.qual))
        return out

    # ------------------------------------------------------------------ contracts at call sites
    def oblige(self, name, st, goal, note=''):
        if not self.recording:
            return
        name = '%s/%s' % (self.prefix, name) if self.prefix else name
        self.obligations.append(Obligation(name, tuple(st.pc), t.lift(goal), st.trace, note))

    def apply(self, st, fr, c, params, fn):
        for label, f in c.pre(self, st, params):
            self.oblige('call %s requires %s' % (c.name, label), st, f)
            st = st.assume(f)
        out = []
        for case in c.cases(self, st, params):
            s = st.clone()
            if getattr(c, 'modifies', None):
                for loc in c.modifies(self, s, params):
                    self.havoc_loc(s, loc)
            s = self.bump(s)
            val = case.make(self, s, params) if case.make else NONE
            s = self.bump(s)
            fs = [f for _, f in case.ens(self, st, s, params, val)] if case.ens else []
            s = s.assume(*fs)
            if not self.feasible(s.pc):
                continue
            if case.kind == 'raise':
                out.append((s, Raise(val)))
            else:
                out.append((s, val))
        return out

    def havoc_loc(self, st, loc):
        """(object ref, field) or (object ref, None); the new value has the shape of the old one"""
        r, f = loc
        o = st.w(r)
        if f is None:
            if isinstance(o, Lst):
                if o.view is not None:
                    raise Unsupported('havoc of a list view')
                sh = self.lshape(st, r)
                o.items, o.seq, o.shape = None, t.fresh('lst', t.SEQ), sh
            elif isinstance(o, Dct):
                d = self.describe(st, r)
                self.havoc_whole(st, o, d)
            return
        v = o.f.get(f)
        d = self.describe(st, v)
        if d[0] in ('const', 'none', 'absent', 'ref'):
            return
        o.f[f] = self.make(st, d, f)


FOLD = {'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'find', 'rfind', 'startswith', 'endswith', 'lower', 'upper',
        'replace', 'count', 'splitlines', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'partition', 'rpartition', 'title'}


def fold_str(st, name, o, args):
    """a method of a constant string with constant arguments, evaluated"""
    if any(isinstance(x, Str) and x.k != o.k for x in args):
        return None
    if o.k == 'u' and any(ord(c) > 127 for c in t.cval(o.t)):
        return None
    wrap = (lambda x: t.cval(x).encode('latin-1')) if o.k == 'b' else t.cval
    back = lambda x: Str(t.S(x.decode('latin-1') if isinstance(x, bytes) else x), o.k)
    try:
        r = getattr(wrap(o.t), name)(*[None if isinstance(x, NoneV) else wrap(x.t) if isinstance(x, Str) else t.cval(x.t)
                                       for x in args])
    except (ValueError, TypeError, UnicodeError):
        return None
    if isinstance(r, bool):
        return [(st, Bool(t.lift(r)))]
    if isinstance(r, int):
        return [(st, Int(t.I(r)))]
    if isinstance(r, (bytes, str)):
        return [(st, back(r))]
    if isinstance(r, tuple):
        return [(st, Tup(tuple(back(x) for x in r)))]
    s = st.clone()
    return [(s, alloc(s, Lst([back(x) for x in r])))]


class YieldStop(Raise):
    """travels through the generator body like an exception but matches no handler"""

    def __init__(self, out):
        self.out = out
        self.exc = None


def _handle(self, handlers, st, r, fr, _old=Engine.handle):
    if isinstance(r, YieldStop):
        return [(st, r)]
    return _old(self, handlers, st, r, fr)


Engine.handle = _handle


class LoopView(object):
    """What a contract may look at when it proposes invariants."""

    def __init__(self, eng, entry, H, fr, ghost, whole, node):
        self.eng, self.entry, self.H, self.fr, self.ghost, self.whole, self.node = eng, entry, H, fr, ghost, whole, node

    def slots(self, kinds, changed=True):
        """[(name, getter(st) -> value)] of changed (or all local) slots whose descriptions are in kinds"""
        out = []
        for (i, n), ds in sorted(self.H.items(), key=lambda p: (p[0][0], str(p[0][1]))):
            if n is None or not any(d[0] in kinds for d in ds):
                continue
            o = self.entry.heap[i]
            if isinstance(o, Env):
                out.append(('%s' % n, lambda st, i=i, n=n: st.heap[i].vars[n]))
            else:
                out.append(('.%s' % n, lambda st, i=i, n=n: st.heap[i].f[n]))
        return out

    def wholes(self, cls):
        return [Ref(i) for (i, n) in self.H if n is None and isinstance(self.entry.heap[i], cls)]

    def ints(self):
        return [(n, lambda st, g=g: as_t(g(st), Int)) for n, g in self.slots(('int',))]

    def bools(self):
        return [(n, lambda st, g=g: as_t(g(st), Bool)) for n, g in self.slots(('bool',))]

    def strs(self):
        return [(n, lambda st, g=g: as_t(g(st), Str)) for n, g in self.slots(('str',))]

    def lists(self):
        """changed lists: (name, fn(st) -> Seq term)"""
        out = []
        for n, g in self.slots(('lst',)):
            out.append((n, lambda st, g=g: self.eng.lseq(st, g(st))))
        for r in self.wholes(Lst):
            out.append(('list#%d' % r.id, lambda st, r=r: self.eng.lseq(st, r)))
        return out

    def done(self, st):
        return st.o(self.ghost).vars['$done'].t

    def rest(self, st):
        return st.o(self.ghost).vars['$rest'].t

    def processed(self, st):
        return st.o(self.ghost).vars['$P'].t


def as_t(v, kind):
    if not isinstance(v, kind):
        raise Unsupported('kind')
    return v.t


def pname(x):
    if x is None:
        return None
    if isinstance(x, dict):
        return x.get('id') or x.get('s') or x.get('arg')
    return x


def same_h(a, b):
    if type(a) is not type(b):
        return False
    for s in a.__slots__:
        x, y = getattr(a, s), getattr(b, s)
        if x is y:
            continue
        if isinstance(x, t.T) or isinstance(y, t.T):
            return False
        if x != y:
            return False
    return True


def merge_desc(ds, d):
    """add a description to a set of alternatives, merging compatible ones"""
    for i, e in enumerate(ds):
        if e == d:
            return ds
        if e[0] == d[0] == 'lst':
            m = ('lst', join_shape(e[1], d[1]))
            return ds[:i] + [m] + ds[i + 1:]
        if e[0] == d[0] == 'dct':
            if e[1] and d[1] and e[1] != d[1]:
                raise Unsupported('dict modes differ')
            m = ('dct', e[1] or d[1], join_shape(e[2], d[2]), join_shape(e[3], d[3]))
            return ds[:i] + [m] + ds[i + 1:]
        if e[0] == d[0] == 'obj' and e[1] is d[1] and len(e[2]) == len(d[2]):
            fs = []
            for (n1, x), (n2, y) in zip(e[2], d[2]):
                if n1 != n2:
                    break
                m = merge_desc([x], y)
                if len(m) != 1:
                    break
                fs.append((n1, m[0]))
            else:
                m = ('obj', e[1], tuple(fs), None)
                return ds[:i] + [m] + ds[i + 1:]
        if e[0] == d[0] == 'val':
            return ds[:i] + [('val', join_shape(e[1], d[1]))] + ds[i + 1:]
    return ds + [d]


def loads(n, name, skip):
    """how often a name is read in a syntax tree outside some nodes"""
    if any(n is x for x in skip):
        return loads(n.get('orelse') or [], name, ())
    if isinstance(n, list):
        return sum(loads(x, name, skip) for x in n)
    if isinstance(n, dict):
        if n.get('_') == 'Name' and n.get('id') == name:
            return 1
        if n.get('_') == 'Global' and name in n['names']:
            return 1
        out = 0
        for k, v in n.items():
            if k in ('targets', 'target') and n.get('_') in ('Assign', 'For'):
                v = [x for tg in (v if isinstance(v, list) else [v]) for x in plain_targets(tg)]
            out += loads(v, name, skip)
        return out
    return 0


def plain_targets(tg):
    """the parts of an assignment target that are not plain names"""
    if tg['_'] == 'Name':
        return []
    if tg['_'] in ('Tuple', 'List'):
        return [y for x in tg['elts'] for y in plain_targets(x)]
    return [tg]


def terms_in(o):
    """the terms a heap object or a value holds"""
    if isinstance(o, t.T):
        return [o]
    if isinstance(o, Env):
        return [x for v in o.vars.values() for x in terms_in(v)]
    if isinstance(o, (V, H, Raise)):
        return [x for n in (o.__slots__ if not isinstance(o, Raise) else ()) for x in terms_in(getattr(o, n))]
    if isinstance(o, dict):
        return [x for v in o.values() for x in terms_in(v)]
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in terms_in(v)]
    return []


def bound_names(n):
    k = n['_']
    if k in ('FunctionDef', 'ClassDef'):
        return [n['name']]
    if k == 'Assign':
        return [x['id'] for x in n['targets'] if x['_'] == 'Name']
    if k in ('Import', 'ImportFrom'):
        return [a['asname'] or a['name'] for a in n['names']]
    if k == 'If':
        return [b for s in n['body'] + n['orelse'] for b in bound_names(s)]
    return []


ASCII_RE = '(re.* (re.range "\\u{0}" "\\u{7f}"))'


def is_ascii(s):
    if t.is_const(s):
        return t.lift(all(ord(c) < 128 for c in t.cval(s)))
    if s.op == 'str.++':
        return t.And(*[is_ascii(x) for x in s.args])
    return t.in_re(s, ASCII_RE)


def canon_type(n):
    return {'bytes': 'str', 'exceptions.ValueError': 'ValueError'}.get(n, n)


def parse_percent(f):
    out, i, cur = [], 0, ''
    while i < len(f):
        if f[i] == '%':
            c = f[i + 1]
            if c == '%':
                cur += '%'
            elif c in 'srd':
                out.append(cur)
                out.append((c, None))
                cur = ''
            else:
                raise Unsupported('format %' + c)
            i += 2
        else:
            cur += f[i]
            i += 1
    out.append(cur)
    return out
