"""Contracts: what is assumed and what has to be shown for one function of /repo."""
import time
import traceback

from . import solve, terms as t
from .sym import Engine, Frame, Obligation, YieldStop
from .values import *
from .values import Unsupported


class Case(object):
    """One way a call may end: kind 'ret' or 'raise'.

    make(eng, st, a) -> value (allocates in st); ens(eng, old, new, a, value) -> [(label, formula)];
    match(eng, st, value) -> bool selects the case a return value belongs to; exc names the exception class."""

    def __init__(self, kind, make=None, ens=None, exc=None, match=None, label=None):
        self.kind, self.make, self.ens, self.exc, self.match = kind, make, ens, exc, match
        self.label = label or (exc or 'return')


def raises(exc, ens=None, fields=None, label=None):
    """A case that raises an exception of the given class ('mod:Class' or builtin name)."""
    def make(eng, st, a):
        return alloc(st, Obj(eng.cls_by_name(exc), {'args': Tup(())}))
    return Case('raise', make, ens, exc, label=label)


class Contract(object):
    name = None             # short name used in obligation names
    func = None             # 'module:Qualified.name'
    by_lookup = False       # `enter` looks the code up (func is only a name)
    no_contract = ()        # contracts that are not used while verifying this one (their functions are entered)
    timeout = 25
    lemmas = False          # the solver may use lemmas/strings.lean
    quick_feasible = False  # for long functions: see solve.QUICK

    def enter(self, eng, st, args, kw):
        """how the code under contract is called when it is not the function `func` itself (looked up like a caller would):
        ({argument name: value}, results)"""
        return None

    def setups(self, eng):
        """[(label, state, args, kwargs)]: the arbitrary pre-states"""
        raise NotImplementedError

    def applicable(self, eng, st, a):
        return False

    def pre(self, eng, st, a):
        return []

    def modifies(self, eng, st, a):
        return []

    def cases(self, eng, st, a):
        return []

    def invariants(self, eng, h):
        return []

    def after_loop(self, eng, h):
        """fn(st) -> [formula] that should hold where a loop is left, or None to keep every hypothesis"""
        return None

    def post(self, eng, old, new, a, out):
        """Obligations of one outcome: [(label, formula)]; the default checks the cases."""
        return None


class Result(object):
    def __init__(self, contract):
        self.contract = contract
        self.obligations = []
        self.unsupported = []
        self.trusted = set()
        self.used = set()
        self.inlined = set()
        self.paths = 0
        self.loops = 0
        self.wall = 0.0

    @property
    def failed(self):
        return [o for o in self.obligations if o.result != 'proved']


def frame_obligations(eng, old, new, mod):
    """every pre-existing object outside `modifies` is unchanged"""
    allowed = {(r.id, f) for r, f in mod}
    out = []
    for i, o in old.heap.items():
        n = new.heap.get(i)
        if n is o or n is None:
            continue
        if isinstance(o, Env):
            continue      # frames of the call itself and module globals are handled below
        if (i, None) in allowed:
            continue
        if isinstance(o, Obj):
            for f in set(o.f) | set(n.f):
                if (i, f) in allowed or (i, '*') in allowed:
                    continue
                a, b = o.f.get(f), n.f.get(f)
                if a is b or (a is not None and b is not None and a == b):
                    continue
                cname = o.cls.name
                out.append(('frame: %s.%s unchanged' % (cname, f), eq_values(a, b)))
        elif isinstance(o, Lst):
            if o.items is not None and n.items is not None and o.items == n.items and o.view == n.view:
                continue
            if o.view is not None or n.view is not None:
                continue
            out.append(('frame: list unchanged', t.Eq(eng.lseq(old, Ref(i)), eng.lseq(new, Ref(i)))))
        elif isinstance(o, Dct):
            if o.mode == n.mode == 'c':
                if o.items == n.items:
                    continue
                out.append(('frame: dict unchanged', t.FALSE))
            elif o.mode == n.mode:
                out.append(('frame: dict unchanged', t.And(t.Eq(o.dom, n.dom), t.Eq(o.map, n.map))))
            else:
                out.append(('frame: dict unchanged', t.FALSE))
    return out


def eq_values(a, b):
    if a is None or b is None or type(a) is not type(b):
        return t.FALSE
    if isinstance(a, (Int, Bool)):
        return t.Eq(a.t, b.t)
    if isinstance(a, Str):
        return t.Eq(a.t, b.t) if a.k == b.k else t.FALSE
    if isinstance(a, Val):
        return t.Eq(a.t, b.t)
    if isinstance(a, Tup) and len(a.items) == len(b.items):
        return t.And(*[eq_values(x, y) for x, y in zip(a.items, b.items)])
    return t.lift(a == b)


def generate(ast, contracts, c, pick=None):
    """Run the generator on one contract: a Result with undischarged obligations."""
    res = Result(c)
    t0 = time.time()
    if c.func is None:       # a lemma over specification functions
        for label, hyps, goal in c.lemma():
            res.obligations.append(Obligation('%s/%s' % (c.name, label), tuple(hyps), goal))
        return res
    solve.QUICK = c.quick_feasible
    solve.LEMMAS = c.lemmas
    try:
        eng0 = Engine(ast, contracts)
        fn = eng0.func_by_name(c.func) if not c.by_lookup else None
        setups = c.setups(eng0)
    except Unsupported as e:
        res.unsupported.append('%s: %s' % (c.name, e))
        return res
    for label, st, args, kw in (setups if pick is None else setups[pick:pick + 1]):
        eng = eng0
        eng.target = c
        eng.prefix = c.name + ('[%s]' % label if label else '')
        eng.label = label
        eng.obligations = []
        eng.recording = True
        eng.paths = 0
        try:
            st = eng.sync(st)
            probe = st.clone()
            entry = c.enter(eng, probe, list(args), dict(kw))
            a = entry[0] if entry else eng.bind_args(probe, fn, list(args), dict(kw))
            if a is None:
                raise Unsupported('the signature of %s changed' % c.func)
            for l, f in c.pre(eng, probe, a):
                probe = probe.assume(f)
            # vacuity guard: the precondition must be satisfiable
            r, who = solve.check(solve.with_axioms(list(probe.pc), 1), 10)
            if r == 'unsat':
                eng.oblige('precondition is satisfiable', St({}, (), ()), t.FALSE)
            outs = entry[1](probe) if entry else eng.call_func(probe, None, fn, list(args), dict(kw), force=True)
            mod = c.modifies(eng, probe, a)
            nobs = 0
            for s, v in outs:
                if isinstance(v, YieldStop):
                    raise Unsupported('yield outcome')
                custom = c.post(eng, probe, s, a, v)
                if custom is not None:
                    for l, f in custom:
                        eng.oblige(l, s, f)
                        nobs += 1
                else:
                    kind = 'raise' if isinstance(v, Raise) else 'ret'
                    val = v.exc if isinstance(v, Raise) else v
                    hit = []
                    for case in c.cases(eng, probe, a):
                        if case.kind != kind:
                            continue
                        if kind == 'raise':
                            if eng.isa(s.o(val).cls, eng.cls_by_name(case.exc)):
                                hit.append(case)
                        elif case.match is None or case.match(eng, s, val):
                            hit.append(case)
                    if not hit:
                        what = describe_outcome(eng, s, v)
                        eng.oblige('never %s' % what, s, t.FALSE)
                        nobs += 1
                        continue
                    # several cases of the same kind: one of them has to hold as a whole
                    if len(hit) == 1:
                        try:
                            fs = hit[0].ens(eng, probe, s, a, val) if hit[0].ens else []
                        except Unsupported as e:
                            fs = [('result has the specified kind (%s)' % e, t.FALSE)]
                        for l, f in fs:
                            eng.oblige('%s: %s' % (hit[0].label, l), s, f)
                            nobs += 1
                    else:
                        alts = []
                        for case in hit:
                            try:
                                alts.append(t.And(*[f for _, f in (case.ens(eng, probe, s, a, val) if case.ens else [])]))
                            except Unsupported:
                                pass
                        eng.oblige('one of: ' + ' / '.join(x.label for x in hit), s, t.Or(*alts))
                        nobs += 1
                for l, f in frame_obligations(eng, probe, s, mod):
                    eng.oblige(l, s, f)
                    nobs += 1
            if nobs == 0:
                eng.oblige('at least one obligation', St({}, (), ()), t.FALSE)
        except Unsupported as e:
            res.unsupported.append('%s: %s' % (eng.prefix, e))
            eng.obligations = []
        except (KeyError, AttributeError, AssertionError, IndexError, TypeError, ValueError, RuntimeError) as e:
            # the code no longer has the shape the contract talks about (renamed field, other type)
            res.unsupported.append('%s: %s: %s' % (eng.prefix, type(e).__name__, e))
            res.tb = traceback.format_exc()
            eng.obligations = []
        res.obligations.extend(eng.obligations)
        res.paths += eng.paths
    res.trusted |= eng0.trusted
    res.used |= eng0.used_contracts
    res.inlined |= eng0.inlined
    res.loops = eng0.loops
    res.wall = time.time() - t0
    return res


def describe_outcome(eng, s, v):
    if isinstance(v, Raise):
        c = s.o(v.exc).cls
        return 'raises %s' % c.name
    return 'returns %s' % type(v).__name__


def discharge(results, hyps=(), end=None, enough=None):
    """Prove every obligation.  After `end` (a time), or when `enough` obligations have failed, the rest is 'skipped'."""
    jobs = []
    failed = []
    for r in results:
        for o in r.obligations:
            if o.result == 'proved':
                continue

            def job(o=o, r=r):
                t0 = time.time()
                if (end and t0 > end) or (enough and len(failed) >= enough):
                    o.result, o.solver = 'skipped', ''
                    return
                o.result, o.solver = solve.prove(list(o.pc) + list(hyps), o.goal, r.contract.timeout)
                o.time = time.time() - t0
                if o.result != 'proved':
                    failed.append(o)
            jobs.append(job)
    solve.parallel(jobs)
