"""Contracts of the parsing of header parameters (request_parser/http/multipartparser.py)."""
from pyvc import solve
from pyvc import terms as t
from pyvc.builtins_spec import lower_term, split_term, strip_term
from pyvc.contract import Case, Contract, raises
from pyvc.libspec import resub_term, unquote_term
from pyvc.sym import is_ascii
from pyvc.values import *

from .httputil import text

MP = 'request_parser.http.multipartparser'
SEMI, QUOTE = t.S(';'), t.S('"')


def depth(x):
    return sum(1 for y in t.subterms([x]) if y.op == 'str.indexof' or y.op == 'app' and y.args[0] == 'param_end')


def open_quote(x):
    """an odd number of quotes that are not escaped"""
    return t.Eq(t.mod(t.app('count', t.INT, resub_term(t.S('\\\\[\\\\"]'), t.EMPTY, x), QUOTE), t.I(2)), 1)


def param_end(s, e):
    """the first semicolon from place e on that is outside of quotes, the end of the text if there is none"""
    return t.app('param_end', t.INT, s, e)


@solve.axiom('param_end')
def _end_ax(s, e):
    r = param_end(s, e)
    if depth(e) > 1:
        return []
    return [t.Eq(r, t.Ite(t.And(t.lt(0, e), open_quote(t.substr(s, 0, e))), param_end(s, t.indexof(s, SEMI, e + 1)), t.Ite(t.lt(e, 0), t.slen(s), e)))]


def params(s):
    """the pieces of a text that begins with a semicolon (if it does not, there is none)"""
    return t.app('params', t.SEQ, s)


def first_end(s):
    r = t.substr(s, 1, t.slen(s))
    return r, param_end(r, t.indexof(r, SEMI, 0))


@solve.axiom('params')
def _params_ax(s):
    if depth(s):
        return []
    r, e = first_end(s)
    piece = t.unit(t.VS(strip_term(t.substr(r, 0, e), 'b')))
    return [t.Eq(params(s), t.Ite(t.prefixof(SEMI, s), t.seqcat(piece, params(t.substr(r, e, t.slen(r)))), t.SEMPTY))]


def first_piece(s):
    """(first piece, the other pieces) of a text that begins with a semicolon"""
    r, e = first_end(s)
    return strip_term(t.substr(r, 0, e), 'b'), params(t.substr(r, e, t.slen(r)))


class HeaderParams(Contract):
    """_parse_header_params: the pieces between the semicolons outside of quotes, without blanks around them"""
    name = '_parse_header_params'
    func = MP + ':_parse_header_params'

    def setups(self, eng):
        eng.load(MP)
        return [('', eng.base.clone(), [text('s')], {}), ('None', eng.base.clone(), [NONE], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['s'], Str)

    def invariants(self, eng, h):
        out = []
        for n, g in h.strs():
            for m, lg in h.lists():
                out.append(('%s and the pieces of %s' % (m, n), lambda st, g=g, lg=lg: t.Eq(
                    t.seqcat(lg(st), params(g(st))), t.seqcat(lg(h.entry), params(g(h.entry))))))
        # the search for the end of a piece
        texts = [v.t for v in h.entry.o(h.fr.env).vars.values() if isinstance(v, Str)]
        for e, eg in h.ints():
            for x in texts:
                out.append(('%s has the same end' % e, lambda st, x=x, eg=eg: t.Eq(param_end(x, eg(st)), param_end(x, eg(h.entry)))))
            out.append(('%s is a place or -1' % e, lambda st, eg=eg: t.le(-1, eg(st))))
        return out

    def cases(self, eng, st, a):
        want = params(a['s'].t) if isinstance(a['s'], Str) else t.SEMPTY
        return [Case('ret', lambda eng, st, a: alloc(st, Lst(None, t.fresh('pieces', t.SEQ), ('s', 'b'))),
                     lambda eng, old, new, a, v: [('the pieces outside of quotes', t.Eq(eng.lseq(new, v), want))],
                     match=lambda eng, st, v: isinstance(v, Ref) and isinstance(st.o(v), Lst))]


# ------------------------------------------------------------------ names and values
EQ, TICK, STAR = t.S('='), t.S("'"), t.S('*')


def piece(x):
    """(it has an equal sign, name, value, what has to be ASCII) of a piece: RFC 2231 if the name ends with * and the value has two apostrophes"""
    i = t.indexof(x, EQ, 0)
    name = lower_term(strip_term(t.substr(x, 0, i), 'b'))
    value = strip_term(t.substr(x, i + 1, t.slen(x)), 'b')
    star = t.suffixof(STAR, name)
    coded = t.And(star, t.Eq(t.app('count', t.INT, value, TICK), 2))
    fields = split_term(value, TICK)
    charset, rest = (t.sel('vs', t.nth(fields, n)) for n in (0, 2))
    quoted = t.And(t.le(2, t.slen(value)), t.prefixof(QUOTE, value), t.suffixof(QUOTE, value))
    inner = t.substr(value, 1, t.slen(value) - 2)
    plain = t.replace_all(t.replace_all(inner, t.S('\\\\'), t.S('\\')), t.S('\\"'), QUOTE)
    return (t.contains(x, EQ), t.Ite(star, t.substr(name, 0, t.slen(name) - 1), name),
            t.Ite(coded, unquote_term(rest, charset, t.S('replace')), t.Ite(quoted, plain, value)),
            t.And(is_ascii(name), t.Implies(coded, t.And(is_ascii(charset), is_ascii(rest)))))


def named(seq, k):
    """a piece has the name k"""
    return t.app('params_named', t.BOOL, seq, k)


def value_of(seq, k):
    """the value of the last piece that has the name k"""
    return t.app('params_value', t.VAL, seq, k)


def bad_piece(seq):
    return t.app('params_bad', t.BOOL, seq)


def snoc(seq):
    """(what is before the last element, it), None if the end of the sequence is not known"""
    if seq.op == 'seq.unit':
        return t.SEMPTY, seq.args[0]
    if seq.op == 'seq.++' and seq.args[-1].op == 'seq.unit':
        return t.seqcat(*seq.args[:-1]), seq.args[-1].args[0]


@solve.axiom('params_named')
def _named_ax(seq, k):
    if seq is t.SEMPTY:
        return [t.Not(named(seq, k))]
    if not snoc(seq):
        return []
    before, x = snoc(seq)
    there, name, value, ok = piece(t.sel('vs', x))
    return [t.Iff(named(seq, k), t.Or(named(before, k), t.And(there, t.Eq(t.VS(name), k))))]


@solve.axiom('params_value')
def _value_ax(seq, k):
    if not snoc(seq):
        return []
    before, x = snoc(seq)
    there, name, value, ok = piece(t.sel('vs', x))
    return [t.Eq(value_of(seq, k), t.Ite(t.And(there, t.Eq(t.VS(name), k)), t.VS(value), value_of(before, k)))]


@solve.axiom('params_bad')
def _bad_ax(seq):
    if seq is t.SEMPTY:
        return [t.Not(bad_piece(seq))]
    if seq.op == 'seq.++':
        return [t.Iff(bad_piece(seq), t.Or(*[bad_piece(x) for x in seq.args]))]
    if seq.op == 'seq.unit':
        there, name, value, ok = piece(t.sel('vs', seq.args[0]))
        return [t.Iff(bad_piece(seq), t.And(there, t.Not(ok)))]
    return []


def present(st, r, k):
    o = st.o(r)
    return t.FALSE if o.mode == 'c' and not o.items else t.select(o.dom, k)


def stored(st, r, k):
    o = st.o(r)
    return None if o.mode == 'c' else t.select(o.map, k)


class ParseHeader(Contract):
    """parse_header(line): the main value in lower case and the parameters of the pieces: the names in lower case without the * of
    RFC 2231, the values decoded (RFC 2231), unquoted or as they are"""
    name = 'parse_header'
    func = MP + ':parse_header'

    def setups(self, eng):
        eng.load(MP)
        return [('', eng.base.clone(), [text('line')], {}), ('None', eng.base.clone(), [NONE], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['line'], NoneV) or isinstance(a['line'], Str) and a['line'].k == 'b'

    def key(self):
        if not hasattr(self, 'k'):
            self.k = t.fresh('anykey', t.VAL)
        return self.k

    def invariants(self, eng, h):
        out, k = [], self.key()
        for r in h.wholes(Dct):
            out += [('the names so far', lambda st, r=r: t.Iff(present(st, r, k), named(h.done(st), k))),
                    ('the values so far', lambda st, r=r: t.TRUE if st.o(r).mode == 'c' else t.Implies(present(st, r, k), t.Eq(stored(st, r, k), value_of(h.done(st), k))))]
        out.append(('no piece so far is bad', lambda st: t.Not(bad_piece(h.done(st)))))
        out.append(('what is left is bad', lambda st: t.Iff(bad_piece(h.whole), bad_piece(t.seqcat(h.done(st), h.rest(st))))))
        return out

    def cases(self, eng, st, a):
        own = eng.target is self
        if isinstance(a['line'], NoneV):
            return [Case('ret', lambda eng, st, a: Tup((NONE, NONE)), lambda eng, old, new, a, v: [
                ('nothing', t.lift(isinstance(v, Tup) and all(isinstance(x, NoneV) for x in v.items)))])]
        first, more = first_piece(t.concat(SEMI, a['line'].t))

        def make(eng, st, a):
            d = Dct('v', None, t.fresh('dom', t.AVB), t.fresh('map', t.AVV), ('s', 'u'), ('s', None))
            return Tup((text('main', 'u'), alloc(st, d)))

        def ens(eng, old, new, a, v):
            main, d = v.items
            out = [('the main value in lower case', t.Eq(main.t, lower_term(first)))]
            if own:
                k = self.key()
                out += [('the main value is ASCII', is_ascii(lower_term(first))), ('no piece is bad', t.Not(bad_piece(more))),
                        ('a name is there if a piece has it', t.Iff(present(new, d, k), named(more, k))),
                        ('its value is that of the last piece of that name', t.Implies(present(new, d, k), t.TRUE if new.o(d).mode == 'c' else t.Eq(stored(new, d, k), value_of(more, k))))]
            return out
        return [Case('ret', make, ens, match=lambda eng, st, v: isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Ref)),
                raises('UnicodeDecodeError', lambda *x: [('not ASCII', t.Or(t.Not(is_ascii(lower_term(first))), bad_piece(more)))] if own else []),
                raises('LookupError', lambda *x: [])]


CONTRACTS = [HeaderParams(), ParseHeader()]
