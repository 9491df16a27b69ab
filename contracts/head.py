"""Contracts of the parsing of the head of a request (request_parser/http/request.py)."""
from pyvc import solve
from pyvc import terms as t
from pyvc.builtins_spec import lower_term, split_term, strip_term
from pyvc.contract import Case, Contract, raises
from pyvc.sym import is_ascii
from pyvc.values import *

from .httputil import PARTS6, Pure, text, url_part, bad_brackets
from .request import CLS, EXC, HEADER, REQ, SUSPICIOUS, UNREADABLE, fields_limit, new_request
from .streams import is_stream, rest, stream_locs

BAD = REQ + ':InvalidHttpRequest'
HOST = '(re.union (re.+ (re.union (re.range "a" "z") (re.range "0" "9") (str.to_re ".") (str.to_re "-"))) (re.++ (str.to_re "[") ' \
       '(re.* (re.union (re.range "a" "f") (re.range "0" "9"))) (str.to_re ":") (re.+ (re.union (re.range "a" "f") (re.range "0" "9") ' \
       '(str.to_re ".") (str.to_re ":"))) (str.to_re "]")))'
PORT = '(re.opt (re.++ (str.to_re ":") (re.+ (re.range "0" "9"))))'


def domain_of(host):
    return t.app('domain_of', t.STR, host)


def port_of(host):
    return t.app('port_of', t.STR, host)


class SplitDomainPort(Pure):
    """split_domain_port(host): the domain, lower-cased and without a trailing dot, and the port; two empty strings for anything else"""
    name = 'split_domain_port'
    func = REQ + ':split_domain_port'
    kinds = 'b'

    def setups(self, eng):
        eng.load(REQ)
        return Pure.setups(self, eng)

    def args(self, st, k):
        return [text('host', k)]

    def applicable(self, eng, st, a):
        return isinstance(a['host'], Str) or isinstance(a['host'], Val) and a['host'].shape[:1] == ('s',)

    def cases(self, eng, st, a):
        host, k = (a['host'].t, a['host'].k) if isinstance(a['host'], Str) else (t.sel('vs', a['host'].t), a['host'].shape[1])
        h = lower_term(host)
        own = eng.target is self
        valid = t.in_re(h, '(re.++ %s %s)' % (HOST, PORT))

        def make(eng, st, a):
            return Tup((text('domain', k), text('port', k)))

        def ens(eng, old, new, a, v):
            d, p = [x.t for x in v.items]
            if not own:         # two functions of the argument
                return [('the domain', t.Eq(d, domain_of(host))), ('the port', t.Eq(p, port_of(host)))]
            whole = t.substr(h, 0, t.slen(h) - t.Ite(t.Eq(p, t.EMPTY), t.I(0), t.slen(p) + 1))
            dot = t.suffixof(t.S('.'), whole)
            return [('empty for an invalid host', t.Implies(t.Not(valid), t.And(t.Eq(d, t.EMPTY), t.Eq(p, t.EMPTY)))),
                    ('a host and its port', t.Implies(valid, t.Eq(h, t.concat(whole, t.Ite(t.Eq(p, t.EMPTY), t.EMPTY, t.concat(t.S(':'), p)))))),
                    ('the port is digits', t.in_re(p, '(re.* (re.range "0" "9"))')),
                    ('the rest is a host', t.Implies(valid, t.in_re(whole, HOST))),
                    ('the domain is the host without a trailing dot', t.Implies(valid, t.Eq(d, t.Ite(dot, t.substr(whole, 0, t.slen(whole) - 1), whole))))]
        return [Case('ret', make, ens, match=lambda eng, st, v: isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, Str) for x in v.items))]


class RequestLine(Pure):
    """parse_request_line(line): three parts between single spaces; the URI as _urlparse splits it"""
    name = 'parse_request_line'
    func = REQ + ':parse_request_line'
    kinds = 'bu'
    KEYS = ('SCHEME', 'DOMAIN', 'PATH', 'PARAMS', 'QUERY_STRING', 'FRAGMENT')

    def setups(self, eng):
        eng.load(REQ)
        return Pure.setups(self, eng)

    def args(self, st, k):
        return [text('request_line', k)]

    def applicable(self, eng, st, a):
        return isinstance(a['request_line'], Str)

    def cases(self, eng, st, a):
        line = a['request_line'].t
        parts = split_term(line, t.S(' '))
        three = t.Eq(t.seqlen(parts), 3)
        uri = t.sel('vs', t.nth(parts, 1))

        def ens(eng, old, new, a, v):
            d = dict((t.cval(k.t), x) for k, x in new.o(v).items)
            out = [('three parts', three)]
            for n, p in zip(self.KEYS, PARTS6):
                out.append(('%s is that of the URI' % n.lower(), t.Eq(d[n].t, url_part(p, uri))))
            return out + [('the method', t.Eq(d['METHOD'].t, t.sel('vs', t.nth(parts, 0)))), ('the protocol', t.Eq(d['PROTOCOL_INFO'].t, t.sel('vs', t.nth(parts, 2)))),
                          ('nothing else', t.lift(len(d) == 8))]
        def make(eng, st, a):
            k = a['request_line'].k
            return alloc(st, Dct('c', [(Str(t.S(n), 'b'), text(n.lower(), k)) for n in self.KEYS + ('METHOD', 'PROTOCOL_INFO')]))
        return [Case('ret', make, ens, match=lambda eng, st, v: isinstance(v, Ref) and isinstance(st.o(v), Dct) and st.o(v).mode == 'c'),
                raises(BAD, lambda *x: [('not three parts', t.Not(three))]), raises('ValueError', lambda *x: [('brackets', t.And(three, bad_brackets(url_part('netloc', uri))))]),
                raises('UnicodeDecodeError', lambda *x: [])]


# ------------------------------------------------------------------ header lines (P03)
CRLF = t.S('\r\n')


def eol(s):
    return t.indexof(s, CRLF, 1)


def line_of(s):
    return t.substr(s, 0, eol(s))


def after_line(s):
    return t.substr(s, eol(s) + 2, t.slen(s))


def header_values(s, k):
    """the values of the header lines of s that have the name k"""
    return t.app('header_values', t.SEQ, s, k)


def name_value(line):
    c = t.indexof(line, t.S(':'), 0)
    return t.substr(line, 0, c), strip_term(t.substr(line, c + 1, t.slen(line)), 'b')


def no_colon(s):
    """some header line of s has no colon"""
    return t.app('no_colon', t.BOOL, s)


def any_header(s):
    return t.app('any_header', t.BOOL, s)


def unroll(s):
    return sum(1 for x in t.subterms([s]) if x.op == 'str.indexof') < 2


@solve.axiom('header_values')
def _values_ax(s, k):
    if not unroll(s):
        return []
    name, value = name_value(line_of(s))
    rest_ = header_values(after_line(s), k)
    return [t.Eq(header_values(s, k), t.Ite(t.lt(eol(s), 0), t.SEMPTY, t.Ite(t.Eq(t.VS(name), k), t.seqcat(t.unit(t.VS(value)), rest_), rest_)))]


@solve.axiom('no_colon')
def _no_colon_ax(s):
    if not unroll(s):
        return []
    return [t.Iff(no_colon(s), t.And(t.le(0, eol(s)), t.Or(t.Not(t.contains(line_of(s), t.S(':'))), no_colon(after_line(s)))))]


def not_ascii(s):
    """a name or value in the header lines of s is not ASCII"""
    return t.app('not_ascii_header', t.BOOL, s)


@solve.axiom('not_ascii_header')
def _not_ascii_ax(s):
    if not unroll(s):
        return []
    name, value = name_value(line_of(s))
    return [t.Iff(not_ascii(s), t.And(t.le(0, eol(s)), t.Or(t.And(t.contains(line_of(s), t.S(':')), t.Not(t.And(is_ascii(name), is_ascii(value)))),
                                                            not_ascii(after_line(s)))))]


@solve.axiom('any_header')
def _any_ax(s):
    return [t.Iff(any_header(s), t.le(0, eol(s)))]


class RequestHeaders(Contract):
    """parse_request_headers(head): the request line, and for every name the values of the lines of that name, in order"""
    name = 'parse_request_headers'
    func = REQ + ':parse_request_headers'

    def setups(self, eng):
        eng.load(REQ)
        return [('', eng.base.clone(), [text('head')], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['request_header_stream'], Str)

    def keys(self, eng):
        if eng.target is self:
            if not hasattr(self, 'k'):
                self.k = t.fresh('anykey', t.VAL)
            return [self.k]
        return [t.VS(t.S('Host')), t.VS(t.S('Content-Type'))]

    def rests(self, eng, h):
        """what may be the rest of the head"""
        return [(n, g) for n, g in h.strs()]

    def invariants(self, eng, h):
        out = []
        for r in h.wholes(Dct):
            for n, g in self.rests(eng, h):
                for k in self.keys(eng):
                    out.append(('values so far and those of %s' % n, lambda st, g=g, k=k, r=r: t.Eq(
                        t.seqcat(values(st, r, k), header_values(g(st), k)), t.seqcat(values(h.entry, r, k), header_values(g(h.entry), k)))))
                    out.append(('a key has values', lambda st, k=k, r=r: t.Iff(present(st, r, k), t.Not(t.Eq(values(st, r, k), t.SEMPTY)))))
                out.append(('no header yet means none was there before %s' % n, lambda st, g=g, r=r: t.Iff(
                    t.Or(t.Not(none(st, r)), any_header(g(st))), t.Or(t.Not(none(h.entry, r)), any_header(g(h.entry))))))
        for n, g in self.rests(eng, h):
            out.append(('every line before %s has a colon' % n, lambda st, g=g: t.Iff(no_colon(g(st)), no_colon(g(h.entry)))))
            out.append(('every name and value before %s is ASCII' % n, lambda st, g=g: t.Iff(not_ascii(g(st)), not_ascii(g(h.entry)))))
            for m, ig in h.ints():
                out.append(('%s is the end of the line of %s' % (m, n), lambda st, g=g, ig=ig: t.Eq(ig(st), eol(g(st)))))
        return out

    def cases(self, eng, st, a):
        s0 = a['request_header_stream'].t
        s1 = after_line(s0)
        ks = self.keys(eng)
        own = eng.target is self

        def make(eng, st, a):
            from .multidict import DS, new_multidict
            return Tup((text('request_line'), new_multidict(eng, st, DS + ':MultiValueDict', vshape=('s', 'b'), kshape=('s', 'b'))))

        def ens(eng, old, new, a, v):
            from .multidict import at, has
            ln, d = v.items
            if not own:
                return [('the request line', t.Eq(ln.t, line_of(s0)))] + [('a name has values', t.Implies(has(new, d, k), t.And(
                    t.Not(t.Eq(at(new, d, k), t.SEMPTY)), t.Eq(at(new, d, k), t.app('header_values_of', t.SEQ, s0, k))))) for k in ks]
            out = [('the request line', t.Eq(ln.t, line_of(s0))), ('it is terminated', t.le(0, eol(s0))), ('every line has a colon', t.Not(no_colon(s1))),
                   ('there is a header', any_header(s1)),
                   ('every name and value is ASCII', t.Not(not_ascii(s1)))]
            for k in ks:
                out += [('a name is there if a line has it', t.Iff(has(new, d, k), t.Not(t.Eq(header_values(s1, k), t.SEMPTY)))),
                        ('all the values in order', t.Implies(has(new, d, k), t.Eq(at(new, d, k), header_values(s1, k))))]
            return out

        def refused(eng, old, new, a, v):
            if not own:
                return []
            return [('no terminator, no header or a line without a colon', t.Or(t.lt(eol(s0), 0), no_colon(s1), t.Not(any_header(s1))))]
        return [Case('ret', make, ens), raises(BAD, refused), raises('UnicodeDecodeError', lambda *x: [('not ASCII', not_ascii(s1))] if own else [])]


def values(st, r, k):
    o = st.o(r)
    if o.mode == 'c':
        if o.items:
            raise Unsupported('concrete dictionary')
        return t.SEMPTY
    return t.Ite(t.select(o.dom, k), t.select(o.map, k), t.SEMPTY)


def present(st, r, k):
    o = st.o(r)
    return t.FALSE if o.mode == 'c' else t.select(o.dom, k)


def none(st, r):
    o = st.o(r)
    return t.TRUE if o.mode == 'c' else t.Eq(o.dom, t.constarr(t.AVB, t.FALSE))


# ------------------------------------------------------------------ the head as a whole (P01, P05)
END = t.S('\r\n\r\n')


class ParseHead(Contract):
    """parse_request_header(): the head is what comes before the first CRLF CRLF, everything after it stays on the stream"""
    name = 'HttpRequest.parse_request_header'
    func = CLS + '.parse_request_header'
    quick_feasible = True

    def setups(self, eng):
        out = []
        for fails in (False, True):
            st = eng.base.clone()
            eng.load(REQ)
            r = new_request(eng, st, None, fails, _request_header_parsed=Bool(t.FALSE), META=alloc(st, Dct('c', [])),
                            GET=alloc(st, Obj(Ext('ext.opaque'), {})), **dict((n, NONE) for n in HEADER))
            out.append(('failing stream' if fails else '', st, [r], {}))
        return out

    def pre(self, eng, st, a):
        f = st.o(st.o(a['self']).f['settings']).f
        return fields_limit(st, a['self']) + [('the size of reads is positive', t.lt(0, f['MAX_HEADER_SIZE'].t))]

    def modifies(self, eng, st, a):
        r = a['self']
        return [(r, x) for x in HEADER + ('GET', '_encoding', '_request_header_parsed', '_body_error', '_post', '_body')] + [
            (st.o(r).f['META'], None)] + stream_locs(st, st.o(r).f['_stream'])

    def stream(self, eng, st):
        return [Ref(i) for i in st.heap if is_stream(eng, st, Ref(i))][0]

    def invariants(self, eng, h):
        s = self.stream(eng, h.entry)
        r0 = rest(eng, h.entry, s)
        now = lambda st: rest(eng, st, s)
        out = []
        for e, eg in [x for x in h.ints() if not x[0].startswith('.')]:
            out.append(('%s is -1 or a place' % e, lambda st, eg=eg: t.le(-1, eg(st))))
            for n, g in h.strs():
                if n.startswith('.'):
                    continue
                out.append(('%s: what was read has no end of head' % n, lambda st, g=g, eg=eg: t.Implies(
                    t.lt(eg(st), 0), t.And(t.Not(t.contains(g(st), END)), t.Eq(r0, t.concat(g(st), now(st)))))))
                out.append(('%s is the head' % n, lambda st, g=g, eg=eg: t.Implies(
                    t.le(0, eg(st)), t.And(t.Not(t.contains(t.concat(g(st), t.S('\r\n\r')), END)), t.Eq(eg(st), t.slen(g(st)))))))
                for m, g2 in h.strs():
                    if m != n and not m.startswith('.'):
                        out.append(('%s is the head, %s and the rest the body' % (n, m), lambda st, g=g, g2=g2, eg=eg: t.Implies(
                            t.le(0, eg(st)), t.Eq(r0, t.concat(g(st), END, g2(st), now(st))))))
        return out

    def after_loop(self, eng, h):
        if not self.here(h):
            return None
        s = self.stream(eng, h.entry)
        r0 = rest(eng, h.entry, s)
        first = t.indexof(r0, END, 0)

        def facts(st):
            now = rest(eng, st, s)
            body = t.substr(r0, first + 4, t.slen(r0))
            out = [t.contains(r0, END), t.Not(t.contains(r0, END)), t.Eq(now, t.EMPTY), t.Eq(now, body)]
            for _, g in h.strs():
                out += [t.Eq(g(st), t.substr(r0, 0, first)), t.Eq(t.concat(g(st), now), body)]
            for _, eg in h.ints():
                out += [t.Eq(eg(st), -1), t.Eq(eg(st), first)]
            return out
        return facts

    def here(self, h):
        """the loop reads the stream"""
        return any(n == '.$rem' for n, _ in h.strs())

    def post(self, eng, old, new, a, out):
        s = old.o(a['self']).f['_stream']
        r0 = rest(eng, old, s)
        first = t.indexof(r0, END, 0)
        found = [('the head has an end', t.contains(r0, END)), ('everything after the first CRLF CRLF stays on the stream', t.Eq(
            rest(eng, new, s), t.substr(r0, first + 4, t.slen(r0))))]
        if not isinstance(out, Raise):
            return self.shown(eng, new, a, t.concat(t.substr(r0, 0, first), CRLF), found)
        if self.only_return:
            return [('raises', t.TRUE)]
        cls = new.o(out.exc).cls
        if eng.isa(cls, eng.cls_by_name(BAD)):
            return [('refused for a head without end, or only the head is consumed', t.Or(
                t.Not(t.contains(r0, END)), t.And(*[f for _, f in found])))]
        if eng.isa(cls, eng.cls_by_name(UNREADABLE)):
            err = old.o(old.o(s).f['_producer']).f.get('$err')
            return [('the stream failed, with these arguments', t.lift(err is not None and new.o(out.exc).f['args'] == err))]
        if eng.isa(cls, eng.cls_by_name(SUSPICIOUS)):
            return [('allowed', t.TRUE)]
        return found


    only_return = False

    def shown(self, eng, new, a, head, found):
        return found


class ParseHeadLine(ParseHead):
    """method, scheme, path and protocol are those of the request line"""
    name = 'HttpRequest.parse_request_header: request line'
    only_return = True

    def setups(self, eng):
        return ParseHead.setups(self, eng)[:1]

    def shown(self, eng, new, a, head, found):
        f = new.o(a['self']).f
        parts = split_term(line_of(head), t.S(' '))
        part = lambda i: t.sel('vs', t.nth(parts, i))
        uri = part(1)
        scheme, low = url_part('scheme', uri), lower_term(url_part('scheme', uri))
        return [('the method', t.Eq(f['method'].t, part(0))), ('the path', t.Eq(f['path'].t, url_part('path6', uri))),
                ('the protocol', t.Eq(f['protocol_info'].t, part(2))),
                ('the scheme', t.Eq(f['scheme'].t, t.Ite(t.Eq(scheme, t.EMPTY), t.S('UNKNOWN'), low)))]


class ParseHeadHost(ParseHeadLine):
    """the host is that of the URI or else of the Host header, the port given with it or the default of the scheme"""
    name = 'HttpRequest.parse_request_header: host and port'

    def shown(self, eng, new, a, head, found):
        f = new.o(a['self']).f
        uri = t.sel('vs', t.nth(split_term(line_of(head), t.S(' ')), 1))
        scheme, netloc = url_part('scheme', uri), url_part('netloc', uri)
        values = t.app('header_values_of', t.SEQ, head, t.VS(t.S('Host')))
        host = t.Ite(t.Eq(netloc, t.EMPTY), t.sel('vs', t.nth(values, t.seqlen(values) - 1)), netloc)
        low = lower_term(scheme)
        default = t.Ite(t.Eq(low, t.S('https')), t.I(443), t.Ite(t.Eq(low, t.S('http')), t.I(80), t.I(65536)))
        p = f['port']
        if isinstance(p, Str):
            port = t.And(t.Not(t.Eq(p.t, t.EMPTY)), t.Eq(p.t, port_of(host)))
        else:
            port = t.And(t.Eq(port_of(host), t.EMPTY), t.Eq(p.t, default)) if isinstance(p, Int) else t.FALSE
        return [('the host is that of the URI or the Host header', t.Eq(f['host'].t, domain_of(host))), ('the port, or the default of the scheme', port)]


CONTRACTS = [SplitDomainPort(), RequestLine(), RequestHeaders(), ParseHead(), ParseHeadLine(), ParseHeadHost()]
