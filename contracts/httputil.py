"""Contracts of request_parser/utils/http.py."""
import re

from pyvc import regex, solve
from pyvc import terms as t
from pyvc.builtins_spec import lower_term, rindex_term, split_term, strip_term
from pyvc.contract import Case, Contract, raises
from pyvc.values import *

HTTP = 'request_parser.utils.http'
EXC = 'request_parser.exceptions.exceptions'
NOT_TEXT = Unsupported


def text(name, k='b'):
    return Str(t.fresh(name, t.STR), k)


def truth(eng, st, v):
    c = eng.truth(st, v)
    if c is None:
        raise Unsupported('truth')
    return c


class Pure(Contract):
    """a function of its arguments"""
    kinds = ('b', 'u')

    def modifies(self, eng, st, a):
        return []

    def setups(self, eng):
        eng.load(HTTP)
        out = []
        for k in self.kinds:
            st = eng.base.clone()
            out.append((k, st, self.args(st, k), {}))
        return out

    def applicable(self, eng, st, a):
        return False


# ------------------------------------------------------------------ base 36 (P19)
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def digits(n):
    """the base 36 digits of n without leading zeros, none for 0"""
    return t.app('b36z', t.STR, n)


def b36(n):
    """the base 36 digits of n >= 0 without leading zeros, most significant first"""
    return t.Ite(t.lt(n, 36), t.substr(t.S(DIGITS), n, 1), digits(n))


@solve.axiom('b36z')
def _b36_ax(n):
    if n.op == 'div':
        return []
    last = t.substr(t.S(DIGITS), t.mod(n, t.I(36)), 1)
    return [t.Implies(t.Eq(n, 0), t.Eq(digits(n), t.EMPTY)), t.Implies(t.lt(0, n), t.Eq(digits(n), t.concat(digits(t.div(n, t.I(36))), last)))]


class IntToBase36(Contract):
    """int_to_base36(i): the base 36 digits of i, ValueError for a negative one"""
    name = 'int_to_base36'
    func = HTTP + ':int_to_base36'

    def setups(self, eng):
        eng.load(HTTP)
        return [('', eng.base.clone(), [Int(t.fresh('i', t.INT))], {})]

    def invariants(self, eng, h):
        out = []
        for n, ng in h.ints():
            out.append(('%s is not negative' % n, lambda st, ng=ng: t.le(0, ng(st))))
            for s, sg in h.strs():
                out.append(('%s holds the digits that %s has lost' % (s, n), lambda st, sg=sg, ng=ng: t.Eq(
                    t.concat(digits(ng(st)), sg(st)), t.concat(digits(ng(h.entry)), sg(h.entry)))))
        return out

    def cases(self, eng, st, a):
        i = a['i'].t
        return [Case('ret', None, lambda eng, old, new, a, v: [('not negative', t.le(0, i)), ('its base 36 digits', t.Eq(v.t, b36(i)))],
                     match=lambda eng, st, v: isinstance(v, Str)),
                raises('ValueError', lambda *x: [('negative', t.lt(i, 0))])]


class Base36ToInt(Pure):
    """base36_to_int(s): what int(s, 36) gives for at most 13 characters, ValueError otherwise"""
    name = 'base36_to_int'
    func = HTTP + ':base36_to_int'

    def args(self, st, k):
        return [text('s', k)]

    def cases(self, eng, st, a):
        s = a['s'].t
        ok = t.And(t.le(t.slen(s), 13), t.app('is_int', t.BOOL, s, t.I(36)))
        return [Case('ret', None, lambda eng, old, new, a, v: [('accepted', ok), ('the value', t.Eq(v.t, t.app('int_of', t.INT, s, t.I(36))))]),
                raises('ValueError', lambda *x: [('too long or not a number', t.Not(ok))])]


class Base36RoundTrip(Contract):
    """lemma over the two contracts: the value of the digits of i is i (induction over the recursion of the digits)"""
    name = 'lemma base 36 round trip'
    func = None

    def lemma(self):
        n = t.fresh('n', t.INT)
        val = lambda s: t.app('val36', t.INT, s)
        # value of a digit string, by its recursion on the last character (definition instantiated where it is needed)
        s, d = t.fresh('s', t.STR), t.fresh('d', t.INT)
        dig = lambda d: t.substr(t.S(DIGITS), d, 1)
        q, r = t.div(n, t.I(36)), t.mod(n, t.I(36))
        one = t.Implies(t.And(t.le(0, n), t.lt(n, 36)), t.Eq(val(dig(n)), n))
        more = t.Eq(val(t.concat(digits(q), dig(r))), val(digits(q)) * 36 + r)
        return [('base case', [t.le(0, n), t.lt(n, 36), one], t.Eq(val(b36(n)), n)),
                ('digits of zero', [t.Eq(n, 0), t.Eq(val(t.EMPTY), 0)], t.Eq(val(digits(n)), n)),
                ('induction step', [t.lt(0, n), more, t.Eq(val(digits(q)), q)], t.Eq(val(digits(n)), n)),
                ('two digits and more', [t.le(36, n), t.Eq(val(digits(n)), n)], t.Eq(val(b36(n)), n))]


# ------------------------------------------------------------------ base64 (P20)
class B64Encode(Contract):
    name = 'urlsafe_base64_encode'
    func = HTTP + ':urlsafe_base64_encode'

    def setups(self, eng):
        eng.load(HTTP)
        return [('', eng.base.clone(), [text('s')], {})]

    def cases(self, eng, st, a):
        def ens(eng, old, new, a, v):
            return [('text', t.lift(v.k == 'u')), ('base64 without padding', t.Eq(v.t, t.app('b64core', t.STR, a['s'].t)))]
        return [Case('ret', None, ens)]


class B64Decode(Pure):
    """urlsafe_base64_decode of the encoding of any bytes, with or without padding, gives the bytes"""
    name = 'urlsafe_base64_decode'
    func = HTTP + ':urlsafe_base64_decode'

    def setups(self, eng):
        from pyvc.libspec import b64core, b64pad
        eng.load(HTTP)
        out = []
        for k in ('b', 'u'):
            for label in ('', ' padded'):
                self_x = t.fresh('x', t.STR)
                c = b64core(self_x)
                st = eng.base.clone()
                e = t.concat(c, b64pad(t.slen(c))) if label else c
                out.append((k + label, st, [Str(e, k)], {}))
        return out

    def cases(self, eng, st, a):
        e = a['s'].t
        x = [y.args[1] for y in t.subterms([e]) if y.op == 'app' and y.args[0] == 'b64core'][0]
        return [Case('ret', None, lambda eng, old, new, a, v: [('the same bytes', t.And(t.lift(v.k == 'b'), t.Eq(v.t, x)))])]


class B64DecodeBad(Pure):
    """anything: bytes or ValueError (or the encoding error of text that is not ASCII, which is a ValueError)"""
    name = 'urlsafe_base64_decode: only ValueError'
    func = HTTP + ':urlsafe_base64_decode'

    def args(self, st, k):
        return [text('s', k)]

    def cases(self, eng, st, a):
        return [Case('ret', None, lambda eng, old, new, a, v: [('bytes', t.lift(isinstance(v, Str) and v.k == 'b'))]),
                raises('ValueError', lambda *x: [])]


# ------------------------------------------------------------------ entity tags (P22)
ETAG = regex.compile(r'(?:W/)?"[^"]*"', 0).lang


def is_etag(s):
    return t.in_re(s, ETAG)


class QuoteEtag(Pure):
    name = 'quote_etag'
    func = HTTP + ':quote_etag'

    def args(self, st, k):
        return [text('etag_str', k)]

    def cases(self, eng, st, a):
        s = a['etag_str'].t
        want = t.Ite(is_etag(s), s, t.concat(t.S('"'), s, t.S('"')))
        return [Case('ret', None, lambda eng, old, new, a, v: [('as it is or in quotes', t.Eq(v.t, want))])]


def etags(seq, k):
    """the well-formed ones among stripped elements of a list of texts"""
    return t.app('etags_' + k, t.SEQ, seq)


def _etags_ax(k):
    def ax(seq):
        fs = [t.Implies(t.Eq(seq, t.SEMPTY), t.Eq(etags(seq, k), t.SEMPTY))]
        if seq.op == 'seq.++' and seq.args[-1].op == 'seq.unit':
            x, before = strip_term(t.sel('vs', seq.args[-1].args[0]), k), etags(t.seqcat(*seq.args[:-1]), k)
            fs.append(t.Eq(etags(seq, k), t.Ite(is_etag(x), t.seqcat(before, t.unit(t.VS(x))), before)))
        elif seq.op == 'seq.unit':
            x = strip_term(t.sel('vs', seq.args[0]), k)
            fs.append(t.Eq(etags(seq, k), t.Ite(is_etag(x), t.unit(t.VS(x)), t.SEMPTY)))
        return fs
    return ax


solve.AXIOMS['etags_b'], solve.AXIOMS['etags_u'] = _etags_ax('b'), _etags_ax('u')


class ParseEtags(Pure):
    """parse_etags: ['*'] or exactly the well-formed elements, in order"""
    name = 'parse_etags'
    func = HTTP + ':parse_etags'

    def args(self, st, k):
        return [text('etag_str', k)]

    def invariants(self, eng, h):
        return [('%s is the well-formed ones so far' % n, lambda st, g=g, k=k: t.Eq(g(st), etags(h.done(st), k)))
                for n, g in h.lists() for k in [eng.label]]

    def cases(self, eng, st, a):
        s, k = a['etag_str'].t, a['etag_str'].k
        star = t.Eq(strip_term(s, k), t.S('*'))

        def ens(eng, old, new, a, v):
            r = eng.lseq(new, v)
            return [('the elements', t.Eq(r, t.Ite(star, t.unit(t.VS(t.S('*'))), etags(split_term(s, t.S(',')), k))))]
        return [Case('ret', None, ens)]


# ------------------------------------------------------------------ URL safety (P18) and splitting (P04)
def lead(s):
    return t.prefixof(t.S('//'), s)


class EscapeSlashes(Pure):
    name = 'escape_leading_slashes'
    func = HTTP + ':escape_leading_slashes'

    def args(self, st, k):
        return [text('url', k)]

    def cases(self, eng, st, a):
        u = a['url'].t
        want = t.Ite(lead(u), t.concat(t.S('/%2F'), t.substr(u, 2, t.slen(u))), u)
        return [Case('ret', None, lambda eng, old, new, a, v: [('escaped', t.Eq(v.t, want)), ('never two leading slashes', t.Not(lead(v.t)))])]


class SameDomain(Pure):
    name = 'is_same_domain'
    func = HTTP + ':is_same_domain'

    def args(self, st, k):
        return [text('host', k), text('pattern', k)]

    def cases(self, eng, st, a):
        h, p = a['host'].t, lower_term(a['pattern'].t)
        want = t.And(t.Not(t.Eq(p, t.EMPTY)), t.Or(t.Eq(h, p), t.And(t.prefixof(t.S('.'), p), t.Or(
            t.suffixof(p, h), t.Eq(h, t.substr(p, 1, t.slen(p)))))))
        return [Case('ret', None, lambda eng, old, new, a, v: [('exact or subdomain', t.Iff(truth(eng, new, v), want))])]


SCHEME_CHAR = regex.chars_re('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.')


URLLIB = 'future.backports.urllib.parse'
AUTH_END = regex.compile('[/?#]', re.S).lang


def ite(eng, st, c, a, b):
    """the branch of a definition that the path has taken; both where it does not say"""
    if eng is None:
        return t.Ite(c, a, b)
    if c is t.TRUE or eng.entails(st, c):
        return a
    if c is t.FALSE or eng.entails(st, t.Not(c)):
        return b
    return t.Ite(c, a, b)


def authority(u):
    """of a URL that begins with //: what stands before the first / ? or # after that"""
    return t.app('authority', t.STR, u)


def after_authority(u):
    return t.app('after_authority', t.STR, u)


def no_end(n):
    return t.And(*[t.Not(t.contains(n, t.S(c))) for c in '/?#'])


def authority_def(u, n, r):
    """n and r are the only texts with these properties"""
    return t.And(t.Eq(u, t.concat(t.substr(u, 0, 2), n, r)), no_end(n), t.Or(t.Eq(r, t.EMPTY), t.in_re(t.substr(r, 0, 1), AUTH_END)))


@solve.axiom('authority')
def _authority_ax(u):
    return [authority_def(u, authority(u), after_authority(u))]


class SplitNetloc(Pure):
    """_splitnetloc(url, 2) of the library: authority and what follows it"""
    name = '_splitnetloc'
    func = URLLIB + ':_splitnetloc'

    def setups(self, eng):
        eng.load(URLLIB)
        out = []
        for k in 'bu':
            st = eng.base.clone()
            x = text('url', k)
            st = st.assume(t.prefixof(t.S('//'), x.t))
            out.append((k, st, [x, Int(t.I(2))], {}))
        return out

    def applicable(self, eng, st, a):
        return isinstance(a['url'], Str) and isinstance(a['start'], Int) and a['start'].t is t.I(2)

    def pre(self, eng, st, a):
        return [('the URL begins with //', t.prefixof(t.S('//'), a['url'].t))]

    def cases(self, eng, st, a):
        u, k = a['url'].t, a['url'].k

        def make(eng, st, a):
            return Tup((Str(authority(u), k), Str(after_authority(u), k)))

        def ens(eng, old, new, a, v):
            if eng.target is not self:
                return []
            n, r = v.items[0].t, v.items[1].t
            return [('authority', t.And(t.Eq(u, t.concat(t.substr(u, 0, 2), n, r)))), ('no delimiter inside', no_end(n)),
                    ('a delimiter or nothing follows', t.Or(t.Eq(r, t.EMPTY), t.in_re(t.substr(r, 0, 1), AUTH_END)))]
        return [Case('ret', make, ens)]


PARTS = ('scheme', 'netloc', 'path', 'query', 'fragment')


def url_part(name, u):
    """scheme, authority, path, query and fragment of a URL; split_url below is their definition"""
    return t.app('url_' + name, t.STR, u)


def bad_brackets(n):
    return t.Not(t.Iff(t.contains(n, t.S('[')), t.contains(n, t.S(']'))))


def split_url(eng, st, u):
    """(scheme, authority, path, query, fragment) of a URL: scheme before the first colon if all its characters are legal;
    authority after // up to the first of / ? #; then the fragment after the first #, the query after the first ?"""
    scheme, netloc, u2 = split_front(eng, st, u)
    return (scheme, netloc) + split_back(eng, st, u2)


def split_front(eng, st, u):
    i = t.indexof(u, t.S(':'), 0)
    has = t.And(t.lt(0, i), t.in_re(t.substr(u, 0, i), '(re.* %s)' % SCHEME_CHAR))
    scheme = ite(eng, st, has, lower_term(t.substr(u, 0, i)), t.EMPTY)
    u1 = ite(eng, st, has, t.substr(u, i + 1, t.slen(u)), u)
    net = t.Eq(t.substr(u1, 0, 2), t.S('//'))
    netloc = ite(eng, st, net, authority(u1), t.EMPTY)
    return scheme, netloc, ite(eng, st, net, after_authority(u1), u1)


def split_back(eng, st, u2):
    frag = t.contains(u2, t.S('#'))
    h = t.indexof(u2, t.S('#'), 0)
    fragment = ite(eng, st, frag, t.substr(u2, h + 1, t.slen(u2)), t.EMPTY)
    u3 = ite(eng, st, frag, t.substr(u2, 0, h), u2)
    q = t.indexof(u3, t.S('?'), 0)
    has_q = t.contains(u3, t.S('?'))
    query = ite(eng, st, has_q, t.substr(u3, q + 1, t.slen(u3)), t.EMPTY)
    path = ite(eng, st, has_q, t.substr(u3, 0, q), u3)
    return path, query, fragment


class UrlSplit(Pure):
    """_urlsplit(url): the five components, ValueError for unbalanced brackets of an IPv6 host"""
    name = '_urlsplit'
    func = HTTP + ':_urlsplit'
    result, parts = 'SplitResult', PARTS

    def define(self, eng, st, u):
        return split_url(eng, st, u)

    def args(self, st, k):
        return [text('url', k)]

    def applicable(self, eng, st, a):
        return isinstance(a['url'], Str) and isinstance(a['scheme'], Str) and a['scheme'].t is t.EMPTY and \
            isinstance(a['allow_fragments'], Bool) and a['allow_fragments'].t is t.TRUE

    def invariants(self, eng, h):
        return [('only scheme characters so far', lambda st: t.in_re(h.done(st), '(re.* %s)' % SCHEME_CHAR))]

    def after_loop(self, eng, h):
        c = t.in_re(h.whole, '(re.* %s)' % SCHEME_CHAR)
        return lambda st: [t.Not(c), c]

    def cases(self, eng, st, a):
        u, k = a['url'].t, a['url'].k
        own = eng.target is self
        from pyvc.sym import EXT, is_ascii

        def make(eng, st, a):
            s, r = EXT[URLLIB + '.' + self.result](eng, st, None, [Str(url_part(x, u), k) for x in self.parts], {})[0]
            st.heap[r.id] = s.heap[r.id]
            return r

        def ens(eng, old, new, a, v):
            items = new.o(v).f['$items'].items
            ascii_ = [('ASCII', is_ascii(u))] if k == 'b' else []
            if not own:
                return ascii_ + [('brackets are balanced', t.Not(bad_brackets(url_part('netloc', u))))]
            p = self.define(eng, new, u)
            return [(n, t.Eq(x.t, y)) for n, x, y in zip(self.parts, items, p)] + [
                ('of the kind of the URL', t.lift(all(x.k == k or x.t is t.EMPTY for x in items)))] + ascii_ + [('brackets are balanced', t.Not(bad_brackets(p[1])))]

        def refused(eng, old, new, a, v):
            return [('brackets are not balanced', bad_brackets(self.define(eng, new, u)[1] if own else url_part('netloc', u)))]

        def not_ascii(eng, old, new, a, v):
            return [('not ASCII', t.Not(is_ascii(u)))]
        cs = [Case('ret', make, ens), raises('ValueError', refused)]
        if k == 'b':
            cs = [cs[0], raises('UnicodeDecodeError', not_ascii), cs[1]]
        return cs


WITH_PARAMS = ('ftp', 'hdl', 'prospero', 'http', 'imap', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', '', 'sftp', 'tel')


def split_params(eng, st, scheme, path):
    """(path, params): what follows the first ; of the last segment of the path, for the schemes that have parameters"""
    with_params = t.Or(*[t.Eq(scheme, t.S(x)) for x in WITH_PARAMS])
    slash = t.contains(path, t.S('/'))
    start = ite(eng, st, slash, rindex_term(path, t.S('/')), t.I(0))
    i = t.indexof(path, t.S(';'), start)
    has = t.And(with_params, t.contains(path, t.S(';')), t.le(0, i))
    return ite(eng, st, has, t.substr(path, 0, i), path), ite(eng, st, has, t.substr(path, i + 1, t.slen(path)), t.EMPTY)


PARTS6 = ('scheme', 'netloc', 'path6', 'params', 'query', 'fragment')


class UrlParse(UrlSplit):
    """_urlparse(url): the same with the ;params of the last path segment apart"""
    name = '_urlparse'
    func = HTTP + ':_urlparse'
    result, parts = 'ParseResult', PARTS6

    def invariants(self, eng, h):
        return []

    def after_loop(self, eng, h):
        return None

    def define(self, eng, st, u):
        x = {n: url_part(n, u) for n in PARTS}
        p, q = split_params(eng, st, x['scheme'], x['path'])
        return x['scheme'], x['netloc'], p, q, x['query'], x['fragment']


class Choices(object):
    """the path conditions of one case of a definition"""

    def __init__(self, bits):
        self.bits, self.hyps, self.taken = bits, [], {}

    def entails(self, st, c):
        if c.op == 'not' and c.args[0] in self.taken:
            return not self.taken[c.args[0]]
        if c not in self.taken:
            self.taken[c] = self.bits[len(self.taken)]
            self.hyps.append(c if self.taken[c] else t.Not(c))
        return self.taken[c]


class UrlParts(Contract):
    """lemma: the parts, put together again with their delimiters, are the URL (with the scheme as it was written)"""
    name = 'lemma URL parts'
    func = None

    def lemma(self):
        out = []
        for n in range(4):
            one, two = bool(n & 1), bool(n & 2)
            u, e = t.fresh('u', t.STR), Choices([one, two])
            scheme, netloc, rest = split_front(e, None, u)
            again = t.concat(t.concat(t.substr(u, 0, t.indexof(u, t.S(':'), 0)), t.S(':')) if one else t.EMPTY,
                             t.concat(t.S('//'), netloc) if two else t.EMPTY, rest)
            label = 'scheme %s, authority %s' % (one, two)
            out.append((label + ': nothing lost or invented', e.hyps, t.Eq(again, u)))
            out.append((label + ': no delimiter inside', e.hyps, no_end(netloc)))
            u, e = t.fresh('u', t.STR), Choices([one, two])
            path, query, fragment = split_back(e, None, u)
            again = t.concat(path, t.concat(t.S('?'), query) if two else t.EMPTY, t.concat(t.S('#'), fragment) if one else t.EMPTY)
            label = 'fragment %s, query %s' % (one, two)
            out.append((label + ': nothing lost or invented', e.hyps, t.Eq(again, u)))
            out.append((label + ': no delimiter inside', e.hyps, t.And(
                t.Not(t.contains(path, t.S('?'))), t.Not(t.contains(path, t.S('#'))), t.Not(t.contains(query, t.S('#'))))))
        return out


# ------------------------------------------------------------------ safe redirects (P18)
def control(c):
    """the Unicode category of a character is one of the C.. ones"""
    return t.Eq(t.substr(t.app('ucategory', t.STR, c), 0, 1), t.S('C'))


def allowed(hosts, h):
    if isinstance(hosts, Val):
        return t.app('val_contains', t.BOOL, hosts.t, t.VS(h))
    return t.Or(*[t.Eq(h, x.t) for x in hosts.data])


def safe(u, k, hosts, https):
    """one reading of a URL (not empty) is a safe target"""
    from pyvc.sym import is_ascii
    scheme, host = url_part('scheme', u), url_part('netloc', u)
    return t.And(t.lift(True) if k == 'u' else is_ascii(u), t.Not(t.prefixof(t.S('///'), u)), t.Not(bad_brackets(host)),
                 t.Implies(t.Eq(host, t.EMPTY), t.Eq(scheme, t.EMPTY)), t.Not(control(t.substr(u, 0, 1))),
                 t.Or(t.Eq(host, t.EMPTY), allowed(hosts, host)),
                 t.Or(t.Eq(scheme, t.S('https')),
                      t.Ite(https, t.And(t.Eq(scheme, t.EMPTY), t.Eq(host, t.EMPTY)), t.Or(t.Eq(scheme, t.EMPTY), t.Eq(scheme, t.S('http'))))))


class SafeReading(Pure):
    """_is_safe_url(url, hosts, require_https) of a URL that is not empty"""
    name = '_is_safe_url'
    func = HTTP + ':_is_safe_url'

    def args(self, st, k):
        return [text('url', k), Val(t.fresh('hosts', t.VAL), ('o', 'set')), Bool(t.fresh('https', t.BOOL))]

    def applicable(self, eng, st, a):
        return isinstance(a['url'], Str) and isinstance(a['require_https'], Bool) and \
            (isinstance(a['allowed_hosts'], Val) or isinstance(a['allowed_hosts'], ExtO) and a['allowed_hosts'].kind == 'frozenset')

    def pre(self, eng, st, a):
        return [('the URL is not empty', t.Not(t.Eq(a['url'].t, t.EMPTY)))]

    def cases(self, eng, st, a):
        want = safe(a['url'].t, a['url'].k, a['allowed_hosts'], a['require_https'].t)
        return [Case('ret', lambda eng, st, a: Bool(t.fresh('safe', t.BOOL)), lambda eng, old, new, a, v: [
            ('safe and nothing else', t.Iff(truth(eng, new, v), want))])]


class SafeUrl(Pure):
    """is_safe_url: both readings of the stripped URL are safe"""
    name = 'is_safe_url'
    func = HTTP + ':is_safe_url'

    def setups(self, eng):
        eng.load(HTTP)
        out = []
        for k in 'bu':
            for label, hosts in (('a set', Val(t.fresh('hosts', t.VAL), ('o', 'set'))), ('one host', text('host', k)), ('none', NONE)):
                st = eng.base.clone()
                out.append(('%s, %s' % (k, label), st, [text('url', k), hosts, Bool(t.fresh('https', t.BOOL))], {}))
        out.append(('no URL', eng.base.clone(), [NONE, NONE, Bool(t.fresh('https', t.BOOL))], {}))
        return out

    def cases(self, eng, st, a):
        if isinstance(a['url'], NoneV):
            want = t.FALSE
        else:
            u, k = strip_term(a['url'].t, a['url'].k), a['url'].k
            h = a['allowed_hosts']
            hosts = h if isinstance(h, Val) else ExtO('frozenset', (h,) if isinstance(h, Str) else ())
            other = t.replace_all(u, t.S('\\'), t.S('/'))
            want = t.And(t.Not(t.Eq(u, t.EMPTY)), *[safe(x, k, hosts, a['require_https'].t) for x in (u, other)])
        return [Case('ret', None, lambda eng, old, new, a, v: [('both readings are safe', t.Iff(truth(eng, new, v), want))])]


# ------------------------------------------------------------------ query strings (P08, P11)
SEPARATORS = regex.chars_re('&;')


def qs_pairs(seq, keep, enc_, errors):
    """the decoded pairs of a list of pieces name=value"""
    return t.app('qs_pairs', t.SEQ, seq, keep, enc_, errors)


def qs_pair(x, keep, enc_, errors):
    """(there is a pair, the pair) of one piece"""
    from pyvc.libspec import quote_term, unquote_term
    eq = t.contains(x, t.S('='))
    i = t.indexof(x, t.S('='), 0)
    name = t.Ite(eq, t.substr(x, 0, i), x)
    value = t.Ite(eq, t.substr(x, i + 1, t.slen(x)), t.EMPTY)
    there = t.And(t.Not(t.Eq(x, t.EMPTY)), t.Or(keep, t.Not(t.Eq(value, t.EMPTY))))

    def text_of(y):
        return t.VS(unquote_term(t.replace_all(y, t.S('+'), t.S(' ')), enc_, errors))
    return there, t.VP(text_of(name), text_of(value))


@solve.axiom('qs_pairs')
def _qs_pairs_ax(seq, keep, enc_, errors):
    r = qs_pairs(seq, keep, enc_, errors)
    if seq is t.SEMPTY:
        return [t.Eq(r, t.SEMPTY)]
    if seq.op == 'seq.++' and seq.args[-1].op == 'seq.unit' or seq.op == 'seq.unit':
        last = seq.args[-1].args[0] if seq.op == 'seq.++' else seq.args[0]
        before = qs_pairs(t.seqcat(*seq.args[:-1]), keep, enc_, errors) if seq.op == 'seq.++' else t.SEMPTY
        there, pair = qs_pair(t.sel('vs', last), keep, enc_, errors)
        return [t.Eq(r, t.Ite(there, t.seqcat(before, t.unit(pair)), before))]
    return []


class ParseQsl(Pure):
    """limited_parse_qsl: the decoded pairs in order; TooManyFieldsSent if there are more pieces than the limit"""
    name = 'limited_parse_qsl'
    func = HTTP + ':limited_parse_qsl'
    timeout = 15

    def setups(self, eng):
        eng.load(HTTP)
        out = []
        for k in 'bu':
            for label, limit in (('no limit', NONE), ('limit', Int(t.fresh('limit', t.INT)))):
                st = eng.base.clone()
                if label == 'limit':
                    st = st.assume(t.le(0, limit.t))
                out.append(('%s, %s' % (k, label), st, [text('qs', k), Bool(t.fresh('keep', t.BOOL)), text('encoding', 'b'),
                                                        text('errors', 'b'), limit], {}))
        return out

    def applicable(self, eng, st, a):
        return isinstance(a['qs'], Str) and isinstance(a['keep_blank_values'], Bool) and isinstance(a['encoding'], Str) and \
            isinstance(a['errors'], Str) and isinstance(a['fields_limit'], (NoneV, Int))

    def pre(self, eng, st, a):
        return [('the limit is not negative', t.le(0, a['fields_limit'].t))] if isinstance(a['fields_limit'], Int) else []

    def invariants(self, eng, h):
        try:
            v = h.entry.o(h.fr.env).vars
            args = [x.t for x in (v['keep_blank_values'], v['encoding'], v['errors'])]
        except (KeyError, AttributeError):
            return []
        return [('%s has the pairs so far' % n, lambda st, g=g: t.Eq(g(st), qs_pairs(h.done(st), *args))) for n, g in h.lists()]

    def cases(self, eng, st, a):
        from pyvc.libspec import resplit_term
        pieces = resplit_term(a['qs'].t, SEPARATORS)
        limit = a['fields_limit']
        many = t.FALSE if isinstance(limit, NoneV) else t.And(t.lt(0, limit.t), t.lt(limit.t, t.seqlen(pieces)))
        want = qs_pairs(pieces, a['keep_blank_values'].t, a['encoding'].t, a['errors'].t)
        if a['qs'].t is t.EMPTY:        # one empty piece
            want, many = t.SEMPTY, t.FALSE

        def make(eng, st, a):
            if want is t.SEMPTY:
                return alloc(st, Lst([]))
            return alloc(st, Lst(None, want, ('p', ('s', 'u'), ('s', 'u'))))
        return [Case('ret', make, lambda eng, old, new, a, v: [('within the limit', t.Not(many)), ('the decoded pairs', t.Eq(eng.lseq(new, v), want))]),
                raises(EXC + ':TooManyFieldsSent', lambda *x: [('over the limit', many)])]


# ------------------------------------------------------------------ dates (P21)
MONTHS = ('jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec')
FORMATS = dict((k, regex.compile(p, 0).match_lang()) for k, p in (
    ('RFC 1123', r'^\w{3}, \d{2} \w{3} \d{4} \d{2}:\d{2}:\d{2} GMT\Z'),
    ('RFC 850', r'^\w{6,9}, \d{2}-\w{3}-\d{2} \d{2}:\d{2}:\d{2} GMT\Z'),
    ('asctime', r'^\w{3} \w{3} [ \d]\d \d{2}:\d{2}:\d{2} \d{4}\Z')))


def date_fields(which, s):
    """(year, month name, day, hour, minute, second) by their places in the text"""
    n = t.slen(s)

    def at(i, k):
        return t.substr(s, i, k)
    if which == 'RFC 1123':
        return at(12, 4), at(8, 3), at(5, 2), at(17, 2), at(20, 2), at(23, 2)
    if which == 'RFC 850':
        return at(n - 15, 2), at(n - 19, 3), at(n - 22, 2), at(n - 12, 2), at(n - 9, 2), at(n - 6, 2)
    return at(20, 4), at(4, 3), at(8, 2), at(11, 2), at(14, 2), at(17, 2)


def date_value(eng, st, which, s):
    """(the date exists, its seconds)"""
    def num(x):
        return t.app('int_of', t.INT, x, t.I(10))
    y, mon, day, h, m, sec = date_fields(which, s)
    y = num(y)
    year = ite(eng, st, t.lt(y, 100), ite(eng, st, t.lt(y, 70), y + 2000, y + 1900), y)
    mon = lower_term(mon)
    month = t.I(0)
    for i in range(11, -1, -1):
        month = t.Ite(t.Eq(mon, t.S(MONTHS[i])), t.I(i + 1), month)
    xs = (year, month, num(day), num(h), num(m), num(sec))
    return t.And(t.Or(*[t.Eq(mon, t.S(x)) for x in MONTHS]), t.app('valid_date', t.BOOL, *xs)), t.app('epoch', t.INT, *xs)


def date(eng, st, s):
    """(s is a date of one of the formats, its seconds); the formats exclude each other"""
    out = (t.FALSE, t.I(0))
    for f in reversed(list(FORMATS)):
        c = t.in_re(s, FORMATS[f])
        if eng.entails(st, c):
            return date_value(eng, st, f, s)
        if not eng.entails(st, t.Not(c)):
            v = date_value(eng, st, f, s)
            out = (t.Ite(c, v[0], out[0]), t.Ite(c, v[1], out[1]))
    return out


class ParseDate(Pure):
    """parse_http_date: the instant of a date in one of the three formats, ValueError for anything else"""
    name = 'parse_http_date'
    func = HTTP + ':parse_http_date'

    def args(self, st, k):
        return [text('date', k)]

    def applicable(self, eng, st, a):
        return isinstance(a['date'], Str)

    def cases(self, eng, st, a):
        s = a['date'].t
        if eng.target is not self:
            ok, value = t.app('http_date_ok', t.BOOL, s), t.app('http_date_value', t.INT, s)
            return [Case('ret', lambda *x: Int(value), lambda *x: [('a date', ok)]), raises('ValueError', lambda *x: [('no date', t.Not(ok))])]
        def instant(eng, old, new, a, v):
            ok, x = date(eng, new, s)
            return [('a date', ok), ('the instant', t.Eq(v.t, x))]
        return [Case('ret', None, instant),
                raises('ValueError', lambda eng, old, new, *x: [('no date of the three formats', t.Not(date(eng, new, s)[0]))])]


class ParseDateSafe(ParseDate):
    name = 'parse_http_date_safe'
    func = HTTP + ':parse_http_date_safe'

    def applicable(self, eng, st, a):
        return False

    def cases(self, eng, st, a):
        s = a['date'].t
        ok, value = t.app('http_date_ok', t.BOOL, s), t.app('http_date_value', t.INT, s)
        return [Case('ret', None, lambda eng, old, new, a, v: [('the instant', t.And(ok, t.Eq(v.t, value)))],
                     match=lambda eng, st, v: isinstance(v, Int)),
                Case('ret', None, lambda eng, old, new, a, v: [('None', t.Not(ok))], match=lambda eng, st, v: isinstance(v, NoneV))]


class HttpDate(Pure):
    """http_date(x): formatdate of the library with GMT"""
    name = 'http_date'
    func = HTTP + ':http_date'

    def setups(self, eng):
        eng.load(HTTP)
        return [('', eng.base.clone(), [Int(t.fresh('seconds', t.INT))], {})]

    def cases(self, eng, st, a):
        want = t.app('formatdate', t.STR, t.VI(a['epoch_seconds'].t), t.VB(t.FALSE), t.VB(t.TRUE))
        return [Case('ret', None, lambda eng, old, new, a, v: [('the RFC 1123 form', t.Eq(v.t, want))])]


# ------------------------------------------------------------------ quoting (P28)
class Quoting(Pure):
    def __init__(self, name, library, safe):
        self.name, self.func, self.library, self.safe = name, HTTP + ':' + name, library, safe

    def setups(self, eng):
        eng.load(HTTP)
        out = []
        for k in 'bu':
            out.append((k, eng.base.clone(), [text('x', k)], {}))
            if self.safe is not None:
                out.append((k + ', safe given', eng.base.clone(), [text('x', k), text('safe', 'b')], {}))
        return out

    def cases(self, eng, st, a):
        from pyvc.libspec import quote_term, unquote_term
        vs = list(a.values())
        if self.safe is not None:
            want = quote_term(self.library, a['url'].t, a['safe'].t)
        else:
            x = a['quoted_url'].t
            want = unquote_term(t.replace_all(x, t.S('+'), t.S(' ')) if self.library == 'unquote_plus' else x, t.S('utf-8'), t.S('replace'))
        fs = [('what the library gives', want)]
        return [Case('ret', None, lambda eng, old, new, a, v: [(l, t.Eq(v.t, w)) for l, w in fs])]


QUOTING = [Quoting('urlquote', 'quote', '/'), Quoting('urlquote_plus', 'quote_plus', ''), Quoting('urlunquote', 'unquote', None),
           Quoting('urlunquote_plus', 'unquote_plus', None)]


CONTRACTS = [IntToBase36(), Base36ToInt(), Base36RoundTrip(), B64Encode(), B64Decode(), B64DecodeBad(), QuoteEtag(), ParseEtags(),
             EscapeSlashes(), SameDomain(), SplitNetloc(), UrlSplit(), UrlParts(), UrlParse(), SafeReading(), SafeUrl(), ParseQsl(), ParseDate(),
             ParseDateSafe(), HttpDate()] + QUOTING
