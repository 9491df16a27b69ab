"""Contracts of HttpRequest (request_parser/http/request.py): reading the body, assigning streams and encodings."""
from pyvc import terms as t
from pyvc.contract import Case, Contract, raises
from pyvc.values import *

from .streams import is_stream, new_producer, new_stream, rest, stream_locs, SUSPICIOUS

REQ = 'request_parser.http.request'
EXC = 'request_parser.exceptions.exceptions'
CLS = REQ + ':HttpRequest'
UNREADABLE = REQ + ':UnreadablePostError'
TOO_BIG = EXC + ':RequestDataTooBig'
RAW = REQ + ':RawPostDataException'
FORMS = ('application/x-www-form-urlencoded', 'multipart/form-data')


def fields_limit(st, r):
    return [('the limit of fields is not negative', t.le(0, st.o(st.o(r).f['settings']).f['DATA_UPLOAD_MAX_NUMBER_FIELDS'].t))]


def text(name, k='b'):
    return Str(t.fresh(name, t.STR), k)


def new_settings(eng, st, limit=None):
    """the settings a request looks at"""
    return alloc(st, Obj(Ext('ext.settings'), {'DATA_UPLOAD_MAX_MEMORY_SIZE': limit or NONE, 'DEFAULT_CHARSET': text('default_charset'),
                                               'MAX_HEADER_SIZE': Int(t.fresh('max_header', t.INT)),
                                               'DATA_UPLOAD_MAX_NUMBER_FIELDS': Int(t.fresh('max_fields', t.INT)),
                                               'FILE_UPLOAD_HANDLERS': Tup(()), '$closed': Bool(t.TRUE)}))


def new_request(eng, st, limit=None, fails=False, **fields):
    """an arbitrary request whose header has been parsed"""
    eng.load(REQ)
    f = {'_stream': new_stream(eng, st, False, new_producer(st, False, fails)), 'settings': new_settings(eng, st, limit),
         '_request_header_parsed': Bool(t.TRUE), '_request_body_parsed': Bool(t.FALSE), 'content_type': text('content_type'), '_encoding': NONE,
         '_raw_body': NONE, '_body_error': NONE}
    f.update(fields)
    return alloc(st, Obj(eng.cls_by_name(CLS), f))


class Body(Contract):
    """body(): all the bytes that remain, the same again later; UnreadablePostError with the arguments of the IOError; RequestDataTooBig above the limit"""
    name = 'HttpRequest.body'
    func = REQ + ':HttpRequest.body'

    def setups(self, eng):
        out = []
        for fails in (False, True):
            for limited in (True, False):
                st = eng.base.clone()
                r = new_request(eng, st, Int(t.fresh('limit', t.INT)) if limited else None, fails)
                out.append(('%s%s' % ('limit' if limited else 'no limit', ', failing stream' if fails else ''), st, [r], {}))
        return out

    def pre(self, eng, st, a):
        return []

    def modifies(self, eng, st, a):
        r = a['self']
        return [(r, '_body'), (r, '_raw_body'), (r, '_body_error')] + stream_locs(st, st.o(r).f['_stream'])

    def limit(self, st, a):
        v = st.o(st.o(a['self']).f['settings']).f['DATA_UPLOAD_MAX_MEMORY_SIZE']
        return v.t if isinstance(v, Int) else None

    def invariants(self, eng, h):
        s = [Ref(i) for i in h.entry.heap if is_stream(eng, h.entry, Ref(i))][0]
        r0 = h.r0 = rest(eng, h.entry, s)
        out = []
        strs = list(h.strs())
        for n, g in strs:
            out.append(('%s ++ rest' % n, lambda st, g=g: t.Eq(t.concat(*[x(h.entry) for _, x in strs] + [r0]), t.concat(g(st), rest(eng, st, s)))))
            for m, g2 in strs:
                if m != n:
                    out.append(('%s ++ %s ++ rest' % (n, m), lambda st, g=g, g2=g2: t.Eq(
                        t.concat(g(h.entry), g2(h.entry), r0), t.concat(g(st), g2(st), rest(eng, st, s)))))
                    out += [('%s = len(%s) + len(%s)' % (i, n, m), lambda st, ig=ig, g=g, g2=g2: t.Eq(ig(st), t.slen(g(st)) + t.slen(g2(st))))
                            for i, ig in h.ints() if n < m]
            out += [('%s = len(%s)' % (i, n), lambda st, ig=ig, g=g: t.Eq(ig(st), t.slen(g(st)))) for i, ig in h.ints()]
            out.append(('%s is empty only at the end' % n, lambda st, g=g: t.Implies(t.Eq(g(st), t.EMPTY), t.Eq(rest(eng, st, s), t.EMPTY))))
        return out

    def cases(self, eng, st, a):
        r = a['self']
        n = self.limit(st, a)
        s = st.o(r).f['_stream']

        def ens(eng, old, new, a, v):
            r0 = rest(eng, old, s)
            f = new.o(r).f
            return [('all the bytes that remain', t.Eq(v.t, r0)), ('nothing is left to read', t.Eq(rest(eng, new, s), t.EMPTY)),
                    ('kept for the next call', t.And(t.Eq(f['_body'].t, r0), t.Eq(f['_raw_body'].t, r0))),
                    ('no error', t.lift(f['_body_error'] == NONE))] + ([('within the limit', t.le(t.slen(r0), n))] if n is not None else [])

        def big(eng, old, new, a, v):
            return [('above the limit', t.lt(n, t.slen(rest(eng, old, s))) if n is not None else t.FALSE)] + lost(eng, old, new, a, v)

        def lost(eng, old, new, a, v):
            f = new.o(r).f
            return [('the failure is kept for the next call', t.lift(f['_body_error'] == v)), ('no body is kept', t.lift('_body' not in f and f['_raw_body'] == NONE))]

        def unreadable(eng, old, new, a, v):
            err = old.o(old.o(s).f['_producer']).f.get('$err')
            return [('the stream failed, with these arguments', t.lift(err is not None and new.o(v).f['args'] == err))] + lost(eng, old, new, a, v)
        return [Case('ret', lambda eng, st, a: text('body'), ens), raises(TOO_BIG, big), raises(UNREADABLE, unreadable), raises(SUSPICIOUS, lambda *x: [])]


class BodyAgain(Contract):
    """body() when it has been read, could not be read, or the form was parsed"""
    name = 'HttpRequest.body again'
    func = REQ + ':HttpRequest.body'

    def setups(self, eng):
        out = []

        def add(label, **f):
            st = eng.base.clone()
            if f.get('_body_error'):
                f['_body_error'] = alloc(st, Obj(eng.cls_by_name(f['_body_error']), {'args': Tup(())}))
            out.append((label, st, [new_request(eng, st, Int(t.fresh('limit', t.INT)), **f)], {}))
        eng.load(REQ)
        b = text('body')
        add('kept bytes', _body=b, _raw_body=b)
        add('kept text', _body=text('body', 'u'), _raw_body=text('raw'), _request_body_parsed=Bool(t.TRUE))
        add('unreadable', _body_error=UNREADABLE)
        add('too big', _body_error=TOO_BIG)
        add('bytes after a change of encoding', _raw_body=text('raw'))
        add('text after a change of encoding', _raw_body=text('raw'), _request_body_parsed=Bool(t.TRUE), _encoding=Str(t.S('latin-1'), 'b'))
        return out

    def modifies(self, eng, st, a):
        return [(a['self'], '_body')]

    def cases(self, eng, st, a):
        r = a['self']
        f = st.o(r).f
        parsed = f['_request_body_parsed'].t
        form = t.And(parsed, t.Or(*[t.Eq(f['content_type'].t, t.S(x)) for x in FORMS]))

        def ens(eng, old, new, a, v):
            fs = [('no form was parsed', t.Not(form)), ('nothing failed', t.lift(f['_body_error'] == NONE)), ('kept', t.lift(new.o(r).f['_body'] == v))]
            if '_body' in f:
                fs.append(('the same again', t.And(t.lift(v.k == f['_body'].k), t.Eq(v.t, f['_body'].t))))
            elif parsed is t.TRUE:
                fs.append(('the bytes decoded with the encoding', t.And(t.lift(v.k == 'u'), t.Eq(v.t, f['_raw_body'].t))))
            else:
                fs.append(('the bytes', t.And(t.lift(v.k == 'b'), t.Eq(v.t, f['_raw_body'].t))))
            return fs

        def failed(eng, old, new, a, v):
            return [('the failure of the first attempt', t.lift(f['_body_error'] == v))]
        return [Case('ret', None, ens), raises(RAW, lambda eng, old, new, a, v: [('a form was parsed', form)]), raises(UNREADABLE, failed), raises(TOO_BIG, failed)]


class Read(Contract):
    """read(n): the next bytes; an IOError becomes UnreadablePostError with the same arguments"""
    name = 'HttpRequest.read'
    func = REQ + ':HttpRequest.read'

    def setups(self, eng):
        out = []
        for fails in (False, True):
            for label, args in (('size', [Int(t.fresh('size', t.INT))]), ('all', [])):
                st = eng.base.clone()
                out.append((label + (', failing stream' if fails else ''), st, [new_request(eng, st, None, fails)] + args, {}))
        return out

    def applicable(self, eng, st, a):
        return True

    def size(self, st, a):
        args = a['args'].items
        return args[0].t if args and isinstance(args[0], Int) else None

    def pre(self, eng, st, a):
        n = self.size(st, a)
        return [('size is not negative', t.le(0, n))] if n is not None else []

    def modifies(self, eng, st, a):
        return stream_locs(st, st.o(a['self']).f['_stream'])

    def cases(self, eng, st, a):
        s = st.o(a['self']).f['_stream']
        n = self.size(st, a)
        err = st.o(st.o(s).f['_producer']).f.get('$err')

        def ens(eng, old, new, a, v):
            r0 = rest(eng, old, s)
            return [('the front of what remains', t.Eq(r0, t.concat(v.t, rest(eng, new, s)))),
                    ('as many bytes as asked for and available', t.Eq(t.slen(v.t), t.Min(n, t.slen(r0)) if n is not None else t.slen(r0)))]

        def unreadable(eng, old, new, a, v):
            return [('the stream failed, with these arguments', t.lift(err is not None and new.o(v).f['args'] == err))]
        cs = [Case('ret', lambda eng, st, a: text('data'), ens), raises(SUSPICIOUS, lambda *x: [])]
        if err is not None:
            cs.append(Case('raise', lambda eng, st, a: alloc(st, Obj(eng.cls_by_name(UNREADABLE), {'args': err})), unreadable, UNREADABLE))
        return cs


CONTRACTS = [Body(), BodyAgain(), Read()]


# ------------------------------------------------------------------ paths and URIs
ENC = 'request_parser.utils.encoding'
PATH_SAFE = "/:@&+$,-_.!~*'()"
IRI_SAFE = "/#%[]=:;$&()+,!?*@'~"


def quoted(x, safe):
    from pyvc.libspec import quote_term
    return quote_term('quote', x, t.S(safe))


class EscapePath(Contract):
    """escape_uri_path: everything outside the path characters is percent-escaped; existing escapes are kept if asked for"""
    name = 'escape_uri_path'
    func = ENC + ':escape_uri_path'

    def setups(self, eng):
        eng.load(ENC)
        return [('%s, %s' % (k, e), eng.base.clone(), [text('path', k), Bool(t.lift(e))], {}) for k in 'bu' for e in (True, False)] + [
            ('default', eng.base.clone(), [text('path')], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['path'], Str) and isinstance(a['encode_percent'], Bool) and t.is_const(a['encode_percent'].t)

    def cases(self, eng, st, a):
        want = quoted(a['path'].t, PATH_SAFE + ('' if a['encode_percent'].t is t.TRUE else '%'))
        return [Case('ret', lambda eng, st, a: text('escaped', 'u'), lambda eng, old, new, a, v: [
            ('every other character is escaped', t.Eq(v.t, want)), ('text', t.lift(v.k == 'u'))])]


class IriToUri(Contract):
    """iri_to_uri: everything outside the URI characters is percent-escaped; None stays None"""
    name = 'iri_to_uri'
    func = ENC + ':iri_to_uri'

    def setups(self, eng):
        eng.load(ENC)
        return [(k, eng.base.clone(), [text('iri', k)], {}) for k in 'bu'] + [('None', eng.base.clone(), [NONE], {})]

    def applicable(self, eng, st, a):
        return isinstance(a['iri'], Str)

    def cases(self, eng, st, a):
        if isinstance(a['iri'], NoneV):
            return [Case('ret', None, lambda eng, old, new, a, v: [('None', t.lift(v == NONE))])]
        return [Case('ret', lambda eng, st, a: text('uri', 'u'), lambda eng, old, new, a, v: [
            ('every other character is escaped', t.Eq(v.t, quoted(a['iri'].t, IRI_SAFE))), ('text', t.lift(v.k == 'u'))])]


class UriToIri(Contract):
    name = 'uri_to_iri'
    func = ENC + ':uri_to_iri'

    def setups(self, eng):
        eng.load(ENC)
        return [(k, eng.base.clone(), [text('uri', k)], {}) for k in 'bu'] + [('None', eng.base.clone(), [NONE], {})]

    def cases(self, eng, st, a):
        from pyvc.libspec import unquote_term
        if isinstance(a['uri'], NoneV):
            return [Case('ret', None, lambda eng, old, new, a, v: [('None', t.lift(v == NONE))])]
        x = a['uri'].t
        u = unquote_term(x, t.S('utf-8'), t.S('replace'))
        return [Case('ret', None, lambda eng, old, new, a, v: [('the escapes are decoded, as UTF-8', t.Or(
            t.And(t.Eq(x, t.EMPTY), t.Eq(v.t, x)), t.Eq(v.t, u), t.Eq(v.t, t.app('encoded', t.STR, u, t.S('utf-8')))))])]


class Stable(Contract):
    """escaping what is escaped changes nothing, and what is escaped is printable ASCII"""
    name = 'lemma escaping is stable'
    func = None

    def lemma(self):
        s = t.fresh('s', t.STR)
        for label, safe in (('path', PATH_SAFE + '%'), ('query', IRI_SAFE)):
            u = quoted(s, safe)
            yield label + ' escaped again', [], t.Eq(quoted(u, safe), u)
            yield label + ' is printable ASCII', [], t.in_re(u, '(re.* (re.range "!" "~"))')
        u = quoted(s, PATH_SAFE)
        yield 'an escaped path is kept', [], t.Eq(quoted(u, PATH_SAFE + '%'), u)


def uri_request(eng, st, query, **fields):
    eng.load(REQ)
    meta = alloc(st, Dct('c', [(Str(t.S('QUERY_STRING'), 'b'), query)] if query else []))
    f = {'path': text('path'), 'META': meta, 'scheme': text('scheme'), 'host': text('host'), 'settings': new_settings(eng, st)}
    f.update(fields)
    return alloc(st, Obj(eng.cls_by_name(CLS), f))


class FullPath(Contract):
    """get_full_path: the escaped path, a slash if asked for and missing, and ? and the escaped query if there is one"""
    name = 'HttpRequest.get_full_path'
    func = CLS + '.get_full_path'

    def setups(self, eng):
        out = []
        for q in ('no query', 'query'):
            for k in 'bu':
                for args in ([], [Bool(t.fresh('slash', t.BOOL))]):
                    st = eng.base.clone()
                    r = uri_request(eng, st, text('query') if q == 'query' else None, path=text('path', k))
                    out.append(('%s, %s, %d' % (q, k, len(args)), st, [r] + args, {}))
        st = eng.base.clone()
        out.append(('no path', st, [uri_request(eng, st, None, path=NONE)], {}))
        return out

    def want(self, st, a):
        f = st.o(a['self']).f
        p = t.EMPTY if isinstance(f['path'], NoneV) else f['path'].t
        parts = [quoted(p, PATH_SAFE + '%')]
        slash = a['force_append_slash'].t
        parts.append(t.Ite(t.And(slash, t.Not(t.suffixof(t.S('/'), p))), t.S('/'), t.EMPTY))
        d = st.o(f['META'])
        if d.items:
            q = d.items[0][1].t
            parts.append(t.Ite(t.Eq(q, t.EMPTY), t.EMPTY, t.concat(t.S('?'), quoted(q, IRI_SAFE))))
        return parts

    def applicable(self, eng, st, a):
        return isinstance(a['raw'], Bool) and a['raw'].t is t.FALSE and st.o(st.o(a['self']).f['META']).mode == 'c'

    def cases(self, eng, st, a):
        def ens(eng, old, new, a, v):
            parts = self.want(old, a)
            return [('path, slash and query', t.Eq(v.t, t.concat(*parts))), ('a byte string', t.lift(v.k == 'b'))]
        return [Case('ret', lambda eng, st, a: text('full_path'), ens)]


class GetUri(FullPath):
    """get_uri: scheme :// host and the full path"""
    name = 'HttpRequest.get_uri'
    func = CLS + '.get_uri'

    def setups(self, eng):
        out = []
        for q in ('no query', 'query'):
            st = eng.base.clone()
            out.append((q, st, [uri_request(eng, st, text('query') if q == 'query' else None)], {}))
        return out

    def applicable(self, eng, st, a):
        return False

    def cases(self, eng, st, a):
        f = st.o(a['self']).f
        return [Case('ret', None, lambda eng, old, new, a, v: [('scheme, host and full path', t.Eq(v.t, t.concat(
            f['scheme'].t, t.S('://'), f['host'].t, *self.want(old, dict(a, force_append_slash=Bool(t.FALSE))))))])]


class SetPath(Contract):
    """set_path: any text is escaped the same way (or taken as it is)"""
    name = 'HttpRequest.set_path'
    func = CLS + '.set_path'

    def setups(self, eng):
        out = []
        for k in 'bu':
            for args in ([], [Bool(t.TRUE)], [Bool(t.FALSE)]):
                st = eng.base.clone()
                out.append(('%s, %r' % (k, args), st, [uri_request(eng, st, None), text('new_path', k)] + args, {}))
        return out

    def modifies(self, eng, st, a):
        return [(a['self'], 'path')]

    def cases(self, eng, st, a):
        p = a['path'].t
        want = quoted(quoted(p, IRI_SAFE), PATH_SAFE + '%') if a['encode_safely'].t is t.TRUE else p
        return [Case('ret', None, lambda eng, old, new, a, v: [('the path, escaped', t.Eq(new.o(a['self']).f['path'].t, want))])]


class Small(Contract):
    """what the getters give"""

    def __init__(self, method, field, want, value=None):
        self.name = 'HttpRequest.' + method
        self.func = CLS + '.' + method
        self.field, self.want, self.value = field, want, value

    def setups(self, eng):
        out = []
        for label, v in (('value', self.value or text(self.field)), ('None', NONE)):
            st = eng.base.clone()
            out.append((label, st, [uri_request(eng, st, None, **{self.field: v})], {}))
        return out

    def cases(self, eng, st, a):
        f = st.o(a['self']).f[self.field]
        return [Case('ret', None, lambda eng, old, new, a, v: [('the value', self.want(f, v))])]


def same(f, v):
    return t.lift(f == v)


SMALL = [Small('get_path', 'path', lambda f, v: t.Eq(v.t, t.EMPTY if isinstance(f, NoneV) else f.t)), Small('get_scheme', 'scheme', same),
         Small('get_host', 'host', same), Small('get_method', 'method', same),
         Small('is_secure', 'scheme', lambda f, v: t.Eq(v.t, t.FALSE if isinstance(f, NoneV) else t.Eq(f.t, t.S('https'))))]

CONTRACTS += [EscapePath(), IriToUri(), UriToIri(), Stable(), FullPath(), GetUri(), SetPath()] + SMALL


# ------------------------------------------------------------------ the life of a request
HEADER = ('method', 'scheme', 'host', 'port', 'path', 'protocol_info', 'content_type', 'content_params')
DS = 'request_parser.utils.datastructures'


def stateful(eng, st, parsed, done, body, **more):
    """a request in the middle of its life; body: whether the body was read, or could not be read"""
    eng.load(REQ)
    meta = alloc(st, Dct('c', [(Str(t.S('QUERY_STRING'), 'b'), text('query'))]))
    f = dict((n, text(n)) for n in HEADER)
    f['port'] = Int(t.fresh('port', t.INT))
    f.update({'META': meta, '_encoding': text('charset') if parsed else NONE})
    f['GET'] = alloc(st, Obj(Ext('ext.opaque'), {}))
    f['POST'] = alloc(st, Obj(Ext('ext.opaque'), {}))
    f['FILES'] = alloc(st, Obj(Ext('ext.opaque'), {}))
    if done:
        f['_post'], f['_files'] = f['POST'], f['FILES']
    if body == 'read':
        f['_raw_body'] = text('raw')
        f['_body'] = text('body', 'u') if done else f['_raw_body']
    elif body == 'failed':
        f['_body_error'] = alloc(st, Obj(eng.cls_by_name(UNREADABLE), {'args': Tup(())}))
    f.update(more)
    return new_request(eng, st, Int(t.fresh('limit', t.INT)), _request_header_parsed=Bool(t.lift(parsed)), _request_body_parsed=Bool(t.lift(done)), **f)


STATES = [(False, False, None), (True, False, None), (True, False, 'read'), (True, False, 'failed'), (True, True, 'read'), (True, True, None)]


def state_label(p, d, b):
    return ('parsed' if d else 'header parsed' if p else 'new') + (', body ' + b if b else '')


def empty_query(eng, st, v):
    o = st.o(v)
    return isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.name == 'QueryDict' and empty_dict(st, v)


def empty_dict(st, v):
    d = st.o(st.o(v).f['$d'])
    return d.mode == 'c' and not d.items


def fresh_stream(eng, st, v, content):
    """a new LazyStream over everything the assigned object has"""
    return [('a LazyStream', t.lift(is_stream(eng, st, v))), ('over all of the new data', t.Eq(rest(eng, st, v), content)),
            ('at its start', t.Eq(st.o(v).f['position'].t, 0))]


class Lifecycle(Contract):
    """assigning streams: what is reset and what is kept"""
    by_lookup = True

    def __init__(self, attr):
        self.attr = attr
        self.name = 'HttpRequest.%s =' % attr
        self.func = CLS + '.' + attr

    def setups(self, eng):
        out = []
        for p, d, b in STATES:
            st = eng.base.clone()
            r = stateful(eng, st, p, d, b)
            out.append((state_label(p, d, b), st, [r, new_producer(st)], {}))
        return out

    def enter(self, eng, st, args, kw):
        return {'self': args[0], 'val': args[1]}, lambda s: eng.setattr(s, None, args[0], self.attr, args[1])

    def pre(self, eng, st, a):
        return fields_limit(st, a['self'])

    def modifies(self, eng, st, a):
        r = a['self']
        fs = ['_stream', '_body', '_raw_body', '_body_error', '_request_body_parsed']
        if self.attr == 'stream':
            fs += list(HEADER) + ['GET', 'META', '_request_header_parsed', '_encoding']
        else:
            fs += ['POST', 'FILES']
        return [(r, x) for x in fs]

    def cases(self, eng, st, a):
        r = a['self']
        content = st.o(a['val']).f['$rem'].t

        def ens(eng, old, new, a, v):
            f, o = new.o(r).f, old.o(r).f
            fs = fresh_stream(eng, new, f['_stream'], content)
            fs += [('the body has not been parsed', t.Eq(f['_request_body_parsed'].t, t.FALSE)), ('nothing of the old body is left', t.lift('_body' not in f)),
                   ('no bytes of it', t.lift(f['_raw_body'] == NONE)), ('no failure', t.lift(f['_body_error'] == NONE))]
            if self.attr == 'stream':
                fs += [('the header has not been parsed', t.Eq(f['_request_header_parsed'].t, t.FALSE)),
                       ('no header information', t.lift(all(f[n] == NONE for n in HEADER))), ('GET is empty', t.lift(empty_query(eng, new, f['GET']))),
                       ('META is empty', t.lift(not new.o(f['META']).items)),
                       ('the charset of the old header is forgotten', t.lift(f['_encoding'] == (NONE if o['_request_header_parsed'].t is t.TRUE else o['_encoding'])))]
            else:
                fs += [('POST is empty', t.lift(empty_query(eng, new, f['POST']))), ('FILES is empty', t.lift(empty_dict(new, f['FILES'])))]
            return fs
        return [Case('ret', None, ens)]


class GetStream(Contract):
    by_lookup = True

    def __init__(self, attr):
        self.attr = attr
        self.name = 'HttpRequest.' + attr
        self.func = CLS + '.' + attr

    def setups(self, eng):
        st = eng.base.clone()
        return [('', st, [stateful(eng, st, True, False, None)], {})]

    def enter(self, eng, st, args, kw):
        return {'self': args[0]}, lambda s: eng.getattr(s, None, args[0], self.attr)

    def cases(self, eng, st, a):
        return [Case('ret', None, lambda eng, old, new, a, v: [('the stream', t.lift(v == old.o(a['self']).f['_stream']))])]


class NothingTwice(Contract):
    """parsing the header or body again changes nothing and reads nothing"""

    def __init__(self, method, states):
        self.name = 'HttpRequest.%s again' % method
        self.func = CLS + '.' + method
        self.states = states

    def setups(self, eng):
        out = []
        for p, d, b in self.states:
            st = eng.base.clone()
            out.append((state_label(p, d, b), st, [stateful(eng, st, p, d, b)], {}))
        return out

    def cases(self, eng, st, a):
        e = st.o(a['self']).f['_body_error']
        return [Case('ret', None, lambda eng, old, new, a, v: [('only when it succeeded', t.lift(e == NONE or self.name.startswith('HttpRequest.parse_request_header')))]),
                raises(UNREADABLE, lambda eng, old, new, a, v: [('the failure of the first attempt', t.lift(v == e))])]


class HeaderFirst(Contract):
    """the body cannot be parsed before the header"""
    name = 'HttpRequest.parse_request_body before the header'
    func = CLS + '.parse_request_body'

    def setups(self, eng):
        st = eng.base.clone()
        return [('', st, [stateful(eng, st, False, False, None)], {})]

    def pre(self, eng, st, a):
        return fields_limit(st, a['self'])

    def modifies(self, eng, st, a):
        return [(a['self'], x) for x in ('_post', '_files', '_upload_handlers')]

    def cases(self, eng, st, a):
        s = st.o(a['self']).f['_stream']
        return [raises(REQ + ':RequestHeaderParseException', lambda eng, old, new, a, v: [
            ('nothing was read', t.Eq(rest(eng, new, s), rest(eng, old, s))), ('not parsed', t.Eq(new.o(a['self']).f['_request_body_parsed'].t, t.FALSE))])]


class Encoding(Contract):
    """the encoding is the one assigned or the default of the settings; assigning one reads the query again and keeps everything else"""
    by_lookup = True
    name = 'HttpRequest.encoding'
    func = CLS + '.encoding'

    def setups(self, eng):
        out = []
        for label, e in (('assigned', text('encoding')), ('none', NONE)):
            st = eng.base.clone()
            out.append((label, st, [stateful(eng, st, True, False, None, _encoding=e)], {}))
        return out

    def enter(self, eng, st, args, kw):
        return {'self': args[0]}, lambda s: eng.getattr(s, None, args[0], 'encoding')

    def cases(self, eng, st, a):
        f = st.o(a['self']).f
        dflt = st.o(f['settings']).f['DEFAULT_CHARSET']
        want = dflt.t if isinstance(f['_encoding'], NoneV) else t.Ite(t.Eq(f['_encoding'].t, t.EMPTY), dflt.t, f['_encoding'].t)
        return [Case('ret', None, lambda eng, old, new, a, v: [('the encoding', t.Eq(v.t, want))])]


class SetEncoding(Contract):
    by_lookup = True
    name = 'HttpRequest.encoding ='
    func = CLS + '.encoding'

    def setups(self, eng):
        out = []
        for p, d, b in STATES:
            st = eng.base.clone()
            r = stateful(eng, st, p, d, b)
            m = st.w(st.o(r).f['META'])
            m.items = []
            out.append((state_label(p, d, b), st, [r, text('encoding')], {}))
        return out

    def enter(self, eng, st, args, kw):
        return {'self': args[0], 'val': args[1]}, lambda s: eng.setattr(s, None, args[0], 'encoding', args[1])

    def pre(self, eng, st, a):
        return fields_limit(st, a['self'])

    def modifies(self, eng, st, a):
        return [(a['self'], x) for x in ('_encoding', 'GET', '_post', '_body')]

    def cases(self, eng, st, a):
        def ens(eng, old, new, a, v):
            f = new.o(a['self']).f
            return [('the encoding', t.lift(f['_encoding'] == a['val'])), ('GET is decoded anew', t.lift(empty_query(eng, new, f['GET']))),
                    ('GET has the encoding', t.Eq(new.o(f['GET']).f['_encoding'].t, t.Ite(
                        t.Eq(a['val'].t, t.EMPTY), new.o(new.o(a['self']).f['settings']).f['DEFAULT_CHARSET'].t, a['val'].t))),
                    ('decoded text of the body is dropped, its bytes are kept', t.lift('_body' not in f))]
        return [Case('ret', None, ens)]


CONTRACTS += [Lifecycle('stream'), Lifecycle('body_stream'), GetStream('stream'), GetStream('body_stream'),
              NothingTwice('parse_request_header', [x for x in STATES if x[0] and x[2] != 'failed']),
              NothingTwice('parse_request_body', [x for x in STATES if x[1]]), HeaderFirst(), Encoding(), SetEncoding()]
