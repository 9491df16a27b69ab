from io import BytesIO
from oracles import util, mp
from oracles.util import *
from request_parser.conf.settings import Settings
from request_parser.http.request import HttpRequest, RawPostDataException, RequestHeaderParseException, InvalidHttpRequest
from request_parser.utils.datastructures import LazyStream

RULE = ('1-8 steps on one HttpRequest (parse_request_header, parse_request_body, parse, body, stream=, body_stream=, encoding=, reading attributes), with other requests sharing its settings; '
        'the outcome compared with a fresh request for the same bytes; non-trivial with a repeated parse or a new stream')

REQS = (
    ('GET', '/a?x=1&y=%E9', 'h.com', None, ''),
    ('POST', '/b', 'k.org:8080', 'application/x-www-form-urlencoded', 'p=1&q=%E9&p=2'),
    ('POST', '/c?x=2', 'h.com', 'multipart/form-data; boundary=BB', None),
    ('PUT', '/d', 'h.com', 'text/plain; charset=utf-8', 'caf\xc3\xa9'),
    ('POST', '/e?z=%C3%A9', 'm.net', 'application/x-www-form-urlencoded; charset=utf-8', 'p=%C3%A9'),
    ('DELETE', 'http://proxy.net/f', 'ignored', None, ''),
    ('POST', '/g', 'h.com', 'application/json', '{"a": 1}'),
)


def gen(rng):
    steps = []
    for i in range(rng.choice((1, 2, 3, 5, 8))):
        steps.append((rng.choice(('header', 'header', 'body', 'body', 'parse', 'parse', 'stream', 'bodystream', 'peek', 'raw', 'raw', 'other', 'encoding')), rng.randrange(len(REQS))))
    return (rng.randrange(len(REQS)), steps, rng.choice(('ISO-8859-1', 'utf-8')))


def fixed():
    for i in range(len(REQS)):
        yield (i, [('parse', 0), ('parse', 0)], 'ISO-8859-1')
        yield (i, [('header', 0), ('header', 0), ('body', 0), ('body', 0)], 'ISO-8859-1')
        yield (i, [('body', 0)], 'ISO-8859-1')
        yield (i, [('raw', 0), ('raw', 0), ('parse', 0), ('raw', 0), ('encoding', 1), ('raw', 0)], 'ISO-8859-1')
        for j in range(len(REQS)):
            yield (i, [('raw', 0), ('stream', j), ('raw', 0), ('parse', 0)], 'ISO-8859-1')
            yield (i, [('header', 0), ('raw', 0), ('bodystream', j), ('raw', 0), ('parse', 0)], 'ISO-8859-1')
            yield (i, [('parse', 0), ('stream', j), ('parse', 0)], 'ISO-8859-1')
            yield (i, [('parse', 0), ('bodystream', j), ('body', 0)], 'ISO-8859-1')
            yield (i, [('other', j), ('parse', 0)], 'ISO-8859-1')


def nontrivial(c):
    names = [s[0] for s in c[1]]
    return 'stream' in names or 'bodystream' in names or names.count('parse') + names.count('header') > 1


def payload(i):
    method, target, host, ctype, body = REQS[i]
    if body is None:
        body = mp.encode('BB', [('field', 'n', None, None, None, 'v%d' % i, 0), ('file', 'f', 'n.txt', None, None, 'data', 0)])
    return body


def raw(i):
    method, target, host, ctype, body = REQS[i]
    body = payload(i)
    return '%s %s HTTP/1.1\r\nHost: %s\r\nX-I: %d\r\n%s%s\r\n%s' % (
        method, target, host, i, 'Content-Type: %s\r\n' % ctype if ctype else '', 'Content-Length: %d\r\n' % len(body) if body else '', body)


HEAD = ('method', 'scheme', 'host', 'port', 'path', 'protocol_info', 'content_type')


def dump(d):
    return dict((mp.text(k), [norm(v) for v in d.getlist(k)]) for k in d)


def norm(v):
    if isinstance(v, dict):
        return sorted((k, mp.text(x) if isinstance(x, str) else x) for k, x in v.items())
    return mp.text(v) if isinstance(v, str) else v


def head_of(r):
    out = dict((k, getattr(r, k)) for k in HEAD)
    out['GET'] = dump(r.GET)
    out['META'] = dict((k, dump(v) if hasattr(v, 'getlist') else v) for k, v in r.META.items())
    return out


def body_of(r):
    files = {}
    for k in r.FILES:
        l = []
        for f in r.FILES.getlist(k):
            f.seek(0)
            l.append((f.name, f.read()))
        files[k] = l
    return (dump(r.POST), files)


def settings_of(s):
    return dict((k, getattr(s, k)) for k in dir(s) if k.isupper())


def fresh(i, charset):
    s = mp.limits()
    s.DEFAULT_CHARSET = charset
    r = HttpRequest(BytesIO(raw(i)), s)
    r.parse_request_header()
    h = head_of(r)
    r.parse_request_body()
    return h, body_of(r)


def check(case):
    first, steps, charset = case
    s = mp.limits()
    s.DEFAULT_CHARSET = charset
    before = settings_of(s)
    r = HttpRequest(BytesIO(raw(first)), s)
    cur = first               # the request the header comes from
    bodycur = first           # where the body bytes come from
    head = done = False
    own = None                # an encoding set by hand or by a charset parameter
    empty = head_of(HttpRequest(BytesIO(''), s))
    post = ({}, {})
    for n, (op, arg) in enumerate(steps):
        at = 'step %d (%s): ' % (n, op)
        if op in ('header', 'parse') and not head:
            r.parse_request_header()
            head = True
        elif op == 'header':
            r.parse_request_header()
        if op in ('body', 'parse'):
            if not head:
                try:
                    r.parse_request_body()
                except RequestHeaderParseException:
                    pass
                else:
                    return at + 'the body was parsed before the header'
                continue
            if not done and bodycur != cur:
                # the header of one request, the body of another
                if REQS[bodycur][3] != REQS[cur][3] or len(payload(bodycur)) != len(payload(cur)):
                    return None
            r.parse_request_body()
            if not done:
                if payload(bodycur):
                    done = True
                post = body_of(r)
                if own is None:
                    want = fresh(bodycur, charset)[1]
                    if post != want:
                        return at + 'POST/FILES %r instead of %r' % (post, want)
        elif op == 'raw':
            if not head and bodycur != cur:
                return None
            form = REQS[cur][3] is not None and ('urlencoded' in REQS[cur][3] or 'multipart' in REQS[cur][3])
            try:
                got = r.body()
            except RawPostDataException:
                if not (done and form):
                    return at + 'RawPostDataException'
                got = None
            except UnicodeDecodeError:
                if own is None:
                    return at + 'UnicodeDecodeError'
                got = None
            else:
                if done and form:
                    return at + 'body() of a parsed form is %r' % got
            head = True
            if got is not None and own is None and mp.text(got) not in (mp.text(payload(bodycur)), payload(bodycur).decode('utf-8', 'replace')):
                return at + 'body() is %r instead of %r' % (got, payload(bodycur))
        elif op == 'stream':
            r.stream = BytesIO(raw(arg))
            cur = bodycur = arg
            head = done = False
            if head_of(r) != empty:
                return at + 'header information is left: %r' % head_of(r)
            own = None
        elif op == 'bodystream':
            if not head:
                return None       # there is one stream: the header would be read from it
            r.body_stream = BytesIO(payload(arg))
            bodycur = arg
            done = False
            post = ({}, {})
        elif op == 'other':
            o = HttpRequest(BytesIO(raw(arg)), s)
            o.parse()
            if (head_of(o), body_of(o))[0] != fresh(arg, charset)[0]:
                return at + 'another request with the same settings: %r instead of %r' % (head_of(o), fresh(arg, charset)[0])
            if body_of(o) != fresh(arg, charset)[1]:
                return at + 'another request with the same settings: %r' % (body_of(o),)
        elif op == 'encoding':
            if head:
                r.encoding = 'utf-8' if arg % 2 else 'latin-1'
                own = r.encoding
                if arg % 2 and cur == 4 and r.GET.get('z') != u'\xe9':
                    return at + 'GET is %r' % r.GET
                if not arg % 2 and cur == 0 and r.GET.get('y') != u'\xe9':
                    return at + 'GET is %r' % r.GET
        if not isinstance(r.stream, LazyStream) or r.body_stream is not r.stream:
            return at + 'stream is %r' % (r.stream,)
        if head and own is None:
            want = fresh(cur, charset)[0]
            if head_of(r) != want:
                return at + 'header %r instead of %r' % (head_of(r), want)
        if body_of(r) != post and own is None:
            return at + 'POST/FILES %r instead of %r' % (body_of(r), post)
        if settings_of(s) != before:
            return at + 'the settings changed'
    return None
