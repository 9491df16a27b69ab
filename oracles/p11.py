from oracles import util, mp
from oracles.util import *
from urllib import quote as pct
from request_parser.http.request import HttpRequest, QueryDict
from request_parser.utils.http import limited_parse_qsl
from io import BytesIO

RULE = ('query strings from pairs (percent-encoded, plus signs, blanks, repeated names, & and ;, missing =) in three charsets, parsed by limited_parse_qsl, QueryDict and '
        'HttpRequest.GET/POST; non-trivial with a percent escape, plus or repeated name')

CHARSETS = ('utf-8', 'latin-1', 'ISO-8859-1', 'utf-8')


def gen(rng):
    cs = rng.choice(CHARSETS)
    pairs = []
    names = [rstr(rng, 'ab+= &;%\xe9', 0, 4).decode('latin-1') for i in range(3)]
    for i in range(rng.choice((0, 1, 2, 3, 6))):
        v = rstr(rng, 'abc+=&;% 1/?#\xe9\xff', 0, rng.choice((0, 3, 9))).decode('latin-1')
        pairs.append((rng.choice(names), v, rng.choice(('pct', 'pct', 'plus', 'none', 'all')), rng.choice('&&&;')))
    return (cs, pairs, rng.choice((None, None, 1, 3, 6, 100)), rng.choice((True, True, True, False)), rng.choice(('qsl', 'dict', 'dict', 'get', 'post')),
            rng.choice(('bytes', 'text')))


def fixed():
    yield ('utf-8', [(u'a', u'1', 'pct', '&'), (u'b', u'', 'none', '&'), (u'a', u'2', 'pct', '&')], None, True, 'dict', 'bytes')


def nontrivial(c):
    names = [p[0] for p in c[1]]
    return len(set(names)) < len(names) or any(set(p[1]) & set(u' +%&;=\xe9') for p in c[1])


def enc(s, style, cs):
    b = s.encode(cs)
    if style == 'all':
        return ''.join('%%%02x' % ord(c) for c in b)
    if style == 'plus':
        return '+'.join(pct(x, '') for x in b.split(' '))
    return pct(b, '/?')


def check(case):
    cs, pairs, limit, keep, how, kind = case
    qs = ''
    want = []
    for i, (n, v, style, sep) in enumerate(pairs):
        if style == 'none':
            v = u''
            if not n:
                raise util.Skip()
            qs += enc(n, style, cs)
        else:
            qs += enc(n, style, cs) + '=' + enc(v, style, cs)
        if i < len(pairs) - 1:
            qs += sep
        if v or keep:
            want.append((n, v))
    if limit is not None and limit < len(pairs):
        raise util.Skip()
    d = {}
    for n, v in want:
        d.setdefault(n, []).append(v)
    text = qs.decode('ascii')
    if how == 'qsl':
        got = limited_parse_qsl(qs if kind == 'bytes' else text, keep_blank_values=keep, encoding=cs, fields_limit=limit)
        got = [(mp.text(a), mp.text(b)) for a, b in got]
        return None if got == want else '%r: %r instead of %r' % (qs, got, want)
    if not keep:
        raise util.Skip()
    s = mp.limits(limit if limit is not None else 4096)
    if how == 'dict':
        q = QueryDict(s, qs if kind == 'bytes' else text, mutable=chance(RANDOM, 0.5), encoding=cs)
    elif how == 'get':
        if kind == 'text':
            s.DEFAULT_CHARSET = cs
        if any(c in qs for c in ' #'):
            raise util.Skip()
        raw = 'GET /?%s HTTP/1.1\r\nHost: h\r\n%s\r\n\r\n' % (qs, 'X: y' if kind == 'text' else 'Content-Type: text/plain; charset=' + cs)
        r = HttpRequest(BytesIO(raw), s)
        r.parse_request_header()
        q = r.GET
        if r.META['QUERY_STRING'] != qs:
            return 'query string %r instead of %r' % (r.META['QUERY_STRING'], qs)
    else:
        if kind == 'text':
            s.DEFAULT_CHARSET = cs
        raw = 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded%s\r\n\r\n%s' % (
            '' if kind == 'text' else '; charset=' + cs, qs)
        r = HttpRequest(BytesIO(raw), s)
        r.parse()
        q = r.POST
    got = dict((mp.text(k), [mp.text(v) for v in q.getlist(k)]) for k in q)
    if got != d:
        return '%s: %r parsed as %r instead of %r' % (how, qs, got, d)
    for k in d:
        if mp.text(q[k]) != d[k][-1]:
            return '%r is %r' % (k, q[k])
    if how == 'dict':
        # back to a query string and again
        q2 = QueryDict(s, q.urlencode(), encoding=cs)
        if dict((k, q2.getlist(k)) for k in q2) != dict((k, q.getlist(k)) for k in q):
            return 'urlencode gives %r, read back as %r instead of %r' % (q.urlencode(), q2, q)
        q2 = QueryDict(s, q.urlencode(safe='/'), encoding=cs)
        if dict((k, q2.getlist(k)) for k in q2) != dict((k, q.getlist(k)) for k in q):
            return "urlencode('/') gives %r, read back as %r instead of %r" % (q.urlencode(safe='/'), q2, q)
    return None


import random
RANDOM = random.Random(1)
