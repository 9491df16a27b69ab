import re
from oracles import util
from oracles.util import *
from request_parser.http.request import InvalidHttpRequest, parse_request_line
from request_parser.utils.http import _urlsplit, _urlparse

RULE = ('request lines built from method, URI and protocol tokens, URIs from the delimiters : / ? # ; @ [ ] and letters; '
        'non-trivial when the URI has a scheme, authority, query or fragment')
PARAMS = set(['', 'ftp', 'hdl', 'prospero', 'http', 'https', 'shttp', 'rtsp', 'rtspu', 'sip', 'sips', 'mms', 'sftp', 'tel'])


def gen(rng):
    if chance(rng, 0.5):
        uri = rstr(rng, 'ab1:/?#;@[].+-%', 0, 14, pieces=('http:', '//', 'HTTPS://', 'ftp:', '/;', '?a=b', '#f'))
    else:
        uri = rng.choice(('', 'http:', 'HTTP:', 'x-y.1:', 'a_b:', 'mailto:')) + rng.choice(('', '//h.com', '//u@h:80', '//[::1]:8', '//[::1', '//')) + \
            rng.choice(('', '/', '/a/b', '/a;p/b;q=1', '/a:b', ';x')) + rng.choice(('', '?', '?q=1&r', '?a?b', '?x#')) + rng.choice(('', '#', '#f', '#a#b', '#a?b'))
    k = rng.random()
    if k < 0.8:
        return ('%s %s %s' % (rng.choice(('GET', 'get', 'X-Y', '')), uri, rng.choice(('HTTP/1.1', 'HTTP/1.0', ''))), rng.choice((True, True, False)))
    return (rstr(rng, 'ab/ \t', 0, 8), True)


def nontrivial(c):
    return any(x in c[0] for x in (':', '//', '?', '#'))


def model(uri, frag=True):
    scheme = netloc = query = fragment = params = ''
    m = re.match(r'([A-Za-z0-9+.\-]+):', uri)
    if m:
        scheme, uri = m.group(1).lower(), uri[m.end():]
    if uri.startswith('//'):
        m = re.match(r'[^/?#]*', uri[2:])
        netloc = m.group(0)
        uri = uri[2 + len(netloc):]
        if ('[' in netloc) != (']' in netloc):
            return None
    if frag and '#' in uri:
        i = uri.index('#')
        uri, fragment = uri[:i], uri[i + 1:]
    if '?' in uri:
        i = uri.index('?')
        uri, query = uri[:i], uri[i + 1:]
    path = uri
    if scheme in PARAMS:
        last = uri.rfind('/')
        i = uri.find(';', max(0, last))
        if i >= 0:
            path, params = uri[:i], uri[i + 1:]
    return scheme, netloc, path, params, query, fragment, uri


def check(case):
    line, frag = case
    parts = line.split(' ')
    if len(parts) != 3:
        try:
            got = parse_request_line(line)
        except InvalidHttpRequest:
            return None
        return '%d tokens accepted as %r' % (len(parts), got)
    uri = parts[1]
    want = model(uri)
    try:
        d = parse_request_line(line)
    except ValueError as e:
        return None if want is None else 'refused: %s' % e
    if want is None:
        return 'unbalanced brackets accepted: %r' % (d,)
    got = tuple(d[k] for k in ('SCHEME', 'DOMAIN', 'PATH', 'PARAMS', 'QUERY_STRING', 'FRAGMENT'))
    if got != want[:6]:
        return '%r split as %r instead of %r' % (uri, got, want[:6])
    if d['METHOD'] != parts[0] or d['PROTOCOL_INFO'] != parts[2]:
        return 'method/protocol %r %r' % (d['METHOD'], d['PROTOCOL_INFO'])
    want = model(uri, frag)
    if want is None:
        return None
    got = tuple(_urlsplit(uri, allow_fragments=frag))
    if got != want[:2] + (want[6],) + want[4:6]:
        return '_urlsplit(%r, allow_fragments=%r) is %r' % (uri, frag, got)
    got = tuple(_urlparse(uri, allow_fragments=frag))
    if got != want[:6]:
        return '_urlparse(%r, allow_fragments=%r) is %r' % (uri, frag, got)
    return None
