from io import BytesIO
from urllib import unquote as pyunquote
from oracles import util, mp
from oracles.util import *
from request_parser.http.request import HttpRequest
from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri

RULE = ('request targets with reserved, unsafe and percent-escaped characters, origin-form and absolute-form, and paths given to set_path (also non-ASCII); the URI rebuilt '
        'and parsed again; non-trivial when something is escaped')
SAFE_PATH = set(ALNUM + "/:@&+$,-_.!~*'()%")
SAFE_IRI = set(ALNUM + "/#%[]=:;$&()+,!?*@'~_.-")


def gen(rng):
    path = '/' + rstr(rng, "ab/._-~!$&'()*+,:@;=%[]\"<>^`{|}\\", 0, 10, pieces=('%20', '%C3%A9', '%2F', '//', '%'))
    query = rng.choice(('', '', rstr(rng, 'ab=&+%/?"<>[]|;', 1, 8, pieces=('%20', '%26', '='))))
    scheme = rng.choice(('', '', 'http', 'https', 'HTTP', 'ftp'))
    upath = '/' + rstr(rng, 'ab \xe9\xff%/?#"', 0, 6).decode('latin-1')
    return (path, query, scheme, rng.choice(('h.com', 'Ab.org:81', '[::1]')), upath, rng.choice((False, False, True)))


def nontrivial(c):
    return any(x in c[0] + c[1] for x in '%"<>[]')


def q(s, safe):
    return ''.join(c if c in safe else '%%%02X' % ord(c) for c in s)


def ql(s, safe):
    return q(s.encode('utf-8') if isinstance(s, unicode) else s, safe)


def check(case):
    path, query, scheme, host, upath, slash = case
    if path.startswith('//') and not scheme:
        raise util.Skip()
    target = ('%s://%s' % (scheme, host) if scheme else '') + path + ('?' + query if query else '')
    raw = 'GET %s HTTP/1.1\r\nHost: %s\r\nX: y\r\n\r\n' % (target, host)
    r = HttpRequest(BytesIO(raw), mp.limits())
    r.parse_request_header()
    p = path
    if scheme.lower() in ('', 'http', 'https', 'ftp') and ';' in path:
        last = path.rfind('/')
        i = path.find(';', last)
        if i >= 0:
            p = path[:i]
    if r.get_path() != p:
        return 'path of %r is %r instead of %r' % (target, r.get_path(), p)
    want = q(p, SAFE_PATH) + ('/' if slash and not p.endswith('/') else '') + ('?' + q(query, SAFE_IRI) if query else '')
    got = r.get_full_path(slash)
    if got != want:
        return 'full path of %r is %r instead of %r' % (target, got, want)
    want = q(p, SAFE_PATH) + ('?' + q(query, SAFE_IRI) if query else '')
    h = host.lower().split(':')[0] if not host.startswith('[') else host.lower()
    uri = '%s://%s%s' % (scheme.lower() or 'UNKNOWN', h, want)
    if r.get_uri() != uri:
        return 'URI of %r is %r instead of %r' % (target, r.get_uri(), uri)
    if any(ord(c) > 126 or ord(c) < 33 for c in r.get_uri()):
        return 'URI %r' % r.get_uri()
    if r.get_scheme() != (scheme.lower() or 'UNKNOWN') or r.is_secure() != (scheme.lower() == 'https'):
        return 'scheme %r secure %r' % (r.get_scheme(), r.is_secure())
    # the rebuilt URI is a fixed point
    if scheme and '[' not in query and ']' not in query:
        r2 = HttpRequest(BytesIO('GET %s HTTP/1.1\r\nHost: x\r\nX: y\r\n\r\n' % r.get_uri()), mp.limits())
        r2.parse_request_header()
        if r2.get_uri() != r.get_uri() or r2.get_host() != r.get_host():
            return '%r parsed again is %r' % (r.get_uri(), r2.get_uri())
    raw_uri = r.get_full_path(raw=True)
    if '%C3%A9' not in want and raw_uri != pyunquote(want) and '%' not in path + query:
        return 'raw path of %r is %r' % (want, raw_uri)
    if r.get_uri(raw=True) != '%s://%s%s' % (r.scheme, r.host, raw_uri):
        return 'raw URI %r' % r.get_uri(raw=True)
    # the helpers
    if escape_uri_path(path) != q(path, SAFE_PATH - set('%')):
        return 'escape_uri_path(%r) is %r' % (path, escape_uri_path(path))
    if iri_to_uri(query) != q(query, SAFE_IRI) or iri_to_uri(iri_to_uri(query)) != iri_to_uri(query):
        return 'iri_to_uri(%r) is %r' % (query, iri_to_uri(query))
    if iri_to_uri(upath) != ql(upath, SAFE_IRI):
        return 'iri_to_uri(%r) is %r' % (upath, iri_to_uri(upath))
    r.set_path(upath)
    want = q(ql(upath, SAFE_IRI), SAFE_PATH)
    if r.get_path() != want:
        return 'set_path(%r): %r instead of %r' % (upath, r.get_path(), want)
    full = want + ('?' + q(query, SAFE_IRI) if query else '')
    if r.get_full_path() != full:
        return 'set_path(%r): full path %r instead of %r' % (upath, r.get_full_path(), full)
    return None
