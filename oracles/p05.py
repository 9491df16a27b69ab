from oracles import util
from oracles.util import *
from io import BytesIO
from request_parser.conf.settings import Settings
from request_parser.http.request import HttpRequest, split_domain_port

RULE = ('host strings over letters, digits, . - : [ ] and a few illegal characters, with and without ports, and whole requests whose Host is one; '
        'non-trivial when the host is accepted')


def gen(rng):
    k = rng.random()
    if k < 0.35:
        h = rstr(rng, 'abZ09.-', 1, 10) + rng.choice(('', '.', ':80', ':', ':0', ':65535', ':8x', ':99999'))
    elif k < 0.6:
        h = '[' + rstr(rng, 'af09:AFgG.', 0, 8) + ']' + rng.choice(('', ':80', ':', ':1', 'x'))
    else:
        h = rstr(rng, 'aZ0.-:[]_@/ \n%', 0, 10)
    if chance(rng, 0.1):
        h += rng.choice('\n\r _')
    return (h, rng.choice(('direct', 'direct', 'request', 'proxy')), rng.choice(('', 'http', 'https', 'HTTPS', 'ftp')))


def fixed():
    for h in ('example.com', 'EXAMPLE.com:80', '[::1]', '[::1]:80', 'a.', 'a.:1', '', 'a\n', 'a:80\n'):
        yield (h, 'direct', '')


def nontrivial(c):
    return model(c[0]) != ('', '')


def model(host):
    host = host.lower()
    name, port = host, None
    if host.startswith('['):
        i = host.find(']')
        if i < 0:
            return '', ''
        name, tail = host[:i + 1], host[i + 1:]
        if tail:
            if not tail.startswith(':'):
                return '', ''
            port = tail[1:]
        inside = name[1:-1]
        if not inside or any(c not in 'abcdef0123456789:.' for c in inside):
            return '', ''
        j = inside.find(':')
        if j < 0 or any(c not in 'abcdef0123456789' for c in inside[:j]) or not inside[j + 1:]:
            return '', ''
    else:
        if ':' in host:
            name, port = host.split(':', 1)
        if not name or any(c not in 'abcdefghijklmnopqrstuvwxyz0123456789.-' for c in name):
            return '', ''
        name = name[:-1] if name.endswith('.') else name
    if port is not None and (not port or any(c not in '0123456789' for c in port)):
        return '', ''
    return name, port or ''


def check(case):
    host, how, scheme = case
    want = model(host)
    if how == 'direct':
        got = split_domain_port(host)
        return None if tuple(got) == want else '%r split as %r instead of %r' % (host, got, want)
    if how == 'request':
        raw = 'GET / HTTP/1.1\r\nX: y\r\nHost: %s\r\n\r\n' % host
        want = model(host.strip())
        if '\r\n' in host or host.endswith('\r') or (host.endswith('\n') and False):
            raise util.Skip()
        scheme = ''
    else:
        if any(c in host for c in ' /?#\r\n[]') or not host or not scheme:
            raise util.Skip()
        raw = 'GET %s://%s/ HTTP/1.1\r\nX: y\r\n\r\n' % (scheme, host)
    r = HttpRequest(BytesIO(raw), Settings.default())
    r.parse_request_header()
    port = want[1] or {'http': 80, 'https': 443}.get(scheme.lower(), 65536)
    if r.get_host() != want[0] or str(r.get_port()) != str(port):
        return 'host %r: %r, %r instead of %r, %r' % (host, r.get_host(), r.get_port(), want[0], port)
    return None
