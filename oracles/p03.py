from oracles import util
from oracles.util import *
from io import BytesIO
from request_parser.conf.settings import Settings
from request_parser.http.request import HttpRequest, InvalidHttpRequest, parse_request_headers

RULE = ('a request line and 0-8 header lines (repeated names, blanks around values, colons in values, sometimes no colon or non-ASCII bytes); '
        'parsed directly and through HttpRequest; non-trivial with two or more header lines')


def line(rng, names):
    name = rng.choice(names)
    value = rstr(rng, ALNUM + ' :;,="\t', 0, 12)
    if chance(rng, 0.04):
        value += rng.choice('\xe9\xff\x80')
    if chance(rng, 0.05):
        value += rng.choice('\r\n\x0b') + 'x'
    return '%s:%s%s%s' % (name, rng.choice(('', ' ', '  ', '\t')), value, rng.choice(('', ' ', '\t ')))


def gen(rng):
    names = [rstr(rng, ALNUM + '-_', 1, 5) for i in range(rng.randint(1, 4))] + ['Host', 'X']
    if chance(rng, 0.1):
        names.append('')
    lines = [line(rng, names) for i in range(rng.choice((0, 1, 2, 3, 5, 8)))]
    if chance(rng, 0.1) and lines:
        lines.insert(rng.randint(0, len(lines)), rstr(rng, ALNUM + ' ', 1, 5))
    if chance(rng, 0.02):
        lines.append('A' * 3000 + ': ' + 'v' * 5000)
    return ('%s /%s HTTP/1.%d' % (rng.choice(('GET', 'PUT')), rstr(rng, 'ab', 0, 4), rng.randint(0, 1)), lines,
            rng.choice((None, None, 'Host', 'proxy')))


def fixed():
    yield ('GET / HTTP/1.1', ['A: 1', 'B: 2', 'A: 3', 'A:4'], 'Host')


def nontrivial(c):
    return len(c[1]) > 1


def expected(lines):
    out = {}
    for l in lines:
        if ':' not in l:
            return None
        name, value = l.split(':', 1)
        value = value.strip()
        value = ''.join(c if ord(c) < 128 else '?' for c in value)
        out.setdefault(name, []).append(value)
    return out or None


def show(d):
    return dict((k, d.getlist(k)) for k in d)


def check(case):
    first, lines, api = case
    if any('\r\n' in l for l in lines) or any(l.endswith('\r') for l in lines):
        raise util.Skip()
    if api is None:
        block = '\r\n'.join([first] + lines) + '\r\n'
        want = expected(lines)
        try:
            got_line, got = parse_request_headers(block)
        except InvalidHttpRequest as e:
            return None if want is None else 'refused %r: %s' % (lines, e)
        if want is None:
            return 'malformed head accepted: %r' % (show(got),)
        if got_line != first:
            return 'request line %r instead of %r' % (got_line, first)
        if show(got) != want:
            return 'headers %r instead of %r' % (show(got), want)
        for k in want:
            if got[k] != want[k][-1]:
                return 'last value of %r is %r' % (k, got[k])
        return None
    if api == 'proxy':
        first = first.replace(' /', ' http://proxy.org/')
    else:
        lines = ['Host: here.org'] + [l for l in lines if not l.startswith('Host:')]
    want = expected(lines)
    raw = '\r\n'.join([first] + lines) + '\r\n\r\n'
    r = HttpRequest(BytesIO(raw), Settings.default())
    if want is not None and ('Content-Type' in want or (api != 'proxy' and 'Host' not in want)):
        raise util.Skip()
    try:
        r.parse_request_header()
    except InvalidHttpRequest as e:
        return None if want is None else 'refused %r: %s' % (lines, e)
    if want is None:
        return 'malformed head accepted'
    if api != 'proxy':
        del want['Host']
        if r.host != 'here.org':
            return 'host %r' % r.host
    got = show(r.META['REQUEST_HEADERS'])
    if got != want:
        return 'headers %r instead of %r' % (got, want)
    return None
