from oracles.util import *
from urllib import quote as pct
from request_parser.http.multipartparser import parse_header

RULE = ('header values: a main value and 0-4 parameters, as tokens, quoted strings (semicolons, escaped quotes and backslashes inside) or '
        'RFC 2231 encoded, with random case and blanks; non-trivial with a quoted or encoded parameter')


def gen(rng):
    main = rstr(rng, 'abAB/-', 0, 8)
    params = []
    for i in range(rng.choice((0, 1, 2, 4))):
        name = rstr(rng, "abXY-'", 1, 4)
        k = rng.choice(('token', 'quoted', 'quoted', 'quoted', 'ext', 'ext', 'flag', 'plain*'))
        if k == 'plain*':
            v = rstr(rng, "ab%41-'", 0, 6)
            if v.count("'") == 2:
                v = v.replace("'", '', 1)
        elif k == 'token':
            v = rstr(rng, 'abAB01-_.=/', 0, 6)
        elif k == 'ext':
            v = rstr(rng, u'ab\xe9 ;"', 0, 6).encode('latin-1') if chance(rng, 0.5) else rstr(rng, 'ab %;"', 0, 6)
        else:
            v = rstr(rng, 'ab;"\\= \xe9\'', 0, 8)
        params.append((name, k, v))
    return (main, params, rng.choice((';', '; ', ' ; ', ';  ')), rng.choice(('', '', ' ')))


def fixed():
    yield ('form-data', [('name', 'quoted', 'a";b'), ('filename', 'quoted', 'C:\\x\\y;z.txt')], '; ', '')
    yield ('attachment', [('filename', 'ext', 'a b;c')], '; ', '')
    yield ('attachment', [('filename', 'ext', '"a"'), ("a'", 'plain*', "x'y"), ("b'", 'ext', 'x')], '; ', '')


def nontrivial(c):
    return any(k in ('quoted', 'ext') for _, k, _ in c[1])


def check(case):
    main, params, sep, blank = case
    line = main
    want = {}
    for name, k, v in params:
        if k == 'token':
            line += sep + name + blank + '=' + blank + v
            want[name.lower()] = v.strip()
        elif k == 'quoted':
            line += sep + name + blank + '=' + blank + '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
            want[name.lower()] = v
        elif k == 'ext':
            line += sep + name + "*=UTF-8''" + pct(v.decode('latin-1').encode('utf-8'))
            want[name.lower()] = v.decode('latin-1')
        elif k == 'plain*':
            line += sep + name + '*=' + v
            want[name.lower()] = v
        else:
            line += sep + name
    key, got = parse_header(line)
    if key != main.strip().lower():
        return '%r: main value %r instead of %r' % (line, key, main.strip().lower())
    got = dict((k, v if isinstance(v, unicode) else v.decode('latin-1')) for k, v in got.items())
    want = dict((k, v if isinstance(v, unicode) else v.decode('latin-1')) for k, v in want.items())
    if got != want:
        return '%r: parameters %r instead of %r' % (line, got, want)
    return None
