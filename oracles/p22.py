from oracles import util
from oracles.util import *
from request_parser.utils.http import parse_etags, quote_etag

RULE = 'comma-separated lists of strong, weak, unquoted and damaged ETags with blanks around them, and *; non-trivial with two or more elements'


def gen(rng):
    n = rng.choice((0, 1, 2, 3, 5))
    tags = []
    for i in range(n):
        e = rng.choice(('"%s"', 'W/"%s"', '%s', '"%s', '%s"', 'w/"%s"', 'W/ "%s"', '"%s"x', 'x"%s"', '*%s', '""%s', 'W/%s')) % rstr(rng, 'ab c*/W', 0, 4)
        tags.append(rng.choice(('', '', ' ', '\t', '\n')) + e + rng.choice(('', '', ' ', '\n')))
    if chance(rng, 0.15):
        tags = [rng.choice(('*', ' * ', '*\n', '**', '*,*'))]
    return ','.join(tags)


def fixed():
    for s in ('*', '', '""', 'W/""', '"a"', '"a\n"', '"a"\n', '"a", *', ',', '"a,b"'):
        yield s


def nontrivial(c):
    return c.count(',') > 0


def ok(e):
    b = e[2:] if e.startswith('W/') else e
    return len(b) >= 2 and b[0] == '"' and b[-1] == '"' and '"' not in b[1:-1]


def check(s):
    want = ['*'] if s.strip() == '*' else [e.strip() for e in s.split(',') if ok(e.strip())]
    got = parse_etags(s)
    if list(got) != want:
        return 'parse_etags(%r) is %r instead of %r' % (s, got, want)
    for e in s.split(',') + [s]:
        q = quote_etag(e)
        if q != (e if ok(e) else '"%s"' % e):
            return 'quote_etag(%r) is %r' % (e, q)
        if '"' not in e and (quote_etag(q) != q or parse_etags(q) != [q]) and ',' not in e and q.strip() == q:
            return 'quote_etag(%r) is %r and not stable' % (e, q)
    return None
