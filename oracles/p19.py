from oracles import util
from oracles.util import *
from request_parser.utils.http import base36_to_int, int_to_base36

RULE = 'integers from -50 to beyond 36**13 and strings of 0-16 base-36 digits (some illegal); non-trivial with two or more digits'
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'


def gen(rng):
    k = rng.random()
    if k < 0.5:
        e = rng.choice((2, 4, 6, 13))
        return ('int', rng.choice((rng.randint(-50, 100), rng.randint(0, 36 ** e), 36 ** rng.randint(0, 14) + rng.randint(-1, 1), 2 ** 63 + rng.randint(-2, 2))))
    s = rstr(rng, DIG + 'AZ', 0, rng.choice((3, 14, 16)))
    if chance(rng, 0.1):
        s += rng.choice(('!', '_', 'z' * 13, '\xe9', '.'))
    return ('str', s)


def fixed():
    for i in range(-2, 80):
        yield ('int', i)
    for n in (12, 13, 14):
        yield ('str', 'z' * n)
        yield ('str', '0' * n)


def nontrivial(c):
    return len(str(c[1])) > 1


def check(case):
    kind, x = case
    if kind == 'int':
        if x < 0:
            try:
                return 'int_to_base36(%d) is %r' % (x, int_to_base36(x))
            except ValueError:
                return None
        s = int_to_base36(x)
        n = 0
        for c in s:
            if c not in DIG:
                return 'int_to_base36(%d) is %r' % (x, s)
            n = n * 36 + DIG.index(c)
        if n != x or (s.startswith('0') and s != '0') or not s:
            return 'int_to_base36(%d) is %r' % (x, s)
        if len(s) <= 13 and base36_to_int(s) != x:
            return 'base36_to_int(%r) is %r' % (s, base36_to_int(s))
        if len(s) <= 13:
            return None
        x = s
    digits = x.lower()
    valid = digits and all(c in DIG for c in digits) and len(x) <= 13
    try:
        got = base36_to_int(x)
    except ValueError:
        return 'base36_to_int(%r) refused' % x if valid else None
    if not valid:
        return 'base36_to_int(%r) accepted as %r' % (x, got)
    n = 0
    for c in digits:
        n = n * 36 + DIG.index(c)
    return None if n == got else 'base36_to_int(%r) is %r' % (x, got)
