from oracles import util
from oracles.util import *
from request_parser.utils.http import urlsafe_base64_encode, urlsafe_base64_decode

RULE = 'byte strings of 0-40 bytes over all byte values, and damaged encodings; non-trivial when a padding would be needed'
ALPHA = ALNUM + '-_'


def gen(rng):
    if chance(rng, 0.75):
        return ('enc', rstr(rng, BYTES, 0, rng.choice((3, 9, 40))) if chance(rng, 0.5) else rstr(rng, '\xfb\xff\xfe\x3e\x3f', 0, 9))
    return ('dec', rstr(rng, ALPHA, 0, 9) + rng.choice(('', '=', '==', '===', 'A')))


def fixed():
    for n in range(0, 10):
        yield ('enc', '\xff' * n)
        yield ('enc', '\x00' * n)
        yield ('dec', 'A' * n)


def nontrivial(c):
    return len(c[1]) % 3 != 0


def check(case):
    kind, b = case
    if kind == 'enc':
        e = urlsafe_base64_encode(b)
        if any(c not in ALPHA for c in e):
            return 'encoded as %r' % e
        if len(e) != (len(b) * 8 + 5) // 6:
            return '%d bytes encoded as %d characters' % (len(b), len(e))
        n = 0
        for c in e:
            n = n * 64 + (ALNUM.swapcase() + '-_').index(c) if False else n * 64 + 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'.index(c)
        m = 0
        for c in b:
            m = m * 256 + ord(c)
        pad = len(e) * 6 - len(b) * 8
        if n != m << pad:
            return '%r encoded as %r' % (b, e)
        for form in (e, e.encode('ascii'), e + '=' * (-len(e) % 4)):
            d = urlsafe_base64_decode(form)
            if d != b:
                return '%r decoded as %r instead of %r' % (form, d, b)
        return None
    try:
        got = urlsafe_base64_decode(b)
    except ValueError:
        core = b.rstrip('=')
        return None if len(core) % 4 == 1 or '=' in b else '%r refused' % b
    if len(b.rstrip('=')) % 4 == 1 and '=' not in b:
        return '%r accepted as %r' % (b, got)
    return None
