from oracles import util
from oracles.util import *
from oracles.p04 import model
import unicodedata
from request_parser.utils.http import is_safe_url, is_same_domain, escape_leading_slashes

RULE = ('redirect targets from slashes, backslashes, schemes, hosts, brackets, control characters and blanks against sets of allowed hosts; domain patterns with and without a leading dot; '
        'non-trivial when the target names a host or a scheme')
HOSTS = ('h.com', 'good.org', 'h.com:80', 'H.com', '[::1]')


def gen(rng):
    k = rng.random()
    if k < 0.55:
        u = rng.choice(('', '', 'http:', 'https:', 'HTTP:', 'ftp:', 'javascript:', 'x-y:', 'a_b:', 'http', ' http:', '\x08', '\t', '\x00http:')) + \
            rng.choice(('', '/', '//', '///', '\\', '\\\\', '/\\', '\\/', '//\\', '////')) + \
            rng.choice(HOSTS + ('evil.net', 'h.com@evil.net', 'evil.net\\@h.com', 'h.com.evil.net', 'user:pw@h.com', '', '[::1', 'h.com\\.evil.net')) + \
            rng.choice(('', '/', '/p', '?q', '#f', '/p?next=//evil.net', ':80', '\\p', ' '))
    else:
        u = rstr(rng, 'ahx:/\\.@?#[] \x08\t', 0, 10, pieces=('//', 'http:', 'h.com', '\\\\', 'https://'))
    if k < 0.8:
        hosts = rng.choice((None, ['h.com'], ['h.com', 'good.org'], [], 'h.com', u'h.com', ['[::1]'], ['h.com@evil.net'], ['']))
        return ('safe', u.decode('latin-1') if chance(rng, 0.3) else u, hosts, rng.choice((False, False, True)))
    if k < 0.93:
        d = rng.choice(('h.com', 'a.h.com', 'xh.com', 'com', '', '.h.com', 'b.a.h.com', 'h.com.', rstr(rng, 'ah.', 0, 5)))
        p = rng.choice(('h.com', '.h.com', 'H.com', '.H.Com', '.', '', None, '.com', '*.h.com', rstr(rng, 'ah.AH', 0, 5)))
        return ('domain', d, p)
    return ('escape', u)


def nontrivial(c):
    return c[0] == 'domain' or any(x in c[1] for x in ('//', ':', '\\'))


def one(url, hosts, https):
    if url.startswith('///'):
        return False
    m = model(url)
    if m is None:
        return False
    scheme, netloc = m[0], m[1]
    if scheme and not netloc:
        return False
    if unicodedata.category(unichr(ord(url[0])))[0] == 'C':
        return False
    if netloc and not scheme:
        scheme = 'http'
    if netloc and netloc not in hosts:
        return False
    return not scheme or scheme == 'https' or (scheme == 'http' and not https)


def check(case):
    if case[0] == 'safe':
        url, hosts, https = case[1:]
        hs = set() if hosts is None else set([hosts]) if isinstance(hosts, (str, unicode)) else set(hosts)
        u = url.strip()
        want = bool(u) and one(u, hs, https) and one(u.replace('\\', '/'), hs, https)
        arg = hosts if not isinstance(hosts, list) else hs if len(url) % 2 else hosts
        got = is_safe_url(url, arg, require_https=https) if https else is_safe_url(url, arg)
        return None if bool(got) == want else 'is_safe_url(%r, %r, %r) is %r' % (url, hosts, https, got)
    if case[0] == 'domain':
        host, pattern = case[1:]
        p = (pattern or '').lower()
        want = bool(p) and (host == p or (p.startswith('.') and (host == p[1:] or host.endswith(p))))
        got = is_same_domain(host, pattern)
        return None if bool(got) == want else 'is_same_domain(%r, %r) is %r' % (host, pattern, got)
    url = case[1]
    got = escape_leading_slashes(url)
    want = '/%2F' + url[2:] if url[:2] == '//' else url
    if got != want or got.startswith('//'):
        return 'escape_leading_slashes(%r) is %r' % (url, got)
    return None
