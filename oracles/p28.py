from oracles import util
from oracles.util import *
from request_parser.utils.datastructures import MultiValueDict
from request_parser.utils.http import urlencode, limited_parse_qsl, urlquote, urlquote_plus, urlunquote, urlunquote_plus

RULE = ('mappings, MultiValueDicts and pair lists of text, bytes, numbers, lists, tuples and generators (also None), encoded with and without doseq; '
        'non-trivial with a list value or a reserved character')


def gen(rng):
    pairs = []
    for i in range(rng.choice((0, 1, 2, 3))):
        k = rstr(rng, 'ab&=+ %/\xe9', 1, 4)
        v = rng.choice(('s', 'u', 'i', 'f', 'l', 't', 'g', 'l', 'none', 'lnone'))
        if v == 'none' and chance(rng, 0.7):
            v = 's'
        if v == 'lnone' and chance(rng, 0.7):
            v = 'l'
        items = [rng.choice(('x', 1, u'y', 'a&b', 2.5, u'\xe9', '\xff', '')) for j in range(rng.choice((0, 1, 2, 3)))]
        pairs.append((k, v, rstr(rng, 'xyz&=+ %/?\xe9', 0, 6), items))
    return (pairs, rng.choice(('dict', 'pairs', 'mv')), rng.choice((True, True, False)))


def nontrivial(c):
    return any(v in ('l', 't', 'g') or set(s) & set('&=+ %/?\xe9') for k, v, s, i in c[0])


UNRES = set(ALNUM + '_.-')


def qp(x):
    s = x.encode('utf-8') if isinstance(x, unicode) else x if isinstance(x, str) else str(x)
    return ''.join(c if c in UNRES else '+' if c == ' ' else '%%%02X' % ord(c) for c in s)


def check(case):
    pairs, how, doseq = case
    if how != 'pairs':
        seen = set()
        for k, v, s, items in pairs:
            if k in seen:
                raise util.Skip()
            seen.add(k)
    def value(v, s, items):
        if v == 's':
            return s
        if v == 'u':
            return s.decode('latin-1')
        if v == 'i':
            return len(s)
        if v == 'f':
            return len(s) + 0.5
        if v == 'none':
            return None
        if v == 'lnone':
            return items + [None]
        if v == 't':
            return tuple(items)
        if v == 'g':
            return (x for x in items) if doseq else items
        return items
    if how == 'mv':
        arg = MultiValueDict(dict((k, [x for x in (items if v != 'lnone' else items + [None])]) for k, v, s, items in pairs))
        wanted = [(k, arg.getlist(k)) for k in arg]
    else:
        lst = [(k, value(v, s, items)) for k, v, s, items in pairs]
        arg = dict(lst) if how == 'dict' else lst
        wanted = [(k, value(v, s, items)) for k, v, s, items in pairs]
        if how == 'dict':
            wanted = [(k, dict(wanted)[k]) for k in dict(wanted)]
    bad = any(v is None or (isinstance(v, (list, tuple)) and None in v) for k, v in wanted)
    if not doseq and any(isinstance(v, (list, tuple)) and any(isinstance(x, unicode) for x in v) for k, v in wanted):
        raise util.Skip()
    try:
        got = urlencode(arg, doseq)
    except TypeError as e:
        return None if bad else 'refused: %s' % e
    if bad:
        return 'None encoded as %r' % got
    out = []
    for k, v in wanted:
        if isinstance(v, (str, unicode)) or not hasattr(v, '__iter__'):
            out.append(qp(k) + '=' + qp(v))
        elif doseq:
            out.extend(qp(k) + '=' + qp(x) for x in v)
        else:
            out.append(qp(k) + '=' + qp(str([x if isinstance(x, str) else str(x) for x in v])))
    want = '&'.join(out)
    if got != want:
        return 'urlencode(%r, %r) is %r instead of %r' % (arg, doseq, got, want)
    for k, v, s, items in pairs:
        u = s.decode('latin-1')
        if urlquote_plus(u) != qp(u) or urlunquote_plus(urlquote_plus(u)) != u or urlunquote(urlquote(u)) != u or '/' in urlquote_plus(u):
            return 'quoting of %r: %r' % (u, urlquote_plus(u))
        if urlquote(u) != qp(u).replace('+', '%20').replace('%2F', '/'):
            return 'urlquote(%r) is %r' % (u, urlquote(u))
    return None
