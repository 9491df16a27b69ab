from oracles import util, mp
from oracles.util import *
from io import BytesIO
from request_parser.http.request import HttpRequest, QueryDict
from request_parser.utils.datastructures import ImmutableList, ImmutableMultiValueDict, MultiValueDict

RULE = ('an immutable QueryDict, ImmutableMultiValueDict, ImmutableList or the GET/POST/headers of a parsed request, with random content, and one mutating call with random '
        'arguments; non-trivial when the object is not empty')
KINDS = ('qd', 'qd', 'imv', 'imv', 'list', 'get', 'post', 'mppost', 'otherpost', 'headers', 'fromkeys')
OPS = ('set', 'del', 'setlist', 'append', 'pop', 'popd', 'popitem', 'clear', 'setdefault', 'setlistdefault', 'update', 'updatemv', 'updatekw')
LOPS = ('__setitem__', '__delitem__', 'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', '__iadd__', '__imul__', '__setslice__', '__delslice__',
        'stmt_set', 'stmt_del', 'stmt_iadd', 'stmt_imul', 'stmt_slice', 'stmt_delslice')


def gen(rng):
    kind = rng.choice(KINDS)
    pairs = [(rstr(rng, 'abc', 1, 2), rstr(rng, 'xyz', 0, 3)) for i in range(rng.choice((0, 1, 2, 4)))]
    if kind == 'list':
        return (kind, [p[1] for p in pairs], rng.choice(LOPS), rng.choice(('a', 'x', '')), rng.choice((None, 'w1', 'exc')))
    return (kind, pairs, rng.choice(OPS), rng.choice([p[0] for p in pairs] + ['a', 'zz']), rng.choice(('x', None, '')))


def fixed():
    for op in LOPS:
        yield ('list', ['a', 'b'], op, 'a', None)
        yield ('list', [], op, 'a', 'exc')
    for kind in sorted(set(KINDS)):
        if kind != 'list':
            for op in OPS:
                yield (kind, [('a', '1'), ('b', '2'), ('a', '3')], op, 'a', 'x')
                yield (kind, [('a', '1'), ('b', '2'), ('a', '3')], op, 'new', None)


def nontrivial(c):
    return bool(c[1])


def build(kind, pairs):
    qs = '&'.join('%s=%s' % p for p in pairs)
    if kind == 'qd':
        return QueryDict(mp.limits(), qs)
    if kind == 'fromkeys':
        return QueryDict.fromkeys([p[0] for p in pairs], value='v')
    if kind == 'imv':
        d = {}
        for k, v in pairs:
            d.setdefault(k, []).append(v)
        return ImmutableMultiValueDict(d)
    if kind == 'get':
        r = HttpRequest(BytesIO('GET /?%s HTTP/1.1\r\nHost: h\r\nX: y\r\n\r\n' % (qs or 'q=1')), mp.limits())
        r.parse_request_header()
        return r.GET
    if kind == 'headers':
        r = HttpRequest(BytesIO('GET / HTTP/1.1\r\nHost: h\r\nX: y\r\n%s\r\n' % ''.join('%s: %s\r\n' % p for p in pairs)), mp.limits())
        r.parse_request_header()
        return r.META['REQUEST_HEADERS']
    if kind == 'mppost':
        r = mp.request('BB', mp.encode('BB', [('field', k, None, None, None, v, 0) for k, v in pairs]), mp.limits())
    else:
        ctype = 'application/x-www-form-urlencoded' if kind == 'post' else 'text/plain'
        r = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\n\r\n%s' % (ctype, qs or 'q=1')), mp.limits())
    r.parse()
    return r.POST


def act(d, op, k, v):
    if op == 'set':
        d[k] = v
    elif op == 'del':
        del d[k]
    elif op == 'setlist':
        d.setlist(k, [v])
    elif op == 'append':
        d.appendlist(k, v)
    elif op == 'pop':
        d.pop(k)
    elif op == 'popd':
        d.pop(k, None)
    elif op == 'popitem':
        d.popitem()
    elif op == 'clear':
        d.clear()
    elif op == 'setdefault':
        d.setdefault(k, v)
    elif op == 'setlistdefault':
        d.setlistdefault(k, [v]).append('q')
    elif op == 'update':
        d.update({k: v})
    elif op == 'updatemv':
        d.update(MultiValueDict({k: [v, v]}))
    elif op == 'updatekw':
        d.update(**{k: v})


def show(d):
    return dict((k, d.getlist(k)) for k in d)


def lact(l, op, x):
    if op in ('append', 'remove'):
        getattr(l, op)(x)
    elif op in ('extend', '__iadd__'):
        getattr(l, op)([x])
    elif op == '__imul__':
        l.__imul__(2)
    elif op == 'insert':
        l.insert(0, x)
    elif op == '__setitem__':
        l.__setitem__(0, x)
    elif op == '__delitem__':
        l.__delitem__(0)
    elif op == '__setslice__':
        l.__setslice__(0, 1, [x])
    elif op == '__delslice__':
        l.__delslice__(0, 1)
    elif op == 'stmt_set':
        l[0] = x
    elif op == 'stmt_del':
        del l[0]
    elif op == 'stmt_iadd':
        l += [x]
    elif op == 'stmt_imul':
        l *= 2
    elif op == 'stmt_slice':
        l[0:1] = [x]
    elif op == 'stmt_delslice':
        del l[0:1]
    else:
        getattr(l, op)()


def check(case):
    kind, content, op, x, y = case
    if kind == 'list':
        warning = {'exc': KeyError('mine')}.get(y, y)
        l = ImmutableList(content) if y is None else ImmutableList(content, warning=warning)
        try:
            lact(l, op, x)
        except KeyError as e:
            if y != 'exc' or e is not warning:
                return 'KeyError'
        except AttributeError as e:
            if y == 'exc':
                return 'the given exception was not raised'
            if str(e) != (y or 'ImmutableList object is immutable.'):
                return 'message %r' % str(e)
        else:
            return '%s is accepted' % op
        return None if list(l) == content else 'the list became %r' % (l,)
    d = build(kind, content)
    before = show(d)
    try:
        act(d, op, x, y)
    except AttributeError as e:
        if 'immutable' not in str(e):
            return '%s: %s' % (op, e)
    else:
        return '%s is accepted by an immutable %s: %r' % (op, type(d).__name__, show(d))
    if show(d) != before:
        return '%s changed %r into %r' % (op, before, show(d))
    return None
