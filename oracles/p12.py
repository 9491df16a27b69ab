from oracles import util, mp
from oracles.util import *
from request_parser.utils.datastructures import MultiValueDict, MultiValueDictKeyError, ImmutableMultiValueDict
from request_parser.http.request import QueryDict

RULE = ('1-25 operations on a MultiValueDict or a mutable QueryDict (set, setlist, append, setdefault, setlistdefault, update, pop, popitem, delete, clear, get, iterate) '
        'against an independent model; non-trivial with three or more mutations')

KEYS = ('a', 'b', 'c', '\xe9')


def gen(rng):
    ops = []
    for i in range(rng.choice((2, 6, 12, 25))):
        k = rng.choice(KEYS)
        v = rng.choice(('x', 'y', '', None, 1, 'z\xe9'))
        l = [rng.choice(('x', 'y', 2)) for i in range(rng.choice((0, 1, 2, 3)))]
        op = rng.choice(('set', 'set', 'setlist', 'append', 'append', 'append', 'setdefault', 'setlistdefault', 'update', 'updatekw', 'updatemv', 'pop', 'popd', 'popitem',
                         'del', 'clear', 'get', 'getlist', 'alias', 'setlist1', 'getdefault', 'updateboth', 'init', 'aliaslist'))
        if op == 'clear' and chance(rng, 0.7):
            op = 'append'
        ops.append((op, k, v, l))
    return (rng.choice(('mv', 'mv', 'qd')), ops)


def nontrivial(c):
    return len([o for o in c[1] if o[0] not in ('get', 'getlist')]) > 2


def show(d):
    return dict((k, list(dict.__getitem__(d, k))) for k in dict.keys(d))


def conv(kind, x):
    return x.decode('latin-1') if kind == 'qd' and isinstance(x, str) else x


def check(case):
    kind, ops = case
    d = MultiValueDict() if kind == 'mv' else QueryDict(mp.limits(), mutable=True, encoding='latin-1')
    m = {}
    for n, (op, key, v, l) in enumerate(ops):
        k = conv(kind, key)
        cv, cl = conv(kind, v), [conv(kind, x) for x in l]
        # setlistdefault/update go straight to the lists in QueryDict as well: values are not converted there
        try:
            msg = step(kind, d, m, op, k, key, v, cv, l, cl)
        except Exception as e:
            import traceback
            return 'step %d %r: %s\n%s' % (n, (op, key, v, l), e, traceback.format_exc())
        if msg:
            return 'step %d %r: %s' % (n, (op, key, v, l), msg)
        if show(d) != m:
            return 'step %d %r: %r instead of %r' % (n, (op, key, v, l), show(d), m)
    return observe(d, m)


def observe(d, m):
    last = dict((k, m[k][-1] if m[k] else []) for k in m)
    if dict(d.lists()) != m or len(list(d.lists())) != len(m):
        return 'lists() gives %r of %r' % (list(d.lists()), m)
    if dict(d.items()) != last or len(list(d.items())) != len(m):
        return 'items() gives %r of %r' % (list(d.items()), m)
    if list(d.values()) != [last[k] for k in d]:
        return 'values() gives %r of %r' % (list(d.values()), m)
    if d.dict() != last:
        return 'dict() gives %r of %r' % (d.dict(), m)
    if sorted(d) != sorted(m) or len(d) != len(m):
        return 'keys %r of %r' % (list(d), m)
    return None


def eq(what, got, want):
    return None if got == want and type(got) == type(want) else '%s gave %r instead of %r' % (what, got, want)


def step(kind, d, m, op, k, key, v, cv, l, cl):
    if op == 'set':
        d[key] = v
        m[k] = [cv]
    elif op == 'setlist':
        src = list(l)
        d.setlist(key, src)
        src.append('later')
        m[k] = list(cl)
    elif op == 'setlist1':
        if kind == 'mv':
            d.setlist(key, v)
            m[k] = [] if v is None else [v]
    elif op == 'append':
        d.appendlist(key, v)
        m.setdefault(k, []).append(cv)
    elif op == 'setdefault':
        got = d.setdefault(key, v)
        if k not in m:
            m[k] = [cv]
        return eq('setdefault', got, m[k][-1] if m[k] else [])
    elif op == 'setlistdefault':
        if kind == 'qd' and key != k and any(ord(c) > 127 for c in key):
            key = k
        got = d.setlistdefault(key, list(l))
        if k not in m:
            m[k] = list(cl)
        return eq('setlistdefault', list(got), m[k])
    elif op == 'update':
        if kind == 'qd':
            key, v = k, cv
        d.update({key: v})
        m.setdefault(k, []).append(cv)
    elif op == 'updatekw':
        if key == '\xe9':
            return None
        if kind == 'qd':
            v = cv
        d.update(**{key: v})
        m.setdefault(k, []).append(cv)
    elif op == 'updateboth':
        if kind == 'qd':
            key, v, l = k, cv, cl
        d.update(MultiValueDict({key: list(l)}), a=v)
        m.setdefault(k, []).extend(cl)
        m.setdefault(conv(kind, 'a'), []).append(cv)
    elif op == 'updatemv':
        if kind == 'qd':
            key, l = k, cl
        other = {key: list(l)}
        if k != 'b':
            other['b'] = ['q']
        d.update(MultiValueDict(other))
        m.setdefault(k, []).extend(cl)
        if k != 'b':
            m.setdefault('b', []).append('q')
    elif op in ('pop', 'popd'):
        if op == 'popd':
            got = d.pop(k, 'none')
            return eq('pop', got, m.pop(k, 'none'))
        try:
            got = d.pop(k)
        except KeyError:
            return 'KeyError' if k in m else None
        if k not in m:
            return 'popped a missing key'
        return eq('pop', got, m.pop(k))
    elif op == 'popitem':
        if not m:
            return None
        a, b = d.popitem()
        if a not in m:
            return 'popitem gave %r' % (a,)
        return eq('popitem', b, m.pop(a))
    elif op == 'del':
        try:
            del d[k]
        except KeyError:
            return 'KeyError' if k in m else None
        if k not in m:
            return 'deleted a missing key'
        del m[k]
    elif op == 'clear':
        d.clear()
        m.clear()
    elif op == 'get':
        try:
            got = d[k]
        except MultiValueDictKeyError:
            return 'MultiValueDictKeyError' if k in m else None
        if k not in m:
            return 'a missing key gave %r' % (got,)
        return eq('d[k]', got, m[k][-1] if m[k] else [])
    elif op == 'getdefault':
        got = d.get(k, 'dflt')
        return eq('get', got, m[k][-1] if m.get(k) else 'dflt') or eq('get', d.get(k), m[k][-1] if m.get(k) else None)
    elif op == 'getlist':
        return eq('getlist', d.getlist(k), m.get(k, [])) or eq('getlist', d.getlist(k, ['dflt']), m.get(k, ['dflt']))
    elif op == 'alias':
        got = d.getlist(k)
        got.append('alias')
    elif op == 'aliaslist':
        if kind == 'mv' and k in m:
            d.setlistdefault(k).append('through')
            m[k].append('through')
    elif op == 'init' and kind == 'mv':
        e = MultiValueDict(dict((a, list(b)) for a, b in m.items()))
        if show(e) != m:
            return 'built from lists: %r' % e
        if not (e == d):
            return 'equal lists, unequal dictionaries'
    return None
