import copy
import pickle
from oracles import util, mp
from oracles.util import *
from oracles import p13
from request_parser.http.request import QueryDict
from request_parser.utils.datastructures import ImmutableMultiValueDict, MultiValueDict

RULE = ('a MultiValueDict, ImmutableMultiValueDict or QueryDict with nested values, copied with copy(), copy.copy, copy.deepcopy or pickle, then the copy or the original changed; '
        'non-trivial when it has at least one list of values')


def gen(rng):
    d = {}
    for i in range(rng.choice((0, 1, 2, 3))):
        d[rstr(rng, 'abc', 1, 2)] = [rng.choice(('x', '', 1, ['n', ['m']], None)) for j in range(rng.choice((0, 1, 2, 3)))]
    how = rng.choice(('copy', 'method', 'deepcopy', 'pickle0', 'pickle1', 'pickle2'))
    kind = rng.choice(('mv', 'imv', 'qd', 'qdm'))
    if kind != 'mv' and how.startswith('pickle'):
        how = 'method'
    return (kind, d, how, rng.choice(p13.OPS + ('inner',)), rng.choice(sorted(d) + ['a']), rng.choice(('copy', 'original')), rng.choice(('utf-8', 'latin-1', None)))


def nontrivial(c):
    return any(c[1].values())


def build(kind, d, cs):
    d = copy.deepcopy(d)
    if kind == 'mv':
        return MultiValueDict(d)
    if kind == 'imv':
        return ImmutableMultiValueDict(d)
    q = QueryDict(mp.limits(), mutable=True, encoding=cs)
    for k in d:
        q.setlist(k, d[k])
    q._mutable = kind == 'qdm'
    return q


def raw(d):
    return dict((k, dict.__getitem__(d, k)) for k in dict.keys(d))


def check(case):
    kind, content, how, op, key, target, cs = case
    d = build(kind, content, cs)
    if how == 'copy':
        e = copy.copy(d)
    elif how == 'method':
        e = d.copy()
    elif how == 'deepcopy':
        e = copy.deepcopy(d)
    else:
        e = pickle.loads(pickle.dumps(d, int(how[-1])))
    if type(e) is not type(d):
        return '%s gives a %s' % (how, type(e).__name__)
    if raw(e) != raw(d) or raw(d) != content:
        return '%s of %r is %r' % (how, d, e)
    if kind.startswith('qd'):
        if e.encoding != d.encoding or not e._mutable or d._mutable != (kind == 'qdm'):
            return '%s: encoding %r mutable %r (original %r)' % (how, e.encoding, e._mutable, d._mutable)
    for k in raw(d):
        if raw(d)[k] is raw(e)[k]:
            return '%s shares the list of %r' % (how, k)
    deep = how != 'copy' and not (how == 'method' and not kind.startswith('qd'))
    changed, kept = (e, d) if target == 'copy' else (d, e)
    if op == 'inner':
        for k in raw(changed):
            for v in raw(changed)[k]:
                if isinstance(v, list):
                    v.append('in')
        if deep and raw(kept) != content:
            return 'a value changed inside the %s shows in the other: %r' % (target, kept)
        if not deep and raw(kept) != raw(changed):
            return 'a shallow copy does not share its values'
        return None
    try:
        p13.act(changed, op, key, 'new')
    except (KeyError, AttributeError):
        pass
    if raw(kept) != content:
        return '%s on the %s changes the other into %r' % (op, target, kept)
    return None
