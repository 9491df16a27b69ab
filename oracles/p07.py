from oracles import util, mp
from oracles.util import *

RULE = ('multipart/form-data bodies of 0-8 parts (fields, files, unnamed and headerless parts, repeated names, base64 parts, payloads with CR/LF and near-boundaries), '
        'read in random chunks by MultiPartParser or HttpRequest; non-trivial with two or more named parts')


def gen(rng):
    b = mp.gen_boundary(rng)
    names = [rstr(rng, mp.NAMECH + '";\\', 1, 6) for i in range(3)]
    names = [n if n.strip() == n and n else 'n' for n in names]
    kinds = rng.choice((('field',), ('field', 'file'), ('file',), ('field', 'file', 'noname', 'raw')))
    parts = [mp.gen_part(rng, b, names, kinds, chance(rng, 0.15)) for i in range(rng.choice((0, 1, 2, 3, 5, 8)))]
    pre = rng.choice(('', '', '', '\r\n', 'preamble\r\n'))
    return (b, parts, pre, rng.choice((None, 1, 2, 5, 16, 64, 1000)), rng.choice(('parser', 'request', 'chunked')), rng.choice((True, True, True, False)),
            rng.choice((0, 10, 100, 10 ** 6)))


def fixed():
    p = ('field', 'a', None, None, None, 'x', 0)
    q = ('file', 'f', 'g.txt', 'text/plain', None, 'y' * 100000, 0)
    yield ('AaB03x', [p, q, p], '', None, 'request', True, 100)
    yield ('AaB03x', [q, q, p], '', None, 'request', True, 10 ** 6)


def nontrivial(c):
    return len([p for p in c[1] if p[0] in ('field', 'file')]) > 1


def check(case):
    b, parts, pre, chunk, how, closing, inmem = case
    if not mp.sane(b, parts) or '--' + b in pre or b.endswith(' '):
        raise util.Skip()
    body = mp.encode(b, parts, pre, closing)
    if not closing:
        if parts and parts[-1][4] == 'base64':
            raise util.Skip()
        if parts and parts[-1][0] == 'file':
            parts = parts[:-1]      # a file that does not end is not complete
        elif parts and parts[-1][0] == 'field':
            parts = parts[:-1] + [parts[-1][:5] + (parts[-1][5] + '\r\n',) + parts[-1][6:]]
    fields, files = mp.textual(mp.expected(parts))
    settings = mp.limits(file_limit=inmem)
    import random
    cut = split_chunks(random.Random(len(body)), body, chunk)
    if how == 'request':
        r = mp.request(b, body, settings)
        r.parse()
        post, got_files = r.POST, r.FILES
    elif how == 'chunked':
        r = mp.request(b, body, settings, cut)
        r.parse()
        post, got_files = r.POST, r.FILES
    else:
        post, got_files = mp.parse(b, body, settings, mp.convenient(1, chunk), cut)
    got = mp.show_fields(post)
    try:
        if got != fields:
            return 'fields %r instead of %r' % (got, fields)
        got = mp.show_files(got_files)
        if got != files:
            return 'files %s instead of %s' % (repr(got)[:600], repr(files)[:600])
    finally:
        mp.close(got_files)
    return None
