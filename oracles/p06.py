from oracles import util
from oracles.util import *
from request_parser.http.multipartparser import BoundaryIter, InterBoundaryIter
from request_parser.utils.datastructures import LazyStream, ChunkIter

RULE = ('a body made of separators, near-separators, CR/LF runs and letters, delivered in random non-empty chunks, split by InterBoundaryIter, '
        'each part read whole, by pieces or by iteration; non-trivial with at least two separators')


def gen(rng):
    if chance(rng, 0.7):
        sep = '--' + rstr(rng, 'ab-', 1, rng.choice((1, 3, 8)))
    else:
        sep = rstr(rng, 'ab-', 1, rng.choice((1, 2, 5)))
    pieces = ('\r\n', '\n', '\r', sep, sep, '\r\n' + sep, sep[:-1], sep[1:], '\r\n' + sep[:-1], '--')
    size = rng.choice((5, 20, 60, 120))
    data = rstr(rng, 'ab-\r\nx', 0, size, pieces=tuple(p for p in pieces if p))
    if chance(rng, 0.1):
        data = sep.join(['x' * rng.choice((0, 1, 9)) for i in range(rng.choice((3, 30, 70)))])
    chunks = split_chunks(rng, data, rng.choice((None, None, 3, len(sep), len(sep) + 6, len(sep) + 7)))
    return (sep, chunks, [rng.randint(0, 3) for i in range(4)], rng.choice(('iter', 'file')), rint(rng, 1, 20))


def fixed():
    for i in range(1, 20):
        d = 'x\r\n--ab\r\nhello\r\n--ab--\r\n'
        yield ('--ab', [d[j:j + i] for j in range(0, len(d), i)], [0], 'iter', 8)


def nontrivial(c):
    return ''.join(c[1]).count(c[0]) > 1


def model(sep, data):
    pieces = data.split(sep)
    out = []
    for i, p in enumerate(pieces):
        if i < len(pieces) - 1:
            if p.endswith('\n'):
                p = p[:-1]
            if p.endswith('\r'):
                p = p[:-1]
            out.append(p)
        elif p:
            out.append(p)
    return out


def drain(part, mode):
    if mode == 0:
        return part.read()
    if mode == 1:
        return ''.join(part)
    out = []
    while True:
        c = part.read(1 if mode == 2 else 7)
        if not c:
            return ''.join(out)
        out.append(c)


def check(case):
    sep, chunks, modes, kind, size = case
    data = ''.join(chunks)
    stream = LazyStream(Chunks(chunks)) if kind == 'iter' else LazyStream(ChunkIter(Chunky(chunks), size))
    got = []
    for i, part in enumerate(InterBoundaryIter(stream, sep)):
        got.append(drain(part, modes[i % len(modes)]))
        if len(got) > len(data) + 2:
            return 'more parts than bytes'
    want = model(sep, data)
    if got != want:
        return '%r split by %r into %r instead of %r' % (data, sep, got, want)
    return None
