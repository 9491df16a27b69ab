from oracles import util
from oracles.util import *
from request_parser.utils.datastructures import LazyStream, ChunkIter
from request_parser.exceptions.exceptions import SuspiciousMultipartForm, InputStreamExhausted

RULE = ('a producer delivering random bytes in random chunks, 1-60 operations read(n)/read()/next()/unget/tell/iterate; '
        'non-trivial when at least one read and one unget happen')


def gen(rng):
    data = rstr(rng, 'ab\r\n-', 0, 60)
    chunks = split_chunks(rng, data)
    if chance(rng, 0.15):
        chunks.insert(rng.randint(0, len(chunks)), '')
    ops = []
    n = rng.choice((3, 8, 20))
    stuck = chance(rng, 0.15)
    for i in range(n):
        r = rng.random()
        if r < 0.35:
            ops.append(('read', rint(rng, 0, 20)))
        elif r < 0.42:
            ops.append(('readall',))
        elif r < 0.6:
            ops.append(('next',))
        elif r < 0.85:
            ops.append(('back', rint(rng, 0, 10)))
        elif r < 0.93:
            ops.append(('unget', rstr(rng, 'xyz', 0, 6)))
        else:
            ops.append(('tell',))
    if stuck:
        k = rng.randint(1, 4)
        ops += [('unget', 'x' * k)] * rng.choice((30, 45, 60)) if chance(rng, 0.5) else \
            [('next',), ('back', k)] * rng.choice((30, 45, 60))
    if chance(rng, 0.3):
        ops.append(('join',))
    length = rng.choice((None, None, None, 0, 3, 10, 100))
    kind = rng.choice(('chunks', 'chunks', 'chunkiter'))
    return (chunks, kind, rint(rng, 1, 12), length, ops)


def fixed():
    yield (['abcdef'], 'chunks', 4, None, [('unget', 'zz')] * 60)
    yield (['abcdef'], 'chunks', 4, None, [('readall',), ('readall',)])


def nontrivial(c):
    names = [o[0] for o in c[4]]
    return 'back' in names and ('read' in names or 'next' in names)


def check(case):
    chunks, kind, size, length, ops = case
    model = ''.join(chunks)
    if kind == 'chunkiter':
        stream = LazyStream(ChunkIter(Chunky(chunks), size), length)
    else:
        stream = LazyStream(Chunks(chunks), length)
    pos = 0
    last = ''
    sizes = []
    streak = 0      # consecutive put-backs of one size with no byte taken from the producer in between
    for op in ops:
        if op[0] != 'unget' or not op[1]:
            streak = 0
        if op[0] == 'read':
            want = model[:op[1]]
            sizes.append(None)      # read() puts back what it got too much
            try:
                got = stream.read(op[1])
            except SuspiciousMultipartForm:
                if len(sizes) <= 40:
                    return 'read refused after %r' % (sizes,)
                return None
            if got != want:
                return '%r: read %r instead of %r' % (op, got, want)
            model, pos, last = model[len(got):], pos + len(got), got
        elif op[0] == 'readall':
            want = model if length is None else model[:length]
            sizes.append(None)
            got = stream.read()
            if got != want:
                return '%r: read %r instead of %r' % (op, got, want)
            model, pos, last = model[len(got):], pos + len(got), got
        elif op[0] in ('next', 'join'):
            try:
                got = stream.next() if op[0] == 'next' else ''.join(stream)
            except StopIteration:
                got = None
                if model:
                    return 'StopIteration with %r left' % model
            if got is not None:
                if not model.startswith(got) or (op[0] == 'join' and got != model):
                    return '%r gave %r of %r' % (op, got, model)
                model, pos, last = model[len(got):], pos + len(got), got
        elif op[0] in ('back', 'unget'):
            b = (last[len(last) - op[1]:] if op[1] <= len(last) else last) if op[0] == 'back' else op[1]
            try:
                stream.unget(b)
            except SuspiciousMultipartForm:
                h = sizes[-49:] + [len(b)]
                if h.count(len(b)) + h.count(None) <= 40:
                    return 'unget of %d bytes refused after %r' % (len(b), sizes[-50:])
                sizes.append(len(b))
                return None
            if b:
                sizes.append(len(b))
                streak = streak + 1 if sizes[-2:-1] == [len(b)] else 1
                if streak > 40:
                    return 'putting back %d bytes over and over is not stopped' % len(b)
            model, pos = b + model, pos - len(b)
            if op[0] == 'back':
                last = last[:len(last) - len(b)]
        if stream.tell() != pos:
            return '%r: position %r instead of %r' % (op, stream.tell(), pos)
    rest = []
    for c in stream:
        rest.append(c)
    if ''.join(rest) != model:
        return 'at the end %r is left instead of %r' % (''.join(rest), model)
    return None

