from oracles import util, mp
from oracles.util import *
from request_parser.files import uploadhandler as uh
from request_parser.files.uploadedfile import InMemoryUploadedFile, TemporaryUploadedFile

RULE = ('1-4 files in random chunks through one ConvenientFileUploadHandler (directly or from a multipart body) with a memory limit near the sizes; '
        'non-trivial when the total is within one chunk of the limit')


def gen(rng):
    files = []
    for i in range(rng.choice((1, 1, 2, 4))):
        files.append((rstr(rng, 'ab.', 1, 5), [rstr(rng, 'xy\x00\r\n', 1, rng.choice((3, 8))) for j in range(rng.choice((0, 1, 2, 4)))]))
    total = sum(len(''.join(c)) for n, c in files)
    limit = max(0, rng.choice((total, total - 1, total + 1, rint(rng, 0, max(1, total + 3)), 0)))
    return (files, limit, rng.choice(('direct', 'direct', 'parser', 'request')), rng.choice((1, 3, 16, 64)))


def fixed():
    yield ([('a', ['x' * 100000]), ('b', ['y' * 100000])], 100000, 'request', 64)
    yield ([('a', ['x' * 100000]), ('b', ['y' * 100000])], 200000, 'request', 64)


def nontrivial(c):
    total = sum(len(''.join(x)) for n, x in c[0])
    return total > 0 and abs(total - c[1]) < 8


def check(case):
    files, limit, how, chunk = case
    s = mp.limits(file_limit=limit)
    if how == 'direct':
        h = uh.ConvenientFileUploadHandler(None)
        h.handle_raw_input(None, {}, 999, 'BB', s)
        got = []
        total, switched = 0, False
        for name, chunks in files:
            try:
                h.new_file('fld', name, 'c/t', 5, 'cs', {'k': 'v'}, 'te')
            except uh.StopFutureHandlers:
                pass
            pos = 0
            for c in chunks:
                h.receive_data_chunk(c, pos)
                pos += len(c)
                total += len(c)
                if total > limit:
                    switched = True
            f = h.file_complete(pos)
            got.append((f, switched, ''.join(chunks), name))
        h.upload_complete()
    else:
        parts = [('file', 'f%d' % i, n, None, None, ''.join(c), 0) for i, (n, c) in enumerate(files)]
        if not mp.sane('BB', parts) or any(not n.strip() for n, c in files):
            raise util.Skip()
        body = mp.encode('BB', parts)
        if how == 'parser':
            post, fs = mp.parse('BB', body, s, mp.convenient(1, chunk))
        else:
            r = mp.request('BB', body, s)
            r.parse()
            fs = r.FILES
        got = []
        total, switched = 0, False
        for i, (n, c) in enumerate(files):
            total += len(''.join(c))
            switched = total > limit
            if 'f%d' % i not in fs:
                return 'file %d is missing' % i
            got.append((fs['f%d' % i], switched, ''.join(c), n))
    held = 0
    for f, switched, content, name in got:
        f.seek(0)
        data = f.read()
        if data != content or f.size != len(content):
            return 'content %r (size %r) instead of %r' % (data[:200], f.size, content[:200])
        if how == 'direct' and (f.name, f.content_type, f.charset, f.content_type_extra, f.transfer_encoding) != (name, 'c/t', 'cs', {'k': 'v'}, 'te'):
            return 'metadata %r' % ((f.name, f.content_type, f.charset, f.content_type_extra, f.transfer_encoding),)
        if isinstance(f, TemporaryUploadedFile) != switched:
            return 'a file is %s though %s the limit' % (type(f).__name__, 'beyond' if switched else 'within')
        if isinstance(f, InMemoryUploadedFile):
            held += len(content)
    for f, _, _, _ in got:
        f.close()
    if held > limit:
        return '%d bytes in memory, limit %d' % (held, limit)
    return None
