from io import BytesIO
from oracles import util
from oracles.util import *
from request_parser.files.base import File
from request_parser.files.uploadedfile import InMemoryUploadedFile, SimpleUploadedFile, UploadedFile

RULE = ('file contents with CR, LF and CRLF runs, read by chunks(n) and by line iteration with chunk boundaries everywhere, after the file was partly read; '
        'non-trivial when the content is longer than a chunk')


def gen(rng):
    data = rstr(rng, 'ab\r\n', 0, rng.choice((0, 5, 20, 60)), pieces=('\r\n', '\n', '\r', '\r\r\n'))
    return (data, rng.choice(('file', 'uploaded', 'memory', 'simple')), rint(rng, 1, 12), rint(rng, 0, 5), rng.choice(('chunks', 'lines', 'lines', 'default')))


def fixed():
    yield ('x' * 70000 + '\r\n' + 'y' * 70000, 'file', 1, 0, 'default')
    yield ('x' * 65535 + '\r\n' + 'y' * 70000, 'file', 1, 0, 'default')
    yield ('x' * 65536, 'uploaded', 1, 0, 'default')


def nontrivial(c):
    return len(c[0]) > c[2]


def lines_of(data):
    out, cur, i = [], '', 0
    while i < len(data):
        cur += data[i]
        if data[i] == '\n' or (data[i] == '\r' and data[i + 1:i + 2] != '\n'):
            out.append(cur)
            cur = ''
        i += 1
    return out + [cur] if cur else out


def check(case):
    data, kind, n, before, how = case
    f = {'file': lambda: File(BytesIO(data), 'n'), 'uploaded': lambda: UploadedFile(BytesIO(data), 'n', 'c', len(data)),
         'memory': lambda: InMemoryUploadedFile(BytesIO(data), None, 'n', 'c', len(data), None), 'simple': lambda: SimpleUploadedFile('n', data)}[kind]()
    f.read(before)
    whole = kind in ('memory', 'simple')
    if how == 'lines':
        f.DEFAULT_CHUNK_SIZE = n
        got = list(f)
        want = lines_of(data)
        return None if got == want else '%r in chunks of %d: lines %r instead of %r' % (data, n, got, want)
    size = n
    if how == 'default':
        size = 65536
        got = list(f.chunks())
    else:
        got = list(f.chunks(n))
    if ''.join(got) != data:
        return 'chunks(%d) of %r are %r' % (size, data[:100], repr(got)[:200])
    if not whole:
        if any(len(c) > size for c in got) or any(len(c) != size for c in got[:-1]) or '' in got:
            return 'chunks(%d) have sizes %r' % (size, [len(c) for c in got])
        again = list(f.chunks(n))
        if ''.join(again) != data:
            return 'a second pass gives %r' % again
        if kind == 'uploaded':
            if f.multiple_chunks(n) != (len(data) > n) or f.multiple_chunks() != (len(data) > 65536) or len(f) != len(data):
                return 'multiple_chunks(%d) of %d bytes is %r, len is %d' % (n, len(data), f.multiple_chunks(n), len(f))
    else:
        if f.multiple_chunks(n) or f.multiple_chunks() or len(f) != len(data):
            return 'multiple_chunks of a file in memory, or its length'
    return None
