from oracles import util, mp
from oracles.util import *
from io import BytesIO
from request_parser.http.request import HttpRequest, UnreadablePostError, RawPostDataException
from request_parser.exceptions.exceptions import RequestDataTooBig

RULE = ('requests with a body of 0-200000 bytes in random chunks, from streams that may fail part-way, read with body(), read(n) or parse; '
        'non-trivial when the body is not empty')


class Failing(object):
    def __init__(self, chunks, at, err):
        self.chunks, self.at, self.n, self.err = list(chunks), at, 0, err

    def __iter__(self):
        return self

    def next(self):
        if self.n == self.at:
            raise IOError(*self.err)
        self.n += 1
        if not self.chunks:
            raise StopIteration()
        return self.chunks.pop(0)


def gen(rng):
    body = rstr(rng, 'ab\r\n\xff\x00', 0, rng.choice((0, 3, 30, 200)))
    if chance(rng, 0.1):
        body = (body + 'z') * rng.choice((1000, 4000))
    ctype = rng.choice((None, 'text/plain', 'application/json', 'application/octet-stream', 'text/plain; charset=latin-1'))
    how = rng.choice(('body', 'body', 'body2', 'nohead', 'read', 'fail', 'failread', 'failform', 'parsed', 'form', 'again', 'big',
                      'encoding', 'bodyform'))
    size = rng.choice((None, 1, 5, 100, 65536))
    if size is not None and len(body) > 300:
        size = max(size, 1000)
    return (body, ctype, how, rint(rng, 0, 40), size, rng.choice((0, 0, 1, 2, 5)),
            rng.choice(((5, 'gone'), ('gone',))))


def fixed():
    for n in (65535, 65536, 65537, 131072, 200000):
        yield ('x' * n, None, 'body', 0, None, 0, ('e',))


def nontrivial(c):
    return bool(c[0])


def make(body, ctype, chunks, fail=None, err=()):
    head = 'POST /p HTTP/1.1\r\nHost: h\r\nX: y\r\n'
    if ctype:
        head += 'Content-Type: %s\r\n' % ctype
    head += '\r\n'
    chunks = [head] + chunks
    return HttpRequest(Chunks(chunks) if fail is None else Failing(chunks, fail + 1, err), mp.limits())


def check(case):
    body, ctype, how, n, size, fail, err = case
    chunks = [body[i:i + (size or len(body) or 1)] for i in range(0, len(body), size or len(body) or 1)]
    if how in ('body', 'body2', 'nohead'):
        r = make(body, ctype, chunks)
        if how != 'nohead':
            r.parse_request_header()
        got = r.body()
        if got != body:
            return 'body() is %r instead of %r' % (got[:200], body[:200])
        if how == 'body2':
            again = r.body()
            if again != body:
                return 'the second body() is %r' % again[:200]
        return None
    if how == 'read':
        r = make(body, ctype, chunks)
        r.parse_request_header()
        a = r.read(n)
        if a != body[:n]:
            return 'read(%d) is %r of %r' % (n, a, body[:200])
        b = r.read()
        return None if a + b == body else 'read() is %r' % b[:200]
    if how == 'parsed':
        r = make(body, ctype, chunks)
        r.parse()
        if not body:
            return None
        got = r.body()
        want = body.decode('latin-1')
        return None if got == want else 'after parse, body() is %r instead of %r' % (got[:200], want[:200])
    if how == 'form':
        form = 'a=1&b=%s' % ''.join(c for c in body[:50] if c in 'ab')
        for content in ('application/x-www-form-urlencoded', 'multipart/form-data; boundary=q'):
            data = form if 'url' in content else mp.encode('q', [('field', 'a', None, None, None, form, 0)])
            r = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s' % (content, len(data), data)),
                            mp.limits())
            r.parse()
            try:
                got = r.body()
            except RawPostDataException:
                continue
            return 'body() after the form was parsed is %r' % got[:200]
        return None
    if how == 'failform':
        return failform(*case)
    if how == 'bodyform':
        return bodyform(*case)
    if how == 'big':
        r = make(body, ctype, chunks)
        if not body:
            return None
        r.settings.DATA_UPLOAD_MAX_MEMORY_SIZE = n % len(body)
        for i in range(3):
            try:
                got = r.body()
            except RequestDataTooBig:
                continue
            return 'body() number %d of a body that is too big is %r' % (i + 1, got[:200])
        return None
    if how == 'encoding':
        r = make(body, ctype, chunks)
        r.parse_request_header()
        got = r.body()
        r.encoding = 'latin-1'
        again = r.body()
        if got != body or again != body:
            return 'body() %r and after a change of encoding %r instead of %r' % (got[:200], again[:200], body[:200])
        r = make(body, ctype, chunks)
        try:
            r.parse()
        except UnicodeDecodeError:
            raise util.Skip()
        r.encoding = 'cp1252' if n % 2 else 'latin-1'
        try:
            again = r.body()
        except UnicodeDecodeError:
            raise util.Skip()
        want = body.decode(r.encoding)
        return None if again == want else 'after a change of encoding body() is %r instead of %r' % (again[:200], want[:200])
    r = make(body, ctype, chunks, fail if fail <= len(chunks) else len(chunks), err)
    try:
        r.parse_request_header()
        got = r.body() if how != 'failread' else r.read()
    except UnreadablePostError as e:
        if e.args != err:
            return 'UnreadablePostError%r instead of %r' % (e.args, err)
        if how == 'again':
            try:
                got = r.body()
            except UnreadablePostError as e:
                return None if e.args == err else 'UnreadablePostError%r instead of %r' % (e.args, err)
            return 'after a failure body() is %r' % got[:200]
        return None
    except IOError as e:
        return '%s leaks' % type(e).__name__
    return 'a failing stream was read as %r' % got[:100]


def forms(body, n):
    """(content type, body) of some forms"""
    text = ''.join(c for c in body[:50] if c in 'ab')
    yield 'application/x-www-form-urlencoded', 'a=1&b=%s' % text
    yield 'multipart/form-data; boundary=q', mp.encode('q', [('field', 'a', None, None, None, text, 0), ('field', 'b', None, None, None, '2', 0)])
    yield 'multipart/form-data; boundary=q', mp.encode('q', [('field', 'a', None, None, None, text, 0), ('file', 'f', 'n', None, None, 'xyz' * n, 0),
                                                             ('file', 'g', 'm', None, ('base64', None)[n % 2], 'uv' * n, 0)])


def failform(body, ctype, how, n, size, fail, err):
    for content, data in forms(body, n):
        size = size or len(data)
        if size == 1:
            size = 7
        chunks = [data[i:i + size] for i in range(0, len(data), size)]
        at = min(len(chunks), fail if n % 2 else n % (len(chunks) + 1))
        head = 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n' % (content, len(data))
        r = HttpRequest(Failing([head] + chunks, at + 1, err), mp.limits())
        for i in range(2):
            try:
                r.parse()
            except UnreadablePostError as e:
                if e.args != err:
                    return 'UnreadablePostError%r instead of %r' % (e.args, err)
                continue
            return '%s from a stream that fails after %d of %d chunks was parsed as %r %r' % (content, at, len(chunks), r.POST, r.FILES)
    return None


def bodyform(body, ctype, how, n, size, fail, err):
    for content, data in forms(body, n):
        raw = 'POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s' % (content, len(data), data)
        r, q = HttpRequest(BytesIO(raw), mp.limits()), HttpRequest(BytesIO(raw), mp.limits())
        q.parse()
        got = r.body()
        if got != data:
            return 'body() is %r instead of %r' % (got[:200], data[:200])
        r.parse()
        try:
            if r.POST != q.POST or mp.show_files(r.FILES) != mp.show_files(q.FILES):
                return 'after body(), parse() gives %r %r instead of %r %r' % (r.POST, r.FILES, q.POST, q.FILES)
        finally:
            mp.close(r.FILES)
            mp.close(q.FILES)
    return None
