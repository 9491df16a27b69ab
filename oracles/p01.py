from oracles import util
from oracles.util import *
from io import BytesIO
from request_parser.conf.settings import Settings
from request_parser.http.request import HttpRequest, InvalidHttpRequest

RULE = ('a request head and a body (CR, LF, CRLF runs frequent, terminator sometimes missing), delivered in random chunks, '
        'read with a random MAX_HEADER_SIZE; non-trivial when the terminator is there and a body follows it')


def gen(rng):
    lines = ['%s %s HTTP/1.1' % (rng.choice(('GET', 'POST')), rng.choice(('/', '/a/b', '/x?y=1')))]
    lines.append('Host: h%s.com' % rstr(rng, 'ab', 0, 4))
    for i in range(rng.choice((0, 0, 1, 3))):
        lines.append('%s:%s' % (rstr(rng, ALNUM + '-', 1, 6), rstr(rng, ALNUM + ' ;=\r-"', 0, 12).replace('\r', '')))
    head = '\r\n'.join(lines)
    end = rng.choice(('\r\n\r\n',) * 6 + ('\r\n', '\n\n', '\r\n\r', ''))
    body = rstr(rng, 'ab\r\n', 0, rng.choice((0, 8, 40, 90)), pieces=('\r\n', '\r\n\r\n', '\r\n\r'))
    raw = head + end + body
    chunks = split_chunks(rng, raw)
    size = rng.choice((1, 2, 3, 4, 5, 7, 16, 17, 64, 1024, rint(rng, 1, 100)))
    return (chunks, size, rng.choice(('iter', 'file', 'bytesio')))


def nontrivial(c):
    raw = ''.join(c[0])
    return '\r\n\r\n' in raw and not raw.endswith('\r\n\r\n')


def check(case):
    chunks, size, kind = case
    raw = ''.join(chunks)
    settings = Settings.default()
    settings.MAX_HEADER_SIZE = size
    stream = BytesIO(raw) if kind == 'bytesio' else Chunky(chunks) if kind == 'file' else Chunks(chunks)
    r = HttpRequest(stream, settings)
    end = raw.find('\r\n\r\n')
    try:
        r.parse_request_header()
    except InvalidHttpRequest as e:
        if end < 0:
            return None
        if any(':' not in l or not l for l in raw[:end].split('\r\n')[1:]):
            return None
        return 'a complete head was refused: %s' % e
    if end < 0:
        return 'a request without the end of its head was accepted'
    line = raw[:end].split('\r\n')[0].split(' ')
    if r.method != line[0] or r.protocol_info != line[2]:
        return 'request line %r parsed as %r %r' % (line, r.method, r.protocol_info)
    got = r.read()
    want = raw[end + 4:]
    if got != want:
        return 'body %r instead of %r' % (got, want)
    return None
