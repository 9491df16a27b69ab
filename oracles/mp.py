# multipart/form-data bodies and what they mean
import base64
import os
from io import BytesIO
from oracles.util import *
from request_parser.conf.settings import Settings
from request_parser.files import uploadhandler
from request_parser.http.multipartparser import MultiPartParser
from request_parser.http.request import HttpRequest

NAMECH = 'abcXYZ019_-.[]() \xe9'
CTYPES = (None, None, 'text/plain', 'Text/HTML; charset=utf-8', 'application/octet-stream', 'image/png; charset="x;y"; a=b')


def quote(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def payload(rng, boundary, big=False):
    sep = '--' + boundary
    n = rng.choice((0, 1, 5, 20, 60)) if not big else rng.choice((0, 3, 50, 400, 3000, 70000))
    pieces = ('\r\n', '\n', '\r', '\r\n' + sep[:-1], '\r\n--', '--', '\r\n\r\n', boundary)
    if big and n > 300:
        d = rstr(rng, 'ab-\r\n\x00\xff', 0, 40, pieces=pieces)
        d = (d * (n // max(1, len(d)) + 1))[:n] if d else ''
    else:
        d = rstr(rng, 'ab-\r\n\x00\xff', 0, n, pieces=pieces)
    while sep in d:
        d = d.replace(sep, '.')
    # the separator may also come about with what follows the payload
    while sep in (d + '\r\n' + sep)[:-len(sep)]:
        d = d[:-1]
    return d


def gen_boundary(rng):
    b = rstr(rng, "abcXYZ019'()+_,-./:=?", 1, rng.choice((1, 4, 12, 40)))
    return b


def gen_part(rng, boundary, names, kinds, big=False):
    kind = rng.choice(kinds)
    name = rng.choice(names)
    filename = None
    if kind == 'file':
        filename = rstr(rng, 'abcXYZ.019_ -', 1, 10).strip() or 'f'
    ctype = rng.choice(CTYPES)
    te = rng.choice((None, None, None, 'binary', '8bit', 'base64'))
    data = payload(rng, boundary, big and kind == 'file')
    b64 = te == 'base64'
    return (kind, name, filename, ctype, te, data, rng.randint(0, 3) if b64 else 0)


def encode_part(part):
    kind, name, filename, ctype, te, data, style = part
    if kind == 'raw':
        return data.replace('\r\n\r\n', '\r\n')
    d = 'form-data'
    if kind == 'noname':
        head = ['Content-Disposition: form-data; x=%s' % quote(name)]
    else:
        head = ['Content-Disposition: form-data; name=%s' % quote(name)]
    if filename is not None:
        head[0] += '; filename=%s' % quote(filename)
    if ctype:
        head.append('Content-Type: ' + ctype)
    if te:
        head.append('Content-Transfer-Encoding: ' + te)
    if style % 2:
        head.reverse()
    if te == 'base64':
        data = base64.b64encode(data)
        if style >= 2:
            data = '\r\n'.join(data[i:i + 10] for i in range(0, len(data), 10))
    return '\r\n'.join(head) + '\r\n\r\n' + data


def encode(boundary, parts, preamble='', closing=True):
    out = preamble
    for p in parts:
        out += '--' + boundary + '\r\n' + encode_part(p) + '\r\n'
    if closing:
        out += '--' + boundary + '--\r\n'
    return out


def sane(boundary, parts):
    """no separator inside a part"""
    sep = '--' + boundary
    for p in parts:
        e = '\r\n' + encode_part(p) + '\r\n'
        if sep in e or sep in (e + sep)[:-1].replace(sep, '', 0)[:len(e) + len(sep) - 1]:
            return False
        if len(e.split('\r\n\r\n')[0]) > 900:
            return False
    return True


def expected(parts):
    """(fields, files): name -> list, in order"""
    fields, files = {}, {}
    for kind, name, filename, ctype, te, data, style in parts:
        key = name.strip()
        if kind == 'field':
            main, extra = ctype_of(ctype)
            fields.setdefault(key, []).append((data, main, te or '', extra))
        elif kind == 'file':
            main, extra = ctype_of(ctype)
            files.setdefault(key, []).append((data, filename.strip(), main, te, extra))
    return fields, files


def ctype_of(ctype):
    if not ctype:
        return '', {}
    bits = ctype.split(';') if '"' not in ctype else [ctype.split(';')[0]]
    extra = {}
    if '"' in ctype:
        extra = {'charset': 'x;y', 'a': 'b'}
    else:
        for b in bits[1:]:
            k, v = b.split('=')
            extra[k.strip().lower()] = v.strip()
    return bits[0].strip().lower(), extra


def limits(fields_limit=4096, data_limit=5 * 2 ** 20, file_limit=30 * 2 ** 20):
    s = Settings.default()
    s.FILE_UPLOAD_TEMP_DIR = os.getcwd()
    s.DATA_UPLOAD_MAX_NUMBER_FIELDS = fields_limit
    s.DATA_UPLOAD_MAX_MEMORY_SIZE = data_limit
    s.FILE_UPLOAD_MAX_MEMORY_SIZE = file_limit
    return s


def convenient(n=1, chunk=None):
    hs = []
    for i in range(n):
        h = uploadhandler.ConvenientFileUploadHandler(None)
        if chunk:
            h.chunk_size = chunk
        hs.append(h)
    return hs


def parse(boundary, body, settings, handlers, chunks=None, encoding=None):
    meta = {'Content-Type': 'multipart/form-data; boundary=%s' % (quote(boundary)), 'Content-Length': str(len(body))}
    p = MultiPartParser(meta, Chunky(chunks) if chunks is not None else BytesIO(body), handlers, settings, encoding)
    return p.parse()


def request(boundary, body, settings, chunks=None, ctype='multipart/form-data'):
    head = 'POST /up HTTP/1.1\r\nHost: h.org\r\nContent-Type: %s; boundary=%s\r\nContent-Length: %d\r\n\r\n' % (
        ctype, quote(boundary), len(body))
    stream = BytesIO(head + body) if chunks is None else Chunky([head] + chunks)
    return HttpRequest(stream, settings)


def text(s):
    return s.decode('latin-1') if isinstance(s, str) else s


def show_fields(post):
    out = {}
    for k in post:
        out[text(k)] = [(text(e['data']), text(e['content-type']), text(e['transfer-encoding']),
                         dict((text(a), text(b)) for a, b in e['content-type-extra'].items())) for e in post.getlist(k)]
    return out


def show_files(files):
    out = {}
    for k in files:
        l = []
        for f in files.getlist(k):
            f.seek(0)
            l.append((text(f.read()), text(f.name), text(f.content_type), text(f.transfer_encoding),
                      dict((text(a), text(b)) for a, b in f.content_type_extra.items())))
            if f.size != len(l[-1][0]):
                l.append('size %r of %d bytes' % (f.size, len(l[-1][0])))
        out[text(k)] = l
    return out


def textual(d):
    """the expected side as text"""
    def t(x):
        if isinstance(x, str):
            return text(x)
        if isinstance(x, tuple):
            return tuple(t(y) for y in x)
        if isinstance(x, list):
            return [t(y) for y in x]
        if isinstance(x, dict):
            return dict((t(k), t(v)) for k, v in x.items())
        return x
    return t(d)


def close(files):
    for k in files:
        for f in files.getlist(k):
            f.close()
