import base64
from oracles import util, mp
from oracles.util import *
from request_parser.http.multipartparser import MultiPartParserError

RULE = ('parts with Content-Transfer-Encoding base64 (wrapped at any width, blanks and CRLF anywhere, sometimes truncated) in files and fields, read in chunks of any size; '
        'non-trivial when the encoded text is longer than a chunk')


def gen(rng):
    data = rstr(rng, BYTES, 0, rng.choice((0, 2, 10, 60)))
    if chance(rng, 0.06):
        data = (data + 'q') * rng.choice((100, 3000))
    enc = base64.b64encode(data)
    if chance(rng, 0.5):
        w = rint(rng, 1, 20)
        enc = rng.choice(('\r\n', '\n', ' ')).join(enc[i:i + w] for i in range(0, len(enc), w)) if len(enc) < 2000 else enc
        enc += rng.choice(('', '', '\r\n', '\n'))
    else:
        for i in range(rng.choice((0, 0, 1, 3))):
            j = rng.randint(0, len(enc))
            enc = enc[:j] + rng.choice((' ', '\r\n', '\n', '\t', '   ')) + enc[j:]
    bad = rng.choice((None,) * 7 + ('cut',))
    return (rng.choice(('file', 'file', 'field')), enc, data, bad, rng.choice((None, 1, 2, 3, 5, 7, 16, 64)), rng.choice(('base64', 'base64', ' base64 ')), rng.choice((0, 10, 10 ** 6)))


def nontrivial(c):
    return c[4] is not None and len(c[1]) > c[4]


def check(case):
    kind, enc, data, bad, chunk, te, limit = case
    if bad == 'cut':
        enc = ''.join(enc.split()).rstrip('=')
        if len(enc) % 4 == 0:
            enc = enc[:-1]
        if not enc:
            raise util.Skip()
    body = '--BB\r\nContent-Disposition: form-data; name="n"%s\r\nContent-Transfer-Encoding: %s\r\n\r\n%s\r\n' % (
        '; filename="f"' if kind == 'file' else '', te, enc)
    body += '--BB\r\nContent-Disposition: form-data; name="after"\r\n\r\nplain\r\n--BB--\r\n'
    try:
        post, files = mp.parse('BB', body, mp.limits(file_limit=limit), mp.convenient(1, chunk))
    except MultiPartParserError as e:
        if bad and kind == 'file':
            return None
        return 'refused: %s' % e
    got_after = [e['data'] for e in post.getlist('after')]
    if got_after != ['plain']:
        return 'the part after is %r' % got_after
    if kind == 'file':
        if bad:
            return 'truncated base64 accepted as %r' % files['n'].read()
        f = files['n']
        got = f.read()
        size = f.size
        f.close()
        if got != data or size != len(data):
            return 'decoded as %r (size %r) instead of %r' % (got[:200], size, data[:200])
        return None
    want = enc if bad else data
    e = post['n']
    return None if e['data'] == want and e['transfer-encoding'] == te.strip() else 'field %r instead of %r' % (e, want)
