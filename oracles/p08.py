from oracles import util, mp
from oracles.util import *
from request_parser.exceptions.exceptions import RequestDataTooBig, TooManyFieldsSent
from request_parser.http.request import HttpRequest, QueryDict
from request_parser.utils.http import limited_parse_qsl
from io import BytesIO

RULE = ('multipart bodies, url-encoded bodies and query strings with field counts and sizes near the configured limits (also no limit); '
        'non-trivial when the count or the size is within one of the limit')


def gen(rng):
    how = rng.choice(('multipart', 'multipart', 'mprequest', 'urlencoded', 'query', 'qsl', 'json'))
    n = rng.choice((0, 1, 2, 3, 5, 8))
    if how in ('multipart', 'mprequest'):
        parts = []
        for i in range(n):
            k = rng.choice(('field', 'field', 'field', 'file', 'noname'))
            te = rng.choice((None, None, 'base64'))
            data = rstr(rng, 'ab=', 0, rng.choice((0, 3, 20)))
            if chance(rng, 0.03):
                data = data * 10 + 'x' * 3000
            parts.append((k, rstr(rng, 'abc', 1, 4), 'f.x' if k == 'file' else None, None, te, data, 0))
        fields = [p for p in parts if p[0] == 'field']
        count = len(fields)
        size = sum(cost(p) for p in fields)
        spec = parts
    else:
        spec = '&'.join(rstr(rng, 'ab', 1, 3) + rng.choice(('=', '=', '', '=x')) + rstr(rng, 'cd+%', 0, 6) for i in range(n))
        spec += rng.choice(('', '', '&', ';a=1', '&&'))
        count = len(spec.replace(';', '&').split('&'))
        size = len(spec)
    fl = rng.choice((None, 4096, max(0, count + rng.choice((-1, 0, 0, 1))), rint(rng, 0, 10)))
    dl = rng.choice((None, 10 ** 6, max(0, size + rng.choice((-1, 0, 0, 1, 2))), rint(rng, 0, 60)))
    return (how, spec, fl, dl, rng.choice((None, 1, 7, 64)))


def cost(p):
    import base64
    return len(base64.b64encode(p[5]) if p[4] == 'base64' else p[5]) + len(p[1]) + 2


def fixed():
    for d in (-1, 0, 1):
        yield ('json', 'x' * 200000, None, 200000 + d, None)
        yield ('urlencoded', 'a=' + 'x' * 65534, None, 65536 + d, None)
    yield ('json', 'x' * 200000, None, None, None)


def nontrivial(c):
    how, spec, fl, dl, chunk = c
    if isinstance(spec, str):
        return (fl is not None and abs(len(spec.replace(';', '&').split('&')) - fl) < 2) or (dl is not None and abs(len(spec) - dl) < 2)
    fields = [p for p in spec if p[0] == 'field']
    return (fl is not None and abs(len(fields) - fl) < 2) or (dl is not None and abs(sum(cost(p) for p in fields) - dl) < 2)


def verdict(how, spec, fl, dl):
    if how in ('multipart', 'mprequest'):
        n = total = 0
        for p in spec:
            if p[0] != 'field':
                continue
            n += 1
            if fl is not None and n > fl:
                return TooManyFieldsSent
            total += cost(p)
            if dl is not None and total > dl:
                return RequestDataTooBig
        return None
    if how in ('urlencoded', 'json') and dl is not None and len(spec) > dl:
        return RequestDataTooBig
    if how != 'json' and fl and len(spec.replace(';', '&').split('&')) > fl:
        return TooManyFieldsSent
    return None


def run(case):
    how, spec, fl, dl, chunk = case
    settings = mp.limits(fl, dl)
    if how in ('multipart', 'mprequest'):
        body = mp.encode('BB', spec)
        if how == 'multipart':
            post, files = mp.parse('BB', body, settings, mp.convenient(1, chunk))
        else:
            r = mp.request('BB', body, settings)
            r.parse()
            post = r.POST
        got = mp.show_fields(post)
        want = mp.textual(mp.expected(spec))[0]
        return None if got == want else 'fields %r instead of %r' % (got, want)
    if how == 'qsl':
        limited_parse_qsl(spec, fields_limit=fl)
        return None
    if how == 'query':
        if chunk:
            QueryDict(settings, spec)
            return None
        r = HttpRequest(BytesIO('GET /?%s HTTP/1.1\r\nHost: h\r\nX: y\r\n\r\n' % spec), settings)
        r.parse_request_header()
        return None
    r = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\n\r\n%s' % (
        'application/json' if how == 'json' else 'application/x-www-form-urlencoded', spec)), settings)
    r.parse_request_header()
    if how == 'json' and chunk:
        got = r.body()
        return None if got == spec else 'body %r' % got[:100]
    r.parse_request_body()
    return None


def check(case):
    how, spec, fl, dl, chunk = case
    if not isinstance(spec, str) and not mp.sane('BB', spec):
        raise util.Skip()
    if spec == '' and how in ('urlencoded', 'json'):
        raise util.Skip()
    want = verdict(how, spec, fl, dl)
    try:
        msg = run(case)
    except (TooManyFieldsSent, RequestDataTooBig) as e:
        if want is None:
            return '%s: refused within the limits: %s' % (how, e)
        return None if type(e) is want else '%s: %s instead of %s' % (how, type(e).__name__, want.__name__)
    if want is not None:
        return '%s: %s was not raised (limits %r fields, %r bytes)' % (how, want.__name__, fl, dl)
    return msg
