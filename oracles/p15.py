from oracles import util, mp
from oracles.util import *
from request_parser.files import uploadhandler as uh
from request_parser.files.uploadedfile import InMemoryUploadedFile, TemporaryUploadedFile

RULE = ('upload handlers (memory, temporary, convenient, recording handlers that pass, swallow, skip a file or stop the upload) in chains of 1-3, fed directly or by a '
        'multipart body with fields and files; non-trivial when at least one file is received')

BEHAVIOURS = ('pass', 'pass', 'swallow', 'upper', 'upper', 'half', 'skipnew', 'skipdata', 'stop', 'reset', 'stopfuture', 'take')


class Rec(uh.FileUploadHandler, object):
    """records what it is given"""

    def __init__(self, how, chunk=None, nth=0):
        uh.FileUploadHandler.__init__(self, None)
        self.how, self.nth, self.n = how, nth, -1
        self.log = []
        self.events = []
        self.done = 0
        if chunk:
            self.chunk_size = chunk

    def new_file(self, *a, **k):
        uh.FileUploadHandler.new_file(self, *a, **k)
        self.n += 1
        self.log.append(['new', a, []])
        self.events.append(('new', norm(a)))
        if self.n == self.nth:
            if self.how == 'skipnew':
                raise uh.SkipFile()
            if self.how == 'stopfuture':
                raise uh.StopFutureHandlers()
        if self.how == 'take':
            raise uh.StopFutureHandlers()

    def receive_data_chunk(self, data, start):
        if not self.log:
            self.log.append(['none', (), []])
        self.log[-1][2].append((start, data))
        self.events.append(('data', start, data))
        if self.n == self.nth:
            if self.how == 'skipdata':
                raise uh.SkipFile()
            if self.how in ('stop', 'reset'):
                raise uh.StopUpload(connection_reset=self.how == 'reset')
        if self.how in ('swallow', 'take'):
            return None
        return data.upper() * 2 if self.how == 'upper' else data[:len(data) // 2] if self.how == 'half' else data

    def file_complete(self, size):
        self.events.append(('done', size))
        if not self.log:
            return None
        self.log[-1].append(size)
        if self.how == 'take':
            return InMemoryUploadedFile(util_file(self.log[-1]), None, self.file_name, 'x', size, None)
        return None

    def upload_complete(self):
        self.done += 1


def util_file(entry):
    from io import BytesIO
    return BytesIO(''.join(d for s, d in entry[2]))


def gen(rng):
    how = rng.choice(('direct', 'direct', 'chain', 'chain', 'builtin'))
    if how == 'direct':
        files = []
        for i in range(rng.choice((1, 2, 3))):
            files.append((rstr(rng, 'ab.', 1, 5), [rstr(rng, 'xy\x00\r\n', 1, 8) for j in range(rng.choice((0, 1, 3)))]))
        return (how, rng.choice(('memory', 'temporary', 'convenient')), files, rint(rng, 0, 20), rint(rng, 0, 20))
    names = ['n%s' % c for c in 'ab']
    parts = [mp.gen_part(rng, 'BB', names, ('field', 'file', 'file'), chance(rng, 0.1)) for i in range(rng.choice((1, 2, 3, 5)))]
    if how == 'builtin':
        return (how, parts, rng.choice(('mt', 'm', 't', 'c')), rng.choice((0, 100, 500, 10 ** 6)), rng.choice((None, 4, 64)))
    chain = [(rng.choice(BEHAVIOURS), rng.randint(0, 2)) for i in range(rng.choice((1, 2, 2, 3)))]
    return (how, parts, chain, 0, rng.choice((None, 4, 64, 1000)))


def nontrivial(c):
    return c[0] == 'direct' or any(p[0] == 'file' for p in c[1])


def check(case):
    if case[0] == 'direct':
        return direct(*case[1:])
    if not mp.sane('BB', case[1]):
        raise util.Skip()
    return builtin(*case[1:]) if case[0] == 'builtin' else chain(*case[1:])


def direct(kind, files, content_length, limit):
    s = mp.limits(file_limit=limit)
    h = {'memory': uh.MemoryFileUploadHandler, 'temporary': uh.TemporaryFileUploadHandler, 'convenient': uh.ConvenientFileUploadHandler}[kind](None)
    h.handle_raw_input(None, {}, content_length, 'BB', s)
    active = content_length <= limit
    out = []
    for name, chunks in files:
        stop = False
        try:
            h.new_file('fld', name, 'c/t', 77, 'cs', {'k': 'v'}, 'te')
        except uh.StopFutureHandlers:
            stop = True
        if kind == 'memory' and stop != active:
            return 'StopFutureHandlers raised: %r, content length %d, limit %d' % (stop, content_length, limit)
        if kind == 'temporary' and stop:
            return 'the temporary handler stops the others'
        pos = 0
        for c in chunks:
            got = h.receive_data_chunk(c, pos)
            want = c if kind == 'memory' and not active else None
            if got != want:
                return 'receive_data_chunk returned %r' % (got,)
            pos += len(c)
        f = h.file_complete(pos)
        if kind == 'memory' and not active:
            if f is not None:
                return 'an inactive memory handler gave a file'
            continue
        if f is None:
            return 'no file'
        if f.tell() != 0:
            return 'the file is not at its start'
        got = (f.read(), f.size, f.name, f.content_type, f.charset, f.content_type_extra, f.transfer_encoding)
        want = (''.join(chunks), pos, name, 'c/t', 'cs', {'k': 'v'}, 'te')
        if got != want:
            return '%s: %r instead of %r' % (kind, got, want)
        if kind == 'memory' and (not isinstance(f, InMemoryUploadedFile) or f.field_name != 'fld'):
            return 'memory handler gave %r' % f
        if kind == 'temporary' and not isinstance(f, TemporaryUploadedFile):
            return 'temporary handler gave %r' % f
        if kind == 'memory':
            if ''.join(f.chunks()) != ''.join(chunks) or f.multiple_chunks():
                return 'chunks() of the memory file'
        elif kind == 'temporary' and ''.join(f.chunks(3)) != ''.join(chunks):
            return 'chunks() of the temporary file'
        out.append((f, ''.join(chunks)))
    for f, content in out:
        f.seek(0)
        if f.read() != content:
            return 'an earlier file changed'
    for f, content in out:
        f.close()
    return None


def builtin(parts, kind, limit, chunk):
    s = mp.limits(file_limit=limit)
    body = mp.encode('BB', parts)
    hs = {'m': [uh.MemoryFileUploadHandler], 't': [uh.TemporaryFileUploadHandler], 'c': [uh.ConvenientFileUploadHandler],
          'mt': [uh.MemoryFileUploadHandler, uh.TemporaryFileUploadHandler]}[kind]
    hs = [h(None) for h in hs]
    if chunk:
        hs[0].chunk_size = chunk
    post, files = mp.parse('BB', body, s, hs)
    fields, want = mp.textual(mp.expected(parts))
    small = len(body) <= limit
    try:
        if kind == 'm' and not small:
            want = {}
        if kind in ('m', 'mt') and small:
            klass = InMemoryUploadedFile
        elif kind in ('t', 'mt'):
            klass = TemporaryUploadedFile
        else:
            klass = object
        got = mp.show_files(files)
        if got != want:
            return '%s: files %s instead of %s' % (kind, repr(got)[:500], repr(want)[:500])
        if mp.show_fields(post) != fields:
            return 'fields %r' % mp.show_fields(post)
        for k in files:
            for f in files.getlist(k):
                if not isinstance(f, klass):
                    return '%s: %r with %d bytes of body, limit %d' % (kind, f, len(body), limit)
    finally:
        mp.close(files)
    return None


def chain(parts, spec, _, chunk):
    if any(p[4] == 'base64' for p in parts):
        raise util.Skip()
    s = mp.limits()
    body = mp.encode('BB', parts)
    hs = [Rec(h, chunk, n) for h, n in spec]
    post, files = mp.parse('BB', body, s, hs)
    # what every handler has to see, given how the first one got the data
    want = [[] for h in hs]
    wfields, wfiles = {}, {}
    nth = [-1] * len(hs)
    calls = hs[0].events
    at = 0
    stopped = False
    waiting = None

    def complete(name, counters):
        for i, (h, n) in enumerate(spec):
            want[i].append(('done', counters[i]))
            if h == 'take' and nth[i] >= 0:
                wfiles.setdefault(name, []).append(taken[i])
                break

    taken = {}
    for p in parts:
        if waiting:
            complete(*waiting)
            waiting = None
            while at < len(calls) and calls[at][0] == 'done':
                at += 1
        if p[0] == 'field':
            wfields.setdefault(mp.text(p[1].strip()), []).append(mp.text(p[5]))
            continue
        main, extra = mp.ctype_of(p[3])
        name = mp.text(p[1].strip())
        skip = False
        for i, (h, n) in enumerate(spec):
            nth[i] += 1
            taken[i] = ''
            want[i].append(('new', norm((p[1].strip(), p[2].strip(), main, None, extra.get('charset'), extra, p[4]))))
            if h == 'skipnew' and nth[i] == n:
                skip = True
                break
            if (h == 'stopfuture' and nth[i] == n) or h == 'take':
                break
        at += 1
        if skip:
            continue
        got = ''
        counters = [0] * len(hs)
        while at < len(calls) and calls[at][0] == 'data' and not (skip or stopped):
            data = calls[at][2]
            got += data
            at += 1
            for i, (h, n) in enumerate(spec):
                want[i].append(('data', counters[i], data))
                counters[i] += len(data)
                taken[i] = taken.get(i, '') + data
                if h == 'skipdata' and nth[i] == n:
                    skip = True
                    break
                if h in ('stop', 'reset') and nth[i] == n:
                    stopped = True
                    break
                if h in ('swallow', 'take'):
                    break
                if h == 'upper':
                    data = data.upper() * 2
                elif h == 'half':
                    data = data[:len(data) // 2]
        if not p[5].startswith(got) or (got != p[5] and not skip and not stopped):
            return 'the first handler got %r of %r' % (got[:200], p[5][:200])
        if stopped:
            break
        if not skip:
            waiting = (name, counters)
    if waiting:
        complete(*waiting)
    for i, h in enumerate(hs):
        if h.done != 1:
            return 'upload_complete called %d times' % h.done
        for g, w in zip(h.events + [None], want[i] + [None]):
            if g != w:
                return 'handler %d: %s instead of %s' % (i, repr(g)[:300], repr(w)[:300])
    got = dict((mp.text(k), [mp.text(e['data']) for e in post.getlist(k)]) for k in post)
    if got != wfields:
        return 'fields %r instead of %r' % (got, wfields)
    got = dict((mp.text(k), [f.read() for f in files.getlist(k)]) for k in files)
    if sorted(got) != sorted(wfiles) or any(len(got[k]) != len(wfiles[k]) for k in got):
        return 'files %r instead of %r' % (got, wfiles)
    if not any(h == 'stopfuture' for h, n in spec) and got != wfiles:
        return 'files %r instead of %r' % (got, wfiles)
    return None


def norm(a):
    return tuple(mp.text(x) if not isinstance(x, dict) else sorted((mp.text(k), mp.text(v)) for k, v in x.items()) for x in a)
