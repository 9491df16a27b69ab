# Helpers of the oracles (Jython 2.7).
import string

HINTS = {}
STRS = []       # string constants of the source under test, new ones first
INTS = []
NEW_STRS = []
NEW_INTS = []


class Skip(Exception):
    """the case says nothing (the API it needs is not there)"""


def prepare_hints():
    del STRS[:], INTS[:], NEW_STRS[:], NEW_INTS[:]
    for s in HINTS.get('new_strs', []):
        NEW_STRS.append(s.encode('latin-1', 'replace'))
    for s in HINTS.get('strs', []):
        STRS.append(s.encode('latin-1', 'replace'))
    NEW_INTS.extend(HINTS.get('new_ints', []))
    INTS.extend(HINTS.get('ints', []))


def chance(rng, p):
    return rng.random() < p


def rint(rng, lo, hi):
    """an int in [lo, hi]; often near a constant of the source"""
    for pool, p in ((NEW_INTS, 0.35), (INTS, 0.1)):
        if pool and rng.random() < p:
            v = pool[rng.randrange(len(pool))] + rng.choice((-1, 0, 0, 1))
            if lo <= v <= hi:
                return v
    if rng.random() < 0.5:
        hi2 = min(hi, lo + 8)
        return rng.randint(lo, hi2)
    return rng.randint(lo, hi)


def rstr(rng, alphabet, lo=0, hi=12, pieces=()):
    """a string over the alphabet (with some multi-character pieces and constants of the source)"""
    n = rint(rng, lo, hi)
    out = []
    size = 0
    allowed = set(alphabet)
    for p in pieces:
        allowed.update(p)
    while size < n:
        r = rng.random()
        if pieces and r < 0.3:
            s = pieces[rng.randrange(len(pieces))]
        elif NEW_STRS and r < 0.5:
            s = NEW_STRS[rng.randrange(len(NEW_STRS))]
            if not set(s) <= allowed:
                s = alphabet[rng.randrange(len(alphabet))]
        elif STRS and r < 0.34:
            s = STRS[rng.randrange(len(STRS))]
            if not set(s) <= allowed or len(s) > 12:
                s = alphabet[rng.randrange(len(alphabet))]
        else:
            s = alphabet[rng.randrange(len(alphabet))]
        out.append(s)
        size += len(s)
    s = ''.join(out)
    return s if len(s) <= hi else s[:hi]


ALNUM = string.ascii_letters + string.digits
PRINT = ''.join(chr(i) for i in range(32, 127))
BYTES = ''.join(chr(i) for i in range(256))


class Chunks(object):
    """an iterator over given chunks, the producer of a LazyStream"""

    def __init__(self, chunks):
        self.chunks = list(chunks)

    def __iter__(self):
        return self

    def next(self):
        if not self.chunks:
            raise StopIteration()
        return self.chunks.pop(0)


class Chunky(object):
    """a file whose reads and iteration deliver the given pieces"""

    def __init__(self, chunks):
        self.chunks = [c for c in chunks if c]

    def __iter__(self):
        return self

    def next(self):
        if not self.chunks:
            raise StopIteration()
        return self.chunks.pop(0)

    def read(self, size=-1):
        if size is None or size < 0:
            out, self.chunks = ''.join(self.chunks), []
            return out
        if not self.chunks:
            return ''
        c = self.chunks.pop(0)
        if len(c) > size:
            self.chunks.insert(0, c[size:])
            c = c[:size]
        return c


def split_chunks(rng, data, small=None):
    """cut data into random non-empty chunks"""
    out, i = [], 0
    mode = rng.randrange(4)
    while i < len(data):
        if mode == 0:
            n = len(data)
        elif mode == 1:
            n = 1
        elif mode == 2:
            n = rng.randint(1, 6)
        else:
            n = rng.randint(1, max(1, len(data)))
        if small:
            n = min(n, small)
        out.append(data[i:i + n])
        i += n
    return out


def raised(f, *a, **k):
    """(value, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e
