import os
import htmlentitydefs
import re
from oracles import util, mp
from oracles.util import *
from request_parser.files.uploadedfile import InMemoryUploadedFile, SimpleUploadedFile, TemporaryUploadedFile, UploadedFile
from request_parser.files.uploadhandler import TemporaryFileUploadHandler

RULE = ('file names with / and \\ separators, dots, blanks, HTML entities for them, 0-600 characters long, given to uploaded files directly or in a multipart body; '
        'non-trivial with a separator, an entity or more than 255 characters')


def gen(rng):
    n = rstr(rng, 'abAB.._- /\\', 0, 14, pieces=('../', '..\\', '/', '\\', '&#47;', '&#x2f;', '&#92;', '&bsol;', '&amp;', '&lt;', '.txt', '.tar.gz', 'C:\\', '&#46;', '&nosuch;', '\xe9'))
    if chance(rng, 0.25):
        n += rng.choice('ab.') * rint(rng, 200, 300) + rng.choice(('', '.txt', '.' + 'e' * rng.choice((1, 250, 254, 255, 256, 300)), '.a.b'))
    return (n, rng.choice(('set', 'simple', 'upload', 'upload', 'tempupload')))


def fixed():
    for n in ('../../etc/passwd', '..\\..\\x', 'a' * 255, 'a' * 256, 'a' * 300 + '.txt', 'x.' + 'e' * 300, 'a/b\\c', 'a\\b/c', '&#47;etc&#92;x', '', '/', 'a/'):
        for how in ('set', 'simple', 'upload', 'tempupload'):
            yield (n, how)


def nontrivial(c):
    return len(c[0]) > 255 or any(x in c[0] for x in '/\\&')


def sanitized(name):
    name = name[name.rfind('/') + 1:]
    if len(name) > 255:
        i = name.rfind('.')
        if i > 0 and name[:i].strip('.'):
            stem, ext = name[:i], name[i:]
        else:
            stem, ext = name, ''
        ext = ext[:255]
        name = stem[:255 - len(ext)] + ext
    return name


def unescape(s):
    def sub(m):
        t = m.group(1)
        try:
            if t[0] == '#':
                c = int(t[2:], 16) if t[1] in 'xX' else int(t[1:])
            else:
                c = htmlentitydefs.name2codepoint[t]
            return unichr(c) if isinstance(s, unicode) else chr(c)
        except (ValueError, KeyError):
            return m.group(0)
    return re.sub(r'&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));', sub, s)


def check(case):
    name, how = case
    if how in ('set', 'simple'):
        if how == 'set':
            f = UploadedFile(None, 'old')
            f.name = name
        else:
            f = SimpleUploadedFile(name, 'x')
        want = sanitized(name)
        got = f.name
    else:
        if any(c in name for c in '"\r\n\x00') or name.endswith('\\') or '\\' in name and re.search(r'\\[\\"]', name):
            raise util.Skip()
        if len(name) > 700:
            raise util.Skip()
        s = mp.limits()
        body = '--BB\r\nContent-Disposition: form-data; name="f"; filename="%s"\r\n\r\nDATA\r\n--BB--\r\n' % name
        if how == 'tempupload':
            ext = os.path.splitext(unescape(name))[1]
            if len(ext) > 100 or '\xe9' in name:
                raise util.Skip()
            post, files = mp.parse('BB', body, s, [TemporaryFileUploadHandler(None)])
        else:
            post, files = mp.parse('BB', body, s, mp.convenient())
        n = unescape(name)
        n = n[n.rfind('\\') + 1:].strip()
        want = sanitized(n)
        if not n or not want:
            want = None
        if want is None:
            # a part without a usable file name is no file (and with none at all, a field)
            if 'f' in files and files['f'].name:
                return '%r uploaded as %r' % (name, files['f'].name)
            return None
        if 'f' not in files:
            return 'the upload %r is missing' % name
        f = files['f']
        got = f.name
        if '\\' in got:
            return '%r uploaded as %r' % (name, got)
        f.seek(0)
        if f.read() != 'DATA':
            return 'content'
        if how == 'tempupload':
            path = f.temporary_file_path()
            if os.path.dirname(os.path.abspath(path)) != os.path.abspath(s.FILE_UPLOAD_TEMP_DIR):
                return '%r is stored at %r' % (name, path)
            if not path.endswith('.upload' + os.path.splitext(n)[1]):
                return '%r is stored at %r' % (name, path)
            f.close()
    if got != want:
        return '%r becomes %r instead of %r' % (name, got, want)
    if '/' in got or len(got) > 255:
        return 'unsafe name %r' % got
    return None
