import os
import shutil
from oracles import util
from oracles.util import *
from request_parser.conf.settings import InvalidDirectory, Settings

RULE = 'settings dictionaries with a random subset of keys and values, made in random order with changed defaults in between; non-trivial with at least one key'
DEFAULTS = {'MAX_HEADER_SIZE': 16, 'FILE_UPLOAD_MAX_MEMORY_SIZE': 30 * 2 ** 20, 'DATA_UPLOAD_MAX_MEMORY_SIZE': 5 * 2 ** 20,
            'DATA_UPLOAD_MAX_NUMBER_FIELDS': 4096, 'DEFAULT_CHARSET': 'ISO-8859-1'}
KEYS = {'MAX_HEADER_SIZE': 'MAX_HEADER_SIZE', 'FILE_UPLOAD_MAX_MEMORY': 'FILE_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_MEMORY': 'DATA_UPLOAD_MAX_MEMORY_SIZE',
        'DATA_UPLOAD_MAX_FIELDS': 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'DEFAULT_CHARSET': 'DEFAULT_CHARSET'}


def gen(rng):
    out = []
    for i in range(rng.choice((1, 1, 2, 3))):
        d = {}
        for k in KEYS:
            if chance(rng, 0.4):
                d[k] = rng.choice(('utf-8', 'x')) if k == 'DEFAULT_CHARSET' else rng.choice((0, 1, 16, 17, None, rint(rng, 0, 10 ** 6)))
        if chance(rng, 0.15):
            d['UNKNOWN'] = 1
        out.append((d, rng.choice((None, None, 'existing', 'new', 'nested', 'file')), chance(rng, 0.3)))
    return out


def nontrivial(c):
    return any(d for d, _, _ in c)


def values(s):
    return dict((k, getattr(s, k)) for k in DEFAULTS)


def check(case):
    made = []
    base = os.path.join(os.getcwd(), 'sd')
    shutil.rmtree(base, True)
    os.mkdir(base)
    try:
        for n, (d, where, touch) in enumerate(case):
            arg = dict(d)
            path = os.path.join(base, 'd%d' % n)
            if where == 'existing':
                os.mkdir(path)
            elif where == 'nested':
                path = os.path.join(path, 'no', 'such')
            elif where == 'file':
                open(path, 'w').close()
            if where:
                arg['FILE_UPLOAD_TEMP_DIR'] = path
            if not arg:
                arg['UNKNOWN'] = 2
            given = dict(arg)
            try:
                s = Settings(arg)
            except InvalidDirectory:
                if where in ('nested', 'file'):
                    continue
                return 'the directory %s was refused' % where
            if where in ('nested', 'file'):
                return 'a directory that cannot be used (%s) was accepted' % where
            if arg != given:
                return 'the dictionary was changed into %r' % arg
            want = dict(DEFAULTS)
            for k in d:
                if k in KEYS:
                    want[KEYS[k]] = d[k]
            if values(s) != want:
                return '%r gives %r instead of %r' % (d, values(s), want)
            if where:
                if s.FILE_UPLOAD_TEMP_DIR != path or not os.path.isdir(path):
                    return 'upload directory %r instead of %r' % (s.FILE_UPLOAD_TEMP_DIR, path)
                if os.listdir(path):
                    return 'left %r in the upload directory' % os.listdir(path)
            elif not os.path.isabs(s.FILE_UPLOAD_TEMP_DIR) or not s.FILE_UPLOAD_TEMP_DIR.endswith(os.path.join('request_parser', 'files', 'file_uploads')):
                return 'upload directory %r' % s.FILE_UPLOAD_TEMP_DIR
            if list(s.FILE_UPLOAD_HANDLERS) != ['request_parser.files.uploadhandler.ConvenientFileUploadHandler']:
                return 'handlers %r' % s.FILE_UPLOAD_HANDLERS
            made.append((s, want))
            e = Settings.default()
            if values(e) != DEFAULTS:
                return 'the defaults became %r' % values(e)
            if touch:
                e.MAX_HEADER_SIZE = 99
                e.DEFAULT_CHARSET = 'touched'
                e.DATA_UPLOAD_MAX_NUMBER_FIELDS = 1
        for s, want in made:
            if values(s) != want:
                return 'earlier settings changed from %r to %r' % (want, values(s))
    finally:
        shutil.rmtree(base, True)
    return None
