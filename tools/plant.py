#!/usr/bin/env python3
"""plant.py SPECS.py [ID...]: confirms planted bugs in a scratch copy and keeps them under seeded/.

SPECS.py defines BUGS = [{id, property, file, subs: [(old, new)], demo: python source, needs, breaks}]."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2ee803d'
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/jyenv.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work"
JYTHONPATH=/opt/jylib:/repo timeout 250 $JYTHON "$here/demo.py"
'''


def sh(cmd, repo=None):
    full = ['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && %s' % (repo, cmd)] if repo else ['bash', '-c', cmd]
    return subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def plant(b):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        d = os.path.join(tmp, 'seed')
        os.makedirs(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        r = sh('cd /repo && bash %s/demo.sh' % d, repo)
        if r.returncode:
            return 'the demonstration fails on the unchanged tree:\n' + r.stdout[-1500:]
        for f, subs in ([(b['file'], b['subs'])] if 'file' in b else b['files']):
            path = os.path.join(repo, 'request_parser', f)
            s = open(path, newline='').read()
            crlf = '\r\n' in s
            for old, new in subs:
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    return '%d places for %r' % (s.count(old), old)
                s = s.replace(old, new)
            open(path, 'w', newline='').write(s)
        patch = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
        for line in patch.decode('utf-8', 'replace').split('\n'):
            if line.startswith('-') and not line.startswith('---') and line[1:].strip():
                base = subprocess.run(['git', '-C', '/repo', 'grep', '-qF', line[1:].rstrip('\r'), BASE], stdout=subprocess.PIPE)
                if base.returncode:
                    return 'not a line of the original: ' + line
        r = sh('cd /repo && bash /opt/vp/build.sh; bash /opt/vp/test.sh %s/o.json; bash %s/demo.sh; echo RC=$?' % (tmp, d), repo)
        if '26 passed, 0 failed' not in r.stdout:
            return 'tests fail:\n' + r.stdout[-1500:]
        if 'RC=0' in r.stdout.split('26 passed')[1]:
            return 'the demonstration passes with the patch\n' + r.stdout[-500:]
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        out = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), b['property']], env=dict(os.environ, VERIF_REPO=repo),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
        lines = [x for x in out.stdout.split('\n') if x.startswith(('VIOLATION', 'failed obl', 'not verified', 'failing input'))]
        return 'kept; check: rc %d %s' % (out.returncode, '\n   '.join(x[:160] for x in lines[-6:]))
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            print(b['id'], plant(b), flush=True)
