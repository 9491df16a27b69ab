#!/usr/bin/env python3
"""seedcheck.py [ID...]: runs the check of each planted bug's property against a copy with the bug; prints caught or missed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        tmp = tempfile.mkdtemp(prefix='seed-')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, symlinks=True)
            r = subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
            if r.returncode:
                print(i, pid, 'does not apply', flush=True)
                continue
            r = subprocess.run(['python3', 'check.py', pid], cwd=HERE, env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, pid, 'caught' if r.returncode == 1 and v else 'MISSED rc %d' % r.returncode, v[:1], flush=True)
        finally:
            shutil.rmtree(tmp)


main()
