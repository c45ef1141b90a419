#!/usr/bin/env python3
"""Runs every check against every planted bug (in scratch copies) and prints the
table for DESIGN.md.  Not a check; for development only."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rules import RULES, NA


def one(sid, own):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        w = d + '/repo'
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('target', '.git'))
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + w, '%s/seeded/%s/patch.diff' % (ROOT, sid)], check=True, cwd='/')
        meta = json.load(open('%s/seeded/%s/meta.json' % (ROOT, sid)))
        hit, und = [], []
        for p in [meta['property']] + ([] if own else [p for p in RULES if p != meta['property']]):
            r = subprocess.run([sys.executable, ROOT + '/check.py', p], env=dict(os.environ, GAMMA_REPO=w), capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout:
                hit.append(p)
            elif 'UNDECIDED' in r.stdout or r.returncode:
                und.append(p)
        return sid, meta, hit, und
    finally:
        shutil.rmtree(d, ignore_errors=True)


own = '--own' in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
print('| planted bug | property | what it breaks | reported by |\n|---|---|---|---|')
with cf.ThreadPoolExecutor(8) as ex:
    for sid, meta, hit, und in ex.map(lambda s: one(s, own), want):
        p = meta['property']
        how = ', '.join(sorted(hit)) or '-'
        if p not in hit:
            how += ' (**missed** by %s%s)' % (p, ': undecided' if p in und else '')
        print('| %s | %s | %s | %s |' % (sid, p, meta['what_it_breaks'].replace('|', '/'), how), flush=True)
