#!/usr/bin/env python3
"""Makes and confirms planted bugs.

plant.py make SPEC.py [ID ...]   SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs,
                                 breaks, demo=python source)]; writes /verif/seeded/<id> and confirms it
plant.py confirm ID ...          confirms existing ones again (clean demo 0, patched demo != 0, tests pass)
plant.py matrix [ID ...]         which checks fire on which planted bug -> table on stdout
Everything happens in scratch copies below /tmp/plant, which are removed afterwards.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken.  Run with cwd = repository root.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def scratch(name):
    d = '/tmp/plant/' + name
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs('/tmp/plant', exist_ok=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def confirm(bid):
    sd = os.path.join(SEEDED, bid)
    d = scratch(bid)
    try:
        r = sh('bash {}/demo.sh'.format(sd), d)
        if r.returncode:
            return bid, 'demo fails on the clean tree: ' + r.stdout[-1500:]
        r = sh('git apply --check {0}/patch.diff && git apply {0}/patch.diff'.format(sd), d)
        if r.returncode:
            return bid, 'patch does not apply: ' + r.stdout[-500:]
        r = sh('bash {}/demo.sh'.format(sd), d)
        if not r.returncode:
            return bid, 'demo passes with the patch: ' + r.stdout[-500:]
        out = r.stdout.strip().splitlines()[-1:] or ['']
        ts = open('/opt/vp/test.sh').read().replace('/repo', d)
        open(d + '.test.sh', 'w').write(ts)
        r = sh('bash {0}.test.sh {0}.json'.format(d))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res = json.load(open(d + '.json'))
        ok = set()
        for k in ('stable', 'passed', 'pass'):
            if k in res:
                ok = set(res[k])
                break
        miss = base - ok
        if miss:
            return bid, 'tests fail: {}'.format(sorted(miss)[:4])
        return bid, 'ok (' + out[0][:100] + ')'
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in (d + '.test.sh', d + '.json'):
            if os.path.exists(x):
                os.remove(x)


def make(b):
    bid = b['id']
    sd = os.path.join(SEEDED, bid)
    os.makedirs(sd, exist_ok=True)
    d = scratch('mk-' + bid)
    try:
        for f, *anchor, old, new in b['edits']:
            p = os.path.join(d, 'algebraixlib', f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            at = 0
            for a in anchor:                    # the first match after the anchor
                at = s.find(a, at)
                if at < 0:
                    return bid, 'no anchor {!r}'.format(a)
            if old not in s[at:] or not anchor and s.count(old) != 1:
                return bid, 'edit of {} matches {} times: {!r}'.format(f, s.count(old), old[:60])
            open(p, 'w', newline='').write(s[:at] + s[at:].replace(old, new, 1))
        diff = subprocess.run('git diff --binary', shell=True, cwd=d, stdout=subprocess.PIPE).stdout
        open(os.path.join(sd, 'patch.diff'), 'wb').write(diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
    open(os.path.join(sd, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
    return confirm(bid)


def fires(bid):
    sd = os.path.join(SEEDED, bid)
    d = scratch('mx-' + bid)
    try:
        sh('git apply {}/patch.diff'.format(sd), d)
        r = sh('python3 {}/check.py all'.format(ROOT), ROOT,
               dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '.out'))
        hit = sorted(set(re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)))
        err = '' if r.returncode in (0, 1) else ' ERROR ' + r.stdout[-300:]
        own = json.load(open(os.path.join(sd, 'meta.json')))['property']
        und = [l for l in r.stdout.splitlines() if ': ' in l and 'obligations' in l and l.startswith(own)]
        return bid, own, hit, err + (und[0] if own not in hit and und else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.out', ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        bugs = runpy.run_path(args[0])['BUGS']
        bugs = [b for b in bugs if not args[1:] or b['id'] in args[1:]]
        with ThreadPool(6) as p:
            for bid, r in p.imap_unordered(make, bugs):
                print(bid, r, flush=True)
                if not r.startswith('ok'):
                    pass
        args = [b['id'] for b in bugs]
        cmd = 'matrix'
    if cmd == 'confirm':
        with ThreadPool(6) as p:
            for r in p.imap_unordered(confirm, args or sorted(os.listdir(SEEDED))):
                print(*r, flush=True)
    if cmd == 'matrix':
        with ThreadPool(2) as p:
            for bid, own, hit, err in p.imap(fires, args or sorted(os.listdir(SEEDED))):
                print('{:12} {:4} {} {} {}'.format(bid, own, 'CAUGHT' if own in hit else 'missed',
                                                    ' '.join(hit), err), flush=True)


if __name__ == '__main__':
    main()
