#!/usr/bin/env python3
"""Applies hand-written behaviour-preserving rewrites (variants_data.py) to a scratch copy and runs all checks.

variants.py [--test] [--one]     --one: a separate copy per rewrite
"""
import os
import shutil
import subprocess
import sys
import json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))


def apply(dst, v):
    for f, old, new in v['edits']:
        p = os.path.join(dst, 'algebraixlib', f)
        raw = open(p, newline='').read()
        nl = '\r\n' if '\r\n' in raw else '\n'
        s = raw.replace('\r\n', '\n')
        assert s.count(old) == v.get('count', 1), (v['id'], s.count(old))
        open(p, 'w', newline='').write(s.replace(old, new).replace('\n', nl))


def check(dst, test):
    env = dict(os.environ, VERIF_REPO=dst, VERIF_OUT=dst + '.out')
    r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), 'all'], capture_output=True, text=True, env=env)
    alarms = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'violation' in l and ' 0 violations' not in l]
    und = [l for l in r.stdout.splitlines() if ' undecided' in l and ' 0 undecided' not in l]
    t = ''
    if test:
        ts = open('/opt/vp/test.sh').read().replace('/repo', dst)
        open(dst + '.test.sh', 'w').write(ts)
        subprocess.run(['bash', dst + '.test.sh', dst + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res = json.load(open(dst + '.json'))
        ok = set(next(res[k] for k in ('stable', 'passed', 'pass') if k in res))
        t = 'TESTS FAIL {}'.format(sorted(base - ok)[:3]) if base - ok else 'tests ok'
    return r, alarms, und, t


def main(argv):
    from variants_data import V
    test = '--test' in argv
    names = [a for a in argv if not a.startswith('--')]
    vs = [v for v in V if not names or v['id'] in names]
    groups = [[v] for v in vs] if '--one' in argv or names else [vs]
    for g in groups:
        dst = '/tmp/plant/var-' + (g[0]['id'] if len(g) == 1 else 'all')
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs('/tmp/plant', exist_ok=True)
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git'))
        for v in g:
            apply(dst, v)
        r, alarms, und, t = check(dst, test)
        print(','.join(v['id'] for v in g)[:60], 'rc', r.returncode, t)
        for l in alarms + und:
            print('   ', l[:300])
        if r.returncode not in (0, 1):
            print(r.stdout[-500:], r.stderr[-500:])
        ev = os.path.join(dst + '.out', 'evidence')
        for f in sorted(os.listdir(ev)) if os.path.isdir(ev) else ():
            d = json.load(open(os.path.join(ev, f)))
            for x in d.get('coverage', {}).get('undecided_reasons', [])[:6]:
                print('      ?', f, x[:260])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.rmtree(dst + '.out', ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
