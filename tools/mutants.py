#!/usr/bin/env python3
"""Measures the analyses with first-order mutants of the library.

mutants.py FILE [--n N] [--seed S] [--only FUNC] [--props P,Q]      (--props: only these checks)
Each mutant is a small edit of one function.  A mutant that the library's tests notice is of no
interest; of the others those that no check reports are printed for review (equivalent or missed).
Runs in scratch copies below /tmp/mut.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = '/repo/algebraixlib/'
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
SWAP = {'left': ['right'], 'right': ['left'], 'IS': ['IS_NOT', 'N_A'], 'IS_NOT': ['IS', 'N_A'], 'N_A': ['IS_NOT'],
        'functional': ['right_functional'], 'right_functional': ['functional'], 'union': ['intersection'],
        'intersection': ['union'], 'issubset': ['issuperset'], 'issuperset': ['issubset'], 'difference': ['intersection'],
        'any': ['all'], 'all': ['any'], 'max': ['min'], 'min': ['max'], 'fromkeys': ['fromkeys'],
        'lhs': ['rhs'], 'arg1': ['arg2'], 'arg2': ['arg1'], 'is_functional': ['is_right_functional'],
        'is_right_functional': ['is_functional'], 'is_regular': ['is_functional'], 'get_lefts': ['get_rights'],
        'get_rights': ['get_lefts'], 'is_symmetric': ['is_reflexive'], 'is_subset_of': ['is_superset_of'],
        'is_superset_of': ['is_subset_of'], 'substrict': ['superstrict'], 'make_or_raise_undef2': ['make_or_raise_undef'],
        'make_or_raise_undef': ['make_or_raise_undef2'], 'functional_union': ['right_functional_union'],
        'discard': ['add'], 'sorted': ['list'], 'startswith': ['endswith'], 'break': ['continue']}
for _p in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular', 'right_regular',
           'absolute', 'relation', 'clan', 'multiclan'):
    SWAP['cached_is_' + _p] = ['cached_is_not_' + _p]
    SWAP['cached_is_not_' + _p] = ['cached_is_' + _p]
_C = ['functional', 'right_functional', 'regular', 'right_regular', 'reflexive', 'symmetric', 'transitive']
for _a, _b in zip(_C, _C[1:] + _C[:1]):
    SWAP['cache_' + _a] = ['cache_' + _b]


def mutants(src):
    """[(start, end, text, line, description, function)] on the text with LF line ends."""
    tree = ast.parse(src)
    offs = [0]
    for l in src.split('\n'):
        offs.append(offs[-1] + len(l) + 1)

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        q = '.'.join(fn)

        def emit(node, text, what):
            s, e = span(node)
            out.append((s, e, text, node.lineno, what, q))
        seg = lambda x: src[slice(*span(x))]
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP[type(n.ops[0])]:
                    emit(n, '{} {} {}'.format(seg(n.left), o, seg(n.comparators[0])), 'cmp ' + o)
            if isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                emit(n, '(' + o.join('(' + seg(v) + ')' for v in n.values) + ')', 'boolop' + o)
                for i in range(len(n.values)):
                    emit(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(
                        '(' + seg(v) + ')' for j, v in enumerate(n.values) if j != i) + ')', 'drop operand {}'.format(i))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                emit(n, '(' + seg(n.operand) + ')', 'drop not')
            if isinstance(n, ast.Constant) and n.value is True:
                emit(n, 'False', 'False')
            elif isinstance(n, ast.Constant) and n.value is False:
                emit(n, 'True', 'True')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                emit(n, str(n.value + 1), 'const+1')
                if n.value:
                    emit(n, str(n.value - 1), 'const-1')
            if isinstance(n, ast.Attribute) and n.attr in SWAP:
                for t in SWAP[n.attr]:
                    s, e = span(n)
                    out.append((e - len(n.attr), e, t, n.lineno, n.attr + '->' + t, q))
            if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
                for t in SWAP[n.id]:
                    emit(n, t, n.id + '->' + t)
            if isinstance(n, ast.IfExp):
                emit(n, '(' + seg(n.body) + ')', 'ifexp body')
                emit(n, '(' + seg(n.orelse) + ')', 'ifexp else')
            if isinstance(n, ast.If):
                emit(n.test, '(True)', 'if True')
                emit(n.test, '(False)', 'if False')
            if isinstance(n, ast.comprehension):
                for c in n.ifs:
                    emit(c, '(True)', 'drop filter')
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}[type(n.op)]
                emit(n, '({} {} {})'.format(seg(n.left), o, seg(n.right)), 'binop ' + o)
            if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s, _ = span(n.args[0])
                _, e = span(n.args[1])
                out.append((s, e, seg(n.args[1]) + ', ' + seg(n.args[0]), n.lineno, 'swap arguments', q))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('cache_') \
                    and isinstance(n.func.value, ast.Call):
                emit(n, seg(n.func.value), 'drop ' + n.func.attr)
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Return)) and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                emit(n, 'pass', 'drop statement')
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and c in getattr(n, 'decorator_list', []):
                continue
            if isinstance(c, ast.Assert):
                continue
            visit(c, fn)
    visit(tree, [])
    return out


ANALYSE = '''
import sys, json
sys.path.insert(0, {root!r})
from sa import opsuite, oprules
from sa.props import PROPS
quals = {quals!r}
eng = opsuite.engine()
hit = []
modes = ['ret:member', 'ret:nonmember', 'ret:undef', 'flags', 'undefelem', 'pre', 'level', 'mutate']
und = 0
for q, s in eng.ops.items():
    if quals is None or q in quals or s.inline:
        for c in ((True, False) if s.has_checked else (True,)):
            o = oprules.run_op(eng, q, c, modes, 'quick')
            und += bool(o['error']) + len(o['undecided'])
            hit += [f['key'] for f in o['findings']]
if {full}:
    for p in PROPS.values():
        if getattr(p, 'own', False):
            r = p.run('quick')
            hit += [p.pid + ' ' + f['key'] for f in r.findings]
            und += len(r.undecided)
print(json.dumps(dict(hit=hit[:3], und=und, missing=eng.missing)))
'''


ANALYSE_PROPS = '''
import sys, json
sys.path.insert(0, {root!r})
from sa.props import PROPS
hit, und = [], 0
for p in {props!r}:
    r = PROPS[p].run('quick')
    hit += [p + ' ' + f['key'] for f in r.findings]
    und += len(r.undecided)
print(json.dumps(dict(hit=hit[:3], und=und, missing=[])))
'''
PROPS = []


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def run(job):
    i, f, mu, known = job
    s, e, text, line, what, fn = mu
    d = '/tmp/mut/{}-{}'.format(os.getpid(), i)
    os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree('/repo', d, symlinks=True)
    try:
        p = os.path.join(d, 'algebraixlib', f)
        src = open(p, newline='').read()
        crlf = '\r\n' in src
        t = src.replace('\r\n', '\n')
        t = t[:s] + text + t[e:]
        try:
            ast.parse(t)
        except SyntaxError:
            return i, mu, 'syntax', ''
        open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        mod = f[:-3].replace('/', '.')
        q = mod + '.' + fn
        quals = [k for k in known if q == k or q.startswith(k + '.')] or None
        code = (ANALYSE_PROPS if PROPS else ANALYSE).format(root=ROOT, quals=quals, full=quals is None, props=PROPS)
        try:
            r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, VERIF_REPO=d, VERIF_PROCS='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900, cwd='/tmp')
        except subprocess.TimeoutExpired:
            return i, mu, 'TIMEOUT', ''
        try:
            res = json.loads(r.stdout.strip().splitlines()[-1])
        except (IndexError, ValueError):
            return i, mu, 'BROKEN', r.stderr[-300:]
        if res['hit']:
            return i, mu, 'caught', res['hit'][0]
        ts = open('/opt/vp/test.sh').read().replace('/repo', d)
        open(d + '.test.sh', 'w').write(ts)
        try:
            sh('bash {0}.test.sh {0}.json'.format(d), timeout=240)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            rr = json.load(open(d + '.json'))
            ok = set(next((rr[k] for k in ('stable', 'passed', 'pass') if k in rr), ()))
        except (subprocess.TimeoutExpired, OSError, ValueError):
            return i, mu, 'tests', ''
        return i, mu, 'tests' if base - ok else 'SURVIVED', 'undecided {}{}'.format(
            res['und'], ' missing ' + str(res['missing']) if res['missing'] else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in (d + '.test.sh', d + '.json'):
            if os.path.exists(x):
                os.remove(x)


def main():
    a = sys.argv[1:]
    opt = {k: a[a.index(k) + 1] for k in ('--n', '--seed', '--only', '--props') if k in a}
    sys.path.insert(0, ROOT)
    from sa import opsuite
    PROPS.extend(opt.get('--props', '').split(',') if '--props' in opt else [])
    known = [q for q in opsuite.engine().ops]
    f = a[0]
    src = open(LIB + f, newline='').read().replace('\r\n', '\n')
    ms = list(dict.fromkeys(mutants(src)))
    if '--only' in opt:
        ms = [m for m in ms if opt['--only'] in m[5]]
    random.Random(int(opt.get('--seed', 1))).shuffle(ms)
    ms = ms[:int(opt.get('--n', len(ms)))]
    tot = {}
    with ThreadPool(7) as p:
        for i, mu, st, info in p.imap_unordered(run, [(i, f, m, known) for i, m in enumerate(ms)]):
            tot[st] = tot.get(st, 0) + 1
            if st in ('SURVIVED', 'TIMEOUT', 'BROKEN'):
                print('{} {}:{} {} [{}] {} | {}'.format(st, f, mu[3], mu[5], mu[4], info,
                      ' '.join(mu[2].split())[:100]), flush=True)
    print(f, tot, flush=True)


if __name__ == '__main__':
    main()
