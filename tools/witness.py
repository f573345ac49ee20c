"""Generates sa/witness.txt: pairs of operands that together show every attainable combination of
(status of a property of an operand, status of a property of an operand, status of a property of the
result) for every binary operation of the specification.  Depends on the specification only, never on
the library.  python3 tools/witness.py   (about five minutes)"""
import itertools
import os
import random
import sys
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import model as m, spec                                      # noqa: E402
from sa.model import S, Sf, M, U                                     # noqa: E402

PROPS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular')
random.seed(1)
BASE = [m.c11, m.c12, m.c21, m.c22]
RELS = [Sf(x) for k in range(5) for x in itertools.combinations(BASE, k)]
MORE = [S(m.c12, m.c23, m.c13), S(m.c12, m.c23), S(m.cN), S(m.cN2), S(m.c13), S(m.c33), S(m.c12, m.cN), S(m.cN3)]


def pools():
    r = RELS + MORE + [S(m.c11, m.cN), S(m.c12, m.cN2), S(m.c12, m.c21, m.c13)]
    cs = [Sf(x) for k in (0, 1, 2) for x in itertools.combinations(RELS + MORE, k)]
    cs += [Sf(random.sample(RELS, 3)) for _ in range(60)]
    ms = [M({e: random.choice((1, 2, 3)) for e in c[1]}) for c in cs]
    sets = m.SET_U + m.PLAIN_SET_U
    msets = m.MSET_U + ms[:60]
    return {'R': r, 'C': cs, 'MC': ms, 'S': sets, 'M': msets}


def features(op, f, a, b):
    r = f(a, b)
    if isinstance(r, bool) or r == U:
        yield (op, 'v', r, len(a[1]), len(b[1]), a == b)
        sa = [(0, i, m.truth(p, a)) for i, p in enumerate(PROPS)] + [(1, i, m.truth(p, b)) for i, p in enumerate(PROPS)]
        for x, y in itertools.combinations(sa, 2):
            yield (op, 'u', r, x, y)
        return
    yield (op, 'e', r == a, r == b, len(r[1]), len(a[1]), len(b[1]))
    sa = [(0, i, m.truth(p, a)) for i, p in enumerate(PROPS)] + [(1, i, m.truth(p, b)) for i, p in enumerate(PROPS)]
    sr = [(2, i, m.truth(p, r)) for i, p in enumerate(PROPS)]
    for x, y in itertools.combinations(sa, 2):
        for z in sr:
            yield (op, x, y, z)


def work(job):
    sort, pool = job
    ops = [(t.name, m.DEN[t.name]) for t in spec.TABLE if t.sorts == [sort, sort] and t.name in m.DEN]
    pairs = [(a, b) for a in pool for b in pool]
    random.seed(2)
    random.shuffle(pairs)
    hand = spec.PAIR[sort]
    seen, chosen = set(), []
    for a in hand:
        for b in hand:
            for n, f in ops:
                seen.update(features(n, f, a, b))
    base = len(seen)
    for a, b in pairs[:9000]:
        new = False
        for n, f in ops:
            for x in features(n, f, a, b):
                if x not in seen:
                    seen.add(x)
                    new = True
        if new:
            chosen.append((a, b))
    return sort, base, len(seen), chosen


if __name__ == '__main__':
    out = []
    with Pool(5) as p:
        for sort, base, total, ch in p.imap(work, sorted(pools().items())):
            print(sort, 'features', base, '->', total, 'pairs', len(ch))
            out += ['{}\t{!r}\t{!r}'.format(sort, a, b) for a, b in ch]
    with open(os.path.join(ROOT, 'sa', 'witness.txt'), 'w') as fh:
        fh.write('\n'.join(out) + '\n')
