"""C25: structures are ordered by inclusion, consistently with their equality and hash, and the structure of an object
is built from the structures of its parts.

Every kind of structure with opaque parts is compared with every other one. The inclusion of an opaque part in another
structure is an arbitrary inclusion order (decisions that contradict an order are dropped); opaque parts stand for
structures of further kinds that contain no structure of the known ones."""
import itertools

from .cases import Bound, Evaluator, Ext, Func, Inst, Klass, MO, Native, PyRaise, Sym, Unsupported, reason
from .loader import AnalysisBroken, Program
from .report import Report

MOD = 'structure'
R_SUB = 'R-subset: is_subset and <= hold exactly when one structure is part of the other'
R_SAME = 'R-same: structures are equal exactly when they describe the same set, in both directions, and != is the opposite'
R_HASH = 'R-hash: equal structures have equal hashes'
R_NORM = 'R-union: the members of a union are its largest members, and no unions'
R_LEVEL = 'R-level: the power set level is the number of power sets to remove until a structure is part of another'
R_GS = 'R-ground-set: the ground set of an object is built from the ground sets of its parts'
NAMES = {'A': 'GenesisSetA', 'M': 'GenesisSetM', 'N': 'GenesisSetN', '0': 'Structure', 'x': 'CartesianProduct', 'U': 'Union',
         'P': 'PowerSet'}


def op(n):
    return ('op', n)


def shapes():
    x, y, z = op('x'), op('y'), op('z')
    A, M, N, O = ('A',), ('M',), ('N',), ('0',)
    P = lambda s: ('P', s)
    X = lambda l, r: ('x', l, r)
    U = lambda *e: ('U', e)
    return [A, M, N, O, x, P(x), P(y), P(P(x)), X(x, y), X(y, x), X(x, x), U(x), U(x, y), U(y, x), U(x, y, z), U(X(x, y), z),
            U(P(x), X(x, y)), U(M, N), U(A, x), U(N), U(A, M), U(O, x), P(U(x, y)), P(P(U(x))), X(U(x), y), X(O, x), X(x, O), P(O), P(A), P(M),
            P(P(P(P(P(x))))), P(P(P(P(P(P(A)))))), U(A, P(A), P(P(A)), P(P(P(A))), X(A, A), P(X(A, A))), U(U(U(x, P(A)), X(A, A)), P(x)),
            X(X(X(x, A), y), A), X(M, N), X(A, A), P(X(A, A)), U(U(x, y), z), U(P(x), P(y)), X(P(x), y), P(X(x, y)), U(A, A)]


def breadth(t):
    return len(t[1]) if t[0] == 'U' else 1


def opaque(t):
    return t[0] == 'op' or sum(map(opaque, t[1:] if t[0] != 'U' else t[1])) if t[0] in ('op', 'U', 'P', 'x') else 0


def show(t):
    if t[0] == 'op':
        return t[1]
    if t[0] == 'x':
        return '({} x {})'.format(show(t[1]), show(t[2]))
    if t[0] == 'P':
        return 'P({})'.format(show(t[1]))
    if t[0] == 'U':
        return 'Union({})'.format(', '.join(map(show, t[1])))
    return '{}' if t[0] == '0' else t[0]


def norm(ev, t):
    """The same structure without superfluous unions (its members: only the largest)."""
    if t[0] == 'x':
        return ('x', norm(ev, t[1]), norm(ev, t[2]))
    if t[0] == 'P':
        return ('P', norm(ev, t[1]))
    if t[0] == 'U':
        es = []
        for e in t[1]:
            e = norm(ev, e)
            for f in (e[1] if e[0] == 'U' else (e,)):
                if any(sub(ev, f, g) for g in es):
                    continue
                es = [g for g in es if not sub(ev, g, f)] + [f]
        return es[0] if len(es) == 1 else ('U', frozenset(es))
    return t


def sub(ev, a, b, peek=False):
    """a is part of b; None if only peeking and undecided."""
    if a == b or a[0] == '0':
        return True
    if a[0] == 'U':
        return every([sub(ev, e, b, peek) for e in a[1]]) if peek else all(sub(ev, e, b) for e in a[1])
    if b[0] == 'U':
        if peek:
            r = every([None if v is None else not v for v in [sub(ev, a, e, True) for e in b[1]]])
            return None if r is None else not r
        return any(sub(ev, a, e) for e in b[1])
    if b[0] == 'op' and a[0] != 'op':
        return False
    if a[0] == 'op':
        key = ('sub', a, b)
        if peek:
            v = ev.dec.table.get(key)
            return None if v is None else v == 0
        return ev.decide(key)
    if b[0] == 'M':
        return a[0] != 'N'
    if a[0] == b[0] == 'P':
        return sub(ev, a[1], b[1], peek)
    if a[0] == b[0] == 'x':
        l = sub(ev, a[1], b[1], peek)
        if l is False or not peek and not l:
            return False
        r = sub(ev, a[2], b[2], peek)
        return r if l else (False if r is False else None)
    return False


def every(vs):
    if any(v is False for v in vs):
        return False
    return None if None in vs else True


def possible(ev, terms):
    """The decisions do not contradict that inclusion is an order."""
    ts = set(terms)
    for k in ev.dec.table:
        if k[0] == 'sub':
            ts |= {k[1], k[2]}
    ts = list(ts)
    le = {(a, b): sub(ev, a, b, True) for a in ts for b in ts}
    for a, b in itertools.combinations(ts, 2):
        if (a[0] == 'op' or b[0] == 'op') and le[a, b] and le[b, a]:
            return False
        if b == ('0',) and a[0] == 'op' and le[a, b] or a == ('0',) and b[0] == 'op' and le[b, a]:
            return False
    for a in ts:
        for b in ts:
            if le[a, b]:
                for c in ts:
                    if le[b, c] and le[a, c] is False:
                        return False
    return True


def level(ev, a, b):
    n = 0
    while a[0] == 'P':
        n += 1
        a = a[1]
        if sub(ev, norm(ev, a), b):
            return n
    return 0


class Structs:
    def __init__(self, prog):
        self.prog = prog
        self.mod = prog.module(MOD)
        for n in NAMES.values():
            if not self.mod.bindings.get(n):
                raise AnalysisBroken('{}.{} is missing'.format(MOD, n))
        self.specs = {('isinst', 'struct'): lambda ev, v, t: t.name == 'Structure' or t.name.endswith('Hashable'),
                      ('type', 'struct'): lambda ev, v: Ext('opaque structure'),
                      ('eq', 'struct'): self.eq, ('cmp', 'LtE', 'struct'): lambda ev, a, k: self.is_sub(ev, a[0], a[1]),
                      ('cmp', 'GtE', 'struct'): lambda ev, a, k: self.is_sub(ev, a[1], a[0]),
                      ('attr', 'struct', 'is_subset'): lambda ev, o: Native(lambda a, k: self.is_sub(ev, o, a[0])),
                      ('attr', 'struct', 'is_same'): lambda ev, o: Native(lambda a, k: self.eq(ev, [o, a[0]], k)),
                      ('attr', 'struct', '__class__'): lambda ev, o: Ext('opaque structure'),
                      ('attr', 'struct', 'get_powerset_level'): lambda ev, o: Native(lambda a, k: 0),
                      ('attr', 'mo', 'get_ground_set'): lambda ev, o: Native(lambda a, k: Sym(op(o.term[1]), 'struct'))}

    def eq(self, ev, args, kw):
        a, b = self.term(args[0]), self.term(args[1])
        if b is None:
            return False
        return norm(ev, a) == norm(ev, b)

    def is_sub(self, ev, a, b):
        return sub(ev, norm(ev, self.need(a)), norm(ev, self.need(b)))

    def need(self, v):
        t = self.term(v)
        if t is None:
            raise Unsupported('structure expected')
        return t

    def term(self, v):
        """The structure that a value of the evaluator describes."""
        if isinstance(v, Sym):
            return v.term if v.kind == 'struct' else None
        if not isinstance(v, Inst):
            return None
        n = v.cls.name
        get = lambda a: self.need(self.ev.getattr(v, a))
        for k, name in NAMES.items():
            if n == name:
                if k in 'AMN0':
                    return (k,)
                if k == 'x':
                    return ('x', get('left'), get('right'))
                if k == 'P':
                    return ('P', get('base_set'))
                return ('U', tuple(self.need(e) for e in self.ev.iterate(self.ev.getattr(v, 'data'))))
        return None

    def make(self, t):
        ev = self.ev
        if t[0] == 'op':
            return Sym(t, 'struct')
        k = ev.static(self.prog.resolve_name(self.mod, NAMES[t[0]]))
        if t[0] == 'U':
            return ev.construct(k, [[self.make(e) for e in t[1]]], {})
        return ev.construct(k, [self.make(e) for e in t[1:]], {})

    def method(self, o, name, *args):
        f, _ = o.cls.find(name)
        if f is None:
            raise Unsupported('method ' + name)
        return self.ev.call(Bound(f, o), list(args), {})


def run(tier):
    rep = Report()
    rep.rules = {r.split(':')[0]: r.split(': ')[1] for r in (R_SUB, R_SAME, R_HASH, R_NORM, R_LEVEL, R_GS)}
    prog = Program(raw=True)
    st = Structs(prog)
    ev = st.ev = Evaluator(prog, {}, st.specs, limit=3000)
    lines = {}
    for n in st.mod.tree.body:
        if hasattr(n, 'name'):
            lines[n.name] = n.lineno
    sh = shapes()

    def check(kind, scenario, terms, reverse=(False,)):
        """scenario() yields (rule, method, what it gives, what is expected) where they differ."""
        cname = NAMES.get(kind, 'Structure')
        where = '{}:{}'.format(st.mod.rel, lines.get(cname, 1))
        why = None
        for rev in reverse:
            ev.reverse = rev

            def go(e):
                out = []
                for rule, name, f in scenario:
                    try:
                        r = f()
                    except PyRaise as x:
                        r = ('an exception ({})'.format(x.typ), 'a result')
                    if r is not None:
                        out.append((rule, name) + r)
                return out if out and possible(ev, terms) else ()
            try:
                for rs in ev.explore(go):
                    rep.count('evaluations')
                    for rule, name, got, want in rs:
                        construct = '{}.{}.{}'.format(MOD, cname, name)
                        rep.find(rule, construct, where, '{} gives {} instead of {}'.format(name, got, want), ' and '.join(show(t) for t in terms),
                                 key='{}|{}|{}|{}'.format(rule.split(':')[0], construct, got, want))
            except Exception as x:
                why = reason(x)
            except RecursionError:
                why = 'recursion'
        ev.reverse = False
        for rule, name, f in scenario:
            rep.ob('{}.{}.{} {}'.format(MOD, cname, name, ' / '.join(map(show, terms))), why is None, why)

    both = (False, True)
    for a in sh:
        if a[0] == 'op':
            continue
        if a[0] == 'U':
            for perm in itertools.permutations(a[1]) if len(a[1]) < 5 else [a[1][i:] + a[1][:i] for i in range(len(a[1]))] + [a[1][::-1]]:
                def union(es=perm):
                    u = st.make(('U', es))
                    data = [st.need(e) for e in ev.iterate(ev.getattr(u, 'data'))]
                    want = norm(ev, ('U', es))
                    want = set(want[1]) if want[0] == 'U' else {want}
                    got = {norm(ev, d) for d in data}
                    if any(d[0] == 'U' for d in data):
                        return 'a union with a union as a member', 'one without'
                    if got != want or len(data) != len(want):
                        return 'the wrong members', 'the largest ones'
                    return None
                check('U', [(R_NORM, '__init__', union)], perm, both)
        for b in sh:
            if max(breadth(a), breadth(b)) > 4 and opaque(a) + opaque(b) > 1:
                continue
            made = {}

            def both_of(a=a, b=b, made=made):
                if made.get('run') != ev.dec.runs:
                    made.update(run=ev.dec.runs, x=st.make(a), y=st.make(b))
                return made['x'], made['y']

            def subset(a=a, b=b, both_of=both_of):
                x, y = both_of()
                want = sub(ev, norm(ev, a), norm(ev, b))
                for got in (st.method(x, 'is_subset', y), ev.compare('LtE', x, y)):
                    if ev.truth(got) != want:
                        return ev.truth(got), want

            def same(a=a, b=b, both_of=both_of):
                x, y = both_of()
                want = norm(ev, a) == norm(ev, b)
                for got in (ev.truth(st.method(x, 'is_same', y)), ev.truth(ev.compare('Eq', x, y)), not ev.truth(ev.compare('NotEq', x, y))):
                    if got != want:
                        return 'equal' if got else 'different', 'equal' if want else 'different'
                if want and b[0] != 'op':
                    if ev.b_hash(x) != ev.b_hash(y):
                        return 'different hashes of equal structures', 'equal ones'

            def lev(a=a, b=b, both_of=both_of):
                x, y = both_of()
                want = level(ev, a, norm(ev, b))
                got = st.method(x, 'get_powerset_level', y)
                if got != want:
                    return got, want
            check(a[0], [(R_SUB, 'is_subset', subset), (R_SAME, 'is_same', same), (R_LEVEL, 'get_powerset_level', lev)], (a, b),
                  both if 'U' in (a[0], b[0]) and tier != 'quick' else (False,))
    ground_sets(rep, prog, st, ev)
    algebras(rep, prog, st, ev)
    rep.samples.append('{} shapes of structures, {} pairs'.format(len(sh), (len(sh) - 1) * len(sh)))
    return rep


def ground_sets(rep, prog, st, ev):
    o = lambda n: ('o', Sym(('part', n), 'mo'))
    A = ('A',)
    P = lambda s: ('P', s)
    Xn = lambda s: ('P', ('x', s, ('N',)))
    at = lambda v: ('a', v)
    objs = [(at('v'), A), (at(None), A), (('c', o('x'), o('y')), ('x', op('x'), op('y'))), (('c', o('x'), ('s', frozenset())), ('x', op('x'), ('0',))),
            (('c', ('s', frozenset()), at(1)), ('x', ('0',), A)),
            (('s', frozenset()), ('0',)), (('m', frozenset()), ('0',)),
            (('s', frozenset([o('x')])), P(op('x'))), (('s', frozenset([o('x'), o('y')])), P(('U', (op('x'), op('y'))))),
            (('s', frozenset([at(1), at(2)])), P(A)), (('s', frozenset([at(1), o('x')])), P(('U', (A, op('x'))))),
            (('s', frozenset([o('x'), o('y'), o('z')])), P(('U', (op('x'), op('y'), op('z'))))),
            (('m', frozenset([(o('x'), 1)])), Xn(op('x'))), (('m', frozenset([(o('x'), 2), (o('y'), 1)])), Xn(('U', (op('x'), op('y'))))),
            (('m', frozenset([(at(1), 3), (at(2), 1)])), Xn(A)), (('s', frozenset([('s', frozenset())])), P(('0',))),
            (('s', frozenset([('s', frozenset()), ('s', frozenset([('c', o('x'), o('y'))]))])), P(P(('x', op('x'), op('y'))))),
            (('s', frozenset([at(i) for i in range(9)])), P(A)), (('m', frozenset([(at(i), i + 1) for i in range(9)])), Xn(A)),
            (('s', frozenset([('c', at(i), at(i)) for i in range(9)])), P(('x', A, A))), (('m', frozenset([(o('x'), 9), (at(1), 5)])), Xn(('U', (op('x'), A)))),
            (('s', frozenset([('s', frozenset([('s', frozenset([('s', frozenset([o('x')]))]))]))])), P(P(P(P(op('x')))))),
            (('m', frozenset([(('s', frozenset([('c', o('x'), o('y'))])), 2)])), Xn(P(('x', op('x'), op('y')))))]
    for v, want in objs:
        where, construct = 'mathobjects', 'get_ground_set of ' + KIND[v[0]]
        why = None
        for rev in (False, True):
            ev.reverse = rev

            def go(e):
                try:
                    got = e.call(e.getattr(MO(v), 'get_ground_set'), [], {})
                    t = st.term(got)
                    if t is None or norm(e, t) != norm(e, want):
                        r = ('no structure' if t is None else show(t)), show(want)
                    else:
                        r = None
                except PyRaise as x:
                    r = 'an exception (' + x.typ + ')', show(want)
                return r if r is None or possible(e, [want]) else None
            try:
                for r in ev.explore(go):
                    rep.count('evaluations')
                    if r is not None:
                        rep.find(R_GS, construct, 'algebraixlib/mathobjects', '{} instead of {}'.format(*r), repr(MO(v)),
                                 key='R-ground-set|{}|{}'.format(construct, r[1]))
                        break
            except Exception as x:
                why = reason(x)
        ev.reverse = False
        rep.ob('{} {!r}'.format(construct, MO(v)), why is None, why)


KIND = {'a': 'Atom', 'c': 'Couplet', 's': 'Set', 'm': 'Multiset'}


def algebras(rep, prog, st, ev):
    """The ground sets of the algebras."""
    for name, wants in (('sets', lambda b: ('P', b)), ('couplets', lambda b: ('x', b, b)), ('relations', lambda b: ('P', ('x', b, b))),
                        ('clans', lambda b: ('P', ('P', ('x', b, b)))), ('multisets', lambda b: ('P', ('x', b, ('N',)))),
                        ('multiclans', lambda b: ('P', ('x', ('P', ('x', b, b)), ('N',))))):
        mod = prog.module('algebras.' + name)
        for fn, base in (('get_ground_set', ('M',)), ('get_absolute_ground_set', ('A',))):
            construct = 'algebras.{}.{}'.format(name, fn)
            f = ev.static(prog.resolve_name(mod, fn))
            why = None
            try:
                for got in ev.explore(lambda e: st.term(e.call(f, [], {}))):
                    if got != wants(base):
                        rep.find(R_GS, construct, '{}:{}'.format(mod.rel, f.node.lineno), 'the wrong ground set', show(got) if got else '')
            except (Unsupported, PyRaise) as x:
                why = str(x)
            rep.ob(construct, why is None, why)
