"""C29: an ordered slice of a multiclan holds exactly the relations at the positions that were asked for.

The slicing functions are evaluated abstractly on multiclans of opaque relations. All decisions of a slice compare sums
of multiplicities with the offset and the limit; the multiplicities and positions that are explored make every entry
lie before, at, across and behind either end of the slice."""
import itertools

from .cases import Evaluator, MO, Native, PyRaise, Sym, UNDEF, Unsupported, mitems, reason
from .loader import AnalysisBroken, Program
from .report import Report
from .imports import A, C, S

MOD = 'algebras.multiclans'
INF = float('inf')
R_POS = 'R-positions: the slice holds exactly the relations at the positions offset <= index < offset + limit'
R_ORD = 'R-order: the relations come in the given order, whatever the order in which the multiclan is visited'
R_ANY = 'R-count: an unordered slice has as many relations as are asked for and there, none more often than the multiclan'
R_ARG = 'R-arguments: positions are integers or atoms of integers, anything else gives Undef'
ORDERED = ('order_slice_to_listgen', 'order_slice')
ALL = ORDERED + ('multiclan_to_listgen',)


def rel(i):
    return S(C('k', i), C('n', Sym(('part', i), 'pyvalue')))


class Check:
    def __init__(self):
        self.rep = Report()
        self.seen = set()       # one example for each rule and function
        self.prog = Program(raw=True)
        self.specs = {MOD + '.is_member': lambda ev, a, k: self.member(list(a) + list(k.values())),
                      MOD + '.is_member_or_undef': lambda ev, a, k: (list(a) + list(k.values()))[0] is UNDEF or
                      self.member(list(a) + list(k.values()))}

    @staticmethod
    def member(a):
        x = a[0]
        return isinstance(x, MO) and x.val[0] == 'm' and all(e[0] == 's' and all(p[0] == 'c' for p in e[1]) for e, n in mitems(x.val))

    def less(self, rank, atom):
        def go(args, kw):
            a, b = [x.val for x in list(args) + list(kw.values())]
            r = rank[a] < rank[b]
            return MO(A(r)) if atom else r
        return Native(go)

    def call(self, name, args, kw):
        """All outcomes of a call: the entries of the result, 'undef', or an exception."""
        ev = self.ev
        out = []

        def go(e):
            f = e.static(self.prog.resolve_name(self.prog.module(MOD), name))
            try:
                r = e.call(f, args, kw)
                if r is UNDEF:
                    return 'undef'
                if isinstance(r, MO):
                    if r.val[0] != 'm':
                        return 'no multiset'
                    return [('m', e_, n) for e_, n in mitems(r.val)]
                res = []
                for t in e.iterate(r):
                    t = list(e.iterate(t))
                    if len(t) != 2 or not isinstance(t[0], MO):
                        return 'an entry that is no pair'
                    res.append((t[0].val, t[1]))
                return res
            except PyRaise as x:
                return str(x) or repr(x)
        out.extend(ev.explore(go))
        return out

    @staticmethod
    def want(order, ms, off, lim):
        flat = [r for r, n in zip(order, ms) for _ in range(n)]
        got = flat[off:] if lim == INF else flat[off:off + lim]
        return [(r, got.count(r)) for r in order if r in got]

    def find(self, rule, name, what, witness):
        mod = self.prog.module(MOD)
        line = self.lines[name]
        if (rule, name) in self.seen:
            return
        self.seen.add((rule, name))
        self.rep.find(rule, '{}.{}'.format(MOD, name), '{}:{}'.format(mod.rel, line), what, witness)

    @staticmethod
    def text(order, r):
        if not isinstance(r, list):
            return str(r)
        return '[{}]'.format(', '.join('r{}:{}'.format(order.index(x[-2]) if x[-2] in order else '?', x[-1]) for x in r))

    def run(self, tier):
        rep = self.rep
        rep.rules = {r.split(':')[0]: r.split(': ', 1)[1] for r in (R_POS, R_ORD, R_ANY, R_ARG)}
        mod = self.prog.module(MOD)
        self.lines = {n.name: n.lineno for n in mod.tree.body if hasattr(n, 'name')}
        for n in ALL:
            if n not in self.lines:
                raise AnalysisBroken(MOD + '.' + n + ' is missing')
        self.ev = Evaluator(self.prog, {}, self.specs, limit=200)
        top = 4 if tier == 'thorough' else 3
        base = [rel(i) for i in range(top)]
        sizes = [ms for k in range(0, top + 1) for ms in itertools.product((1, 2, 3), repeat=k)]
        for ms in sizes:
            rels = base[:len(ms)]
            perms = list(itertools.permutations(rels))
            perms = perms[:1] + perms[-1:] + perms[1:2] if len(perms) > 2 else perms
            total = sum(ms)
            mclan = MO(('m', frozenset(zip(rels, ms))))
            why = {n: None for n in ALL}
            for off in range(0, total + 2):
                for lim in list(range(0, total + 2 - off)) + [total + 3, INF]:
                    style = (off + (0 if lim == INF else lim)) % 4
                    o = MO(A(off)) if style & 1 else off
                    l = MO(A(lim)) if style & 2 else lim
                    for name in ALL:
                        for order in (perms if name in ORDERED and len(ms) < 3 else perms[:1] if name not in ORDERED else
                                      [perms[(off + sum(ms)) % len(perms)]]):
                            rank = {r: i for i, r in enumerate(order)}
                            amount = dict(zip(rels, ms))
                            want = self.want(order, [amount[r] for r in order], off, lim)
                            for rev in (False, True):
                                self.ev.reverse = rev
                                args = [mclan, self.less(rank, style in (0, 3)), o, l] if name in ORDERED else [mclan, o, l]
                                kw = {'_checked': False} if isinstance(o, MO) and isinstance(l, MO) and total % 2 else {}
                                try:
                                    for got in self.call(name, args, kw):
                                        self.judge(name, ms, order, off, lim, want, got, rels, style)
                                except (Unsupported, TypeError, ValueError, AttributeError, KeyError, IndexError, RecursionError) as x:
                                    why[name] = why[name] or reason(x)
            for n in ALL:
                rep.ob('{}.{} multiplicities {}'.format(MOD, n, ms), why[n] is None, why[n])
        self.ev.reverse = False
        self.arguments(base)
        return rep

    def judge(self, name, ms, order, off, lim, want, got, rels, style):
        wit = 'multiplicities {}, offset={}, limit={}'.format([dict(zip(rels, ms))[r] for r in order], off, lim)
        if isinstance(got, list):
            if any(isinstance(x[-1], Sym) or isinstance(x[-1], MO) for x in got):
                raise Unsupported('multiplicity')
        if name == 'multiclan_to_listgen':
            n = max(0, sum(ms) - off)
            n = n if lim == INF else min(n, lim)
            amount = dict(zip(rels, ms))
            ok = isinstance(got, list) and sum(x[1] for x in got) == n and len({x[0] for x in got}) == len(got) and \
                all(x[0] in amount and 1 <= x[1] <= amount[x[0]] for x in got)
            if not ok:
                self.find(R_ANY, name, 'gives {}, not {} relations'.format(self.text(order, got), n), wit)
            return
        if name == 'order_slice':
            ok = isinstance(got, list) and sorted((order.index(x[1]), x[2]) for x in got if x[1] in order) == \
                sorted((order.index(r), n) for r, n in want) and all(x[1] in order for x in got)
            if ok and not want and got:
                ok = False
            if not ok:
                self.find(R_POS, name, 'gives {} instead of {}'.format(self.text(order, got), self.text(order, want)), wit)
            return
        if got != want:
            same = isinstance(got, list) and sorted(got, key=repr) == sorted(want, key=repr)
            self.find(R_ORD if same else R_POS, name,
                      'gives {} instead of {}'.format(self.text(order, got), self.text(order, want)), wit)

    def arguments(self, base):
        rep = self.rep
        mclan = MO(('m', frozenset([(base[0], 2), (base[1], 1)])))
        lt = self.less({r: i for i, r in enumerate(base)}, False)
        no = [('Undef()', UNDEF), ('a text', 'x'), ('an atom of a text', MO(A('x'))), ('None', None), ('a fraction', 1.5),
              ('a set', MO(S(A(1))))]
        others = [('Undef()', UNDEF), ('a set', MO(S(base[0]))), ('a number', 1), ('a multiset of atoms', MO(('m', frozenset([(A(1), 2)])))),
                  ('a relation', MO(base[0]))]
        cases = [('offset is ' + n, mclan, x, 1) for n, x in no] + [('limit is ' + n, mclan, 0, x) for n, x in no] + \
                [('the source is ' + n, x, 0, 1) for n, x in others]
        for name in ALL:
            for label, mc, o, l in cases:
                why = None
                try:
                    for got in self.call(name, [mc, lt, o, l] if name in ORDERED else [mc, o, l], {}):
                        if got != 'undef':
                            self.find(R_ARG, name, 'gives {} instead of Undef()'.format(self.text(base, got)), label)
                except (Unsupported, TypeError, ValueError, AttributeError, KeyError, IndexError, RecursionError) as x:
                    why = reason(x)
                rep.ob('{}.{} where {}'.format(MOD, name, label), why is None, why)
            for what in (MO(('m', frozenset())),):
                why = None
                try:
                    for got in self.call(name, [what, lt, 0, 1] if name in ORDERED else [what, 0, 1], {}):
                        if got != []:
                            self.find(R_POS, name, 'gives {} for an empty multiclan'.format(self.text(base, got)), 'empty')
                except (Unsupported, TypeError, ValueError, AttributeError, KeyError, IndexError, RecursionError) as x:
                    why = reason(x)
                rep.ob('{}.{} of an empty multiclan'.format(MOD, name), why is None, why)


def run(tier):
    return Check().run(tier)
