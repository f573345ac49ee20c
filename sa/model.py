"""The mathematics the library is specified against.

Values: ('a', v) atom, ('c', l, r) couplet, ('s', frozenset) set, ('m', frozenset({(e, n)})) multiset,
'U' undefined.  `DEN` maps the qualified name of a public operation to its textbook denotation;
`truth` gives the truth value of the eleven recorded properties; the UNIVERSE_* tables are the finite
witness domains on which extracted summaries are compared with the denotations.
"""
import itertools

U = 'U'
UNKNOWN, IS, IS_NOT, N_A = 0, 1, 2, 3


def A(v):
    """Atom; values of different types are different (Python has 1 == 1.0 == True)."""
    return ('a', v) if type(v) in (int, str) else ('a', v, type(v).__name__)


def C(l, r): return ('c', l, r)
def S(*xs): return ('s', frozenset(xs))
def Sf(xs): return ('s', frozenset(xs))


def M(d):
    """Multiset from a dict element -> count or an iterable of pairs."""
    items = d.items() if isinstance(d, dict) else d
    acc = {}
    for e, n in items:
        acc[e] = acc.get(e, 0) + n
    return ('m', frozenset((e, n) for e, n in acc.items() if n > 0))


EMPTY = S()
EMPTY_M = M({})


def kind(v):
    return {'a': 'Atom', 'c': 'Couplet', 's': 'Set', 'm': 'Multiset', 'U': 'Undef'}[v[0]]


def is_set(v): return v[0] == 's'
def is_mset(v): return v[0] == 'm'
def is_couplet(v): return v[0] == 'c'
def is_atom(v): return v[0] == 'a'
def elems(v): return v[1] if v[0] == 's' else frozenset(e for e, n in v[1])
def counts(v): return dict(v[1])


_rel_cache = {}


def is_rel(v): return v[0] == 's' and all(e[0] == 'c' for e in v[1])
def is_clan(v): return v[0] == 's' and all(is_rel(e) for e in v[1])
def is_mclan(v): return v[0] == 'm' and all(is_rel(e) for e, n in v[1])


def lefts(r): return Sf(c[1] for c in r[1])
def rights(r): return Sf(c[2] for c in r[1])


def r_functional(r): return len({c[1] for c in r[1]}) == len(r[1])
def r_right_functional(r): return len({c[2] for c in r[1]}) == len(r[1])
def r_reflexive(r): return all(c[1] == c[2] for c in r[1])
def r_symmetric(r): return all(C(c[2], c[1]) in r[1] for c in r[1])


def r_transitive(r):
    return all(C(b[1], a[2]) in r[1] for a in r[1] for b in r[1] if a[1] == b[2])


def r_absolute(r): return all(c[1][0] == 'a' and c[2][0] == 'a' for c in r[1])


RELPROP = {'functional': r_functional, 'right_functional': r_right_functional,
           'reflexive': r_reflexive, 'symmetric': r_symmetric, 'transitive': r_transitive}


def gs_typed(v, st):
    """v's ground set, as the library computes it (C25), is a subset of the structure st."""
    return within(gs(v), st)


def typed(v, st):
    """v is an element of the structure st."""
    if st[0] == 'M':
        return True
    if st[0] == 'A':
        return v[0] == 'a'
    if st[0] == 'N':
        return False
    if st[0] == 'x':
        return v[0] == 'c' and typed(v[1], st[1]) and typed(v[2], st[2])
    if st[0] == 'P':
        if v[0] == 's':
            return all(typed(e, st[1]) for e in v[1])
        if v[0] == 'm':
            return not v[1] or (st[1][0] == 'x' and st[1][2] == ('N',) and
                                all(typed(e, st[1][1]) for e, n in v[1]))
        return False
    if st[0] == '0':
        return v[0] in 'sm' and not v[1]
    return None


def gs(v):
    """Structural type (ground set) of a value."""
    if v[0] == 'a':
        return ('A',)
    if v[0] == 'c':
        return ('x', gs(v[1]), gs(v[2]))
    es = largest(gs(e) for e in elems(v))
    if not es:
        return ('0',)
    base = next(iter(es)) if len(es) == 1 else ('U', es)
    return ('P', base if v[0] == 's' else ('x', base, ('N',)))


def within(a, b):
    """Structural type a is part of structural type b."""
    if a == b or a[0] == '0':
        return True
    if a[0] == 'U':
        return all(within(x, b) for x in a[1])
    if b[0] == 'M':
        return a[0] != 'N'
    if b[0] == 'U':
        return any(within(a, x) for x in b[1])
    if a[0] == b[0] == 'P':
        return within(a[1], b[1])
    if a[0] == b[0] == 'x':
        return within(a[1], b[1]) and within(a[2], b[2])
    return False


def largest(types):
    es = set(types)
    return frozenset(a for a in es if not any(a != b and within(a, b) for b in es))


def gs_level(v, st):
    """Number of power set levels between v's ground set and the structure st (0: unrelated)."""
    level, layer = 0, [v]
    while True:
        types = largest(gs(x) for x in layer)
        if len(types) != 1 or any(x[0] != 's' for x in layer) or types == {('0',)}:
            return 0
        level += 1
        layer = [e for x in layer for e in x[1]]
        if all(typed(e, st) for e in layer):
            return level


CLAN_T = ('P', ('P', ('x', ('M',), ('M',))))


def lifted(v):
    """v is a (nested) set of clans that is itself neither a relation nor a clan."""
    return v[0] == 's' and not is_rel(v) and not is_clan(v) and gs_level(v, CLAN_T) > 0


def b(x): return IS if x else IS_NOT


_truth_cache = {}


def truth(prop, v):
    k = (prop, v)
    r = _truth_cache.get(k)
    if r is None:
        r = _truth_cache[k] = _truth(prop, v)
    return r


def _truth(prop, v):
    t = v[0]
    if prop == 'relation':
        return b(is_rel(v))
    if prop == 'clan':
        return b(is_clan(v))
    if prop == 'multiclan':
        return b(is_mclan(v))
    if prop == 'absolute':
        if t == 'a':
            return IS
        if t == 'c':
            return b(v[1][0] == 'a' and v[2][0] == 'a')
        if t == 's':
            if is_rel(v):
                return b(r_absolute(v))
            if is_clan(v):
                return b(all(r_absolute(r) for r in v[1]))
            return b(all(e[0] == 'a' for e in v[1]))
        if is_mclan(v):
            return b(all(r_absolute(r) for r, n in v[1]))
        return b(all(e[0] == 'a' for e, n in v[1]))
    if t == 'a':
        return N_A
    if t == 'c':
        return b(v[1] == v[2]) if prop == 'reflexive' else N_A
    if prop in RELPROP:
        f = RELPROP[prop]
        if is_rel(v):
            return b(f(v))
        if is_clan(v) or is_mclan(v):
            return b(all(f(r) for r in elems(v)))
        if lifted(v):
            return b(all(truth(prop, e) == IS for e in v[1]))
        return N_A
    # regular / right_regular
    fn, side = (r_functional, lefts) if prop == 'regular' else (r_right_functional, rights)
    if not v[1]:
        return IS
    if is_rel(v):
        return N_A
    if is_clan(v) or is_mclan(v):
        es = elems(v)
        return b(all(fn(r) for r in es) and len({side(r) for r in es}) == 1)
    if lifted(v):
        es = list(v[1])
        get = (lambda e: sideset(e, 1)) if prop == 'regular' else (lambda e: sideset(e, 2))
        return b(all(truth(prop, e) == IS for e in es) and len({get(e) for e in es}) == 1)
    return N_A


def sideset(v, i):
    """Left (i=1) / right (i=2) set of any object, 'U' where undefined."""
    if is_rel(v):
        return Sf(c[i] for c in v[1])
    if v[0] == 's':
        if is_clan(v) or lifted(v):
            out = set()
            for e in v[1]:
                out |= sideset(e, i)[1]
            return Sf(out)
        return U
    if is_mclan(v):
        out = set()
        for e in elems(v):
            out |= sideset(e, i)[1]
        return Sf(out)
    return U


# ------------------------------------------------------------------------------------------------
# denotations
def _guard(*tests):
    def deco(f):
        def g(*args):
            for t, a in zip(tests, args):
                if t is not None and not (a != U and t(a)):
                    return U
            return f(*args)
        g.tests = tests
        return g
    return deco


DEN = {}


def den(name, *tests):
    def deco(f):
        DEN[name] = _guard(*tests)(f)
        return f
    return deco


SETS, COUPLETS, RELS, CLANS = 'algebras.sets.', 'algebras.couplets.', 'algebras.relations.', 'algebras.clans.'
MSETS, MCLANS, PROPS_ = 'algebras.multisets.', 'algebras.multiclans.', 'algebras.properties.'
AL = 'Algebra.'

den(SETS + AL + 'union', is_set, is_set)(lambda a, b: Sf(a[1] | b[1]))
den(SETS + AL + 'intersect', is_set, is_set)(lambda a, b: Sf(a[1] & b[1]))
den(SETS + AL + 'minus', is_set, is_set)(lambda a, b: Sf(a[1] - b[1]))
den(SETS + AL + 'substrict', is_set, is_set)(lambda a, b: a if a[1] <= b[1] else U)
den(SETS + AL + 'superstrict', is_set, is_set)(lambda a, b: a if a[1] >= b[1] else U)
den(SETS + AL + 'is_subset_of', is_set, is_set)(lambda a, b: a[1] <= b[1])
den(SETS + AL + 'is_superset_of', is_set, is_set)(lambda a, b: a[1] >= b[1])
den(SETS + 'multify', is_set)(lambda a: M((e, 1) for e in a[1]))


@den(SETS + 'big_union', is_set)
def _(a):
    if not all(is_set(e) for e in a[1]):
        return U
    out = frozenset()
    for e in a[1]:
        out |= e[1]
    return Sf(out)


@den(SETS + 'big_intersect', is_set)
def _(a):
    if not all(is_set(e) for e in a[1]):
        return U
    return Sf(frozenset.intersection(*[e[1] for e in a[1]])) if a[1] else EMPTY


den(SETS + 'single', is_set)(lambda a: next(iter(a[1])) if len(a[1]) == 1 else U)
den(SETS + 'power_set', is_set)(lambda a: Sf(Sf(c) for k in range(len(a[1]) + 1)
                                             for c in itertools.combinations(a[1], k)))
den(SETS + 'power_up', is_set)(lambda a: Sf(S(e) for e in a[1]))
den(SETS + 'restrict', is_set, None)(lambda a, f: Sf(e for e in a[1] if f(e)))

EXT = 'extension.'


@den(EXT + 'binary_extend', is_set, is_set)
def _(a, b, f):
    return Sf(r for x in a[1] for y in b[1] for r in [f(x, y)] if r != U)


@den(EXT + 'unary_extend', is_set)
def _(a, f):
    return Sf(r for x in a[1] for r in [f(x)] if r != U)


def _count(pairs):
    out = {}
    for r, n in pairs:
        if r != U:
            out[r] = out.get(r, 0) + n
    return M(out)


@den(EXT + 'binary_multi_extend', is_mset, is_mset)
def _(a, b, f):
    return _count((f(x, y), n * k) for x, n in a[1] for y, k in b[1])


@den(EXT + 'unary_multi_extend', lambda v: is_set(v) or is_mset(v))
def _(a, f):
    return _count((f(x), n) for x, n in (a[1] if is_mset(a) else ((e, 1) for e in a[1])))


PART = 'partition.'


def _classes(a, f):
    out = {}
    for e in (a[1] if is_set(a) else counts(a)):
        k = f(e)
        out.setdefault(k if isinstance(k, tuple) else A(k), []).append(e)
    return {k: Sf(v) if is_set(a) else M({e: counts(a)[e] for e in v}) for k, v in out.items()}


for _raw in ('', '#raw'):
    den(PART + 'partition' + _raw)(lambda a, f: Sf(_classes(a, f).values()))
    den(PART + 'make_labeled_partition' + _raw)(lambda a, f: Sf(C(k, v) for k, v in _classes(a, f).items()))

RDF = 'util.rdf.'
SPO = [('a', 's'), ('a', 'p'), ('a', 'o')]


def triple(s, p, o):
    return S(*[C(l, r) for l, r in zip(SPO, (s, p, o))])


def is_triple(v):
    return is_rel(v) and sorted(repr(c[1]) for c in v[1]) == sorted(map(repr, SPO))


def is_graph(v):
    return is_clan(v) and bool(v[1]) and all(is_triple(t) for t in v[1])


def _absolute(v):
    return all(c[1][0] == 'a' and c[2][0] == 'a' for c in v[1])


def _match(g, d):
    return Sf(t for t in g[1] if all(C(conv(k), conv(v)) in t[1] for k, v in d))


def conv(x):
    return x if isinstance(x, tuple) and x and x[0] in ('a', 'c', 's', 'm') else A(x)


def _project(g, p):
    return Sf(Sf(C(conv(new), c[2]) for c in t[1] for old, new in p if c[1] == conv(old)) for t in g[1])


def _triple_match(g, *spo):
    pat, proj = [], []
    for l, v in zip(SPO, spo):
        if isinstance(v, str) and v[:1] in ('?', '$'):
            proj.append((l, v))
        elif v is not None:
            pat.append((l, v))
    return _project(_match(g, pat), proj)


def _join(*cs):
    r = cs[0]
    for c in cs[1:]:
        r = DEN[CLANS + AL + 'cross_functional_union'](r, c)
    return r


den(RDF + 'is_triple', None)(is_triple)
den(RDF + 'is_absolute_triple', None)(lambda v: is_triple(v) and _absolute(v))
den(RDF + 'is_graph', None)(is_graph)
den(RDF + 'is_absolute_graph', None)(lambda v: is_graph(v) and all(map(_absolute, v[1])))
den(RDF + 'make_triple', None, None, None)(triple)
den(RDF + 'pattern_match', None, None)(_match)
den(RDF + 'match_and_project', None, None, None)(lambda g, d, p: _project(_match(g, d), p))
den(RDF + 'match_and_project#all', None, None, None)(lambda g, d, p: _project(g, p))
for _k in range(12):
    den(RDF + 'triple_match#%d' % _k, None, None, None, None)(_triple_match)
den(RDF + 'join', is_clan, is_clan, None)(lambda a, b, cs: _join(a, b, *cs))

den(COUPLETS + AL + 'transpose', is_couplet)(lambda c: C(c[2], c[1]))
den(COUPLETS + AL + 'compose', is_couplet, is_couplet)(
    lambda a, b: C(b[1], a[2]) if a[1] == b[2] else U)
den(COUPLETS + 'is_reflexive', is_couplet)(lambda c: c[1] == c[2])


def r_transpose(r): return Sf(C(c[2], c[1]) for c in r[1])


def r_compose(a, b): return Sf(C(y[1], x[2]) for x in a[1] for y in b[1] if x[1] == y[2])


def r_funion(a, b):
    u = Sf(a[1] | b[1])
    return u if r_functional(u) else U


def r_rfunion(a, b):
    u = Sf(a[1] | b[1])
    return u if r_right_functional(u) else U


def r_diag(xs): return Sf(C(x, x) for x in xs)


def r_fill(rel, ren):
    return Sf(ren[1] | r_diag(lefts(rel)[1] - rights(ren)[1])[1])


def r_rename(rel, ren): return r_compose(rel, r_fill(rel, ren))


def r_rfl(rel, left): return Sf(c[2] for c in rel[1] if c[1] == left)


den(RELS + AL + 'transpose', is_rel)(r_transpose)
den(RELS + AL + 'compose', is_rel, is_rel)(r_compose)
den(RELS + AL + 'functional_union', is_rel, is_rel)(r_funion)
den(RELS + AL + 'right_functional_union', is_rel, is_rel)(r_rfunion)
den(RELS + 'get_lefts', is_rel)(lefts)
den(RELS + 'get_rights', is_rel)(rights)
den(RELS + 'get_rights_for_left', is_rel, None)(lambda r, l: EMPTY if l == U else r_rfl(r, l))


def _unique(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else U


den(RELS + 'get_right', is_rel, None)(lambda r, l: U if l == U else
                                      _unique(c[2] for c in r[1] if c[1] == l))
den(RELS + 'get_left', is_rel, None)(lambda r, x: U if x == U else
                                     _unique(c[1] for c in r[1] if c[2] == x))
for _p in RELPROP:
    den(RELS + 'is_' + _p, is_rel)(RELPROP[_p])
    den(CLANS + 'is_' + _p, is_clan)(lambda v, p=_p: truth(p, v) == IS)
    den(MCLANS + 'is_' + _p, is_mclan)(lambda v, p=_p: truth(p, v) == IS)
for _p in ('regular', 'right_regular'):
    den(CLANS + 'is_' + _p, is_clan)(lambda v, p=_p: truth(p, v) == IS)
    den(MCLANS + 'is_' + _p, is_mclan)(lambda v, p=_p: truth(p, v) == IS)
den(RELS + 'fill_lefts', is_rel, is_rel)(r_fill)
den(RELS + 'rename', is_rel, is_rel)(r_rename)
den(RELS + 'swap', is_rel, is_rel)(lambda r, s: r_rename(r, Sf(s[1] | r_transpose(s)[1])))
den(RELS + 'functional_add', is_rel, is_couplet)(
    lambda f, c: U if not r_functional(f) or c[1] in lefts(f)[1] else Sf(f[1] | {c}))
den(RELS + 'from_dict', None)(lambda d: Sf(C(k, v) for k, v in d))
den(RELS + 'diag', None)(lambda xs: U if U in xs else r_diag(xs))
den(RELS + 'defined_at', is_rel, None)(lambda r, l: r if l != U and r_rfl(r, l)[1] else U)


def cross(f):
    def g(a, b):
        return Sf(x for x in (f(p, q) for p in a[1] for q in b[1]) if x != U)
    return g


def r_union(a, b): return Sf(a[1] | b[1])
def r_inter(a, b): return Sf(a[1] & b[1])
def r_sub(a, b): return a if a[1] <= b[1] else U
def r_sup(a, b): return a if a[1] >= b[1] else U


CROSS = {'compose': r_compose, 'cross_union': r_union, 'cross_functional_union': r_funion,
         'cross_right_functional_union': r_rfunion, 'cross_intersect': r_inter, 'substrict': r_sub,
         'superstrict': r_sup}
den(CLANS + AL + 'transpose', is_clan)(lambda c: Sf(r_transpose(r) for r in c[1]))
for _n, _f in CROSS.items():
    den(CLANS + AL + _n, is_clan, is_clan)(cross(_f))
den(CLANS + AL + 'lhs_cross_functional_union', is_clan, is_clan)(
    lambda a, b: Sf(cross(r_funion)(a, b)[1] |
                    {r for r in a[1] if not cross(r_funion)(S(r), b)[1]}))
den(CLANS + 'get_lefts', is_clan)(lambda c: sideset(c, 1))
den(CLANS + 'get_rights', is_clan)(lambda c: sideset(c, 2))
den(CLANS + 'project', is_clan, None)(
    lambda c, ls: U if U in ls else Sf(r_compose(r, r_diag(ls)) for r in c[1]))
den(CLANS + 'from_set', None, None)(lambda l, vs: Sf(S(C(l, v)) for v in vs))
den(CLANS + 'from_dict', None)(lambda d: S(Sf(C(k, v) for k, v in d)))
den(CLANS + 'diag', None)(lambda xs: U if U in xs else S(r_diag(xs)))


@den(CLANS + 'defined_at', is_clan, None)
def _(c, l):
    out = Sf(r for r in c[1] if l != U and r_rfl(r, l)[1])
    return out if out[1] else U


den(MSETS + AL + 'union', is_mset, is_mset)(
    lambda a, b: M({e: max(counts(a).get(e, 0), counts(b).get(e, 0)) for e in elems(a) | elems(b)}))
den(MSETS + AL + 'intersect', is_mset, is_mset)(
    lambda a, b: M({e: min(counts(a).get(e, 0), counts(b).get(e, 0)) for e in elems(a)}))
den(MSETS + AL + 'minus', is_mset, is_mset)(
    lambda a, b: M({e: n - counts(b).get(e, 0) for e, n in a[1]}))
den(MSETS + AL + 'add', is_mset, is_mset)(lambda a, b: M(list(a[1]) + list(b[1])))


def m_sub(a, b):
    cb = counts(b)
    return all(n <= cb.get(e, 0) for e, n in a[1])


den(MSETS + AL + 'is_subset_of', is_mset, is_mset)(m_sub)
den(MSETS + AL + 'is_superset_of', is_mset, is_mset)(lambda a, b: m_sub(b, a))
den(MSETS + AL + 'substrict', is_mset, is_mset)(lambda a, b: a if m_sub(a, b) else U)
den(MSETS + AL + 'superstrict', is_mset, is_mset)(lambda a, b: a if m_sub(b, a) else U)
den(MSETS + 'demultify', is_mset)(lambda a: Sf(elems(a)))


def _bigm(f):
    def g(s):
        if not all(is_mset(e) for e in s[1]):
            return U
        xs = list(s[1])
        if not xs:
            return EMPTY
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


den(MSETS + 'big_union', is_set)(_bigm(DEN[MSETS + AL + 'union']))
den(MSETS + 'big_intersect', is_set)(_bigm(DEN[MSETS + AL + 'intersect']))
den(MSETS + 'single', is_mset)(lambda a: next(iter(a[1]))[0]
                               if len(a[1]) == 1 and next(iter(a[1]))[1] == 1 else U)


def mcross(f):
    def g(a, b):
        out = []
        for p, n in a[1]:
            for q, m in b[1]:
                x = f(p, q)
                if x != U:
                    out.append((x, n * m))
        return M(out)
    return g


den(MCLANS + AL + 'transpose', is_mclan)(lambda c: M([(r_transpose(r), n) for r, n in c[1]]))
for _n in ('compose', 'cross_union', 'cross_functional_union', 'cross_right_functional_union',
           'cross_intersect'):
    den(MCLANS + AL + _n, is_mclan, is_mclan)(mcross(CROSS[_n]))
# The left and right sets of the empty multiclan are (as the tests state) the empty multiset itself.
for _n in ('substrict', 'superstrict'):
    # the relations that are kept, with their multiplicity in the first operand
    den(MCLANS + AL + _n, is_mclan, is_mclan)(
        lambda a, b, f=CROSS[_n]: M([(p, n) for p, n in a[1] if any(f(p, q) != U for q, _ in b[1])]))
den(MCLANS + 'get_lefts', is_mclan)(lambda c: sideset(c, 1) if c[1] else EMPTY_M)
den(MCLANS + 'get_rights', is_mclan)(lambda c: sideset(c, 2) if c[1] else EMPTY_M)
den(MCLANS + 'get_rights_for_left', is_mclan, None)(
    lambda c, l: EMPTY if l == U else M([(x, n) for r, n in c[1] for x in r_rfl(r, l)[1]]))
den(MCLANS + 'project', is_mclan, None)(
    lambda c, ls: U if U in ls else M([(r_compose(r, r_diag(ls)), n) for r, n in c[1]]))
den(MCLANS + 'diag', None)(lambda xs: U if U in xs else M([(r_diag(xs), 1)]))
den(MCLANS + 'from_dict', None)(lambda d: M([(Sf(C(k, v) for k, v in d), 1)]))


@den(MCLANS + 'defined_at', is_mclan, None)
def _(c, l):
    out = M([(r, n) for r, n in c[1] if l != U and r_rfl(r, l)[1]])
    return out if out[1] else U


def _raws(f):
    def conv(x):
        return x if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('a', 'c', 's', 'm') or x == U else A(x)

    def g(*args):
        out = []
        for v in args:
            plain = isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0] in ('a', 'c', 's', 'm'))
            out.append(tuple(map(conv, v)) if plain else conv(v))
        return f(*out)
    return g


for _n in (RELS + 'get_rights_for_left', RELS + 'defined_at', RELS + 'get_right', RELS + 'get_left', RELS + 'diag',
           CLANS + 'diag', CLANS + 'project', CLANS + 'from_set', CLANS + 'defined_at', MCLANS + 'get_rights_for_left',
           MCLANS + 'project', MCLANS + 'diag', MCLANS + 'defined_at'):
    DEN[_n + '#raw'] = _raws(DEN[_n])


def tri(prop):
    def f(v):
        t = truth(prop, v)
        return U if t == N_A else t == IS
    return f


for _p in ('functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular',
           'right_regular'):
    DEN[PROPS_ + 'is_' + _p] = _guard(lambda v: v != U)(tri(_p))


def _and(*props):
    def f(v):
        if v == U:
            return U
        for p in props:
            x = tri(p)(v)
            if x is U or not x:
                return x
        return True
    return f


DEN[PROPS_ + 'is_bijective'] = _and('functional', 'right_functional')
DEN[PROPS_ + 'is_equivalence_relation'] = _and('symmetric', 'transitive', 'reflexive')

for _m, _t, _abs in ((SETS, is_set, None), (COUPLETS, is_couplet, None), (RELS, is_rel, None),
                     (CLANS, is_clan, None), (MSETS, is_mset, None), (MCLANS, is_mclan, None)):
    DEN[_m + 'is_member'] = lambda v, t=_t: v != U and t(v)
    DEN[_m + 'is_member_or_undef'] = lambda v, t=_t: v == U or t(v)
    DEN[_m + 'is_absolute_member'] = lambda v, t=_t: v != U and t(v) and truth('absolute', v) == IS

DEN[SETS + 'is_absolute_member'] = lambda v: (v != U and is_set(v) and not is_rel(v) and not is_clan(v)
                                              and truth('absolute', v) == IS)
DEN[MSETS + 'is_absolute_member'] = lambda v: (v != U and is_mset(v) and not is_mclan(v)
                                               and truth('absolute', v) == IS)
DEN['mo.get_left_set'] = lambda v: EMPTY_M if v == EMPTY_M else sideset(v, 1)
DEN['mo.get_right_set'] = lambda v: EMPTY_M if v == EMPTY_M else sideset(v, 2)


def mo_call(v, left):
    if v == U or left == U or not is_set(v) or not is_rel(v) or not r_functional(v):
        return U
    return next((c[2] for c in v[1] if c[1] == left), U)


def mo_getitem(v, left):
    if v == U or left == U or v[0] in 'ac':
        return U
    if is_rel(v):
        return Sf(c[2] for c in v[1] if c[1] == left)
    if is_clan(v):
        return Sf(c[2] for r in v[1] for c in r[1] if c[1] == left)
    if v[0] == 's':
        return U
    if all(e[0] == 'c' for e, n in v[1]):
        return M([(e[2], n) for e, n in v[1] if e[1] == left])
    if is_mclan(v):
        return M([(c[2], n) for r, n in v[1] for c in r[1] if c[1] == left])
    return U


DEN['mo.call'] = mo_call
DEN['mo.getitem'] = mo_getitem


def stable_hash(text):
    """Hash of a text; what holds the number 1 and what holds the number 2 in its place have equal hashes (as -1
    and -2 have in Python): different values may share their hash."""
    import zlib
    return zlib.crc32(text.replace("('a', 2)", "('a', 1)").encode()) * 2654435761 % (1 << 61) + 1


def value_hash(v):
    if isinstance(v, tuple) and v and v[0] in ('s', 'm'):
        return stable_hash(v[0] + repr(sorted(repr(x).replace("('a', 2)", "('a', 1)") for x in v[1])))
    if isinstance(v, (int, float)):
        return stable_hash(repr(float(1 if v == 2 else v)))      # equal numbers have equal hashes
    return stable_hash(repr(v))


def mo_order(v):
    """Key of a total order on mathobjects."""
    return {'a': 'Atom', 'c': 'Couplet', 's': 'Set', 'm': 'Multiset'}[v[0]], text_repr(v)


def text_repr(v):
    """A code representation of a value (any faithful one would do)."""
    if not isinstance(v, tuple):
        return repr(v)
    if v[0] == 'tuple':
        return '(' + ', '.join(text_repr(x) for x in v[1]) + ')'
    if v[0] == 'a':
        return 'Atom({!r})'.format(v[1])
    if v[0] == 'c':
        return 'Couplet(left={}, right={})'.format(text_repr(v[1]), text_repr(v[2]))
    if v[0] == 's':
        return 'Set({})'.format(', '.join(text_repr(x) for x in sorted(v[1], key=repr)))
    return 'Multiset({{{}}})'.format(', '.join('{}: {}'.format(text_repr(x), n) for x, n in sorted(v[1], key=repr)))


def text_str(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] == 'a':
        return repr(v[1])
    if v[0] == 'c':
        return '({}->{})'.format(text_str(v[1]), text_str(v[2]))
    if v[0] == 's':
        return '{' + ', '.join(text_str(x) for x in sorted(v[1], key=repr)) + '}'
    if v[0] == 'm':
        return '[' + ', '.join('{}:{}'.format(text_str(x), n) for x, n in sorted(v[1], key=repr)) + ']'
    return '(' + ', '.join(text_repr(x) for x in v[1]) + ')'


# nondeterministic: any element is acceptable
ANY = {SETS + 'some': lambda a, r: (r == U) if not (a != U and is_set(a) and a[1]) else r in a[1],
       MSETS + 'some': lambda a, r: (r == U) if not (a != U and is_mset(a) and a[1]) else r in elems(a)}

# ------------------------------------------------------------------------------------------------
# witness domains
a1, a2, a3 = A(1), A(2), A(3)
c11, c12, c21, c22 = C(a1, a1), C(a1, a2), C(a2, a1), C(a2, a2)
c13, c31, c33, c23 = C(a1, a3), C(a3, a1), C(a3, a3), C(a2, a3)
cN = C(a1, S(a1))              # not absolute on the right
cN2 = C(S(a1), a1)             # not absolute on the left
cN3 = C(S(a1), S(a1))

ATOMS = [a1, a2, a3]
COUPLET_U = [c11, c12, c21, c22, c13, cN, cN2, cN3]
REL_U = [Sf(x) for k in range(0, 5) for x in itertools.combinations([c11, c12, c21, c22], k)] + \
        [S(cN), S(cN2), S(cN3), S(c11, cN), S(c12, cN2), S(c12, c23, c13), S(c12, c23), S(c33),
         S(c12, c31), S(c11, c22, c33)]
REL_SMALL = [S(), S(c11), S(c12), S(c21), S(c22), S(c11, c22), S(c11, c12), S(c11, c21),
             S(c12, c21), S(cN), S(c12, cN2)]
_cr = [S(), S(c11), S(c12), S(c21), S(c22), S(c11, c22), S(c12, c21), S(c11, c12), S(c11, c21), S(cN)]
CLAN_U = [Sf(x) for k in (0, 1, 2) for x in itertools.combinations(_cr, k)] + \
         [S(S(c11), S(c22), S(c12)), S(S(c11), S(c12), S(c11, c12)), S(S(c11, c12, c21, c22)),
          S(S(c11, c22), S(c12, c21), S(c21))]
CLAN_PAIR = [S(), S(S()), S(S(c11)), S(S(c12)), S(S(c22)), S(S(cN)), S(S(c11), S(c12)),
             S(S(c11), S(c22)), S(S(c11), S(c21)), S(S(), S(c11)), S(S(), S(c12)), S(S(c11, c22)),
             S(S(c12, c22)),
             S(S(c11, c12)), S(S(c11, c21)), S(S(c12, c21)), S(S(c11, c22), S(c12, c21)),
             S(S(c11, c21), S(c12)), S(S(c11, c12), S(c21)), S(S(c11, c12), S(c11)),
             S(S(c11), S(c11, c22)), S(S(cN), S(c11)), S(S(cN2), S(c11)), S(S(c21), S(c11, c22)),
             S(S(c12), S(c22), S(c12, c22)), S(S(c12), S(c21)), S(S(c13), S(c23)), S(S(c33))]
PLAIN_SET_U = [S(a1), S(a2), S(a1, a2), S(a2, a3), S(a1, c11), S(a1, S(a1)), S(a1, S(c11)), S(S(a1)),
               S(S(a1), S(a2)), S(S(a1, a2), S(a2)), S(a1, S()), S(c11, S(c11)), S(S(a1), S(c11)),
               S(M({a1: 1})), S(M({a1: 2}), M({a1: 1, a2: 3})), S(M({S(c11): 1})), S(S(S())),
               S(S(S(c11))), S(S(S(c12), S(c11))), S(S(S(c11)), S(S(c12))), S(S(S(c11)), S(S(c21))),
               S(S(S(c11, c12))), S(S(S(c11)), S()), S(a1, M({a1: 1})), S(c12, a2)]
SET_U = REL_U[:12] + [S(cN), S(c11, cN), S(c12, c23, c13)] + CLAN_PAIR[1:22] + PLAIN_SET_U
SET_PAIR = [S(), S(a1), S(a1, a2), S(a2, a3), S(a1, c11), S(c11), S(c12), S(c11, c12), S(c11, c21),
            S(c12, c21), S(c11, c22), S(cN), S(c11, cN), S(c11, c12, c22), S(c12, c23), S(c12, c23, c13),
            S(S()), S(S(c11)), S(S(c12)), S(S(c11), S(c12)), S(S(c11), S(c22)), S(S(c11), S(c21)),
            S(S(c11, c12)), S(S(c11, c12), S(c11)), S(S(c11, c21), S(c12)), S(S(c11, c22), S(c12, c21)),
            S(S(cN)), S(S(cN), S(c11)), S(S(), S(c11)), S(S(a1)), S(S(a1), S(c11)), S(a1, S(c11)),
            S(S(S(c11))), S(M({a1: 1})), S(S(a1, a2)), S(c11, S(c11)), S(S(c12, c21)), S(S(c22), S(c12))]
MSET_U = [M({}), M({a1: 1}), M({a1: 2}), M({a1: 1, a2: 1}), M({a1: 2, a2: 3}), M({a2: 2}), M({c11: 2}),
          M({c11: 1, c12: 2}), M({S(c11): 1}), M({S(c11): 2}), M({S(c12): 1}), M({S(c12): 3}),
          M({S(c11): 1, S(c12): 1}), M({S(c11): 2, S(c12): 1}), M({S(c11): 1, S(c22): 2}),
          M({S(c11): 1, S(c21): 1}), M({S(c11, c12): 1}), M({S(c11, c12): 1, S(c11): 2}),
          M({S(c11, c21): 1, S(c12): 1}), M({S(): 1}), M({S(): 1, S(c11): 1}), M({S(cN): 1}),
          M({S(cN): 2, S(c11): 1}), M({S(c12, c21): 2}), M({S(c11, c22): 1, S(c12, c21): 1}),
          M({S(a1): 1}), M({S(a1): 1, S(c11): 1}), M({a1: 1, S(c11): 2}), M({S(S(c11)): 1}),
          M({S(c22): 2}), M({S(c12): 1, S(c21): 1})]
MCLAN_U = [v for v in MSET_U if is_mclan(v)] + [M({S(c11, c22): 3}), M({S(c12, c22): 2}),
                                                 M({S(c21): 1, S(c11, c22): 2}), M({S(c21): 2}),
                                                 M({S(c11): 3, S(c11, c12): 1}), M({S(cN2): 1, S(c11): 1}),
                                                 M({S(c13): 1, S(c23): 2})]
MO_U = [a1, c11, c12, cN, cN2, cN3, S(), S(a1), S(a1, a2), S(c11), S(c12), S(c11, c12), S(c11, c21), S(c12, c21),
        S(c12, c23), S(cN), S(S()), S(S(c11)), S(S(c11), S(c12)), S(S(c11), S(c22)), S(S(c11), S(c21)),
        S(S(c11, c12)), S(S(c11, c22), S(c12, c21)),
        S(S(c11, c21), S(c12)), S(S(cN)), S(a1, S(c11)), S(S(a1)), S(S(S(c11))), S(S(S(c11)), S(S(c12))),
        S(S(S(c11)), S(S(c21))), S(S(S(c11)), S(S(c22))), S(S(S(c11), S(c22))), S(S(S(c11)), S(S(c11), S(c21))),
        S(S(S(c11, c12))), S(S(S(c11, c21))),
        S(S(S(S(c11)))), M({}), M({a1: 2}), M({c11: 1}), M({S(c11): 2}),
        M({S(c11): 1, S(c12): 1}), M({S(c11): 1, S(c22): 1}), M({S(c11, c12): 1}), M({S(c11, c21): 2}),
        M({S(c12, c23): 1}), M({S(): 1}), M({S(c11): 2, S(c21): 1}), M({S(c12): 1, S(c21): 1}),
        M({S(cN): 1}), M({S(a1): 1}), M({S(S(c11)): 1}), M({a1: 1, S(c11): 1})]
MO_U += [S(M({})), S(S(), c12), S(S(S())), C(S(), a1), C(a1, S()), S(C(S(), a1)), S(C(a1, S())), S(S(C(S(), a1))),
         S(S(C(a1, S()))), M({M({}): 1}), M({S(C(S(), a1)): 2}), S(S(), a1), S(S(M({}))), S(S(S(), c12)), S(c12, M({}))]
NONMEMBER_U = [a1, c11, S(a1), S(c11), S(S(c11)), S(a1, S(c11)), M({a1: 1}), M({S(c11): 2}), S(), M({})]

TRIPLES = [triple(a1, a2, a3), triple(a1, a2, a1), triple(a2, a2, a3), triple(a1, a1, a2), triple(a3, a2, S(a1))]
GRAPH_U = [S(TRIPLES[0]), S(*TRIPLES[:2]), S(*TRIPLES[:3]), S(*TRIPLES), S(TRIPLES[4]), S(TRIPLES[1], TRIPLES[3])]
RDF_MO = GRAPH_U + TRIPLES + [S(C(SPO[0], a1), C(SPO[1], a1)), S(C(SPO[0], a1), C(SPO[0], a2), C(SPO[1], a1), C(SPO[2], a1)),
                              S(C(SPO[0], a1), C(SPO[1], a1), C(a1, a1)), S(C(SPO[0], a1), C(SPO[1], a1), C(SPO[2], a1), C(a1, a1)),
                              S(S(C(SPO[0], a1), C(SPO[1], a1)), S(C(SPO[2], a1))), S(TRIPLES[0], S(C(SPO[0], a1))),
                              S(S(C(SPO[0], a1), C(SPO[1], a1), C(SPO[2], a1), C(SPO[2], a2))), S(TRIPLES[0], S()), S(TRIPLES[0], a1),
                              S(C(SPO[0], a1), C(SPO[0], a2), C(SPO[1], a2)), S(C(SPO[0], S(a1)), C(SPO[1], a2), C(SPO[2], a1)),
                              S(S(*[C(x, S(a1)) for x in SPO])), M({TRIPLES[0]: 1}), M({c: 1 for c in TRIPLES[0][1]})]
