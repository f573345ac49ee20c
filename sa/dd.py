"""Multi-valued decision diagrams with Boolean leaves (path conditions).

A condition is an int: 0 = False, 1 = True, otherwise the id of a hash-consed node
(var, children), where ``var`` is the index of a registered variable and ``children`` has one
condition per value of the variable's finite domain.  Canonical: equal conditions have equal ids.
"""

FALSE = 0
TRUE = 1

_vars = []          # index -> (name, domain)
_var_ix = {}        # name -> index
_nodes = [None, None]
_unique = {}
_memo_and = {}
_memo_not = {}
_memo_or = {}


def reset():
    global _vars, _var_ix, _nodes, _unique
    _vars = []
    _var_ix = {}
    _nodes = [None, None]
    _unique = {}
    _memo_and.clear()
    _memo_not.clear()
    _memo_or.clear()


BOOL = (False, True)


def var(name, domain=BOOL):
    """Index of the variable ``name`` (registered on first use)."""
    ix = _var_ix.get(name)
    if ix is None:
        ix = len(_vars)
        _vars.append((name, tuple(domain)))
        _var_ix[name] = ix
    return ix


def var_name(ix):
    return _vars[ix][0]


def var_domain(ix):
    return _vars[ix][1]


def mk(ix, children):
    first = children[0]
    for c in children:
        if c != first:
            break
    else:
        return first
    key = (ix, children)
    n = _unique.get(key)
    if n is None:
        n = len(_nodes)
        _nodes.append(key)
        _unique[key] = n
    return n


def lit(name, value=True, domain=BOOL):
    """The condition ``variable == value``."""
    ix = var(name, domain)
    dom = _vars[ix][1]
    return mk(ix, tuple(TRUE if v == value else FALSE for v in dom))


def node(n):
    return _nodes[n]


def neg(a):
    if a == FALSE:
        return TRUE
    if a == TRUE:
        return FALSE
    r = _memo_not.get(a)
    if r is None:
        ix, ch = _nodes[a]
        r = mk(ix, tuple(neg(c) for c in ch))
        _memo_not[a] = r
        _memo_not[r] = a
    return r


def conj(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE or a == b:
        return b
    if b == TRUE:
        return a
    if a > b:
        a, b = b, a
    key = (a, b)
    r = _memo_and.get(key)
    if r is None:
        ia, ca = _nodes[a]
        ib, cb = _nodes[b]
        if ia == ib:
            r = mk(ia, tuple(conj(x, y) for x, y in zip(ca, cb)))
        elif ia < ib:
            r = mk(ia, tuple(conj(x, b) for x in ca))
        else:
            r = mk(ib, tuple(conj(a, y) for y in cb))
        _memo_and[key] = r
    return r


def disj(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE or a == b:
        return b
    if b == FALSE:
        return a
    return neg(conj(neg(a), neg(b)))


def conj_all(items):
    r = TRUE
    for i in items:
        r = conj(r, i)
        if r == FALSE:
            break
    return r


def disj_all(items):
    r = FALSE
    for i in items:
        r = disj(r, i)
    return r


def implies(a, b):
    return conj(a, neg(b)) == FALSE


def constrain(f, c):
    """Generalised cofactor: agrees with f wherever c holds (simplification under c)."""
    memo = {}

    def rec(f, c):
        if c == TRUE or f in (FALSE, TRUE):
            return f
        if c == FALSE:
            return FALSE
        key = (f, c)
        r = memo.get(key)
        if r is not None:
            return r
        jf, cf = _nodes[f]
        jc, cc = _nodes[c]
        if jc < jf:
            # c tests a variable f does not: drop it if some branches are impossible
            live = [x for x in cc if x != FALSE]
            if len(live) == 1:
                r = rec(f, live[0])
            else:
                d = FALSE
                for x in live:
                    d = disj(d, x)
                r = rec(f, d)
        elif jf < jc:
            r = mk(jf, tuple(rec(x, c) for x in cf))
        else:
            live = [(x, y) for x, y in zip(cf, cc) if y != FALSE]
            if len(live) == 1:
                r = rec(live[0][0], live[0][1])
            else:
                sub = [rec(x, y) if y != FALSE else None for x, y in zip(cf, cc)]
                some = next(s for s in sub if s is not None)
                r = mk(jf, tuple(some if s is None else s for s in sub))
        memo[key] = r
        return r
    return rec(f, c)


def support(f):
    seen = set()
    out = set()
    stack = [f]
    while stack:
        n = stack.pop()
        if n in (FALSE, TRUE) or n in seen:
            continue
        seen.add(n)
        ix, ch = _nodes[n]
        out.add(ix)
        stack.extend(ch)
    return out


def restrict(f, assign):
    """Cofactor under a partial assignment {var index: value}."""
    memo = {}

    def rec(n):
        if n in (FALSE, TRUE):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        ix, ch = _nodes[n]
        if ix in assign:
            dom = _vars[ix][1]
            v = assign[ix]
            if v in dom:
                r = rec(ch[dom.index(v)])
            else:
                r = FALSE
        else:
            r = mk(ix, tuple(rec(c) for c in ch))
        memo[n] = r
        return r
    return rec(f)


def substitute(f, mapping):
    """Replace each variable ix in ``mapping`` by a list of conditions, one per domain value."""
    memo = {}

    def rec(n):
        if n in (FALSE, TRUE):
            return n
        r = memo.get(n)
        if r is not None:
            return r
        ix, ch = _nodes[n]
        conds = mapping.get(ix)
        if conds is None:
            dom = _vars[ix][1]
            name = _vars[ix][0]
            conds = [lit(name, v, dom) for v in dom]
        r = FALSE
        for c, k in zip(conds, ch):
            r = disj(r, conj(c, rec(k)))
        memo[n] = r
        return r
    return rec(f)


def evaluate(f, lookup):
    """Follow f with lookup(var index) -> value."""
    while f not in (FALSE, TRUE):
        ix, ch = _nodes[f]
        dom = _vars[ix][1]
        f = ch[dom.index(lookup(ix))]
    return f == TRUE


def to_str(f, limit=6):
    """Human-readable disjunction of a few cubes."""
    if f == FALSE:
        return 'false'
    if f == TRUE:
        return 'always'
    cubes = []

    def rec(n, cube):
        if len(cubes) >= limit:
            return
        if n == FALSE:
            return
        if n == TRUE:
            cubes.append(' and '.join(cube) or 'always')
            return
        ix, ch = _nodes[n]
        name, dom = _vars[ix]
        groups = {}
        for v, c in zip(dom, ch):
            groups.setdefault(c, []).append(v)
        for c, vs in groups.items():
            if dom == BOOL:
                txt = name_str(name) if vs == [True] else 'not ' + name_str(name)
            else:
                txt = '{} in {}'.format(name_str(name), '/'.join(str(v) for v in vs))
            rec(c, cube + [txt])
    rec(f, [])
    return ' or '.join('(' + c + ')' for c in cubes) + (' or ...' if len(cubes) >= limit else '')


def name_str(name):
    if isinstance(name, tuple):
        return '{}({})'.format(name[0], ', '.join(name_str(x) for x in name[1:]))
    return str(name)
