"""Methods of the mathematical objects, summarised and compared with their meaning.

`MSpec` gives a method the kind of its receiver, the sorts of its further arguments and its meaning: `den` (a function
of the operands) or `ok` (a test of operands and result).  A method is analysed from the state that the constructor of
its class leaves, once as the first call on an object and once as a later call, after one with independent arguments:
what the first call stores on the object must not change what the second one returns.
"""
import ast
import itertools
import re

from . import dd, model as m, spec as specmod
from .decide import OpCheck, show
from .engine import find_fn, UNK, exists_violation
from .evalr import Ev, Unk, Need
from .interp import Interp, St, Frame, one, T, F
from .loader import FnInfo
from .model import A, C, S, M, U

MO = 'mathobjects.'
CLS = {'Atom': MO + 'atom.Atom', 'Couplet': MO + 'couplet.Couplet', 'Set': MO + 'set.Set',
       'Multiset': MO + 'multiset.Multiset'}
ATOMS = [A(1), A(2), A(10), A(0), A('x'), A('1'), A(5.5), A(''), A(1.0), A(True)]
SELF = {
    'Atom': ATOMS,
    'Couplet': m.COUPLET_U + [C(A('x'), S(m.a1))],
    'Set': list(dict.fromkeys(m.SET_U + m.CLAN_U[:40] + [S(A('x'), m.a1), S(S(m.c12, m.c13), S(m.c11))])),
    'Multiset': list(dict.fromkeys(m.MSET_U + m.MCLAN_U + [M({m.c11: 2, m.c12: 1, m.c21: 3}), M({A('x'): 2, m.a1: 1})])),
}
ANYMO = list(dict.fromkeys(m.MO_U + ATOMS))
XS = [m.a1, m.a2, S(m.a1), m.c11, S(m.c11), A('x')]
RAW = [1, 2, 'x', 7]
DOM = {'X': XS, 'V': RAW, 'MO': ANYMO}


class MSpec:
    vararg, has_checked, inline, may_undef = None, False, False, True

    def __init__(self, kind, method, sorts='', den=None, ok=None, collect=None, twice=False, text=False):
        self.kind, self.method, self.sorts = kind, method, sorts.split()
        self.den, self.ok, self.collect, self.twice, self.text = den, ok, collect, twice, text
        self.name = '{}.{}'.format(CLS[kind], method)
        self.fi = None


def contents(v):
    return tuple(sorted((repr(e) for e in (v[1] if v[0] == 's' else [e for e, n in v[1] for _ in range(n)]))))


def conv(x):
    return x if isinstance(x, tuple) and x and x[0] in ('a', 'c', 's', 'm') else A(x)


def eq_ok(a, r):
    same = a[0] == a[1]
    return r is same or r == 'NotImplemented' and not same and a[0][0] != a[1][0]


def ne_ok(a, r):
    same = a[0] == a[1]
    return r is (not same) or r == 'NotImplemented' and a[0][0] != a[1][0]


def parse(text):
    """Model value of a code representation (None: not one)."""
    def go(n):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            args = [go(x) for x in n.args]
            kw = {k.arg: go(k.value) for k in n.keywords if k.arg != 'direct_load'}
            if f == 'Atom':
                v = args[0] if args else kw['value']
                return v if isinstance(v, tuple) else A(v)
            if f == 'Couplet':
                names = ['left', 'right']
                kw.update(zip(names, args))
                l = conv(kw['left'])
                return C(l, conv(kw['right']) if kw.get('right') is not None else l)
            if f == 'Set':
                if len(args) == 1 and isinstance(args[0], list):
                    args = args[0]
                return m.Sf(conv(x) for x in args)
            if f == 'Multiset':
                if len(args) == 1 and isinstance(args[0], dict):
                    return M({conv(k): n for k, n in args[0].items()})
                if len(args) == 1 and isinstance(args[0], list):
                    args = args[0]
                return M([(conv(x), 1) for x in args])
            raise ValueError(f)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -go(n.operand)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            return [go(x) for x in n.elts]
        if isinstance(n, ast.Dict):
            ks = [go(k) for k in n.keys]
            if len(set(ks)) != len(ks):
                raise ValueError('repeated key')
            return dict(zip(ks, [go(v) for v in n.values]))
        raise ValueError(type(n).__name__)
    try:
        return go(ast.parse(text, mode='eval').body)
    except (ValueError, SyntaxError, KeyError, TypeError, AttributeError):
        return None


def repr_ok(a, r):
    return isinstance(r, str) and parse(r) == a[0]


def parts(v):
    if v[0] == 'c':
        return [v[1], v[2]]
    if v[0] in 'sm':
        return list(m.elems(v))
    return []


def str_ok(a, r):
    v = a[0]
    if not isinstance(r, str):
        return False
    if v[0] == 'a':
        return r == repr(v[1]) or r == str(v[1])
    return all(m.text_str(x) in r for x in parts(v))


TABLE = []


def meth(kinds, names, sorts='', **kw):
    for k in kinds.split():
        for n in names.split():
            TABLE.append(MSpec(k, n, sorts, **kw))


def const(v):
    return lambda *a: v


SM, ALLK = 'Set Multiset', 'Atom Couplet Set Multiset'
CONTAINER, LOOKUP, IDENTITY, TEXT = [], [], [], []
meth(SM, 'cardinality __len__', den=lambda v: len(contents(v)))
meth(SM, 'is_empty', den=lambda v: not v[1])
meth('Atom Couplet', 'is_empty', den=const(False))
meth(SM, 'has_element', 'X', den=lambda v, x: x in m.elems(v))
meth(SM, '__contains__', 'X', den=lambda v, x: x in m.elems(v))
meth(SM, '__contains__', 'V', den=lambda v, x: A(x) in m.elems(v))
meth(SM, '__iter__', den=contents, collect=True)
meth('Multiset', 'get_multiplicity', 'X', den=lambda v, x: m.counts(v).get(x, 0))
meth('Couplet', 'left', den=lambda v: v[1])
meth('Couplet', 'right', den=lambda v: v[2])
meth('Atom', 'value', den=lambda v: v[1])
CONTAINER += TABLE[:]
n0 = len(TABLE)
meth(ALLK, 'get_left_set', den=m.DEN['mo.get_left_set'])
meth(ALLK, 'get_right_set', den=m.DEN['mo.get_right_set'])
meth(ALLK, '__call__', 'X', den=m.mo_call, twice=True)
meth(ALLK, '__call__', 'V', den=lambda v, x: m.mo_call(v, A(x)), twice=True)
meth(ALLK, '__getitem__', 'X', den=m.mo_getitem, twice=True)
meth(ALLK, '__getitem__', 'V', den=lambda v, x: m.mo_getitem(v, A(x)), twice=True)
LOOKUP += TABLE[n0:]
n0 = len(TABLE)
meth(ALLK, '__eq__', 'MO', ok=eq_ok)
meth(ALLK, '__ne__', 'MO', ok=ne_ok)
IDENTITY += TABLE[n0:]
n0 = len(TABLE)
meth(ALLK, '__repr__', ok=repr_ok, text=True)
meth(ALLK, '__str__', ok=str_ok, text=True)
TEXT += TABLE[n0:]


def ctor_slots(eng, kind):
    """What the constructor leaves on an object, apart from its data and statuses."""
    ip = Interp(eng.prog, eng.ops, contracts=False, prop_contracts=False)
    owner, init = eng.prog.cls_lookup(ip.cls_by_kind[kind], '__init__')
    if not isinstance(init, FnInfo):
        return {}
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    ip.init_key = key = ('fixed', kind)
    env = {names[0]: one(('mo', key))}
    if kind == 'Atom':
        env[names[1]] = one(('term', ('value', ('p', 'self'))))
    elif kind == 'Couplet':
        env[names[1]] = one(('mo', ('left', ('p', 'self'))))
        env[names[2]] = one(('mo', ('right', ('p', 'self'))))
    elif a.vararg:
        env[a.vararg.arg] = one(('tuple', (one(('mo', ('fixed', 'Atom'))), one(('mo', ('fixed', 'Couplet'))))))
    for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if p not in env:
            env[p] = ip.eval_default(d, init)
    for k, d in zip(a.kwonlyargs, a.kw_defaults):
        env[k.arg] = ip.eval_default(d, init)
    res = ip.run(init, env)
    out = {}
    for k, gv in res.heap.items():
        if k[0] == 'slot' and k[1] == key and k[2] not in ('_data', '_left', '_right', '_value', '_flags') and \
                len(gv) == 1 and gv[0][1][0] in ('c', 'term') and not private(gv[0][1]):
            out[k[2]] = one(gv[0][1])
    return out


def private(t):
    """Does a term name a collection that only the summary it comes from knows?"""
    return isinstance(t, tuple) and (len(t) > 1 and t[0] in ('gen', 'seq', 'obj', 'call') and isinstance(t[1], int) or
                                     any(private(x) for x in t))


class MethodCheck(OpCheck):
    """Agreement of a method summary with its meaning."""

    def ev(self, args, assign, kd, rev):
        env = dict(zip(['self'] + ['arg%d' % i for i in range(len(args) - 1)], args))
        return Ev(self.ip, env, assign, rev, self.res.overrides, kd)

    def result_at(self, ev):
        for c, gv, where, *_ in self.res.returns:
            if ev.cond(c, {}):
                l = ev.gv_leaf(gv, {})
                if l[0] == 'obj' and self.spec.collect and self.ip.objs[l[1]]['type'] == 'iter' and \
                        not self.res.heap.get(('itpos', l[1]), ((0, ('c', 0, 0)),))[0][1][2]:
                    l = ('coll', self.ip.objs[l[1]]['struct'])
                if l[0] == 'coll' and self.spec.collect:
                    return 'ret', tuple(sorted(repr(x) for x in ev.coll(l[1], {}))), where
                if l[0] not in ('c', 'mo', 'term', 'undef', 'ext'):
                    raise Unk('result ' + l[0])
                return 'ret', ev.leaf(l, {}), where
        for c, exc, where, binders, detail in self.res.raises:
            for be in ev.assignments(list(binders), {}):
                if ev.cond(c, be):
                    return 'raise', exc + (': ' + detail if detail else ''), where
        return 'infeasible', None, ''

    def compare(self, args, rev, given):
        """Witness of a disagreement; args: operands of the judged call, given: all operands of the history."""
        sp = self.spec

        def check(assign, kd):
            ev = self.ev(given, assign, kd, rev)
            kind, v, where = self.result_at(ev)
            if kind == 'infeasible':
                return None
            if kind == 'raise':
                return where, 'raises ' + v
            if sp.ok is not None:
                good = sp.ok(args, v)
            else:
                w = sp.den(*args)
                good = v is w if isinstance(w, bool) or isinstance(v, bool) else v == w and type(v) is type(w)
            if good:
                return None
            return where, 'gives {}{}'.format(show(v), '' if sp.den is None else ' instead of ' + show(sp.den(*args)))
        return exists_violation(check)


def arg_gv(sort, name):
    return one(('term', ('pval', name))) if sort == 'V' else one(('mo', ('p', name)))


def summary(eng, sp, slots, later):
    """(interp, result) of the first or a later call."""
    ip = eng.interp()
    ip.fixed_kinds[('p', 'self')] = sp.kind
    fi = sp.fi
    names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    heap = {('slot', ('p', 'self'), k): v for k, v in slots.items()}
    n = len(sp.sorts)

    def env(first):
        e = {names[0]: one(('mo', ('p', 'self')))}
        args = [arg_gv(s, 'arg%d' % (first + i)) for i, s in enumerate(sp.sorts)]
        for nm, g in zip(names[1:], args):
            e[nm] = g
        if fi.node.args.vararg is not None:
            e[fi.node.args.vararg.arg] = one(('tuple', tuple(args[len(names) - 1:])))
        elif len(names) - 1 < n:
            raise ValueError('parameters of ' + sp.name)
        nd = fi.node.args.defaults
        for p, d in zip(names[len(names) - len(nd):], nd):
            e.setdefault(p, ip.eval_default(d, fi))
        for k, d in zip(fi.node.args.kwonlyargs, fi.node.args.kw_defaults):
            if d is not None:
                e[k.arg] = ip.eval_default(d, fi)
        if fi.node.args.kwarg is not None:
            s = St(T, {}, heap, ())
            e[fi.node.args.kwarg.arg] = ip.mutable('dict', (), s)
        if any(x not in e for x in names):
            raise ValueError('parameters of ' + sp.name)
        return e
    res = ip.run(fi, env(0), heap)
    if later:
        res = ip.run(fi, env(n), res.heap, res.pc)
    return ip, res


def work(eng, i, tier):
    """Findings of one method."""
    sp = TABLE[i]
    out = dict(findings=[], undecided={}, obligations=0, decided=0, valuations=0, name=sp.name)
    sp.fi = eng.prog.cls_lookup(eng.interp().cls_by_kind[sp.kind], sp.method)[1]
    if not isinstance(sp.fi, FnInfo):
        sp.fi = None
        out['undecided']['no such method'] = 1
        return out
    slots = ctor_slots(eng, sp.kind)
    for later in ((False, True) if sp.twice else (False,)):
        out['obligations'] += 1
        n0 = UNK[0]
        try:
            ip, res = summary(eng, sp, slots, later)
            mc = MethodCheck(sp, ip, res)
        except Exception as e:                  # outside the analysed language
            out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:80])] = 1
            continue
        doms = [DOM[s] for s in sp.sorts]
        selfs = SELF[sp.kind]
        found = False
        firsts = list(itertools.product(*[d[:4] for d in doms])) if later else [()]
        for v in selfs:
            for a in itertools.product(*doms):
                for b in firsts:
                    for rev in (False, True):
                        out['valuations'] += 1
                        w = mc.compare((v,) + a, rev, (v,) + b + a)
                        if w and not found:
                            found = True
                            out['findings'].append(dict(
                                rule='method', construct=sp.fi.qual, where=w[0],
                                text='{}{}: {}'.format(sp.method, ' (later call)' if later else '', w[1]),
                                witness=', '.join(show(x) for x in (v,) + b + a),
                                key='method|{}|{}'.format(sp.fi.qual, sp.kind)))
                    if found:
                        break
        if sp.text and not found:
            out['findings'] += text_findings(sp, mc, selfs)
        if UNK[0] == n0:
            out['decided'] += 1
        else:
            out['undecided'][UNK[1]] = UNK[0] - n0
    return out


def text_findings(sp, mc, selfs):
    """The text of an object does not depend on the order of its elements; different objects have different texts."""
    seen = {}
    for v in selfs:
        vals = {}
        for rev in (False, True):
            vals.update(values(mc, (v,), rev))
        if len(vals) > 1:
            return [finding('text', sp.fi, 'gives {} or {}, depending on the order of the elements'.format(*list(vals)[:2]),
                            show(v), sp.kind)]
        for t in vals:
            if seen.setdefault(t, v) != v:
                return [finding('text', sp.fi, 'gives {!r} for different objects'.format(t),
                                '{} and {}'.format(show(v), show(seen[t])), sp.kind)]
    return []


# ------------------------------------------------------------------------------------------------
# constructors
def set_of(*a):
    return m.Sf(conv(x) for x in a)


def mset_of(*a):
    return M([(conv(x), 1) for x in a])


LISTS = [(), (m.a1,), (m.a1, m.a2), (m.a1, m.a1), (S(m.a1),), (m.c11, S(), m.c11), (m.c12, m.a1)]
MDICTS = [(), ((m.a1, 1),), ((m.a1, 2), (m.c11, 1)), ((S(m.a1), 3),)]
ONE = [m.a1, m.c11, S(), S(m.a1), S(m.c11), M({}), M({m.a1: 2})]
CTORS = []          # kind, shape, direct_load, domain, meaning


def ctor(kind, shape, dom, den, direct=(False, True)):
    for d in direct:
        CTORS.append((kind, shape, d, dom, den))


for _k, _f in (('Set', set_of), ('Multiset', mset_of)):
    ctor(_k, '', [()], lambda f=_f: f())
    ctor(_k, 'MO', [(x,) for x in ONE], lambda x, f=_f: f(x))
    ctor(_k, 'V', [(x,) for x in RAW], lambda x, f=_f: f(x), (False,))
    ctor(_k, 'STR', [()], lambda f=_f: f('ab'), (False,))
    ctor(_k, 'MO MO', list(itertools.product(ONE, ONE)), lambda x, y, f=_f: f(x, y))
    ctor(_k, 'MO V', list(itertools.product(ONE, RAW)), lambda x, y, f=_f: f(x, y), (False,))
    ctor(_k, 'LIST', [(x,) for x in LISTS], lambda x, f=_f: f(*x))
    ctor(_k, 'STAR', [(x,) for x in LISTS if len(x) != 1], lambda x, f=_f: f(*x))
ctor('Multiset', 'DICT', [(x,) for x in MDICTS], lambda x: M(dict(x)))
for _k, _f in (('Set', set_of), ('Multiset', mset_of)):
    for _e in ('[v0, x1]', '(v0, x1)', '(y for y in [v0, x1])', 'iter([v0, x1])', '{v0, x1}', 'frozenset([v0, x1])'):
        ctor(_k, '=' + _e, list(itertools.product(RAW, ONE)), lambda v, x, e=_e, f=_f:
             f(*((v, x) if '{' not in e and 'set' not in e else {v, x})), (False,))
    for _e in ('[v0, v1]', '(v0, v1, v0)', '[v0, v1, v1, x2]'):
        _n = [RAW, RAW, ONE[:2]]
        ctor(_k, '=' + _e, list(itertools.product(*_n[:3 if 'x2' in _e else 2])), lambda *a, e=_e, f=_f:
             f(*[a[int(i)] for i in re.findall(r'\d', e)]), (False,))
for _e, _n in (('{v0: 2, x1: 3}', (2, 3)), ('{x1: 1, v0: 4}', (4, 1)), ('_collections.Counter({v0: 2, x1: 3})', (2, 3))):
    ctor('Multiset', '=' + _e, list(itertools.product(RAW, ONE)), lambda v, x, n=_n: M(
        [(conv(v), n[0]), (conv(x), n[1])]), (False,))
ctor('Couplet', 'MO MO', list(itertools.product(ONE, ONE)), lambda x, y: C(x, y))
ctor('Couplet', 'MO', [(x,) for x in ONE], lambda x: C(x, x))
ctor('Couplet', 'V V', list(itertools.product(RAW, RAW)), lambda x, y: C(A(x), A(y)), (False,))
ctor('Couplet', 'V', [(x,) for x in RAW], lambda x: C(A(x), A(x)), (False,))
ctor('Atom', 'V', [(x,) for x in RAW], lambda x: A(x))


def ctor_run(eng, kind, shape, direct):
    """Interpreter and result of the constructor of a kind on arguments of the given shape."""
    ip = eng.interp(True, False)
    owner, init = eng.prog.cls_lookup(ip.cls_by_kind[kind], '__init__')
    key = ('fixed', kind)
    a = init.node.args
    args = []
    st = St(T, {}, {}, ())
    if shape.startswith('='):
        fr = Frame(None, init.module, st)
        for n in re.findall(r'\b[vx]\d\b', shape):
            st.env[n] = arg_gv('V' if n[0] == 'v' else 'MO', 'arg' + n[1])
        args = [ip.ev(ast.parse(shape[1:], mode='eval').body, fr, st)]
        shape = ''
    for i, s in enumerate(shape.split()):
        nm = 'arg%d' % i
        args.append(one(('coll', ('param', nm))) if s == 'LIST' else
                    one(('coll', ('pdict', nm))) if s == 'DICT' else
                    ('*', one(('coll', ('param', nm)))) if s == 'STAR' else
                    one(('c', 'str', 'ab')) if s == 'STR' else arg_gv(s, nm))
    env = ip.bind_params(init, [one(('mo', key))] + args, {'direct_load': one(('c', 'bool', direct))} if direct else {},
                         init.node, Frame(None, init.module, st), st)
    if env is None:
        raise ValueError('call shape')
    ip.init_key = key
    return ip, ip.run(init, env, st.heap), key, init


def ctor_work(eng, i, tier):
    kind, shape, direct, dom, den = CTORS[i]
    name = '{}.__init__'.format(CLS[kind])
    out = dict(findings=[], undecided={}, obligations=1, decided=0, valuations=0, name=name)
    n0 = UNK[0]
    try:
        ip, res, key, init = ctor_run(eng, kind, shape, direct)
    except Exception as e:
        out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:80])] = 1
        return out

    def value(ev):
        for c, exc, where, binders, detail in res.raises:
            for be in ev.assignments(list(binders), {}):
                if ev.cond(c, be):
                    return 'raises ' + exc

        def slot(nm):
            gv = res.heap.get(('slot', key, nm))
            if gv is None:
                raise Unk('no ' + nm)
            return ev.gv_leaf(gv, {})
        if kind == 'Atom':
            return A(ev.leaf(slot('_value'), {}))
        if kind == 'Couplet':
            return C(ev.leaf(slot('_left'), {}), ev.leaf(slot('_right'), {}))
        l = slot('_data')
        if l[0] == 'obj':
            l = ('coll', ip.snapshot(l[1], St(T, {}, res.heap, ())))
        if l[0] != 'coll':
            raise Unk('data ' + l[0])
        if kind == 'Set':
            return ('s', frozenset(ev.coll(l[1], {})))
        return ('m', frozenset(ev.counter(l[1], {}).items()))
    for a in dom:
        for rev in (False, True):
            out['valuations'] += 1

            def check(assign, kd):
                ev = Ev(ip, {'arg%d' % j: x for j, x in enumerate(a)}, assign, rev, res.overrides, kd)
                v, w = value(ev), den(*a)
                return None if v == w else (v, w)
            w = exists_violation(check)
            if w:
                out['findings'].append(dict(
                    rule='constructor', construct=init.qual, where='{}:{}'.format(init.module.path, init.node.lineno),
                    text='{}({}{}): holds {} instead of {}'.format(
                        kind, shape, ', direct_load' if direct else '', w[0] if isinstance(w[0], str) else show(w[0]),
                        show(w[1])), witness=', '.join(show(x) for x in a),
                    key='constructor|{}|{}|{}'.format(kind, shape, direct)))
                return out
    if UNK[0] == n0:
        out['decided'] = 1
    else:
        out['undecided'][UNK[1]] = UNK[0] - n0
    return out


# ------------------------------------------------------------------------------------------------
# hash and order
def values(mc, given, rev):
    """All results that some valuation of the conditions allows: [(value, where)], deduplicated."""
    out = {}

    def check(assign, kd):
        ev = mc.ev(given, assign, kd, rev)
        kind, v, where = mc.result_at(ev)
        if any(nm[0] != 'K' for nm in assign):
            raise Unk('depends on an unknown fact')
        if kind != 'infeasible':
            out.setdefault(('raises ' + v,) if kind == 'raise' else v, where)
        return None
    exists_violation(check)
    return list(out.items())


def finding(rule, fi, text, witness, key):
    return dict(rule=rule, construct=fi.qual, where='{}:{}'.format(fi.module.path, fi.node.lineno), text=text,
                witness=witness, key='{}|{}|{}'.format(rule, fi.qual, key))


def hash_work(eng, kind, tier):
    """The hash of an object is one integer, whatever is remembered and in whatever order its elements are visited."""
    sp = MSpec(kind, '__hash__')
    out = dict(findings=[], undecided={}, obligations=2, decided=0, valuations=0, name=sp.name)
    sp.fi = eng.prog.cls_lookup(eng.interp().cls_by_kind[kind], '__hash__')[1]
    if not isinstance(sp.fi, FnInfo):
        eqf = find_fn(eng.prog, '{}.__eq__'.format(CLS[kind]))
        out['findings'].append(finding('hash', eqf, 'objects of this class are not hashable', '', kind))
        return out
    seen = {}
    n0 = UNK[0]
    slots = ctor_slots(eng, kind)
    for later in (False, True):
        n1 = UNK[0]
        try:
            ip, res = summary(eng, sp, slots, later)
        except Exception as e:
            out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:80])] = 1
            continue
        mc = MethodCheck(sp, ip, res)
        for v in SELF[kind]:
            for rev in (False, True):
                out['valuations'] += 1
                for h, where in values(mc, (v,), rev):
                    if not isinstance(h, int) or isinstance(h, bool):
                        seen.setdefault(v, {})[repr(h)] = where
                    else:
                        seen.setdefault(v, {})[h] = where
        if UNK[0] == n1:
            out['decided'] += 1
    for v, hs in seen.items():
        bad = [h for h in hs if not isinstance(h, int)]
        if bad or len(hs) > 1:
            out['findings'].append(finding(
                'hash', sp.fi, 'hash gives {}'.format(bad[0]) if bad else
                'equal objects may have different hashes (order of the elements, or first and later call)',
                show(v), kind))
            break
    if UNK[0] != n0:
        out['undecided'][UNK[1]] = UNK[0] - n0
    return out


ORDERED = [A(1), A(2), A(9), A(10), A(5.5), A(10.5), A('x'), A('1'), A('9'), A('10'), A(''), A(True), A(-3),
           m.c11, m.c12, C(A('x'), S(m.a1)), S(), S(m.a1), S(m.a2), S(m.a1, m.a2), S(m.c11), M({}), M({m.a1: 1}),
           M({m.a1: 2}), M({m.a2: 1, m.a1: 1})]
KIND_OF = {'a': 'Atom', 'c': 'Couplet', 's': 'Set', 'm': 'Multiset'}


def order_work(eng, tier):
    """`<` is a strict total order on the objects, and the other comparisons agree with it."""
    out = dict(findings=[], undecided={}, obligations=0, decided=0, valuations=0, name='comparison operators')
    ip0 = eng.interp()
    tables, fis = {}, {}
    for op in ('__lt__', '__le__', '__gt__', '__ge__'):
        for kind in CLS:
            owner, mem = eng.prog.cls_lookup(ip0.cls_by_kind[kind], op)
            if not isinstance(mem, FnInfo):
                continue
            out['obligations'] += 1
            sp = MSpec(kind, op, 'MO')
            sp.fi = fis[op, kind] = mem
            n0 = UNK[0]
            try:
                ip, res = summary(eng, sp, ctor_slots(eng, kind), False)
            except Exception as e:
                out['undecided']['{}: {}'.format(type(e).__name__, str(e)[:80])] = 1
                continue
            mc = MethodCheck(sp, ip, res)
            for a in ORDERED:
                if KIND_OF[a[0]] != kind:
                    continue
                for b in ORDERED:
                    vs = {}
                    for rev in (False, True):
                        out['valuations'] += 1
                        vs.update((repr(v), (v, w)) for v, w in values(mc, (a, b), rev))
                    if len(vs) == 1:
                        tables[op, a, b] = next(iter(vs.values()))
                    elif vs:
                        out['findings'].append(finding('order', mem, '{} gives {}'.format(
                            op, ' or '.join(sorted(vs))), '{}, {}'.format(show(a), show(b)), kind + op))
            if UNK[0] == n0:
                out['decided'] += 1
            else:
                out['undecided'][UNK[1]] = UNK[0] - n0

    def lt(a, b):
        v = tables.get(('__lt__', a, b))
        return v and v[0]

    def bad(op, a, text, *w):
        kind = KIND_OF[a[0]]
        key = kind + op
        if all(f['key'].split('|')[-1] != key for f in out['findings']):
            out['findings'].append(finding('order', fis[op, kind], text, ', '.join(show(x) for x in w), key))
    for a in ORDERED:
        for b in ORDERED:
            x, y = lt(a, b), lt(b, a)
            if x is None or y is None:
                continue
            if x not in (True, False):
                bad('__lt__', a, '< gives {}'.format(x), a, b)
            elif a == b and x:
                bad('__lt__', a, 'an object is less than itself', a)
            elif a != b and x is True and y is True:
                bad('__lt__', a, 'both objects are less than the other', a, b)
            elif a != b and x is False and y is False:
                bad('__lt__', a, 'neither of two different objects is less than the other', a, b)
            for op, want in (('__le__', x is True or a == b), ('__gt__', x is False and a != b), ('__ge__', x is False)):
                z = tables.get((op, a, b))
                if z is not None and z[0] is not want and z[0] != 'NotImplemented':
                    bad(op, a, '{} gives {} and disagrees with <'.format(op, z[0]), a, b)
    out['obligations'] += 1
    out['decided'] += not out['undecided']
    for a in ORDERED:
        for b in ORDERED:
            if lt(a, b) is True:
                for c in ORDERED:
                    if lt(b, c) is True and lt(a, c) is False and a != c:
                        bad('__lt__', a, 'the order is not transitive', a, b, c)
    for kind in CLS:
        ci = ip0.cls_by_kind[kind]
        out['obligations'] += 1
        out['decided'] += 1
        if ('__lt__', kind) not in fis:
            eqf = find_fn(eng.prog, '{}.__eq__'.format(CLS[kind]))
            out['findings'].append(finding('order', eqf, 'objects of this class cannot be ordered', '', kind))
        elif not decorated(eng, ci, 'functools.total_ordering') and \
                any((op, kind) not in fis for op in ('__le__', '__gt__', '__ge__')):
            out['findings'].append(finding('order', fis['__lt__', kind],
                                           'some comparison operators are not defined', '', kind + ' operators'))
    return out


def decorated(eng, ci, name):
    """Whether some class in the hierarchy has the decorator."""
    ip = eng.interp()
    for c in eng.prog.mro(ci):
        if not hasattr(c, 'node'):
            continue
        for d in c.node.decorator_list:
            fr = Frame(None, c.module, St(T, {}, {}, ()))
            try:
                gv = ip.ev(d.func if isinstance(d, ast.Call) else d, fr, fr.st)
            except Exception:
                return True                     # unknown decorator: no alarm
            if len(gv) == 1 and gv[0][1] == ('ext', name):
                return True
    return False
