"""Accessors of the property statuses and the statuses of newly constructed objects.

Everywhere else the analysis replaces `cached_*`, `cache_*` and `is_set`, ... by their meaning; here their definitions
(down to the bit field accessors) are summarised and compared with that meaning.
"""
from . import dd, model as m
from .engine import UNK, exists_violation
from .evalr import Ev, Unk
from .interp import St, one, cv, T, PROPS, TYPEFLAGS, UNKNOWN, IS, IS_NOT, N_A
from .loader import FnInfo
from .methods import SELF, CLS, MethodCheck, MSpec, show, ctor_run, CTORS, DOM  # noqa

SELFKEY = ('p', 'self')
NAMES = {UNKNOWN: 'UNKNOWN', IS: 'IS', IS_NOT: 'IS_NOT', N_A: 'N_A'}


def status(v, prop):
    if prop in TYPEFLAGS:
        return IS if m.kind(v).lower() == prop else IS_NOT
    return m.truth(prop, v)


def domain(kind):
    """Values with every combination of statuses that occurs, twice where possible."""
    out, seen = [], {}
    for v in SELF[kind]:
        k = tuple(status(v, p) for p in PROPS)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 2:
            out.append(v)
    return out


def definition(eng, kind, name):
    ip = eng.interp(True, False, False)
    ip.fixed_kinds[SELFKEY] = kind
    owner, mem = eng.prog.cls_lookup(ip.cls_by_kind[kind], name)
    return ip, mem if isinstance(mem, FnInfo) else None


def before(ip, ev, p):
    """Status that the object has before the call."""
    return ev.leaf(ev.gv_leaf(ip.flag_gv(St(T, {}, {}, ()), SELFKEY, p), {}), {})


class Out:
    def __init__(self, name):
        self.d = dict(findings=[], undecided={}, obligations=0, decided=0, valuations=0, name=name)

    def find(self, fi, text, witness, key):
        if all(f['key'] != key for f in self.d['findings']):
            self.d['findings'].append(dict(rule='status', construct=fi.qual, where='{}:{}'.format(
                fi.module.path, fi.node.lineno), text=text, witness=witness, key=key))

    def begin(self):
        self.d['obligations'] += 1
        self.n0 = UNK[0]

    def end(self):
        if UNK[0] == self.n0:
            self.d['decided'] += 1
        else:
            self.d['undecided'][UNK[1]] = self.d['undecided'].get(UNK[1], 0) + UNK[0] - self.n0


def outcome(res, ev):
    for c, exc, where, binders, detail in res.raises:
        for be in ev.assignments(list(binders), {}):
            if ev.cond(c, be):
                return 'raise', exc
    for c, gv, where, *_ in res.returns:
        if ev.cond(c, {}):
            return 'ret', ev.leaf(ev.gv_leaf(gv, {}), {})
    return 'infeasible', None


def getters(eng, kind):
    o = Out('{}: cached_*'.format(kind))
    todo = [(p, a + p, w) for p in PROPS for a, w in (('cached_', None), ('cached_is_', IS), ('cached_is_not_', IS_NOT))]
    todo += [(p, 'is_' + p, IS) for p in TYPEFLAGS]
    for p, name, want in todo:
        o.begin()
        ip, mem = definition(eng, kind, name)
        if mem is None:
            cls = ip.cls_by_kind[kind]
            init = eng.prog.cls_lookup(cls, '__init__')[1]
            if name.startswith('cached_'):      # called through generic names elsewhere
                o.d['undecided']['no accessor ' + name] = 1
            else:
                o.find(init, 'no accessor ' + name, kind, 'status|{}|{}'.format(kind, name))
            continue
        try:
            res = ip.run(mem, {mem.node.args.args[0].arg: one(('mo', SELFKEY))})
        except Exception as e:
            o.d['undecided']['{}: {}'.format(type(e).__name__, str(e)[:60])] = 1
            continue
        for v in domain(kind):
            o.d['valuations'] += 1

            def check(assign, kd):
                ev = Ev(ip, {'self': v}, assign, False, res.overrides, kd)
                how, r = outcome(res, ev)
                s = before(ip, ev, p)
                w = s if want is None else s == want
                return None if how == 'infeasible' or how == 'ret' and r == w and type(r) is type(w) else \
                    (NAMES.get(s), r)
            w = exists_violation(check)
            if w:
                o.find(mem, '{} gives {} when the status is {}'.format(name, w[1], w[0]), show(v),
                       'status|{}|{}'.format(mem.qual, name))
        o.end()
    return o.d


def setters(eng, kind):
    o = Out('{}: cache_*'.format(kind))
    for p in PROPS:
        name = 'cache_' + p
        for val in (UNKNOWN, IS, IS_NOT, N_A):
            o.begin()
            ip, mem = definition(eng, kind, name)
            if mem is None:
                o.d['undecided']['no function ' + name] = 1
                continue
            ip.assert_raises = True
            a = mem.node.args.args
            try:
                res = ip.run(mem, {a[0].arg: one(('mo', SELFKEY)), a[1].arg: cv(val)})
            except Exception as e:
                o.d['undecided']['{}: {}'.format(type(e).__name__, str(e)[:60])] = 1
                continue
            st = St(T, {}, res.heap, ())
            for v in domain(kind):
                o.d['valuations'] += 1

                def check(assign, kd, q):
                    ev = Ev(ip, {'self': v}, assign, False, res.overrides, kd)
                    old = before(ip, ev, p)
                    how, r = outcome(res, ev)
                    if how == 'infeasible':
                        return None
                    if val != status(v, p) or old == UNKNOWN and val == UNKNOWN:
                        # a wrong status: at least it must not replace a known one
                        if how == 'raise' or old == UNKNOWN:
                            return None
                        new = ev.leaf(ev.gv_leaf(ip.flag_gv(st, SELFKEY, p), {}), {})
                        return None if new == old else '{} replaces the known status {} by {}'.format(
                            name, NAMES[old], NAMES.get(new))
                    if how == 'raise':
                        return '{}({}) raises {}'.format(name, NAMES[val], r)
                    if r != v:
                        return '{} does not return the object'.format(name)
                    s = ev.leaf(ev.gv_leaf(ip.flag_gv(st, SELFKEY, q), {}), {})
                    if s != status(v, q) and (s != UNKNOWN or q == p):
                        return '{}({}) sets the status {} to {}'.format(name, NAMES[val], q, NAMES.get(s))
                    return None
                w = None
                for q in PROPS:
                    w = w or exists_violation(lambda assign, kd: check(assign, kd, q))
                if w:
                    o.find(mem, w, show(v), 'status|{}|{}'.format(mem.qual, name))
            o.end()
    return o.d


def undef_accessors(eng):
    """The statuses of the undefined value are consistent and claim nothing."""
    o = Out('Undef: cached_*')
    vals = {}
    ip = eng.interp()
    cls = ip.cls_by_kind['Undef']
    for p in PROPS:
        for a in ('cached_', 'cached_is_', 'cached_is_not_'):
            o.begin()
            owner, mem = eng.prog.cls_lookup(cls, a + p)
            if not isinstance(mem, FnInfo):
                o.d['undecided']['no accessor ' + a + p] = 1
                continue
            res = ip.run(mem, {mem.node.args.args[0].arg: one(('undef', None))})
            ls = {l for c, gv, *_ in res.returns for c2, l in gv}
            if len(ls) == 1 and next(iter(ls))[0] == 'c' and not res.raises:
                vals[a + p] = (next(iter(ls))[2], mem)
            o.end()
        g, i, n = (vals.get(a + p) for a in ('cached_', 'cached_is_', 'cached_is_not_'))
        if i and i[0] is not False:
            o.find(i[1], 'the undefined value claims to be ' + p, 'Undef()', 'status|{}'.format(i[1].qual))
        if g and g[0] not in (IS_NOT, N_A):
            o.find(g[1], 'the status {} of the undefined value is {}'.format(p, NAMES.get(g[0])), 'Undef()',
                   'status|{}'.format(g[1].qual))
        if g and n and n[0] is not (g[0] == IS_NOT):
            o.find(n[1], '{} disagrees with cached_{}'.format('cached_is_not_' + p, p), 'Undef()',
                   'status|{}'.format(n[1].qual))
    for p in TYPEFLAGS:
        o.begin()
        owner, mem = eng.prog.cls_lookup(cls, 'is_' + p)
        if isinstance(mem, FnInfo):
            res = ip.run(mem, {mem.node.args.args[0].arg: one(('undef', None))})
            ls = {l for c, gv, *_ in res.returns for c2, l in gv}
            if len(ls) == 1 and next(iter(ls))[0] == 'c' and next(iter(ls))[2] is not False:
                o.find(mem, 'the undefined value claims to be a ' + p, 'Undef()', 'status|{}'.format(mem.qual))
        o.end()
    return o.d


def initial(eng, i):
    """Statuses that a constructor records on the new object."""
    kind, shape, direct, dom, den = CTORS[i]
    o = Out('{}({}{}): initial statuses'.format(kind, shape, ', direct_load' if direct else ''))
    o.begin()
    try:
        ip, res, key, init = ctor_run(eng, kind, shape, direct)
    except Exception as e:
        o.d['undecided']['{}: {}'.format(type(e).__name__, str(e)[:80])] = 1
        return o.d
    st = St(T, {}, res.heap, ())
    fl = res.heap.get(('slot', key, '_flags'))
    if not fl:
        o.find(init, 'the object has no statuses', show(den(*dom[0])), 'status|{}|init'.format(kind))
        return o.d
    for a in dom:
        for rev in (False, True):
            o.d['valuations'] += 1

            def check(assign, kd):
                ev = Ev(ip, {'arg%d' % j: x for j, x in enumerate(a)}, assign, rev, res.overrides, kd)
                if outcome(res, ev)[0] == 'raise':
                    return None
                l = ev.gv_leaf(fl, {})
                if l[0] != 'flags':
                    raise Unk('flags')
                v = den(*a)
                for p in PROPS + TYPEFLAGS:
                    s = ev.leaf(ev.gv_leaf(ip.flag_gv(st, l[1], p), {}), {})
                    if s != status(v, p) and (s != UNKNOWN or p in TYPEFLAGS):
                        return p, s, v
                return None
            w = exists_violation(check)
            if w:
                o.find(init, 'a new object starts with the status {} {}'.format(w[0], NAMES.get(w[1])), show(w[2]),
                       'status|{}|{}|init'.format(kind, w[0]))
    o.end()
    return o.d


JOBS = [(getters, k) for k in CLS] + [(setters, k) for k in CLS] + [(undef_accessors,)] + \
    [(initial, i) for i in range(len(CTORS))]


def work(eng, j):
    return JOBS[j][0](eng, *JOBS[j][1:])
