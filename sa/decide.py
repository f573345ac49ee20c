"""Obligations over extracted summaries: denotational agreement, truthful flags."""
from collections import Counter

from . import dd, model as m, spec as specmod
from .engine import exists_violation, F, T
from .evalr import Ev, Unk, Need
from .interp import PROPS, UNKNOWN, coalesce

U = m.U
STATUS = {0: 'UNKNOWN', 1: 'IS', 2: 'IS_NOT', 3: 'N_A'}


def show(v):
    """Readable rendering of a model value."""
    if v == U:
        return 'Undef'
    if isinstance(v, bool) or v is None:
        return str(v)
    if callable(v):
        return '<selector>'
    if isinstance(v, tuple) and v and v[0] == 'a':
        return 'plain {}'.format(v[1]) if v[-1] == 'raw' else str(v[1])
    if isinstance(v, tuple) and v and v[0] == 'c':
        return '{}->{}'.format(show(v[1]), show(v[2]))
    if isinstance(v, tuple) and v and v[0] == 's':
        return '{' + ', '.join(sorted(show(x) for x in v[1])) + '}'
    if isinstance(v, tuple) and v and v[0] == 'm':
        return '[' + ', '.join(sorted('{}:{}'.format(show(x), n) for x, n in v[1])) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x) for x in v) + ')'
    return repr(v)


def show_args(spec, args):
    return ', '.join('{}={}'.format(p, show(a)) for p, a in zip(spec.params, args))


def is_value(v):
    return isinstance(v, tuple) and bool(v) and v[0] in ('a', 'c', 's', 'm')


def feasible(assign, env):
    """Knowledge invariant of the library: the absolute status of a relation, clan or multiclan is
    never recorded before the object is known to be one."""
    for n, one in assign.items():
        if n[0] == 'I' and one:                 # one object has one status
            for k, known in assign.items():
                if k[0] == 'K' and k[1] == n[1] and assign.get(('K', n[2], k[2]), known) != known:
                    return False
    big = [(n, x) for n, x in assign.items() if n[0] == 'B']
    for n, one in big:                          # what contains something large is large
        for k, other in big:
            if one and not other and isinstance(n[2], int) and isinstance(k[2], int) and k[2] <= n[2] and \
                    (n[1] == k[1] or all(isinstance(x, str) and '\'' in x for x in n[1] + k[1]) and not Counter(n[1]) - Counter(k[1])):
                return False
    for (k, key, prop), known in [(n, x) for n, x in assign.items() if n[0] == 'K']:
        if prop != 'absolute' or not known:
            continue
        v = env.get(key[1]) if key[0] == 'p' else key[1] if key[0] == 'val' else None
        if not is_value(v):
            continue
        for p, t in (('relation', m.is_rel), ('clan', m.is_clan), ('multiclan', m.is_mclan)):
            if t(v) and assign.get(('K', key, p)) is False:
                return False
    return True


class OpCheck:
    """Decides obligations of one summarised operation."""

    def __init__(self, spec, ip, res):
        self.spec, self.ip, self.res = spec, ip, res
        self.flags = []
        for e in res.events:
            if e.kind == 'flag':
                self.flags.append(e)
        self.hold_c = {}
        self.stats = {'valuations': 0, 'unk': 0, 'decided': 0}

    def ev(self, args, assign, kd, rev):
        env = dict(zip(self.spec.params, args))
        return Ev(self.ip, env, assign, rev, self.res.overrides, kd)

    def result_at(self, ev):
        """('ret', value, where) | ('raise', exc, where)"""
        pend = None
        for c, gv, where, *_ in self.res.returns:
            if ev.cond(c, {}):
                l = ev.gv_leaf(gv, {})
                if l[0] == 'coll':
                    raise Unk('collection result')
                return 'ret', ev.leaf(l, {}), where
        for c, exc, where, binders, detail in self.res.raises:
            for be in ev.assignments(list(binders), {}):
                if ev.cond(c, be):
                    return 'raise', exc + (': ' + detail if detail else ''), where
        return 'infeasible', None, ''           # excluded by an assertion of the operation

    def returns(self, args, rev=False):
        """Witness text when the returned value differs from the denotation."""
        spec = self.spec
        f = m.DEN.get(spec.name)
        want = f(*args) if f is not None else None
        anyf = m.ANY.get(spec.name)
        st = self.stats
        st['valuations'] += 1
        seen = [False]

        def check(assign, kd):
            ev = self.ev(args, assign, kd, rev)
            try:
                kind, v, where = self.result_at(ev)
            except Unk as e:
                st['unk'] += 1
                st.setdefault('why', {}).setdefault(str(e), 0)
                st['why'][str(e)] += 1
                raise
            if kind == 'infeasible':
                return None
            seen[0] = True
            if not feasible(assign, ev.env):
                return None
            if kind == 'raise':
                return dict(kind='raise', got=v, where=where, want=show(want))
            if anyf is not None:
                ok = anyf(args[0], v)
            else:
                ok = v is want if isinstance(want, bool) or v is None or isinstance(v, bool) else v == want
            if ok:
                return None
            return dict(kind='value', got=show(v), where=where,
                        want='an element' if anyf else show(want))
        r = exists_violation(check)
        if seen[0]:
            st['decided'] += 1
        return r

    def flag_at(self, e, args, rev=False):
        """Witness when flag event e records a wrong status for these operands."""
        def check(assign, kd):
            ev = self.ev(args, assign, kd, rev)
            pend = None
            for be in ev.assignments(list(e.binders), {}):
                if not ev.cond(e.pc, be):
                    continue
                if self.raised_before(ev, e):
                    continue
                k = e.key
                if k[0] == 'fl':
                    continue
                l = None
                for c, l2 in e.value:
                    if ev.cond(c, be):
                        l = l2
                        break
                if l is None or l[0] != 'c':
                    continue
                if l[2] == UNKNOWN:
                    continue
                v = ev.key(k, be)
                if not is_value(v):
                    continue
                t = m.truth(e.prop, v)
                if t != l[2] and feasible(assign, ev.env):
                    return dict(recorded=STATUS.get(l[2], l[2]), truth=STATUS[t], obj=show(v),
                                known=[n for n, x in assign.items() if n[0] == 'K' and x])
            return None
        return exists_violation(check)

    def raised_before(self, ev, e):
        return False


def pick(vals, n):
    return vals
