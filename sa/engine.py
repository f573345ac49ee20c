"""Analysis driver: loads the program, extracts summaries, decides obligations over witness domains."""
import ast
import os
import sys
import time

from . import dd, model as m, spec as specmod
from .loader import Program, FnInfo, AnalysisBroken
from .interp import (Interp, one, cv, coalesce, T, F, PROPS, ALLFLAGS, UNKNOWN, IS, IS_NOT, N_A,
                     MOKINDS, Budget, St, Frame, const)
from .evalr import Ev, Unk, Need

sys.setrecursionlimit(20000)


def find_fn(prog, qual):
    """FnInfo for 'algebras.sets.Algebra.union' / 'algebras.relations.get_lefts' (also through
    re-exports and aliases)."""
    parts = qual.split('.')
    for i in range(len(parts) - 1, 0, -1):
        short = '.'.join(parts[:i])
        try:
            mod = prog.module(short)
        except (KeyError, AnalysisBroken):
            continue
        if mod is None:
            continue
        r = prog.resolve_name(mod, parts[i])
        for p in parts[i + 1:]:
            if r is None or isinstance(r, (tuple, FnInfo)):
                return None
            o, r = prog.cls_lookup(r, p)
        return r if isinstance(r, FnInfo) else None
    return None


class Engine:
    def __init__(self):
        self.prog = Program()
        self.ops, self.missing = {}, []
        for t in specmod.TABLE:
            fi = find_fn(self.prog, t.name.partition('#')[0])
            if fi is None:
                self.missing.append(t.name)
                continue
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            kwo = [x.arg for x in a.kwonlyargs]
            s = specmod.OpSpec(t.name, t.sorts, t.result, t.may_undef, t.inline)
            s.has_checked = '_checked' in names + kwo
            s.vararg = a.vararg.arg if a.vararg else None
            s.params = [x for x in names if x != '_checked'] + ([s.vararg] if s.vararg else [])
            s.fi = fi
            dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            dflt.update({k: d for k, d in zip(kwo, a.kw_defaults) if d is not None})
            s.extra = {k: dflt.get(k) for k in kwo + s.params[len(s.sorts):] if k != '_checked'}
            if s.vararg:                        # positional parameters up to the variable ones
                s.extra = {k: dflt.get(k) for k in kwo if k != '_checked'}
            else:
                s.params = s.params[:len(s.sorts)]
            q = fi.qual + ''.join(t.name.partition('#')[1:])
            if len(s.params) != len(s.sorts) or a.kwarg is not None or q in self.ops or \
                    any(d is None for d in s.extra.values()):
                self.missing.append(t.name)     # its parameters don't fit its specification
                continue
            self.ops[q] = s
        self._init_flags = None

    def interp(self, contracts=True, prop_contracts=True, flag_contracts=True):
        ip = Interp(self.prog, self.ops, contracts, prop_contracts, flag_contracts)
        if prop_contracts:
            ip.init_flags = self.init_flags()
        return ip

    def init_flags(self):
        if self._init_flags is None:
            self._init_flags = {}
            for kind in MOKINDS:
                for which, st in ctor_flags(self, kind).items():
                    for p, v in st.items():
                        self._init_flags.setdefault((kind, p), {})[which] = v
            for d in self._init_flags.values():
                d.setdefault('nonempty', UNKNOWN)
                d.setdefault('empty', UNKNOWN)
        return self._init_flags

    def param_env(self, spec, checked):
        env = {}
        for p, s in zip(spec.params, spec.sorts):
            if s[0] == '=':
                env[p] = cv(ast.literal_eval(s[1:]))
            elif s in ('X*', 'C*'):
                env[p] = one(('coll', ('param', p)))
            elif s == 'V*':
                env[p] = one(('coll', ('rparam', p)))
            elif s == 'V':
                env[p] = one(('term', ('pval', p)))
            elif s == 'D':
                env[p] = one(('coll', ('pdict', p)))
            elif s in ('F', 'F1'):
                env[p] = one(('ufn', p))
            elif s in ('G', 'G1'):
                env[p] = one(('ufn', p, 'mo') + (() if s == 'G' else ('defined',)))
            else:
                env[p] = one(('mo', ('p', p)))
        if spec.has_checked:
            env['_checked'] = cv(checked)
        return env

    def summarise(self, spec, checked=True):
        ip = self.interp()
        t = time.time()
        env = self.param_env(spec, checked)
        for k, d in spec.extra.items():
            env[k] = ip.eval_default(d, spec.fi)
        res = ip.run(spec.fi, env)
        res.time = time.time() - t
        return ip, res


def ctor_flags(eng, kind):
    """{'nonempty': {prop: status}, 'empty': ...}: the flags a newly constructed object starts with,
    from the constructor's body."""
    out = {}
    ip0 = Interp(eng.prog, eng.ops, contracts=False, prop_contracts=False)
    ci = ip0.cls_by_kind[kind]
    owner, init = eng.prog.cls_lookup(ci, '__init__')
    if not isinstance(init, FnInfo):
        raise AnalysisBroken('{} has no constructor'.format(kind))
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    cases = {'nonempty': 'x'}
    if kind in ('Set', 'Multiset'):
        cases['empty'] = ''
    for which, arg in cases.items():
        ip = Interp(eng.prog, eng.ops, contracts=False, prop_contracts=False)
        key = ('fixed', kind)
        env = {names[0]: one(('mo', key))}
        if kind == 'Atom':
            env[names[1]] = one(('term', ('k', 'int', 1)))
        elif kind == 'Couplet':
            env[names[1]] = one(('mo', ('p', 'l')))
            env[names[2]] = one(('mo', ('p', 'r')))
        elif a.vararg:
            env[a.vararg.arg] = one(('tuple', () if not arg else
                                     (one(('mo', ('fixed', 'Atom'))), one(('mo', ('fixed', 'Couplet'))))))
        for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = ip.eval_default(d, init)
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            env[k.arg] = ip.eval_default(d, init)
        res = ip.run(init, env)
        st = St(res.pc, {}, res.heap, ())
        fl = res.heap.get(('slot', key, '_flags'))
        d = {}
        for p in ALLFLAGS:
            d[p] = UNKNOWN
            if fl and len(fl) == 1 and fl[0][1][0] == 'flags':
                gv = ip.flag_gv(st, fl[0][1][1], p)
                vals = {l for c, l in gv if dd.conj(c, res.pc) != F}
                if len(vals) == 1:
                    l = vals.pop()
                    if l[0] == 'c' and l[2] in (0, 1, 2, 3):
                        d[p] = l[2]
            else:
                d['!'] = 'flags not determined'
        out[which] = d
    return out


# ------------------------------------------------------------------------------------------------
# deciding:  exists K-assignment, for all uninterpreted facts: violation
UNK = [0, '']       # number of undecided evaluations, last reason


class Stop(Exception):
    pass


def exists_violation(check, limit=400):
    """check(assign, kdefault) -> witness or None; raises Need / Unk.  Returns a witness only when a
    violation exists whatever the uninterpreted facts are."""
    budget = [limit]

    def rec(assign, opaque, kd):
        budget[0] -= 1
        if budget[0] < 0:
            raise Stop()
        try:
            return check(assign, kd)
        except Unk as e:
            UNK[0] += 1
            UNK[1] = str(e)
            return None
        except Need as e:
            nm = e.name
        if nm[0] in ('K', 'I', 'B'):
            for v in (True, False):
                r = rec({**assign, nm: v}, opaque, kd)
                if r is not None:
                    return r
            return None
        if opaque >= 5:
            UNK[0] += 1
            UNK[1] = 'depends on several unknown facts'
            return None
        if kd is None:
            for k in (True, False):
                r = univ(assign, opaque, k, nm)
                if r is not None:
                    return r
            return None
        return univ(assign, opaque, kd, nm)

    def univ(assign, opaque, kd, nm):
        a = rec({**assign, nm: True}, opaque + 1, kd)
        b = rec({**assign, nm: False}, opaque + 1, kd)
        if (a is None) != (b is None):
            UNK[0] += 1
            UNK[1] = 'depends on {}'.format(nm[2] if len(nm) > 2 and isinstance(nm[2], str) else nm[0])
        return a if b is not None else None
    try:
        return rec({}, 0, None)
    except (Stop, RecursionError) as e:
        UNK[0] += 1
        UNK[1] = type(e).__name__
        return None
