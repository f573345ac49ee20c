"""Guarded-value abstract interpreter.

Every expression is mapped to a *guarded value*: a tuple of (condition, leaf) pairs, where the
condition is a decision diagram (dd.py) over abstract facts about the operands and the leaf is an
abstract value.  Branches are merged (no path enumeration), loops are summarised once with a generic
element, calls into the public algebra are replaced by their contract, everything else in the
repository is inlined.  Nothing of the analysed program is executed.
"""
import ast
import builtins

from . import dd
from .loader import Program, FnInfo, ClsInfo, AnalysisBroken

T, F = dd.TRUE, dd.FALSE

PROPS = ('relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular')
TYPEFLAGS = ('atom', 'couplet', 'set', 'multiset')
ALLFLAGS = PROPS + TYPEFLAGS
UNKNOWN, IS, IS_NOT, N_A = 0, 1, 2, 3
TRUTH = (IS, IS_NOT, N_A)
KINDS = ('Undef', 'Atom', 'Couplet', 'Set', 'Multiset')
MOKINDS = KINDS[1:]
MO_CLASSES = {'Atom': ('mathobjects.atom', 'Atom'), 'Couplet': ('mathobjects.couplet', 'Couplet'),
              'Set': ('mathobjects.set', 'Set'), 'Multiset': ('mathobjects.multiset', 'Multiset'),
              'Undef': ('undef', 'Undef')}
MAX_DEPTH = 14
MAX_STEPS = 60000


def one(leaf):
    return ((T, leaf),)


def const(v):
    return ('c', type(v).__name__, v)


NONE = const(None)
TRUE_L = const(True)
FALSE_L = const(False)
UNBOUND = ('unbound',)


def cv(v):
    return one(const(v))


def top(why):
    return one(('top', why))


def is_const(leaf):
    return leaf[0] == 'c'


class Budget(Exception):
    pass


class St:
    __slots__ = ('pc', 'env', 'heap', 'binders')

    def __init__(self, pc, env, heap, binders):
        self.pc = pc
        self.env = env
        self.heap = heap
        self.binders = binders

    def copy(self, pc=None):
        return St(self.pc if pc is None else pc, dict(self.env), dict(self.heap), self.binders)

    def assign(self, other):
        self.pc, self.env, self.heap = other.pc, other.env, other.heap


def coalesce(pairs):
    d = {}
    for c, l in pairs:
        if c == F:
            continue
        d[l] = dd.disj(d[l], c) if l in d else c
    return tuple((c, l) for l, c in d.items())


def restrict_gv(gv, pc):
    if pc == T:
        return gv
    return tuple((c2, l) for c2, l in ((dd.conj(c, pc), l) for c, l in gv) if c2 != F)


def gv_merge(v1, pc1, v2, pc2):
    if v1 is v2 or v1 == v2:
        return v1
    return coalesce(restrict_gv(v1, pc1) + restrict_gv(v2, pc2))


# constants of the standard library (this analysis is about 64-bit systems)
EXT_CONST = {'sys.hash_info.width': 64, 'sys.maxsize': (1 << 63) - 1}


_BOUND = {}


def bound_names(tree):
    """All names that are bound anywhere in a tree ('*': there may be others)."""
    r = _BOUND.get(id(tree))
    if r is None:
        r = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                r.add(x.id)
            elif isinstance(x, ast.arg):
                r.add(x.arg)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                r.add(x.name)
            elif isinstance(x, ast.alias):
                r.add((x.asname or x.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                r.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                r.add(x.rest)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in ('exec', 'eval', 'globals', 'locals', 'vars', '__import__'):
                r.add('*')
        _BOUND[id(tree)] = r
    return r


def module_names(tree):
    """Names bound at module level or declared global."""
    r = _BOUND.get(('m', id(tree)))
    if r is None:
        r = set()

        def go(x):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                r.add(x.name)
                for y in ast.walk(x):
                    if isinstance(y, ast.Global):
                        r.update(y.names)
                return
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                r.add(x.id)
            elif isinstance(x, ast.alias):
                r.add((x.asname or x.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
            for y in ast.iter_child_nodes(x):
                go(y)
        for x in tree.body:
            go(x)
        _BOUND['m', id(tree)] = r
    return r


class Contribution:
    __slots__ = ('binders', 'cond', 'val', 'extra', 'mode', 'where')

    def __init__(self, binders, cond, val, extra=None, mode='add', where=None):
        self.binders = binders
        self.cond = cond
        self.val = val
        self.extra = extra
        self.mode = mode
        self.where = where


def merge_contribs(a, b):
    if a is b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    return a[:n] + a[n:] + b[n:]


# contributions that depend on the order of the statements before them
SEQ_MODES = ('phi', 'rem', 'clear', 'poplast', 'popfirst', 'upd')


class Frame:
    def __init__(self, fn, module, st, parent=None):
        self.fn = fn
        self.module = module
        self.st = st
        self.parent = parent
        self.returns = []
        self.yields = None
        self.loops = []
        self.ybase = 0
        self.active = True


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


class Event:
    __slots__ = ('kind', 'pc', 'binders', 'where', 'data', 'fn')

    def __init__(self, kind, pc, binders, where, fn, **data):
        self.kind, self.pc, self.binders, self.where, self.fn, self.data = \
            kind, pc, binders, where, fn, data

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)


class Result:
    """Summary of one function: returns [(cond, leaf)], events, raises."""


class Interp:
    def __init__(self, prog: Program, ops, contracts=True, prop_contracts=True,
                 flag_contracts=True):
        self.prog = prog
        self.flag_contracts = flag_contracts
        self.asints = []
        self.flag_cls = prog.cls('mathobjects._flags', 'Flags')
        self.bitfields = prog.cls('mathobjects._flags', '_Bitfields')
        self.flag_fields = {'_' + p for p in ALLFLAGS}
        self.ops = ops                     # qual name -> OpSpec (see spec.py)
        self.contracts = contracts
        self.prop_contracts = prop_contracts
        self.events = []
        self.raises = []
        self.gens = []                     # gid -> dict(kind, contribs)
        self.objs = []                     # oid -> dict(type, cls, binders)
        self.news = []                     # uid -> dict(cls, args, site, binders)
        self.binder_struct = {}            # bid -> coll struct
        self.nbid = 0
        self.nopaque = 0
        self.loops = {}
        self.reads = []
        self.lib_contracts = True          # whether functions with a contract_* method are replaced by it
        self.assert_raises = 'known'         # whether a failing assertion counts as an exception
        self.init_key = None               # the object under construction
        self.fixed_kinds = {}              # keys of a known kind
        self.sim_nodes = set()
        self.sim_bad = set()
        self.sim_undef = set()
        self.phi_cats = {}
        self.phi_bad = {}
        self.overrides = {}
        self.exists = {}
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.frames = []
        self.unknowns = []                 # constructs the analysis could not interpret
        self.top_fn = None
        self.cls_by_kind = {}
        self.init_flags = {}
        for k, (m, c) in MO_CLASSES.items():
            ci = prog.cls(m, c)
            if ci is None:
                raise AnalysisBroken('class {} not found in module {}'.format(c, m))
            self.cls_by_kind[k] = ci
        self.kind_by_cid = {ci.cid: k for k, ci in self.cls_by_kind.items()}
        self.mo_base = prog.cls('mathobjects.mathobject', 'MathObject')
        if self.mo_base is None:
            raise AnalysisBroken('class MathObject not found')
        st = prog.module('structure')
        self.struct_cids = {b.cid for bs in st.bindings.values() for b in bs
                            if isinstance(b, ClsInfo)}
        self._mod_cache = {}

    # ---------------------------------------------------------------------------------------
    def opaque(self, why):
        self.nopaque += 1
        return dd.lit(('opaque', self.nopaque, why))

    def unknown(self, why, node=None, fr=None):
        where = ''
        if node is not None and fr is not None:
            where = '{}:{}'.format(fr.module.rel, getattr(node, 'lineno', 0))
        self.unknowns.append((why, where))
        return top(why)

    def where(self, node, fr):
        return '{}:{} ({})'.format(fr.module.rel, getattr(node, 'lineno', 0),
                                   fr.fn.qual if fr.fn else fr.module.short)

    def event(self, kind, node, fr, st, **data):
        self.events.append(Event(kind, st.pc, st.binders, self.where(node, fr),
                                 fr.fn.qual if fr.fn else '', **data))

    def do_raise(self, exc, node, fr, st, cond, detail=''):
        c = dd.conj(st.pc, cond)
        if c != F:
            self.raises.append((c, exc, self.where(node, fr), st.binders, detail))
            st.pc = dd.conj(st.pc, dd.neg(cond))

    def new_binder(self, struct):
        self.nbid += 1
        self.binder_struct[self.nbid] = struct
        return self.nbid

    def origin(self, k):
        """The parameter of which an object is part."""
        while True:
            if k[0] == 'p':
                return k[1]
            if k[0] == 'e':
                k = self.binder_struct.get(k[1])
                if not k or k[0] not in ('data', 'e') or not isinstance(k[1], tuple):
                    return None
                k = k[1] if k[0] == 'data' else k
            elif k[0] in ('left', 'right') and isinstance(k[1], tuple):
                k = k[1]
            else:
                return None

    def new_gen(self, kind, contribs):
        self.gens.append({'kind': kind, 'contribs': tuple(contribs)})
        tag = 'seq' if any(c.mode in SEQ_MODES for c in contribs) else 'gen'
        return (tag, len(self.gens) - 1)

    def new_obj(self, typ, st, cls=None):
        self.objs.append({'type': typ, 'cls': cls, 'binders': st.binders})
        return len(self.objs) - 1

    # -- facts ------------------------------------------------------------------------------
    def kinds_of(self, key):
        """[(cond, kind)] of a mathobject key."""
        if key[0] == 'new':
            return [(T, self.news[key[1]]['cls'])]
        if key in self.fixed_kinds:
            return [(T, self.fixed_kinds[key])]
        if key[0] == 'op':
            spec = self.ops.get(key[1])
            if spec is not None and spec.result in MOKINDS:
                return [(T, spec.result)]
            dom = MOKINDS
        elif key[0] == 'p':
            dom = KINDS
        elif key[0] == 'fixed':
            return [(T, key[1])]
        elif key[0] == 'phv' and (key[1], key[4]) in self.sim_undef:
            dom = KINDS
        elif key[0] == 'e' and self.binder_struct.get(key[1], ('',))[0] == 'param':
            dom = KINDS
        else:
            dom = MOKINDS
        name = ('kind', key, 'u') if dom is KINDS else ('kind', key)
        return [(dd.lit(name, k, dom), k) for k in dom]

    def empty_cond(self, key):
        return dd.lit(('empty', key))

    def coll_empty(self, struct):
        if struct[0] == 'data':
            return self.empty_cond(struct[1])
        if struct[0] in ('tocounter', 'starred', 'keys'):
            return self.coll_empty(struct[1])
        if struct[0] == 'elements':
            return self.empty_cond(struct[1])
        if struct[0] == 'gen':
            g = self.gens[struct[1]]
            if not g['contribs']:
                return T
            for c in g['contribs']:
                if not c.binders and c.cond == T:
                    return F
        return dd.lit(('cempty', struct))

    def flag_gv(self, st, key, prop):
        v = st.heap.get(('flag', key, prop))
        if v is not None:
            return v
        if key[0] == 'fl':
            return cv(UNKNOWN)
        if prop in TYPEFLAGS:
            return coalesce((kc, const(IS if kind.lower() == prop else IS_NOT))
                            for kc, kind in self.kinds_of(key) if kind != 'Undef')
        out = []
        for kc, kind in self.kinds_of(key):
            if kind == 'Undef':
                continue
            base = self.init_flags.get((kind, prop))
            # base: {'nonempty': status, 'empty': status}
            if base and kind in ('Set', 'Multiset'):
                parts = [(dd.neg(self.empty_cond(key)), base['nonempty']),
                         (self.empty_cond(key), base['empty'])]
            elif base:
                parts = [(T, base['nonempty'])]
            else:
                parts = [(T, UNKNOWN)]
            for pcnd, status in parts:
                c = dd.conj(kc, pcnd)
                if c == F:
                    continue
                if status != UNKNOWN:
                    out.append((c, const(status)))
                elif key[0] == 'new':
                    out.append((c, const(UNKNOWN)))
                else:
                    known = dd.lit(('K', key, prop))
                    out.append((dd.conj(c, dd.neg(known)), const(UNKNOWN)))
                    for t in TRUTH:
                        out.append((dd.conj(c, dd.conj(known, dd.lit(('T', key, prop), t, TRUTH))),
                                    const(t)))
        return coalesce(out)

    # -- conditions -------------------------------------------------------------------------
    def truth(self, gv, node, fr, st):
        """Condition under which gv is truthy."""
        r = F
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            r = dd.disj(r, dd.conj(c, self.leaf_truth(l, node, fr, st, c)))
        return r

    def leaf_truth(self, l, node, fr, st, c):
        tag = l[0]
        if tag == 'c':
            return T if l[2] else F
        if tag == 'undef':
            self.do_raise('TypeError', node, fr, st, c, 'Boolean conversion of Undef')
            return F
        if tag == 'mo':
            r = F
            for kc, k in self.kinds_of(l[1]):
                if k in ('Set', 'Multiset'):
                    r = dd.disj(r, dd.conj(kc, dd.neg(self.empty_cond(l[1]))))
                elif k == 'Undef':
                    self.do_raise('TypeError', node, fr, st, dd.conj(c, kc),
                                  'Boolean conversion of Undef')
                else:
                    r = dd.disj(r, kc)
            return r
        if tag == 'coll':
            return dd.neg(self.coll_empty(l[1]))
        if tag == 'tuple':
            return T if l[1] else F
        if tag == 'term':
            return dd.lit(('true', l[1]))
        if tag in ('fn', 'cls', 'mod', 'bm', 'partial', 'ufn', 'ext', 'flags', 'ebm', 'closure', 'asint'):
            return T
        if tag == 'obj':
            o = self.objs[l[1]]
            if o['type'] in ('list', 'set', 'dict', 'counter'):
                return dd.neg(self.coll_empty(self.snapshot(l[1], st)))
            return T if o['type'] == 'inst' else self.opaque('truth of object')
        return self.opaque('truth of {}'.format(tag))

    def bool_gv(self, cond):
        if cond == T:
            return one(TRUE_L)
        if cond == F:
            return one(FALSE_L)
        return ((cond, TRUE_L), (dd.neg(cond), FALSE_L))

    # A collection that is the value of a dictionary entry is an object with the attribute 'cell': it has
    # no contents of its own, reading it reads the entry and changing it is an 'upd' of the dictionary.
    def cell(self, d, key, cat):
        oid = len(self.objs)
        self.objs.append({'type': cat[1], 'cls': None, 'binders': self.objs[d]['binders'], 'cell': (d, key), 'cat': cat})
        return ('obj', oid)

    def push(self, oid, c, st):
        oid0, o = oid, self.objs[oid]
        while 'cell' in o:
            d, key = o['cell']
            c = Contribution(c.binders, c.cond, one(key), one(('tuple', (
                cv(o['type']), cv(c.mode), c.val, c.extra if c.extra is not None else cv(None)))), 'upd', c.where)
            oid, o = d, self.objs[d]
        k = ('contribs', oid)
        st.heap[k] = st.heap.get(k, ()) + (c,)

    def stored(self, d, idx, gv, st):
        """Value of a dictionary entry; from now on its collection and the entry are the same."""
        out = []
        for c, l in gv:
            if l[0] == 'obj' and self.objs[l[1]]['type'] in ('list', 'set', 'dict', 'counter') and \
                    dd.conj(c, st.pc) != F:
                o = self.objs[l[1]]
                s = self.snapshot(l[1], st)
                if len(idx) != 1 or len(o['binders']) < len(st.binders):
                    out.append((c, ('top', 'shared collection')))
                    continue
                cl = self.cell(d, idx[0][1], ('collk', self.value_kind(s), self.struct_cat(s)))
                k = ('alias', l[1])
                cc = dd.conj(c, st.pc)
                st.heap[k] = coalesce(restrict_gv(one(cl), cc) + restrict_gv(st.heap.get(k, cv(None)), dd.neg(cc)))
                out.append((c, ('coll', s)))
            else:
                out.append((c, l))
        return coalesce(out)

    def deref(self, gv, st):
        if not any(l[0] == 'obj' and ('alias', l[1]) in st.heap for c, l in gv):
            return gv
        out = []
        for c, l in gv:
            a = st.heap.get(('alias', l[1])) if l[0] == 'obj' else None
            if a is None:
                out.append((c, l))
            else:
                out += [(dd.conj(c, c2), l2 if l2 != NONE else l) for c2, l2 in a]
        return coalesce(out)

    def contents(self, oid, st):
        self.reads.append(oid)
        if 'cell' in self.objs[oid]:
            s = self.snapshot(oid, st)
            b = self.new_binder(s)
            m = self.is_mapping(s)
            return (Contribution(((b, s),), T, one(self.elem_leaf(s, b)), one(('term', ('mult', s, ('e', b)))) if m else None,
                                 'set' if m else 'add'),)
        return st.heap.get(('contribs', oid), ())

    def snapshot(self, oid, st):
        """Immutable collection struct with the current contents of a mutable object."""
        o = self.objs[oid]
        if o['type'] == 'iter':
            pos = self.iter_pos(oid, st)
            if pos is None:
                return ('unknown', self.nbid)
            return ('rest', o['struct'], pos) if pos else o['struct']
        if 'cell' in o:
            d, key = o['cell']
            t = self.num_term(key)
            if t is None:
                return ('unknown', self.nbid)
            self.reads.append(oid)
            return ('cpart', ('dget', self.snapshot(d, st), t)) + o['cat'][1:]
        return self.new_gen(o['type'], self.contents(oid, st))

    def identical(self, a, b, st, node=None, fr=None):
        """Condition for `a is b` on leaves."""
        ta, tb = a[0], b[0]
        if ta == 'undef' or tb == 'undef':
            if ta == tb:
                return T
            other = b if ta == 'undef' else a
            if other[0] == 'mo':
                r = F
                for kc, k in self.kinds_of(other[1]):
                    if k == 'Undef':
                        r = dd.disj(r, kc)
                return r
            if other[0] in ('top', 'phi', 'unbound'):
                return self.opaque('identity with unknown')
            if other[0] == 'term':
                return dd.lit(('isundef', other[1]))
            return F
        if ta == 'c' and tb == 'c':
            return T if (a[1] == b[1] and a[2] == b[2]) else F
        if 'phi' in (ta, tb):
            p = a if ta == 'phi' else b
            q = b if ta == 'phi' else a
            if q == NONE:
                return dd.neg(dd.lit(('phiset', p[1], p[2])))
            return self.opaque('identity with loop-carried value')
        if ta in ('top', 'unbound', 'term') or tb in ('top', 'unbound', 'term'):
            if ta == 'term' and tb == 'term' and a == b:
                return T
            if (ta == 'term' and b == NONE) or (tb == 'term' and a == NONE):
                t = a if ta == 'term' else b
                return dd.lit(('isnone', t[1]))
            return self.opaque('identity with unknown')
        if a == b:
            return T
        if ta == 'mo' and tb == 'mo':
            x, y = sorted((a[1], b[1]), key=repr)
            if self.origin(x) is None or self.origin(y) is None:
                return self.opaque('identity of two objects')
            return dd.lit(('ident', x, y))
        if ta in ('ext', 'cls', 'fn', 'mod') and tb in ('ext', 'cls', 'fn', 'mod'):
            return F
        if NONE in (a, b):
            return F
        return self.opaque('identity')

    def num_term(self, l):
        """Term for a leaf used as a number / plain value."""
        if l[0] == 'c':
            return ('k', l[1], l[2])
        if l[0] == 'term':
            return l[1]
        if l[0] == 'mo':
            return ('moterm', l[1])
        if l[0] == 'coll':
            return ('collterm', l[1])
        if l[0] == 'tuple':
            return ('tupterm', l[1])
        return None

    def equal(self, a, b, st, node, fr, cond, opname='Eq'):
        ta, tb = a[0], b[0]
        if ta == 'c' and tb == 'c':
            try:
                return T if a[2] == b[2] else F
            except Exception:
                return self.opaque('eq')
        if ta == 'undef' or tb == 'undef':
            self.do_raise('TypeError', node, fr, st, cond, 'comparison with Undef')
            self.event('undef_cmp', node, fr, st, cond=cond)
            return F
        for l in (a, b):
            if l[0] == 'mo' and l[1][0] == 'p':
                for kc, k in self.kinds_of(l[1]):
                    if k == 'Undef':
                        self.do_raise('TypeError', node, fr, st, dd.conj(cond, kc),
                                      'comparison with Undef')
        if ta == 'mo' and tb == 'mo':
            if a == b:
                return T
            x, y = sorted((a[1], b[1]), key=repr)
            return dd.lit(('eq', x, y))
        if ta == 'tuple' and tb == 'tuple':
            if len(a[1]) != len(b[1]):
                return F
            r = T
            for x, y in zip(a[1], b[1]):
                r = dd.conj(r, self.cmp_gv('Eq', x, y, node, fr, st))
            return r
        if ta == 'cls' and tb == 'cls':
            return T if a == b else F
        ca, cb = self.as_coll(a, st), self.as_coll(b, st)
        if ca is not None and cb is not None:
            return dd.lit(('colleq', ca, cb))
        na, nb = self.num_term(a), self.num_term(b)
        if na is not None and nb is not None:
            if na == nb:
                return T
            x, y = sorted((na, nb), key=repr)
            return self.cmp_terms('==', x, y)
        return self.opaque('equality')

    def cmp_terms(self, op, x, y):
        """Condition for a numeric comparison, normalised so that mirrored forms coincide."""
        if op in ('>', '>='):
            x, y, op = y, x, {'>': '<', '>=': '<='}[op]
        if op == '<':                      # x < y  ==  not (y <= x)
            return dd.neg(self.cmp_terms('<=', y, x))
        # emptiness tests
        for s, k, flip in ((x, y, False), (y, x, True)):
            if s[0] in ('card', 'len') and k[0] == 'k' and k[2] in (0, 1):
                e = self.term_empty(s)
                if e is not None:
                    if op == '==' and k[2] == 0:
                        return e
                    if op == '<=':
                        if not flip and k[2] == 0:       # card <= 0
                            return e
                        if flip and k[2] == 1:           # 1 <= card
                            return dd.neg(e)
                        if flip and k[2] == 0:
                            return T
        return dd.lit(('cmp', op, x, y))

    def term_empty(self, t):
        if t[0] in ('card', 'len'):
            return self.coll_empty(t[1])
        return None

    def cmp_gv(self, op, a, b, node, fr, st):
        r = F
        for c1, l1 in a:
            for c2, l2 in b:
                c = dd.conj(c1, c2)
                if dd.conj(c, st.pc) == F:
                    continue
                r = dd.disj(r, dd.conj(c, self.cmp_leaf(op, l1, l2, node, fr, st, c)))
        return r

    def cmp_leaf(self, op, a, b, node, fr, st, c):
        if op == 'Is':
            return self.identical(a, b, st)
        if op == 'IsNot':
            return dd.neg(self.identical(a, b, st))
        if op == 'Eq':
            return self.equal(a, b, st, node, fr, c)
        if op == 'NotEq':
            return dd.neg(self.equal(a, b, st, node, fr, c))
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, node, fr, st, c)
            return r if op == 'In' else dd.neg(r)
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        if a[0] == 'c' and b[0] == 'c':
            try:
                return T if {'<': lambda: a[2] < b[2], '<=': lambda: a[2] <= b[2],
                             '>': lambda: a[2] > b[2], '>=': lambda: a[2] >= b[2]}[sym]() else F
            except Exception:
                return self.opaque('cmp')
        if a[0] == 'tuple' and b[0] == 'tuple':
            r = F if len(a[1]) > len(b[1]) or len(a[1]) == len(b[1]) and sym in ('<', '>') else T
            if sym in ('>', '>='):
                r = F if len(a[1]) < len(b[1]) or len(a[1]) == len(b[1]) and sym == '>' else T
            for x, y in reversed(list(zip(a[1], b[1]))):
                r = dd.disj(self.cmp_gv('Lt' if sym in ('<', '<=') else 'Gt', x, y, node, fr, st),
                            dd.conj(self.cmp_gv('Eq', x, y, node, fr, st), r))
            return r
        ca, cb = self.as_coll(a, st), self.as_coll(b, st)
        if ca is not None and cb is not None:
            if sym == '<=':
                return dd.lit(('subset', ca, cb))
            if sym == '>=':
                return dd.lit(('subset', cb, ca))
            if sym == '<':
                return dd.conj(dd.lit(('subset', ca, cb)), dd.neg(dd.lit(('subset', cb, ca))))
            return dd.conj(dd.lit(('subset', cb, ca)), dd.neg(dd.lit(('subset', ca, cb))))
        na, nb = self.num_term(a), self.num_term(b)
        if na is not None and nb is not None:
            if na != nb and any(t[0] in ('value', 'pval', 'rawel') for t in (na, nb)):
                self.do_raise('TypeError', node, fr, st, dd.conj(c, dd.lit(('unordered', na, nb))),
                              'values cannot be ordered')
            return self.cmp_terms(sym, na, nb)
        return self.opaque('ordering')

    def contains(self, a, b, node, fr, st, c):
        if b[0] == 'mo':
            # Set.__contains__ / Multiset.__contains__
            t = self.num_term(a)
            if t is None:
                return self.opaque('in')
            return dd.lit(('in', t, ('data', b[1])))
        if b[0] == 'tuple':
            r = F
            for x in b[1]:
                r = dd.disj(r, self.cmp_gv('Eq', one(a), x, node, fr, st))
            return r
        if b[0] == 'c' and a[0] == 'c':
            try:
                return T if a[2] in b[2] else F
            except Exception:
                return self.opaque('in')
        cb = self.as_coll(b, st)
        t = self.num_term(a)
        if cb is not None and cb[0] in ('keys',):
            cb = cb[1]
        if cb is not None and cb[0] == 'gen':
            # literal collection: disjunction of equalities
            contribs = self.gens[cb[1]]['contribs']
            if all(not x.binders for x in contribs) and len(contribs) <= 16:
                r = F
                for x in contribs:
                    r = dd.disj(r, dd.conj(x.cond, self.cmp_gv('Eq', one(a), x.val, node, fr, st)))
                return r
        if cb is not None and t is not None:
            return dd.lit(('in', t, cb))
        return self.opaque('in')

    def as_coll(self, l, st):
        """Collection struct of a leaf, or None."""
        if l[0] == 'coll':
            return l[1]
        if l[0] == 'tuple':
            return self.new_gen('list', [Contribution((), T, x) for x in l[1]])
        if l[0] == 'obj' and self.objs[l[1]]['type'] in ('list', 'set', 'dict', 'counter', 'iter'):
            return self.snapshot(l[1], st)
        return None

    # ---------------------------------------------------------------------------------------
    # names
    def lookup(self, name, fr, st, node):
        f = fr
        env = st.env
        while True:
            if name in env:
                v = env[name]
                if any(l == UNBOUND and dd.conj(c, st.pc) != F for c, l in v):
                    v = tuple((c, l) if l != UNBOUND else (c, ('top', 'maybe unbound ' + name))
                              for c, l in v)
                return v
            f = f.parent
            if f is None:
                break
            env = f.st.env
        if node is not None and self.never_bound(name, fr):
            self.do_raise('NameError', node, fr, st, T, "name '{}' is not defined".format(name))
            return ()
        return self.module_name(fr.module, name, node, fr)

    def never_bound(self, name, fr):
        """Whether a name that is no known variable is certain not to be defined."""
        m = fr.module
        if m.bindings.get(name) or m.name + '.' + name in self.prog.modules or hasattr(builtins, name) or \
                name in ('__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__class__', '__all__'):
            return False
        while fr is not None:
            if fr.fn is not None:
                if name in bound_names(fr.fn.node):
                    return False
                if fr.fn.cls is not None and fr.parent is None and name in fr.fn.cls.members:
                    return False
            fr = fr.parent
        g = bound_names(m.tree)
        return '*' not in g and name not in module_names(m.tree)

    def module_name(self, m, name, node=None, fr=None):
        key = (m.name, name)
        if key in self._mod_cache:
            return self._mod_cache[key]
        self._mod_cache[key] = top('recursive module name ' + name)
        r = self.prog.resolve_name(m, name)
        v = self.static_leaf(r, name)
        self._mod_cache[key] = v
        return v

    def static_leaf(self, r, name=''):
        if r is None:
            return top('unresolved name ' + name)
        if isinstance(r, FnInfo):
            return one(('fn', r.fid))
        if isinstance(r, ClsInfo):
            return one(('cls', r.cid))
        if r[0] == 'mod':
            return one(('mod', r[1].name))
        if r[0] == 'ext':
            return one(('ext', r[1]))
        if r[0] == 'expr':
            mod = r[2]
            st = St(T, {}, {}, ())
            fr = Frame(None, mod, st)
            try:
                return self.ev(r[1], fr, st)
            except Budget:
                raise
        return top('unknown binding ' + name)

    # ---------------------------------------------------------------------------------------
    # expressions
    def ev(self, n, fr, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            return self.unknown('expression ' + type(n).__name__, n, fr)
        return m(n, fr, st)

    def ev_Constant(self, n, fr, st):
        return cv(n.value)

    def ev_Name(self, n, fr, st):
        return self.deref(self.lookup(n.id, fr, st, n), st)

    def ev_NamedExpr(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        st.env[n.target.id] = v
        return v

    def ev_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                g = self.ev(v.value, fr, st)
                if v.format_spec is not None or v.conversion not in (-1, 114, 115):
                    parts.append(top('f-string'))
                    continue
                parts.append(self.text_of('repr' if v.conversion == 114 else 'strof', g, st))
            else:
                parts.append(self.ev(v, fr, st))
        return self.text(parts, st)

    def text_of(self, how, gv, st):
        """repr() / str() of a value."""
        out = []
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            if l[0] == 'c':
                out.append((c, const(repr(l[2]) if how == 'repr' else str(l[2]))))
            elif how == 'strof' and l[0] == 'term' and l[1][0] in ('text', 'repr', 'strof', 'join', 'crepr'):
                out.append((c, l))
            elif l[0] in ('mo', 'term', 'undef', 'tuple'):
                out.append((c, ('term', (how, l))))
            else:
                s = self.as_coll(l, st) if l[0] in ('coll', 'obj') else None
                ck = self.coll_kind(s) if s is not None else None
                if ck == 'data' and [k for _, k in self.kinds_of(s[1])] == ['Set']:
                    ck = 'frozenset'
                br = {'list': '[]', 'sorted': '[]', 'set': '{}', 'frozenset': ('frozenset({', '})')}.get(ck)
                out.append((c, ('term', ('crepr', br[0], br[1], s)) if br else ('top', how)))
        return coalesce(out)

    def text(self, parts, st):
        """Concatenation of guarded texts."""
        acc = [(T, ())]
        for g in parts:
            nxt = []
            for c, t in acc:
                for c2, l in g:
                    cc = dd.conj(c, c2)
                    if dd.conj(cc, st.pc) == F:
                        continue
                    if l[0] == 'c':
                        if t and isinstance(t[-1], str):
                            nxt.append((cc, t[:-1] + (t[-1] + str(l[2]),)))
                        else:
                            nxt.append((cc, t + (str(l[2]),)))
                    elif l[0] == 'term':
                        nxt.append((cc, t + (l[1],)))
                    else:
                        return top('text')
            acc = nxt
            if len(acc) > 64:
                return top('text')
        return coalesce([(c, const(t[0] if t else '')) if len(t) <= 1 and (not t or isinstance(t[0], str))
                         else (c, ('term', ('text',) + t)) for c, t in acc])

    def format_text(self, fmt, args, kw, st):
        """str.format with plain fields."""
        import string
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return top('format')
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(cv(lit))
            if name is None:
                continue
            if name == '':
                name, auto = str(auto), auto + 1
            v = args[int(name)] if name.isdigit() and int(name) < len(args) else kw.get(name)
            if v is None or spec or conv not in (None, 'r', 's'):
                return top('format')
            parts.append(self.text_of('repr' if conv == 'r' else 'strof', v, st))
        return self.text(parts, st)

    def percent_text(self, fmt, l, st):
        import re
        args = list(l[1]) if l[0] == 'tuple' else [one(l)]
        parts = []
        for x in re.split('(%.)', fmt):
            if x == '%%':
                parts.append(cv('%'))
            elif x in ('%s', '%r', '%d') and args:
                parts.append(self.text_of('repr' if x == '%r' else 'strof', args.pop(0), st))
            elif x.startswith('%'):
                return top('percent')
            elif x:
                parts.append(cv(x))
        return self.text(parts, st)

    def ev_Tuple(self, n, fr, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return one(('coll', self.literal_coll('list', n.elts, fr, st)))
        return one(('tuple', tuple(self.ev(e, fr, st) for e in n.elts)))

    def literal_coll(self, kind, elts, fr, st):
        contribs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr, st)
                contribs.extend(self.iter_contribs(v, e, fr, st))
            else:
                contribs.append(Contribution((), T, self.ev(e, fr, st)))
        return self.new_gen(kind, contribs)

    def iter_contribs(self, gv, node, fr, st):
        """Contributions equivalent to iterating over gv."""
        out = []
        for c, l in gv:
            c2 = dd.conj(c, st.pc)
            if c2 == F:
                continue
            for binders, cond, val in self.element_views(l, node, fr, st, c):
                out.append(Contribution(binders, dd.conj(c, cond), val))
        return out

    def ev_List(self, n, fr, st):
        return self.mutable('list', self.gens[self.literal_coll('list', n.elts, fr, st)[1]]['contribs'], st)

    def ev_Set(self, n, fr, st):
        return self.mutable('set', self.gens[self.literal_coll('set', n.elts, fr, st)[1]]['contribs'], st)

    def ev_Dict(self, n, fr, st):
        contribs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.ev(v, fr, st)
                contribs.append(Contribution((), T, top('dict unpack'), top('dict unpack'), 'set'))
            else:
                k = self.ev(k, fr, st)
                v = tuple((c, self.freeze_state(l, st)) for c, l in self.ev(v, fr, st))
                contribs.append(Contribution((), T, k, v, 'set'))
        return self.mutable('dict', tuple(contribs), st)

    def mutable(self, typ, contribs, st):
        oid = self.new_obj(typ, st)
        st.heap[('contribs', oid)] = tuple(contribs)
        return one(('obj', oid))

    def ev_IfExp(self, n, fr, st):
        c = self.truth(self.ev(n.test, fr, st), n.test, fr, st)
        return self.branch_expr(c, n.body, n.orelse, fr, st)

    def branch_expr(self, c, a, b, fr, st):
        ca = dd.conj(st.pc, c)
        cb = dd.conj(st.pc, dd.neg(c))
        if ca == F and cb == F:
            return top('unreachable')
        if cb == F:
            return self.ev(a, fr, st)
        if ca == F:
            return self.ev(b, fr, st)
        s1, s2 = st.copy(ca), st.copy(cb)
        v1 = self.ev(a, fr, s1)
        v2 = self.ev(b, fr, s2)
        r = gv_merge(v1, ca, v2, cb)
        st.assign(self.merge(s1, s2))
        return r

    def ev_BoolOp(self, n, fr, st):
        is_and = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr, st)
        for nxt in n.values[1:]:
            t = self.truth(v, n, fr, st)
            go = t if is_and else dd.neg(t)
            c_go = dd.conj(st.pc, go)
            if c_go == F:
                break
            s2 = st.copy(c_go)
            v2 = self.ev(nxt, fr, s2)
            stay = dd.conj(st.pc, dd.neg(go))
            keep = restrict_gv(v, dd.neg(go))
            v = coalesce(keep + restrict_gv(v2, go))
            if stay == F:
                st.assign(s2)
            else:
                s1 = st.copy(stay)
                st.assign(self.merge(s1, s2))
        return v

    def ev_UnaryOp(self, n, fr, st):
        v = self.ev(n.operand, fr, st)
        if isinstance(n.op, ast.Not):
            return self.bool_gv(dd.neg(self.truth(v, n, fr, st)))
        out = []
        for c, l in v:
            if l[0] == 'c' and isinstance(l[2], (int, float)):
                try:
                    r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                         ast.Invert: lambda x: ~x}[type(n.op)](l[2])
                    out.append((c, const(r)))
                    continue
                except Exception:
                    pass
            t = self.num_term(l)
            out.append((c, ('term', ('un', type(n.op).__name__, t)) if t else ('top', 'unary')))
        return coalesce(out)

    def ev_Compare(self, n, fr, st):
        left = self.ev(n.left, fr, st)
        r = T
        for op, right in zip(n.ops, n.comparators):
            rv = self.ev(right, fr, st)
            r = dd.conj(r, self.cmp_gv(type(op).__name__, left, rv, n, fr, st))
            left = rv
        return self.bool_gv(r)

    COP = {'BitOr': '|', 'BitAnd': '&', 'Sub': '-', 'Add': '+', 'BitXor': '^'}

    def ev_BinOp(self, n, fr, st):
        a = self.ev(n.left, fr, st)
        b = self.ev(n.right, fr, st)
        return self.binop(type(n.op).__name__, a, b, n, fr, st)

    def binop(self, op, a, b, n, fr, st):
        out = []
        for c1, l1 in a:
            for c2, l2 in b:
                c = dd.conj(c1, c2)
                if dd.conj(c, st.pc) == F:
                    continue
                out.append((c, self.binop_leaf(op, l1, l2, n, fr, st)))
        return coalesce(out)

    def binop_leaf(self, op, a, b, n, fr, st):
        if a[0] == 'c' and b[0] == 'c':
            try:
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
                     'Mult': lambda x, y: x * y, 'Mod': lambda x, y: x % y,
                     'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y,
                     'LShift': lambda x, y: x << y}.get(op)
                if f is not None and not (op in ('Mult', 'LShift') and isinstance(b[2], int)
                                          and b[2] > 4096):
                    return const(f(a[2], b[2]))
            except Exception:
                pass
            return ('top', 'const op')
        if a[0] == 'tuple' and b[0] == 'tuple' and op == 'Add':
            return ('tuple', a[1] + b[1])
        ca, cb = self.as_coll(a, st), self.as_coll(b, st)
        if ca is not None and cb is not None:
            if op == 'Add' and self.coll_kind(ca) in ('list', 'gen') \
                    and self.coll_kind(cb) in ('list', 'gen'):
                return ('coll', ('concat', ca, cb))
            if op in self.COP:
                return ('coll', ('cop', self.COP[op], ca, cb))
            return ('top', 'coll op')
        if op == 'Mod' and a[0] == 'c' and isinstance(a[2], str):
            g = self.percent_text(a[2], b, st)
            return g[0][1] if len(g) == 1 else ('top', 'percent')
        if op == 'Add' and (self.is_text(a) or self.is_text(b)):
            g = self.text([one(a), one(b)], st)
            return g[0][1] if len(g) == 1 else ('top', 'text')
        ta, tb = self.num_term(a), self.num_term(b)
        if ta is not None and tb is not None:
            if op in ('Add', 'Mult') and repr(tb) < repr(ta):
                ta, tb = tb, ta
            return ('term', ('bin', op, ta, tb))
        if 'phi' in (a[0], b[0]):
            return ('phiop', op, a, b)
        return ('top', 'binop')

    @staticmethod
    def is_text(l):
        return l[0] == 'c' and isinstance(l[2], str) or \
            l[0] == 'term' and l[1][0] in ('text', 'repr', 'strof', 'join', 'crepr')

    def coll_kind(self, s):
        if s[0] in ('gen', 'seq'):
            return self.gens[s[1]]['kind']
        if s[0] == 'cpart':
            return s[2]
        return s[0]

    def value_kind(self, s):
        """Kind of a collection that is stored as a value."""
        k = self.coll_kind(s)
        if k in ('list', 'set', 'dict', 'counter'):
            return k
        if k == 'tocounter' or self.is_counter(s):
            return 'counter'
        if k in ('concat', 'slice', 'sorted', 'reversed', 'rest', 'elements'):
            return 'list'
        if k == 'cop':
            return 'set' if self.value_kind(s[2]) in ('set', None) else None
        if k == 'data':
            kd = self.kinds_of(s[1])
            return 'set' if len(kd) == 1 and kd[0][1] == 'Set' else None
        return None

    def ev_Lambda(self, n, fr, st):
        return self.make_closure(n, fr, st)

    def make_closure(self, n, fr, st):
        fi = self.prog.new_fn(n, fr.module, None, frame=fr, snapshot=None)
        if fr.fn is not None:
            fi.qual = fr.fn.qual + '.' + fi.name
        fi.defaults_gv = ([self.ev(d, fr, st) for d in n.args.defaults],
                          [self.ev(d, fr, st) if d is not None else None for d in n.args.kw_defaults])
        fi.snapshot = st.env
        return one(('fn', fi.fid))

    def ev_GeneratorExp(self, n, fr, st):
        return one(('coll', self.comp('gen', n, fr, st)))

    def ev_ListComp(self, n, fr, st):
        s = self.comp('list', n, fr, st)
        return self.mutable('list', self.gens[s[1]]['contribs'], st)

    def ev_SetComp(self, n, fr, st):
        s = self.comp('set', n, fr, st)
        return self.mutable('set', self.gens[s[1]]['contribs'], st)

    def ev_DictComp(self, n, fr, st):
        s = self.comp('dict', n, fr, st)
        return self.mutable('dict', self.gens[s[1]]['contribs'], st)

    def comp(self, kind, n, fr, st):
        saved = dict(st.env)
        contribs = []
        depth0 = len(st.binders)

        def rec(i, s):
            if i == len(n.generators):
                if kind == 'dict':
                    k = self.ev(n.key, fr, s)
                    v = tuple((c, self.freeze_state(l, s)) for c, l in self.ev(n.value, fr, s))
                    contribs.append(Contribution(s.binders[depth0:], s.pc, k, v, 'set',
                                                 self.where(n, fr)))
                else:
                    v = self.ev(n.elt, fr, s)
                    contribs.append(Contribution(s.binders[depth0:], s.pc, v, None, 'add',
                                                 self.where(n, fr)))
                return
            g = n.generators[i]
            it = self.ev(g.iter, fr, s)
            for c, l in it:
                c2 = dd.conj(c, s.pc)
                if c2 == F:
                    continue
                for binders, cond, val in self.element_views(l, g.iter, fr, s, c):
                    pc = dd.conj(c2, cond)
                    if pc == F:
                        continue
                    s2 = s.copy(pc)
                    s2.binders = s.binders + binders
                    self.bind(g.target, val, fr, s2)
                    dead = False
                    for test in g.ifs:
                        t = self.truth(self.ev(test, fr, s2), test, fr, s2)
                        s2.pc = dd.conj(s2.pc, t)
                        if s2.pc == F:
                            dead = True
                            break
                    if not dead:
                        rec(i + 1, s2)
                    # heap effects of the comprehension body survive (weakly)
                    self.absorb_heap(st, s2)
        s = st.copy()
        rec(0, s)
        st.env = saved
        return self.new_gen(kind, contribs)

    def absorb_heap(self, st, s2):
        for k, v in s2.heap.items():
            old = st.heap.get(k)
            if old is v:
                continue
            if k[0] == 'contribs':
                st.heap[k] = v if old is None else merge_contribs(old, v)
            elif old is None:
                st.heap[k] = v
            else:
                st.heap[k] = coalesce(tuple((c, l) for c, l in old) + tuple(v)) \
                    if isinstance(old, tuple) else v

    # elements of a collection: list of (binders, cond, value)
    def element_views(self, l, node, fr, st, cond=T):
        tag = l[0]
        if tag == 'tuple':
            return [((), T, x) for x in l[1]]
        if tag == 'mo':
            out = []
            for kc, k in self.kinds_of(l[1]):
                if dd.conj(dd.conj(kc, cond), st.pc) == F:
                    continue
                if k == 'Set':
                    s = self.mo_data(l[1], st)
                    out.extend((b, dd.conj(kc, c), v) for b, c, v in self.struct_views(s, st))
                elif k == 'Multiset':
                    s = ('elements', l[1])
                    out.extend((b, dd.conj(kc, c), v) for b, c, v in self.struct_views(s, st))
                else:
                    self.do_raise('TypeError', node, fr, st, dd.conj(cond, kc),
                                  '{} is not iterable'.format(k))
            return out
        if tag == 'undef':
            self.do_raise('TypeError', node, fr, st, cond, 'Undef is not iterable')
            return []
        s = self.as_coll(l, st)
        if s is not None:
            return self.struct_views(s, st)
        if tag == 'c' and isinstance(l[2], (str, tuple)) and len(l[2]) <= 32:
            return [((), T, cv(x)) for x in l[2]]
        b = self.new_binder(('unknown', self.nbid))
        return [(((b, ('unknown', b)),), T, top('element of unknown'))]

    def mo_data(self, key, st):
        v = st.heap.get(('slot', key, 'data'))
        if v is not None and len(v) == 1 and v[0][1][0] == 'coll':
            return v[0][1][1]
        return ('data', key)

    def may_repeat(self, s):
        """Whether the contributions to a set or mapping can give the same element twice: an iteration
        over the collection sees it once, an iteration over the contributions twice."""
        g = self.gens[s[1]]
        if g['kind'] in ('list', 'gen', 'tuple'):
            return False
        if not g['contribs'] or len(g['contribs']) == 1 and not g['contribs'][0].binders:
            return False
        if len({l[0] in ('mo', 'undef') for c in g['contribs'] for k, l in c.val}) > 1:
            return False    # a bare value and the Atom of that value are different elements
        if len(g['contribs']) == 1 and len(g['contribs'][0].binders) == 1:
            c = g['contribs'][0]
            b, bs = c.binders[0]
            if len(c.val) == 1 and c.val[0][1] == self.elem_leaf(bs, b) and self.distinct(bs):
                return False
        return True

    def distinct(self, s):
        if s[0] in ('data', 'keys', 'items', 'range'):
            return True
        if s[0] == 'gen':
            return self.gens[s[1]]['kind'] in ('set', 'dict', 'counter')
        if s[0] in ('sorted', 'reversed', 'rest', 'slice'):
            return self.distinct(s[1])
        return False

    def struct_views(self, s, st):
        if s[0] == 'gen':
            if self.may_repeat(s):
                b = self.new_binder(s)
                return [(((b, s),), T, one(self.elem_leaf(s, b)))]
            out = []
            for c in self.gens[s[1]]['contribs']:
                # rename binders freshly so that nested iteration is independent
                if c.binders:
                    mapping = {}
                    nb = []
                    for bid, bs in c.binders:
                        bs2 = self.rename_struct(bs, mapping)
                        b2 = self.new_binder(bs2)
                        mapping[bid] = b2
                        nb.append((b2, bs2))
                    out.append((tuple(nb), self.rename_cond(c.cond, mapping),
                                self.rename_gv(c.val, mapping)))
                else:
                    out.append(((), c.cond, c.val))
            return out
        if s[0] == 'items':
            base = s[1]
            if base[0] == 'gen':
                out = []
                for c in self.gens[base[1]]['contribs']:
                    if c.extra is None:
                        b = self.new_binder(s)
                        return [(((b, s),), T, one(('tuple', (one(('mo', ('e', b))),
                                                              one(('term', ('mult', s, b)))))))]
                    mapping = {}
                    nb = []
                    for bid, bs in c.binders:
                        bs2 = self.rename_struct(bs, mapping)
                        b2 = self.new_binder(bs2)
                        mapping[bid] = b2
                        nb.append((b2, bs2))
                    out.append((tuple(nb), self.rename_cond(c.cond, mapping),
                                one(('tuple', (self.rename_gv(c.val, mapping),
                                               self.rename_gv(c.extra, mapping))))))
                return out
            if self.struct_cat(('values', base)) not in ('num', None):
                b = self.new_binder(s)
                return [(((b, s),), T, one(self.elem_leaf(s, b)))]
            b = self.new_binder(base)
            return [(((b, base),), T,
                     one(('tuple', (one(self.elem_leaf(base, b)),
                                    one(('term', ('mult', base, ('e', b))))))))]
        if s[0] == 'keys':
            return self.struct_views(s[1], st) if s[1][0] != 'gen' else \
                [(b, c, v) for b, c, v in self.struct_views(s[1], st)]
        if s[0] == 'concat':
            return self.struct_views(s[1], st) + self.struct_views(s[2], st)
        b = self.new_binder(s)
        return [(((b, s),), T, one(self.elem_leaf(s, b)))]

    def leaf_cat(self, l, st=None):
        """Category of a leaf: 'mo', 'num', ('tuple', ...) or 'mixed'."""
        if l[0] in ('mo', 'undef'):
            return 'mo'
        if l[0] == 'term' or l[0] == 'c':
            return 'num'
        if l[0] == 'tuple':
            return ('tuple',) + tuple(self.gv_cat(x) for x in l[1])
        if l[0] == 'coll' and self.value_kind(l[1]) is not None:
            return ('collk', self.value_kind(l[1]), self.struct_cat(l[1]))
        return 'mixed'

    def gv_cat(self, gv):
        return self.join_cats(self.leaf_cat(l) for c, l in gv)

    @staticmethod
    def join_cats(cats):
        cs = {c for c in cats if c is not None}
        if len(cs) > 1 and all(isinstance(c, tuple) and c[0] == 'collk' for c in cs) and len({c[1] for c in cs}) == 1:
            return ('collk', next(iter(cs))[1], Interp.join_cats([c[2] for c in cs]))
        return None if not cs else cs.pop() if len(cs) == 1 else 'mixed'

    def contrib_cat(self, contribs, extra=False):
        out = []
        for c in contribs:
            if c.mode == 'phi':
                out.append(self.phi_cats.get((c.val[0][1][1][1], c.val[0][1][1][4], extra)))
            elif c.mode in ('add', 'set', 'inc', 'max', 'min'):
                if extra:
                    out.append(self.gv_cat(c.extra) if c.extra is not None and c.mode == 'set' else 'num')
                else:
                    out.append(self.gv_cat(c.val))
            elif c.mode == 'upd':
                u = c.extra[0][1][1]
                out.append(('collk', u[0][0][1][2], self.gv_cat(u[2]) if u[1] != cv('touch') else None)
                           if extra else self.gv_cat(c.val))
            elif c.mode == 'esc':
                out.append('mixed')
        return self.join_cats(out)

    def cat_leaf(self, cat, key):
        if cat in ('mo', None):
            return ('mo', key)
        if cat == 'num':
            return ('term', ('moterm', key) if key[0] != 'e' else ('elem', key[1]))
        if isinstance(cat, tuple) and cat[0] == 'collk':
            return ('coll', ('cpart', key) + cat[1:])
        if isinstance(cat, tuple):
            return ('tuple', tuple(one(self.cat_leaf(x, ('part', key, i))) for i, x in enumerate(cat[1:])))
        return ('top', 'element of mixed kind')

    def struct_cat(self, s):
        if s[0] in ('gen', 'seq'):
            return self.contrib_cat(self.gens[s[1]]['contribs'])
        if s[0] in ('range', 'enum', 'rparam'):
            return 'num'
        if s[0] == 'cpart':
            return s[3]
        if s[0] == 'values':
            if s[1][0] in ('gen', 'seq'):
                return self.contrib_cat(self.gens[s[1][1]]['contribs'], True)
            return 'num'
        if s[0] == 'items':
            return ('tuple', self.struct_cat(s[1]), self.struct_cat(('values', s[1])))
        if s[0] in ('rest', 'slice', 'keys', 'sorted', 'reversed', 'tocounter', 'starred', 'melements'):
            return self.struct_cat(s[1])
        if s[0] in ('concat',):
            return self.join_cats((self.struct_cat(s[1]), self.struct_cat(s[2])))
        if s[0] == 'cop':
            return self.join_cats((self.struct_cat(s[2]), self.struct_cat(s[3])))
        if s[0] == 'choose':
            return self.struct_cat(s[4][1])
        if s[0] in ('unknown', 'combinations'):
            return 'mixed'
        return 'mo'

    def elem_leaf(self, s, b):
        if s[0] in ('seq', 'values', 'items', 'slice', 'sorted', 'reversed', 'concat', 'choose', 'rest', 'cpart'):
            return self.cat_leaf(self.struct_cat(s), ('e', b))
        if s[0] == 'combinations':
            return ('coll', ('elemcoll', b))
        if s[0] == 'rparam':
            return ('term', ('rawel', b))
        if s[0] in ('range', 'values', 'unknown', 'enum'):
            return ('term', ('elem', b))
        if s[0] == 'pdict':
            return ('mo', ('e', b))
        return ('mo', ('e', b))

    # -- binder renaming --------------------------------------------------------------------
    def rename_any(self, x, mapping):
        """Rename binder ids in nested tuples.  ('e', bid) marks a binder occurrence."""
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'e' and x[1] in mapping:
            return ('e', mapping[x[1]])
        if len(x) == 2 and x[0] in ('elem', 'elemcoll', 'rawel') and x[1] in mapping:
            return (x[0], mapping[x[1]])
        if len(x) == 2 and x[0] == 'new':
            return self.rename_new(x, mapping)
        if len(x) == 2 and x[0] in ('gen', 'seq') and isinstance(x[1], int):
            return self.rename_struct(x, mapping)
        if x and x[0] == 'existsid':
            return self.rename_exists(x, mapping)
        if x and x[0] == 'cond' and len(x) == 2 and isinstance(x[1], int):
            return ('cond', self.rename_cond(x[1], mapping))
        if len(x) >= 1 and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], int) \
                and isinstance(x[0][1], tuple):
            # a guarded value
            return tuple((self.rename_cond(c, mapping), self.rename_any(l, mapping))
                         if isinstance(c, int) else (self.rename_any(c, mapping),
                                                     self.rename_any(l, mapping))
                         for c, l in x)
        return tuple(self.rename_any(y, mapping) for y in x)

    def rename_new(self, key, mapping):
        meta = self.news[key[1]]
        if not any(b in mapping for b, _ in meta['binders']):
            return key
        cachek = (key, tuple(sorted(mapping.items())))
        r = self.loops.get(cachek)
        if r is None:
            m2 = dict(meta)
            m2['args'] = [self.rename_gv(a, mapping) for a in meta['args']]
            m2['binders'] = tuple((mapping.get(b, b), s) for b, s in meta['binders'])
            self.news.append(m2)
            r = ('new', len(self.news) - 1)
            self.loops[cachek] = r
        return r

    def rename_struct(self, s, mapping):
        if not mapping:
            return s
        if s[0] in ('gen', 'seq'):
            g = self.gens[s[1]]
            changed = False
            cs = []
            for c in g['contribs']:
                c2 = Contribution(tuple((b, self.rename_struct(bs, mapping)) for b, bs in c.binders),
                                  self.rename_cond(c.cond, mapping), self.rename_gv(c.val, mapping),
                                  self.rename_gv(c.extra, mapping) if c.extra is not None else None,
                                  c.mode, c.where)
                if (c2.binders, c2.cond, c2.val, c2.extra) != (c.binders, c.cond, c.val, c.extra):
                    changed = True
                cs.append(c2)
            return self.new_gen(g['kind'], cs) if changed else s
        return self.rename_any_struct(s, mapping)

    def rename_any_struct(self, s, mapping):
        return tuple(self.rename_any(y, mapping) for y in s)

    def rename_gv(self, gv, mapping):
        if not mapping:
            return gv
        return tuple((self.rename_cond(c, mapping), self.rename_any(l, mapping)) for c, l in gv)

    def rename_cond(self, c, mapping):
        if not mapping or c in (T, F):
            return c
        sub = {}
        for ix in dd.support(c):
            name = dd.var_name(ix)
            n2 = self.rename_any(name, mapping)
            if n2 != name:
                dom = dd.var_domain(ix)
                sub[ix] = [dd.lit(n2, v, dom) for v in dom]
        return dd.substitute(c, sub) if sub else c

    def mk_exists(self, binders, cond, st_pc=T):
        """Condition: some assignment of the binders satisfies cond."""
        c = cond
        if c == F:
            return F
        if not binders:
            return c
        if c == T and len(binders) == 1:
            return dd.neg(self.coll_empty(binders[0][1]))
        return dd.lit(('exists', tuple(b for b, _ in binders), tuple(s for _, s in binders),
                       ('cond', c)))

    def rename_exists(self, x, mapping):
        return x

    # ---------------------------------------------------------------------------------------
    # attributes
    def ev_Attribute(self, n, fr, st):
        base = self.ev(n.value, fr, st)
        return self.getattr_gv(base, n.attr, n, fr, st)

    def getattr_gv(self, base, attr, n, fr, st):
        out = []
        for c, l in base:
            if dd.conj(c, st.pc) == F:
                continue
            out.extend((dd.conj(c, c2), l2) for c2, l2 in self.getattr_leaf(l, attr, n, fr, st, c))
        return coalesce(out)

    def getattr_leaf(self, l, attr, n, fr, st, cond):
        tag = l[0]
        if tag == 'mod':
            m = self.prog.modules[l[1]]
            r = self.prog.resolve_name(m, attr)
            if r is None or (isinstance(r, tuple) and r[0] == 'ext' and r[1] == 'builtins.' + attr):
                if attr not in m.bindings:
                    self.do_raise('AttributeError', n, fr, st, cond,
                                  'module {} has no attribute {}'.format(l[1], attr))
                    return top('missing module attribute ' + attr)
            return self.module_name(m, attr)
        if tag == 'ext':
            nm = l[1] + '.' + attr
            return cv(EXT_CONST[nm]) if nm in EXT_CONST else one(('ext', nm))
        if tag == 'cls':
            return self.cls_attr(self.prog.clss[l[1]], attr, n, fr, st, cond)
        if tag == 'mo':
            return self.mo_attr(l[1], attr, n, fr, st, cond)
        if tag == 'undef':
            return self.undef_attr(attr, n, fr, st, cond)
        if tag == 'flags':
            return self.flags_attr(l[1], attr, n, fr, st)
        if tag == 'obj':
            o = self.objs[l[1]]
            if o['type'] == 'inst':
                v = st.heap.get(('attr', l[1], attr))
                ci = o['cls']
                owner, mem = self.prog.cls_lookup(ci, attr)
                if isinstance(mem, FnInfo) and mem.is_property:
                    return self.call_fn(mem, [one(l)], {}, n, fr, st)
                if v is not None:
                    return v
                if isinstance(mem, FnInfo):
                    if mem.is_static:
                        return one(('fn', mem.fid))
                    return one(('bm', l, mem.fid))
                if mem is not None:
                    return self.cls_attr(ci, attr, n, fr, st, cond)
                return top('attribute {} of instance'.format(attr))
            return one(('ebm', l, attr))
        if tag == 'coll' or tag == 'tuple':
            return one(('ebm', l, attr))
        if tag == 'c':
            if isinstance(l[2], str):
                return one(('ebm', l, attr))
            return top('attribute {} of constant'.format(attr))
        if tag == 'term':
            if l[1][0] == 'typeof' and attr in ('__name__', '__qualname__'):
                return one(l)                   # types are represented by their names
            return one(('ebm', l, attr))
        if tag == 'super':
            ci = self.prog.clss[l[2]]
            for b in self.prog.mro(ci)[1:]:
                if isinstance(b, ClsInfo) and attr in b.members:
                    mem = b.members[attr]
                    if isinstance(mem, FnInfo):
                        if mem.is_property:
                            return self.call_fn(mem, [one(l[1])], {}, n, fr, st)
                        return one(('bm', l[1], mem.fid))
            return one(('ext', 'object.' + attr))
        if tag == 'fn':
            v = self.fn_attr(l, attr, fr, st)
            return v if v is not None else top('function attribute ' + attr)
        if tag in ('bm', 'partial'):
            return top('function attribute ' + attr)
        return top('attribute {} of {}'.format(attr, tag))

    def fn_attr(self, l, attr, fr, st, default=None):
        """Attribute of a module-level function: what this path stored, else one of the modules and
        constants that the function's module ever stores there (or the default)."""
        v = st.heap.get(('fnattr', l[1], attr))
        if v is not None:
            return v
        fi = self.prog.fns[l[1]]
        cands = [default] if default is not None else []
        for f in ast.walk(fi.module.tree):
            if not isinstance(f, ast.FunctionDef) or f.name != fi.name:
                continue
            imps = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        if a.asname:
                            imps[a.asname] = a.name
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) \
                        and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == fi.name \
                        and x.targets[0].attr == attr:
                    r = x.value
                    if isinstance(r, ast.Constant):
                        g = cv(r.value)
                    elif isinstance(r, ast.Name) and r.id in imps:
                        g = self.static_leaf(self.prog.resolve_dotted(imps[r.id]))
                    elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'getattr':
                        continue
                    else:
                        return None
                    if g not in cands:
                        cands.append(g)
        if not cands or any(len(g) != 1 for g in cands):
            return None
        out = []
        rest = T
        for i, g in enumerate(cands[:-1]):
            o = dd.lit(('opaque', 'stored in {}.{} {}'.format(fi.qual, attr, i)))
            out.append((dd.conj(rest, o), g[0][1]))
            rest = dd.conj(rest, dd.neg(o))
        out.append((rest, cands[-1][0][1]))
        return coalesce(out)

    def cls_attr(self, ci, attr, n, fr, st, cond):
        owner, mem = self.prog.cls_lookup(ci, attr)
        if isinstance(mem, FnInfo):
            return one(('fn', mem.fid))
        if mem is not None:
            v = st.heap.get(('clsattr', owner.cid, attr))
            if v is not None:
                return v
            key = ('cls', owner.cid, attr)
            if key in self._mod_cache:
                return self._mod_cache[key]
            names = {x.id for x in ast.walk(mem[1]) if isinstance(x, ast.Name)} if isinstance(mem[1], ast.AST) else ()
            s2 = St(T, {}, {}, ())
            for x in names:                     # names of the class body
                if x != attr and x in owner.members and not isinstance(owner.members[x], FnInfo):
                    s2.env[x] = self.cls_attr(owner, x, n, fr, st, cond)
            f2 = Frame(None, owner.module, s2)
            v = self.ev(mem[1], f2, s2)
            self._mod_cache[key] = v
            return v
        if attr in ('__name__', '__qualname__'):
            return cv(ci.name)
        if any(not isinstance(b, ClsInfo) for b in self.prog.mro(ci)):
            return top('inherited attribute ' + attr)
        if attr.startswith('__'):
            return top('class attribute ' + attr)
        return top('missing class attribute ' + attr)

    def undef_attr(self, attr, n, fr, st, cond):
        ci = self.cls_by_kind['Undef']
        owner, mem = self.prog.cls_lookup(ci, attr)
        if isinstance(mem, FnInfo):
            if mem.is_property:
                return self.call_fn(mem, [one(('undef', 'self'))], {}, n, fr, st)
            return one(('bm', ('undef', 'self'), mem.fid))
        if mem is not None:
            return self.cls_attr(ci, attr, n, fr, st, cond)
        self.do_raise('AttributeError', n, fr, st, cond, 'Undef has no attribute ' + attr)
        return ()

    @staticmethod
    def flag_accessor(attr):
        """('get'|'is'|'isnot'|'set', prop) when attr is a cached-property accessor."""
        for prefix, what in (('cached_is_not_', 'isnot'), ('cached_is_', 'is'), ('cached_', 'get'),
                             ('cache_', 'set')):
            if attr.startswith(prefix) and attr[len(prefix):] in PROPS:
                return what, attr[len(prefix):]
        return None

    def mo_attr(self, key, attr, n, fr, st, cond):
        out = []
        groups = {}
        for kc, k in self.kinds_of(key):
            if dd.conj(dd.conj(kc, cond), st.pc) == F:
                continue
            groups[k] = kc
        leaf = ('mo', key)
        fa = self.flag_accessor(attr) if self.prop_contracts else None
        rest = {}
        mo_cond = F
        for k, kc in groups.items():
            if k == 'Undef':
                out.extend((dd.conj(kc, c), l) for c, l in
                           self.undef_attr(attr, n, fr, st, dd.conj(cond, kc)))
            else:
                rest[k] = kc
                mo_cond = dd.disj(mo_cond, kc)
        if not rest:
            return coalesce(out)
        if fa:
            what, prop = fa
            if what == 'set':
                out.append((mo_cond, ('ebm', leaf, attr)))
            else:
                gv = self.flag_gv(st, key, prop)
                if what == 'get':
                    out.extend((dd.conj(mo_cond, c), l) for c, l in gv)
                else:
                    want = IS if what == 'is' else IS_NOT
                    for c, l in gv:
                        if l[0] == 'c':
                            out.append((dd.conj(mo_cond, c), const(l[2] == want)))
                        else:
                            t = self.cmp_gv('Eq', ((T, l),), cv(want), n, fr, st)
                            out.append((dd.conj(mo_cond, dd.conj(c, t)), TRUE_L))
                            out.append((dd.conj(mo_cond, dd.conj(c, dd.neg(t))), FALSE_L))
            return coalesce(out)
        if self.prop_contracts and attr in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
            want = attr[3:].capitalize()
            for k, kc in rest.items():
                out.append((kc, const(k == want)))
            return coalesce(out)
        if self.prop_contracts and attr == 'is_empty':
            for k, kc in rest.items():
                if k in ('Set', 'Multiset'):
                    e = self.key_empty(key, st)
                    out.append((dd.conj(kc, e), TRUE_L))
                    out.append((dd.conj(kc, dd.neg(e)), FALSE_L))
                else:
                    out.append((kc, FALSE_L))
            return coalesce(out)
        by_member = {}
        for k, kc in rest.items():
            ci = self.cls_by_kind[k]
            v = None
            if self.prop_contracts:
                if attr == 'data' and k in ('Set', 'Multiset'):
                    v = one(('coll', self.mo_data(key, st)))
                elif attr in ('left', 'right') and k == 'Couplet':
                    v = self.couplet_side(key, attr, st)
                elif attr == 'value' and k == 'Atom':
                    v = one(('term', ('value', key)))
                elif attr == 'cardinality' and k in ('Set', 'Multiset'):
                    v = one(('term', ('card', ('data', key) if k == 'Set' else ('elements', key))))
                elif attr == 'get_ground_set':
                    v = one(('ebm', leaf, attr))
                elif attr in ('get_left_set', 'get_right_set'):
                    v = one(('ebm', leaf, attr))
            if v is not None:
                out.extend((dd.conj(kc, c), l) for c, l in v)
                continue
            owner, mem = self.prog.cls_lookup(ci, attr)
            mk = ('m', id(mem)) if isinstance(mem, FnInfo) else ('k', k)
            g = by_member.setdefault(mk, [F, k, mem])
            g[0] = dd.disj(g[0], kc)
        for kc, k, mem in by_member.values():
            ci = self.cls_by_kind[k]
            v = st.heap.get(('slot', key, attr))
            if v is not None and not (isinstance(mem, FnInfo) and mem.is_property):
                out.extend((dd.conj(kc, c), l) for c, l in v)
            elif isinstance(mem, FnInfo):
                if mem.is_property:
                    s2 = st.copy(dd.conj(st.pc, dd.conj(cond, kc)))
                    v = self.call_fn(mem, [one(leaf)], {}, n, fr, s2)
                    self.rejoin(st, s2, dd.conj(cond, kc))
                    out.extend((dd.conj(kc, c), l) for c, l in v)
                elif mem.is_static:
                    out.append((kc, ('fn', mem.fid)))
                else:
                    out.append((kc, ('bm', leaf, mem.fid)))
            else:
                if mem is not None:             # a function stored in the class becomes a method
                    out.extend((dd.conj(kc, c), ('bm', leaf, l[1]) if l[0] == 'fn' else l) for c, l in
                               self.cls_attr(ci, attr, n, fr, st, cond))
                else:
                    v = self.raw_attr(key, k, attr, n, fr, st, dd.conj(cond, kc))
                    out.extend((dd.conj(kc, c), l) for c, l in v)
        return coalesce(out)

    def key_empty(self, key, st):
        if key[0] == 'new' and self.news[key[1]]['cls'] in ('Set', 'Multiset'):
            s = self.mo_data(key, st)
            if s[0] == 'gen':
                cs = self.gens[s[1]]['contribs']
                if not cs:
                    return T
                if any(not c.binders and c.cond == T for c in cs):
                    return F
        return self.empty_cond(key)

    def couplet_side(self, key, side, st):
        if key[0] == 'new':
            a = self.news[key[1]]['args']
            return a[0] if side == 'left' else a[1]
        return one(('mo', (side, key)))

    RAW = {'_data': 'data', '_left': 'left', '_right': 'right', '_value': 'value'}

    def raw_attr(self, key, kind, attr, n, fr, st, cond):
        if attr == '_flags':
            return one(('flags', key))
        if attr == '_data' and kind in ('Set', 'Multiset'):
            return one(('coll', self.mo_data(key, st)))
        if attr in ('_left', '_right') and kind == 'Couplet':
            return self.couplet_side(key, attr[1:], st)
        if attr == '_value' and kind == 'Atom':
            return one(('term', ('value', key)))
        if attr == '__class__':
            return one(('cls', self.cls_by_kind[kind].cid))
        if attr.startswith('__'):
            return top(attr)
        # an attribute that no class member defines and no code ever stores
        if not self.attr_ever_stored(attr):
            self.do_raise('AttributeError', n, fr, st, cond,
                          '{} has no attribute {}'.format(kind, attr))
            return ()
        return one(('term', ('rawattr', attr, key)))

    def attr_ever_stored(self, attr):
        if not hasattr(self, '_stored'):
            self._stored = set()
            for m in self.prog.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        self._stored.add(x.attr)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                            and x.func.id == 'setattr':
                        a = x.args[1] if len(x.args) > 1 else None
                        if isinstance(a, ast.Constant):
                            self._stored.add(a.value)
                        else:
                            self._stored.add(None)
        return attr in self._stored or None in self._stored

    def flags_attr(self, key, attr, n, fr, st):
        if attr == 'f':
            return one(('flags', key))
        if attr == 'asint':
            self.asints.append({p: self.flag_gv(st, key, p) for p in ALLFLAGS})
            return one(('asint', len(self.asints) - 1))
        mem = self.bitfields.members.get(attr) if self.bitfields is not None else None
        if not self.flag_contracts and isinstance(mem, FnInfo):
            if mem.is_property:
                return self.call_fn(mem, [one(('flags', key))], {}, n, fr, st)
            if mem.is_static:
                return one(('fn', mem.fid))
            return one(('bm', ('flags', key), mem.fid))
        nm = attr[1:] if attr.startswith('_') else attr if self.flag_contracts else None
        if nm in ALLFLAGS and (self.flag_contracts or attr in self.flag_fields):
            return self.flag_gv(st, key, nm)
        return top('flags.' + attr)

    # ---------------------------------------------------------------------------------------
    # calls
    def ev_Call(self, n, fr, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            selfname = fr.fn.node.args.args[0].arg if fr.fn and fr.fn.node.args.args else None
            if selfname and fr.fn.cls is not None:
                out = [(c, ('super', l, fr.fn.cls.cid)) for c, l in st.env[selfname]]
                return tuple(out)
        f = self.ev(n.func, fr, st)
        args = []
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(a.value, fr, st)))
                star = True
            else:
                args.append(self.ev(a, fr, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                done = False
                if len(v) == 1 and v[0][1][0] == 'obj':
                    s = self.snapshot(v[0][1][1], st)
                    cs = self.gens[s[1]]['contribs'] if s[0] == 'gen' else None
                    if cs is not None and all(not c.binders and len(c.val) == 1
                                              and c.val[0][1][0] == 'c' for c in cs):
                        for c in cs:
                            kw[c.val[0][1][2]] = c.extra
                        done = True
                if not done:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call_gv(f, args, kw, n, fr, st)

    def call_gv(self, f, args, kw, n, fr, st):
        live = [(c, l) for c, l in f if dd.conj(c, st.pc) != F]
        if len(live) == 1:
            return self.call_leaf(live[0][1], args, kw, n, fr, st, live[0][0])
        out = ()
        sts = []
        for c, l in live:
            pc = dd.conj(st.pc, c)
            s2 = st.copy(pc)
            v = self.call_leaf(l, args, kw, n, fr, s2, c)
            out = out + restrict_gv(v, c)
            sts.append(s2)
        if sts:
            m = sts[0]
            for s in sts[1:]:
                m = self.merge(m, s)
            st.assign(m)
        return coalesce(out)

    def rejoin(self, st, s2, cond):
        """Fold the state s2 (reached under cond) back into st."""
        other = dd.conj(st.pc, dd.neg(cond))
        if other == F:
            st.assign(s2)
        else:
            s1 = st.copy(other)
            st.assign(self.merge(s1, s2))

    def expand_args(self, args, n, fr, st):
        """Positional args with star-args of statically known length expanded, else None."""
        out = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                v = a[1]
                if len(v) == 1 and v[0][1][0] == 'tuple':
                    out.extend(v[0][1][1])
                    continue
                if len(v) == 1:
                    s = self.as_coll(v[0][1], st)
                    if s is not None and s[0] == 'gen':
                        cs = self.gens[s[1]]['contribs']
                        if all(not c.binders and c.cond == T and c.extra is None for c in cs):
                            out.extend(c.val for c in cs)
                            continue
                return None
            out.append(a)
        return out

    def call_leaf(self, l, args, kw, n, fr, st, cond):
        tag = l[0]
        if tag == 'fn':
            return self.call_fn(self.prog.fns[l[1]], args, kw, n, fr, st)
        if tag == 'bm':
            return self.call_fn(self.prog.fns[l[2]], [one(l[1])] + list(args), kw, n, fr, st)
        if tag == 'partial':
            kw2 = dict(l[3])
            kw2.update(kw)
            return self.call_gv(l[1], list(l[2]) + list(args), kw2, n, fr, st)
        if tag == 'cls':
            return self.call_cls(self.prog.clss[l[1]], args, kw, n, fr, st, cond)
        if tag == 'ext':
            return self.call_ext(l[1], args, kw, n, fr, st, cond)
        if tag == 'ebm':
            return self.call_method(l[1], l[2], args, kw, n, fr, st, cond)
        if tag == 'ufn' and len(l) >= 3:        # a function with mathematical objects as results
            if kw or any(a[:1] == ('*',) for a in args):
                return top('ufn call')
            return self.mo_lookup('ufn:' + l[1], None, args, n, fr, st, len(l) == 3)
        if tag == 'ufn':
            ts = []
            for a in args:
                if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                    return top('ufn star')
                if len(a) != 1 or self.num_term(a[0][1]) is None:
                    return top('ufn arg')
                ts.append(self.num_term(a[0][1]))
            self.event('ucall', n, fr, st, name=l[1])
            return one(('term', ('ucall', l[1]) + tuple(ts)))
        if tag == 'mo':
            return self.mo_lookup('mo.call', l, args, n, fr, st)
        if tag == 'undef':
            self.do_raise('TypeError', n, fr, st, cond, 'Undef is not callable')
            return ()
        if tag == 'c':
            self.do_raise('TypeError', n, fr, st, cond, 'constant is not callable')
            return ()
        return self.unknown('call of ' + str(l[0]), n, fr)

    def mo_lookup(self, op, l, args, n, fr, st, may_undef=True):
        """obj(left) / obj[left]"""
        if l is not None and (len(args) != 1 or args[0][:1] == ('*',)):
            return self.unknown('call of a mathobject', n, fr)
        out = []
        combos = [(T, () if l is None else (l,))]
        for a in args:
            combos = [(dd.conj(c, k), xs + (x,)) for c, xs in combos for k, x in (self.autoconv(a, n, fr, st) if l is not None else a)]
        for c, xs in combos:
            if dd.conj(c, st.pc) == F:
                continue
            if any(x[0] not in ('mo', 'undef') for x in xs):
                out.append((c, ('top', 'lookup')))
                continue
            key = ('op', op) + xs
            u = dd.lit(('opundef', key)) if may_undef else F
            out += [(dd.conj(c, u), ('undef', 'op')), (dd.conj(c, dd.neg(u)), ('mo', key))]
        return coalesce(out)

    # -- repository functions ---------------------------------------------------------------
    def call_fn(self, fi, args, kw, n, fr, st):
        spec = self.ops.get(fi.qual) if self.contracts else None
        if spec is not None and (fi is not self.top_fn or self.depth > 0):
            r = self.call_op(spec, fi, args, kw, n, fr, st)
            if r is not None:
                return r
        h = getattr(self, 'contract_' + fi.qual.replace('.', '_'), None)
        if h is not None and self.lib_contracts:
            r = h(fi, args, kw, n, fr, st)
            if r is not None:
                return r
        return self.inline(fi, args, kw, n, fr, st)

    def contract_undef_make_or_raise_undef(self, fi, args, kw, n, fr, st):
        lev = kw.get('level') or (args[0] if args else None)
        if lev is None:
            return one(('undef', 'mk1'))
        if lev[:1] == ('*',):
            return one(('undef', 'mk'))
        out = []
        for c, l in lev:
            if l[0] == 'c' and isinstance(l[2], int):
                out.append((c, ('undef', 'mk%d' % l[2])))
            elif l[0] in ('mo', 'undef', 'coll', 'tuple') or l[0] == 'c':
                self.do_raise('TypeError', n, fr, st, c, 'raise level is not a number')
            else:
                out.append((c, ('undef', 'mk')))
        return coalesce(out)

    def bind_params(self, fi, args, kw, n, fr, st):
        """dict param -> GV, or None when the call shape cannot be resolved."""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        if '**' in kw:
            return None
        pos = []
        star_tail = None
        ex = self.expand_args(args, n, fr, st)
        if ex is None:
            # unknown-length star: only acceptable if everything from there on goes to *args
            pos = []
            tail = []
            for i, x in enumerate(args):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
                    tail = args[i:]
                    break
                pos.append(x)
            if a.vararg is None or len(pos) < len(names):
                return None
            contribs = [Contribution((), T, p) for p in pos[len(names):]]
            for x in tail:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
                    contribs.extend(self.iter_contribs(x[1], n, fr, st))
                else:
                    contribs.append(Contribution((), T, x))
            if len(tail) == 1 and not contribs[:-1] and len(tail[0][1]) == 1:
                s = self.as_coll(tail[0][1][0][1], st)
                star_tail = one(('coll', s)) if s is not None else \
                    one(('coll', self.new_gen('list', contribs)))
            else:
                star_tail = one(('coll', self.new_gen('list', contribs)))
            pos = pos[:len(names)]
        else:
            pos = ex
        for nm, v in zip(names, pos):
            env[nm] = v
        if len(pos) > len(names):
            if a.vararg is None:
                self.do_raise('TypeError', n, fr, st, T, 'too many arguments for ' + fi.qual)
                return None
            env[a.vararg.arg] = one(('tuple', tuple(pos[len(names):])))
        elif a.vararg is not None:
            env[a.vararg.arg] = star_tail if star_tail is not None else one(('tuple', ()))
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.do_raise('TypeError', n, fr, st, T,
                              'unexpected keyword {} for {}'.format(k, fi.qual))
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.mutable('dict', tuple(
                Contribution((), T, cv(k), v, 'set') for k, v in extra.items()), st)
        dg = getattr(fi, 'defaults_gv', None)
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            nm = names[len(names) - nd + i]
            if nm not in env:
                env[nm] = dg[0][i] if dg else self.eval_default(d, fi)
        for i, (k, d) in enumerate(zip(a.kwonlyargs, a.kw_defaults)):
            if k.arg not in env and d is not None:
                env[k.arg] = dg[1][i] if dg else self.eval_default(d, fi)
        for nm in names + kwonly:
            if nm not in env:
                self.do_raise('TypeError', n, fr, st, T, 'missing argument {} for {}'.format(nm, fi.qual))
                return None
        return env

    def eval_default(self, d, fi):
        s = St(T, {}, {}, ())
        return self.ev(d, Frame(None, fi.module, s), s)

    def inline(self, fi, args, kw, n, fr, st, env=None):
        if self.depth >= MAX_DEPTH or self.stack.count(fi.fid) >= 2 or \
                isinstance(fi.node, ast.AsyncFunctionDef):
            return self.unknown('call depth/recursion at ' + fi.qual, n, fr)
        if env is None:
            env = self.bind_params(fi, args, kw, n, fr, st)
            if env is None:
                return self.unknown('call shape of ' + fi.qual, n, fr)
        parent = fi.frame
        pfr = None
        if parent is not None:
            pfr = parent if parent.active else None
            if pfr is None:
                pfr = Frame(parent.fn, parent.module, St(T, dict(fi.snapshot or {}), {}, ()),
                            parent.parent)
            elif fr is parent:
                pfr.st = st
        decs = getattr(fi.node, 'decorator_list', [])
        for d in decs:
            if not self.decorator_transparent(d, fi):
                return self.unknown('decorated function ' + fi.qual, n, fr)
        s = St(st.pc, env, st.heap, st.binders)
        f2 = Frame(fi, fi.module, s, pfr)
        self.depth += 1
        self.stack.append(fi.fid)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, f2, s)
                st.heap = s.heap
                st.pc = s.pc
                return v
            if fi.is_generator:
                f2.yields = []
                f2.ybase = len(st.binders)
            s.heap = dict(st.heap)
            self.block(fi.node.body, f2, s)
            f2.active = True
            rets = list(f2.returns)
            if s.pc != F:
                rets.append((s.pc, cv(None), s.heap))
            if fi.is_generator:
                st.heap = s.heap if s.pc != F else (rets[0][2] if rets else st.heap)
                pc = F
                for p, _, _ in rets:
                    pc = dd.disj(pc, p)
                st.pc = pc
                return one(('coll', self.new_gen('gen', f2.yields)))
            if not rets:
                st.pc = F
                return ()
            out = ()
            heap = None
            pc = F
            for p, v, h in rets:
                out = out + restrict_gv(v, p)
                if heap is None:
                    heap, pc = h, p
                else:
                    heap = self.merge_heaps(heap, pc, h, p)
                    pc = dd.disj(pc, p)
            st.heap = heap
            st.pc = pc
            return coalesce(out)
        finally:
            f2.active = False
            self.depth -= 1
            self.stack.pop()

    def decorator_transparent(self, d, fi):
        txt = ast.unparse(d)
        if txt in ('staticmethod', 'classmethod', 'property') or txt.endswith('abstractmethod') \
                or txt.endswith('.setter') or 'wraps(' in txt:
            return True
        # a decorator from the repository that returns its argument
        target = d.func if isinstance(d, ast.Call) else d
        r = self.prog.resolve_expr_static(target, fi.module)
        if isinstance(r, FnInfo):
            inner = [x for x in r.node.body if isinstance(x, ast.FunctionDef)]
            node = inner[0] if isinstance(d, ast.Call) and inner else r.node
            rets = [x for x in ast.walk(node) if isinstance(x, ast.Return)]
            params = {a.arg for a in node.args.args}
            if rets and all(isinstance(x.value, ast.Name) and x.value.id in params for x in rets):
                return True
        return False

    # -- summarised operations --------------------------------------------------------------
    def call_op(self, spec, fi, args, kw, n, fr, st):
        if spec.inline:
            return None
        env = self.bind_params(fi, args, kw, n, fr, st)
        if env is None:
            return self.unknown('call shape of ' + fi.qual, n, fr)
        checked = None
        if '_checked' in env:
            g = env.pop('_checked')
            if len(g) == 1 and g[0][1][0] == 'c':
                checked = bool(g[0][1][2])
            else:
                checked = 'sym'
        combos = [(T, ())]
        for p in spec.params:
            if p not in env:
                return self.unknown('contract of {} lacks {}'.format(fi.qual, p), n, fr)
            nxt = []
            for c, tup in combos:
                for c2, l in env[p]:
                    cc = dd.conj(c, c2)
                    if dd.conj(cc, st.pc) != F:
                        nxt.append((cc, tup + (self.freeze(l, st),)))
            combos = nxt
        if set(env) - set(spec.params):
            return self.unknown('contract of {}: extra parameter'.format(fi.qual), n, fr)
        out = []
        for c, tup in combos:
            key = ('op', spec.name + ('' if checked is False else self.raw_suffix(spec, tup))) + tup
            self.event('opcall', n, fr, st, op=spec.name, args=tup, cond=c, checked=checked)
            if spec.result == 'bool':
                u = dd.lit(('opundef', key)) if spec.may_undef else F
                t = dd.lit(('optrue', key))
                mk = self.MEMBER_KIND.get(spec.name)
                if mk is not None:
                    t = dd.conj(t, self.kind_cond(tup[0], mk))
                out.append((dd.conj(c, u), ('undef', 'op')))
                nu = dd.conj(c, dd.neg(u))
                out.append((dd.conj(nu, t), TRUE_L))
                out.append((dd.conj(nu, dd.neg(t)), FALSE_L))
            else:
                u = dd.lit(('opundef', key)) if spec.may_undef else F
                out.append((dd.conj(c, u), ('undef', 'op')))
                out.append((dd.conj(c, dd.neg(u)), ('mo', key)))
        return coalesce(x for x in out if x[0] != F)

    def raw_suffix(self, spec, tup):
        """An operation that converts its arguments gets plain values."""
        for s, l in zip(spec.sorts, tup):
            if s == 'X' and l[0] not in ('mo', 'undef') or s == 'X*' and l[0] == 'coll' and self.struct_cat(l[1]) != 'mo':
                return '#raw'
        return ''

    MEMBER_KIND = {'algebras.relations.is_member': 'Set', 'algebras.clans.is_member': 'Set',
                   'algebras.multiclans.is_member': 'Multiset'}

    def kind_cond(self, l, kind):
        if l[0] == 'mo':
            r = F
            for c, k in self.kinds_of(l[1]):
                if k == kind:
                    r = dd.disj(r, c)
            return r
        return T if l[0] in ('phi', 'top') else F

    def freeze(self, l, st):
        if l[0] == 'obj':
            s = self.as_coll(l, st)
            if s is not None:
                return ('coll', s)
        if l[0] == 'tuple':
            return ('coll', self.as_coll(l, st))
        return l

    # -- classes ----------------------------------------------------------------------------
    def call_cls(self, ci, args, kw, n, fr, st, cond):
        kind = self.kind_by_cid.get(ci.cid)
        if kind == 'Undef':
            return one(('undef', 'raw'))
        if kind is not None and self.contracts:
            return self.construct(kind, args, kw, n, fr, st, cond)
        if ci is self.flag_cls:
            self.nflags = getattr(self, 'nflags', 0) + 1
            key = ('fl', self.nflags)
            if args:
                return top('Flags call')
            if 'asint' in kw:
                self.setattr_gv(one(('flags', key)), 'asint', kw['asint'], n, fr, st)
            return one(('flags', key))
        if ci.cid in self.struct_cids:
            ls = []
            for a in args:
                if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                    return top('struct')
                if len(a) != 1:
                    return top('struct')
                l = a[0][1]
                ls.append(l)
            return one(('term', ('struct', ci.name) + tuple(ls)))
        if ci.name.endswith('Exception') or ci.name.endswith('Error'):
            return one(('term', ('exc', ci.name)))
        oid = self.new_obj('inst', st, ci)
        owner, mem = self.prog.cls_lookup(ci, '__init__')
        if isinstance(mem, FnInfo):
            self.call_fn(mem, [one(('obj', oid))] + list(args), kw, n, fr, st)
        return one(('obj', oid))

    def new_mo(self, cls, args, n, fr, st):
        self.news.append({'cls': cls, 'args': list(args), 'binders': st.binders,
                          'site': self.where(n, fr), 'pc': st.pc})
        return ('new', len(self.news) - 1)

    def construct(self, kind, args, kw, n, fr, st, cond):
        kw = dict(kw)
        direct = kw.pop('direct_load', None)
        if kind in ('Set', 'Multiset'):
            ex = self.expand_args(args, n, fr, st)
            if kw:
                return self.unknown('constructor keywords', n, fr)
            if ex is None:
                if len(args) == 1:
                    v = args[0][1]
                    colls = []
                    for c, l in v:
                        if dd.conj(c, st.pc) == F:
                            continue
                        s = self.as_coll(l, st)
                        if s is None and l[0] == 'mo':
                            s = self.mo_data(l[1], st)
                        if s is None:
                            return self.unknown('constructor star argument', n, fr)
                        colls.append((c, ('coll', ('starred', s))))
                    gv = coalesce(colls)
                else:
                    return self.unknown('constructor star arguments', n, fr)
            elif len(ex) == 1:
                out = []
                for c, l in ex[0]:
                    if dd.conj(c, st.pc) == F:
                        continue
                    out.append((c, self.ctor_coll(l, kind, st)))
                gv = coalesce(out)
            else:
                gv = one(('coll', self.new_gen('list', [Contribution((), T, x) for x in ex])))
            for c, l in gv:
                if l[0] == 'undef':
                    self.event('undef_element', n, fr, st, cond=c, what=kind)
            gv = coalesce(((c, l) if l[0] != 'undef' else (c, ('top', 'undef in set'))) for c, l in gv)
            key = self.new_mo(kind, [gv], n, fr, st)
            self.news[key[1]]['direct'] = bool(direct) and len(direct) == 1 and direct[0][1] == TRUE_L
            st.heap[('slot', key, 'data')] = gv if (len(gv) == 1 and gv[0][1][0] == 'coll'
                                                    and kind == 'Set'
                                                    and gv[0][1][1][0] in ('gen', 'data', 'cop')) \
                else one(('coll', ('data', key)))
            self.event('construct', n, fr, st, cls=kind, key=key, arg=gv, direct=direct)
            return one(('mo', key))
        ex = self.expand_args(args, n, fr, st)
        if ex is None:
            return self.unknown('constructor star arguments', n, fr)
        if kind == 'Couplet':
            names = ['left', 'right', 'direct_load']
            env = dict(zip(names, ex))
            env.update(kw)
            if 'left' not in env:
                return self.unknown('Couplet call', n, fr)
            left = env['left']
            right = env.get('right', cv(None))
            r = coalesce([(c, l) for c, l in right if l != NONE] +
                         [(dd.conj(c, c2), l2) for c, l in right if l == NONE for c2, l2 in left])
            if 'direct_load' in env:
                direct = env['direct_load']
            if not (direct and len(direct) == 1 and direct[0][1] == TRUE_L):
                left = self.autoconv(left, n, fr, st)
                r = self.autoconv(r, n, fr, st)
            for v in (left, r):
                for c, l in v:
                    if l[0] == 'undef' and dd.conj(c, st.pc) != F:
                        self.event('undef_element', n, fr, st, cond=c, what='Couplet')
            key = self.new_mo('Couplet', [left, r], n, fr, st)
            self.news[key[1]]['direct'] = bool(direct) and len(direct) == 1 and direct[0][1] == TRUE_L
            self.event('construct', n, fr, st, cls=kind, key=key, arg=left, direct=direct)
            return one(('mo', key))
        # Atom
        if not ex and 'value' not in kw:
            return self.unknown('Atom call', n, fr)
        v = ex[0] if ex else kw['value']
        return self.autoconv(v, n, fr, st)

    def autoconv(self, gv, n, fr, st):
        out = []
        for c, l in gv:
            if l[0] in ('mo', 'undef', 'top', 'phi'):
                out.append((c, l))
            elif l[0] in ('c', 'term'):
                key = self.new_mo('Atom', [one(l)], n, fr, st)
                out.append((c, ('mo', key)))
            else:
                out.append((c, ('top', 'atom of ' + l[0])))
        return coalesce(out)

    def ctor_coll(self, l, kind, st):
        if l[0] == 'mo':
            return ('coll', self.new_gen('list', [Contribution((), T, one(l))]))
        if l[0] == 'undef':
            return l
        s = self.as_coll(l, st)
        if s is not None:
            return ('coll', s)
        if l[0] in ('c', 'term'):
            if l[0] == 'c' or l[1][0] in ('value', 'k'):
                return ('coll', self.new_gen('list', [Contribution((), T, one(l))]))
        return ('top', 'constructor argument')

    # -- builtins ---------------------------------------------------------------------------
    def call_ext(self, name, args, kw, n, fr, st, cond):
        short = name[9:] if name.startswith('builtins.') else name
        ex = self.expand_args(args, n, fr, st)
        h = getattr(self, 'x_' + short.replace('.', '_'), None)
        if h is not None and ex is not None:
            r = h(ex, kw, n, fr, st, cond)
            if r is not None:
                return r
        short = short.replace('.', '_')
        pre = self.prog.prelude.get(short + str(len(args))) or self.prog.prelude.get(short)
        if pre is not None and ex is not None:
            return self.inline(pre, args, kw, n, fr, st)
        cls, _, meth = name.rpartition('.')
        if cls in ('builtins.frozenset', 'builtins.set', 'builtins.dict', 'builtins.list', 'builtins.str', 'builtins.tuple',
                   'collections.Counter') and ex and not meth.startswith('__'):
            return self.call_gv(self.getattr_gv(ex[0], meth, n, fr, st), ex[1:], kw, n, fr, st)
        for a in args:
            g = a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] == '*' else a
            self.escape(g, n, fr, st, name)
        return top('call of ' + name)

    def escape(self, gv, n, fr, st, name):
        """Mutable objects handed to unknown code lose their contents."""
        for c, l in gv:
            if l[0] == 'obj' and self.objs[l[1]]['type'] in ('list', 'set', 'dict', 'counter'):
                st.heap[('contribs', l[1])] = st.heap.get(('contribs', l[1]), ()) + (
                    Contribution((), T, top('escaped'), top('escaped'), 'esc'),)

    def x_functools_partial(self, a, kw, n, fr, st, cond):
        return one(('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items()))))

    def x_staticmethod(self, a, kw, n, fr, st, cond):
        return a[0]

    def x_len(self, a, kw, n, fr, st, cond):
        out = []
        for c, l in a[0]:
            if dd.conj(c, st.pc) == F:
                continue
            if l[0] == 'mo':
                for kc, k in self.kinds_of(l[1]):
                    cc = dd.conj(c, kc)
                    if dd.conj(cc, st.pc) == F:
                        continue
                    if k == 'Set':
                        out.append((cc, ('term', ('card', ('data', l[1])))))
                    elif k == 'Multiset':
                        out.append((cc, ('term', ('card', ('elements', l[1])))))
                    else:
                        self.do_raise('TypeError', n, fr, st, cc, 'len() of ' + k)
                continue
            if l[0] == 'tuple':
                out.append((c, const(len(l[1]))))
                continue
            if l[0] == 'c':
                try:
                    out.append((c, const(len(l[2]))))
                except Exception:
                    out.append((c, ('top', 'len')))
                continue
            s = self.as_coll(l, st)
            if s is not None and s[0] == 'gen':
                g = self.gens[s[1]]
                if g['kind'] == 'list' and all(not x.binders and x.cond == T for x in g['contribs']):
                    out.append((c, const(len(g['contribs']))))
                    continue
            if s is not None:
                out.append((c, ('term', ('card', s))))
            elif l[0] == 'undef':
                self.do_raise('TypeError', n, fr, st, c, 'len() of Undef')
            else:
                out.append((c, ('top', 'len')))
        return coalesce(out)

    def class_names(self, gv):
        """Leaves of a class-or-tuple-of-classes argument."""
        out = []
        for c, l in gv:
            if l[0] == 'tuple':
                for x in l[1]:
                    out.extend(self.class_names(x))
            else:
                out.append(l)
        return out

    def x_isinstance(self, a, kw, n, fr, st, cond):
        classes = self.class_names(a[1])
        r = F
        for c, l in a[0]:
            if dd.conj(c, st.pc) == F:
                continue
            r = dd.disj(r, dd.conj(c, self.isinst(l, classes, st)))
        return self.bool_gv(r)

    PYT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'tuple': tuple}

    def isinst(self, l, classes, st):
        r = F
        for k in classes:
            r = dd.disj(r, self.isinst1(l, k, st))
        return r

    def isinst1(self, l, k, st):
        if l[0] in ('mo', 'undef'):
            if k[0] == 'cls':
                ci = self.prog.clss[k[1]]
                if l[0] == 'undef':
                    return T if ci is self.cls_by_kind['Undef'] else F
                r = F
                for kc, kind in self.kinds_of(l[1]):
                    if self.prog.is_subclass(self.cls_by_kind[kind], ci):
                        r = dd.disj(r, kc)
                return r
            if k[0] == 'ext':
                nm = k[1].split('.')[-1]
                if nm in ('Iterable', 'Sized', 'Container', 'Collection'):
                    if l[0] == 'undef':
                        return F
                    r = F
                    for kc, kind in self.kinds_of(l[1]):
                        if kind in ('Set', 'Multiset'):
                            r = dd.disj(r, kc)
                        elif kind == 'Couplet' and nm == 'Iterable':
                            pass
                    return r
                if nm in ('Callable', 'Hashable'):
                    return T if l[0] == 'mo' else self.opaque('isinstance')
                if nm == 'object':
                    return T
                return F
            return self.opaque('isinstance')
        if l[0] == 'c' and k[0] == 'ext':
            nm = k[1].split('.')[-1]
            if nm in self.PYT:
                return T if isinstance(l[2], self.PYT[nm]) else F
            if nm in ('dict', 'Counter', 'list', 'set', 'frozenset', 'OrderedDict', 'defaultdict'):
                return F
            if nm in ('Iterable', 'Sized', 'Collection', 'Container') and (
                    l[2] is None or isinstance(l[2], (str, int, float, bool))):
                return T if isinstance(l[2], str) else F
            return self.opaque('isinstance')
        if (l[0] == 'c' or l[0] == 'term' and l[1][0] == 'ucall') and k[0] == 'cls':
            return F
        if l[0] in ('coll', 'tuple', 'obj'):
            if k[0] == 'cls':
                if l[0] == 'obj' and self.objs[l[1]]['type'] == 'inst':
                    return T if self.prog.is_subclass(self.objs[l[1]]['cls'],
                                                      self.prog.clss[k[1]]) else F
                return F
            if k[0] == 'ext':
                nm = k[1].split('.')[-1]
                typ = None
                if l[0] == 'obj':
                    typ = self.objs[l[1]]['type']
                elif l[0] == 'tuple':
                    typ = 'tuple'
                elif l[1][0] == 'gen':
                    typ = self.gens[l[1][1]]['kind']
                elif l[1][0] == 'data':
                    kd = self.kinds_of(l[1][1])
                    typ = {'Set': 'frozenset', 'Multiset': 'counter'}.get(kd[0][1]) \
                        if len(kd) == 1 else None
                elif l[1][0] in ('pdict',):
                    typ = 'dict'
                elif l[1][0] == 'cop':
                    typ = 'counter' if self.is_counter(l[1]) else 'frozenset'
                if nm == 'Iterable':
                    return T if typ != 'inst' else self.opaque('isinstance')
                if nm in ('str', 'bytes', 'int', 'float', 'bool', 'dict', 'Counter') and l[0] == 'coll' and l[1][0] in ('param', 'rparam'):
                    return F
                if typ is None or typ == 'inst':
                    return self.opaque('isinstance')
                table = {'str': (), 'int': (), 'float': (), 'dict': ('dict', 'counter'),
                         'Counter': ('counter',), 'list': ('list',), 'set': ('set',),
                         'frozenset': ('frozenset',), 'tuple': ('tuple',)}
                if nm in table:
                    return T if typ in table[nm] else F
            return self.opaque('isinstance')
        if l[0] == 'term':
            if k[0] == 'cls' and l[1][0] in ('value', 'pval', 'rawel', 'text', 'repr', 'strof', 'join', 'crepr', 'card', 'hash'):
                return F
            return dd.lit(('isinst', l[1], k))
        if l[0] in ('fn', 'partial', 'bm', 'ufn'):
            return F if k[0] == 'cls' else self.opaque('isinstance')
        return self.opaque('isinstance')

    def is_counter(self, s):
        if s[0] == 'cop':
            return self.is_counter(s[2])
        if s[0] in ('gen', 'seq'):
            return self.gens[s[1]]['kind'] == 'counter'
        if s[0] == 'cpart':
            return s[2] == 'counter'
        if s[0] == 'data':
            kd = self.kinds_of(s[1])
            return len(kd) == 1 and kd[0][1] == 'Multiset'
        return False

    def x_callable(self, a, kw, n, fr, st, cond):
        return None

    def quant(self, gv, n, fr, st, want_all):
        """all()/any() over an iterable."""
        r = T if want_all else F
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            ex = F
            for binders, cnd, val in self.element_views(l, n, fr, st, c):
                s2 = st.copy(dd.conj(st.pc, dd.conj(c, cnd)))
                if s2.pc == F:
                    continue
                s2.binders = st.binders + binders
                t = self.truth(val, n, fr, s2)
                hit = dd.conj(cnd, dd.neg(t) if want_all else t)
                ex = dd.disj(ex, self.mk_exists(binders, hit))
            if want_all:
                r = dd.conj(r, dd.disj(dd.neg(c), dd.neg(ex)))
            else:
                r = dd.disj(r, dd.conj(c, ex))
        return self.bool_gv(r)

    def x_all(self, a, kw, n, fr, st, cond):
        return self.quant(a[0], n, fr, st, True)

    def x_any(self, a, kw, n, fr, st, cond):
        return self.quant(a[0], n, fr, st, False)

    def x_bool(self, a, kw, n, fr, st, cond):
        if not a:
            return one(FALSE_L)
        return self.bool_gv(self.truth(a[0], n, fr, st))

    def to_coll(self, gv, kind, n, fr, st):
        """Contributions of an iterable argument as a new collection of another kind."""
        contribs = []
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            s = self.as_coll(l, st)
            if l[0] == 'mo':
                s = self.mo_data(l[1], st)
            if s is not None and len(gv) == 1:
                return s
            for b, cc, v in self.element_views(l, n, fr, st, c):
                contribs.append(Contribution(b, dd.conj(c, cc), v))
        return self.new_gen(kind, contribs)

    def x_frozenset(self, a, kw, n, fr, st, cond):
        if not a:
            return one(('coll', self.new_gen('set', ())))
        return one(('coll', self.as_set(self.to_coll(a[0], 'set', n, fr, st))))

    def as_set(self, s):
        return s

    def x_set(self, a, kw, n, fr, st, cond):
        if not a:
            return self.mutable('set', (), st)
        return self.mutable('set', self.iter_contribs(a[0], n, fr, st), st)

    def x_list(self, a, kw, n, fr, st, cond):
        if not a:
            return self.mutable('list', (), st)
        if len(a[0]) == 1:
            l = a[0][0][1]
            if l[0] == 'tuple':
                return self.mutable('list', [Contribution((), T, x) for x in l[1]], st)
        return self.mutable('list', self.iter_contribs(a[0], n, fr, st), st)

    def x_tuple(self, a, kw, n, fr, st, cond):
        if not a:
            return one(('tuple', ()))
        if len(a[0]) == 1 and a[0][0][1][0] == 'tuple':
            return a[0]
        return one(('coll', self.new_gen('list', self.iter_contribs(a[0], n, fr, st))))

    def x_dict(self, a, kw, n, fr, st, cond):
        if not a and not kw:
            return self.mutable('dict', (), st)
        if not a:
            return self.mutable('dict', [Contribution((), T, cv(k), v, 'set')
                                         for k, v in kw.items()], st)
        if len(a) == 1 and not kw:
            out = []
            for c, l in a[0]:
                if dd.conj(c, st.pc) == F:
                    continue
                s = self.as_coll(l, st) if l[0] in ('coll', 'obj') else None
                if s is not None and (self.is_counter(s) or self.coll_kind(s) in ('dict', 'counter', 'pdict')):
                    views = self.struct_views(('items', s), st)
                else:
                    views = self.element_views(l, n, fr, st, c)
                for b, cc, v in views:
                    for vc, vl in v:
                        if vl[0] != 'tuple' or len(vl[1]) != 2:
                            return None
                        out.append(Contribution(b, dd.conj_all([c, cc, vc]), vl[1][0], vl[1][1], 'set'))
            return self.mutable('dict', out, st)
        return None

    x_collections_OrderedDict = x_dict

    def x_collections_defaultdict(self, a, kw, n, fr, st, cond):
        if len(a) != 1 or kw or len(a[0]) != 1:
            return None
        f = a[0][0][1]
        kind = {('ext', 'builtins.' + k): k for k in ('set', 'list', 'dict', 'int')}.get(f[:2]) or \
            {'collections.Counter': 'counter'}.get(f[1] if f[0] == 'ext' else None)
        if kind is None and f[0] in ('fn', 'partial'):
            v = self.call_gv(a[0], [], {}, n, fr, st.copy())
            if len(v) == 1 and v[0][1][0] == 'obj' and not st.heap.get(('contribs', v[0][1][1])):
                kind = self.objs[v[0][1][1]]['type']
            elif v == cv(0):
                kind = 'int'
        if kind is None:
            return None
        g = self.mutable('counter' if kind == 'int' else 'dict', (), st)
        if kind != 'int':
            self.objs[g[0][1][1]]['default'] = kind
        return g

    def x_sorted(self, a, kw, n, fr, st, cond):
        if len(a[0]) == 1:
            s = self.to_coll(a[0], 'list', n, fr, st)
            return one(('coll', ('sorted', s, bool(kw))))
        return None

    def x_reversed(self, a, kw, n, fr, st, cond):
        return one(('coll', ('reversed', self.to_coll(a[0], 'list', n, fr, st))))

    def x_min(self, a, kw, n, fr, st, cond, which='min'):
        if len(a) != 1 or set(kw) - {'default'}:
            if len(a) == 2 and not kw:
                op = '<=' if which == 'min' else '>='
                le = self.cmp_gv('LtE' if which == 'min' else 'GtE', a[0], a[1], n, fr, st)
                return coalesce(restrict_gv(a[0], le) + restrict_gv(a[1], dd.neg(le)))
            return None
        if len(a[0]) != 1:
            return None
        s = self.as_coll(a[0][0][1], st)
        if s is None or self.struct_cat(s) != 'num':
            return None
        e = self.coll_empty(s)
        v = one(('term', (which, s)))
        if 'default' in kw:
            return coalesce(restrict_gv(kw['default'], e) + restrict_gv(v, dd.neg(e)))
        self.do_raise('ValueError', n, fr, st, dd.conj(cond, e), which + '() of an empty collection')
        return v

    def x_max(self, a, kw, n, fr, st, cond):
        return self.x_min(a, kw, n, fr, st, cond, 'max')

    def x_collections_Counter(self, a, kw, n, fr, st, cond):
        if kw:
            return None
        if not a:
            return self.mutable('counter', (), st)
        if len(a[0]) == 1:
            l = a[0][0][1]
            if l[0] == 'obj' and self.objs[l[1]]['type'] in ('dict', 'counter'):
                return self.mutable('counter', self.contents(l[1], st), st)
        out = []
        for c, l in a[0]:
            if dd.conj(dd.conj(c, cond), st.pc) == F:
                continue
            s = self.as_coll(l, st) if l[0] in ('coll', 'obj', 'tuple') else None
            if s is None:
                return None
            out.append((c, ('coll', ('tocounter', s))))
        return coalesce(out)

    def x_iter(self, a, kw, n, fr, st, cond):
        if len(a[0]) != 1:
            return None
        l = a[0][0][1]
        if l[0] == 'mo':
            ks = [k for kc, k in self.kinds_of(l[1]) if dd.conj(kc, st.pc) != F]
            if ks == ['Multiset']:
                s = ('elements', l[1])
            else:
                s = self.mo_data(l[1], st)
                if 'Undef' in ks:
                    for kc, k in self.kinds_of(l[1]):
                        if k in ('Undef', 'Atom'):
                            self.do_raise('TypeError', n, fr, st, kc, k + ' is not iterable')
        else:
            s = self.as_coll(l, st)
        if s is None:
            return None
        oid = self.new_obj('iter', st)
        self.objs[oid]['struct'] = s
        st.heap[('itpos', oid)] = cv(0)
        return one(('obj', oid))

    def iter_pos(self, oid, st):
        """Elements already taken from an iterator: an int, ('t', term) or None."""
        gv = [(c, l) for c, l in st.heap.get(('itpos', oid), cv(0)) if dd.conj(c, st.pc) != F]
        if len(gv) != 1:
            return None
        l = gv[0][1]
        return l[2] if l[0] == 'c' else ('t', l[1]) if l[0] == 'term' else None

    def x_next(self, a, kw, n, fr, st, cond):
        if len(a[0]) != 1:
            return None
        l = a[0][0][1]
        default = a[1] if len(a) > 1 else None
        if l[0] == 'obj' and self.objs[l[1]]['type'] == 'iter':
            s, k = self.objs[l[1]]['struct'], self.iter_pos(l[1], st)
            if k is None:
                return None
            self.reads.append(l[1])
            old = st.heap.get(('itpos', l[1]), cv(0))
            here = dd.conj(st.pc, cond)
            new = self.binop('Add', old, cv(1), n, fr, st)
            st.heap[('itpos', l[1])] = new if here == st.pc else \
                coalesce(restrict_gv(old, dd.neg(cond)) + restrict_gv(new, cond))
        elif l[0] == 'coll':
            s, k = l[1], 0
        else:
            return None
        e = self.coll_empty(s) if k == 0 else dd.lit(('cempty', ('rest', s, k)))
        val = ('mo', ('nth', s, k))
        if default is not None:
            return coalesce(restrict_gv(default, e) + restrict_gv(one(val), dd.neg(e)))
        self.do_raise('StopIteration', n, fr, st, e, 'next() on an empty iterator')
        if s[0] == 'gen':
            vs = self.gens[s[1]]['contribs']
            if len(vs) == 1 and not vs[0].binders and vs[0].cond == T:
                return vs[0].val
        return one(val)

    def x_range(self, a, kw, n, fr, st, cond):
        ls = tuple(x[0][1] for x in a if not (isinstance(x, tuple) and len(x) == 2 and x[0] == '*')
                   and len(x) == 1 and x[0][1][0] in ('c', 'term'))
        return one(('coll', ('range', self.nbid) + (ls if len(ls) == len(a) else ())))

    def x_enumerate(self, a, kw, n, fr, st, cond):
        views = []
        start = a[1] if len(a) > 1 else kw.get('start')
        for c, l in a[0]:
            vs = list(self.element_views(l, n, fr, st, c))
            plain = not any(b for b, cc, v in vs) and all(cc == T for b, cc, v in vs)
            for i, (b, cc, v) in enumerate(vs):
                ix = cv(i) if plain else one(('term', ('pos', ('e', b[0][0])))) if len(vs) == 1 and len(b) == 1 and cc == T \
                    else top('index')
                if start is not None and ix[0][1][0] != 'top':
                    ix = self.binop('Add', start, ix, n, fr, st)
                views.append(Contribution(b, dd.conj(c, cc), one(('tuple', (ix, v)))))
        return one(('coll', self.new_gen('gen', views)))

    def x_map(self, a, kw, n, fr, st, cond):
        if len(a) != 2:
            return None
        out = []
        for c, l in a[1]:
            for b, cc, v in self.element_views(l, n, fr, st, c):
                s2 = st.copy(dd.conj(st.pc, dd.conj(c, cc)))
                if s2.pc == F:
                    continue
                s2.binders = st.binders + b
                r = self.call_gv(a[0], [v], {}, n, fr, s2)
                out.append(Contribution(b, s2.pc, r))
                self.absorb_heap(st, s2)
        return one(('coll', self.new_gen('gen', out)))

    def x_filter(self, a, kw, n, fr, st, cond):
        out = []
        for c, l in a[1]:
            for b, cc, v in self.element_views(l, n, fr, st, c):
                s2 = st.copy(dd.conj(st.pc, dd.conj(c, cc)))
                if s2.pc == F:
                    continue
                s2.binders = st.binders + b
                if a[0] == cv(None):
                    r = v
                else:
                    r = self.call_gv(a[0], [v], {}, n, fr, s2)
                t = self.truth(r, n, fr, s2)
                out.append(Contribution(b, dd.conj(s2.pc, t), v))
        return one(('coll', self.new_gen('gen', out)))

    def x_itertools_chain(self, a, kw, n, fr, st, cond):
        out = []
        for g in a:
            out.extend(self.iter_contribs(g, n, fr, st))
        return one(('coll', self.new_gen('gen', out)))

    def x_itertools_combinations(self, a, kw, n, fr, st, cond):
        if len(a[0]) == 1:
            l = a[0][0][1]
            s = self.mo_data(l[1], st) if l[0] == 'mo' else self.as_coll(l, st)
            if s is not None:
                k = a[1][0][1] if len(a[1]) == 1 else None
                return one(('coll', ('combinations', s, k)))
        return None

    def x_itertools_product(self, a, kw, n, fr, st, cond):
        rep = kw.pop('repeat', None)
        if rep is not None:
            if len(rep) != 1 or rep[0][1][0] != 'c' or rep[0][1][2] not in (1, 2, 3):
                return None
            a = list(a) * rep[0][1][2]
        if kw or not a:
            return None
        views = [((), T, ())]
        for g in a:
            nxt = []
            for b0, c0, tup in views:
                for c, l in g:
                    for b, cc, v in self.element_views(l, n, fr, st, c):
                        nxt.append((b0 + b, dd.conj(dd.conj(c0, c), cc), tup + (v,)))
            views = nxt
        return one(('coll', self.new_gen('gen', [Contribution(b, c, one(('tuple', t)))
                                                  for b, c, t in views])))

    def x_getattr(self, a, kw, n, fr, st, cond):
        if len(a[1]) == 1 and a[1][0][1][0] == 'c' and isinstance(a[1][0][1][2], str):
            if len(a) == 2:
                return self.getattr_gv(a[0], a[1][0][1][2], n, fr, st)
            if len(a[0]) == 1 and a[0][0][1][0] == 'fn':
                v = self.fn_attr(a[0][0][1], a[1][0][1][2], fr, st, a[2])
                if v is not None:
                    return v
            if len(a[0]) == 1 and a[0][0][1][0] == 'mo':
                l, attr = a[0][0][1], a[1][0][1][2]
                if l[1][0] == 'fixed' and (not self.prop_contracts or l[1] == self.init_key):
                    # an object under construction
                    owner, mem = self.prog.cls_lookup(self.cls_by_kind[l[1][1]], attr)
                    if mem is not None or st.heap.get(('slot', l[1], attr)) is not None:
                        return self.getattr_gv(a[0], attr, n, fr, st)
                    return a[2]
            return top('getattr with default')
        if all(l[0] == 'c' and isinstance(l[2], str) for c, l in a[1]) and len(a) == 2:
            out = []
            for c, l in a[1]:
                if dd.conj(c, st.pc) == F:
                    continue
                out.extend((dd.conj(c, c2), l2) for c2, l2 in
                           self.getattr_gv(a[0], l[2], n, fr, st))
            return coalesce(out)
        return top('getattr')

    def x_setattr(self, a, kw, n, fr, st, cond):
        if len(a[1]) == 1 and a[1][0][1][0] == 'c':
            self.setattr_gv(a[0], a[1][0][1][2], a[2], n, fr, st)
            return cv(None)
        return None

    def x_object___new__(self, a, kw, n, fr, st, cond):
        if len(a) == 1 and not kw and len(a[0]) == 1 and a[0][0][1][0] == 'cls':
            return one(('obj', self.new_obj('inst', st, self.prog.clss[a[0][0][1][1]])))
        return None

    def x_hasattr(self, a, kw, n, fr, st, cond):
        if len(a) == 2 and len(a[0]) == 1 and len(a[1]) == 1 and a[1][0][1][0] == 'c':
            l, attr = a[0][0][1], a[1][0][1][2]
            if l[0] == 'mo' and l[1][0] == 'fixed' and (not self.prop_contracts or l[1] == self.init_key):
                # an object under construction
                owner, mem = self.prog.cls_lookup(self.cls_by_kind[l[1][1]], attr)
                v = st.heap.get(('slot', l[1], attr))
                return cv(mem is not None or v is not None)
        return self.bool_gv(self.opaque('hasattr'))

    def x_type(self, a, kw, n, fr, st, cond):
        out = []
        for c, l in a[0]:
            if l[0] == 'mo':
                for kc, k in self.kinds_of(l[1]):
                    out.append((dd.conj(c, kc), ('cls', self.cls_by_kind[k].cid)))
            elif l[0] in ('term', 'c'):
                out.append((c, ('term', ('typeof', self.num_term(l)))))
            else:
                out.append((c, ('top', 'type')))
        return coalesce(out)

    def x_sum(self, a, kw, n, fr, st, cond):
        if len(a[0]) == 1:
            s = self.as_coll(a[0][0][1], st)
            if s is not None and s[0] == 'gen':
                cs = self.gens[s[1]]['contribs']
                if self.gens[s[1]]['kind'] in ('gen', 'list') and len(cs) <= 8 and \
                        all(x.mode == 'add' and not x.binders and x.cond == T for x in cs):
                    tot = cv(0)
                    for x in cs:
                        tot = self.binop('Add', tot, x.val, n, fr, st)
                    return tot
            if s is not None:
                return one(('term', ('sum', s)))
        return None

    def x_print(self, a, kw, n, fr, st, cond):
        return cv(None)

    def x_repr(self, a, kw, n, fr, st, cond):
        return self.text_of('repr', a[0], st)

    def x_str(self, a, kw, n, fr, st, cond):
        return self.text_of('strof', a[0], st) if len(a) == 1 else top('str')

    def x_hash(self, a, kw, n, fr, st, cond):
        out = []
        for c, l in a[0]:
            if dd.conj(c, st.pc) == F:
                continue
            s = None if l[0] in ('mo', 'tuple', 'c') else self.as_coll(l, st)
            if s is not None:
                if self.coll_kind(s) in ('list', 'gen', 'dict', 'counter', 'items', 'sorted', 'keys'):
                    self.do_raise('TypeError', n, fr, st, c, 'unhashable')
                    continue
                l = ('coll', s)
            out.append((c, ('term', ('hash', l)) if l[0] in ('mo', 'tuple', 'c', 'term', 'coll') else ('top', 'hash')))
        return coalesce(out)

    def x_super(self, a, kw, n, fr, st, cond):
        return top('super')

    def x_float(self, a, kw, n, fr, st, cond):
        if a and len(a[0]) == 1 and a[0][0][1][0] == 'c':
            try:
                return cv(float(a[0][0][1][2]))
            except Exception:
                return None
        return None

    def x_types_MethodType(self, a, kw, n, fr, st, cond):
        out = []
        for c, l in a[0]:
            for c2, l2 in a[1]:
                if l[0] == 'fn':
                    out.append((dd.conj(c, c2), ('bm', l2, l[1])))
                else:
                    out.append((dd.conj(c, c2), ('top', 'method')))
        return coalesce(out)

    # -- methods of collections / mathobjects under contract ----------------------------------
    def call_method(self, l, attr, args, kw, n, fr, st, cond):
        if l[0] == 'mo':
            fa = self.flag_accessor(attr)
            if fa and fa[0] == 'set':
                v = kw.get('value') or (args[0] if args else None)
                if v is None:
                    return self.unknown('cache_ without value', n, fr)
                self.write_flag(l[1], fa[1], v, n, fr, st)
                return one(l)
            if attr == 'get_ground_set':
                return one(('term', ('gs', l[1])))
            if attr in ('get_left_set', 'get_right_set'):
                key = ('op', 'mo.' + attr, l)
                u = dd.lit(('opundef', key))
                return ((u, ('undef', 'op')), (dd.neg(u), ('mo', key)))
            return self.unknown('method ' + attr, n, fr)
        if l[0] == 'coll' or l[0] == 'tuple':
            s = self.as_coll(l, st)
            return self.coll_method(l, s, attr, args, kw, n, fr, st, cond)
        if l[0] == 'obj':
            return self.obj_method(l, attr, args, kw, n, fr, st, cond)
        if l[0] == 'term':
            t = l[1]
            if t[0] == 'gs' and attr in ('is_subset', 'is_same', 'get_powerset_level') and args \
                    and len(args[0]) == 1:
                o = args[0][0][1]
                if o[0] == 'term':
                    if attr == 'get_powerset_level':
                        return one(('term', ('gslevel', t[1], o[1])))
                    if attr == 'is_subset':
                        return self.bool_gv(dd.lit(('gssub', t[1], o[1])))
            if attr == 'join' and len(args) == 1:
                return self.join_text(l, args[0], n, fr, st)
            return top('method {} of term'.format(attr))
        if l[0] == 'c':
            if attr == 'format' and isinstance(l[2], str):
                ex = self.expand_args(args, n, fr, st)
                return self.format_text(l[2], ex, kw, st) if ex is not None and '**' not in kw else top('format')
            if attr == 'join' and len(args) == 1:
                return self.join_text(l, args[0], n, fr, st)
            return top('method of constant')
        return self.unknown('method ' + attr, n, fr)

    def join_text(self, sep, gv, n, fr, st):
        out = []
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            s = self.as_coll(l, st)
            out.append((c, ('term', ('join', sep, s)) if s is not None else ('top', 'join')))
        return coalesce(out)

    def arg_struct(self, gv, st):
        if len(gv) != 1:
            return None
        l = gv[0][1]
        if l[0] == 'mo':
            return self.mo_data(l[1], st)
        return self.as_coll(l, st)

    MUTATORS = ('add', 'append', 'update', 'clear', 'pop', 'popitem', 'remove', 'discard', 'insert',
                'extend', 'setdefault', 'subtract', 'sort', 'reverse', 'intersection_update',
                'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__')

    def flattened(self, gv, n, fr, st):
        """Collection of the elements of the elements."""
        out = []
        for b, cc, v in ((b, dd.conj(c, cc), v) for c, l in gv if dd.conj(c, st.pc) != F
                         for b, cc, v in self.element_views(l, n, fr, st, c)):
            s2 = st.copy(dd.conj(st.pc, cc))
            if s2.pc == F:
                continue
            s2.binders = st.binders + b
            for k in self.iter_contribs(v, n, fr, s2):
                out.append(Contribution(b + k.binders, dd.conj(cc, k.cond), k.val))
        return self.new_gen('gen', out)

    def x_itertools_chain_from_iterable(self, a, kw, n, fr, st, cond):
        return one(('coll', self.flattened(a[0], n, fr, st)))

    def coll_method(self, l, s, attr, args, kw, n, fr, st, cond):
        if attr in ('union', 'intersection', 'difference', 'symmetric_difference'):
            op = {'union': '|', 'intersection': '&', 'difference': '-',
                  'symmetric_difference': '^'}[attr]
            r = s
            for a in args:
                if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                    if op != '|':
                        return top('set op star')
                    b = self.flattened(a[1], n, fr, st)
                else:
                    b = self.arg_struct(a, st)
                if b is None:
                    out = []
                    for c, x in a:
                        if dd.conj(c, st.pc) == F:
                            continue
                        b = self.mo_data(x[1], st) if x[0] == 'mo' else self.as_coll(x, st)
                        out.append((c, ('coll', ('cop', op, r, b)) if b is not None
                                    else ('top', 'set op')))
                    if len(args) == 1:
                        return coalesce(out)
                    return top('set op')
                r = ('cop', op, r, b)
            return one(('coll', r))
        if attr in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1:
            r = F
            for c, x in args[0]:
                if dd.conj(c, st.pc) == F:
                    continue
                b = self.mo_data(x[1], st) if x[0] == 'mo' else self.as_coll(x, st)
                if b is None:
                    r = dd.disj(r, dd.conj(c, self.opaque(attr)))
                elif attr == 'issubset':
                    r = dd.disj(r, dd.conj(c, dd.lit(('subset', s, b))))
                elif attr == 'issuperset':
                    r = dd.disj(r, dd.conj(c, dd.lit(('subset', b, s))))
                else:
                    r = dd.disj(r, dd.conj(c, dd.lit(('cempty', ('cop', '&', s, b)))))
            return self.bool_gv(r)
        if attr in ('items', 'keys', 'values'):
            return one(('coll', (attr, s)))
        if attr == 'elements':
            return one(('coll', ('elements', s[1]) if s[0] == 'data' else ('melements', s)))
        if attr == 'copy':
            return one(l)
        if attr == '__contains__' and len(args) == 1:
            return self.bool_gv(self.cmp_gv('In', args[0], one(l), n, fr, st))
        if attr == 'get' and args:
            t = self.num_term(args[0][0][1]) if len(args[0]) == 1 else None
            if t is not None and len(args) > 1 and args[1] == cv(0) and \
                    (s[0] not in ('gen', 'seq') or self.map_value(s, t)[1][0] == 'mult'):
                return one(('term', ('mult', s, t)))
            if t is not None and s[0] in ('gen', 'seq') and self.is_mapping(s):
                e = self.cmp_gv('In', args[0], one(('coll', s)), n, fr, st)
                return coalesce(restrict_gv(one(self.map_value(s, t)), e) +
                                restrict_gv(args[1] if len(args) > 1 else cv(None), dd.neg(e)))
            if t is not None and len(args) == 1 and s[0] == 'data':
                e = self.cmp_gv('In', args[0], one(('coll', s)), n, fr, st)
                return coalesce(restrict_gv(one(('term', ('mult', s, t))), e) +
                                restrict_gv(cv(None), dd.neg(e)))
            if t is not None and len(args) == 1:
                return one(('term', ('mult', s, t)))
            return top('get')
        if attr in self.MUTATORS:
            if s[0] == 'cpart':
                raise Budget('change of a collection in a collection')
            if s[0] == 'seq':
                for c in self.gens[s[1]]['contribs']:
                    if c.mode == 'phi':
                        p = c.val[0][1][1]
                        self.phi_bad.setdefault(p[1], set()).add(p[4])
            self.event('mutate', n, fr, st, struct=s, method=attr, cond=cond, args=args)
            return top('result of mutator')
        return top('method {} of collection'.format(attr))

    def obj_method(self, l, attr, args, kw, n, fr, st, cond):
        oid = l[1]
        o = self.objs[oid]
        key = ('contribs', oid)
        base = len(o['binders'])

        al = self.deref(one(l), st)
        if al != one(l):
            return coalesce([(dd.conj(c, c2), l2) for c, x in al for c2, l2 in
                             self.obj_method(x, attr, args, kw, n, fr, st, dd.conj(cond, c))])

        def push(c):
            if o['type'] == 'dict' and c.extra is not None and c.mode == 'set':
                c.extra = self.stored(oid, c.val, c.extra, st)
            self.push(oid, c, st)
        ctx = st.binders[base:]
        pc = dd.conj(st.pc, cond)
        if attr in ('add', 'append') and len(args) == 1:
            push(Contribution(ctx, pc, args[0], None, 'add', self.where(n, fr)))
            return cv(None)
        if attr == 'insert' and len(args) == 2:
            push(Contribution(ctx, pc, args[1], None, 'add', self.where(n, fr)))
            return cv(None)
        if attr in ('extend', 'update') and len(args) == 1 and o['type'] in ('list', 'set'):
            for c in self.iter_contribs(args[0], n, fr, st):
                push(Contribution(ctx + c.binders, dd.conj(pc, c.cond), c.val, None, 'add',
                                  self.where(n, fr)))
            return cv(None)
        if attr == 'update' and len(args) == 1 and o['type'] in ('counter', 'dict') and \
                self.pairs_of(args[0], n, fr, st, o['type']) is not None:
            for c in self.pairs_of(args[0], n, fr, st, o['type']):
                push(Contribution(ctx + c.binders, dd.conj(pc, c.cond), c.val, c.extra,
                                  'inc' if o['type'] == 'counter' else 'set', self.where(n, fr)))
            return cv(None)
        if attr in ('remove', 'discard') and len(args) == 1 and o['type'] in ('set', 'list'):
            if attr == 'remove':
                c = self.cmp_gv('In', args[0], one(l), n, fr, st)
                self.do_raise('KeyError', n, fr, st, dd.conj(pc, dd.neg(c)), 'remove')
                pc = dd.conj(st.pc, cond)
            push(Contribution(ctx, pc, args[0], None, 'rem', self.where(n, fr)))
            return cv(None)
        if attr == 'clear' and not args:
            push(Contribution(ctx, pc, cv(None), None, 'clear', self.where(n, fr)))
            return cv(None)
        if attr == 'pop' and o['type'] in ('set', 'list') and \
                (not args or args[0] in (cv(0), cv(-1)) and o['type'] == 'list'):
            s = self.snapshot(oid, st)
            e = self.coll_empty(s)
            self.do_raise('IndexError', n, fr, st, dd.conj(pc, e), 'pop from an empty collection')
            pc = dd.conj(st.pc, cond)
            first = o['type'] == 'set' or bool(args) and args[0] == cv(0)
            cat = self.contrib_cat(self.contents(oid, st))
            push(Contribution(ctx, pc, cv(None), None, 'popfirst' if first else 'poplast',
                              self.where(n, fr)))
            return one(self.cat_leaf(cat, ('nth', s, 0 if first else -1)))
        if attr == 'pop' and o['type'] in ('dict', 'counter') and len(args) in (1, 2):
            v = self.obj_method(l, 'get', list(args), {}, n, fr, st, cond)
            if len(args) == 1:
                c = self.cmp_gv('In', args[0], one(l), n, fr, st)
                self.do_raise('KeyError', n, fr, st, dd.conj(pc, dd.neg(c)), 'pop')
                pc = dd.conj(st.pc, cond)
            push(Contribution(ctx, pc, args[0], None, 'rem', self.where(n, fr)))
            return v
        if attr == 'update' and len(args) == 1 and o['type'] == 'counter':
            for c in self.iter_contribs(args[0], n, fr, st):
                push(Contribution(ctx + c.binders, dd.conj(pc, c.cond), c.val, cv(1), 'inc',
                                  self.where(n, fr)))
            return cv(None)
        if attr in ('get', 'setdefault') and o['type'] == 'dict' and args and len(args[0]) > 1:
            return coalesce([(dd.conj(c, c2), l2) for c, x in args[0] if dd.conj(c, pc) != F for c2, l2 in
                             self.obj_method(l, attr, [one(x)] + list(args[1:]), kw, n, fr, st, dd.conj(cond, c))])
        if attr in ('get', 'setdefault') and o['type'] == 'dict' and len(args) in (1, 2) and len(args[0]) == 1 and \
                (attr != 'get' or self.entry_cat(l[1], st) is not None):
            e = self.cmp_gv('In', args[0], one(l), n, fr, st)
            d = args[1] if len(args) > 1 else cv(None)
            old = self.entry_value(l[1], args[0][0][1], st) if dd.conj(e, pc) != F else ()
            if attr == 'setdefault':
                push(Contribution(ctx, dd.conj(pc, dd.neg(e)), args[0], d, 'set', self.where(n, fr)))
                cat = self.entry_cat(l[1], st)
                if cat is not None:
                    return one(self.cell(oid, args[0][0][1], cat))
            return coalesce(restrict_gv(old, e) + restrict_gv(d, dd.neg(e)))
        if attr in ('items', 'keys', 'values', 'copy', 'union', 'intersection', 'difference',
                    'issubset', 'issuperset', 'isdisjoint', 'get', 'elements',
                    'symmetric_difference'):
            s = self.snapshot(oid, st)
            if attr == 'copy':
                return self.mutable(o['type'], self.contents(oid, st), st)
            return self.coll_method(('coll', s), s, attr, args, kw, n, fr, st, cond)
        if attr in ('sort', 'reverse'):
            return cv(None)
        if attr in self.MUTATORS:
            push(Contribution((), T, top('mutated by ' + attr), top('mutated'), 'esc'))
            return top('result of ' + attr)
        return top('method {} of {}'.format(attr, o['type']))

    def entry_cat(self, d, st):
        s = self.snapshot(d, st)
        cat = self.contrib_cat(self.gens[s[1]]['contribs'], True) if s[0] in ('gen', 'seq') else None
        return cat if isinstance(cat, tuple) and cat[0] == 'collk' else None

    def entry_value(self, d, key, st):
        cat = self.entry_cat(d, st)
        if cat is not None:
            return one(self.cell(d, key, cat))
        t = self.num_term(key)
        s = self.snapshot(d, st)
        return one(self.map_value(s, t)) if t is not None and s[0] in ('gen', 'seq') else top('entry')

    def pairs_of(self, gv, n, fr, st, kind):
        """Contributions (key, value) of a mapping argument, or None."""
        out = []
        for c, l in gv:
            c2 = dd.conj(c, st.pc)
            if c2 == F:
                continue
            s = self.as_coll(l, st)
            if s is None:
                return None
            if self.is_mapping(s):
                for b, cc, v in self.struct_views(('items', s), st):
                    if len(v) != 1 or v[0][1][0] != 'tuple':
                        return None
                    out.append(Contribution(b, dd.conj(c, cc), v[0][1][1][0], v[0][1][1][1]))
            elif kind == 'dict':
                for b, cc, v in self.struct_views(s, st):
                    if len(v) != 1 or v[0][1][0] != 'tuple' or len(v[0][1][1]) != 2:
                        return None
                    out.append(Contribution(b, dd.conj(c, cc), v[0][1][1][0], v[0][1][1][1]))
            else:
                return None
        return out

    def is_mapping(self, s):
        return s[0] == 'pdict' or self.is_counter(s) or \
            s[0] in ('gen', 'seq') and self.gens[s[1]]['kind'] in ('dict', 'counter') or \
            s[0] == 'cpart' and s[2] == 'dict'

    def write_flag(self, key, prop, gv, n, fr, st):
        gv = tuple((c, l) for c, l in gv if dd.conj(c, st.pc) != F)
        self.event('flag', n, fr, st, key=key, prop=prop, value=gv)
        self.raw_flag(key, prop, gv, st, st.pc)

    def raw_flag(self, key, prop, gv, st, cond):
        old = self.flag_gv(st, key, prop)
        st.heap[('flag', key, prop)] = coalesce(restrict_gv(gv, cond) +
                                                restrict_gv(old, dd.neg(cond)))

    # -- subscripts -------------------------------------------------------------------------
    def ev_Subscript(self, n, fr, st):
        base = self.ev(n.value, fr, st)
        if isinstance(n.slice, ast.Slice):
            parts = []
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                v = self.ev(x, fr, st) if x is not None else cv(None)
                l = v[0][1] if len(v) == 1 else ('top', 'slice')
                parts.append(l[2] if l[0] == 'c' else ('t', l[1]) if l[0] == 'term' else 'top')
            out = []
            for c, l in base:
                if dd.conj(c, st.pc) == F:
                    continue
                if l[0] == 'c' and all(p is None or isinstance(p, int) for p in parts) and \
                        isinstance(l[2], str):
                    out.append((c, const(l[2][slice(*parts)])))
                    continue
                if l[0] == 'tuple' and all(p is None or isinstance(p, int) for p in parts):
                    out.append((c, ('tuple', l[1][slice(*parts)])))
                    continue
                s = self.as_coll(l, st) if l[0] in ('obj', 'coll') else None
                if s is None or 'top' in parts or self.coll_kind(s) not in (
                        'list', 'concat', 'slice', 'sorted', 'reversed', 'rest'):
                    out.append((c, ('top', 'slice')))
                else:
                    out.append((c, ('coll', ('slice', s) + tuple(parts))))
            return coalesce(out)
        idx = self.ev(n.slice, fr, st)
        out = []
        for c, l in base:
            for c2, i in idx:
                cc = dd.conj(c, c2)
                if dd.conj(cc, st.pc) == F:
                    continue
                out.extend((dd.conj(cc, c3), l3) for c3, l3 in self.subscript(l, i, n, fr, st, cc))
        return coalesce(out)

    def subscript(self, l, i, n, fr, st, cond):
        if l[0] == 'tuple' and i[0] == 'c' and isinstance(i[2], int):
            try:
                return l[1][i[2]]
            except IndexError:
                return top('index')
        s = None
        if l[0] == 'obj':
            o = self.objs[l[1]]
            if o['type'] in ('list', 'dict', 'counter'):
                cs = self.contents(l[1], st)
                if all(not c.binders and c.cond == T and c.mode in ('add', 'set') for c in cs):
                    if o['type'] == 'list' and i[0] == 'c' and isinstance(i[2], int) \
                            and -len(cs) <= i[2] < len(cs) and all(c.mode == 'add' for c in cs):
                        return cs[i[2]].val
                    if o['type'] == 'dict' and i[0] == 'c':
                        for c in reversed(cs):
                            if len(c.val) == 1 and c.val[0][1] == i and c.extra is not None:
                                return c.extra
                            if len(c.val) != 1 or c.val[0][1][0] != 'c':
                                break
            if o['type'] == 'dict' and 'default' in o:
                self.push(l[1], Contribution(st.binders[len(o['binders']):], dd.conj(cond, st.pc), one(i), one(('tuple', (
                    cv(o['default']), cv('touch'), cv(None), cv(None)))), 'upd', self.where(n, fr)), st)
            s = self.snapshot(l[1], st) if o['type'] in ('dict', 'counter', 'list') else None
        elif l[0] == 'coll':
            s = l[1]
        if s is not None and not self.is_mapping(s) and s[0] != 'data':
            if i[0] not in ('c', 'term') or i[0] == 'c' and not isinstance(i[2], int):
                return top('subscript')
            if self.coll_kind(s) not in ('list', 'concat', 'slice', 'sorted', 'reversed', 'tuple', 'rest',
                                         'elemcoll', 'range') and s[0] != 'param':
                return top('subscript')
            k = i[2] if i[0] == 'c' else ('t', i[1])
            e = dd.lit(('cempty', ('rest', s, k if not isinstance(k, int) or k >= 0 else -k - 1)))
            if k in (0, -1):
                e = self.coll_empty(s)
            self.do_raise('IndexError', n, fr, st, dd.conj(cond, e), 'index out of range')
            return one(self.cat_leaf(self.struct_cat(s), ('nth', s, k)))
        if s is not None and self.is_mapping(s) and s[0] in ('gen', 'seq'):
            t = self.num_term(i)
            if t is None:
                return top('subscript')
            if self.gens[s[1]]['kind'] == 'dict':
                e = self.cmp_gv('In', one(i), one(('coll', s)), n, fr, st)
                self.do_raise('KeyError', n, fr, st, dd.conj(cond, dd.neg(e)), 'missing key')
                if l[0] == 'obj':
                    return self.entry_value(l[1], i, st)
            return one(self.map_value(s, t))
        if s is not None:
            t = self.num_term(i)
            if t is not None:
                return one(('term', ('mult', s, t)))
        if l[0] == 'undef':
            self.do_raise('TypeError', n, fr, st, cond, 'Undef is not subscriptable')
            return ()
        if l[0] == 'mo':
            return self.mo_lookup('mo.getitem', l, [one(i)], n, fr, st)
        return top('subscript')

    def map_value(self, s, t):
        cat = self.contrib_cat(self.gens[s[1]]['contribs'], True)
        if cat in ('num', None):
            return ('term', ('mult', s, t))
        return self.cat_leaf(cat, ('dget', s, t))

    # ---------------------------------------------------------------------------------------
    # assignment targets
    def bind(self, t, gv, fr, st):
        if isinstance(t, ast.Name):
            if fr.fn is None or t.id not in self.globals_of(fr.fn):
                st.env[t.id] = gv
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            live = [(c, l) for c, l in gv if dd.conj(c, st.pc) != F]
            got = self.unpack_coll(t, live, fr, st)
            if got is not None:
                for x, p in zip(t.elts, got):
                    self.bind(x.value if isinstance(x, ast.Starred) else x, p, fr, st)
                return
            parts = [[] for _ in range(k)]
            for c, l in live:
                vals = None
                if l[0] == 'tuple' and len(l[1]) == k:
                    vals = l[1]
                elif l[0] == 'obj' and self.objs[l[1]]['type'] == 'list':
                    cs = self.contents(l[1], st)
                    if len(cs) == k and all(c.mode == 'add' for c in cs) and all(not x.binders and x.cond == T for x in cs):
                        vals = [x.val for x in cs]
                for i in range(k):
                    if vals is not None:
                        parts[i].extend((dd.conj(c, c2), l2) for c2, l2 in vals[i])
                    else:
                        parts[i].append((c, ('top', 'unpacked')))
            for x, p in zip(t.elts, parts):
                self.bind(x.value if isinstance(x, ast.Starred) else x,
                          coalesce(p) if not isinstance(x, ast.Starred) else top('starred'), fr, st)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr, st)
            self.setattr_gv(base, t.attr, gv, t, fr, st)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr, st)
            idx = self.ev(t.slice, fr, st) if not isinstance(t.slice, ast.Slice) else top('slice')
            self.store_item(base, idx, gv, t, fr, st, 'set')
            return
        if isinstance(t, ast.Starred):
            self.bind(t.value, top('starred'), fr, st)

    def unpack_coll(self, t, live, fr, st):
        """Values of `a, b = coll` and `a, *rest = coll`, or None."""
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        k = len(t.elts)
        if len(live) != 1 or len(star) > 1 or star and star[0] != k - 1:
            return None
        l = live[0][1]
        if l[0] == 'tuple' and star:
            if len(l[1]) < k - 1:
                return None
            return list(l[1][:k - 1]) + [one(('tuple', l[1][k - 1:]))]
        if l[0] == 'obj' and self.objs[l[1]]['type'] == 'list' and not star:
            cs = self.contents(l[1], st)
            if len(cs) == k and all(c.mode == 'add' and not c.binders and c.cond == T for c in cs):
                return None
        if l[0] not in ('mo', 'coll') and not (l[0] == 'obj' and self.objs[l[1]]['type'] in (
                'list', 'set', 'iter')):
            return None
        if l[0] == 'coll' and (self.is_mapping(l[1]) or self.coll_kind(l[1]) == 'dict'):
            return None
        it = self.x_iter([one(l)], {}, t, fr, st, T)
        if it is None:
            return None
        s = self.objs[it[0][1][1]]['struct']
        if self.is_mapping(s):
            return None
        short = k - 2 if star else k - 1
        empty = lambda i: self.coll_empty(s) if i == 0 else dd.lit(('cempty', ('rest', s, i)))
        bad = empty(short) if short >= 0 else F
        if not star:
            bad = dd.disj(bad, dd.neg(empty(k)))
        if bad != F:
            self.do_raise('ValueError', t, fr, st, bad, 'wrong number of values to unpack')
        out = [one(self.cat_leaf(self.struct_cat(s), ('nth', s, i))) for i in range(k - len(star))]
        if star:
            out.append(one(('coll', ('rest', s, k - 1) if k > 1 else s)))
        return out

    def globals_of(self, fi):
        g = getattr(fi, '_globals', None)
        if g is None:
            g = set()
            if not isinstance(fi.node, ast.Lambda):
                for x in ast.walk(fi.node):
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        g.update(x.names)
            fi._globals = g
        return g

    def setattr_gv(self, base, attr, gv, n, fr, st):
        for c, l in base:
            if dd.conj(c, st.pc) == F:
                continue
            self.event('setattr', n, fr, st, base=l, attr=attr, value=gv, cond=c)
            if l[0] == 'obj' and self.objs[l[1]]['type'] == 'inst':
                k = ('attr', l[1], attr)
                old = st.heap.get(k, one(UNBOUND))
                cc = dd.conj(st.pc, c)
                st.heap[k] = coalesce(restrict_gv(gv, cc) + restrict_gv(old, dd.neg(cc))) \
                    if cc != T else gv
            elif l[0] == 'mo':
                k = ('slot', l[1], attr)
                ci = None
                for kc, kind in self.kinds_of(l[1]):
                    if dd.conj(kc, st.pc) != F and kind != 'Undef':
                        ci = self.cls_by_kind[kind]
                        owner, mem = self.prog.cls_lookup(ci, attr)
                        if isinstance(mem, FnInfo) and mem.is_property and mem.setter is not None:
                            self.inline(mem.setter, [one(l), gv], {}, n, fr, st)
                            ci = None
                            break
                if ci is not None:
                    st.heap[k] = gv
            elif l[0] == 'flags':
                if attr == 'asint':
                    for c2, l2 in gv:
                        cc = dd.conj(dd.conj(c, c2), st.pc)
                        if cc == F:
                            continue
                        for p in ALLFLAGS:
                            new = self.asints[l2[1]][p] if l2[0] == 'asint' else \
                                cv(UNKNOWN) if l2 == const(0) else top('asint')
                            self.raw_flag(l[1], p, new, st, cc)
                    continue
                mem = self.bitfields.members.get(attr) if self.bitfields is not None else None
                if not self.flag_contracts and isinstance(mem, FnInfo) and mem.is_property:
                    if mem.setter is None:
                        self.do_raise('AttributeError', n, fr, st, c, 'no setter ' + attr)
                    else:
                        self.inline(mem.setter, [one(l), gv], {}, n, fr, st)
                    continue
                nm = attr[1:] if attr.startswith('_') else attr if self.flag_contracts else None
                if nm in ALLFLAGS:
                    self.write_flag(l[1], nm, gv, n, fr, st)
                else:
                    self.unknown('flag store ' + attr, n, fr)
            elif l[0] == 'cls':
                st.heap[('clsattr', l[1], attr)] = gv
            elif l[0] == 'fn':
                st.heap[('fnattr', l[1], attr)] = gv

    def store_item(self, base, idx, gv, n, fr, st, mode):
        for c, l in base:
            cc = dd.conj(c, st.pc)
            if cc == F:
                continue
            if l[0] == 'obj':
                o = self.objs[l[1]]
                k = ('contribs', l[1])
                al = self.deref(one(l), st)
                if al != one(l):
                    self.store_item(tuple((dd.conj(c, c2), l2) for c2, l2 in al), idx, gv, n, fr, st, mode)
                    continue
                if len(idx) > 1 and o['type'] == 'dict' and any(x[0] == 'obj' for _, x in gv):
                    for c2, i in idx:
                        self.store_item(((dd.conj(c, c2), l),), one(i), gv, n, fr, st, mode)
                    continue
                ctx = st.binders[len(o['binders']):]
                v = self.stored(l[1], idx, gv, st) if mode == 'set' and o['type'] == 'dict' else gv
                self.push(l[1], Contribution(ctx, cc, idx, v, mode, self.where(n, fr)), st)
            elif l[0] == 'coll':
                if l[1][0] == 'cpart':
                    raise Budget('change of a collection in a collection')
                self.event('mutate', n, fr, st, struct=l[1], method='[]=', cond=c, args=(idx, gv))
                s = l[1]
                if s[0] == 'data':
                    k = ('over', s[1])
                    st.heap[k] = st.heap.get(k, ()) + (
                        Contribution(st.binders, cc, idx, gv, mode, self.where(n, fr)),)
                    self.overrides = getattr(self, 'overrides', {})
                    self.overrides.setdefault(s[1], []).append(st.heap[k][-1])

    # ---------------------------------------------------------------------------------------
    # statements
    def merge(self, s1, s2):
        if s1.pc == F:
            return s2
        if s2.pc == F:
            return s1
        env = {}
        if s1.env is s2.env or s1.env == s2.env:
            env = s1.env
        else:
            for k in set(s1.env) | set(s2.env):
                a = s1.env.get(k)
                b = s2.env.get(k)
                if a is b:
                    env[k] = a
                else:
                    env[k] = gv_merge(a if a is not None else one(UNBOUND), s1.pc,
                                      b if b is not None else one(UNBOUND), s2.pc)
        heap = self.merge_heaps(s1.heap, s1.pc, s2.heap, s2.pc)
        return St(dd.disj(s1.pc, s2.pc), env, heap, s1.binders)

    def merge_heaps(self, h1, p1, h2, p2):
        if h1 is h2:
            return h1
        out = dict(h1)
        for k, b in h2.items():
            a = h1.get(k)
            if a is b:
                continue
            if k[0] in ('contribs', 'over'):
                out[k] = b if a is None else merge_contribs(a, b)
            elif a is None:
                d = self.heap_default(k, p1)
                out[k] = gv_merge(d, p1, b, p2) if d is not None else b
            else:
                out[k] = gv_merge(a, p1, b, p2)
        for k, a in h1.items():
            if k not in h2 and k[0] not in ('contribs', 'over'):
                d = self.heap_default(k, p2)
                if d is not None:
                    out[k] = gv_merge(a, p1, d, p2)
        return out

    def heap_default(self, k, pc):
        if k[0] == 'flag':
            st = St(T, {}, {}, ())
            return self.flag_gv(st, k[1], k[2])
        if k[0] == 'itpos':
            return cv(0)
        if k[0] == 'slot':                  # what the class has where the object has nothing stored
            out = []
            for kc, kind in self.kinds_of(k[1]):
                owner, mem = self.prog.cls_lookup(self.cls_by_kind[kind], k[2])
                if isinstance(mem, FnInfo) and not mem.is_property and not mem.is_static:
                    out.append((kc, ('bm', ('mo', k[1]), mem.fid)))
                else:
                    out.append((kc, ('term', ('rawattr', k[2], k[1]))))
            return coalesce(out)
        if k[0] == 'fnattr':
            return None
        return None

    def block(self, stmts, fr, st):
        for s in stmts:
            if st.pc == F:
                return
            self.stmt(s, fr, st)

    def stmt(self, s, fr, st):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget()
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.unknown('statement ' + type(s).__name__, s, fr)
            return
        m(s, fr, st)

    def st_Pass(self, s, fr, st):
        pass

    st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, s, fr, st):
        v = s.value
        if isinstance(v, ast.Yield):
            gv = self.ev(v.value, fr, st) if v.value else cv(None)
            if fr.yields is not None:
                fr.yields.append(Contribution(st.binders[fr.ybase:], st.pc, gv, None, 'add',
                                              self.where(s, fr)))
            return
        if isinstance(v, ast.YieldFrom):
            gv = self.ev(v.value, fr, st)
            if fr.yields is not None:
                for c in self.iter_contribs(gv, s, fr, st):
                    fr.yields.append(Contribution(st.binders[fr.ybase:] + c.binders,
                                                  dd.conj(st.pc, c.cond), c.val, None, 'add',
                                                  self.where(s, fr)))
            return
        self.ev(v, fr, st)

    def ev_Yield(self, n, fr, st):
        return self.unknown('yield expression', n, fr)

    def ev_Starred(self, n, fr, st):
        return self.unknown('starred', n, fr)

    def st_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.bind(t, v, fr, st)

    def st_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, fr, st), fr, st)

    def st_AugAssign(self, s, fr, st):
        op = type(s.op).__name__
        v = self.ev(s.value, fr, st)
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr, st, s)
            # in-place update of mutable collections
            if len(cur) == 1 and cur[0][1][0] == 'obj' and \
                    self.objs[cur[0][1][1]]['type'] in ('list', 'set') and op in ('Add', 'BitOr'):
                self.obj_method(cur[0][1], 'extend', [v], {}, s, fr, st, T)
                return
            if any(l[0] == 'coll' for c, l in cur):
                for c, l in cur:
                    if l[0] == 'coll' and self.is_counter(l[1]):
                        self.event('mutate', s, fr, st, struct=l[1], method=op + '=', cond=c,
                                   args=(v,))
            st.env[s.target.id] = self.binop(op, cur, v, s, fr, st)
            return
        if isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, fr, st)
            idx = self.ev(s.target.slice, fr, st)
            cells = [l for c, l in base if l[0] == 'obj' and dd.conj(c, st.pc) != F]
            if len(base) == 1 and cells and self.objs[cells[0][1]]['type'] == 'dict' and len(idx) == 1 and \
                    not getattr(s, 'sa_mode', None) and not getattr(s, 'sa_zero', None):
                cur = self.subscript(cells[0], idx[0][1], s, fr, st, T)
                if len(cur) == 1 and cur[0][1][0] == 'obj':
                    if self.objs[cur[0][1][1]]['type'] in ('list', 'set') and op in ('Add', 'BitOr'):
                        self.obj_method(cur[0][1], 'extend', [v], {}, s, fr, st, T)
                    elif self.objs[cur[0][1][1]]['type'] == 'counter' and op == 'Add':
                        self.obj_method(cur[0][1], 'update', [v], {}, s, fr, st, T)
                    else:
                        raise Budget('augmented entry')
                    return
            if getattr(s, 'sa_mode', None):
                self.store_item(base, idx, v, s, fr, st, s.sa_mode)
            elif op == 'Add':
                self.store_item(base, idx, v, s, fr, st, 'inc')
            else:
                self.store_item(base, idx, top('augmented'), s, fr, st, 'set')
            return
        if isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, fr, st)
            cur = self.getattr_gv(base, s.target.attr, s, fr, st)
            for c, l in cur:
                if l[0] == 'coll':
                    self.event('mutate', s, fr, st, struct=l[1], method=op + '=', cond=c, args=(v,))
            self.setattr_gv(base, s.target.attr, self.binop(op, cur, v, s, fr, st), s, fr, st)

    def st_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr, st)
                for c, l in base:
                    if l[0] == 'coll':
                        self.event('mutate', s, fr, st, struct=l[1], method='del', cond=c, args=())
                    elif l[0] == 'obj' and not isinstance(t.slice, ast.Slice) and \
                            self.objs[l[1]]['type'] in ('dict', 'counter'):
                        idx = self.ev(t.slice, fr, st)
                        if self.objs[l[1]]['type'] == 'dict':
                            e = self.cmp_gv('In', idx, one(l), s, fr, st)
                            self.do_raise('KeyError', s, fr, st, dd.conj(c, dd.neg(e)), 'del')
                        k = ('contribs', l[1])
                        ctx = st.binders[len(self.objs[l[1]]['binders']):]
                        st.heap[k] = st.heap.get(k, ()) + (
                            Contribution(ctx, dd.conj(c, st.pc), idx, None, 'rem', self.where(s, fr)),)
                    elif l[0] == 'obj':
                        k = ('contribs', l[1])
                        st.heap[k] = st.heap.get(k, ()) + (
                            Contribution((), T, top('deleted'), top('deleted'), 'esc'),)

    def st_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else cv(None)
        if st.pc != F:
            fr.returns.append((st.pc, v, st.heap))
            if fr.fn is self.top_fn and self.depth <= 1:
                self.ret_sites.append((st.pc, v, self.where(s, fr), st.binders))
        st.pc = F

    def st_Raise(self, s, fr, st):
        exc = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(e).split('.')[-1]
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.ev(a, fr, st)
        self.do_raise(exc, s, fr, st, T, 'raise')

    def st_Assert(self, s, fr, st):
        s2 = st.copy()
        n0 = len(self.raises)
        c = self.truth(self.ev(s.test, fr, s2), s.test, fr, s2)
        # an assertion about what is remembered is assumed to hold (contracts don't say what they record)
        del self.raises[n0:]
        if self.assert_raises is True or not any(dd.var_name(i)[0] == 'K' for i in dd.support(c)):
            self.do_raise('AssertionError', s, fr, st, dd.neg(c), ast.unparse(s.test)[:60])
            return

    def st_If(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), s.test, fr, st)
        pt = dd.conj(st.pc, c)
        pf = dd.conj(st.pc, dd.neg(c))
        if pf == F:
            self.block(s.body, fr, st)
            return
        if pt == F:
            self.block(s.orelse, fr, st)
            return
        s1, s2 = st.copy(pt), st.copy(pf)
        self.block(s.body, fr, s1)
        self.block(s.orelse, fr, s2)
        st.assign(self.merge(s1, s2) if s1.pc != F or s2.pc != F else s1)

    def st_With(self, s, fr, st):
        for i in s.items:
            v = self.ev(i.context_expr, fr, st)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, top('context manager'), fr, st)
        self.block(s.body, fr, st)

    def st_FunctionDef(self, s, fr, st):
        st.env[s.name] = self.make_closure(s, fr, st)

    def st_ClassDef(self, s, fr, st):
        ci = self.prog.new_cls(s, fr.module)
        for f in ci.methods.values():
            f.frame = fr
            f.snapshot = st.env
        st.env[s.name] = one(('cls', ci.cid))

    def st_Import(self, s, fr, st):
        for b, target in self.prog.import_targets(s, fr.module):
            st.env[b] = self.static_leaf(self.prog.resolve_dotted(target), b)

    st_ImportFrom = st_Import

    def st_Try(self, s, fr, st):
        before = st.copy()
        n0 = len(self.raises)
        op = F if self.plain_body(s.body) else self.opaque('exception')
        self.block(s.body, fr, st)
        caught = self.raises[n0:]
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append(None)
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names.extend(ast.unparse(t).split('.')[-1] for t in ts)
        generic = any(x in (None, 'Exception', 'BaseException') for x in names)
        kept = []
        cond = F
        for r in caught:
            if generic or r[1] in names:
                cond = dd.disj(cond, r[0])
            else:
                kept.append(r)
        self.raises[n0:] = kept
        if st.pc != F:
            self.block(s.orelse, fr, st)
        result = st
        if s.handlers:
            body_ok = st.copy(dd.conj(st.pc, dd.neg(op)))
            hpc = dd.disj(cond, dd.conj(before.pc, op))
            acc = body_ok
            assigned = self.assigned_names(s.body)
            for h in s.handlers:
                s2 = before.copy(hpc)
                for nm in assigned:
                    s2.env[nm] = top('after exception')
                if h.name:
                    s2.env[h.name] = top('exception')
                self.block(h.body, fr, s2)
                acc = self.merge(acc, s2)
            result = acc
        st.assign(result)
        if s.finalbody and st.pc != F:
            self.block(s.finalbody, fr, st)

    @staticmethod
    def plain_body(stmts):
        """Whether the exceptions of the statements are all represented (comparisons and attributes only)."""
        ok = (ast.If, ast.Return, ast.Pass, ast.Expr, ast.Assign, ast.Name, ast.Attribute, ast.Constant, ast.Compare,
              ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.expr_context, ast.cmpop, ast.boolop, ast.unaryop)
        return all(isinstance(x, ok) for s in stmts for x in ast.walk(s))

    def assigned_names(self, stmts):
        out = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for b in x.names:
                        out.add((b.asname or b.name).split('.')[0])
        return out

    def st_Break(self, s, fr, st):
        if fr.loops:
            fr.loops[-1].breaks.append(st.copy())
        st.pc = F

    def st_Continue(self, s, fr, st):
        if fr.loops:
            fr.loops[-1].continues.append(st.copy())
        st.pc = F

    def st_While(self, s, fr, st):
        if self.sim_loop(s, [((), T, None)], fr, st, s.test):
            return
        # unknown number of iterations: forget everything assigned in the body
        names = self.assigned_names(s.body)
        lc = LoopCtx()
        fr.loops.append(lc)
        for nm in names:
            st.env[nm] = top('while')
        self.ev(s.test, fr, st)
        b = self.new_binder(('unknown', self.nbid))
        s2 = st.copy(dd.conj(st.pc, self.opaque('while')))
        s2.binders = st.binders + ((b, ('unknown', b)),)
        self.block(s.body, fr, s2)
        fr.loops.pop()
        heap = self.merge_heaps(st.heap, st.pc, s2.heap, s2.pc)
        st.heap = heap
        for nm in names:
            st.env[nm] = top('while')
        self.unknowns.append(('while loop', self.where(s, fr)))
        if s.orelse:
            self.block(s.orelse, fr, st)

    def st_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        live = [(c, l) for c, l in it if dd.conj(c, st.pc) != F]
        # concrete sequences are unrolled
        if len(live) == 1:
            views = self.concrete_views(live[0][1], st)
            if views is not None:
                self.unrolled(s, views, fr, st)
                return
        after = None
        for c, l in live:
            pc = dd.conj(st.pc, c)
            s1 = st.copy(pc)
            self.loop_over(s, l, fr, s1, c)
            after = s1 if after is None else self.merge(after, s1)
        if after is None:
            st.pc = F
        else:
            st.assign(after)

    def concrete_views(self, l, st):
        if l[0] == 'tuple' and len(l[1]) <= 24:
            return list(l[1])
        if l[0] == 'c' and isinstance(l[2], (tuple, str)) and len(l[2]) <= 24:
            return [cv(x) for x in l[2]]
        if l[0] == 'obj' and self.objs[l[1]]['type'] in ('list',):
            cs = self.contents(l[1], st)
            if len(cs) <= 24 and all(not c.binders and c.cond == T and c.mode == 'add' for c in cs):
                return [c.val for c in cs]
        if l[0] == 'coll' and l[1][0] == 'gen':
            g = self.gens[l[1][1]]
            cs = g['contribs']
            if g['kind'] in ('list', 'gen') and len(cs) <= 24 and \
                    all(not c.binders and c.cond == T for c in cs) and cs:
                return [c.val for c in cs]
        if l[0] == 'coll' and l[1][0] == 'items' and l[1][1][0] == 'gen':
            g = self.gens[l[1][1][1]]
            cs = g['contribs']
            if len(cs) <= 24 and cs and all(not c.binders and c.cond == T and c.extra is not None
                                            for c in cs):
                return [one(('tuple', (c.val, c.extra))) for c in cs]
        return None

    def unrolled(self, s, views, fr, st):
        exits = []
        for v in views:
            if st.pc == F:
                break
            lc = LoopCtx()
            fr.loops.append(lc)
            self.bind(s.target, v, fr, st)
            self.block(s.body, fr, st)
            fr.loops.pop()
            exits.extend(lc.breaks)
            cur = st.copy()
            for c in lc.continues:
                cur = self.merge(cur, c)
            st.assign(cur)
        if s.orelse and st.pc != F:
            self.block(s.orelse, fr, st)
        cur = st.copy()
        for b in exits:
            cur = self.merge(cur, b)
        st.assign(cur)

    def loop_over(self, s, l, fr, st, cond):
        if id(s) not in self.sim_nodes:
            pre = st.copy()
            mark = self.mark(fr)
            self.closed_loop(s, l, fr, st, cond)
            if id(s) not in self.sim_nodes:
                return
            self.rollback(mark, fr)
            st.assign(pre)
        pre = st.copy()
        views = self.element_views(l, s.iter, fr, st, cond)
        if st.pc == F:
            return
        if l[0] == 'obj' and self.objs[l[1]]['type'] == 'iter':
            st.heap[('itpos', l[1])] = top('consumed')
        if not self.sim_loop(s, views, fr, st, None):
            self.sim_nodes.discard(id(s))
            self.sim_bad.add(id(s))
            st.assign(pre)
            self.closed_loop(s, l, fr, st, cond)

    def mark(self, fr):
        return (len(self.events), len(self.raises), len(fr.returns), len(self.ret_sites),
                len(fr.yields) if fr.yields is not None else 0, len(self.unknowns),
                {k: len(v) for k, v in self.overrides.items()})

    def rollback(self, mark, fr):
        e, r, t, q, y, u, ov = mark
        del self.events[e:], self.raises[r:], fr.returns[t:], self.ret_sites[q:], self.unknowns[u:]
        if fr.yields is not None:
            del fr.yields[y:]
        for k in list(self.overrides):
            del self.overrides[k][ov.get(k, 0):]
            if not self.overrides[k]:
                del self.overrides[k]

    def needs_sim(self, s, fr, pre, st, mark, reads, changed, breaks, loopid):
        """Does the closed form of a loop miss something (see sim_loop)?"""
        new = {}
        for k, v in st.heap.items():
            old = pre.heap.get(k)
            if old is v:
                continue
            if k[0] == 'contribs' and old is not None:
                n = 0
                while n < len(old) and n < len(v) and old[n] is v[n]:
                    n += 1
                new[k[1]] = v[n:]
            elif k[0] == 'itpos' and old is not None:
                return True
        if any(o in reads for o in new):
            return True
        if breaks and (changed or new):
            return True
        for o, cs in new.items():
            modes = {c.mode for c in cs}
            if modes & set(SEQ_MODES):
                return True
            if len(cs) > 1 and len(modes) > 1:
                return True
        for nm in changed:
            if any(l[0] == 'top' for c, l in st.env.get(nm, ())):
                return True
        if not changed:
            return False
        for e in self.events[mark[0]:]:
            if self.uses_phi(e.pc, loopid) or \
                    any(self.leaf_mentions_phi(x, loopid) for x in e.data.values() if isinstance(x, tuple)):
                return True
        for o, cs in new.items():
            for c in cs:
                if self.uses_phi(c.cond, loopid) or self.leaf_mentions_phi(c.val, loopid) or \
                        self.leaf_mentions_phi(c.extra, loopid):
                    return True
        for p, gv, h in fr.returns[mark[2]:]:
            if self.uses_phi(p, loopid) or any(
                    self.leaf_mentions_phi(l, loopid) or l == ('top', 'loop-carried') for c, l in gv):
                return True
        return any(self.uses_phi(p, loopid) for p, *_ in self.raises[mark[1]:])

    def uses_phi(self, c, loopid):
        """Does a condition depend on a loop-carried value other than by a 'not set yet' latch?"""
        for ix in dd.support(c):
            n = dd.var_name(ix)
            if n[0] == 'opaque' and ('loop-carried' in str(n[-1]) or 'phi' in str(n[-1])):
                return True
            if n[0] in ('phiset', 'phiprev'):
                continue
            if self.leaf_mentions_phi(n, loopid):
                return True
            if n[0] == 'exists' and self.uses_phi(n[3][1], loopid):
                return True
        return False

    # A loop whose iterations depend on each other is summarised as a state machine: the body is
    # interpreted once from a symbolic state (the loop-carried variables and the contents of the
    # mutated collections at the start of an iteration), which yields the guarded transition of one
    # iteration.  'trace' structs stand for the executed iterations, 'phv' keys for the state at an
    # iteration ('e', it) or after the loop ('final',).
    def sim_loop(self, s, views, fr, st, test):
        if id(s) in self.sim_bad:
            return False
        mark = self.mark(fr)
        L = len(self.loops) + 1
        rec = self.loops[('sim', L)] = {'loop': test is not None, 'outer': tuple(b for b, _ in st.binders), 'views': views,
                                        'steps': None}
        outer = tuple(('e', b) for b, _ in st.binders)
        names = self.assigned_names(s.body)
        if test is not None:
            names |= self.assigned_names([ast.Expr(test)])
        else:
            names |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        names -= self.globals_of(fr.fn) if fr.fn is not None else set()
        pre = st.copy()
        init = {}
        tags = {}
        for nm in sorted(names):
            init[nm] = tuple((c, self.freeze_state(l, pre)) for c, l in pre.env.get(nm, one(UNBOUND)))
            tags[nm] = self.gv_tags(init[nm], pre, L, nm)
        objs = {}
        badnames = set()
        for rnd in range(8):
            self.rollback(mark, fr)
            st.assign(pre.copy())
            run = self.sim_run(s, L, outer, views, init, tags, objs, fr, st, test)
            grown = False
            for k in self.phi_bad.get(L, ()):
                if k not in badnames:
                    badnames.add(k)
                    grown = True
            for k, cat in run['cats'].items():
                if self.phi_cats.get(k) != cat:
                    old = self.phi_cats.get(k)
                    self.phi_cats[k] = self.join_cats((old, cat))
                    grown = grown or self.phi_cats[k] != old
            for o in run['objs']:
                if o not in objs:
                    objs[o] = None
                    grown = True
            for k, ts in run['tags'].items():
                if k not in tags:
                    init[k] = pre.heap.get(k, self.heap_default(k, T))
                    tags[k] = self.gv_tags(init[k], pre, L, k)
                    grown = True
                for t in ts:
                    if t not in tags[k]:
                        tags[k] = tags[k] + (t,)
                        grown = True
                consts = [t for t in tags[k] if isinstance(t, tuple) and t[0] == 'c']
                if len(consts) > 6:
                    tags[k] = tuple(t for t in tags[k] if t not in consts) + ('num',)
                    grown = True
                if k in badnames and tags[k] != ('top',):
                    tags[k] = ('top',)
                    grown = True
            if not grown:
                break
        else:
            self.rollback(mark, fr)
            st.assign(pre)
            del self.loops[('sim', L)]
            return False
        rec['steps'] = run['steps']
        rec['its'] = run['its']
        rec['pc'] = pre.pc
        rec['init'] = init
        rec['tags'] = tags
        rec['objs'] = {o: pre.heap.get(('contribs', o), ()) for o in objs}
        rec['kinds'] = {o: self.objs[o]['type'] for o in objs}
        pc0 = pre.pc
        # results of the loop
        exit_cond = F
        for k, p, i, what in run['exits']:
            b2 = run['binders'][k]
            own = b2[len(pre.binders):]
            if what == 'ret':
                q, gv, h = fr.returns[i]
                p2 = self.mk_exists(own, q)
                h2 = dict(h)
                for o in objs:
                    h2[('contribs', o)] = self.lift_contribs(o, h.get(('contribs', o), ()), b2, q)
                fr.returns[i] = (dd.conj(pc0, p2), self.close_gv(gv, q, own, L), h2)
            elif what == 'site':
                q, gv, w, bb = self.ret_sites[i]
                p2 = self.mk_exists(own, q)
                self.ret_sites[i] = (dd.conj(pc0, p2), self.close_gv(gv, q, own, L), w, pre.binders)
                continue
            else:
                q, exc, w, bb, d = self.raises[i]
                p2 = self.mk_exists(own, q)
                self.raises[i] = (dd.conj(pc0, p2), exc, w, pre.binders, d)
            exit_cond = dd.disj(exit_cond, p2)
        heap = dict(run['heap'])
        for o in objs:
            heap[('contribs', o)] = self.final_contribs(o, run['contribs'][o], L, outer, pre)
        st.heap = heap
        st.env = dict(pre.env)
        st.binders = pre.binders
        fin = ('final',)
        for k in tags:
            v = self.phi_gv(L, outer, fin, k, tags[k])
            if isinstance(k, tuple):
                st.heap[k] = v
            else:
                st.env[k] = v
        st.pc = dd.conj(pc0, dd.neg(exit_cond))
        brk = F
        for k, p in run['breaks']:
            brk = dd.disj(brk, self.mk_exists(run['binders'][k][len(pre.binders):], p))
        if s.orelse and st.pc != F:
            c_else = dd.conj(st.pc, dd.neg(brk))
            if c_else == F:
                pass
            elif brk == F:
                self.block(s.orelse, fr, st)
            else:
                s2 = st.copy(c_else)
                self.block(s.orelse, fr, s2)
                s1 = st.copy(dd.conj(st.pc, brk))
                st.assign(self.merge(s1, s2))
        return True

    def sim_run(self, s, L, outer, views, init, tags, objs, fr, st, test):
        pre = st.copy()
        out = {'steps': [], 'its': [], 'tags': {}, 'objs': set(), 'cats': {}, 'exits': [], 'breaks': [],
               'heap': dict(pre.heap), 'contribs': {o: [] for o in objs}, 'binders': []}
        for k, (b, c, v) in enumerate(views):
            it = self.new_binder(('trace', L, outer, k))
            e_it = ('e', it)
            b2 = ((it, ('trace', L, outer, k)),) + tuple(
                (bid, ('itsel', L, outer, e_it, k, pos)) for pos, (bid, _) in enumerate(b))
            s1 = pre.copy(dd.conj(pre.pc, c))
            s1.binders = pre.binders + b2
            out['its'].append(it)
            out['binders'].append(s1.binders)
            steps = []
            out['steps'].append(steps)
            if s1.pc == F:
                continue
            saved = {}
            for key, ts in tags.items():
                g = self.phi_gv(L, outer, e_it, key, ts)
                if isinstance(key, tuple):
                    s1.heap[key] = g
                else:
                    s1.env[key] = g
            for o in objs:
                saved[o] = self.objs[o]['binders']
                self.objs[o]['binders'] = s1.binders
                s1.heap[('contribs', o)] = (Contribution(
                    (), T, one(('phic', ('phv', L, outer, e_it, ('obj', o)))), None, 'phi'),)
            start = dict(s1.heap)
            r0, x0, q0 = len(fr.returns), len(self.raises), len(self.ret_sites)
            lc = LoopCtx()
            fr.loops.append(lc)
            ends = []
            if test is None:
                self.bind(s.target, v, fr, s1)
            else:
                t = self.truth(self.ev(test, fr, s1), test, fr, s1)
                done = s1.copy(dd.conj(s1.pc, dd.neg(t)))
                if done.pc != F:
                    ends.append(('done', done))
                s1.pc = dd.conj(s1.pc, t)
            if s1.pc != F:
                self.block(s.body, fr, s1)
            fr.loops.pop()
            if s1.pc != F:
                ends.append(('next', s1))
            ends += [('next', x) for x in lc.continues] + [('break', x) for x in lc.breaks]
            for i in range(r0, len(fr.returns)):
                out['exits'].append((k, fr.returns[i][0], i, 'ret'))
                steps.append(('exit', fr.returns[i][0], {}, {}))
            for i in range(q0, len(self.ret_sites)):
                out['exits'].append((k, self.ret_sites[i][0], i, 'site'))
            for i in range(x0, len(self.raises)):
                p, exc, w, bb, d = self.raises[i]
                out['exits'].append((k, p, i, 'raise'))
                steps.append(('exit', self.mk_exists(bb[len(s1.binders):], p), {}, {}))
            for kind, e in ends:
                upd, con = {}, {}
                for key in tags:
                    g = e.heap.get(key) if isinstance(key, tuple) else e.env.get(key, one(UNBOUND))
                    if g is None:
                        g = one(('top', 'lost'))
                    live = tuple((c2, self.freeze_state(l2, e)) for c2, l2 in g
                                 if dd.conj(c2, e.pc) != F)
                    upd[key] = live
                    self.add_tags(out, key, self.gv_tags(live, e, L, key))
                    for c2, l2 in live:
                        if l2[0] == 'coll' and l2[1][0] in ('gen', 'seq'):
                            self.note_cats(out, L, key, self.gens[l2[1][1]]['contribs'])
                        elif l2[0] == 'coll':
                            self.note_cat(out, L, key, 'mo', 'mo')
                for key, g in e.heap.items():
                    old = start.get(key)
                    if old is g:
                        continue
                    if key[0] == 'contribs' and ('contribs', key[1]) in pre.heap:
                        if key[1] in objs:
                            con[key[1]] = g
                            self.note_cats(out, L, ('obj', key[1]), g)
                        else:
                            out['objs'].add(key[1])
                    elif key[0] == 'itpos' and key not in tags and key in pre.heap:
                        self.add_tags(out, key, ())
                for o in objs:
                    if o not in con:
                        con[o] = start[('contribs', o)]
                steps.append((kind, e.pc, upd, con))
                if kind == 'break':
                    out['breaks'].append((k, e.pc))
                h2 = {a: x for a, x in e.heap.items() if not (a[0] == 'contribs' and a[1] in objs)}
                out['heap'] = self.merge_loop_heap(out['heap'], h2)
            for o in objs:
                out['contribs'][o].append((s1.binders, [st2[3][o] for st2 in steps if st2[0] != 'exit'
                                                        and o in st2[3]]))
                self.objs[o]['binders'] = saved[o]
                self.note_cats(out, L, ('obj', o), pre.heap.get(('contribs', o), ()))
        return out

    def add_tags(self, out, key, ts):
        cur = out['tags'].setdefault(key, ())
        out['tags'][key] = cur + tuple(t for t in ts if t not in cur)

    def note_cats(self, out, L, key, contribs):
        self.note_cat(out, L, key, self.contrib_cat(contribs), self.contrib_cat(contribs, True))

    def note_cat(self, out, L, key, a, b):
        for extra, cat in ((False, a), (True, b)):
            if cat is not None:
                k = (L, key, extra)
                old = out['cats'].get(k)
                out['cats'][k] = self.join_cats((old, cat))

    def freeze_state(self, l, st):
        if l[0] == 'obj' and self.objs[l[1]]['type'] in ('list', 'set', 'dict', 'counter'):
            return ('coll', self.snapshot(l[1], st))
        return l

    def leaf_tags(self, l, st, L, key):
        t = l[0]
        if l == UNBOUND:
            return ('unbound',)
        if t == 'mo':
            ks = [k for c, k in self.kinds_of(l[1]) if dd.conj(c, st.pc) != F]
            if 'Undef' in ks and l[1][0] != 'phv':
                return ('mo', 'undef')
            return ('mo',)
        if t == 'undef':
            return ('undef',)
        if t == 'c':
            if l[2] is None or isinstance(l[2], (bool, str)):
                return (l,)
            return ('num',)
        if t == 'term':
            return ('num',)
        if t == 'coll' or t == 'obj' and self.objs[l[1]]['type'] in ('list', 'set', 'dict', 'counter'):
            s = l[1] if t == 'coll' else None
            kind = self.coll_kind(s) if s else self.objs[l[1]]['type']
            if s and kind not in ('list', 'set', 'dict', 'counter', 'gen'):
                kind = 'counter' if self.is_counter(s) else 'list' if s[0] in ('concat', 'elements') else 'set'
            return (('coll', kind),)
        if t == 'tuple':
            cat = self.leaf_cat(l)
            if 'mixed' not in repr(cat) and 'None' not in repr(cat):
                return (('tuple', cat),)
            return ('top',)
        if t in ('fn', 'cls', 'ext', 'mod', 'partial', 'ufn', 'closure'):
            return (('leaf', l),)
        return ('top',)

    def gv_tags(self, gv, st, L, key):
        out = ()
        for c, l in gv:
            if dd.conj(c, st.pc) == F:
                continue
            for t in self.leaf_tags(l, st, L, key):
                if t not in out:
                    out += (t,)
        return out

    def phi_gv(self, L, outer, it, key, tags):
        name = ('phv', L, outer, it, key)
        if len(tags) > 1:
            tags = tuple(tags)
        out = []
        for t in tags:
            c = dd.lit(('phitag', L, outer, it, key, tags), t, tags) if len(tags) > 1 else T
            out.append((c, self.tag_leaf(t, name, L, key)))
        return tuple(out) or top('loop-carried')

    def tag_leaf(self, t, name, L, key):
        if t == 'mo':
            return ('mo', name)
        if t == 'undef':
            return ('undef', 'op')
        if t == 'num':
            return ('term', ('phiterm', name))
        if t == 'unbound':
            return UNBOUND
        if t[0] == 'c':
            return t
        if t[0] == 'leaf':
            return t[1]
        if t[0] == 'coll':
            return ('coll', self.new_gen(t[1], [Contribution((), T, one(('phic', name)), None, 'phi')]))
        if t[0] == 'tuple':
            return self.cat_leaf(t[1], name)
        return ('top', 'loop-carried {}'.format(key))

    def lift_contribs(self, o, cs, binders, cond):
        """Contents of an object at an exit inside an iteration, seen from outside of the loop."""
        base = self.objs[o]['binders']
        ctx = binders[len(base):]
        return tuple(Contribution(ctx + c.binders, dd.conj(c.cond, cond), c.val, c.extra, c.mode, c.where)
                     for c in cs)

    def final_contribs(self, o, runs, L, outer, pre):
        old = pre.heap.get(('contribs', o), ())
        base = self.objs[o]['binders']
        new = []
        typ = self.objs[o]['type']
        modes = set()
        n = 0
        for binders, variants in runs:
            seen = []
            for cs in variants:
                for c in cs:
                    if c.mode != 'phi' and not any(c is x for x in seen):
                        seen.append(c)
            for c in seen:
                n += 1
                modes.add(c.mode)
                new.append(Contribution(binders[len(base):] + c.binders, c.cond, c.val, c.extra, c.mode,
                                        c.where))
        simple = modes <= {'add'} and typ in ('set', 'counter', 'list') or modes <= {'inc', 'add'} and \
            typ == 'counter' or modes <= {'set'} and n == 1
        if typ == 'list' and n > 1:
            simple = False
        if simple and not any(c.mode in SEQ_MODES for c in old):
            return tuple(old) + tuple(new)
        # contents after the loop, as a function of the outer iterations only
        ctx = pre.binders[len(base):]
        if ctx:
            return tuple(old) + tuple(Contribution((), T, top('nested state'), top('nested'), 'esc')
                                      for _ in (0,))
        return (Contribution((), T, one(('phic', ('phv', L, outer, ('final',), ('obj', o)))), None, 'phi'),)

    def closed_loop(self, s, l, fr, st, cond):
        views = self.element_views(l, s.iter, fr, st, cond)
        if st.pc == F:
            return
        if l[0] == 'obj' and self.objs[l[1]]['type'] == 'iter':
            pass
        names = self.assigned_names(s.body) | self.assigned_names([ast.Assign([s.target],
                                                                  ast.Constant(0))])
        tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        carried = [nm for nm in names if nm in st.env and nm not in tnames]
        # phase 1: find loop-carried variables that really change
        loopid = len(self.loops) + 1
        self.loops[('loop', loopid)] = s
        pre = st.copy()
        mark = self.mark(fr)
        rd0 = len(self.reads)
        ev0, ra0, rs0 = len(self.events), len(self.raises), len(self.ret_sites)
        rt0 = len(fr.returns)
        y0 = len(fr.yields) if fr.yields is not None else 0
        if carried:
            changed = set()
            for b, c, v in views:
                s1 = st.copy(dd.conj(st.pc, c))
                if s1.pc == F:
                    continue
                s1.binders = st.binders + b
                for nm in carried:
                    s1.env[nm] = one(('phi', loopid, nm))
                ends = self.run_body(s, v, fr, s1)
                for e in ends:
                    for nm in carried:
                        g = e.env.get(nm)
                        if g is None or any(l2 != ('phi', loopid, nm) and dd.conj(c2, e.pc) != F
                                            for c2, l2 in g):
                            changed.add(nm)
            del self.events[ev0:], self.raises[ra0:], fr.returns[rt0:], self.ret_sites[rs0:]
            if fr.yields is not None:
                del fr.yields[y0:]
        else:
            changed = set()
        # phase 2
        exit_cond = F            # condition (binder-free) that the loop was left early
        break_states = []
        assigns = {nm: [] for nm in changed}
        heap_after = dict(st.heap)
        pc0 = st.pc
        for b, c, v in views:
            s1 = pre.copy(dd.conj(pc0, c))
            if s1.pc == F:
                continue
            s1.heap = dict(heap_after)
            s1.binders = st.binders + b
            for nm in changed:
                s1.env[nm] = one(('phi', loopid, nm))
            base = s1.pc
            r0, x0, q0 = len(fr.returns), len(self.raises), len(self.ret_sites)
            ends = self.run_body(s, v, fr, s1, want_breaks=True)
            normal, breaks = ends
            # early exits
            ret_pc = F
            for i in range(r0, len(fr.returns)):
                p, gv, h = fr.returns[i]
                p2 = self.close_cond(p, b, pc0, loopid, changed, assigns)
                gv2 = self.close_gv(gv, p, b, loopid)
                fr.returns[i] = (dd.conj(pc0, p2), gv2, h)
                ret_pc = dd.disj(ret_pc, p2)
            for i in range(q0, len(self.ret_sites)):
                p, gv, w, bb = self.ret_sites[i]
                p2 = self.close_cond(p, b, pc0, loopid, changed, assigns)
                self.ret_sites[i] = (dd.conj(pc0, p2), self.close_gv(gv, p, b, loopid), w,
                                     st.binders)
            for i in range(x0, len(self.raises)):
                p, exc, w, bb, d = self.raises[i]
                p2 = self.close_cond(p, b, pc0, loopid, changed, assigns)
                self.raises[i] = (dd.conj(pc0, p2), exc, w, st.binders, d)
                ret_pc = dd.disj(ret_pc, p2)
            exit_cond = dd.disj(exit_cond, ret_pc)
            for e in normal + breaks:
                for nm in changed:
                    g = e.env.get(nm, one(UNBOUND))
                    for c2, l2 in g:
                        cc = dd.conj(c2, e.pc)
                        if cc != F:
                            assigns[nm].append((b, cc, l2))
                heap_after = self.merge_loop_heap(heap_after, e.heap)
            for e in breaks:
                break_states.append((b, e))
        st.heap = heap_after
        reads = set(self.reads[rd0:])
        out_pc = dd.conj(pc0, dd.neg(exit_cond))
        # variable values after the loop
        for nm in names:
            if nm in changed:
                st.env[nm] = self.loop_value(nm, assigns[nm], pre.env.get(nm), loopid, pc0)
            elif nm in tnames or nm not in pre.env:
                st.env[nm] = top('loop variable ' + nm)
        st.pc = out_pc
        if id(s) not in self.sim_bad and self.needs_sim(
                s, fr, pre, st, mark, reads, changed, break_states, loopid):
            self.sim_nodes.add(id(s))
            return
        brk = F
        for b, e in break_states:
            brk = dd.disj(brk, self.close_cond(e.pc, b, pc0, loopid, changed, assigns))
        if s.orelse and st.pc != F:
            c_else = dd.conj(st.pc, dd.neg(brk))
            if c_else == F:
                pass
            elif brk == F:
                self.block(s.orelse, fr, st)
            else:
                s2 = st.copy(c_else)
                self.block(s.orelse, fr, s2)
                s1 = st.copy(dd.conj(st.pc, brk))
                st.assign(self.merge(s1, s2))

    def merge_loop_heap(self, h, h2):
        if h is h2:
            return h
        out = dict(h)
        for k, v in h2.items():
            a = h.get(k)
            if a is v:
                continue
            if k[0] in ('contribs', 'over'):
                out[k] = v if a is None else merge_contribs(a, v)
            elif a is None:
                out[k] = v
            elif a != v:
                out[k] = v if k[0] in ('flag',) else coalesce(tuple(a) + tuple(v))
        return out

    def run_body(self, s, v, fr, st, want_breaks=False):
        lc = LoopCtx()
        fr.loops.append(lc)
        self.bind(s.target, v, fr, st)
        self.block(s.body, fr, st)
        fr.loops.pop()
        normal = ([st] if st.pc != F else []) + lc.continues
        if want_breaks:
            return normal, lc.breaks
        return normal + lc.breaks

    def mentions(self, x, bids):
        """Does a nested structure mention one of the binder ids?"""
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('e', 'elem', 'elemcoll', 'rawel') and x[1] in bids:
                return True
            if len(x) == 2 and x[0] == 'new':
                meta = self.news[x[1]]
                return any(b in bids for b, _ in meta['binders'])
            if len(x) == 2 and x[0] == 'obj' and isinstance(x[1], int):
                return any(b in bids for b, _ in self.objs[x[1]]['binders'])
            if len(x) == 2 and x[0] in ('gen', 'seq') and isinstance(x[1], int):
                for c in self.gens[x[1]]['contribs']:
                    if self.cond_mentions(c.cond, bids) or self.mentions(c.val, bids) or \
                            any(self.mentions(bs, bids) for _, bs in c.binders):
                        return True
                return False
            if len(x) == 2 and x[0] == 'cond' and isinstance(x[1], int):
                return self.cond_mentions(x[1], bids)
            return any(self.mentions(y, bids) for y in x)
        return False

    def cond_mentions(self, c, bids):
        return any(self.mentions(dd.var_name(ix), bids) for ix in dd.support(c))

    def close_cond(self, cond, binders, pc0, loopid, changed, assigns):
        """exists binders. cond  (with the loop-carried 'already set' facts resolved)."""
        c = dd.constrain(cond, pc0) if pc0 not in (T, F) else cond
        phis = [ix for ix in dd.support(c)
                if dd.var_name(ix)[0] == 'phiset' and dd.var_name(ix)[1] == loopid]
        for ix in phis:
            nm = dd.var_name(ix)[2]
            # set before this iteration <=> an earlier element satisfied the assignment's condition
            prev = F
            for b2, c2, l2 in assigns.get(nm, []):
                pass
            c = dd.substitute(c, {ix: [dd.neg(self.phi_prev(loopid, nm)),
                                       self.phi_prev(loopid, nm)]})
        return self.mk_exists(binders, c)

    def phi_prev(self, loopid, nm):
        return dd.lit(('phiprev', loopid, nm))

    def close_gv(self, gv, p, binders, loopid):
        bids = {b for b, _ in binders}
        out = []
        for c, l in gv:
            cc = dd.conj(c, p)
            if cc == F:
                continue
            if self.mentions(l, bids):
                ch = ('choose', tuple(b for b, _ in binders), tuple(x for _, x in binders), ('cond', cc), l)
                l = ('mo', ch) if l[0] == 'mo' else ('term', ch) if l[0] == 'term' else \
                    ('coll', ch) if l[0] == 'coll' else ('top', 'chosen in loop')
            elif l[0] in ('phi',):
                l = ('top', 'loop-carried')
            c2 = self.mk_exists(binders, cc) if self.cond_mentions(cc, bids) or len(gv) > 1 else T
            out.append((c2 if len(gv) > 1 else T, l))
        return coalesce(out)

    def loop_value(self, nm, assigns, init, loopid, pc0):
        """Value of a changed loop-carried variable after the loop."""
        phi = ('phi', loopid, nm)
        eff = [(b, dd.constrain(c, pc0) if pc0 not in (T, F) else c, l) for b, c, l in assigns
               if l != phi]
        if not eff:
            return init
        if init is None:
            init = one(UNBOUND)
        consts = {l for _, _, l in eff}
        if len(consts) == 1:
            l = next(iter(consts))
            bids = {b for bb, _, _ in eff for b, _ in bb}
            phi_in_cond = any(self.mentions_phi(c, loopid) for _, c, _ in eff)
            if not self.mentions(l, bids) and not self.leaf_mentions_phi(l, loopid) \
                    and not phi_in_cond:
                hit = F
                for b, c, _ in eff:
                    hit = dd.disj(hit, self.mk_exists(b, c))
                return coalesce(restrict_gv(init, dd.neg(hit)) + restrict_gv(one(l), hit))
        # fold with a commutative, associative public operation
        f = self.fold_shape(nm, eff, init, loopid)
        if f is not None:
            return f
        # latch on None: "result = None ... result = x" guarded
        if init == cv(None):
            if all(not self.leaf_mentions_phi(l, loopid) and l[0] == 'mo' for _, _, l in eff):
                simple = []
                ok = True
                for b, c, l in eff:
                    ph = [ix for ix in dd.support(c) if dd.var_name(ix)[0] == 'phiset'
                          and dd.var_name(ix)[1] == loopid]
                    # after the loop no early exit happened, so drop "not set yet"
                    c1 = dd.restrict(c, {ix: False for ix in ph})
                    simple.append((b, c1, l))
                if ok and len(simple) == 1:
                    b, c1, l = simple[0]
                    hit = self.mk_exists(b, c1)
                    self.loops[('phidef', loopid, nm)] = (b, c1)
                    key = ('choose', tuple(x for x, _ in b), tuple(x for _, x in b), ('cond', c1), l)
                    return ((hit, ('mo', key)), (dd.neg(hit), NONE))
        return top('loop-carried ' + nm)

    def mentions_phi(self, c, loopid):
        return any(dd.var_name(ix)[0] in ('phiset', 'opaque') for ix in dd.support(c)) or \
            any(self.leaf_mentions_phi(dd.var_name(ix), loopid) for ix in dd.support(c))

    def leaf_mentions_phi(self, x, loopid):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'phi' and x[1] == loopid:
                return True
            if len(x) == 2 and x[0] == 'new':
                return any(self.leaf_mentions_phi(a, loopid) for a in self.news[x[1]]['args'])
            if len(x) == 2 and x[0] == 'gen' and isinstance(x[1], int):
                return any(self.leaf_mentions_phi(c.val, loopid) for c in self.gens[x[1]]['contribs'])
            return any(self.leaf_mentions_phi(y, loopid) for y in x)
        return False

    FOLDS = {'algebras.sets.Algebra.union': '|', 'algebras.sets.Algebra.intersect': '&',
             'algebras.multisets.Algebra.union': 'max', 'algebras.multisets.Algebra.intersect': 'min',
             'algebras.multisets.Algebra.add': 'sum'}

    def fold_shape(self, nm, eff, init, loopid):
        phi = ('phi', loopid, nm)
        terms = []
        op = None
        for b, c, l in eff:
            if l == ('undef', 'op'):
                # the fold is evaluated through the contract, which propagates undefined
                continue
            if l[0] != 'mo' or l[1][0] not in ('op', 'new'):
                return None
            if l[1][0] == 'op' and l[1][1] in self.FOLDS and len(l[1]) == 4:
                a1, a2 = l[1][2], l[1][3]
                if a1 == phi:
                    t = a2
                elif a2 == phi:
                    t = a1
                else:
                    return None
                if self.leaf_mentions_phi(t, loopid):
                    return None
                o = self.FOLDS[l[1][1]]
                if op not in (None, o):
                    return None
                op = o
                bids = {x for x, _ in b}
                # conditions that only say "the step is not undefined" are dropped: the operands
                # are members whenever the accumulator and the element are
                c2 = self.drop_undef(c, l[1])
                terms.append((tuple(x for x, _ in b), tuple(x for _, x in b), ('cond', c2), t))
            else:
                return None
        out = []
        for c, l in init:
            if l[0] not in ('mo',):
                if l[0] == 'undef':
                    out.append((c, l))
                    continue
                return None
            out.append((c, ('mo', ('fold', op, l, tuple(terms)))))
        return coalesce(out)

    def drop_undef(self, c, opkey):
        ix = [i for i in dd.support(c) if dd.var_name(i) == ('opundef', opkey)]
        return dd.restrict(c, {i: False for i in ix}) if ix else c

    # ---------------------------------------------------------------------------------------
    def run(self, fi, env, heap=None, pc=T):
        """Analyse one function with the given parameter values (and what earlier calls stored);
        returns a Result."""
        self.top_fn = fi
        self.events = []
        self.raises = []
        self.ret_sites = []
        self.unknowns = []
        self.overrides = {}
        self.depth = 0
        self.steps = 0
        self.stack = []
        st = St(pc, {}, dict(heap or {}), ())
        res = Result()
        fr = Frame(None, fi.module, st)
        n = fi.node
        res.budget = False
        try:
            v = self.inline(fi, [], {}, n, fr, st, env=env)
        except Budget:
            res.budget = True
            v = top('budget')
        res.value = v
        res.pc = st.pc
        res.heap = st.heap
        res.returns = list(self.ret_sites)
        res.events = list(self.events)
        res.raises = list(self.raises)
        res.unknowns = list(self.unknowns)
        res.overrides = dict(self.overrides)
        return res
