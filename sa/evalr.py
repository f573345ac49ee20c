"""Evaluation of extracted summaries over the mathematical model (model.py).

The interpreter (interp.py) turns the *source* of a function into closed formulas over abstract facts.
This module gives those facts their meaning for concrete mathematical operands, so that a summary can
be compared with the denotation of the operation.  No repository code is involved at this stage.
Anything the interpreter did not understand evaluates to `Unk`, which can never cause an alarm.
"""
from . import dd
from . import model as m
from .model import U

sys_limit = 4000


LARGE = True        # thresholds that no witness reaches are crossed by hypothetical larger operands of the same form


class Unk(Exception):
    pass


class Need(Exception):
    """A free fact (flag knowledge 'K' or an uninterpreted fact) has to be decided."""

    def __init__(self, name):
        self.name = name


class Raised(Exception):
    pass


def order(xs, rev):
    return sorted(xs, key=repr, reverse=rev)


class NoData(Unk):
    """The data of something that has none is asked for: a run that gets here raises."""


class Trace:
    """Executed iterations of a loop."""

    def __init__(self):
        self.states, self.views, self.elems, self.pos = [], [], [], []
        self.final, self.done, self.end = None, False, None


class Ev:
    def __init__(self, interp, env, assign=None, rev=False, overrides=None, kdefault=None):
        self.ip = interp
        self.env = env            # parameter name -> model value
        self.assign = assign if assign is not None else {}
        self.rev = rev
        self.kdefault = kdefault
        self.memo = {}
        self.steps = 0
        self.overrides = overrides or {}
        self.busy = {}
        self.traces = {}

    # -- conditions ---------------------------------------------------------------------------
    def cond(self, c, be):
        def look(ix):
            return self.var(dd.var_name(ix), be)
        self.steps += 1
        if self.steps > 20000:
            raise Unk('evaluation budget')
        while c not in (dd.TRUE, dd.FALSE):
            ix, kids = dd.node(c)
            try:
                v = look(ix)
                if v not in dd.var_domain(ix):
                    raise Unk('fact outside its domain')
            except Unk as e:
                # the fact has no meaning here: irrelevant when every outcome agrees
                rs = {self.cond(k, be) for k in kids}
                if len(rs) == 1:
                    return rs.pop() == 1
                raise
            c = kids[dd.var_domain(ix).index(v)]
        return c == dd.TRUE

    def free(self, name):
        v = self.assign.get(name)
        if v is None:
            if name[0] == 'K' and self.kdefault is not None:
                return self.kdefault
            raise Need(name)
        return v

    def bind_key(self, x, be):
        """Make a key that is independent of binder identities (values substituted)."""
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == 'e' and x[1] in be:
            return ('val', be[x[1]])
        if len(x) == 2 and x[0] == 'new':
            return ('val', self.key(x, be))
        return tuple(self.bind_key(y, be) for y in x)

    def var(self, n, be):
        t = n[0]
        if t == 'K':
            k = n[1]
            if k[0] == 'p':
                name = n
            else:
                try:
                    name = ('K', ('val', self.key(k, be)), n[2])
                except Unk:
                    name = ('K', ('?', repr(self.bind_key(k, be))), n[2])
            return self.free(name)
        if t == 'T':
            v = self.key(n[1], be)
            if v == U:
                raise Unk('flag of undefined')
            return m.truth(n[2], v)
        if t == 'kind':
            return m.kind(self.key(n[1], be))
        if t == 'empty':
            v = self.key(n[1], be)
            if v[0] not in 'sm':
                return False
            return not v[1]
        if t == 'cempty':
            return not self.coll(n[1], be)
        if t == 'eq':
            a, b = self.key(n[1], be), self.key(n[2], be)
            if a == U or b == U:
                raise Unk('eq undefined')
            return a == b
        if t == 'ident':
            a, b = self.key(n[1], be), self.key(n[2], be)
            if a != b or a == U:
                return a == b
            return self.same_object(n[1], n[2], be) or self.free(('I', self.bind_key(n[1], be), self.bind_key(n[2], be)))
        if t == 'colleq':
            return self.as_plain(n[1], be) == self.as_plain(n[2], be)
        if t == 'in':
            v = self.term(n[1], be)
            return v in self.coll(n[2], be)
        if t == 'subset':
            a, b = self.coll(n[1], be), self.coll(n[2], be)
            return set(a) <= set(b)
        if t == 'cmp':
            a, b = self.term(n[2], be), self.term(n[3], be)
            if n[1] == '<=' and isinstance(a, tuple) and isinstance(b, tuple) and \
                    a and b and a[0] in ('a', 'c', 's', 'm') and b[0] in ('a', 'c', 's', 'm'):
                return m.mo_order(a) <= m.mo_order(b)
            try:
                small = {'==': a == b, '<=': n[1] != '<=' or a <= b}[n[1]]
            except TypeError:
                raise Unk('cmp')
            if n[1] == '<=' and LARGE:
                for t, k, v, c, pos in ((n[2], n[3], a, b, False), (n[3], n[2], b, a, True)):
                    if self.sizes(t) and self.scaled(k, c) and 2 <= v < c:
                        # larger than all witnesses: what holds for large operands may happen for these, too
                        return self.free(('B', self.contents_of(t, be), self.contents_of(k, be))) is pos
            return small
        if t == 'unordered':
            a, b = self.term(n[1], be), self.term(n[2], be)
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unk('order')
            try:
                return (a < b) is NotImplemented
            except TypeError:
                return True
        if t == 'true':
            return bool(self.term(n[1], be))
        if t == 'exists':
            return self.exists(n[1], n[2], n[3][1], be)
        if t == 'opundef':
            return self.key(n[1], be) == U
        if t == 'optrue':
            v = self.key(n[1], be)
            if v is True or v is False:
                return v
            raise Unk('truth of op')
        if t == 'gssub':
            return self.gssub(self.key(n[1], be), n[2])
        if t == 'phitag':
            return self.state(('phv',) + n[1:5], be, 'tag')
        if t == 'phiset' or t == 'phiprev':
            return self.phi(n, be)
        if t in ('isundef',):
            return self.term(n[1], be) == U
        if t == 'isnone':
            return False
        if t == 'isinst':
            py = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'tuple': tuple}
            nm = n[2][1].split('.')[-1] if n[2][0] == 'ext' else None
            if nm in py or n[2][0] == 'cls':
                v = self.term(n[1], be)
                if not isinstance(v, tuple) and v != U:
                    return isinstance(v, py[nm]) if nm in py else False
            std = {'Iterable': True, 'Sized': True, 'Container': True, 'Collection': True, 'Sequence': True, 'dict': False,
                   'Counter': False, 'list': False, 'set': False, 'frozenset': False, 'OrderedDict': False,
                   'defaultdict': False, 'Mapping': False, 'MutableMapping': False, 'Set': False}
            if nm in std:
                v = self.term(n[1], be)
                if not isinstance(v, tuple) and v != U:
                    return std[nm] and isinstance(v, (str, bytes))
            if n[2][0] == 'term' and n[2][1][0] == 'typeof':
                v, w = self.term(n[1], be), self.term(n[2][1][1], be)
                if not isinstance(v, tuple) and not isinstance(w, tuple) and U not in (v, w):
                    return isinstance(v, type(w))
            return self.free(('opaque', n, ()))
        if t == 'opaque':
            return self.free(('opaque', n[1], tuple(sorted((k, v) for k, v in be.items()
                                                            if isinstance(k, int))) if False else ()))
        raise Unk('variable ' + str(t))

    def sizes(self, t):
        """Whether a term is a number of elements, or a sum or product of such."""
        return t[0] in ('card', 'len') or t[0] == 'bin' and t[1] in ('Add', 'Mult') and self.sizes(t[2]) and self.sizes(t[3])

    def scaled(self, t, v):
        """A bound on sizes that no witness reaches: a number, or a multiple of another size."""
        if t[0] == 'k':
            return type(v) is int and v >= 4
        return t[0] == 'bin' and t[1] == 'Mult' and any(x[0] == 'k' and isinstance(x[2], int) and x[2] >= 2 and self.sizes(y)
                                                        for x, y in ((t[2], t[3]), (t[3], t[2])))

    def contents_of(self, t, be):
        if t[0] == 'k':
            return t[2]
        if t[0] == 'bin':
            return t[1], self.contents_of(t[2], be), self.contents_of(t[3], be)
        return tuple(sorted(map(repr, self.coll(t[1], be))))

    def same_object(self, x, y, be):
        """Two equal parts of the operands are one object in every heap."""
        while True:
            if x == y:
                return True
            if x[0] != y[0] or x[0] == 'p':
                return False
            if x[0] == 'e':
                if self.key(x, be) != self.key(y, be):
                    return False
                x, y = self.ip.binder_struct[x[1]], self.ip.binder_struct[y[1]]
            x, y = x[1], y[1]

    def phi(self, n, be):
        d = be.get(('phi', n[1], n[2]))
        if d is not None:
            return d
        return self.free(('opaque', n, ()))

    def gssub(self, v, st):
        s = self.struct_type(st)
        if v == U:
            raise Unk('ground set of undefined')
        return m.gs_typed(v, s)

    def struct_type(self, st):
        """Model type of a ('struct', class, *leaves) term."""
        if st[0] != 'struct':
            raise Unk('structure term')
        sub = [self.struct_type(x[1]) if x[0] == 'term' else None for x in st[2:]]
        if None in sub:
            raise Unk('structure argument')
        nm = st[1]
        if nm == 'GenesisSetM':
            return ('M',)
        if nm == 'GenesisSetA':
            return ('A',)
        if nm == 'GenesisSetN':
            return ('N',)
        if nm == 'PowerSet' and len(sub) == 1:
            return ('P', sub[0])
        if nm == 'CartesianProduct' and len(sub) == 2:
            return ('x', sub[0], sub[1])
        if nm == 'Structure' and not sub:
            return ('0',)
        raise Unk('structure ' + nm)

    def exists(self, bids, structs, c, be):
        if not bids:
            return self.cond(c, be)
        pend = None

        def rec(i, be):
            nonlocal pend
            if i == len(bids):
                try:
                    return self.cond(c, be)
                except Need as e:
                    if pend is None:
                        pend = e
                    return False
            for x in set(self.coll(structs[i], be)):
                b2 = dict(be)
                b2[bids[i]] = x
                if rec(i + 1, b2):
                    return True
            return False
        r = rec(0, dict(be))
        if not r and pend is not None:
            raise pend
        return r

    def enum(self, binders, c, be):
        """Binder assignments under which the condition holds."""
        try:
            bs = self.assignments(binders, be)
        except Unk:
            if self.cond(c, be):
                raise
            return
        for b2 in bs:
            if self.cond(c, b2):
                yield b2

    def assignments(self, binders, be):
        """Extensions of be for [(bid, struct)]."""
        out = [be]
        for bid, s in binders:
            nxt = []
            for e in out:
                for i, x in enumerate(self.coll(s, e)):
                    e2 = dict(e)
                    e2[bid] = x
                    if s[0] == 'itsel':
                        tr = self.trace(s[1], s[2], e)
                        i = tr.pos[self.index(tr, s[3], e)][s[5]]
                    e2['pos', bid] = i
                    nxt.append(e2)
            out = nxt
        return out

    # -- values -------------------------------------------------------------------------------
    def gv(self, gv, be):
        """Leaf value of a guarded value."""
        for c, l in gv:
            if self.cond(c, be):
                return self.leaf(l, be)
        raise Unk('no guard holds')

    def gv_leaf(self, gv, be):
        for c, l in gv:
            if self.cond(c, be):
                return l
        raise Unk('no guard holds')

    def leaf(self, l, be):
        t = l[0]
        if t == 'undef':
            return U
        if t == 'c':
            return l[2]
        if t == 'mo':
            return self.key(l[1], be)
        if t == 'coll':
            return ('coll', l[1])
        if t == 'term':
            return self.term(l[1], be)
        if t == 'ext' and l[1] == 'builtins.NotImplemented':
            return 'NotImplemented'
        raise Unk('leaf ' + t)

    def arg(self, l, be):
        """Operand of an operation (model value, or tuple of values for var-args)."""
        if l[0] == 'coll':
            if l[1][0] == 'pdict':
                return self.env[l[1][1]]
            if l[1][0] in ('gen', 'seq') and self.ip.gens[l[1][1]]['kind'] == 'dict':
                return tuple(self.counter(l[1], be).items())
            return tuple(self.coll(l[1], be))
        if l[0] == 'c':
            return m.A(l[2])
        if l[0] in ('fn', 'partial', 'ufn'):
            if l[0] == 'ufn':
                return self.env[l[1]]
            raise Unk('callable operand')
        return self.leaf(l, be)

    def key(self, k, be):
        t = k[0]
        if t == 'p':
            return self.env[k[1]]
        if t == 'e':
            if k[1] not in be:
                raise Unk('unbound element')
            return be[k[1]]
        if t == 'dval':
            return self.term(k[1], be)
        if t in ('left', 'right'):
            v = self.key(k[1], be)
            if v[0] != 'c':
                raise Unk('side of non-couplet')
            return v[1] if t == 'left' else v[2]
        if t == 'op':
            args = tuple(self.arg(l, be) for l in k[2:])
            own = self.env[k[1][4:]] if k[1][:4] == 'ufn:' else None
            mk = ('op', own or k[1]) + args
            if mk in self.memo:
                return self.memo[mk]
            f = own or m.DEN.get(k[1])
            if f is None:
                if k[1] in m.ANY and args[0] != U and args[0][0] in 'sm':
                    es = order(m.elems(args[0]), self.rev)
                    r = es[0] if es and m.ANY[k[1]](args[0], es[0]) else U
                else:
                    raise Unk('no denotation for ' + k[1])
            else:
                r = f(*args)
            if isinstance(r, tuple) or r == U or r is True or r is False:
                self.memo[mk] = r
                return r
            raise Unk('denotation')
        if t == 'new':
            meta = self.ip.news[k[1]]
            v = self.build(meta, be, k)
            if k in self.overrides:
                v = self.overridden(k, v, be)
            return v
        if t == 'nth':
            xs = self.ordered(k[1], be)
            i = self.pos(k[2], be)
            if i >= len(xs) or i < -len(xs):
                raise Unk('nth')
            return xs[i]
        if t == 'phv':
            return self.state(k, be, 'mo')
        if t == 'part':
            v = self.key(k[1], be)
            if not isinstance(v, tuple) or v[0] != 'tuple' or k[2] >= len(v[1]):
                raise Unk('part')
            return v[1][k[2]]
        if t == 'dget':
            return self.dget(k, be)
        if t == 'choose':
            for b2 in self.enum(list(zip(k[1], k[2])), k[3][1], be):
                return self.leaf(k[4], b2)
            raise Unk('choose')
        if t == 'fold':
            return self.fold(k, be)
        raise Unk('key ' + str(t))

    def pos(self, i, be):
        return i if isinstance(i, int) else self.term(i[1], be)

    def dget(self, k, be):
        d = self.counter(k[1], be)
        x = self.term(k[2], be)
        if x not in d:
            raise Unk('missing key')
        return d[x]

    # -- loops as state machines ----------------------------------------------------------------
    def state(self, name, be, what=None):
        """Value of a loop-carried variable at the start of an iteration or after the loop."""
        _, L, outer, it, key = name
        t = self.trace(L, outer, be)
        if it == ('final',):
            if not t.done:
                raise Unk('state of a running loop')
            st = t.final
        else:
            st = t.states[self.index(t, it, be)]
        tag, v = st[key]
        if tag == 'unk':
            raise Unk(v)
        if what == 'tag':
            return tag
        if what == 'mo' and tag == 'undef':
            return U
        if what == 'coll' and isinstance(v, dict):
            return dict(v)
        if what == 'coll' and not isinstance(v, (list, tuple)):
            raise Unk('state of another kind')
        return v

    def index(self, t, it, be):
        i = be.get(it[1])
        if not isinstance(i, int) or i >= len(t.states):
            raise Unk('iteration')
        return i

    def trace(self, L, outer, be):
        try:
            vals = tuple(be[x[1]] for x in outer)
        except KeyError:
            raise Unk('outer iteration')
        t = self.traces.get((L, vals))
        if t is None:
            rec = self.ip.loops.get(('sim', L))
            if rec is None or rec['steps'] is None:
                raise Unk('loop')
            t = self.traces[L, vals] = Trace()
            try:
                self.simulate(rec, dict(zip(rec['outer'], vals)), t)
            except BaseException:
                del self.traces[L, vals]
                raise
        return t

    def tagval(self, gv, be, tags):
        try:
            l = self.gv_leaf(gv, be)
            k = l[0]
            if k == 'mo':
                v = self.key(l[1], be)
                return ('undef', None) if v == U else ('mo', v)
            if k == 'undef':
                return 'undef', None
            if k == 'unbound':
                return 'unbound', None
            if k == 'c':
                return (l, l[2]) if l in tags else ('num', l[2])
            if k == 'term':
                return 'num', self.term(l[1], be)
            if k == 'coll':
                kinds = [t for t in tags if isinstance(t, tuple) and t[0] == 'coll']
                v = self.counter(l[1], be) if self.is_counter(l[1], be) else list(self.coll(l[1], be))
                want = 'counter' if isinstance(v, dict) else None
                for t in kinds:
                    if len(kinds) == 1 or t[1] == self.ip.coll_kind(l[1]) or t[1] == want:
                        return t, v
                raise Unk('collection kind')
            if k == 'tuple':
                v = self.item(((dd.TRUE, l),), be)
                ts = [t for t in tags if isinstance(t, tuple) and t[0] == 'tuple']
                for t in ts:
                    if len(ts) == 1 or t[1] == self.ip.leaf_cat(l):
                        return t, v
                raise Unk('tuple state')
            if ('leaf', l) in tags:
                return ('leaf', l), None
            raise Unk('state ' + k)
        except Unk as e:
            return 'unk', str(e)

    def contents(self, kind, contribs, be):
        try:
            r = self.run_contribs(kind, contribs, be)
            return ('coll', kind), r
        except Unk as e:
            return 'unk', str(e)

    def simulate(self, rec, be0, t):
        tags = rec['tags']
        st = {}
        for k, g in rec['init'].items():
            st[k] = self.tagval(g, be0, tags[k])
        for o, cs in rec['objs'].items():
            st['obj', o] = self.contents(rec['kinds'][o], cs, be0)
        if not self.cond(rec['pc'], be0):       # the loop is not reached
            t.final, t.done, t.end = st, True, 'done'
            return
        for k, (b, c, v) in enumerate(rec['views']):
            it = rec['its'][k]
            steps = rec['steps'][k]
            forever = not b and rec['loop']
            es = [be0] if not b else self.assignments(list(b), be0)
            n = 0
            while True:
                if forever:
                    e = be0
                    n += 1
                    if n > 80:
                        raise Unk('loop bound')
                elif n < len(es):
                    e = es[n]
                    n += 1
                else:
                    break
                if not self.cond(c, e):
                    continue
                i = len(t.states)
                t.states.append(st)
                t.views.append(k)
                t.elems.append(tuple(e[bid] for bid, _ in b))
                t.pos.append(tuple(e['pos', bid] for bid, _ in b))
                be = dict(e)
                be[it] = i
                for kind, pc, upd, con in steps:
                    if self.cond(pc, be):
                        break
                else:
                    raise Unk('no transition')
                if kind != 'exit':
                    st = {key: self.tagval(g, be, tags[key]) for key, g in upd.items()}
                    for o, cs in con.items():
                        st['obj', o] = self.contents(rec['kinds'][o], cs, be)
                if kind != 'next':
                    t.final, t.done, t.end = st, True, kind
                    return
        t.final, t.done, t.end = st, True, 'done'

    def overridden(self, k, v, be):
        """Value of a new object after item assignments to its data."""
        if k in self.busy:
            return self.busy[k]
        if v[0] != 'm':
            raise Unk('item assignment')
        self.busy[k] = v
        try:
            d = m.counts(v)
            for c in self.overrides[k]:
                for b2 in self.enum(c.binders, c.cond, be):
                    n = self.item(c.extra, b2)
                    if not isinstance(n, int) or c.mode != 'set':
                        raise Unk('count')
                    d[self.item(c.val, b2)] = n
        finally:
            del self.busy[k]
        return ('m', frozenset(d.items()))

    def fold(self, k, be):
        _, op, init, terms = k
        acc = self.leaf(init, be)
        fn = {'|': m.DEN[m.SETS + 'Algebra.union'], '&': m.DEN[m.SETS + 'Algebra.intersect'],
              'max': m.DEN[m.MSETS + 'Algebra.union'], 'min': m.DEN[m.MSETS + 'Algebra.intersect'],
              'sum': m.DEN[m.MSETS + 'Algebra.add']}[op]
        for bids, structs, c, t in terms:
            for b2 in self.enum(list(zip(bids, structs)), c[1], be):
                acc = fn(acc, self.leaf(t, b2))
        return acc

    def build(self, meta, be, key):
        cls = meta['cls']
        if cls == 'Couplet':
            a, b = self.gv(meta['args'][0], be), self.gv(meta['args'][1], be)
            if not (isinstance(a, tuple) and isinstance(b, tuple)):
                if a == U or b == U:
                    raise Unk('undefined component')
                a, b = (self.unconverted(x) if meta.get('direct') else self.conv(x) for x in (a, b))
            return m.C(a, b)
        if cls == 'Atom':
            return self.conv(self.gv(meta['args'][0], be))
        v = self.gv_leaf(meta['args'][0], be)
        if v[0] != 'coll':
            raise Unk('constructor operand')
        s = v[1]
        starred = s[0] == 'starred'
        if starred:
            s = s[1]
            xs = self.coll(s, be)
            if len(xs) == 1:
                if not isinstance(xs, dict) and list(xs)[0][0] in 'sac':
                    # Set(*[x]) is Set(x): a single mathobject argument becomes the element
                    pass
        conv = self.conv
        if meta.get('direct') and s[0] in ('gen', 'rparam') and (s[0] == 'rparam' or self.ip.gens[s[1]]['kind'] == 'gen' or
                                                                any(c.binders for c in self.ip.gens[s[1]]['contribs'])):
            conv = self.unconverted
        if cls == 'Set':
            out = []
            for x in self.coll(s, be):
                if x == U:
                    raise Unk('undefined element')
                out.append(conv(x))
            return m.Sf(out)
        cs = self.counter(s, be)
        return ('m', frozenset({conv(e): n for e, n in cs.items()}.items()))

    def unconverted(self, x):
        """A value that the constructor takes as it is: a plain one is not a mathematical object."""
        return ('a', x, 'raw') if isinstance(x, (int, str, float)) and not isinstance(x, bool) and x != U else self.conv(x)

    def conv(self, x):
        if isinstance(x, tuple) and x and x[0] in ('a', 'c', 's', 'm'):
            return x
        if isinstance(x, (int, str, float)) and not isinstance(x, bool) and x != U:
            return m.A(x)
        raise Unk('conversion')

    # -- collections --------------------------------------------------------------------------
    def as_plain(self, s, be):
        if self.is_counter(s, be):
            return {k: v for k, v in self.counter(s, be).items() if v}
        return frozenset(self.coll(s, be))

    def is_counter(self, s, be):
        if s[0] == 'data':
            return self.key(s[1], be)[0] == 'm'
        if s[0] == 'cop':
            return self.is_counter(s[2], be)
        if s[0] in ('gen', 'seq'):
            return self.ip.gens[s[1]]['kind'] in ('counter', 'dict')
        if s[0] == 'cpart':
            return s[2] in ('counter', 'dict')
        return False

    def ordered(self, s, be):
        if s[0] == 'rest':
            return self.ordered(s[1], be)[self.pos(s[2], be):]
        if s[0] in ('gen', 'seq') and self.ip.gens[s[1]]['kind'] in ('list', 'gen'):
            return list(self.coll(s, be))
        if s[0] in ('concat', 'slice', 'sorted', 'reversed', 'tuple', 'range', 'elemcoll', 'elements') or \
                s[0] == 'cpart' and s[2] != 'set':
            return list(self.coll(s, be))
        xs = list(self.coll(s, be))
        return order(xs, self.rev)

    def coll(self, s, be):
        """Elements (with repetition where the collection has any) of a collection struct."""
        t = s[0]
        if t == 'data':
            v = self.key(s[1], be)
            if v[0] == 's':
                return order(v[1], self.rev)
            if v[0] == 'm':
                return order((e for e, n in v[1]), self.rev)
            raise NoData('data of {}'.format(v[0]))
        if t == 'elements':
            v = self.key(s[1], be)
            if v[0] == 'm':
                return [e for e, n in order(v[1], self.rev) for _ in range(n)]
            if v[0] == 's':
                return order(v[1], self.rev)
            raise NoData('elements')
        if t in ('gen', 'seq'):
            g = self.ip.gens[s[1]]
            r = self.run_contribs(g['kind'], g['contribs'], be)
            return list(r)
        if t == 'values':
            return list(self.counter(s[1], be).values())
        if t == 'items':
            return [('tuple', x) for x in self.counter(s[1], be).items()]
        if t == 'melements':
            return [e for e, n in self.counter(s[1], be).items() for _ in range(n)]
        if t == 'slice':
            p = [x if x is None or isinstance(x, int) else self.term(x[1], be) for x in s[2:5]]
            return self.ordered(s[1], be)[slice(*p)]
        if t == 'sorted':
            xs = self.coll(s[1], be)
            if s[2]:
                return order(xs, self.rev)
            if all(isinstance(x, (int, float)) for x in xs):
                return sorted(xs)
            return order(xs, False)
        if t == 'reversed':
            return self.ordered(s[1], be)[::-1]
        if t == 'trace':
            tr = self.trace(s[1], s[2], be)
            return [i for i, k in enumerate(tr.views) if k == s[3]]
        if t == 'itsel':
            tr = self.trace(s[1], s[2], be)
            return [tr.elems[self.index(tr, s[3], be)][s[5]]]
        if t == 'choose':
            for b2 in self.enum(list(zip(s[1], s[2])), s[3][1], be):
                return self.coll(s[4][1], b2)
            raise Unk('choose')
        if t == 'part':
            v = self.key(s, be)
            if isinstance(v, tuple) and v and v[0] == 'tuple':
                return list(v[1])
            raise Unk('part')
        if t == 'cop':
            if self.is_counter(s, be):
                return list(self.counter(s, be))
            a, b = set(self.coll(s[2], be)), set(self.coll(s[3], be))
            return order({'|': a | b, '&': a & b, '-': a - b, '^': a ^ b}[s[1]], self.rev)
        if t == 'keys':
            return self.coll(s[1], be)
        if t == 'rest':
            return self.ordered(s[1], be)[self.pos(s[2], be):]
        if t == 'concat':
            return list(self.coll(s[1], be)) + list(self.coll(s[2], be))
        if t in ('param', 'rparam'):
            return list(self.env[s[1]])
        if t == 'pdict':
            return [k for k, v in self.env[s[1]]]
        if t == 'starred':
            return self.coll(s[1], be)
        if t == 'tocounter':
            return self.coll(s[1], be)
        if t == 'combinations':
            if s[2] is None or s[2][0] not in ('c', 'term'):
                raise Unk('combinations')
            xs = self.coll(s[1], be)
            k = self.leaf(s[2], be)
            import itertools
            return [('tuple', c) for c in itertools.combinations(xs, k)]
        if t == 'range':
            if len(s) > 2:
                a = [self.leaf(x, be) for x in s[2:]]
                return list(range(*a))
            raise Unk('range')
        if t == 'tuple':
            return list(s[1])
        if t == 'cpart':
            v = self.nested(s, be)
            return [k for k, n in v[2]] if v[1] in ('dict', 'counter') else list(v[2])
        if t == 'elemcoll':
            v = be.get(s[1])
            if isinstance(v, tuple) and v and v[0] == 'tuple':
                return list(v[1])
            raise Unk('element collection')
        raise Unk('collection ' + str(t))

    def nested(self, s, be):
        v = self.key(s[1], be)
        if not isinstance(v, tuple) or v[0] != 'nest' or v[1] != s[2]:
            raise Unk('collection in a collection')
        return v

    def apply(self, v, kind, mode, e, n):
        """A collection in a dictionary entry after one change."""
        if v is None:
            v = ('nest', kind, ())
        if not isinstance(v, tuple) or v[0] != 'nest' or v[1] != kind:
            raise Unk('change of a collection')
        xs = v[2]
        if mode == 'touch':
            pass
        elif mode == 'clear':
            xs = ()
        elif kind in ('set', 'list'):
            if mode == 'add':
                xs = xs if kind == 'set' and e in xs else xs + (e,)
            elif mode == 'rem':
                i = xs.index(e) if e in xs else len(xs)
                xs = xs[:i] + xs[i + 1:]
            else:
                raise Unk('change of a collection')
        else:
            d = dict(xs)
            if mode == 'set':
                d[e] = n
            elif mode == 'upd':
                d[e] = self.apply(d.get(e), *n[1])
            elif mode == 'inc':
                d[e] = d.get(e, 0) + n
            elif mode == 'rem':
                d.pop(e, None)
            else:
                raise Unk('change of a collection')
            xs = tuple(d.items())
        return ('nest', kind, xs)

    def item(self, gv, be):
        l = self.gv_leaf(gv, be)
        if l[0] == 'coll':
            kind = self.ip.value_kind(l[1])
            if kind is None:
                raise Unk('nested collection')
            return ('nest', kind, tuple((self.counter if kind in ('dict', 'counter') else self.coll)(l[1], be).items()
                                        if kind in ('dict', 'counter') else self.coll(l[1], be)))
        if l[0] == 'tuple':
            return ('tuple', tuple(self.item(x, be) for x in l[1]))
        return self.leaf(l, be)

    def run_contribs(self, kind, contribs, be):
        """Contents (list or dict) that a sequence of contributions produces."""
        acc = {} if kind in ('dict', 'counter') else []
        mapping = isinstance(acc, dict)
        for c in contribs:
            mode = c.mode
            if mode == 'esc':
                raise Unk('escaped collection')
            for b2 in self.enum(c.binders, c.cond, be):
                if mode == 'phi':
                    r = self.state(c.val[0][1][1], b2, 'coll')
                    acc = dict(r) if mapping and isinstance(r, dict) else list(r)
                    if mapping != isinstance(acc, dict):
                        raise Unk('state of another kind')
                    continue
                if mode == 'clear':
                    acc = {} if mapping else []
                    continue
                if mode in ('poplast', 'popfirst'):
                    if not acc or mapping:
                        raise Unk('pop')
                    if kind == 'set':
                        acc.remove(order(acc, self.rev)[0])
                    else:
                        acc = acc[:-1] if mode == 'poplast' else acc[1:]
                    continue
                e = self.item(c.val, b2)
                if mode == 'rem':
                    if mapping:
                        acc.pop(e, None)
                    elif e in acc:
                        acc.remove(e)
                    continue
                if not mapping:
                    if kind != 'set' or e not in acc:
                        acc.append(e)
                    continue
                if mode == 'add':
                    acc[e] = acc.get(e, 0) + 1
                    continue
                n = self.item(c.extra, b2)
                if mode == 'set':
                    acc[e] = n
                    continue
                if mode == 'upd':
                    acc[e] = self.apply(acc.get(e), *n[1])
                    continue
                if not isinstance(n, (int, float)):
                    raise Unk('count')
                acc[e] = max(acc.get(e, 0), n) if mode == 'max' else \
                    min(acc.get(e, 0), n) if mode == 'min' else acc.get(e, 0) + n
        return acc

    def counter(self, s, be):
        t = s[0]
        if t == 'data':
            v = self.key(s[1], be)
            if v[0] == 'm':
                return m.counts(v)
            return {e: 1 for e in v[1]}
        if t in ('gen', 'seq'):
            g = self.ip.gens[s[1]]
            r = self.run_contribs(g['kind'], g['contribs'], be)
            if isinstance(r, dict):
                return r
            acc = {}
            for e in r:
                acc[e] = acc.get(e, 0) + 1
            return acc
        if t == 'cop':
            a, b = self.counter(s[2], be), self.counter(s[3], be)
            ks = list(dict.fromkeys(list(a) + list(b)))
            f = {'|': lambda x, y: max(x, y), '&': lambda x, y: min(x, y), '-': lambda x, y: x - y,
                 '+': lambda x, y: x + y}.get(s[1])
            if f is None:
                raise Unk('counter op')
            r = {k: f(a.get(k, 0), b.get(k, 0)) for k in ks}
            return {k: v for k, v in r.items() if v > 0}
        if t == 'cpart' and self.is_counter(s, be):
            return dict(self.nested(s, be)[2])
        if t == 'tocounter' and self.is_counter(s[1], be):
            return dict(self.counter(s[1], be))
        acc = {}
        for e in self.coll(s, be):
            acc[e] = acc.get(e, 0) + 1
        return acc

    # -- terms --------------------------------------------------------------------------------
    def term(self, t, be):
        h = t[0]
        if h == 'k':
            return t[2]
        if h == 'moterm':
            return self.key(t[1], be)
        if h == 'phiterm':
            return self.state(t[1], be)
        if h == 'tupterm':
            return ('tuple', tuple(self.item(x, be) for x in t[1]))
        if h == 'collterm':
            raise Unk('collection as value')
        if h == 'choose':
            for b2 in self.enum(list(zip(t[1], t[2])), t[3][1], be):
                return self.leaf(t[4], b2)
            raise Unk('choose')
        if h == 'part':
            return self.key(t, be)
        if h == 'value':
            v = self.key(t[1], be)
            if v[0] != 'a':
                raise Unk('value')
            return v[1]
        if h in ('card', 'len'):
            xs = self.coll(t[1], be)
            if t[1][0] in ('gen', 'seq') and self.ip.gens[t[1][1]]['kind'] == 'gen':
                raise Unk('len of generator')
            return len(xs)
        if h == 'mult':
            k = self.term(t[2], be) if t[2][0] != 'e' else be.get(t[2][1])
            if k is None:
                raise Unk('mult')
            if t[1][0] == 'pdict':
                for a, b in self.env[t[1][1]]:
                    if a == k:
                        return b
                raise Unk('missing key')
            return self.counter(t[1], be).get(k, 0)
        if h == 'pval':
            return self.env[t[1]]
        if h == 'pos':
            if ('pos', t[1][1]) in be:
                return be['pos', t[1][1]]
            raise Unk('position')
        if h in ('repr', 'strof'):
            v = self.item(((dd.TRUE, t[1]),), be)
            if v == U:
                return 'Undef()' if h == 'repr' else 'undef'
            return (m.text_repr if h == 'repr' else m.text_str)(v)
        if h == 'text':
            out = ''
            for x in t[1:]:
                v = x if isinstance(x, str) else self.term(x, be)
                if isinstance(v, tuple):
                    v = m.text_str(v)
                out += str(v)
            return out
        if h == 'join':
            xs = self.coll(t[2], be) if t[2][0] != 'data' else self.ordered(t[2], be)
            if not all(isinstance(x, str) for x in xs):
                raise Unk('join')
            return self.leaf(t[1], be).join(xs)
        if h == 'crepr':
            xs = self.coll(t[3], be) if t[3][0] != 'data' else self.ordered(t[3], be)
            if not xs and t[1] != '[':
                return t[1].replace('{', '') + t[2].replace('}', '') if '(' in t[1] else 'set()'
            return t[1] + ', '.join(map(m.text_repr, xs)) + t[2]
        if h == 'hash':
            if t[1][0] == 'coll':
                xs = self.coll(t[1][1], be)
                return m.stable_hash(repr(sorted(repr(x).replace("('a', 2)", "('a', 1)") for x in xs)))
            return m.value_hash(self.item(((dd.TRUE, t[1]),), be))
        if h == 'typeof':
            v = self.term(t[1], be)
            if isinstance(v, tuple):
                raise Unk('type')
            return type(v).__name__
        if h in ('elem', 'rawel'):
            if t[1] in be:
                return be[t[1]]
            raise Unk('elem')
        if h == 'bin':
            a, b = self.term(t[2], be), self.term(t[3], be)
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'BitAnd': lambda: a & b,
                        'BitXor': lambda: a ^ b, 'FloorDiv': lambda: a // b, 'BitOr': lambda: a | b, 'Mod': lambda: a % b}[t[1]]()
            except Exception:
                raise Unk('bin')
        if h == 'un' and t[1] == 'USub':
            return -self.term(t[2], be)
        if h in ('min', 'max'):
            xs = self.coll(t[1], be)
            if not xs:
                raise NoData('{} of nothing'.format(h))
            return min(xs) if h == 'min' else max(xs)
        if h == 'sum':
            if t[1][0] == 'values':
                return sum(self.counter(t[1][1], be).values())
            return sum(self.coll(t[1], be))
        if h == 'gslevel':
            v = self.key(t[1], be)
            if v == U:
                raise Unk('ground set of undefined')
            return m.gs_level(v, self.struct_type(t[2]))
        if h == 'ucall':
            f = self.env[t[1]]
            return f(*[self.term(x, be) for x in t[2:]])
        raise Unk('term ' + str(h))
