"""Interprocedural alias and effect analysis: which containers and objects a function may modify.

Every expression is abstracted to a set of origins:

    ('P', p)         the object passed as parameter p
    ('I', p, path)   something stored inside it (path: attribute names and '[]' for elements, at most two)
    ('N', site)      a container or object made by this call; cont[site] are the origins stored in it
    ('G', name)      a module-level object, class attribute, function attribute or default argument
    ('L', key)       a function value (closure)

The analysis is flow-sensitive for variables, interprocedural through summaries (effects and returned
origins in terms of parameters), and context-insensitive otherwise.
"""
import ast

from .loader import FnInfo, ClsInfo

MUTATORS = {'add', 'append', 'appendleft', 'clear', 'difference_update', 'discard', 'extend', 'extendleft', 'insert',
            'intersection_update', 'pop', 'popitem', 'popleft', 'remove', 'reverse', 'setdefault', 'sort', 'subtract',
            'symmetric_difference_update', 'update', 'move_to_end', 'rotate', '__setitem__', '__delitem__', '__iadd__',
            '__ior__', '__iand__', '__isub__', '__ixor__', '__imul__'}
TAKES = {'pop', 'popitem', 'popleft', 'setdefault', 'get', '__getitem__'}     # give an element of the receiver
FRESH = {'copy', 'union', 'difference', 'intersection', 'symmetric_difference', 'elements', 'most_common', 'items', 'keys', 'values'}
COPIERS = {'set', 'frozenset', 'list', 'tuple', 'dict', 'sorted', 'reversed', 'iter', 'enumerate', 'zip', 'filter', 'Counter',
           'defaultdict', 'OrderedDict', 'deque', 'chain', 'from_iterable', 'islice', 'takewhile', 'dropwhile', 'product', 'starmap',
           'combinations', 'permutations', 'accumulate', 'cycle', 'tee', 'groupby', 'copy', 'ChainMap'}
FIRST = {'next', 'min', 'max', 'choice'}
# external functions that modify their first argument
MUT1 = {'heapq.heappush', 'heapq.heapify', 'heapq.heappop', 'random.shuffle', 'bisect.insort', 'bisect.insort_left',
        'bisect.insort_right', 'operator.setitem', 'operator.delitem', 'operator.iadd', 'operator.ior', 'operator.iand',
        'operator.isub', 'operator.ixor', 'operator.iconcat', '_operator.ior', 'operator.imul'}
INPLACE = {'operator.iadd', 'operator.ior', 'operator.iand', 'operator.isub', 'operator.ixor', 'operator.iconcat'}
IMMUTABLE = {'frozenset', 'str', 'int', 'float', 'bool', 'bytes', 'tuple', 'complex', 'range'}
BUILTIN_TYPES = {'builtins.set', 'builtins.dict', 'builtins.list', 'collections.Counter', 'collections.OrderedDict',
                 'collections.defaultdict', 'collections.deque'}
MAXPATH = 2
E = frozenset()


def step(tok, attr, st):
    """Origins of an attribute (or '[]': an element) of a value."""
    k = tok[0]
    if k == 'P':
        return frozenset({('I', tok[1], (attr,))})
    if k == 'I':
        p = tok[2]
        return frozenset({('I', tok[1], p + (attr,) if len(p) < MAXPATH else p[:MAXPATH - 1] + ('*',))})
    if k == 'N':
        if attr == '[]' or not st.fn.mo_site(tok):
            return st.cont.get(tok, E)
        return E
    if k == 'G':
        return frozenset({('G', tok[1] + '.' + attr if tok[1].count('.') < 9 else tok[1])})
    return E


class State:
    """Abstract state of one activation: variables and the contents of the sites (shared by all paths)."""

    def __init__(self, fn, env, cont):
        self.fn, self.env, self.cont = fn, env, cont

    def copy(self):
        return State(self.fn, dict(self.env), self.cont)

    def join(self, *others):
        live = [s for s in (self,) + others if s.env is not None]
        if not live:
            self.env = None
            return self
        env = {}
        for s in live:
            for k, v in s.env.items():
                env[k] = env.get(k, E) | v
        self.env = env
        return self

    def step(self, toks, attr):
        out = E
        for t in toks:
            out |= step(t, attr, self)
        return out

    def elements(self, toks):
        return self.step(toks, '[]')

    def put(self, site, toks):
        old = self.cont.get(site, E)
        new = old | (toks - {site})
        if new != old:
            self.cont[site] = new


class Summary:
    def __init__(self):
        self.effects = {}       # (kind, token, detail) -> where
        self.ret = E            # returned origins in terms of parameters
        self.retcont = E        # origins contained in a returned new container
        self.fresh = False      # may return a new container

    def key(self):
        return frozenset(self.effects), self.ret, self.retcont, self.fresh


class Fn:
    """One function or method of the package (nested functions are analysed within their parent)."""

    def __init__(self, an, info, qual):
        self.an, self.info, self.qual = an, info, qual
        self.node, self.module, self.cls = info.node, info.module, info.cls
        self.sum = Summary()
        self.mosites = set()
        a = self.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.is_method = info.cls is not None and not info.is_static

    def mo_site(self, tok):
        return tok in self.mosites


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.fns, self.by_node, self.by_method = [], {}, {}
        for mod in prog.modules.values():
            self._collect(mod, mod.tree.body, None)
        self.mo_classes = set()
        base = prog.cls('mathobjects.mathobject', 'MathObject')
        for ci in prog.clss:
            if base is not None and prog.is_subclass(ci, base):
                self.mo_classes.add(ci.cid)
        self.rounds = 0
        self.broken = {}
        self.lams = {}
        self.calls = self.stores = 0

    def _collect(self, mod, body, _):
        for fi in list(self.prog.fns):
            if fi.module is mod and not isinstance(fi.node, ast.Lambda) and id(fi.node) not in self.by_node:
                f = Fn(self, fi, fi.qual)
                self.fns.append(f)
                self.by_node[id(fi.node)] = f
                if fi.cls is not None:
                    self.by_method.setdefault(fi.name, []).append(f)

    def run(self, limit=8):
        for self.rounds in range(1, limit + 1):
            before = [f.sum.key() for f in self.fns]
            self.calls = self.stores = 0
            for f in self.fns:
                try:
                    Activation(self, f).run()
                except Exception as x:          # noqa: this function is reported as not decided
                    self.broken[f.qual] = type(x).__name__
            if before == [f.sum.key() for f in self.fns]:
                break
        return self


class Closures(dict):
    """Functions made by the analysed function; all of them are known to the analysis."""
    def __init__(self, common):
        super().__init__()
        self.common = common

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self.common[k] = v[0], v[1].copy()


class Activation:
    def __init__(self, an, fn):
        self.an, self.fn, self.prog, self.mod = an, fn, an.prog, fn.module
        self.lams = Closures(an.lams)
        self.depth = 0
        self.active = []

    # -- driver ------------------------------------------------------------------------------------
    def run(self):
        f = self.fn
        self.new = Summary()
        env = {}
        for i, p in enumerate(f.params + f.kwonly):
            env[p] = frozenset({('P', p)})
        a = f.node.args
        for p, d in list(zip(f.params[len(f.params) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(f.kwonly, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp, ast.SetComp)):
                env[p] |= {('G', '{}({})'.format(f.qual, p))}
        st = State(f, env, {})
        for v in (f.vararg, f.kwarg):
            if v:
                s = ('N', (v, 'arg'))
                st.env[v] = frozenset({s})
                st.put(s, frozenset({('P', v)}))
        self.returns = E
        for _ in range(2):                      # contents of sites are flow-insensitive
            s2 = st.copy()
            self.block(f.node.body, s2)
        for t in self.returns:
            if t[0] == 'N':
                self.new.fresh = True
                self.new.retcont |= self.deep(st, t)
            else:
                self.new.ret |= frozenset({t})
        f.sum = self.new

    def deep(self, st, t, seen=()):
        out = E
        for x in st.cont.get(t, E):
            if x[0] == 'N':
                if x not in seen and not self.fn.mo_site(x):
                    out |= self.deep(st, x, seen + (x,))
            elif x[0] != 'L':
                out |= {x}
        return out

    def at(self, node):
        return '{}:{}'.format(self.mod.rel, getattr(node, 'lineno', 0)), self.fn.qual

    def effect(self, kind, toks, detail, node):
        self.an.stores += 1
        for t in toks:
            if t[0] in ('P', 'I', 'G'):
                self.new.effects.setdefault((kind, t, detail),
                                            self.at(node))

    def carry(self, kind, toks, detail, where):
        for t in toks:
            if t[0] in ('P', 'I', 'G'):
                self.new.effects.setdefault((kind, t, detail), where)

    # -- statements --------------------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st.env is None:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            m(s, st)
            return
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, st)

    def s_FunctionDef(self, s, st):
        key = id(s)
        self.lams[key] = (s, st)                # closures see the variables of their parent
        st.env[s.name] = frozenset({('L', key)})
        for d in s.decorator_list:
            self.ev(d, st)
        # analyse the body once with unknown arguments: effects on captured variables
        self.call_local(key, [], {}, s, st, bind=False)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        for c in s.body:
            if isinstance(c, ast.FunctionDef):
                key = id(c)
                self.lams[key] = (c, st)
                self.call_local(key, [], {}, c, st, bind=False)
        st.env[s.name] = E

    def s_Import(self, s, st):
        for b, target in self.prog.import_targets(s, self.mod):
            st.env[b] = frozenset({('X', target)})

    s_ImportFrom = s_Import

    def s_Return(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            for t in v:
                if t[0] == 'L' and t[1] in self.lams and isinstance(self.lams[t[1]][0], ast.Lambda):
                    self.call_local(t[1], [], {}, s, st, bind=False)
            self.returns |= v
        st.env = None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        st.env = None

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1].append(State(st.fn, dict(st.env), st.cont))
        st.env = None

    def s_Continue(self, s, st):
        if self.conts:
            self.conts[-1].append(State(st.fn, dict(st.env), st.cont))
        st.env = None

    loops = ()
    conts = ()

    def loop(self, st, head, body, orelse):
        loops, conts = self.loops, self.conts
        exits = []
        self.loops, self.conts = list(loops) + [exits], list(conts)
        cur = st.copy()
        for _ in range(3):
            conts_here = []
            self.conts.append(conts_here)
            head(cur)
            b = cur.copy()
            self.block(body, b)
            self.conts.pop()
            cur.join(b, *conts_here)
        self.loops, self.conts = loops, conts
        if orelse:
            self.block(orelse, cur)
        cur.join(*exits)
        st.env = cur.env

    def s_For(self, s, st):
        it = self.ev(s.iter, st)

        def head(cur):
            self.bind(s.target, cur.elements(it), None, cur)
        self.loop(st, head, s.body, s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        self.loop(st, lambda cur: self.ev(s.test, cur), s.body, s.orelse)

    def s_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(s.test, a, True)
        self.narrow(s.test, b, False)
        self.block(s.body, a)
        self.block(s.orelse, b)
        a.join(b)
        st.env = a.env

    def narrow(self, t, st, pos):
        """Under the test, a variable holds an immutable value (or None): it cannot be modified."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, st, not pos)
        if isinstance(t, ast.BoolOp) and (isinstance(t.op, ast.And)) == pos:
            for v in t.values:
                self.narrow(v, st, pos)
            return
        if pos and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and \
                len(t.args) == 2 and isinstance(t.args[0], ast.Name):
            ts = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            if ts and all(ast.unparse(x).rpartition('.')[2] in IMMUTABLE for x in ts):
                st.env[t.args[0].id] = E
        if pos and isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)):
            c = t.comparators[0]
            if isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == 'type' and \
                    t.left.args and isinstance(t.left.args[0], ast.Name) and \
                    ast.unparse(c).rpartition('.')[2] in IMMUTABLE:
                st.env[t.left.args[0].id] = E
            elif isinstance(t.left, ast.Name) and isinstance(c, ast.Constant):
                st.env[t.left.id] = E

    def s_Try(self, s, st):
        start = st.copy()
        self.block(s.body, st)
        hs = []
        for h in s.handlers:
            b = start.copy()
            if st.env is not None:
                b.join(st.copy())
            if h.name:
                b.env[h.name] = E
            self.block(h.body, b)
            hs.append(b)
        if st.env is not None:
            self.block(s.orelse, st)
        st.join(*hs)
        if s.finalbody:
            f = start.copy().join(st) if st.env is None else st
            dead = st.env is None
            self.block(s.finalbody, f)
            st.env = None if dead else f.env

    s_TryStar = s_Try

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, None, st)
        self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Match(self, s, st):
        v = self.ev(s.subject, st)
        outs = [st.copy()]
        for c in s.cases:
            b = st.copy()
            for n in ast.walk(c.pattern):
                for nm in (getattr(n, 'name', None), getattr(n, 'rest', None)):
                    if isinstance(nm, str):
                        b.env[nm] = v | b.elements(v)
            self.block(c.body, b)
            outs.append(b)
        st.env = outs[0].join(*outs[1:]).env

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.bind(t, v, s.value, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st), s.value, st)

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(s.target, ast.Name):
            t = self.lookup(s.target.id, st)
            self.effect('aug', t, '', s)
            for x in t:
                if x[0] == 'N':
                    st.put(x, st.elements(v))
            if not any(x[0] == 'N' for x in t):
                n = self.site(s)
                st.put(n, st.elements(v) | st.elements(t))
                st.env[s.target.id] = t | {n} if t else E
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            self.effect('augset', b, s.target.attr, s)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            self.ev(s.target.slice, st)
            self.effect('mut', b, 'item assignment', s)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.effect('mut', self.ev(t.value, st), 'del', s)
            elif isinstance(t, ast.Attribute):
                self.effect('set', self.ev(t.value, st), t.attr, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def s_Global(self, s, st):
        for n in s.names:
            st.env[n] = frozenset({('G', '{}.{}'.format(self.mod.short, n))})
            self.globals.add(n)

    globals = set()

    def bind(self, t, v, value, st):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.effect('set', frozenset({('G', '{}.{}'.format(self.mod.short, t.id))}), 'rebound', t)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                for a, b in zip(t.elts, value.elts):
                    self.bind(a, self.ev(b, st), b, st)
            else:
                for a in t.elts:
                    self.bind(a, st.elements(v), None, st)
        elif isinstance(t, ast.Starred):
            n = self.site(t)
            st.put(n, v)
            self.bind(t.value, frozenset({n}), None, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.effect('mut', b, 'item assignment', t)
            for x in b:
                if x[0] == 'N':
                    st.put(x, v)

    def setattr(self, base, attr, v, node, st):
        self.effect('set', base, attr, node)
        for x in base:
            if x[0] == 'N':
                st.put(x, v)
        keep = frozenset(x for x in v if x[0] in ('P', 'I', 'G'))
        for x in base:
            if x[0] == 'P':
                for y in keep:
                    self.new.effects.setdefault(('keep', x, (attr, y)), self.at(node))

    # -- expressions -------------------------------------------------------------------------------
    def site(self, node):
        return ('N', (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__))

    def made(self, node, toks, st):
        n = self.site(node)
        st.put(n, toks)
        return frozenset({n})

    def lookup(self, name, st):
        if st.env is not None and name in st.env:
            return st.env[name]
        r = self.prog.resolve_name(self.mod, name)
        if isinstance(r, tuple) and r[0] == 'expr' and self.mutable(r[1]):
            return frozenset({('G', '{}.{}'.format(r[2].short, name))})
        if isinstance(r, tuple) and r[0] == 'unknown':
            return frozenset({('G', '{}.{}'.format(self.mod.short, name))})
        if isinstance(r, (FnInfo, ClsInfo)):
            return frozenset({('G', r.qual)})
        return E

    @staticmethod
    def mutable(e):
        return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or \
            isinstance(e, ast.Call)

    def ev(self, e, st):
        if e is None:
            return E
        if st.env is None:
            return E
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return E

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(e.target, v, None, st)
        return v

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(e.test, a, True)
        self.narrow(e.test, b, False)
        return self.ev(e.body, a) | self.ev(e.orelse, b)

    def e_BoolOp(self, e, st):
        out = E
        for v in e.values:
            out |= self.ev(v, st)
        return out

    def e_Lambda(self, e, st):
        key = id(e)
        self.lams[key] = (e, st)
        return frozenset({('L', key)})

    def e_Tuple(self, e, st):
        out = E
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out |= st.elements(self.ev(x.value, st))
            else:
                out |= self.ev(x, st)
        return self.made(e, out, st)

    e_List = e_Set = e_Tuple

    def e_Dict(self, e, st):
        out = E
        for k, v in zip(e.keys, e.values):
            if k is None:
                out |= st.elements(self.ev(v, st))
            else:
                out |= self.ev(k, st) | self.ev(v, st)
        return self.made(e, out, st)

    def comp(self, e, st, *elts):
        s2 = st.copy()
        for g in e.generators:
            self.bind(g.target, s2.elements(self.ev(g.iter, s2)), None, s2)
            for c in g.ifs:
                self.ev(c, s2)
                self.narrow(c, s2, True)
        out = E
        for x in elts:
            out |= self.ev(x, s2)
        return self.made(e, out, st)

    def e_ListComp(self, e, st):
        return self.comp(e, st, e.elt)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, st, e.key, e.value)

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        v = st.elements(a) | st.elements(b)
        return self.made(e, v, st)

    def e_Attribute(self, e, st):
        r = self.static(e, st)
        if isinstance(r, (FnInfo, ClsInfo)):
            return frozenset({('G', r.qual)})
        if isinstance(r, tuple) and r[0] == 'expr' and self.mutable(r[1]):
            return frozenset({('G', '{}.{}'.format(r[2].short, e.attr))})
        b = self.ev(e.value, st)
        return self.attr(b, e.attr, st)

    def attr(self, b, name, st):
        out = E
        getters = [f for f in self.an.by_method.get(name, ()) if f.info.is_property]
        if getters:
            for f in getters:
                out |= self.apply(f, [b], {}, None, st, None)
            return out
        return st.step(b, name)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        self.ev(e.slice, st)
        if isinstance(e.slice, ast.Slice):
            return self.made(e, st.elements(b), st)
        return st.elements(b)

    def e_Starred(self, e, st):
        return st.elements(self.ev(e.value, st))

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else E
        n = ('N', 'yield')
        st.put(n, v)
        self.returns |= frozenset({n})
        return E

    def e_YieldFrom(self, e, st):
        v = st.elements(self.ev(e.value, st))
        n = ('N', 'yield')
        st.put(n, v)
        self.returns |= frozenset({n})
        return E

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # -- calls -------------------------------------------------------------------------------------
    def static(self, f, st):
        """What the function expression denotes when it is a name of a module or class, not a variable."""
        n = f
        while isinstance(n, ast.Attribute):
            n = n.value
        if not isinstance(n, ast.Name) or st.env is None:
            return None
        if n.id in st.env:
            v = st.env[n.id]
            if len(v) != 1 or next(iter(v))[0] != 'X':
                return None
            dotted = next(iter(v))[1]
            for a in ast.unparse(f).split('.')[1:]:
                dotted += '.' + a
            return self.prog.resolve_dotted(dotted)
        r = self.prog.resolve_expr_static(f, self.mod)
        if r is None and isinstance(f, ast.Attribute):
            b = self.static(f.value, st)
            if isinstance(b, ClsInfo):
                return self.prog.cls_lookup(b, f.attr)[1]
        return r

    def e_Call(self, e, st):
        self.an.calls += 1
        args, kws = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', st.elements(self.ev(a.value, st))))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kws[None] = st.elements(v)
            else:
                kws[k.arg] = v
        flat = E
        for a in args:
            flat |= a[1] if isinstance(a, tuple) else a
        for v in kws.values():
            flat |= v
        r = self.static(e.func, st)
        r = self.alias(r)
        if isinstance(r, FnInfo):
            f = self.an.by_node.get(id(r.node))
            if f is not None:
                return self.apply(f, args, kws, e, st, flat)
            return E
        if isinstance(r, ClsInfo):
            return self.construct(r, args, kws, e, st, flat)
        if isinstance(r, tuple) and r[0] == 'ext':
            return self.external(r[1], args, kws, e, st, flat)
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and \
                    e.func.value.func.id == 'super':
                return self.super_call(e, args, kws, st, flat)
            b = self.ev(e.func.value, st)
            return self.method(b, e.func.attr, args, kws, e, st, flat)
        fv = self.ev(e.func, st)
        out = E
        for t in fv:
            if t[0] == 'L':
                out |= self.call_local(t[1], args, kws, e, st)
        return out

    def alias(self, r, depth=0):
        """Follow name = other.name."""
        while isinstance(r, tuple) and r and r[0] == 'expr' and depth < 5:
            n = self.prog.resolve_expr_static(r[1], r[2])
            if n is None and isinstance(r[1], ast.Attribute):
                b = self.prog.resolve_expr_static(r[1].value, r[2])
                if isinstance(b, ClsInfo):
                    n = self.prog.cls_lookup(b, r[1].attr)[1]
            if n is None:
                return r
            r, depth = n, depth + 1
        return r

    def super_call(self, e, args, kws, st, flat):
        if self.fn.cls is not None:
            for c in self.prog.mro(self.fn.cls)[1:]:
                if isinstance(c, ClsInfo) and e.func.attr in c.methods:
                    f = self.an.by_node.get(id(c.methods[e.func.attr].node))
                    me = frozenset({('P', self.fn.params[0])}) if self.fn.params else E
                    if f is not None:
                        return self.apply(f, [me] + args, kws, e, st, flat)
        return E

    def construct(self, ci, args, kws, e, st, flat):
        n = self.site(e)
        if ci.cid in self.an.mo_classes:
            self.fn.mosites.add(n)
            st.put(n, st.elements(flat) | flat)
        else:
            st.put(n, flat)
        me = frozenset({n})
        _, init = self.prog.cls_lookup(ci, '__init__')
        if isinstance(init, FnInfo):
            f = self.an.by_node.get(id(init.node))
            if f is not None:
                self.apply(f, [me] + args, kws, e, st, flat)
        return me

    def external(self, dotted, args, kws, e, st, flat):
        name = dotted.rpartition('.')[2]
        a0 = args[0] if args and not isinstance(args[0], tuple) else E
        owner = dotted.rpartition('.')[0]
        if owner in BUILTIN_TYPES:
            return self.method(a0, name, args[1:], kws, e, st, flat)
        if dotted.lstrip('_') in MUT1 or dotted in MUT1:
            self.effect('mut' if dotted not in INPLACE else 'aug', a0, name, e)
            return a0
        if name == 'setattr' and len(e.args) == 3:
            c = e.args[1]
            self.setattr(a0, c.value if isinstance(c, ast.Constant) else '?', args[2] if len(args) > 2 else E, e, st)
            return E
        if dotted == 'builtins.object.__setattr__' and len(e.args) == 3:
            c = e.args[1]
            self.setattr(a0, c.value if isinstance(c, ast.Constant) else '?', args[2], e, st)
            return E
        if name in ('vars',):
            return a0
        if name == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            out = self.attr(a0, str(e.args[1].value), st)
            for a in args[2:]:
                out |= a if not isinstance(a, tuple) else a[1]
            return out
        if name == 'reduce' and len(args) >= 2:
            seq = args[1] if not isinstance(args[1], tuple) else E
            acc = args[2] if len(args) > 2 else st.elements(seq)
            elem = st.elements(seq)
            fr = self.static(e.args[0], st)
            if isinstance(fr, tuple) and fr[0] == 'ext':
                d = fr[1].replace('_operator', 'operator')
                if d in INPLACE:
                    self.effect('aug', acc, d, e)
                    return acc
            out = self.callv(e.args[0], args[0], [acc, elem], e, st)
            out |= self.callv(e.args[0], args[0], [out, elem], e, st)
            return acc | out
        if name == 'map' and args:
            out = E
            rest = [st.elements(a[1] if isinstance(a, tuple) else a) for a in args[1:]]
            out |= self.callv(e.args[0], args[0], rest, e, st)
            return self.made(e, out, st)
        if name in FIRST:
            out = E
            for a in args:
                out |= a[1] if isinstance(a, tuple) else st.elements(a)
            return out | (flat if len(args) > 1 else E)
        if name in COPIERS:
            for k in ('key', None):
                pass
            out = st.elements(flat)
            if name in ('chain', 'zip', 'product', 'enumerate', 'from_iterable', 'groupby', 'dict'):
                out |= st.elements(out) if name in ('from_iterable', 'dict') else E
            if name in ('filter', 'sorted') and args:
                self.callv(e.args[0], args[0], [st.elements(args[1] if len(args) > 1 else E)], e, st) \
                    if name == 'filter' else None
            return self.made(e, out, st)
        return E

    def callv(self, node, val, args, e, st):
        r = self.alias(self.static(node, st)) if isinstance(node, (ast.Name, ast.Attribute)) else None
        if isinstance(r, FnInfo):
            f = self.an.by_node.get(id(r.node))
            return self.apply(f, args, {}, e, st, E) if f is not None else E
        if isinstance(r, ClsInfo):
            fl = E
            for a in args:
                fl |= a
            return self.construct(r, args, {}, e, st, fl)
        if isinstance(r, tuple) and r[0] == 'ext':
            fl = E
            for a in args:
                fl |= a
            if '.' in r[1] and r[1].rpartition('.')[0] in BUILTIN_TYPES and args:
                return self.method(args[0], r[1].rpartition('.')[2], args[1:], {}, e, st, fl)
            if r[1] in BUILTIN_TYPES or r[1].rpartition('.')[2] in COPIERS:
                return self.made(e, st.elements(fl), st)
            return E
        out = E
        for t in (val if not isinstance(val, tuple) else E):
            if t[0] == 'L':
                out |= self.call_local(t[1], args, {}, e, st)
        return out

    def method(self, b, name, args, kws, e, st, flat):
        if name in MUTATORS:
            self.effect('mut', b, name, e)
            for x in b:
                if x[0] == 'N':
                    if name in ('update', 'extend', 'extendleft', '__ior__', '__iadd__', 'subtract'):
                        st.put(x, st.elements(flat))
                    elif name in ('setdefault', '__setitem__') and not any(isinstance(a, tuple) for a in args):
                        for a in args[1:]:      # the values, not the keys
                            st.put(x, a)
                    else:
                        st.put(x, flat)
        if name in TAKES:
            extra = E
            for a in args[1:]:
                extra |= a[1] if isinstance(a, tuple) else a
            return st.elements(b) | extra
        if name in FRESH:
            return self.made(e, st.elements(b) | (st.elements(flat) if name in ('union', 'symmetric_difference') else E), st)
        if name in MUTATORS:
            return E
        out = E
        for f in self.an.by_method.get(name, ()):
            if f.info.is_property:
                continue
            if f.is_method:
                out |= self.apply(f, [b] + args, kws, e, st, flat)
            else:
                out |= self.apply(f, args, kws, e, st, flat)
        for x in b:                             # function values kept in variables of enclosing objects
            if x[0] == 'L':
                pass
        return out

    def bind_args(self, params, kwonly, vararg, kwarg, args, kws, e, st):
        amap = {}
        i, rest, star = 0, E, E
        for a in args:
            if isinstance(a, tuple):
                star |= a[1]
                continue
            if i < len(params):
                amap[params[i]] = amap.get(params[i], E) | a
                i += 1
            else:
                rest |= a
        if star:
            for p in params[i:]:
                amap[p] = amap.get(p, E) | star
            rest |= star
        for k, v in kws.items():
            if k is None:
                for p in params + kwonly:
                    amap[p] = amap.get(p, E) | v
            elif k in params or k in kwonly:
                amap[k] = amap.get(k, E) | v
            else:
                rest |= v
        return amap, rest

    def apply(self, f, args, kws, e, st, flat):
        """Effects and result of a call of a library function, from its summary."""
        amap, rest = self.bind_args(f.params, f.kwonly, f.vararg, f.kwarg, args, kws, e, st)
        for v in (f.vararg, f.kwarg):
            if v:
                amap[v] = rest
        s = f.sum

        def tr(t):
            if t[0] == 'P':
                return amap.get(t[1], E)
            if t[0] == 'I':
                out = amap.get(t[1], E)
                for a in t[2]:
                    out = st.step(out, a if a != '*' else '[]')
                return out
            return frozenset({t})
        for (kind, t, detail), where in s.effects.items():
            if kind == 'keep':
                attr, src = detail
                for x in tr(t):
                    if x[0] == 'N' and not self.fn.mo_site(x):
                        st.put(x, tr(src))
                    elif x[0] == 'P':
                        for y in tr(src):
                            if y[0] in ('P', 'I', 'G'):
                                self.new.effects.setdefault(('keep', x, (attr, y)), where)
                continue
            if kind in ('set', 'augset') and f.node.name == '__init__' and t[0] == 'P' and f.params and \
                    t[1] == f.params[0] and self.fn.node.name != '__init__':
                continue
            self.carry(kind, tr(t), detail, where)
        out = E
        for t in s.ret:
            out |= tr(t)
        if s.fresh:
            c = E
            for t in s.retcont:
                c |= tr(t)
            if e is not None:
                out |= self.made(e, c, st)
            else:
                n = ('N', ('call', f.qual))
                st.put(n, c)
                out |= {n}
        return out

    def call_local(self, key, args, kws, e, st, bind=True):
        if key in self.lams:
            node, pst = self.lams[key]
        elif key in self.an.lams:               # made by another function: what it captured there has been looked at there
            node, pst = self.an.lams[key]
            pst = State(st.fn, {k: frozenset(x for x in v if x[0] in ('X', 'G')) for k, v in (pst.env or {}).items()}, {})
        else:
            return E
        if key in self.active or len(self.active) > 6:
            return E
        self.active.append(key)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        base = dict(pst.env) if pst.env is not None else dict(st.env or {})
        if st.env is not None:                  # captured variables as they are at the time of the call
            for k, v in st.env.items():
                if k in base:
                    base[k] = base[k] | v
                else:
                    base[k] = v
        amap, rest = self.bind_args(params, kwonly, a.vararg, a.kwarg, args, kws, e, st)
        for p in params + kwonly:
            base[p] = amap.get(p, E)
        for v in (a.vararg, a.kwarg):
            if v:
                n = ('N', (node.lineno if hasattr(node, 'lineno') else 0, v.arg))
                st.put(n, rest)
                base[v.arg] = frozenset({n})
        local = State(st.fn, base, st.cont)
        keep = self.returns, self.loops, self.conts
        self.returns, self.loops, self.conts = E, (), ()
        if isinstance(node, ast.Lambda):
            out = self.ev(node.body, local)
        else:
            self.block(node.body, local)
            out = self.returns
        self.returns, self.loops, self.conts = keep
        self.active.pop()
        nl = {x for s in ast.walk(node) if isinstance(s, ast.Nonlocal) for x in s.names}
        if st.env is not None and local.env is not None:
            for x in nl:
                if x in local.env:
                    st.env[x] = st.env.get(x, E) | local.env[x]
        return out
