"""C28: the result of an operation depends on its arguments, not on what was called before.

Effect analysis finds every location that outlives a call and that some function writes (module variables and the
containers in them, attributes of functions and classes, default arguments, memo decorators). Each must be
  - part of a documented setting, written by its own methods only;
  - never read;
  - set anew on every path of every public function before it can be read;
  - a constant that is made once and does not depend on an argument; or
  - a table of results: looked up by keys that tell all arguments apart on which the stored result depends."""
import ast

from .effects import Effects
from .loader import AnalysisBroken, ClsInfo, FnInfo, Program
from .owner import api
from .report import Report

# documented settings and diagnostics, with state by design
SETTINGS = {'undef.RaiseOnUndef', 'util.latexprinter.Config', 'util.miscellaneous.FunctionTimer'}
LOSSY = {'id', 'hash', 'len', 'bool', 'int', 'type', 'sum', 'max', 'min', 'any', 'all', 'round', 'abs'}
LOSSY_ATTR = {'cardinality', 'name', 'is_empty', 'is_set', 'is_atom', 'is_couplet', 'is_multiset', '__class__', '__name__',
              'left', 'right', 'value', '__hash__', 'get_left_set', 'lower', 'upper', 'strip', 'casefold'}
READERS = {'get', 'setdefault', '__contains__', '__getitem__'}
HOUSEKEEPING = {'clear', 'pop', 'popitem', 'move_to_end', 'popleft'}
MEMO = {'functools.lru_cache', 'functools.cache'}
CONVERT = {'auto_convert', 'Atom', 'isinstance', 'type', 'make_or_raise_undef', 'make_or_raise_undef2', 'convert_args'}


def own(node):
    """All nodes of a function except those of nested functions and classes (their names are yielded)."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            stack = list(ast.iter_child_nodes(n)) + stack


class Cell:
    def __init__(self, name):
        self.name = name
        self.owner, _, self.attr = name.rpartition('.')
        self.sets = {}      # direct writers that give it a new value: (where, qual) -> detail
        self.muts = {}      # direct writers that change what it holds
        self.via = {}       # direct writer -> functions that reach it


class Check:
    def __init__(self):
        self.prog = Program(raw=True)
        self.an = Effects(self.prog).run()
        self.rep = Report()
        self.fn_by_qual = {}
        for f in self.an.fns:
            self.fn_by_qual.setdefault(f.qual, f)
        self.memo = {}

    # -- inventory ----------------------------------------------------------------------------------------------------
    def cells(self):
        cells = {}
        for f in self.an.fns:
            for (kind, t, detail), where in f.sum.effects.items():
                if t[0] != 'G' or kind == 'keep':
                    continue
                name = t[1]
                if kind in ('set', 'augset') and detail != 'rebound':
                    name += '.' + str(detail)
                if kind == 'aug' and not self.container(name):
                    continue
                c = cells.setdefault(name, Cell(name))
                (c.muts if kind in ('mut', 'aug') else c.sets)[where] = str(detail)
                c.via.setdefault(where, set()).add(f.qual)
        return cells

    def container(self, name):
        """An augmented assignment changes a container in place, and only rebinds the variable for anything else."""
        for mod in self.prog.modules.values():
            if name.startswith(mod.short + '.'):
                rest = name[len(mod.short) + 1:]
                if '(' in rest:
                    return True
                b = mod.bindings.get(rest.split('.')[0])
                if b and isinstance(b[-1], tuple) and b[-1][0] == 'expr' and '.' not in rest:
                    return isinstance(b[-1][1], (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp))
                if b and isinstance(b[-1], ClsInfo) and rest.count('.') == 1:
                    for s in b[-1].node.body:
                        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == rest.split('.')[1] for x in s.targets):
                            return isinstance(s.value, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp))
        return False

    # -- occurrences --------------------------------------------------------------------------------------------------
    def is_owner(self, e, f, c):
        """The expression denotes the owner (function, class, instance or module) of the attribute cell."""
        r = self.prog.resolve_expr_static(e, f.module) if not (isinstance(e, ast.Name) and e.id in f.params) else None
        if isinstance(r, (FnInfo, ClsInfo)):
            return r.qual == c.owner
        if isinstance(r, tuple) and r[0] == 'mod':
            return r[1].short == c.owner
        if isinstance(r, tuple) and r[0] == 'expr' and isinstance(e, ast.Name):
            return '{}.{}'.format(r[2].short, e.id) == c.owner
        if f.cls is not None and any(k.qual == c.owner for k in self.prog.mro(f.cls) if isinstance(k, ClsInfo)):
            if isinstance(e, ast.Name) and f.params and e.id == f.params[0]:
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type':
                return True
            if isinstance(e, ast.Attribute) and e.attr == '__class__':
                return True
        return False

    def occurs(self, e, f, c, aliases=()):
        """'load', 'store' or 'test' when the node is an occurrence of the cell."""
        if isinstance(e, ast.Name):
            if e.id in aliases:
                return 'load' if isinstance(e.ctx, ast.Load) else None
            if '(' in c.name:
                return ('load' if isinstance(e.ctx, ast.Load) else 'store') if c.name == '{}({})'.format(f.qual, e.id) else None
            if c.name.rpartition('.')[2] == e.id and c.owner == f.module.short and not self.local(e.id, f):
                return 'load' if isinstance(e.ctx, ast.Load) else 'store'
            if isinstance(e.ctx, ast.Load) and c.name.rpartition('.')[2] == e.id and not self.local(e.id, f):
                b = f.module.bindings.get(e.id)
                if b and isinstance(b[-1], tuple) and b[-1][0] == 'import' and b[-1][1].endswith('.' + c.name):
                    return 'load'
            return None
        if '(' in c.name:
            return None
        if isinstance(e, ast.Attribute) and e.attr == c.attr and self.is_owner(e.value, f, c):
            return 'load' if isinstance(e.ctx, ast.Load) else 'store'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) \
                and e.args[1].value == c.attr and self.is_owner(e.args[0], f, c):
            return {'getattr': 'load', 'hasattr': 'test', 'setattr': 'store', 'delattr': 'store'}.get(e.func.id)
        return None

    def local(self, name, f):
        if name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg):
            return True
        glob = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
        if name in glob:
            return False
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own(f.node))

    # -- set anew before it is read --------------------------------------------------------------------------------------
    def resolve(self, e, f, env):
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, ast.Name) and self.local(e.id, f):
            return None
        r = self.prog.resolve_expr_static(e, f.module) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, FnInfo):
            return [r.node]
        if isinstance(r, ClsInfo):
            out = []
            for n in ('__new__', '__init__'):
                m = self.prog.cls_lookup(r, n)
                if m and isinstance(m[1], FnInfo):
                    out.append(m[1].node)
            return out
        return None

    def unset(self, f, c):
        """(may read the cell before it is set, certainly sets it) for a call of the function."""
        return self.walk_fn(f.node, f, c, {})

    def walk_fn(self, node, f, c, env):
        g = self.an.by_node.get(id(node))
        f = g or f
        k = (id(node), c.name)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (False, False)
        w = [False]
        st = self.seq(node.body if isinstance(node.body, list) else [ast.Expr(node.body)], False, f, c, dict(env), w)
        if g is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)):
            st = False
        self.memo[k] = (w[0], st)
        return self.memo[k]

    def seq(self, body, st, f, c, env, w):
        for s in body:
            st = self.stmt(s, st, f, c, env, w)
        return st

    def stmt(self, s, st, f, c, env, w):
        if isinstance(s, ast.FunctionDef):
            env[s.name] = [s]
            return st
        if isinstance(s, (ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Pass)):
            return st
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and self.occurs(s.targets[0], f, c) and self.occurs(s.value, f, c):
                return st                       # makes sure that there is one
            st = self.expr(s.value, st, f, c, env, w)
            for t in s.targets:
                if self.occurs(t, f, c) == 'store':
                    st = True
                else:
                    st = self.expr(t, st, f, c, env, w)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st, f, c, env, w)
            if self.occurs(s.target, f, c):
                return st                       # an update: what it reads only matters to later reads
            return self.expr(s.target, st, f, c, env, w)
        if isinstance(s, ast.If):
            st = self.expr(s.test, st, f, c, env, w)
            return self.seq(s.body, st, f, c, env, w) & self.seq(s.orelse, st, f, c, env, w)
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(s.iter if isinstance(s, ast.For) else s.test, st, f, c, env, w)
            self.seq(s.body, st, f, c, env, w)
            return self.seq(s.orelse, st, f, c, env, w)
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st, f, c, env, w)
            return self.seq(s.body, st, f, c, env, w)
        if isinstance(s, ast.Try):
            a = self.seq(s.body, st, f, c, env, w)
            a = self.seq(s.orelse, a, f, c, env, w)
            for h in s.handlers:
                a &= self.seq(h.body, st, f, c, env, w)
            return self.seq(s.finalbody, a, f, c, env, w)
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                st = self.expr(x, st, f, c, env, w)
        return True if isinstance(s, (ast.Return, ast.Raise)) else st

    def expr(self, e, st, f, c, env, w):
        if e is None:
            return st
        o = self.occurs(e, f, c)
        if o == 'load' and not st:
            w[0] = True
        if isinstance(e, ast.Call) and o == 'store':
            return True
        if isinstance(e, ast.Lambda):
            r, _ = self.walk_fn(e, f, c, env)
            w[0] |= r and not st
            return st
        target = self.resolve(e, f, env) if isinstance(e, (ast.Name, ast.Attribute)) and not o else None
        called = target if target is not None else ()
        if isinstance(e, ast.Attribute) and target is None and not o:
            called = [g.node for g in self.an.by_method.get(e.attr, ())]
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                st = self.expr(x, st, f, c, env, w)
            elif isinstance(x, ast.comprehension):
                st = self.expr(x.iter, st, f, c, env, w)
                for y in x.ifs:
                    self.expr(y, st, f, c, env, w)
            elif isinstance(x, ast.keyword):
                st = self.expr(x.value, st, f, c, env, w)
        must = bool(called) and target is not None
        for node in called:
            r, m = self.walk_fn(node, f, c, env if target is not None and isinstance(e, ast.Name) and e.id in env else {})
            w[0] |= r and not st
            must &= m
        if isinstance(e, ast.Call) and target is None:
            t2 = self.resolve(e.func, f, env) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if t2 and all(self.walk_fn(n, f, c, {})[1] for n in t2):
                st = True
        return st

    # -- tables of results ------------------------------------------------------------------------------------------------
    def aliases(self, f, c):
        out = set()
        for n in own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    self.occurs(n.value, f, c) == 'load':
                out.add(n.targets[0].id)
        return out

    def uses(self, f, c):
        """Classified occurrences in one function: (form, node, key expression, stored value)."""
        al = self.aliases(f, c)
        parent = {}
        for n in ast.walk(f.node):
            for x in ast.iter_child_nodes(n):
                parent[x] = n
        out = []
        for n in ast.walk(f.node):
            o = self.occurs(n, f, c, al)
            if o is None or isinstance(parent.get(n), ast.Call) and self.occurs(parent[n], f, c, al):
                continue
            p = parent.get(n)
            if o == 'store':
                val = p.value if isinstance(p, (ast.Assign, ast.AnnAssign)) else n.args[2] if isinstance(n, ast.Call) and len(n.args) > 2 else None
                out.append(('aug' if isinstance(p, ast.AugAssign) else 'set', n, None, val))
            elif o == 'test':
                out.append(('test', n, None, None))
            elif isinstance(p, ast.Assign) and p.value is n and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                continue                                            # an alias
            elif isinstance(p, ast.Subscript) and p.value is n:
                q = parent.get(p)
                if isinstance(p.ctx, ast.Store) and (isinstance(q, ast.AugAssign) or isinstance(q, ast.Assign) and self.counts(q.value, f, c, al)):
                    out.append(('count', p, p.slice, None))         # the new entry depends on the old one
                elif isinstance(p.ctx, ast.Store):
                    out.append(('put', p, p.slice, q.value if isinstance(q, ast.Assign) else None))
                elif isinstance(p.ctx, ast.Del):
                    out.append(('drop', p, None, None))
                elif isinstance(q, ast.BinOp) and isinstance(parent.get(q), ast.Assign) and self.counts(q, f, c, al) and \
                        any(isinstance(t, ast.Subscript) and self.occurs(t.value, f, c, al) for t in parent[q].targets):
                    continue
                else:
                    out.append(('look', p, p.slice, None))
            elif isinstance(p, ast.Compare) and len(p.ops) == 1 and p.comparators[0] is n and isinstance(p.ops[0], (ast.In, ast.NotIn)):
                out.append(('look', p, p.left, None))
            elif isinstance(p, ast.Compare) and len(p.ops) == 1 and isinstance(p.ops[0], (ast.Is, ast.IsNot)):
                out.append(('test', p, None, None))
            elif isinstance(p, (ast.If, ast.While, ast.IfExp)) and getattr(p, 'test', None) is n or isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                out.append(('test', p, None, None))
            elif isinstance(p, ast.Attribute) and isinstance(parent.get(p), ast.Call) and parent[p].func is p:
                q = parent[p]
                if p.attr in ('get', '__getitem__', '__contains__') and q.args:
                    out.append(('look', q, q.args[0], None))
                elif p.attr == 'setdefault' and q.args:
                    out.append(('put', q, q.args[0], q.args[1] if len(q.args) > 1 else None))
                elif p.attr == '__setitem__' and len(q.args) == 2:
                    out.append(('put', q, q.args[0], q.args[1]))
                elif p.attr == 'add' and q.args:
                    out.append(('put', q, q.args[0], None))
                elif p.attr in ('append', 'extend', 'insert', 'update', 'remove', 'discard', 'appendleft') and isinstance(parent.get(q), ast.Expr):
                    out.append(('count', q, None, None))
                elif p.attr in HOUSEKEEPING and isinstance(parent.get(q), ast.Expr):
                    out.append(('drop', q, None, None))
                else:
                    out.append(('use', q, None, None))
            elif isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'len':
                out.append(('test', p, None, None))
            elif isinstance(p, ast.Expr):
                continue
            else:
                out.append(('use', n, None, None))
        return out

    def counts(self, val, f, c, al):
        """Whether a value is computed from what the cell holds."""
        return any(isinstance(n, ast.BinOp) and any(isinstance(x, ast.Subscript) and self.occurs(x.value, f, c, al) for x in (n.left, n.right))
                   for n in ast.walk(val))

    def closure(self, names, f, stop=()):
        """Parameters on which the values of local names may depend."""
        defs = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            defs.setdefault(x.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                defs.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(n.iter)
            elif isinstance(n, ast.NamedExpr):
                defs.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if isinstance(i.optional_vars, ast.Name):
                        defs.setdefault(i.optional_vars.id, []).append(i.context_expr)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                    isinstance(n.value.func.value, ast.Name):
                defs.setdefault(n.value.func.value.id, []).append(n.value)          # x.append(y)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                defs.setdefault(n.name, []).append(n)
            if isinstance(n, (ast.If, ast.While)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        defs.setdefault(x.id, []).append(n.test)
        params = set(f.params) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}
        seen, todo, out = set(), list(names), set()
        while todo:
            n = todo.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            if n in params:
                out.add(n)
            for e in defs.get(n, ()):
                todo.extend(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
        return out

    def keyparts(self, e, f, depth=0):
        """(names that the key tells apart completely, why it does not tell arguments apart)"""
        if isinstance(e, ast.Name):
            if e.id not in f.params and e.id not in f.kwonly and depth < 4:
                vals = [n.value for n in own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                if len(vals) == 1:
                    return self.keyparts(vals[0], f, depth + 1)
            vals = [n.value for n in own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            lossy = next((w for w in (self.keyparts(v, f, 9)[1] for v in vals if depth < 4) if w), None)
            return {e.id}, lossy
        if isinstance(e, (ast.Tuple, ast.List)):
            out, why = set(), None
            for x in e.elts:
                a, w = self.keyparts(x, f, depth)
                out |= a
                # in a tuple, a lossy part does no harm as long as the whole value is there, too
                why = why or w
            names = {x.id for x in e.elts if isinstance(x, ast.Name)}
            if why and {n.id for x in e.elts for n in ast.walk(x) if isinstance(n, ast.Name) and n.id in f.params} <= names:
                why = None
            return out, why
        if isinstance(e, ast.Constant):
            return set(), None
        if isinstance(e, ast.Call):
            fn = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if fn in LOSSY or fn in LOSSY_ATTR:
                return set(), '{}(...) of it'.format(fn)
            out, why = set(), None
            for x in list(e.args) + [k.value for k in e.keywords] + ([e.func.value] if isinstance(e.func, ast.Attribute) else []):
                if isinstance(x, ast.Starred):
                    x = x.value
                a, w = self.keyparts(x, f, depth)
                out |= a
                why = why or w
            return out, why
        if isinstance(e, ast.Attribute):
            if e.attr in LOSSY_ATTR:
                return set(), 'its ' + e.attr
            return self.keyparts(e.value, f, depth) if e.attr in ('data', '_data') else (set(), None)
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}, None

    def table(self, c, found, bad):
        """Whether all uses are those of a table of results; bad(what, function, line) for entries that are shared wrongly."""
        for f, us in found.items():
            for form, node, key, val in us:
                if form in ('use', 'aug', 'count'):
                    return False
                if form == 'set' and val is not None and not self.fresh(val) and not self.occurs(val, f, c):
                    return False
        for f, us in found.items():
            puts = [u for u in us if u[0] == 'put']
            looks = [u for u in us if u[0] == 'look']
            for form, node, key, val in puts + looks:
                parts, why = self.keyparts(key, f)
                if why and not any(isinstance(x, ast.Name) and x.id in f.params for v in [val] if v is not None for x in
                                   (v.elts if isinstance(v, ast.Tuple) else [])):
                    bad('two different arguments share an entry of {}: the key is only {}'.format(c.name, why), f, node)
                if form != 'put':
                    continue
                names = {x.id for x in ast.walk(val) if isinstance(x, ast.Name)} if val is not None else set()
                keyed = self.closure(parts, f) if not (parts & (set(f.params) | set(f.kwonly))) else parts
                deps = self.closure(names, f, stop=parts)
                # arguments that decide which value is stored
                first = min([u[1].lineno for u in looks + puts])
                for n in own(f.node):
                    if isinstance(n, (ast.If, ast.While, ast.IfExp)) and n.lineno >= first:
                        if any(x is node for x in ast.walk(n)) or val is not None and isinstance(val, ast.Name):
                            deps |= self.closure({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}, f, stop=parts)
                miss = deps - keyed - parts
                if f.cls is not None and f.params and f.info.is_class:
                    miss.discard(f.params[0])
                for p in sorted(miss):
                    bad('an entry of {} is found again for another {}, on which it depends'.format(c.name, p), f, node)
                if not miss and not why and val is not None:
                    self.converted(c, f, parts, val, node, first, bad)
        return True

    def converted(self, c, f, parts, val, node, first, bad):
        """Keys compare 1, 1.0 and True as equal; what is stored must not tell them apart. An undefined result must not be stored
        either: it is an exception for other raise levels."""
        typed = {a.id for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'type'
                 for a in n.args if isinstance(a, ast.Name)}
        conv = set()        # converted before the lookup
        for n in own(f.node):
            if isinstance(n, ast.Assign) and n.lineno < first and isinstance(n.value, ast.Call) and self.callee(n.value) in ('auto_convert', 'Atom'):
                conv |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for x in ast.walk(val):
            if isinstance(x, ast.Call):
                args = {a.id for a in x.args if isinstance(a, ast.Name)}
                if self.callee(x) in ('auto_convert', 'Atom') and args & (parts - conv - typed) & (set(f.params) | set(f.kwonly)):
                    bad('an entry of {} is found again for an equal value of another type (1, 1.0, True)'.format(c.name), f, node)

    @staticmethod
    def callee(x):
        return x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)

    def fresh(self, val):
        return isinstance(val, (ast.Dict, ast.List, ast.Set, ast.Constant)) and not list(ast.iter_child_nodes(val))[:1] or \
            isinstance(val, ast.Constant) or isinstance(val, ast.Call) and not val.args or isinstance(val, (ast.Dict, ast.List)) and \
            not (getattr(val, 'keys', None) or getattr(val, 'elts', None))

    def once(self, c, found):
        """A constant made on first use: it depends on no argument and is made only while it is missing."""
        changers = {w[1] for w in c.muts}
        for f, us in found.items():
            for form, node, key, val in us:
                if form in ('aug', 'put', 'count') or form == 'use' and f.qual in changers:
                    return False
                if form == 'set':
                    if val is None:
                        return False
                    if self.occurs(val, f, c):
                        continue
                    deps = self.closure({x.id for x in ast.walk(val) if isinstance(x, ast.Name)}, f)
                    if f.params and (f.info.is_class or f.info.name == '__new__'):
                        deps.discard(f.params[0])
                    if deps:
                        return False
                    if isinstance(val, ast.Constant) and val.value is None:
                        continue
                    if not self.guarded(f, node, c):
                        return False
        return True

    def guarded(self, f, node, c):
        def has(n):
            return any(x is node for x in ast.walk(n))
        for n in own(f.node):
            if isinstance(n, ast.If) and has(n) and any(self.occurs(x, f, c, self.aliases(f, c)) for x in ast.walk(n.test)):
                return True
            if isinstance(n, ast.Try) and any(has(h) for h in n.handlers):
                return True
        body = f.node.body
        for i, s in enumerate(body):      # if it is there: return it
            if isinstance(s, ast.If) and any(self.occurs(x, f, c, self.aliases(f, c)) for x in ast.walk(s.test)) and \
                    s.body and isinstance(s.body[-1], ast.Return) and any(has(x) for x in body[i + 1:]):
                return True
        return False

    # -- the check --------------------------------------------------------------------------------------------------------
    def run(self, tier):
        rep = self.rep
        rep.rules.update({
            'history': 'no location that outlives a call and is written by a function carries information from one call to a later one',
            'table': 'a table of results is looked up by keys that tell all arguments apart on which the result depends',
            'setting': 'settings are changed by their own methods only',
            'memo': 'a memo decorator is only on functions whose result is one immutable value that depends on equality of arguments'})
        cells = self.cells()
        pub = [f for f in self.an.fns if api(f) and not any(x.startswith('_') for x in f.module.short.split('.'))]
        for name in sorted(cells):
            self.cell(cells[name], pub)
        self.decorators()
        self.iterators()
        for f in self.an.fns:
            rep.ob(f.qual, f.qual not in self.an.broken, self.an.broken.get(f.qual))
        rep.count('functions', len(self.an.fns))
        rep.count('public functions', len(pub))
        rep.count('locations that outlive a call', len(cells))
        rep.count('call sites', self.an.calls)
        rep.count('stores and mutating calls', self.an.stores)
        return rep

    def report(self, rule, c, f, node, text):
        self.rep.find(rule, f.qual, '{}:{}'.format(f.module.rel, node.lineno), text, key='{}|{}|{}'.format(rule, c, text))

    def cell(self, c, pub):
        rep = self.rep
        writers = {w[1] for w in list(c.sets) + list(c.muts)}
        setting = next((s for s in SETTINGS if c.name.startswith(s + '.')), None)
        if setting:
            for where in list(c.sets) + list(c.muts):
                outside = {q for q in c.via[where] if not q.startswith(setting + '.')}
                for q in sorted(outside):
                    g = self.fn_by_qual[q]
                    if self.restores(g):
                        continue
                    if setting.startswith('util.miscellaneous') or setting.startswith('util.latexprinter') and where[1] == q and \
                            not g.qual.startswith('util.latexprinter'):
                        continue
                    self.report('setting', c.name, g, g.node, 'changes the setting {}'.format(c.name))
            rep.ob('setting ' + c.name)
            rep.samples.append('{}: setting'.format(c.name))
            return
        found = {}
        for f in self.an.fns:
            us = self.uses(f, c)
            if us:
                found[f] = us
        reads = [(f, u) for f, us in found.items() for u in us if u[0] in ('use', 'look', 'test') or u[0] == 'put' and isinstance(u[1], ast.Call)]
        if not reads:
            rep.ob('never read ' + c.name)
            rep.samples.append('{}: never read'.format(c.name))
            return
        if c.sets and '(' not in c.name:
            early = []
            for f in pub:
                r, _ = self.unset(f, c)
                if r:
                    early.append(f)
            if not early:
                rep.ob('set before it is read ' + c.name)
                rep.samples.append('{}: set anew by every public function that reads it'.format(c.name))
                return
        if self.once(c, found):
            rep.ob('constant ' + c.name)
            rep.samples.append('{}: made once, depends on no argument'.format(c.name))
            return
        wrong = []
        if any(u[0] == 'put' for us in found.values() for u in us) and self.table(c, found, lambda t, f, n: wrong.append((t, f, n))):
            for t, f, n in wrong:
                self.report('table', c.name, f, n, t)
            rep.ob('table ' + c.name)
            rep.samples.append('{}: table of results'.format(c.name))
            return
        if not found:
            rep.ob('uses of ' + c.name, False, 'uses not found')
            return
        f, u = reads[0] if reads else next((f, us[0]) for f, us in found.items())
        self.report('history', c.name, f, u[1], '{} keeps information from one call to the next (written in {})'.format(
            c.name, ', '.join(sorted(writers))))
        rep.ob('history ' + c.name)

    @staticmethod
    def restores(g):
        return any(isinstance(n, ast.Try) and n.finalbody for n in ast.walk(g.node))

    def decorators(self):
        for f in self.an.fns:
            decs = [d.func if isinstance(d, ast.Call) else d for d in f.node.decorator_list]
            memo = [d for d in decs if self.prog.resolve_expr_static(d, f.module) in [('ext', x) for x in MEMO]]
            typed = any(isinstance(d, ast.Call) and any(k.arg == 'typed' and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords)
                        for d in f.node.decorator_list)
            if not memo:
                continue
            self.memoised(f, typed)

    def memoised(self, f, typed):
        params = set(f.params) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}
        self.rep.ob('memo ' + f.qual)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f.node)):
            self.report('memo', f.qual, f, f.node, 'a remembered generator is used up by its first user')
        for n in own(f.node):
            if isinstance(n, ast.Return) and isinstance(n.value, (ast.GeneratorExp, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)):
                self.report('memo', f.qual, f, n, 'a remembered container is shared by all callers')
        if not params:
            return
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                cal = self.callee(n)
                args = {a.id for a in n.args if isinstance(a, ast.Name)}
                if cal in ('make_or_raise_undef', 'make_or_raise_undef2'):
                    self.report('memo', f.qual, f, n, 'an undefined result is remembered for other raise levels')
                    return
                if not typed and (cal in ('auto_convert', 'Atom') and args & params or cal in ('isinstance', 'type') and n.args and
                                  isinstance(n.args[0], ast.Name) and n.args[0].id in params):
                    self.report('memo', f.qual, f, n, 'a result is found again for an equal argument of another type (1, 1.0, True)')
                    return

    def iterators(self):
        """next() of an iterator that outlives the call"""
        for f in self.an.fns:
            for n in own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Name) and not self.local(a.id, f) and not any(isinstance(x, ast.FunctionDef) and x is not f.node and any(
                            y is n for y in ast.walk(x)) for x in ast.walk(f.node)):
                        r = self.prog.resolve_name(f.module, a.id)
                        if isinstance(r, tuple) and r[0] == 'expr':
                            self.report('history', a.id, f, n, 'the iterator {} goes on where an earlier call left it'.format(a.id))


def run(tier):
    c = Check()
    if len(c.an.fns) < 100:
        raise AnalysisBroken('only {} functions found'.format(len(c.an.fns)))
    return c.run(tier)
