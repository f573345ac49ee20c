"""Abstract evaluation over shapes: values are constructor terms with opaque parts.

A function is evaluated on an abstract argument whose shape is known (a dictionary with two columns, a union of two
structures, a multiset with one element ...) while its parts are opaque symbols. A test of an opaque part splits the
evaluation in two (trace partitioning); all the combinations are covered. Recursive calls on opaque parts and
calls of the operations of the library are replaced by their specification. Nothing of the library is executed:
the evaluator reads the syntax tree and manipulates terms."""
import ast
import html as _html_mod
import string as _string

from . import model as m
from .loader import AnalysisBroken, ClsInfo, FnInfo, Program


class Unsupported(Exception):
    pass


def reason(x):
    """Why an obligation is undecided: the evaluator met a construct it does not know."""
    if isinstance(x, AnalysisBroken):
        raise x
    return str(x) if isinstance(x, Unsupported) else 'recursion' if isinstance(x, RecursionError) else '{}: {}'.format(type(x).__name__, x)[:120]


class PyRaise(Exception):
    def __init__(self, typ, args=()):
        super().__init__(typ, args)
        self.typ, self.eargs = typ, args


HIER = {'ValueError': 'Exception', 'TypeError': 'Exception', 'AssertionError': 'Exception', 'KeyError': 'LookupError',
        'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception', 'StopIteration': 'Exception',
        'UnicodeDecodeError': 'ValueError', 'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception',
        'ZeroDivisionError': 'ArithmeticError', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
        'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'Exception': 'BaseException',
        'FileNotFoundError': 'OSError', 'JSONDecodeError': 'ValueError', 'RecursionError': 'RuntimeError'}


class Sym:
    """An opaque value; equal terms denote equal values."""
    __slots__ = ('term', 'kind')

    def __init__(self, term, kind=None):
        self.term, self.kind = term, kind

    def __eq__(self, o):
        return isinstance(o, Sym) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return '<%s>' % show(self.term)

    def __lt__(self, o):
        return repr(self) < repr(o)


def show(t):
    if isinstance(t, tuple):
        return '%s(%s)' % (t[0], ', '.join(map(show, t[1:]))) if t and isinstance(t[0], str) else repr(t)
    return repr(t) if not isinstance(t, Sym) else show(t.term)


class _Undef:
    def __repr__(self):
        return 'Undef()'


UNDEF = _Undef()


class MO:
    """A mathematical object: a value of sa.model whose atoms may hold opaque values, and recorded statuses."""

    def __init__(self, val, flags=None):
        self.val, self.flags = val, dict(flags or {})

    def __eq__(self, o):
        return isinstance(o, MO) and self.val == o.val

    def __hash__(self):
        return hash(self.val)

    def __repr__(self):
        return show_mo(self.val)

    def __lt__(self, o):
        return repr(self) < repr(o)


def show_mo(v):
    if v[0] == 'a':
        return 'Atom(%r)' % (v[1],)
    if v[0] == 'c':
        return 'Couplet(%s, %s)' % (show_mo(v[1]), show_mo(v[2]))
    if v[0] == 's':
        return 'Set(%s)' % ', '.join(sorted(map(show_mo, v[1])))
    if v[0] == 'm':
        return 'Multiset(%s)' % ', '.join(sorted('%s: %r' % (show_mo(e), n) for e, n in mitems(v)))
    return repr(v)


def mitems(v):
    d = v[1]
    return list(d.items()) if isinstance(d, dict) else list(d)


KINDNAME = {'a': 'Atom', 'c': 'Couplet', 's': 'Set', 'm': 'Multiset'}


class Klass:
    def __init__(self, name, bases, ns, module, ext=None, mo=None):
        self.name, self.bases, self.ns, self.module, self.ext, self.mo = name, bases, ns, module, ext, mo

    def mro(self):
        out = [self]
        for b in self.bases:
            for x in (b.mro() if isinstance(b, Klass) else [b]):
                if x not in out:
                    out.append(x)
        return out

    def find(self, name, after=None):
        seq = self.mro()
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if isinstance(c, Klass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def sub(self, o):
        return any(x is o for x in self.mro())

    def __repr__(self):
        return self.name


class Inst:
    count = 0

    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        Inst.count += 1
        self.n = Inst.count

    def __repr__(self):
        return '%s(%s)' % (self.cls.name, ', '.join('%s=%r' % kv for kv in self.attrs.items()))


class Func:
    def __init__(self, node, module, frame, cls=None, qual=None):
        self.node, self.module, self.frame, self.cls, self.qual = node, module, frame, cls, qual
        self.attrs = {}
        self.defaults = None

    def __repr__(self):
        return 'function ' + str(self.qual)


class Bound:
    def __init__(self, fn, me):
        self.fn, self.me = fn, me


class Ext:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Native:
    """A method of a modelled value or a model of an external function."""

    def __init__(self, f):
        self.f = f


class CmpKey:
    """functools.cmp_to_key(f)(x)"""

    def __init__(self, f, x):
        self.f, self.x = f, x


class OrderKey:
    def __init__(self, ev, k):
        self.ev, self.k = ev, k

    def __lt__(self, o):
        ev, a, b = self.ev, self.k, o.k
        if isinstance(a, CmpKey):
            return ev.truth(ev.compare('Lt', ev.call(a.f, [a.x, b.x], {}), 0))
        f, _ = a.cls.find('__lt__')
        if f is None:
            g, _ = b.cls.find('__gt__') if isinstance(b, Inst) else (None, None)
            if g is None:
                raise PyRaise('TypeError', ('no order',))
            return ev.truth(ev.call(Bound(g, b), [a], {}))
        return ev.truth(ev.call(Bound(f, a), [b], {}))


class Super:
    def __init__(self, cls, me):
        self.cls, self.me = cls, me


class Mod:
    def __init__(self, module):
        self.module = module


class Gen:
    """A generator under evaluation (lazy like the real one)."""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)


class Frame:
    def __init__(self, module, parent, fn=None):
        self.module, self.parent, self.fn = module, parent, fn
        self.vars, self.globals, self.nonlocals = {}, set(), set()


class Decisions:
    """Depth-first enumeration of the outcomes of opaque tests."""

    def __init__(self, limit=4000):
        self.stack, self.pos, self.limit, self.runs = [], 0, limit, 0

    def start(self):
        self.pos = 0
        self.table = {}
        self.runs += 1
        if self.runs > self.limit:
            raise Unsupported('too many combinations of opaque tests')

    def choose(self, key, n=2):
        if key in self.table:
            return self.table[key]
        if self.pos == len(self.stack):
            self.stack.append([0, n])
        v = self.stack[self.pos][0]
        self.pos += 1
        self.table[key] = v
        return v

    def advance(self):
        del self.stack[self.pos:]
        while self.stack and self.stack[-1][0] + 1 >= self.stack[-1][1]:
            self.stack.pop()
        if not self.stack:
            return False
        self.stack[-1][0] += 1
        return True


def cat(parts):
    """Text made of constants and opaque parts."""
    out = []
    for p in parts:
        sub = p.term[1] if isinstance(p, Sym) and p.term[0] == 'cat' else (p,)
        for x in sub:
            if x == '':
                continue
            if out and isinstance(x, str) and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return Sym(('cat', tuple(out)), 'str')


def minlen(v):
    """The least value of a length (-1: v is no length)."""
    if not isinstance(v, Sym) or v.term[0] != 'len':
        return -1
    t = v.term[1]
    return sum(len(p) for p in t[1] if isinstance(p, str)) if isinstance(t, tuple) and t and t[0] == 'cat' else 0


def parts_of(t):
    if isinstance(t, Sym) and t.term[0] == 'cat':
        return list(t.term[1])
    return [t]


def is_text(v):
    return isinstance(v, str) or isinstance(v, Sym) and v.kind == 'str'


def symbolic(*vs):
    for v in vs:
        if isinstance(v, (Sym, MO, Inst, Gen, Ext, Func, Klass, Bound, Native, Mod, Super)) or v is UNDEF:
            return True
        if isinstance(v, (list, tuple, set, frozenset)) and symbolic(*v):
            return True
        if isinstance(v, dict) and (symbolic(*v.keys()) or symbolic(*v.values())):
            return True
    return False


BUILTIN_EXC = set(HIER) | {'BaseException'}
BASETYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'complex': complex, 'list': list,
             'tuple': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset, 'range': range}
OPAQUE_SUPER = {'bool': {'bool', 'int'}, 'str': {'str'}, 'int': {'int'}, 'float': {'float'}, 'bytes': {'bytes'},
                'none': set()}


class Evaluator:
    """One program, one set of external models. `explore` evaluates a scenario for all outcomes of the opaque tests."""

    def __init__(self, prog, models=None, specs=None, limit=4000, steps=60000):
        self.prog = prog
        self.models = dict(models or {})       # dotted external name -> f(ev, args, kw)
        self.specs = dict(specs or {})         # qualified library function -> f(ev, args, kw)
        self.reverse = False                   # iteration order of sets
        self.limit, self.maxsteps = limit, steps
        self.reset()

    def reset(self):
        self.mods = {}
        self.funcs = {}
        self.klasses = {}
        self.globals = {}
        self.steps = 0
        self.depth = 0
        self.trace = []

    def explore(self, scenario):
        """scenario(self) is run for every combination of decisions; yields its results."""
        self.dec = Decisions(self.limit)
        while True:
            self.reset()
            self.dec.start()
            yield scenario(self)
            if not self.dec.advance():
                return

    def decide(self, key):
        return self.dec.choose(key) == 0

    # -- names -------------------------------------------------------------------------------------
    def static(self, r):
        if r is None:
            return None
        if isinstance(r, FnInfo):
            return self.func(r)
        if isinstance(r, ClsInfo):
            return self.klass(r)
        if r[0] == 'mod':
            return Mod(r[1])
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] == 'expr':
            key = (r[2].name, id(r[1]))
            if key not in self.globals:
                self.globals[key] = self.ev(r[1], Frame(r[2], None))
            return self.globals[key]
        raise Unsupported('name ' + str(r[1]))

    def ext(self, dotted):
        if dotted in ('sys.hash_info.width', 'sys.maxsize'):
            return 64 if dotted[4] == 'h' else (1 << 63) - 1
        if dotted in ('builtins.True', 'builtins.False', 'builtins.None'):
            return {'True': True, 'False': False, 'None': None}[dotted[9:]]
        return Ext(dotted)

    def func(self, fi):
        if fi.fid not in self.funcs:
            f = Func(fi.node, fi.module, None, None, fi.qual)
            f.static = fi
            self.funcs[fi.fid] = f
        return self.funcs[fi.fid]

    def klass(self, ci):
        if ci.cid not in self.klasses:
            mo = ci.name if ci.module.short.startswith('mathobjects') and ci.name in (
                'Atom', 'Couplet', 'Set', 'Multiset', 'MathObject') else None
            k = self.klasses[ci.cid] = Klass(ci.name, [], {}, ci.module, mo=mo)
            k.qual = ci.qual
            k.bases = [self.static(self.prog.resolve_expr_static(b, ci.module)) for b in ci.base_nodes]
            self.classbody(k, ci.node.body, Frame(ci.module, None))
        return self.klasses[ci.cid]

    def classbody(self, k, body, fr):
        cf = Frame(fr.module, fr, None)
        for s in body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, fr.module, fr if fr.parent is not None or fr.fn is not None else None, k,
                         getattr(k, 'qual', k.name) + '.' + s.name)
                decs = [ast.unparse(d) for d in s.decorator_list]
                f.how = 'plain'
                for d in decs:
                    last = d.split('.')[-1]
                    if last in ('property', 'staticmethod', 'classmethod', 'cached_property'):
                        f.how = last
                    elif last in ('setter', 'getter'):
                        f.how = last
                    elif last not in ('abstractmethod',):
                        f.how = 'unknown'
                if f.how == 'setter':
                    k.ns.setdefault('set ' + s.name, f)
                else:
                    k.ns[s.name] = f
            elif isinstance(s, ast.Assign):
                try:
                    v = self.ev(s.value, cf)
                except (Unsupported, PyRaise):
                    v = Ext('unknown')
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        k.ns[t.id] = v
                        cf.vars[t.id] = v

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        key = (fr.module.name, name)
        if key in self.globals:
            return self.globals[key]
        v = self.static(self.prog.resolve_name(fr.module, name))
        if v is None:
            if name in BUILTIN_EXC or hasattr(__builtins__, name) if not isinstance(__builtins__, dict) else name in __builtins__:
                return Ext('builtins.' + name)
            raise PyRaise('NameError', (name,))
        return v

    # -- statements: generators that yield what the code yields, and return None | ('ret', v) | 'brk' | 'cont'
    def block(self, body, fr):
        for s in body:
            r = yield from self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('evaluation does not end')
        t = type(s).__name__
        if t == 'Expr':
            if isinstance(s.value, ast.Yield):
                yield self.ev(s.value.value, fr) if s.value.value is not None else None
            elif isinstance(s.value, ast.YieldFrom):
                yield from self.iterate(self.ev(s.value.value, fr))
            else:
                self.ev(s.value, fr)
        elif t == 'Assign':
            v = self.ev(s.value, fr)
            for x in s.targets:
                self.assign(x, v, fr)
        elif t == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif t == 'AugAssign':
            self.augassign(s, fr)
        elif t == 'Return':
            return ('ret', self.ev(s.value, fr) if s.value is not None else None)
        elif t == 'If':
            return (yield from self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr))
        elif t == 'For':
            for v in self.iterate(self.ev(s.iter, fr)):
                self.assign(s.target, v, fr)
                r = yield from self.block(s.body, fr)
                if r == 'brk':
                    return None
                if r is not None and r != 'cont':
                    return r
            return (yield from self.block(s.orelse, fr))
        elif t == 'While':
            while self.truth(self.ev(s.test, fr)):
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported('loop does not end')
                r = yield from self.block(s.body, fr)
                if r == 'brk':
                    return None
                if r is not None and r != 'cont':
                    return r
            return (yield from self.block(s.orelse, fr))
        elif t == 'Break':
            return 'brk'
        elif t == 'Continue':
            return 'cont'
        elif t == 'FunctionDef':
            f = Func(s, fr.module, fr, None, (fr.fn.qual if fr.fn else fr.module.short) + '.' + s.name)
            f.how = 'plain'
            f.defaults = self.defaults(s, fr)
            v = f
            for d in reversed(s.decorator_list):
                v = self.call(self.ev(d, fr), [v], {})
            fr.vars[s.name] = v
        elif t == 'ClassDef':
            k = Klass(s.name, [self.ev(b, fr) for b in s.bases], {}, fr.module)
            k.qual = (fr.fn.qual if fr.fn else fr.module.short) + '.' + s.name
            self.classbody(k, s.body, fr)
            fr.vars[s.name] = k
        elif t in ('Import', 'ImportFrom'):
            for b, target in self.prog.import_targets(s, fr.module):
                fr.vars[b] = self.static(self.prog.resolve_dotted(target))
        elif t == 'Assert':
            if not self.truth(self.ev(s.test, fr)):
                raise PyRaise('AssertionError')
        elif t == 'Raise':
            if s.exc is None:
                raise getattr(self, 'handling', PyRaise('RuntimeError'))
            e = self.ev(s.exc, fr)
            if isinstance(e, Ext):
                raise PyRaise(e.name.split('.')[-1])
            if isinstance(e, PyRaise):
                raise e
            raise Unsupported('raise of ' + repr(e))
        elif t == 'Try':
            return (yield from self.try_(s, fr))
        elif t == 'With':
            return (yield from self.with_(s, 0, fr))
        elif t == 'Global':
            fr.globals |= set(s.names)
        elif t == 'Nonlocal':
            fr.nonlocals |= set(s.names)
        elif t == 'Pass':
            pass
        elif t == 'Delete':
            for x in s.targets:
                self.delete(x, fr)
        else:
            raise Unsupported('statement ' + t)
        return None

    def try_(self, s, fr):
        r = None
        try:
            try:
                r = yield from self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.catches(self.ev(h.type, fr), e):
                        if h.name:
                            fr.vars[h.name] = e
                        saved = getattr(self, 'handling', None)
                        self.handling = e
                        try:
                            r = yield from self.block(h.body, fr)
                        finally:
                            self.handling = saved
                        break
                else:
                    raise
            else:
                if r is None:
                    r = yield from self.block(s.orelse, fr)
        finally:
            r2 = None
            for _ in [0]:
                g = self.block(s.finalbody, fr)
                r2 = yield from g
            if r2 is not None:
                return r2
        return r

    def catches(self, t, e):
        if isinstance(t, tuple):
            return any(self.catches(x, e) for x in t)
        if not isinstance(t, Ext):
            raise Unsupported('handler type')
        want = t.name.split('.')[-1]
        c = e.typ
        while c is not None:
            if c == want:
                return True
            c = HIER.get(c)
        return False

    def with_(self, s, i, fr):
        if i == len(s.items):
            return (yield from self.block(s.body, fr))
        it = s.items[i]
        cm = self.ev(it.context_expr, fr)
        enter = getattr(cm, 'enter', None)
        v = enter() if enter else cm
        if isinstance(cm, (Inst, Gen)):
            raise Unsupported('context manager')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            return (yield from self.with_(s, i + 1, fr))
        finally:
            if hasattr(cm, 'exit'):
                cm.exit()

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.globals[(fr.module.name, t.id)] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
                if f is None:
                    raise Unsupported('nonlocal')
                f.vars[t.id] = v
                return
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    raise PyRaise('ValueError')
                vs = vs[:i] + [vs[i:len(vs) - (n - i)]] + vs[len(vs) - (n - i):]
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(o, (list, dict)):
                i = self.ev(t.slice, fr)
                if isinstance(o, list) and symbolic(i):
                    raise Unsupported('index')
                self.native(o.__setitem__, i, v)
            else:
                raise Unsupported('item assignment to ' + repr(o))
        else:
            raise Unsupported('target')

    def setattr(self, o, attr, v):
        if isinstance(o, Inst):
            f, _ = o.cls.find('set ' + attr)
            if f is not None:
                self.call(Bound(f, o), [v], {})
            else:
                o.attrs[attr] = v
        elif isinstance(o, Func):
            o.attrs[attr] = v
        elif isinstance(o, Klass):
            o.ns[attr] = v
        elif hasattr(o, 'set_' + attr):
            getattr(o, 'set_' + attr)(v)
        else:
            raise Unsupported('attribute assignment to ' + repr(o))

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            fr.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if not isinstance(o, (list, dict)):
                raise Unsupported('del')
            self.native(o.__delitem__, self.ev(t.slice, fr))
        else:
            raise Unsupported('del')

    def augassign(self, s, fr):
        t = s.target
        old = self.ev(ast.copy_location(load(t), t), fr)
        v = self.ev(s.value, fr)
        if isinstance(old, list) and isinstance(s.op, ast.Add):
            old.extend(self.iterate(v))
            new = old
        elif isinstance(old, (set, dict)) and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and not isinstance(old, frozenset):
            if isinstance(s.op, ast.BitOr):
                old.update(v)
            elif isinstance(s.op, ast.Sub):
                old.difference_update(v)
            else:
                old.intersection_update(v)
            new = old
        else:
            new = self.binop(type(s.op).__name__, old, v)
        self.assign(t, new, fr)

    # -- truth and comparison
    def truth(self, v):
        if isinstance(v, Sym):
            if v.kind == 'str' and v.term[0] == 'cat' and any(isinstance(p, str) for p in v.term[1]):
                return True
            if v.kind == 'bool':
                if v.term[0] == 'not':
                    return not self.truth(Sym(v.term[1], 'bool'))
                return self.decide(v.term)
            if v.kind == 'str':
                return not self.equal(v, '')
            if v.kind in ('int', 'float'):
                return not self.equal(v, 0)
            return self.decide(('true', v.term))
        if isinstance(v, MO):
            k = v.val[0]
            return bool(mitems(v.val)) if k == 'm' else bool(v.val[1]) if k == 's' else True
        if isinstance(v, Inst):
            for name in ('__bool__', '__len__'):
                f, _ = v.cls.find(name)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if v is UNDEF:
            raise PyRaise('TypeError', ('truth of Undef',))
        if hasattr(v, 'truth'):
            return v.truth()
        return bool(v) if not isinstance(v, (Func, Bound, Klass, Ext, Mod, Gen, Native)) else True

    def equal(self, a, b):
        """Python's == as a boolean."""
        if a is b:
            return True
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    f, _ = x.cls.find('__eq__')
                    if f is not None:
                        return self.truth(self.call(Bound(f, x), [y], {}))
            return False
        if isinstance(a, MO) and isinstance(b, MO):
            return self.moeq(a.val, b.val)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym) and a.term == b.term:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and ('eq', x.kind) in self.specs:
                    return self.specs[('eq', x.kind)](self, [x, y], {})
            if a is None or b is None:
                s = a if isinstance(a, Sym) else b
                return self.decide(('none', s.term)) if s.kind is None else False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.kind == 'str':
                    if isinstance(y, (Inst, MO, list, tuple, dict, set, frozenset, int, float)):
                        return False
                    if isinstance(y, Sym) and y.kind not in ('str', None):
                        return False
                    if x.term[0] == 'cat' and y == '':
                        return not any(isinstance(p, str) for p in x.term[1]) and self.decide(('eq', x.term, ''))
                if isinstance(x, Sym) and x.kind in ('int', 'float') and isinstance(y, str):
                    return False
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and minlen(x) > y:
                    return False
            ka, kb = sorted([a.term if isinstance(a, Sym) else a, b.term if isinstance(b, Sym) else b], key=repr)
            key = ('eq', ka, kb)
            return self.decide(key)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.equal(v, b[k]) for k, v in a.items())
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            if any(isinstance(x, Inst) for x in list(a) + list(b)):
                return len(a) == len(b) and all(any(self.equal(x, y) for y in b) for x in a)
            return a == b
        if isinstance(a, (Klass, Ext, Func)) or isinstance(b, (Klass, Ext, Func)):
            return a == b
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported('comparison')

    def moeq(self, a, b):
        if a == b:
            return True
        if a[0] != b[0]:
            return False
        if a[0] == 'a':
            return self.equal(a[1], b[1])
        if a[0] == 'c':
            return self.moeq(a[1], b[1]) and self.moeq(a[2], b[2])
        return False              # collections of opaque values: distinct terms are distinct values

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                x, y = (a, b) if isinstance(a, Sym) else (b, a)
                if isinstance(x, Sym) and y is None:
                    r = x.kind in (None,) and self.decide(('none', x.term))
                elif isinstance(x, Sym) and x.kind == 'bool':
                    r = self.truth(x) == y
                else:
                    r = a is b
            elif isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
                r = type(a) is type(b) and a == b
            elif isinstance(a, (Sym, Ext)) and isinstance(b, (Sym, Ext)):
                r = a == b
            elif isinstance(a, Klass) or isinstance(b, Klass):
                r = a is b or isinstance(a, Klass) and isinstance(b, Klass) and a.mo is not None and a.mo == b.mo
            else:
                r = a is b
            return r == (op == 'Is')
        if op in ('Eq', 'NotEq'):
            if op == 'NotEq' and isinstance(a, Inst):
                f, _ = a.cls.find('__ne__')
                if f is not None:
                    return self.truth(self.call(Bound(f, a), [b], {}))
            return self.equal(a, b) == (op == 'Eq')
        if op in ('In', 'NotIn'):
            return self.contains(b, a) == (op == 'In')
        name = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if isinstance(a, Inst):
            f, _ = a.cls.find(name)
            if f is not None:
                return self.call(Bound(f, a), [b], {})
        if isinstance(a, Sym) and ('cmp', op, a.kind) in self.specs:
            return self.specs[('cmp', op, a.kind)](self, [a, b], {})
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'LtE': a <= b, 'Lt': a < b, 'GtE': a >= b, 'Gt': a > b}[op]
        if symbolic(a, b):
            if isinstance(a, Inst) or isinstance(b, Inst):
                raise Unsupported('order of instances')
            x, y, pos = (a, b, True) if op in ('Lt', 'LtE') else (b, a, True)
            strict = op in ('Lt', 'Gt')
            tx, ty = (x.term if isinstance(x, Sym) else x), (y.term if isinstance(y, Sym) else y)
            for v, w, big in ((x, y, False), (y, x, True)):      # x < y or x <= y, where v has a least length
                if isinstance(w, int) and minlen(v) > w:
                    return big
                if isinstance(w, int) and minlen(v) == w and big and not strict:
                    return True
            if strict:
                return not self.decide(('le', ty, tx))
            return self.decide(('le', tx, ty))
        return self.native(lambda: {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                                    'GtE': lambda: a >= b}[op]())

    def contains(self, c, x):
        if isinstance(c, Sym):
            return self.decide(('in', self.termof(x), c.term))
        if isinstance(c, MO):
            if c.val[0] == 's':
                return isinstance(x, MO) and x.val in c.val[1]
            if c.val[0] == 'm':
                return isinstance(x, MO) and x.val in dict(mitems(c.val))
            raise Unsupported('membership')
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported('substring')
        if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys',):
            if x in c:
                return True
            if isinstance(x, (Sym, Inst)) or any(isinstance(y, (Sym, Inst)) for y in c):
                return any(self.equal(x, y) for y in c)
            return False
        return any(self.equal(x, y) for y in self.iterate(c))

    def termof(self, v):
        return v.term if isinstance(v, Sym) else v

    # -- iteration
    def iterate(self, v):
        if isinstance(v, MO):
            if v.val[0] == 's':
                xs = sorted(v.val[1], key=show_mo, reverse=self.reverse)
                return iter([self.wrap(x) for x in xs])
            if v.val[0] == 'm':
                xs = sorted(mitems(v.val), key=lambda p: show_mo(p[0]), reverse=self.reverse)
                return iter([self.wrap(x) for x, n in xs for _ in range(n)])
            if v.val[0] == 'a' and isinstance(v.val[1], (str, list, tuple, set, frozenset)):
                raise PyRaise('TypeError')
            raise PyRaise('TypeError')
        if isinstance(v, (set, frozenset)):
            return iter(sorted(v, key=lambda x: (repr(x), getattr(x, 'n', 0)), reverse=self.reverse))
        if isinstance(v, Gen):
            return v.it
        if isinstance(v, (list, tuple, dict, str, range, bytes)) or type(v).__name__ in (
                'dict_keys', 'dict_values', 'dict_items', 'list_iterator', 'generator', 'tuple_iterator', 'map', 'zip',
                'enumerate', 'filter', 'chain', 'islice', 'reversed', 'list_reverseiterator', 'range_iterator', 'str_iterator',
                'str_ascii_iterator', 'set_iterator', 'dict_keyiterator', 'dict_itemiterator', 'dict_valueiterator', 'callable_iterator'):
            return iter(v)
        if isinstance(v, Inst):
            f, _ = v.cls.find('__iter__')
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            raise PyRaise('TypeError')
        if hasattr(v, 'elements'):
            return iter(v.elements())
        if v is None or isinstance(v, (int, float, bool, complex)):
            raise PyRaise('TypeError')
        raise Unsupported('iteration over ' + repr(v))

    def wrap(self, val):
        """A model value inside a collection as a value of the evaluator."""
        if isinstance(val, tuple) and val and val[0] in KINDNAME:
            return MO(val)
        if isinstance(val, tuple) and val and val[0] == 'o':
            return val[1]
        return val

    def unwrap(self, v, convert=True):
        """A value of the evaluator as an element of a mathematical object."""
        if isinstance(v, MO):
            return v.val
        if v is UNDEF:
            return m.U
        if isinstance(v, Sym) and v.kind == 'mo':
            return ('o', v)
        if convert:
            if isinstance(v, (dict, list, set)):
                raise PyRaise('TypeError')
            return ('a', v)
        raise Unsupported('a plain value where a mathematical object is expected: ' + repr(v))

    # -- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('evaluation does not end')
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported('expression ' + type(e).__name__)
        return f(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return self.b_set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d[kk] = self.ev(v, fr)
        return d

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if symbolic(v):
            return Sym((type(e.op).__name__, self.termof(v)), getattr(v, 'kind', None))
        return self.native(lambda: -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v)

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, fr)
            r = self.compare(type(op).__name__, a, b)
            if not self.truth(r):
                return r
            a = b
        return r

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        if op == 'Add' and is_text(a) and is_text(b):
            return cat([a, b])
        if op == 'Mod' and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {'BitOr': a | b, 'BitAnd': a & b, 'Sub': a - b, 'BitXor': a ^ b}[op]
        if isinstance(a, (list, tuple)) and type(a) is type(b) and op == 'Add':
            return a + b
        if symbolic(a, b) and (isinstance(a, Sym) or isinstance(b, Sym)):
            kind = 'str' if is_text(a) and op in ('Mult',) else 'int' if all(
                isinstance(x, int) or isinstance(x, Sym) and x.kind == 'int' for x in (a, b)) else None
            if op == 'BitAnd' and all(isinstance(x, bool) or isinstance(x, Sym) and x.kind == 'bool' for x in (a, b)):
                return self.truth(a) & self.truth(b)
            return Sym((op, self.termof(a), self.termof(b)), kind)
        if isinstance(a, (MO, Inst)) or isinstance(b, (MO, Inst)):
            raise Unsupported('operator on objects')
        import operator
        fn = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
              'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'BitOr': operator.or_, 'BitAnd': operator.and_,
              'BitXor': operator.xor, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift}.get(op)
        if fn is None:
            raise Unsupported('operator')
        return self.native(fn, a, b)

    def native(self, f, *args):
        try:
            return f(*args)
        except (PyRaise, Unsupported):
            raise
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as x:
            if symbolic(*args):
                raise Unsupported('{} of opaque values'.format(getattr(f, '__name__', 'operation')))
            raise PyRaise(type(x).__name__, tuple(map(str, x.args)))

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    x = self.repr(x)
                elif v.format_spec is not None:
                    x = self.fmt(x, self.ev(v.format_spec, fr))
                else:
                    x = self.str(x)
                out.append(x)
        return cat(out)

    def fmt(self, x, spec):
        if spec == '':
            return self.str(x)
        if symbolic(x) or symbolic(spec):
            return Sym(('format', self.termof(x), self.termof(spec)), 'str')
        return self.native(format, x, spec)

    def percent(self, f, args):
        args = args if isinstance(args, tuple) else (args,)
        out, i, n = [], 0, 0
        while i < len(f):
            j = f.find('%', i)
            if j < 0:
                out.append(f[i:])
                break
            out.append(f[i:j])
            c = f[j + 1:j + 2]
            if c == '%':
                out.append('%')
            elif c in 'srd':
                if n >= len(args):
                    raise PyRaise('TypeError')
                out.append(self.repr(args[n]) if c == 'r' else self.str(args[n]))
                n += 1
            else:
                raise Unsupported('format')
            i = j + 2
        return cat(out)

    def format(self, f, args, kw):
        if not isinstance(f, str):
            if isinstance(f, Sym):
                return Sym(('formatted', f.term, tuple(map(self.termof, args)),
                            tuple(sorted((k, self.termof(v)) for k, v in kw.items()))), 'str')
            raise Unsupported('format')
        out, n = [], 0
        for lit, field, spec, conv in self.native(lambda: list(_string.Formatter().parse(f))):
            out.append(lit)
            if field is None:
                continue
            base = field.split('.')[0].split('[')[0]
            if base == '':
                key, n = n, n + 1
            else:
                key = int(base) if base.isdigit() else base
            try:
                v = args[key] if isinstance(key, int) else kw[key]
            except (KeyError, IndexError):
                raise PyRaise('KeyError' if isinstance(key, str) else 'IndexError')
            rest = field[len(base):]
            while rest.startswith('.'):
                nm = rest[1:].split('.')[0].split('[')[0]
                v = self.getattr(v, nm)
                rest = rest[1 + len(nm):]
            if rest:
                raise Unsupported('format field')
            if conv == 'r':
                v = self.repr(v)
            elif conv == 's':
                v = self.str(v)
            out.append(self.fmt(v, spec or ''))
        return cat(out)

    def str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Sym):
            return v if v.kind == 'str' else Sym(('str', v.term), 'str')
        if isinstance(v, Inst):
            for nm in ('__str__', '__repr__'):
                f, _ = v.cls.find(nm)
                if f is not None:
                    return self.call(Bound(f, v), [], {})
        if isinstance(v, MO):
            return Sym(('str', v.val), 'str')
        if isinstance(v, PyRaise):
            return Sym(('str', v.typ), 'str')
        if symbolic(v) or isinstance(v, (Func, Klass, Bound, Mod)):
            if isinstance(v, (list, tuple, dict)):
                return self.repr(v)
            return Sym(('str', repr(v)), 'str')
        return str(v)

    def repr(self, v):
        if isinstance(v, Sym):
            return Sym(('repr', v.term), 'str')
        if isinstance(v, Inst):
            f, _ = v.cls.find('__repr__')
            if f is not None:
                return self.call(Bound(f, v), [], {})
        if isinstance(v, MO):
            return Sym(('repr', v.val), 'str')
        if isinstance(v, (list, tuple)) and symbolic(v):
            inner = []
            for i, x in enumerate(v):
                inner += ([', '] if i else []) + [self.repr(x)]
            o, c = ('[', ']') if isinstance(v, list) else ('(', ',)' if len(v) == 1 else ')')
            return cat([o] + inner + [c])
        if symbolic(v):
            return Sym(('repr', repr(v)), 'str')
        return repr(v)

    # comprehensions
    def e_ListComp(self, e, fr):
        return list(self.comp(e.generators, 0, Frame(fr.module, fr, fr.fn), lambda f: self.ev(e.elt, f)))

    def e_SetComp(self, e, fr):
        return self.b_set(self.comp(e.generators, 0, Frame(fr.module, fr, fr.fn), lambda f: self.ev(e.elt, f)))

    def e_DictComp(self, e, fr):
        return dict(self.comp(e.generators, 0, Frame(fr.module, fr, fr.fn),
                              lambda f: (self.ev(e.key, f), self.ev(e.value, f))))

    def e_GeneratorExp(self, e, fr):
        first = self.iterate(self.ev(e.generators[0].iter, fr))
        return Gen(self.comp(e.generators, 0, Frame(fr.module, fr, fr.fn), lambda f: self.ev(e.elt, f), first))

    def comp(self, gens, i, fr, out, first=None):
        g = gens[i]
        src = first if i == 0 and first is not None else self.iterate(self.ev(g.iter, fr if i else fr.parent))
        for v in src:
            self.assign(g.target, v, fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                if i + 1 < len(gens):
                    yield from self.comp(gens, i + 1, fr, out)
                else:
                    yield out(fr)

    def e_Lambda(self, e, fr):
        f = Func(e, fr.module, fr, None, (fr.fn.qual if fr.fn else fr.module.short) + '.<lambda>')
        f.how = 'plain'
        f.defaults = self.defaults(e, fr)
        return f

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            a, b, c = [self.ev(x, fr) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if symbolic(a, b, c) or isinstance(o, Sym):
                return Sym(('slice', self.termof(o), self.termof(a), self.termof(b), self.termof(c)), getattr(o, 'kind', 'str'))
            if isinstance(o, (list, tuple, str, range)):
                return self.native(lambda: o[a:b:c])
            raise Unsupported('slice')
        i = self.ev(e.slice, fr)
        return self.subscript(o, i)

    def subscript(self, o, i):
        if isinstance(o, dict):
            if i in o:
                return o[i]
            if symbolic(i) or any(isinstance(k, (Sym, Inst)) for k in o):
                for k in o:
                    if self.equal(i, k):
                        return o[k]
            if hasattr(o, 'default_factory') and o.default_factory is not None:
                o[i] = self.call(o.default_factory, [], {})
                return o[i]
            raise PyRaise('KeyError')
        if isinstance(o, (list, tuple, str, range, bytes)):
            if symbolic(i):
                raise Unsupported('index')
            return self.native(lambda: o[i])
        if isinstance(o, Sym):
            return Sym(('item', o.term, self.termof(i)))
        if isinstance(o, Inst):
            f, _ = o.cls.find('__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [i], {})
            raise PyRaise('TypeError')
        if hasattr(o, 'item'):
            return o.item(i)
        if o is None or isinstance(o, (int, float)):
            raise PyRaise('TypeError')
        raise Unsupported('item of ' + repr(o))

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def getattr(self, o, a):
        if isinstance(o, Mod):
            mod = o.module
            if a == '__name__':
                return mod.name
            key = (mod.name, a)
            if key in self.globals:
                return self.globals[key]
            v = self.static(self.prog.resolve_name(mod, a))
            if v is None or isinstance(v, Ext) and v.name.startswith('builtins.'):
                raise PyRaise('AttributeError', (a,))
            return v
        if isinstance(o, Ext):
            if a in ('__name__', '__qualname__'):
                return o.name.split('.')[-1]
            if a == '__module__':
                return o.name.rpartition('.')[0]
            return self.ext(o.name + '.' + a)
        if isinstance(o, Inst):
            if a in o.attrs:
                return o.attrs[a]
            if a == '__class__':
                return o.cls
            f, k = o.cls.find(a)
            if f is None:
                raise PyRaise('AttributeError', (a,))
            return self.bindattr(f, o)
        if isinstance(o, Super):
            f, k = o.me.cls.find(a, o.cls) if isinstance(o.me, Inst) else (None, None)
            if f is None:
                if any(isinstance(x, Ext) for x in o.cls.mro()) or a == '__init__':
                    return Native(lambda args, kw: self.model_super(o, a, args, kw))
                raise PyRaise('AttributeError', (a,))
            return self.bindattr(f, o.me)
        if isinstance(o, Klass):
            if a in ('__name__', '__qualname__'):
                return o.name
            if a == '__module__':
                return o.module.name
            f, k = o.find(a)
            if f is None:
                raise PyRaise('AttributeError', (a,))
            if isinstance(f, Func) and f.how == 'classmethod':
                return Bound(f, o)
            return f
        if isinstance(o, Func):
            if a in o.attrs:
                return o.attrs[a]
            if a == '__name__':
                return o.node.name
            raise PyRaise('AttributeError', (a,))
        if isinstance(o, MO):
            return self.mo_attr(o, a)
        if o is UNDEF:
            if a.startswith('cached_'):
                raise Unsupported('status of Undef')
            if a in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
                return False
            raise PyRaise('AttributeError', (a,))
        if isinstance(o, Sym):
            return self.sym_attr(o, a)
        if hasattr(o, 'attr'):
            return o.attr(a)
        if isinstance(o, (str, list, dict, set, frozenset, tuple, bytes, range, int, float, complex, Gen)) or o is None:
            return self.value_method(o, a)
        if isinstance(o, PyRaise):
            return o.eargs if a == 'args' else Sym(('exc', a))
        raise Unsupported('attribute {} of {!r}'.format(a, o))

    def model_super(self, sup, a, args, kw):
        return None

    def bindattr(self, f, o):
        if isinstance(f, Func):
            if f.how == 'property' or f.how == 'cached_property':
                return self.call(Bound(f, o), [], {})
            if f.how == 'staticmethod':
                return f
            if f.how == 'classmethod':
                return Bound(f, o.cls)
            return Bound(f, o)
        return f

    def mo_attr(self, o, a):
        v = o.val
        k = v[0]
        if a in ('_value', '_left', '_right', '_data'):
            a = {'a': ('_value',), 'c': ('_left', '_right')}.get(k, ('_data',)).count(a) and a[1:] or a
        if a == 'value' and k == 'a':
            return v[1]
        if a == 'left' and k == 'c':
            return self.wrap(v[1])
        if a == 'right' and k == 'c':
            return self.wrap(v[2])
        if a == 'data' and k == 's':
            return frozenset(map(self.wrap, v[1]))
        if a == 'data' and k == 'm':
            xs = sorted(mitems(v), key=lambda p: show_mo(p[0]), reverse=self.reverse)
            return {self.wrap(x): n for x, n in xs}
        if a in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
            return a[3:] == KINDNAME[k].lower()
        if a == 'is_empty' and k in 'sm':
            return not self.truth(o)
        if a == 'cardinality' and k in 'sm':
            return len(list(self.iterate(o)))
        if a.startswith('cache_'):
            def put(args, kw):
                st = args[0]
                name = st.name.split('.')[-1] if isinstance(st, Ext) else st
                if isinstance(st, int):
                    k = self.static(self.prog.resolve_name(self.prog.module('cache_status'), 'CacheStatus'))
                    name = next((n for n in ('IS', 'IS_NOT', 'N_A', 'UNKNOWN') if self.getattr(k, n) == st), st)
                if name in ('IS', 'IS_NOT'):
                    o.flags[a[6:]] = name == 'IS'
                    self.trace.append((o, a[6:], name == 'IS'))
                elif name not in ('UNKNOWN', 'N_A'):
                    raise Unsupported('status ' + repr(st))
                return o
            return Native(put)
        if a.startswith('cached_'):
            st = a[7:]
            if st.startswith('is_not_'):
                return o.flags.get(st[7:]) is False
            if st.startswith('is_'):
                return o.flags.get(st[3:]) is True
        if a in ('get_left_set', 'get_right_set') and k in 'sm':
            i = 1 if a == 'get_left_set' else 2

            def side(args, kw):
                if all(c[0] == 'c' for c in v[1]):
                    return MO(m.Sf(c[i] for c in v[1]))
                raise Unsupported(a)
            return Native(side)
        k2 = self.b_type(o)
        f, _ = k2.find(a) if isinstance(k2, Klass) else (None, None)
        if isinstance(f, Func) and not a.startswith('__') and a not in ('data', 'value', 'left', 'right'):
            return self.bindattr(f, o)
        raise PyRaise('AttributeError', (a,)) if not a.startswith('_') and a in ('value', 'left', 'right', 'data', 'items') else \
            Unsupported('attribute %s of a mathematical object' % a)

    def sym_attr(self, o, a):
        if ('attr', o.kind, a) in self.specs:
            return self.specs[('attr', o.kind, a)](self, o)
        if o.kind == 'str':
            return self.text_method(o, a)
        if o.kind is not None and o.kind in OPAQUE_SUPER:
            raise PyRaise('AttributeError', (a,))
        return Sym(('attr', o.term, a))

    def text_method(self, o, a):
        def call(args, kw):
            if a == 'format':
                return self.format(o, args, kw)
            if a == 'join':
                return self.join(o, args[0])
            if a == 'replace' and len(args) == 2 and all(isinstance(x, str) for x in args):
                return cat([x.replace(*args) if isinstance(x, str) else Sym(('replace', x.term) + tuple(args), 'str')
                            for x in parts_of(o)]) if len(args[0]) == 1 else Sym(('replace', o.term) + tuple(args), 'str')
            if a in ('strip', 'lstrip', 'rstrip') and not args and o.term[0] == 'cat':
                ps = parts_of(o)
                ok = True
                for i, side in ((0, 'lstrip'), (-1, 'rstrip')):
                    if a in ('strip', side):
                        if isinstance(ps[i], str) and ps[i].strip():
                            ps[i] = getattr(ps[i], side)()
                        else:
                            ok = False
                if ok:
                    return cat(ps)
            if a in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str):
                ps = parts_of(o)
                p = ps[0] if a == 'startswith' else ps[-1]
                if isinstance(p, str) and (len(p) >= len(args[0])):
                    return getattr(p, a)(args[0])
                return Sym((a, o.term, args[0]), 'bool')
            return Sym((a, o.term) + tuple(map(self.termof, args)),
                       'bool' if a.startswith('is') else 'int' if a in ('find', 'index', 'count', 'rfind') else
                       None if a in ('split', 'splitlines', 'encode', 'partition') else 'str')
        return Native(call)

    def join(self, sep, xs):
        out = []
        for i, x in enumerate(self.iterate(xs)):
            if not is_text(x):
                if isinstance(x, Sym) and x.kind is None:
                    x = Sym(x.term, 'str')
                else:
                    raise PyRaise('TypeError')
            out += ([sep] if i else []) + [x]
        return cat(out)

    def value_method(self, o, a):
        if isinstance(o, Gen):
            if a == '__next__':
                return Native(lambda args, kw: self.next(o, args))
            raise Unsupported('generator.' + a)
        if isinstance(o, str):
            if a == 'format':
                return Native(lambda args, kw: self.format(o, args, kw))
            if a == 'join':
                return Native(lambda args, kw: self.join(o, args[0]))
        if not hasattr(o, a):
            raise PyRaise('AttributeError', (a,))
        at = getattr(o, a)
        if not callable(at):
            return at

        def call(args, kw):
            if isinstance(o, str) and symbolic(*args):
                return self.text_method(Sym(('cat', (o,)), 'str'), a).f(args, kw)
            if isinstance(o, dict) and a in ('get', 'pop', 'setdefault') and args:
                k = args[0]
                hit = None
                if k not in o:
                    hit = next((x for x in o if isinstance(x, (Sym, Inst)) or isinstance(k, (Sym, Inst))
                                if self.equal(x, k)), None)
                    if hit is not None:
                        args = [hit] + list(args[1:])
            if isinstance(o, dict) and a == 'update' and args and not isinstance(args[0], dict):
                o.update([tuple(self.iterate(p)) for p in self.iterate(args[0])])
                return None
            if isinstance(o, (set, frozenset)) and a in ('update', 'union', 'difference', 'difference_update', 'intersection',
                                                         'intersection_update', 'issubset', 'issuperset', 'isdisjoint',
                                                         'symmetric_difference'):
                args = [list(self.iterate(x)) for x in args]
            if isinstance(o, set) and a == 'add' and isinstance(args[0], Inst):
                if self.contains(o, args[0]):
                    return None
            if isinstance(o, list) and a == 'extend':
                o.extend(self.iterate(args[0]))
                return None
            if isinstance(o, list) and a == 'sort':
                o[:] = self.sorted(o, kw)
                return None
            if isinstance(o, (list, tuple)) and a in ('index', 'count', 'remove') and symbolic(o, args):
                raise Unsupported('list.' + a)
            return self.native(lambda: at(*args, **kw))
        return Native(call)

    def next(self, it, args=()):
        try:
            return next(it.it if isinstance(it, Gen) else it)
        except StopIteration:
            if len(args) > 0:
                return args[0]
            raise PyRaise('StopIteration')

    def sorted(self, xs, kw):
        xs = list(self.iterate(xs))
        key = kw.get('key')
        rev = bool(kw.get('reverse', False))
        if key is not None:
            dec = [(self.call(key, [x], {}), x) for x in xs]
        else:
            dec = [(x, x) for x in xs]
        if dec and all(isinstance(k, (Inst, CmpKey)) for k, _ in dec):
            # keys with an order of their own
            dec.sort(key=lambda p: OrderKey(self, p[0]), reverse=rev)
        elif symbolic([k for k, _ in dec]) or any(isinstance(k, (Func, Klass)) for k, _ in dec):
            # an unknown total order, the same every time, that does not depend on the order of the elements
            dec.sort(key=lambda p: repr(p[0]), reverse=rev)
        else:
            def go():
                dec.sort(key=lambda p: p[0], reverse=rev)
            self.native(go)
        return [x for _, x in dec]

    # -- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and (f.fn is None or f.fn.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported('super')
            me = f.vars[f.fn.node.args.args[0].arg]
            return Super(f.fn.cls, me)
        fn = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        self.here = (fr.module, e)
        return self.call(fn, args, kw)

    def defaults(self, node, fr):
        a = node.args
        return ([self.ev(d, fr) for d in a.defaults], [self.ev(d, fr) if d is not None else None for d in a.kw_defaults])

    def call(self, fn, args, kw):
        if isinstance(fn, Native):
            return fn.f(args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.me] + list(args), kw)
        if isinstance(fn, Func):
            if fn.qual in self.specs:
                return self.specs[fn.qual](self, args, kw)
            return self.run(fn, args, kw)
        if isinstance(fn, Klass):
            return self.construct(fn, args, kw)
        if isinstance(fn, Ext):
            return self.external(fn.name, args, kw)
        if isinstance(fn, Sym):
            t = ('call', fn.term) + tuple(map(self.termof, args)) + tuple(sorted((k, self.termof(v)) for k, v in kw.items()))
            return Sym(t, None)
        if isinstance(fn, Inst):
            f, _ = fn.cls.find('__call__')
            if f is not None:
                return self.call(Bound(f, fn), args, kw)
        if isinstance(fn, MO):
            raise Unsupported('call of a mathematical object')
        if fn is None or isinstance(fn, (str, int, list, dict)):
            raise PyRaise('TypeError')
        raise Unsupported('call of ' + repr(fn))

    def run(self, fn, args, kw):
        if getattr(fn, 'how', 'plain') == 'unknown':
            raise Unsupported('decorated function ' + str(fn.qual))
        node = fn.node
        if fn.frame is None and isinstance(node, ast.FunctionDef) and getattr(fn, 'static', None) is not None and node.decorator_list:
            raise Unsupported('decorated function ' + str(fn.qual))
        fr = Frame(fn.module, fn.frame, fn)
        self.bindargs(fn, node.args, args, kw, fr)
        if isinstance(node, ast.Lambda):
            return self.deeper(lambda: self.ev(node.body, fr))
        if is_gen(node):
            return Gen(self.generator(node, fr))

        def go():
            g = self.block(node.body, fr)
            try:
                while True:
                    next(g)
                    raise Unsupported('yield')
            except StopIteration as s:
                return s.value[1] if isinstance(s.value, tuple) else None
        return self.deeper(go)

    def deeper(self, f):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported('recursion too deep')
        try:
            return f()
        finally:
            self.depth -= 1

    def generator(self, node, fr):
        try:
            yield from self.block(node.body, fr)
        except StopIteration:
            raise Unsupported('StopIteration in a generator')

    def bindargs(self, fn, a, args, kw, fr):
        if fn.defaults is None:
            base = Frame(fn.module, fn.frame)
            fn.defaults = self.defaults(fn.node, base)
        ps = [p.arg for p in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        if len(args) > len(ps) and not a.vararg:
            raise PyRaise('TypeError')
        for p, v in zip(ps, args):
            vals[p] = v
        for p in ps[len(args):]:
            if p in kw:
                vals[p] = kw.pop(p)
        for p in ps:
            if p in kw:
                raise PyRaise('TypeError')
        for p, d in zip(ps[len(ps) - len(fn.defaults[0]):], fn.defaults[0]):
            vals.setdefault(p, d)
        for p, d, n in zip(a.kwonlyargs, fn.defaults[1], a.kw_defaults):
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif n is not None:
                vals[p.arg] = d
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(ps):])
        if a.kwarg:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise('TypeError')
        for p in ps + [p.arg for p in a.kwonlyargs]:
            if p not in vals:
                raise PyRaise('TypeError')
        fr.vars.update(vals)

    def construct(self, k, args, kw):
        mo = next((c.mo for c in k.mro() if isinstance(c, Klass) and c.mo), None)
        if mo == 'MathObject':
            raise PyRaise('TypeError')
        if mo:
            return self.make_mo(mo, args, kw)
        if k.qual in self.specs:
            return self.specs[k.qual](self, args, kw)
        if k.name == 'Undef':
            return UNDEF
        o = Inst(k)
        f, _ = k.find('__init__')
        if f is not None:
            self.call(Bound(f, o), args, kw)
        elif any(isinstance(x, Ext) and x.name not in ('builtins.object', 'abc.ABC') for x in k.mro()):
            raise Unsupported('construction of ' + k.name)
        return o

    def make_mo(self, kind, args, kw):
        kw = dict(kw)
        direct = kw.pop('direct_load', False)
        if kind == 'Atom':
            if len(args) == 2:
                direct = args[1]
                args = args[:1]
            if 'value' in kw:
                args = [kw.pop('value')] + list(args)
            if len(args) != 1 or kw:
                raise PyRaise('TypeError')
            v = args[0]
            if isinstance(v, MO):
                if v.val[0] == 'a':
                    return MO(v.val)
                raise PyRaise('TypeError')
            if v is UNDEF:
                raise Unsupported('atom of Undef')
            if isinstance(v, (list, dict, set)):
                raise PyRaise('TypeError')
            return MO(('a', v))
        if kind == 'Couplet':
            vals = dict(zip(('left', 'right', 'direct_load'), args))
            vals.update(kw)
            left = vals.get('left')
            if len(args) > 3 or 'right' not in vals:
                if 'right' not in vals and 'left' in vals and len(vals) == 1:
                    raise Unsupported('couplet of one argument')
                raise PyRaise('TypeError')
            l, r = vals['left'], vals['right']
            if direct and not (isinstance(l, (MO, Sym)) and isinstance(r, (MO, Sym))):
                return MO(('bad', 'Couplet of a plain value loaded directly', repr((l, r))))
            return MO(('c', self.unwrap(l), self.unwrap(r)))
        if kw:
            raise PyRaise('TypeError')
        one = len(args) == 1 and not isinstance(args[0], (MO, str, bytes, Sym, int, float, complex, bool)) and args[0] is not None
        if kind == 'Set':
            xs = list(self.iterate(args[0])) if one else list(args)
            if len(args) == 1 and isinstance(args[0], MO) and args[0].val[0] == 's' and direct:
                xs = list(self.iterate(args[0]))
            if direct and any(not isinstance(x, (MO, Sym)) for x in xs):
                return MO(('bad', 'Set of plain values loaded directly', repr(xs)))
            return MO(('s', frozenset(self.unwrap(x) for x in xs)))
        counts = {}
        if one and isinstance(args[0], dict):
            pairs = list(args[0].items())
        else:
            pairs = [(x, 1) for x in (self.iterate(args[0]) if one else args)]
        for x, n in pairs:
            if direct and not isinstance(x, (MO, Sym)):
                return MO(('bad', 'Multiset of plain values loaded directly', repr(pairs)))
            u = self.unwrap(x)
            counts[u] = counts[u] + n if u in counts and not isinstance(n, Sym) else n
        return MO(('m', frozenset(counts.items())))

    def external(self, name, args, kw):
        if name in self.models:
            return self.models[name](self, args, kw)
        short = name[9:] if name.startswith('builtins.') else None
        if short:
            f = getattr(self, 'b_' + short, None)
            if f is not None:
                return f(*args, **kw)
            if short in BUILTIN_EXC:
                return PyRaise(short, tuple(args))
            if short in ('min', 'max', 'abs', 'round', 'pow', 'divmod', 'chr', 'ord', 'bytes', 'complex', 'float', 'format') and \
                    not symbolic(*args) and not kw:
                if args and isinstance(args[0], Gen):
                    args = [list(args[0])] + list(args[1:])
                import builtins
                return self.native(getattr(builtins, short), *args)
        if name == 'inspect.getmodule' and len(args) == 1 and isinstance(args[0], (Inst, Klass, Func)):
            o = args[0]
            return Mod(o.cls.module if isinstance(o, Inst) else o.module)
        if name == 'html.escape':
            q = kw.get('quote', args[1] if len(args) > 1 else True)
            if not isinstance(q, (bool, int)):
                raise Unsupported('html.escape')
            return cat([_html_mod.escape(p, bool(q)) if isinstance(p, str) else Sym(('esc' if q else 'esctext', p.term), 'str') for p in parts_of(args[0])])
        if name == 'itertools.chain':
            def chained():
                for a in args:
                    yield from self.iterate(a)
            return Gen(chained())
        if name == 'itertools.chain.from_iterable':
            def flat():
                for a in self.iterate(args[0]):
                    yield from self.iterate(a)
            return Gen(flat())
        if name == 'itertools.islice' and not symbolic(*args[1:]):
            import itertools
            return Gen(itertools.islice(self.iterate(args[0]), *args[1:]))
        if name in ('collections.OrderedDict', 'collections.defaultdict', 'collections.Counter'):
            import collections
            if name.endswith('OrderedDict'):
                return self.b_dict(*args, **kw)
            if name.endswith('Counter'):
                c = collections.Counter()
                for a in args:
                    if isinstance(a, dict):
                        c.update(a)
                    else:
                        for x in self.iterate(a):
                            c[x] += 1
                return c
            d = collections.defaultdict()
            d.default_factory = args[0] if args else None
            return d
        if name == 'functools.cmp_to_key' and len(args) == 1:
            return Native(lambda a, k: CmpKey(args[0], (list(a) + list(k.values()))[0]))
        if name == 'functools.partial':
            f0, a0, k0 = args[0], list(args[1:]), kw
            return Native(lambda a, k: self.call(f0, a0 + list(a), dict(k0, **k)))
        if name == 'io.StringIO':
            return TextIO()
        if name == 'contextlib.nullcontext':
            return args[0] if args else None
        if name == 'functools.reduce':
            it = self.iterate(args[1])
            acc = args[2] if len(args) > 2 else self.next(it)
            for x in it:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if name.startswith('operator.'):
            op = name[9:]
            if op in ('attrgetter',) and len(args) == 1 and '.' not in args[0]:
                return Native(lambda a, k: self.getattr(a[0], args[0]))
            if op == 'itemgetter' and len(args) == 1:
                return Native(lambda a, k: self.subscript(a[0], args[0]))
            ops = {'eq': 'Eq', 'ne': 'NotEq', 'le': 'LtE', 'lt': 'Lt', 'ge': 'GtE', 'gt': 'Gt'}
            if op in ops:
                return self.compare(ops[op], *args)
        if name in ('abc.abstractmethod', 'functools.wraps'):
            return args[0]
        raise Unsupported('call of ' + name)

    # -- builtins
    def b_len(self, v):
        if isinstance(v, MO):
            if v.val[0] in 'sm':
                return len(list(self.iterate(v)))
            raise PyRaise('TypeError')
        if isinstance(v, Sym):
            return Sym(('len', v.term), 'int')
        if isinstance(v, (list, tuple, dict, set, frozenset, str, bytes, range)) or type(v).__name__.startswith('dict_'):
            return len(v)
        if isinstance(v, Inst):
            f, _ = v.cls.find('__len__')
            if f is not None:
                return self.call(Bound(f, v), [], {})
        raise PyRaise('TypeError')

    def b_isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(v, x) for x in t)
        if isinstance(t, Klass):
            if isinstance(v, Inst):
                return v.cls.sub(t)
            if isinstance(v, MO):
                return t.mo == 'MathObject' or t.mo == KINDNAME.get(v.val[0])
            if v is UNDEF:
                return t.name == 'Undef'
            if isinstance(v, Sym):
                if v.kind == 'mo' or ('isinst', v.kind) in self.specs:
                    f = self.specs.get(('isinst', v.kind))
                    return f(self, v, t) if f else t.mo == 'MathObject' or self.decide(('isinst', v.term, t.name))
                if v.kind is not None:
                    return False
                return self.decide(('isinst', v.term, t.name))
            return False
        if isinstance(t, Ext):
            n = t.name.split('.')[-1]
            if isinstance(v, Sym):
                if ('isinst', v.kind) in self.specs:
                    return self.specs[('isinst', v.kind)](self, v, t)
                if v.kind in OPAQUE_SUPER:
                    if n in BASETYPES:
                        return n in OPAQUE_SUPER[v.kind]
                    if n in ('Iterable', 'Sequence', 'Sized', 'Container', 'Collection'):
                        return v.kind in ('str', 'bytes')
                    if n in ('Mapping', 'Set', 'MutableMapping'):
                        return False
                    if n in ('Number', 'Real', 'Integral', 'Rational'):
                        return v.kind in ('int', 'bool') or v.kind == 'float' and n in ('Number', 'Real')
                    if n == 'Hashable':
                        return True
                if v.kind == 'mo':
                    return False if n in BASETYPES else self.decide(('isinst', v.term, n))
                return self.decide(('isinst', v.term, n))
            if n in BASETYPES:
                return isinstance(v, BASETYPES[n])
            if n == 'NoneType':
                return v is None
            if n in ('Iterable', 'Collection', 'Container', 'Sized'):
                if isinstance(v, MO):
                    return v.val[0] in 'sm'
                if isinstance(v, Gen):
                    return n == 'Iterable'
                if isinstance(v, Inst):
                    return v.cls.find('__iter__' if n == 'Iterable' else '__len__')[0] is not None
                return isinstance(v, (list, tuple, dict, set, frozenset, str, bytes, range))
            if n in ('Mapping', 'MutableMapping'):
                return isinstance(v, dict)
            if n == 'Sequence':
                return isinstance(v, (list, tuple, str, bytes, range))
            if n in ('Set', 'MutableSet') and 'abc' in t.name:
                return isinstance(v, set if n[0] == 'M' else (set, frozenset))
            if n == 'Counter':
                import collections
                return isinstance(v, collections.Counter)
            if n in ('Number', 'Real', 'Integral'):
                import numbers
                return isinstance(v, getattr(numbers, n))
            if n == 'Callable':
                return self.b_callable(v)
            if n == 'Hashable':
                return not isinstance(v, (list, dict, set))
            if n == 'object':
                return True
            if t.name.startswith('rdflib.') and (v is None or isinstance(v, (str, int, float, bytes, tuple, MO))):
                return False
        raise Unsupported('isinstance of ' + repr(t))

    def b_issubclass(self, a, b):
        if isinstance(a, Klass) and isinstance(b, Klass):
            return a.sub(b)
        raise Unsupported('issubclass')

    def b_callable(self, v):
        return isinstance(v, (Func, Bound, Native, Klass, Ext)) or isinstance(v, Sym) and v.kind in (None, 'function')

    def b_hasattr(self, v, a):
        if hasattr(v, 'attrnames'):
            return a in v.attrnames
        try:
            self.getattr(v, a)
            return True
        except PyRaise as e:
            if e.typ == 'AttributeError':
                return False
            raise

    def b_getattr(self, v, a, *d):
        try:
            return self.getattr(v, a)
        except PyRaise as e:
            if e.typ == 'AttributeError' and d:
                return d[0]
            raise

    def b_setattr(self, o, a, v):
        self.setattr(o, a, v)

    def b_type(self, v, *rest):
        if rest:
            raise Unsupported('type')
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, MO):
            for ci in self.prog.clss:
                if ci.name == KINDNAME.get(v.val[0]) and ci.module.short.startswith('mathobjects'):
                    return self.klass(ci)
        if isinstance(v, Sym):
            if ('type', v.kind) in self.specs:
                return self.specs[('type', v.kind)](self, v)
            if v.kind in BASETYPES:
                return Ext('builtins.' + v.kind)
            return Sym(('type', v.term))
        if v is None:
            return Ext('builtins.NoneType')
        for n, t in BASETYPES.items():
            if type(v) is t:
                return Ext('builtins.' + n)
        raise Unsupported('type of ' + repr(v))

    def b_str(self, v='', *rest):
        return self.str(v)

    def b_repr(self, v):
        return self.repr(v)

    def b_bool(self, v=False):
        return self.truth(v)

    def b_int(self, v=0, *rest):
        if isinstance(v, Sym):
            if v.kind == 'str':
                if not self.decide(('isint', v.term)):
                    raise PyRaise('ValueError')
                return Sym(('int', v.term), 'int')
            if v.kind in ('int', 'bool'):
                return v
            return Sym(('int', v.term), 'int')
        if symbolic(v):
            raise Unsupported('int')
        return self.native(int, v, *rest)

    def b_float(self, v=0.0):
        if isinstance(v, Sym):
            if v.kind == 'str':
                if not self.dec.table.get(('isint', v.term)) == 0 and not self.decide(('isfloat', v.term)):
                    raise PyRaise('ValueError')
                return Sym(('float', v.term), 'float')
            return Sym(('float', v.term), 'float')
        if symbolic(v):
            raise Unsupported('float')
        return self.native(float, v)

    def b_list(self, v=()):
        return list(self.iterate(v))

    def b_tuple(self, v=()):
        return tuple(self.iterate(v))

    def b_set(self, v=()):
        s = set()
        for x in self.iterate(v):
            if isinstance(x, (list, dict, set)):
                raise PyRaise('TypeError')
            if not (isinstance(x, Inst) and self.contains(s, x)):
                s.add(x)
        return s

    def b_frozenset(self, v=()):
        return frozenset(self.b_set(v))

    def b_dict(self, *args, **kw):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, dict):
                d.update(a)
            else:
                for p in self.iterate(a):
                    k, v = self.iterate(p)
                    d[k] = v
        d.update(kw)
        return d

    def b_iter(self, v):
        return Gen(iter(self.iterate(v)))

    def b_next(self, it, *d):
        if hasattr(it, 'nextline'):
            return it.nextline(self, d)
        if isinstance(it, Gen) or hasattr(it, '__next__'):
            return self.next(it, d)
        raise PyRaise('TypeError')

    def b_sorted(self, xs, **kw):
        return self.sorted(xs, kw)

    def b_reversed(self, xs):
        return Gen(iter(list(reversed(list(self.iterate(xs))))))

    def b_range(self, *a):
        if symbolic(*a):
            raise Unsupported('range')
        return self.native(range, *a)

    def b_enumerate(self, xs, start=0):
        return Gen(iter((i, x) for i, x in enumerate(self.iterate(xs), start)))

    def b_zip(self, *xs):
        return Gen(zip(*[self.iterate(x) for x in xs]))

    def b_map(self, f, *xs):
        return Gen(self.call(f, list(a), {}) for a in zip(*[self.iterate(x) for x in xs]))

    def b_filter(self, f, xs):
        return Gen(x for x in self.iterate(xs) if (self.truth(self.call(f, [x], {})) if f is not None else self.truth(x)))

    def b_all(self, xs):
        for x in self.iterate(xs):
            if not self.truth(x):
                return False
        return True

    def b_any(self, xs):
        for x in self.iterate(xs):
            if self.truth(x):
                return True
        return False

    def b_sum(self, xs, start=0):
        acc = start
        for x in self.iterate(xs):
            acc = self.binop('Add', acc, x)
        return acc

    def b_min(self, *xs, **kw):
        vs = list(self.iterate(xs[0])) if len(xs) == 1 else list(xs)
        if symbolic(*vs) or kw:
            raise Unsupported('min')
        return self.native(min, vs)

    def b_max(self, *xs, **kw):
        vs = list(self.iterate(xs[0])) if len(xs) == 1 else list(xs)
        if symbolic(*vs) or kw:
            raise Unsupported('max')
        return self.native(max, vs)

    def b_hash(self, v):
        if isinstance(v, Inst) and v.cls.find('__hash__')[0] is not None:
            return self.call(Bound(v.cls.find('__hash__')[0], v), [], {})
        if isinstance(v, Sym) and v.kind == 'int' and v.term[0] in ('hash', 'BitAnd', 'Add'):
            return v
        return Sym(('hash', self.hashterm(v)), 'int')

    def hashterm(self, v):
        if isinstance(v, Inst):
            return ('inst', v.n)
        if isinstance(v, (set, frozenset)):
            return ('set', frozenset(map(self.elemhash, v)))
        if isinstance(v, tuple):
            return ('tuple',) + tuple(map(self.elemhash, v))
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, (list, dict)):
            raise PyRaise('TypeError')
        return v

    def elemhash(self, v):
        """Hash of a part: what the hash of a tuple or a set depends on."""
        r = self.b_hash(v)
        return r.term if isinstance(r, Sym) else r

    def b_id(self, v):
        raise Unsupported('id')

    def b_print(self, *a, **kw):
        return None

    def b_open(self, *a, **kw):
        raise Unsupported('open')


class TextIO:
    """io.StringIO or a file that text is written to."""
    attrnames = ('write', 'getvalue', 'close', 'read', 'readlines', 'writelines', 'flush')

    def __init__(self):
        self.parts = []

    def attr(self, a):
        if a == 'write':
            def w(args, kw):
                self.parts.append(args[0])
                return None
            return Native(w)
        if a == 'getvalue':
            return Native(lambda args, kw: cat(self.parts))
        if a in ('close', 'flush'):
            return Native(lambda args, kw: None)
        if a == 'writelines':
            def ws(args, kw):
                self.parts += list(args[0])
            return Native(ws)
        raise Unsupported('file.' + a)

    def enter(self):
        return self

    def text(self):
        return cat(self.parts)


def load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    r = getattr(node, '_is_gen', None)
    if r is None:
        r = node._is_gen = has_yield(node)
    return r


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))
    return False
