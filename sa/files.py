"""C24: typestate of files (opened, closed, lent by the caller) along every path of every function.

A path-sensitive abstract execution of the syntax tree: values say whether an expression denotes a file
opened here ('R', site), an object lent by the caller ('P', n), something read lazily from a file
('LAZY', sites) or nothing of interest; the state holds which sites are open and which conditions were assumed.
Every call, subscript, arithmetic operation, iteration and yield may raise. Calls that receive or capture such
values are analysed in place."""
import ast
import collections

from .loader import ClsInfo, FnInfo, Program
from .report import Report

OPENERS = {'builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen',
           'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'io.FileIO'}
WRAPPERS = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'codecs.EncodedFile', 'csv.writer', 'csv.DictWriter'}
LAZY = {'csv.reader', 'csv.DictReader', 'builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.iter',
        'builtins.enumerate', 'builtins.reversed', 'itertools.chain', 'itertools.islice', 'itertools.takewhile',
        'itertools.dropwhile', 'itertools.starmap', 'itertools.filterfalse', 'itertools.accumulate',
        'xml.etree.ElementTree.iterparse', 'itertools.chain.from_iterable'}
TOTAL = {'builtins.isinstance', 'builtins.hasattr', 'builtins.callable', 'builtins.type', 'builtins.id',
         'builtins.bool', 'builtins.issubclass', 'contextlib.nullcontext', 'contextlib.ExitStack',
         'contextlib.closing', 'contextlib.suppress', 'functools.partial'}
FILEATTRS = {'read', 'readlines', 'readline', 'write', 'close', 'flush', 'seek', 'tell', '__enter__', '__exit__',
             '__iter__', '__next__', 'name', 'fileno', 'closed', 'mode', 'writelines'}
O = ('O',)
NONE = ('NONE',)
LIMIT = 3000


class TooBig(Exception):
    pass


class St:
    __slots__ = ('env', 'open', 'assume', 'reg', 'k')

    def __init__(self, env, open_, assume, reg):
        self.env, self.open, self.assume, self.reg = env, open_, assume, reg
        self.k = None

    def key(self):
        if self.k is None:
            self.k = (frozenset(self.env.items()), self.open, self.assume, self.reg)
        return self.k

    def but(self, **kw):
        return St(kw.get('env', self.env), kw.get('open', self.open), kw.get('assume', self.assume),
                  kw.get('reg', self.reg))

    def put(self, name, v):
        env = dict(self.env)
        env[name] = v
        tag = repr(name)
        return self.but(env=env, assume=frozenset(a for a in self.assume if tag not in a[0]))

    def acquire(self, site):
        return self.but(open=self.open | {site})

    def release(self, site):
        return self.but(open=self.open - {site})


def sites(v):
    if v[0] == 'R':
        return {v[1]}
    if v[0] in ('LAZY', 'WR'):
        return set(v[1])
    if v[0] in ('NC', 'CM'):
        return sites(v[1])
    if v[0] == 'TUP':
        return set().union(*[sites(x) for x in v[1]])
    return set()


def tracked(v):
    return v[0] in ('R', 'P', 'LAZY', 'WR', 'NC', 'CM', 'ES', 'FN') or v[0] == 'TUP' and any(map(tracked, v[1]))


def dedupe(outs):
    seen, res = set(), []
    for o in outs:
        k = (o[0], o[1].key(), o[2])
        if k not in seen:
            seen.add(k)
            res.append(o)
    if len(res) > LIMIT:
        raise TooBig
    return res


def shape(e):
    import copy

    class Anon(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name('_', ast.Load())
    e = Anon().visit(copy.deepcopy(e))
    for n in ast.walk(e):
        if isinstance(n, ast.Compare):
            n.ops = [{ast.NotIn: ast.In(), ast.NotEq: ast.Eq(), ast.IsNot: ast.Is()}.get(type(o), o) for o in n.ops]
    return ast.dump(e)


class Walker:
    """Executes one root function."""

    def __init__(self, prog, an, info, public):
        self.prog, self.an, self.root, self.public = prog, an, info, public
        self.frames = 0
        self.fns = {}
        self.hook = {}            # frame -> callback at a yield of a context manager
        self.depth = 0
        self.stack = []
        self.sitewhere = {}
        self.steps = 0

    # -- bookkeeping
    def where(self, node):
        return '{}:{}'.format(self.stack[-1][1].rel, getattr(node, 'lineno', 0))

    def site(self, node):
        s = (self.stack[-1][1].rel, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        self.sitewhere[s] = (self.stack[-1][0], ast.unparse(node)[:80])
        return s

    def name_of(self, site):
        fn, text = self.sitewhere[site]
        return fn, text, '{}:{}'.format(site[0], site[1])

    def find(self, rule, site, text, node=None):
        fn, code, where = self.name_of(site) if site else (self.stack[-1][0], '', self.where(node))
        self.an.find(rule, fn, where if node is None else self.where(node), text.format(code))

    # -- names
    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            if (f, name) in st.env:
                return st.env[(f, name)]
            f = self.parents[f]
        return None

    def static(self, e):
        """Dotted name or library function that e denotes, if it isn't a local."""
        return self.prog.resolve_expr_static(e, self.stack[-1][1])

    def dotted(self, e, st, fr):
        b = e
        while isinstance(b, ast.Attribute):
            b = b.value
        if not isinstance(b, ast.Name):
            return None
        v = self.lookup(b.id, st, fr)
        if v is not None:
            if v[0] == 'MODREF':
                tail = ast.unparse(e)[len(b.id):]
                return self.prog.resolve_dotted(v[1] + tail)
            return None
        r = self.static(e)
        if isinstance(r, tuple) and r[0] == 'expr':
            r2 = self.prog.resolve_expr_static(r[1], r[2])
            return r2 if r2 is not None else r
        return r

    # -- conditions
    def cond_key(self, e, st, fr):
        """Key of a condition whose value does not change while its variables keep their values."""
        me = self

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                v = me.lookup(n.id, st, fr)
                if v is None:
                    return n
                if v[0] in ('P', 'R', 'NONE', 'BOOL', 'K'):
                    return ast.copy_location(ast.Name('<%r>' % (v,), n.ctx), n)
                f = fr
                while (f, n.id) not in st.env:
                    f = me.parents[f]
                return ast.copy_location(ast.Name('<%r>' % ((f, n.id),), n.ctx), n)
        import copy
        return ast.dump(Sub().visit(copy.deepcopy(e)))

    def truth(self, e, st, fr):
        """[(state, True|False)] and exceptional outcomes."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            ok, ex = self.truth(e.operand, st, fr)
            return [(s, not b) for s, b in ok], ex
        if isinstance(e, ast.BoolOp):
            ok, ex = [(st, isinstance(e.op, ast.And))], []
            for x in e.values:
                nxt = []
                for s, b in ok:
                    if b == isinstance(e.op, ast.And):
                        o2, e2 = self.truth(x, s, fr)
                        nxt += o2
                        ex += e2
                    else:
                        nxt.append((s, b))
                ok = nxt
            return ok, ex
        outs = self.ev(e, st, fr)
        ok, ex = [], [o for o in outs if o[0] == 'exc']
        for _, s, v in outs:
            if _ == 'exc':
                continue
            for b in (True, False):
                s2 = self.assume(v, b, s)
                if s2 is not None:
                    ok.append((s2, b))
        return ok, ex

    def assume(self, v, b, st):
        if v[0] == 'NONE':
            return st if not b else None
        if v[0] in ('R', 'LAZY', 'NC', 'CM', 'ES', 'FN', 'TUP', 'WR'):
            return st if b else None
        if v[0] == 'BOOL':
            return st if v[1] == b else None
        if v[0] == 'COND':
            want = b == v[2]
            return self.take(v[1], want, st)
        if v[0] == 'P':
            return self.take('truth ' + repr(v), b, st)
        if v[0] == 'V':
            return self.take('truth ' + repr(v[1]), b, st)
        return st

    def again(self, e):
        """Is a condition like e evaluated more than once in the module?"""
        return self.an.shapes(self.stack[-1][1])[shape(e)] > 1

    def tested(self, name):
        """Is the variable tested more than once in the function?"""
        return self.an.tests(self.stack[-1][3])[name] > 1

    def take(self, key, b, st):
        for k, x in st.assume:
            if k == key:
                return st if x == b else None
        return st.but(assume=st.assume | {(key, b)})

    # -- expressions: [('next', state, value) | ('exc', state, None)]
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 200000:
            raise TooBig
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return dedupe(m(e, st, fr))
        return self.generic(e, st, fr)

    def seq(self, es, st, fr):
        """Evaluates expressions in order: [(state, values)], exceptional outcomes."""
        ok, ex = [(st, ())], []
        for x in es:
            nxt, seen = [], set()
            for s, vs in ok:
                for o in self.ev(x, s, fr):
                    if o[0] == 'exc':
                        ex.append(o)
                    else:
                        k = (o[1].key(), vs + (o[2],))
                        if k not in seen:
                            seen.add(k)
                            nxt.append((o[1], vs + (o[2],)))
            ok = nxt
        return ok, ex

    def generic(self, e, st, fr, raises=True):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.comp(e, st, fr)
        subs = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        ok, ex = self.seq(subs, st, fr)
        out = ex
        for s, vs in ok:
            out.append(('next', s, O))
            if raises and isinstance(e, (ast.Subscript, ast.BinOp, ast.Await, ast.Starred)):
                out.append(('exc', s, None))
        return out

    def e_Constant(self, e, st, fr):
        if e.value is None:
            return [('next', st, NONE)]
        if isinstance(e.value, bool):
            return [('next', st, ('BOOL', e.value))]
        return [('next', st, ('K', repr(e.value)))]

    def e_Name(self, e, st, fr):
        v = self.lookup(e.id, st, fr)
        if v is None:
            r = self.static(e)
            if isinstance(r, FnInfo):
                return [('next', st, self.fnval(r.node, r.module, None))]
            return [('next', st, O)]
        if v == O:
            f = fr
            while (f, e.id) not in st.env:
                f = self.parents[f]
            return [('next', st, ('V', (f, e.id)) if self.tested(e.id) else O)]
        return [('next', st, v)]

    def e_Attribute(self, e, st, fr):
        if isinstance(e.value, ast.Name):
            v = self.lookup(e.value.id, st, fr)
            if v == ('SELF',):
                return [('next', st, st.env.get(('self', e.attr), O))]
        r = self.dotted(e, st, fr)
        if isinstance(r, FnInfo):
            return [('next', st, self.fnval(r.node, r.module, None))]
        out = []
        for k, s, v in self.ev(e.value, st, fr):
            if k == 'exc':
                out.append((k, s, v))
            elif v[0] == 'R' and e.attr == 'close':
                out.append(('next', s, ('CLOSE', v)))
            elif v[0] in ('R', 'P') and e.attr == 'closed':
                out.append(('next', s, ('BOOL', v[1] not in s.open) if v[0] == 'R' else O))
            else:
                out.append(('next', s, O))
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for k, s, v in self.ev(e.value, st, fr):
            out.append((k, s if k == 'exc' else s.put((fr, e.target.id), v), v))
        return out

    def e_IfExp(self, e, st, fr):
        ok, out = self.truth(e.test, st, fr)
        for s, b in ok:
            out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        live, out = [(st, None)], []
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in live:
                for k, s2, v in self.ev(x, s, fr):
                    if k == 'exc':
                        out.append((k, s2, v))
                        continue
                    if i == len(e.values) - 1:
                        out.append((k, s2, v))
                        continue
                    for b in (True, False):
                        s3 = self.assume(v, b, s2)
                        if s3 is None:
                            continue
                        if b == isinstance(e.op, ast.And):
                            nxt.append((s3, v))
                        else:
                            out.append(('next', s3, v if v[0] != 'COND' else ('BOOL', b)))
            live = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        if not isinstance(e.op, ast.Not):
            return self.generic(e, st, fr)
        out = []
        for k, s, v in self.ev(e.operand, st, fr):
            if k == 'exc':
                out.append((k, s, v))
            elif v[0] == 'COND':
                out.append((k, s, ('COND', v[1], not v[2])))
            else:
                for b in (True, False):
                    s2 = self.assume(v, b, s)
                    if s2 is not None:
                        out.append(('next', s2, ('BOOL', not b)))
        return out

    def e_Compare(self, e, st, fr):
        ok, out = self.seq([e.left] + e.comparators, st, fr)
        for s, vs in ok:
            v = None
            if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and NONE in vs:
                a = vs[0] if vs[1] == NONE else vs[1]
                pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
                if a == NONE:
                    v = ('BOOL', pos)
                elif a[0] in ('R', 'LAZY', 'NC', 'CM', 'ES', 'TUP', 'BOOL', 'K', 'FN', 'WR'):
                    v = ('BOOL', not pos)
                elif a != O:
                    v = ('COND', 'none ' + repr(a), pos)
                else:
                    v = O
            elif len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and vs[0][0] in ('R', 'P') and \
                    vs[1][0] in ('R', 'P'):
                v = ('BOOL', (vs[0] == vs[1]) == isinstance(e.ops[0], ast.Is))
            elif len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotIn, ast.NotEq)):
                pos = {ast.NotIn: ast.In, ast.NotEq: ast.Eq}[type(e.ops[0])]()
                v = ('COND', self.cond_key(ast.Compare(e.left, [pos], e.comparators), s, fr), False)
            if v is None:
                v = ('COND', self.cond_key(e, s, fr), True)
            if v[0] == 'COND' and not v[1].startswith('none') and not self.again(e):
                v = O
            out.append(('next', s, v))
        return out

    def e_Tuple(self, e, st, fr):
        ok, out = self.seq(e.elts, st, fr)
        return out + [('next', s, ('TUP', vs)) for s, vs in ok]

    e_List = e_Tuple

    def e_Lambda(self, e, st, fr):
        return [('next', st, self.fnval(e, self.stack[-1][1], fr))]

    def fnval(self, node, mod, fr):
        key = (id(node), fr)
        self.fns[key] = (node, mod, fr, self.stack[-1][2])
        return ('FN', key)

    def comp(self, e, st, fr):
        """A comprehension: its first iterable is evaluated once, the rest may read what is in scope."""
        gen = e.generators[0]
        used = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = self.lookup(n.id, st, fr)
                if v is not None:
                    used |= sites(v)
                    if v[0] == 'FN':
                        used |= self.captured(v, st)
        out = []
        for k, s, v in self.ev(gen.iter, st, fr):
            if k == 'exc':
                out.append((k, s, v))
                continue
            used |= sites(v)
            if isinstance(e, ast.GeneratorExp):
                out.append(('next', s, ('LAZY', frozenset(used)) if used else O))
            else:
                self.use(used, s, e)
                out.append(('next', s, O))
                out.append(('exc', s, None))
                # calls in the element may open files
                for n in ast.walk(e.elt if hasattr(e, 'elt') else e.value):
                    if isinstance(n, ast.Call) and self.opener(n, s, fr):
                        site = self.site(n)
                        out.append(('next', s.acquire(site), O))
        return out

    def captured(self, fv, st):
        node, mod, fr, _ = self.fns[fv[1]]
        used = set()
        if fr is None:
            return used
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = self.lookup(n.id, st, fr)
                if v is not None and v != fv:
                    used |= sites(v)
        return used

    def use(self, ss, st, node):
        for s in sorted(ss):
            if s not in st.open:
                self.find('closed', s, 'the file opened by {} is used after it was closed', node)

    def e_Yield(self, e, st, fr):
        out = []
        base = self.ev(e.value, st, fr) if e.value is not None else [('next', st, NONE)]
        for k, s, v in base:
            if k == 'exc':
                out.append((k, s, v))
            elif fr in self.hook:
                out += self.hook[fr](s, v)
            else:
                out += [('next', s, O), ('exc', s, None)]
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for k, s, v in self.ev(e.value, st, fr):
            if k != 'exc':
                self.use(sites(v), s, e)
                out.append(('exc', s, None))
            out.append((k, s, O if k != 'exc' else v))
        return out

    def opener(self, e, st, fr):
        r = self.dotted(e.func, st, fr)
        if isinstance(r, tuple) and r[0] == 'ext':
            return r[1] in OPENERS
        return r is None and isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and \
            not (isinstance(e.func.value, ast.Name) and self.lookup(e.func.value.id, st, fr) in (('SELF',),))

    def e_Call(self, e, st, fr):
        out = []
        argn = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = [k.value for k in e.keywords]
        r = self.dotted(e.func, st, fr)
        fvals = [('next', st, O)]
        local = isinstance(e.func, ast.Name) and self.lookup(e.func.id, st, fr) is not None
        if local or not isinstance(e.func, (ast.Name, ast.Attribute)):
            fvals = self.ev(e.func, st, fr)
        recv = None
        if isinstance(e.func, ast.Attribute) and r is None:
            fvals = []
            for k, s, v in self.ev(e.func.value, st, fr):
                fvals.append((k, s, v))
            recv = e.func.attr
        for k0, s0, fv in fvals:
            if k0 == 'exc':
                out.append((k0, s0, fv))
                continue
            ok, ex = self.seq(argn + kws, s0, fr)
            out += ex
            for s, vs in ok:
                args = list(vs[:len(argn)])
                kwv = {k.arg: v for k, v in zip(e.keywords, vs[len(argn):])}
                out += self.call(e, r, recv, fv, local, args, kwv, s, fr)
        return out

    def call(self, e, r, recv, fv, local, args, kwv, st, fr):
        every = args + list(kwv.values())
        used = set().union(*[sites(v) for v in every]) if every else set()
        starred = any(isinstance(a, ast.Starred) for a in e.args) or None in kwv
        dotted = r[1] if isinstance(r, tuple) and r[0] == 'ext' else None
        if self.opener(e, st, fr):
            site = self.site(e)
            if site in st.open:
                self.find('leak', site, 'the file opened by {} is opened again before it is closed')
            return [('next', st.acquire(site), ('R', site)), ('exc', st, None)]
        if dotted == 'contextlib.nullcontext':
            return [('next', st, ('NC', args[0] if args else NONE))]
        if dotted == 'contextlib.closing' and args:
            return [('next', st, ('CM', args[0]))]
        if dotted == 'contextlib.ExitStack':
            return [('next', st, ('ES', self.site(e)))]
        if dotted == 'contextlib.suppress':
            return [('next', st, ('SUP',))]
        if dotted == 'functools.partial' and args and args[0][0] == 'FN':
            return [('next', st, ('PART', args[0], tuple(args[1:]), tuple(sorted(kwv.items()))))]
        if dotted in ('builtins.isinstance', 'builtins.hasattr') and len(args) == 2:
            v = args[0]
            if v[0] == 'R':
                if dotted.endswith('isinstance'):
                    t = ast.unparse(e.args[1])
                    if t in ('str', 'bytes', '(str, bytes)', '(str,)'):
                        return [('next', st, ('BOOL', False))]
                elif args[1][0] == 'K' and args[1][1].strip("'") in FILEATTRS:
                    return [('next', st, ('BOOL', True))]
            return [('next', st, ('COND', self.cond_key(e, st, fr), True) if self.again(e) else O)]
        if dotted == 'builtins.callable':
            return [('next', st, ('COND', self.cond_key(e, st, fr), True))]
        if dotted in WRAPPERS and used:
            self.use(used, st, e)
            return [('next', st, ('WR', frozenset(used))), ('exc', st, None)]
        if dotted in LAZY:
            self.use(used, st, e)
            res = [('next', st, ('LAZY', frozenset(used)) if used else O)]
            return res if dotted.startswith('builtins.') and dotted != 'builtins.iter' else res + [('exc', st, None)]
        if recv is not None and fv[0] in ('R', 'P', 'ES', 'WR', 'CM', 'NC'):
            return self.method(e, recv, fv, args, st)
        if recv is not None and fv == ('SELF',):
            return self.selfcall(e, recv, args, kwv, st, fr)
        target = None
        pre = []
        if isinstance(r, FnInfo):
            target = (r.node, r.module, None, None)
        elif isinstance(r, ClsInfo):
            target = None
        elif (local or recv is None) and fv[0] == 'FN':
            target = self.fns[fv[1]]
        elif (local or recv is None) and fv[0] == 'PART':
            target = self.fns[fv[1][1]]
            args = list(fv[2]) + args
            kwv = dict(fv[3], **kwv)
        elif (local or recv is None) and fv[0] == 'CLOSE':
            return [('next', st.release(fv[1][1]), NONE)]
        if target is not None:
            node = target[0]
            cm = any(ast.unparse(d).split('.')[-1] == 'contextmanager' for d in getattr(node, 'decorator_list', []))
            if cm and not starred:
                key = (id(e),)
                return [('next', st, ('GCM', target_key(self, target), tuple(args), tuple(sorted(kwv.items()))))]
            if is_gen(node):
                fvv = self.fnval(node, target[1], target[2])
                cap = self.captured(fvv, st) | used
                if not starred and self.depth < 5 and sum(1 for x in self.stack if x[3] is node) < 1 and (
                        any(map(tracked, every)) or target[2] is not None):
                    self.inline(target, args, kwv, st)          # for what its body does to files
                return [('next', st, ('LAZY', frozenset(cap)) if cap else O), ('exc', st, None)]
            if not starred and self.depth < 7 and (
                    any(tracked(v) and v[0] != 'P' for v in every) or target[2] is not None or
                    any(v[0] == 'P' for v in every) and simple(node) or id(node) in self.an.opens) and \
                    sum(1 for x in self.stack if x[3] is node) < 2:
                return self.inline(target, args, kwv, st)
        self.use(used, st, e)
        for v in every:
            if v[0] == 'FN':
                self.use(self.captured(v, st), st, e)
        res = [('next', st, O)]
        if dotted not in TOTAL:
            res.append(('exc', st, None))
        # an unknown callee may call the functions it is given
        for v in every:
            if v[0] == 'FN' and not isinstance(r, ClsInfo):
                node = self.fns[v[1]][0]
                if self.depth < 4 and not is_gen(node):
                    n = len(node.args.args)
                    for o in self.inline(self.fns[v[1]], [O] * n, {}, st):
                        res.append(o if o[0] == 'exc' else ('next', o[1], O))
        return res

    def method(self, e, name, v, args, st):
        if v[0] == 'R':
            if name in ('close', '__exit__'):
                return [('next', st.release(v[1]), NONE)]
            self.use({v[1]}, st, e)
            return [('next', st, v if name == '__enter__' else O), ('exc', st, None)]
        if v[0] == 'P':
            if name == 'close':
                self.lent(v, e)
            return [('next', st, O), ('exc', st, None)]
        if v[0] == 'WR':
            if name == 'close':
                return [('next', st.but(open=st.open - set(v[1])), NONE)]
            self.use(set(v[1]), st, e)
            return [('next', st, O), ('exc', st, None)]
        if v[0] == 'ES':
            if name in ('enter_context', 'push', 'callback') and args:
                a = args[0]
                reg = st.reg
                if a[0] == 'CLOSE':
                    reg = reg | {(v[1], a[1])}
                elif a[0] == 'R' or a[0] == 'P' and name != 'callback':
                    reg = reg | {(v[1], a)}
                elif a[0] == 'CM':
                    reg = reg | {(v[1], a[1])}
                return [('next', st.but(reg=reg), a[1] if a[0] in ('CM', 'NC') else a)]
            if name == 'close':
                return [('next', self.unwind(v[1], st, e), NONE)]
            return [('next', st, O)]
        return [('next', st, O), ('exc', st, None)]

    def unwind(self, stack, st, node):
        for sid, v in st.reg:
            if sid == stack:
                if v[0] == 'R':
                    st = st.release(v[1])
                elif v[0] == 'P':
                    self.lent(v, node)
        return st.but(reg=frozenset(x for x in st.reg if x[0] != stack))

    def lent(self, v, node):
        if self.public:
            self.find('lent', None, 'a file passed in by the caller (parameter {}) is closed'.format(v[1]), node)

    def selfcall(self, e, name, args, kwv, st, fr):
        cls = self.stack[-1][2]
        fi = None
        if cls is not None:
            fi = next((m for n, m in cls.items() if n == name), None)
        tr = any(map(tracked, args + list(kwv.values()))) or any(k[0] == 'self' and sites(v) for k, v in st.env.items()
                                                                if isinstance(k, tuple))
        if fi is not None and self.depth < 7 and not is_gen(fi) and sum(1 for x in self.stack if x[3] is fi) < 2 and \
                (tr or id(fi) in self.an.opens):
            return self.inline((fi, self.stack[-1][1], None, cls), [('SELF',)] + args, kwv, st)
        self.use(set().union(*[sites(v) for v in args]) if args else set(), st, e)
        return [('next', st, O), ('exc', st, None)]

    # -- functions in place
    def frame(self, target, args, kwv, st):
        node, mod, parent, cls = target
        self.frames += 1
        fr = 'f%d' % (self.frames if self.frames < 10**6 else 0)
        fr = 'f%d.%d' % (len(self.stack), node.lineno)
        while any(x[4] == fr for x in self.stack):
            fr += "'"
        self.parents[fr] = parent
        a = node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        env = {k: v for k, v in st.env.items() if not (isinstance(k, tuple) and k[0] == fr)}
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            env[(fr, p)] = const(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            env[(fr, p.arg)] = const(d) if d is not None else O
        for p, v in zip(ps, args):
            env[(fr, p)] = v
        for p in ps[len(args):]:
            env.setdefault((fr, p), O)
        for k, v in kwv.items():
            env[(fr, k)] = v
        if a.vararg:
            env[(fr, a.vararg.arg)] = ('TUP', tuple(args[len(ps):]))
        if a.kwarg:
            env[(fr, a.kwarg.arg)] = O
        return fr, st.but(env=env)

    def inline(self, target, args, kwv, st):
        node, mod, parent, cls = target
        fr, s0 = self.frame(target, args, kwv, st)
        name = getattr(node, 'name', '<lambda>')
        qual = '.'.join(x for x in (mod.short, self.an.quals.get(id(node), name)) if x)
        self.stack.append((qual, mod, cls, node, fr))
        self.depth += 1
        try:
            outs = self.ev(node.body, s0, fr) if isinstance(node, ast.Lambda) else self.block(node.body, s0, fr)
        finally:
            self.stack.pop()
            self.depth -= 1
        res = []
        for k, s, v in outs:
            val = v if k == 'ret' or isinstance(node, ast.Lambda) and k == 'next' else NONE
            if val is not None and val[0] == 'V':
                val = O
            keep = val is not None and val[0] in ('FN', 'LAZY', 'PART', 'GCM')
            if not keep:
                s = s.but(env={n: x for n, x in s.env.items() if not (isinstance(n, tuple) and n[0] == fr)},
                          assume=frozenset(a for a in s.assume if repr(fr) not in a[0]))
            res.append(('exc', s, None) if k == 'exc' else ('next', s, val))
        return dedupe(res)

    # -- statements: [(kind, state, value)]
    def block(self, body, st, fr):
        live, out = [st], []
        for s in body:
            nxt = {}
            for x in live:
                for o in self.stmt(s, x, fr):
                    if o[0] == 'next':
                        nxt[o[1].key()] = o[1]
                    else:
                        out.append(o)
            live = list(nxt.values())
            if len(live) > LIMIT:
                raise TooBig
        return dedupe(out + [('next', s, NONE) for s in live])

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, st, fr)
        outs = [('next', st, NONE)]
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr) and isinstance(getattr(c, 'ctx', ast.Load()), ast.Load):
                nxt = []
                for o in outs:
                    nxt += self.ev(c, o[1], fr) if o[0] == 'next' else [o]
                outs = nxt
        return outs

    def s_FunctionDef(self, s, st, fr):
        return [('next', st.put((fr, s.name), self.fnval(s, self.stack[-1][1], fr)), NONE)]

    def s_ClassDef(self, s, st, fr):
        return [('next', st.put((fr, s.name), O), NONE)]

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st = st.put((fr, a.asname), ('MODREF', a.name))
            else:
                st = st.put((fr, a.name.split('.')[0]), ('MODREF', a.name.split('.')[0]))
        return [('next', st, NONE)]

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            st = st.put((fr, a.asname or a.name), ('MODREF', (s.module or '') + '.' + a.name))
        return [('next', st, NONE)]

    def s_Return(self, s, st, fr):
        outs = self.ev(s.value, st, fr) if s.value is not None else [('next', st, NONE)]
        return [('ret' if k == 'next' else k, x, v) for k, x, v in outs]

    def s_Raise(self, s, st, fr):
        out = []
        subs = [x for x in (s.exc, s.cause) if x is not None]
        ok, ex = self.seq(subs, st, fr)
        return ex + [('exc', x, None) for x, _ in ok]

    def s_Assert(self, s, st, fr):
        ok, ex = self.truth(s.test, st, fr)
        return ex + [('next', x, NONE) if b else ('exc', x, None) for x, b in ok]

    def s_Break(self, s, st, fr):
        return [('brk', st, NONE)]

    def s_Continue(self, s, st, fr):
        return [('cont', st, NONE)]

    def s_Pass(self, s, st, fr):
        return [('next', st, NONE)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st, fr):
        return [(k, x, NONE if k == 'next' else v) for k, x, v in self.ev(s.value, st, fr)]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            return st.put((self.owner(t.id, st, fr), t.id), O if v[0] == 'V' else v)
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == 'TUP' and len(v[1]) == len(t.elts) else [O] * len(t.elts)
            for x, y in zip(t.elts, vs):
                st = self.assign(x, y, st, fr)
            return st
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                self.lookup(t.value.id, st, fr) == ('SELF',):
            return st.put(('self', t.attr), v)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, O, st, fr)
        if sites(v):
            self.an.undecided(self.stack[-1][0], 'a file is stored where the analysis does not follow it')
            return st.but(open=st.open - sites(v))
        return st

    def owner(self, name, st, fr):
        """Frame that a store to name goes to (nonlocal)."""
        node = self.stack[-1][3]
        for n in ast.walk(node):
            if isinstance(n, ast.Nonlocal) and name in n.names:
                f = self.parents[fr]
                while f is not None:
                    if (f, name) in st.env:
                        return f
                    f = self.parents[f]
        return fr

    def s_Assign(self, s, st, fr):
        out = []
        for k, x, v in self.ev(s.value, st, fr):
            if k == 'next':
                for t in s.targets:
                    x = self.assign(t, v, x, fr)
                v = NONE
            out.append((k, x, v))
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [('next', st, NONE)]
        return self.s_Assign(ast.copy_location(ast.Assign([s.target], s.value), s), st, fr)

    def s_AugAssign(self, s, st, fr):
        out = []
        for k, x, v in self.ev(s.value, st, fr):
            if k == 'next':
                x = self.assign(s.target, O, x, fr) if isinstance(s.target, ast.Name) else x
                out.append(('exc', x, None))
            out.append((k, x, NONE if k == 'next' else v))
        return out

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st = st.put((fr, t.id), O)
        return [('next', st, NONE)]

    def s_If(self, s, st, fr):
        ok, out = self.truth(s.test, st, fr)
        for x, b in ok:
            out += self.block(s.body if b else s.orelse, x, fr)
        return dedupe(out)

    def loop(self, st, fr, head, body, orelse):
        """head(state) -> [(state, enter)], exceptional outcomes."""
        out, seen, work = [], {}, [st]
        while work:
            x = work.pop()
            if x.key() in seen:
                continue
            seen[x.key()] = x
            if len(seen) > 400:
                raise TooBig
            ok, ex = head(x)
            out += ex
            for y, enter in ok:
                if not enter:
                    out += self.block(orelse, y, fr)
                    continue
                for k, z, v in self.block(body, y, fr):
                    if k in ('next', 'cont'):
                        work.append(z)
                    elif k == 'brk':
                        out.append(('next', z, NONE))
                    else:
                        out.append((k, z, v))
        return dedupe(out)

    def s_While(self, s, st, fr):
        return self.loop(st, fr, lambda x: self.truth(s.test, x, fr), s.body, s.orelse)

    def s_For(self, s, st, fr):
        out = []
        for k, x, v in self.ev(s.iter, st, fr):
            if k == 'exc':
                out.append((k, x, v))
                continue
            ss = sites(v)

            def head(y, v=v, ss=ss):
                self.use(ss, y, s)
                z = self.assign(s.target, O, y, fr)
                return [(z, True), (y, False)], [('exc', y, None)]
            if v[0] == 'TUP':                      # a literal
                live, res = [x], []
                for el in v[1]:
                    nxt = {}
                    for y in live:
                        for k2, z, w in self.block(s.body, self.assign(s.target, el, y, fr), fr):
                            if k2 in ('next', 'cont'):
                                nxt[z.key()] = z
                            else:
                                res.append(('next' if k2 == 'brk' else k2, z, w))
                    live = list(nxt.values())
                out += res + [o for y in live for o in self.block(s.orelse, y, fr)]
            else:
                out += self.loop(x, fr, head, s.body, s.orelse)
        return dedupe(out)

    def s_Try(self, s, st, fr):
        outs = []
        for k, x, v in self.block(s.body, st, fr):
            if k == 'exc':
                total = False
                for h in s.handlers:
                    y = x.put((fr, h.name), O) if h.name else x
                    outs += self.block(h.body, y, fr)
                    names = ast.unparse(h.type) if h.type is not None else 'BaseException'
                    if any(n.strip(' ()') in ('BaseException', 'Exception') for n in names.split(',')):
                        total = True
                        break
                if not total:
                    outs.append((k, x, v))
            elif k == 'next':
                outs += self.block(s.orelse, x, fr)
            else:
                outs.append((k, x, v))
        if not s.finalbody:
            return dedupe(outs)
        res = []
        for k, x, v in dedupe(outs):
            for k2, y, w in self.block(s.finalbody, x, fr):
                res.append((k, y, v) if k2 == 'next' else (k2, y, w))
        return dedupe(res)

    s_TryStar = s_Try

    def s_With(self, s, st, fr):
        return self.withs(s, 0, st, fr)

    def withs(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        it = s.items[i]
        out = []
        for k, x, v in self.ev(it.context_expr, st, fr):
            if k == 'exc':
                out.append((k, x, v))
                continue
            if v[0] == 'GCM':
                out += self.gcm(s, i, it, v, x, fr)
                continue
            bound = v[1] if v[0] in ('NC', 'CM') else v
            if v[0] == 'R':
                self.use({v[1]}, x, it.context_expr)
            if v[0] in ('O', 'V', 'P', 'WR'):
                out.append(('exc', x, None))
            if it.optional_vars is not None:
                x = self.assign(it.optional_vars, bound, x, fr)
            for k2, y, w in self.withs(s, i + 1, x, fr):
                if v[0] == 'R':
                    y = y.release(v[1])
                elif v[0] == 'CM' and v[1][0] in ('R', 'WR'):
                    y = y.but(open=y.open - sites(v[1]))
                elif v[0] == 'WR':
                    y = y.but(open=y.open - sites(v))
                elif v[0] in ('P', 'CM') and bound[0] == 'P':
                    self.lent(bound, it.context_expr)
                elif v[0] == 'ES':
                    y = self.unwind(v[1], y, it.context_expr)
                elif v[0] == 'SUP' and k2 == 'exc':
                    out.append(('next', y, NONE))
                out.append((k2, y, w))
        return dedupe(out)

    def gcm(self, s, i, it, v, st, fr):
        """with helper(...) as x: the helper is a generator; the body runs at its yield."""
        target = self.fns[v[1]]
        node, mod, parent, cls = target
        fr2, s0 = self.frame(target, list(v[2]), dict(v[3]), st)
        done = ('done', fr2)
        outer = list(self.stack)

        def at_yield(y, val):
            if it.optional_vars is not None:
                y = self.assign(it.optional_vars, val, y, fr)
            saved, self.stack = self.stack, outer
            try:
                outs = self.withs(s, i + 1, y, fr)
            finally:
                self.stack = saved
            res = []
            for k, z, w in outs:
                if k == 'exc':
                    res.append(('exc', z.put(done, ('exc', None)), None))
                else:
                    res.append(('next', z.put(done, (k, w)), NONE))
            return res
        self.hook[fr2] = at_yield
        self.stack.append(('.'.join(x for x in (mod.short, self.an.quals.get(id(node), node.name)) if x), mod, cls,
                           node, fr2))
        self.depth += 1
        try:
            outs = self.block(node.body, s0, fr2)
        finally:
            self.stack.pop()
            self.depth -= 1
            del self.hook[fr2]
        res = []
        for k, y, w in outs:
            pend = y.env.get(done)
            y = y.but(env={n: x for n, x in y.env.items() if not (isinstance(n, tuple) and (n[0] == fr2 or n == done))})
            if k == 'exc' or pend is None:
                res.append(('exc', y, None))
            else:
                res.append((pend[0] if pend[0] != 'exc' else 'next', y, pend[1] or NONE))
        return dedupe(res)

    def run(self):
        fi = self.root
        node = fi['node']
        self.parents = {}
        self.stack = [(fi['qual'], fi['mod'], fi['cls'], node, 'r')]
        self.parents['r'] = None
        a = node.args
        env = {}
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for j, p in enumerate(ps):
            env[('r', p.arg)] = ('P', p.arg)
        if fi['cls'] is not None and ps and not fi['static']:
            env[('r', ps[0].arg)] = ('SELF',)
        for p in (a.vararg, a.kwarg):
            if p:
                env[('r', p.arg)] = O
        outs = self.block(node.body, St(env, frozenset(), frozenset(), frozenset()), 'r')
        for k, s, v in outs:
            mine = sites(v) if k == 'ret' and v is not None else set()
            kept = {x for n, w in s.env.items() if isinstance(n, tuple) and n[0] == 'self' for x in sites(w)}
            for site in sorted(s.open):
                if k == 'ret' and v[0] in ('R', 'TUP', 'NC', 'CM') and site in mine:
                    continue
                if site in kept:
                    if fi['cls'] is not None and closes_attr({n: m for n, m in fi['cls'].items() if m is not node}, s, site):
                        self.an.undecided(fi['qual'], 'a file is kept in an attribute that another method closes')
                        continue
                self.find('leak', site, 'the file opened by {} is still open when ' + self.stack[0][0]
                          + (' is left by an exception' if k == 'exc' else ' returns'))
            for site in sorted(mine):
                if site not in s.open:
                    self.find('closed', site, 'what is returned from ' + self.stack[0][0] +
                              ' reads the file opened by {}, which is closed already')


def simple(node):
    """A helper that only classifies what it is given."""
    body = node.body if not isinstance(node, ast.Lambda) else [node.body]
    return len(body) <= 4 and not any(isinstance(n, (ast.For, ast.While, ast.comprehension)) for b in body for n in ast.walk(b))


def target_key(w, target):
    key = (id(target[0]), target[2])
    w.fns[key] = target
    return key


def const(d):
    if isinstance(d, ast.Constant):
        return NONE if d.value is None else ('BOOL', d.value) if isinstance(d.value, bool) else ('K', repr(d.value))
    return O


def is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))
    return False


def closes_attr(cls, st, site):
    attrs = {n[1] for n, v in st.env.items() if isinstance(n, tuple) and n[0] == 'self' and site in sites(v)}
    for m in cls.values():
        for n in ast.walk(m):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('close', '__exit__') \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in attrs:
                return True
    return False


class Analysis:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.quals, self.opens, self.roots = {}, set(), []
        self._shapes, self._tests = {}, {}
        for m in prog.modules.values():
            self.collect(m, m.tree.body, '', None)
        self._opens()
        self.why = {}

    def collect(self, mod, body, prefix, cls, nested=False):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + s.name
                self.quals[id(s)] = q
                static = any(ast.unparse(d) == 'staticmethod' for d in s.decorator_list)
                self.roots.append(dict(node=s, mod=mod, qual='.'.join(x for x in (mod.short, q) if x), cls=cls,
                                       static=static, nested=nested,
                                       public=not nested and not any(
                                           p.startswith('_') and not p.startswith('__') for p in q.split('.'))))
                self.collect(mod, s.body, q + '.', None, True)
            elif isinstance(s, ast.ClassDef):
                ms = {f.name: f for f in s.body if isinstance(f, ast.FunctionDef)}
                self.collect(mod, s.body, prefix + s.name + '.', ms, nested)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self.collect(mod, getattr(s, f, []) or [], prefix, cls, nested)
                for h in getattr(s, 'handlers', []):
                    self.collect(mod, h.body, prefix, cls, nested)

    def _opens(self):
        """Functions from which an opener can be reached by name."""
        names = {}
        calls = {}
        direct = set()
        for r in self.roots:
            names.setdefault(r['node'].name, []).append(r['node'])
            cs = set()
            for n in ast.walk(r['node']):
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if nm:
                        cs.add(nm)
                    if nm in ('open', 'fdopen', 'NamedTemporaryFile', 'TemporaryFile', 'FileIO', 'close', 'closing'):
                        direct.add(id(r['node']))
            calls[id(r['node'])] = cs
        self.opens |= direct
        changed = True
        while changed:
            changed = False
            hot = {r['node'].name for r in self.roots if id(r['node']) in self.opens}
            for r in self.roots:
                if id(r['node']) not in self.opens and calls[id(r['node'])] & hot:
                    self.opens.add(id(r['node']))
                    changed = True

    def shapes(self, mod):
        if mod.name not in self._shapes:
            c = collections.Counter()
            for n in ast.walk(mod.tree):
                if isinstance(n, (ast.Compare, ast.Call)):
                    c[shape(n)] += 1
            self._shapes[mod.name] = c
        return self._shapes[mod.name]

    def tests(self, node):
        if id(node) not in self._tests:
            c = collections.Counter()
            for n in ast.walk(node):
                ts = []
                if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                    ts = [n.test]
                elif isinstance(n, ast.comprehension):
                    ts = n.ifs
                elif isinstance(n, ast.BoolOp):
                    ts = n.values
                for t in ts:
                    for x in {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}:
                        c[x] += 1
            self._tests[id(node)] = c
        return self._tests[id(node)]

    def find(self, rule, construct, where, text):
        self.rep.find(RULES[rule], construct, where, text, key='{}|{}|{}'.format(rule, construct, text))

    def undecided(self, construct, why):
        self.why.setdefault(construct, why)


RULES = {
    'leak': 'R-close: a file that is opened is closed on every path, exceptional ones included',
    'closed': 'R-open: a file is only read or written while it is open',
    'lent': 'R-lent: a file passed in by the caller is left open',
}


def run(tier):
    rep = Report()
    prog = Program()
    an = Analysis(prog, rep)
    rep.rules = dict(RULES)
    for r in an.roots:
        closes = any(isinstance(n, ast.Attribute) and n.attr in ('close', '__exit__') or isinstance(n, ast.With)
                     for n in ast.walk(r['node']))
        if r['nested']:
            continue
        rep.count('functions')
        if id(r['node']) not in an.opens and not closes:
            continue
        w = Walker(prog, an, r, r['public'])
        why = None
        try:
            w.run()
        except (TooBig, RecursionError):
            why = 'too many paths'
        except Exception as x:                  # outside the analysed language
            why = '{}: {}'.format(type(x).__name__, x)[:120]
        why = why or an.why.get(r['qual'])
        rep.ob(r['qual'], why is None, why)
        rep.samples.append('{}: {} sites'.format(r['qual'], len(w.sitewhere)))
        rep.count('open_sites', len(w.sitewhere))
    rep.count('paths_rule', 1)
    return rep
