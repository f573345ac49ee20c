#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to a scratch copy of the library and runs all checks on it.

refactor.py [NAME ...] [--test]     every check has to stay quiet; --test runs the library's tests on the copy
Rewrites are applied to every place in the library where they are possible.
"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COUNT = [0]


def fresh(p='tmp'):
    COUNT[0] += 1
    return '{}_{}_'.format(p, COUNT[0])


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def assign(i, v):
    return ast.Assign([name(i, ast.Store())], v)


class Blocks(ast.NodeTransformer):
    """Calls self.rewrite(list of statements) on every statement list of functions."""
    def __init__(self):
        self.infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.infn:
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(n, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                    setattr(n, f, self.rewrite(v, n))
        return n

    def rewrite(self, body, owner):
        return body


class TempReturn(Blocks):
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh('answer')
                out += [assign(t, s.value), ast.Return(name(t))]
            else:
                out.append(s)
        return out


class FlipIf(Blocks):
    def rewrite(self, body, owner):
        for s in body:
            if isinstance(s, ast.If) and s.orelse:
                s.test = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) \
                    else ast.UnaryOp(ast.Not(), s.test)
                s.body, s.orelse = s.orelse, s.body
        return body


class ElseAfterReturn(Blocks):
    """if c: return x; rest  ->  if c: return x else: rest"""
    def rewrite(self, body, owner):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and i + 1 < len(body):
                s.orelse = self.rewrite(body[i + 1:], owner)
                return body[:i + 1]
        return body


class NestAnd(Blocks):
    def rewrite(self, body, owner):
        for s in body:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and \
                    isinstance(s.test.op, ast.And):
                inner = s.body
                for v in reversed(s.test.values[1:]):
                    inner = [ast.If(v, inner, [])]
                s.test, s.body = s.test.values[0], inner
        return body


class IfExpToIf(Blocks):
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [b]))
            else:
                out.append(s)
        return out


class IfToIfExp(Blocks):
    """if c: return a; return b -> return a if c else b"""
    def rewrite(self, body, owner):
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(body[-2], ast.If) and \
                not body[-2].orelse and len(body[-2].body) == 1 and isinstance(body[-2].body[0], ast.Return) and \
                body[-1].value is not None and body[-2].body[0].value is not None:
            return body[:-2] + [ast.Return(ast.IfExp(body[-2].test, body[-2].body[0].value, body[-1].value))]
        return body


class CompToLoop(Blocks):
    """x = C(comprehension) and return f(comprehension): build with a loop first."""
    def rewrite(self, body, owner):
        out = []
        for s in body:
            pre = []
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                for c in [x for x in first_comps(s.value)]:
                    t = fresh('items')
                    if isinstance(c, ast.DictComp):
                        init = ast.Dict([], [])
                        act = ast.Assign([ast.Subscript(name(t), c.key, ast.Store())], c.value)
                    elif isinstance(c, ast.SetComp):
                        init = ast.Call(name('set'), [], [])
                        act = ast.Expr(ast.Call(ast.Attribute(name(t), 'add', ast.Load()), [c.elt], []))
                    else:
                        init = ast.List([], ast.Load())
                        act = ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [c.elt], []))
                    inner = [act]
                    for g in reversed(c.generators):
                        for i in reversed(g.ifs):
                            inner = [ast.If(i, inner, [])]
                        inner = [ast.For(g.target, g.iter, inner, [])]
                    pre += [assign(t, init)] + inner
                    s = Replace(c, name(t)).visit(s)
            out += pre + [s]
        return out


def first_comps(e):
    """Comprehensions that are evaluated unconditionally, outermost only."""
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return [e]
    if isinstance(e, (ast.Lambda, ast.IfExp, ast.BoolOp)):
        return []
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('all', 'any', 'next'):
        return []
    out = []
    for c in ast.iter_child_nodes(e):
        if isinstance(c, (ast.expr, ast.keyword)):
            out += first_comps(c)
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else super().visit(n)


class LoopToComp(Blocks):
    """for x in it: [if c:] acc.add(e)/append(e)   ->  acc.update/extend(e for x in it if c)"""
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                b, ifs = s.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and \
                        isinstance(b.value.func, ast.Attribute) and b.value.func.attr in ('add', 'append') and \
                        isinstance(b.value.func.value, ast.Name):
                    m = {'add': 'update', 'append': 'extend'}[b.value.func.attr]
                    out.append(ast.Expr(ast.Call(ast.Attribute(b.value.func.value, m, ast.Load()), [
                        ast.GeneratorExp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])], [])))
                    continue
            out.append(s)
        return out


class QuantToLoop(Blocks):
    """return all(p for x in it) -> loop with early return"""
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id in ('all', 'any') and isinstance(s.value.args[0], ast.GeneratorExp):
                g = s.value.args[0]
                want = s.value.func.id == 'any'
                inner = [ast.If(g.elt if want else ast.UnaryOp(ast.Not(), g.elt), [ast.Return(ast.Constant(want))], [])]
                for c in reversed(g.generators):
                    for i in reversed(c.ifs):
                        inner = [ast.If(i, inner, [])]
                    inner = [ast.For(c.target, c.iter, inner, [])]
                out += inner + [ast.Return(ast.Constant(not want))]
            else:
                out.append(s)
        return out


class LoopToQuant(Blocks):
    """for x in it: if c: return K  /  return not K   ->  return [not] any(c for x in it)"""
    def rewrite(self, body, owner):
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Constant) and \
                isinstance(body[-1].value.value, bool) and isinstance(body[-2], ast.For):
            f = body[-2]
            if len(f.body) == 1 and isinstance(f.body[0], ast.If) and not f.body[0].orelse and \
                    len(f.body[0].body) == 1 and isinstance(f.body[0].body[0], ast.Return):
                r = f.body[0].body[0].value
                if isinstance(r, ast.Constant) and r.value is (not body[-1].value.value):
                    g = ast.Call(name('any'), [ast.GeneratorExp(f.body[0].test, [
                        ast.comprehension(f.target, f.iter, [], 0)])], [])
                    return body[:-2] + [ast.Return(g if r.value else ast.UnaryOp(ast.Not(), g))]
        return body


class ResultFlag(Blocks):
    """for x in it: if c: return K / return not K  ->  flag variable and break"""
    def rewrite(self, body, owner):
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(body[-1].value, ast.Constant) and \
                isinstance(body[-1].value.value, bool) and isinstance(body[-2], ast.For):
            f = body[-2]
            if len(f.body) == 1 and isinstance(f.body[0], ast.If) and not f.body[0].orelse and \
                    len(f.body[0].body) == 1 and isinstance(f.body[0].body[0], ast.Return):
                r = f.body[0].body[0].value
                if isinstance(r, ast.Constant) and r.value is (not body[-1].value.value):
                    t = fresh('found')
                    f.body[0].body = [assign(t, r), ast.Break()]
                    return body[:-2] + [assign(t, body[-1].value), f, ast.Return(name(t))]
        return body


class ExtractBody(ast.NodeTransformer):
    """def f(args): doc; body -> def _f_impl(args): body;  def f(args): doc; return _f_impl(args)"""
    def __init__(self):
        self.depth = 0

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.kwarg is None:
                doc = s.body[:1] if ast.get_docstring(s) else []
                rest = s.body[len(doc):]
                if rest and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and \
                        not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s.name
                                for x in ast.walk(s)):
                    impl = copy.deepcopy(s)
                    impl.name = '_' + s.name.lstrip('_') + '_impl'
                    impl.body = copy.deepcopy(rest)
                    a = s.args
                    call = ast.Call(name(impl.name), [name(x.arg) for x in a.posonlyargs + a.args] +
                                    ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs])
                    s.body = doc + [ast.Return(call)]
                    impl.args.defaults = []
                    impl.args.kw_defaults = [None] * len(impl.args.kwonlyargs)
                    out.append(impl)
            elif isinstance(s, ast.ClassDef) and s.name == 'Algebra':
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and m.decorator_list and m.args.kwarg is None and \
                            m.args.vararg is None and all(isinstance(d, ast.Name) and d.id == 'staticmethod'
                                                          for d in m.decorator_list):
                        doc = m.body[:1] if ast.get_docstring(m) else []
                        impl = copy.deepcopy(m)
                        impl.decorator_list = []
                        impl.name = '_' + m.name + '_impl'
                        impl.body = copy.deepcopy(m.body[len(doc):])
                        impl.args.defaults = []
                        impl.args.kw_defaults = [None] * len(impl.args.kwonlyargs)
                        a = m.args
                        m.body = doc + [ast.Return(ast.Call(name(impl.name), [name(x.arg) for x in a.args], [
                            ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]))]
                        out.append(impl)
            out.append(s)
        n.body = out
        return n


class ExtractFlags(ast.NodeTransformer):
    """The trailing statements "if ...: result.cache_...()" of a function go to a helper."""
    def visit_Module(self, n):
        self.helpers = []
        self.generic_visit(n)
        n.body = n.body + self.helpers
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for owner in [x for x in ast.walk(n) if hasattr(x, 'body') and isinstance(x.body, list)]:
            body = owner.body
            if not body or not isinstance(body[-1], ast.Return) or not isinstance(body[-1].value, ast.Name):
                continue
            i = len(body) - 1
            while i > 0 and self.flagstmt(body[i - 1], body[-1].value.id):
                i -= 1
            part = body[i:-1]
            if len(part) < 2:
                continue
            names = sorted({x.id for s in part for x in ast.walk(s) if isinstance(x, ast.Name)} &
                           ({a.arg for a in n.args.args} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                                                            and isinstance(x.ctx, ast.Store)}))
            h = fresh('_remember')
            self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []),
                                                part, [], lineno=0))
            owner.body = body[:i] + [ast.Expr(ast.Call(name(h), [name(x) for x in names], []))] + body[-1:]
        return n

    def flagstmt(self, s, res):
        if isinstance(s, ast.If):
            return all(self.flagstmt(x, res) for x in s.body + s.orelse)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            t = ast.unparse(s.value.func)
            return t.startswith(res + '.') and '.cache_' in t
        return False


class ReverseFlags(Blocks):
    """Reverses runs of independent "if ...: result.cache_x()" statements and chained calls."""
    def rewrite(self, body, owner):
        out, i = [], 0
        ef = ExtractFlags()
        while i < len(body):
            j = i
            while j < len(body) and isinstance(body[j], ast.If) and not body[j].orelse and \
                    ef.flagstmt(body[j], 'result') and 'result.cached' not in ast.unparse(body[j]):
                j += 1
            if j > i + 1:
                out += body[i:j][::-1]
                i = j
            else:
                out.append(body[i])
                i += 1
        return out


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        other = ast.Or() if isinstance(n.op, ast.And) else ast.And()

        def neg(v):
            return v.operand if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) else ast.UnaryOp(ast.Not(), v)
        if isinstance(n.op, ast.Or) and any(isinstance(v, (ast.Name, ast.Attribute, ast.Constant)) for v in n.values):
            return n
        if not self.boolctx:
            return n
        return ast.UnaryOp(ast.Not(), ast.BoolOp(other, [neg(v) for v in n.values]))

    boolctx = False

    def visit_If(self, n):
        self.boolctx = True
        n.test = self.visit(n.test)
        self.boolctx = False
        n.body = [self.visit(x) for x in n.body]
        n.orelse = [self.visit(x) for x in n.orelse]
        return n

    def visit_Call(self, n):
        b, self.boolctx = self.boolctx, False
        self.generic_visit(n)
        self.boolctx = b
        return n


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in n.body for x in ast.walk(s))
        params = {a.arg for a in n.args.args + n.args.kwonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        glob = {g for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        if nested:
            self.generic_visit(n)
            return n
        mine = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - glob
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in mine:
                x.id = x.id + '_r'
        return n


class Noop(Blocks):
    def rewrite(self, body, owner):
        if isinstance(owner, ast.FunctionDef):
            i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            return body[:i] + [assign('_unused', ast.Constant(0)), ast.Pass()] + body[i:]
        return body


class HoistIter(Blocks):
    """for x in e -> it = e; for x in it"""
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                t = fresh('source')
                out.append(assign(t, s.iter))
                s.iter = name(t)
            out.append(s)
        return out


class LocalAlias(Blocks):
    """Operands of calls are given a name first: f(g(x), y) in "return"/"=" """
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and \
                    not any(isinstance(x, ast.Call) for x in ast.walk(s.value.func)):
                for i, a in enumerate(s.value.args):
                    if isinstance(a, ast.Call) and not (isinstance(a.func, ast.Name) and a.func.id == 'super'):
                        t = fresh('part')
                        out.append(assign(t, a))
                        s.value.args[i] = name(t)
                    elif not isinstance(a, (ast.Name, ast.Constant)):
                        break
            out.append(s)
        return out


class StarToSet(ast.NodeTransformer):
    """frozenset(genexp) <-> {setcomp}; Set(genexp) -> Set([listcomp])"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('frozenset', 'set') and len(n.args) == 1 and \
                isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            return ast.Call(n.func, [ast.ListComp(g.elt, g.generators)], [])
        nm = ast.unparse(n.func)
        if nm.endswith(('.Set', '.Multiset')) or nm in ('Set', 'Multiset'):
            if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n


class AugToPlain(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        if isinstance(n.target, ast.Subscript):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class IsNotToNotIs(ast.NodeTransformer):
    INV = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.INV:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.INV[type(n.ops[0])]()], n.comparators))
        return n


class CheckedHelper(ast.NodeTransformer):
    """if _checked: body -> if not _checked: pass else: body (keeps the meaning)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Name) and n.test.id == '_checked' and not n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)
        return n


class WhileIter(Blocks):
    """for x in e: body -> explicit list, index loop (only without continue)"""
    def rewrite(self, body, owner):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                t, i = fresh('queue'), fresh('at')
                out += [assign(t, ast.Call(name('list'), [s.iter], [])), assign(i, ast.Constant(0)),
                        ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(t)], [])]),
                                  [ast.Assign([s.target], ast.Subscript(name(t), name(i), ast.Load())),
                                   ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
            else:
                out.append(s)
        return out


ALL = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer)
       and v not in (Blocks, Replace)}


def tree(nm, d):
    shutil.copytree('/repo', d, symlinks=True)
    n = 0
    for dp, dn, fn in os.walk(os.path.join(d, 'algebraixlib')):
        for f in fn:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                src = open(p, newline='').read()
                t = ast.parse(src)
                before = ast.unparse(t)
                new = ast.unparse(ast.fix_missing_locations(ALL[nm]().visit(t)))
                if new != before:
                    n += 1
                    open(p, 'w').write(new + '\n')
    return n


def main():
    test = '--test' in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(ALL)
    for nm in names:
        d = '/tmp/plant/rf-' + nm
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs('/tmp/plant', exist_ok=True)
        try:
            n = tree(nm, d)
            msg = ''
            if test:
                ts = open('/opt/vp/test.sh').read().replace('/repo', d)
                open(d + '.test.sh', 'w').write(ts)
                subprocess.run(['bash', d + '.test.sh', d + '.json'], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
                base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                res = json.load(open(d + '.json'))
                ok = set(next(res[k] for k in ('stable', 'passed', 'pass') if k in res))
                msg = 'TESTS FAIL {} {}'.format(len(base - ok), sorted(base - ok)[:2]) if base - ok else 'tests ok'
            r = subprocess.run(['python3', ROOT + '/check.py', 'all'], stdout=subprocess.PIPE, text=True,
                               stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '.out'))
            al = re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)
            print('{:16} {:3} files rc={} {} alarms={}'.format(nm, n, r.returncode, msg, sorted(set(al))), flush=True)
            for l in r.stdout.splitlines():
                if 'undecided' in l and not re.search(r'\b0 undecided', l):
                    print('      ' + l[:150], flush=True)
            if al:
                print('\n'.join(l[:300] for l in r.stdout.splitlines() if l.startswith(('VIOL', '  ')))[:1500])
        finally:
            if '--keep' not in sys.argv:
                for x in (d, d + '.out'):
                    shutil.rmtree(x, ignore_errors=True)
            for x in (d + '.test.sh', d + '.json'):
                if os.path.exists(x):
                    os.remove(x)


if __name__ == '__main__':
    main()
