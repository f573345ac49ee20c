"""Behaviour-preserving normalisation of accumulation idioms before interpretation.

    d[k] = d[k] + v        d[k] = d.get(k, 0) + v        ->  d[k] += v
    d[k] = max(d[k], v)    d[k] = max(d.get(k, 0), v)    ->  d[k] max= v     (likewise min)
    if k in d: d[k] += v                                 ->  d[k] += v
    else: d[k] = v
    if k not in d: d[k] = 0                              ->  d[k] += 0
"""
import ast


def same(a, b):
    return ast.dump(a).replace('Store()', 'Load()') == ast.dump(b).replace('Store()', 'Load()')


def reads(e, tgt):
    """e reads the item of the subscript tgt (zero when there is none)."""
    if isinstance(e, ast.Subscript):
        return same(e, tgt)
    return (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get'
            and not e.keywords and len(e.args) == 2 and isinstance(e.args[1], ast.Constant)
            and e.args[1].value == 0 and same(e.func.value, tgt.value) and same(e.args[0], tgt.slice))


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(e))


def zero(s, missing):
    s.sa_zero = missing     # a missing entry counts as zero
    return s


class Desugar(ast.NodeTransformer):
    def visit_Assign(self, s):
        self.generic_visit(s)
        if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Subscript) or \
                isinstance(s.targets[0].slice, ast.Slice) or not pure(s.targets[0]):
            return s
        t, v = s.targets[0], s.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            for a, b in ((v.left, v.right), (v.right, v.left)):
                if reads(a, t):
                    return zero(ast.copy_location(ast.AugAssign(t, ast.Add(), b), s), isinstance(a, ast.Call))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('max', 'min') and \
                len(v.args) == 2 and not v.keywords:
            for a, b in (v.args, v.args[::-1]):
                if reads(a, t):
                    r = ast.copy_location(ast.AugAssign(t, ast.BitOr(), b), s)
                    r.sa_mode = v.func.id
                    return r
        return s

    def visit_If(self, s):
        self.generic_visit(s)
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn))):
            return s
        key, coll = t.left, t.comparators[0]
        if not pure(key) or not pure(coll):
            return s
        there, absent = (s.body, s.orelse) if isinstance(t.ops[0], ast.In) else (s.orelse, s.body)

        def item(x):
            return isinstance(x, ast.Subscript) and same(x.value, coll) and same(x.slice, key)
        if len(absent) == 1 and isinstance(absent[0], ast.Assign) and len(absent[0].targets) == 1 and \
                item(absent[0].targets[0]):
            v = absent[0].value
            if len(there) == 1 and isinstance(there[0], ast.AugAssign) and item(there[0].target) and \
                    isinstance(there[0].op, ast.Add) and same(there[0].value, v):
                return zero(there[0], True)
            if not there and isinstance(v, ast.Constant) and v.value == 0 and type(v.value) is int:
                return zero(ast.copy_location(ast.AugAssign(absent[0].targets[0], ast.Add(), v), s), True)
        return s


def desugar(tree):
    return ast.fix_missing_locations(Desugar().visit(tree))
