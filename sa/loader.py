"""Parses the library under /repo and resolves names, imports, classes and functions."""
import ast
import builtins
import hashlib
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'algebraixlib'


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is gone: the run is an error, not a verdict."""


from . import prelude
from .desugar import desugar


class FnInfo:
    def __init__(self, fid, node, module, cls=None, name=None, frame=None, snapshot=None):
        self.fid = fid
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.frame = frame
        self.snapshot = snapshot
        self.is_static = False
        self.is_class = False
        self.is_property = False
        self.setter = None          # FnInfo of the property's setter
        self.is_generator = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.qual = '.'.join(x for x in (module.short, cls.name if cls else None, self.name) if x)

    @property
    def where(self):
        return '{}:{} in {}'.format(self.module.rel, getattr(self.node, 'lineno', 0), self.qual)


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClsInfo:
    def __init__(self, cid, node, module):
        self.cid = cid
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.short + '.' + node.name if module.short else node.name
        self.members = {}        # name -> list of nodes
        self.methods = {}        # name -> FnInfo
        self.base_nodes = node.bases


class Module:
    def __init__(self, name, path, tree, source):
        self.name = name
        self.short = name[len(PKG) + 1:] if name != PKG else ''
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = tree
        self.source = source
        self.bindings = {}       # name -> list of AST nodes binding it at top level
        self.is_pkg = os.path.basename(path) == '__init__.py'


class Program:
    def __init__(self, repo=None, raw=False):
        self.repo = repo or REPO
        norm = (lambda t: t) if raw else desugar
        self.modules = {}
        self.fns = []
        self.clss = []
        self.parse_errors = []
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory missing: ' + root)
        digest = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                digest.update(rel.encode() + b'\0' + src.encode() + b'\0')
                try:
                    tree = norm(ast.parse(src, path))
                except SyntaxError as e:
                    self.parse_errors.append('{}: {}'.format(rel, e))
                    continue
                name = '.'.join(parts)
                m = Module(name, path, tree, src)
                m.rel = rel
                self.modules[name] = m
        self.digest = digest.hexdigest()
        if self.parse_errors:
            raise AnalysisBroken('cannot parse: ' + '; '.join(self.parse_errors))
        for m in self.modules.values():
            self._bind(m)
        pre = Module('prelude', '(prelude)', desugar(ast.parse(prelude.SOURCE)), prelude.SOURCE)
        pre.rel = '(prelude)'
        self._bind(pre)
        self.prelude = {k: v[0] for k, v in pre.bindings.items()}

    # -- binding -------------------------------------------------------------------------------
    def _bind(self, m):
        def walk(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = self.new_fn(s, m)
                    m.bindings.setdefault(s.name, []).append(fi)
                elif isinstance(s, ast.ClassDef):
                    m.bindings.setdefault(s.name, []).append(self.new_cls(s, m))
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for b, target in self.import_targets(s, m):
                        m.bindings.setdefault(b, []).append(('import', target))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        self._bind_target(m, t, s.value)
                elif isinstance(s, ast.AnnAssign) and s.value is not None:
                    self._bind_target(m, s.target, s.value)
                elif isinstance(s, ast.AugAssign):
                    if isinstance(s.target, ast.Name):
                        m.bindings.setdefault(s.target.id, []).append(('unknown', s))
                elif isinstance(s, ast.If):
                    walk(s.body)
                    walk(s.orelse)
                elif isinstance(s, ast.Try):
                    walk(s.body)
                    for h in s.handlers:
                        walk(h.body)
                    walk(s.orelse)
                    walk(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.bindings.setdefault(n.id, []).append(('unknown', s))
        walk(m.tree.body)

    def _bind_target(self, m, t, value):
        if isinstance(t, ast.Name):
            m.bindings.setdefault(t.id, []).append(('expr', value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self._bind_target(m, a, b)
            else:
                for a in ast.walk(t):
                    if isinstance(a, ast.Name):
                        m.bindings.setdefault(a.id, []).append(('unknown', value))

    def import_targets(self, s, m):
        """[(bound name, dotted target)] for an import statement in module m."""
        out = []
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out.append((a.asname, a.name))
                else:
                    out.append((a.name.split('.')[0], a.name.split('.')[0]))
        else:
            base = s.module or ''
            if s.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([s.module] if s.module else []))
            for a in s.names:
                out.append((a.asname or a.name, base + '.' + a.name))
        return out

    def new_fn(self, node, module, cls=None, frame=None, snapshot=None):
        fi = FnInfo(len(self.fns), node, module, cls, frame=frame, snapshot=snapshot)
        self.fns.append(fi)
        return fi

    def new_cls(self, node, module):
        ci = ClsInfo(len(self.clss), node, module)
        self.clss.append(ci)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self.new_fn(s, module, ci)
                kind = None
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'staticmethod':
                        fi.is_static = True
                    elif dn == 'classmethod':
                        fi.is_class = True
                    elif dn == 'property' or dn.endswith('abstractproperty') \
                            or dn.endswith('cached_property'):
                        fi.is_property = True
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                    elif dn.endswith('.deleter') or dn.endswith('.getter'):
                        kind = 'other'
                if kind == 'setter':
                    base = ci.methods.get(s.name)
                    if base is not None:
                        base.setter = fi
                elif kind is None:
                    ci.methods[s.name] = fi
                    ci.members[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # aliases of methods (x = y) and plain class constants
                        if isinstance(s.value, ast.Name) and s.value.id in ci.methods:
                            ci.methods[t.id] = ci.methods[s.value.id]
                            ci.members[t.id] = ci.methods[s.value.id]
                        else:
                            # name = property(getter, setter)
                            v = s.value
                            if isinstance(v, ast.Call) and ast.unparse(v.func) == 'property' \
                                    and v.args and isinstance(v.args[0], ast.Name) \
                                    and v.args[0].id in ci.methods:
                                g = ci.methods[v.args[0].id]
                                fi = FnInfo(len(self.fns), g.node, module, ci, name=t.id)
                                self.fns.append(fi)
                                fi.is_property = True
                                if len(v.args) > 1 and isinstance(v.args[1], ast.Name):
                                    fi.setter = ci.methods.get(v.args[1].id)
                                ci.methods[t.id] = fi
                                ci.members[t.id] = fi
                            else:
                                ci.methods.pop(t.id, None)
                                ci.members[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                ci.members[s.target.id] = ('expr', s.value)
        return ci

    # -- lookups -------------------------------------------------------------------------------
    def module(self, short):
        name = PKG + ('.' + short if short else '')
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module missing: ' + name)
        return m

    def resolve_dotted(self, dotted, depth=0):
        """Resolve an imported dotted name: ('mod', Module) | FnInfo | ClsInfo | ('ext', dotted)
        | ('expr', node, Module)."""
        if depth > 8:
            return ('ext', dotted)
        if dotted in self.modules:
            return ('mod', self.modules[dotted])
        if '.' in dotted:
            base, attr = dotted.rsplit('.', 1)
            if base in self.modules:
                return self.resolve_name(self.modules[base], attr, depth + 1)
        return ('ext', dotted)

    def resolve_name(self, m, name, depth=0):
        bs = m.bindings.get(name)
        if not bs:
            sub = m.name + '.' + name
            if sub in self.modules:
                return ('mod', self.modules[sub])
            if hasattr(builtins, name):
                return ('ext', 'builtins.' + name)
            return None
        b = bs[-1]
        if isinstance(b, (FnInfo, ClsInfo)):
            return b
        if b[0] == 'import':
            return self.resolve_dotted(b[1], depth + 1)
        if b[0] == 'expr':
            return ('expr', b[1], m)
        return ('unknown', name)

    def cls_bases(self, ci):
        out = []
        for b in ci.base_nodes:
            r = self.resolve_expr_static(b, ci.module)
            if r is not None:
                out.append(r)
        return out

    def resolve_expr_static(self, node, m):
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr_static(node.value, m)
            if isinstance(base, tuple) and base[0] == 'mod':
                return self.resolve_name(base[1], node.attr)
            if isinstance(base, tuple) and base[0] == 'ext':
                return ('ext', base[1] + '.' + node.attr)
        return None

    def mro(self, ci):
        out = [ci]
        for b in self.cls_bases(ci):
            if isinstance(b, ClsInfo):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            else:
                out.append(b)
        return out

    def cls_lookup(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClsInfo) and name in c.members:
                return c, c.members[name]
        return None, None

    def is_subclass(self, ci, other):
        return any(c is other for c in self.mro(ci))

    def fn(self, short, name):
        r = self.resolve_name(self.module(short), name)
        return r if isinstance(r, FnInfo) else None

    def cls(self, short, name):
        r = self.resolve_name(self.module(short), name)
        return r if isinstance(r, ClsInfo) else None
