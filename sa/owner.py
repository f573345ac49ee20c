"""C07: objects and containers of the caller are never modified (decided with the effect analysis)."""
import ast

from . import spec as specmod
from .effects import Effects
from .engine import find_fn
from .loader import ClsInfo, FnInfo, Program
from .report import Report

MULTI = ('M', 'MC', 'M.')
CONTAINER_USES = {'items', 'keys', 'values', 'elements', 'most_common', 'get'}


def value_attrs(prog, an):
    """{class: (attributes that make up the value of its objects, those that are containers)}.

    Value attributes are the instance attributes read by a property, an equality or a hash and assigned by
    the constructor; containers among them are iterated, indexed, measured or searched somewhere."""
    out = {}
    roots = [c for c in (prog.cls('mathobjects.mathobject', 'MathObject'), prog.cls('structure', 'Structure')) if c]
    for ci in prog.clss:
        if not any(prog.is_subclass(ci, r) for r in roots):
            continue
        assigned, read, cont = set(), set(), set()
        props = {}
        for fi in set(ci.methods.values()):
            me = fi.node.args.args[0].arg if getattr(fi.node, 'args', None) and fi.node.args.args else None
            if fi.name == '__init__':
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        assigned.add(n.attr)
            if fi.is_property or fi.name in ('__eq__', '__lt__'):
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        read.add(n.attr)
                        if fi.is_property:
                            props.setdefault(fi.name, set()).add(n.attr)
        hashed = set()
        h = ci.methods.get('__hash__')
        if h is not None:                        # caches are written by the methods that read them
            for n in ast.walk(h.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    hashed.add(n.attr)
        vals = (assigned & read) - hashed
        for fi in set(ci.methods.values()):
            for n in ast.walk(fi.node):
                cand = []
                if isinstance(n, (ast.For, ast.comprehension)):
                    cand.append(n.iter)
                elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                    cand += n.comparators
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'iter', 'sorted'):
                    cand += n.args
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CONTAINER_USES:
                    cand.append(n.func.value)
                elif isinstance(n, ast.Subscript):
                    cand.append(n.value)
                for c in cand:
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in CONTAINER_USES:
                        c = c.func.value
                    if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name):
                        for a in props.get(c.attr, ()) if c.attr in props else (c.attr,):
                            if a in vals:
                                cont.add(a)
        out[ci.cid] = (vals, cont)
    return out


def api(f):
    """Callable by a user: no leading underscore in the function or class (operators count)."""
    n = f.info.name
    if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
        return False
    return not (f.cls is not None and f.cls.name.startswith('_'))


def run(tier):
    prog = Program()
    an = Effects(prog).run()
    rep = Report()
    rep.rules.update({
        'modified': 'no effect of a public function reaches an element container, component or a container passed in',
        'kept': 'no constructor stores a container it was given, or a shared status record, in a new object',
        'replaced': 'the attributes that make up the value of an object are assigned by its constructor only',
        'default': 'no default argument is modified'})
    vals = value_attrs(prog, an)
    allvals = set().union(*(v for v, _ in vals.values())) if vals else set()
    multi = prog.cls('mathobjects.multiset', 'Multiset')
    moroots = an.mo_classes
    sorts = {}
    for t in specmod.TABLE:
        fi = find_fn(prog, t.name.partition('#')[0])
        if fi is None:
            continue
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args if x.arg != '_checked'] + ([a.vararg.arg] if a.vararg else [])
        for p, so in zip(names, t.sorts):
            sorts.setdefault(id(fi.node), {}).setdefault(p, set()).add(so.rstrip('*'))
    # constructors: methods that only constructors call
    ctor_only = {}
    for ci in prog.clss:
        if ci.cid in vals:
            calls = {}
            for fi in set(ci.methods.values()):
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        calls.setdefault(n.func.attr, set()).add(fi.name)
            for name, by in calls.items():
                if name in ci.methods and name.startswith('_') and by <= {'__init__', '__new__'}:
                    ctor_only[(ci.cid, name)] = True

    def is_ctor(f):
        return f.cls is not None and (f.info.name in ('__init__', '__new__', '__setstate__') or
                                      (f.cls.cid, f.info.name) in ctor_only)

    def multiset_param(f, p):
        if f.cls is not None and f.params and p == f.params[0] and not f.info.is_static and multi is not None and \
                prog.is_subclass(f.cls, multi):
            return True
        so = sorts.get(id(f.node), {}).get(p)
        return bool(so) and all(x in MULTI for x in so)

    def report(rule, where, text, via):
        loc, qual = where
        rep.find(rule, qual, loc, text, 'reached from ' + via if via != qual else '', key='{}|{}|{}'.format(rule, qual, text))

    npub = 0
    for f in an.fns:
        rep.ob(f.qual, f.qual not in an.broken, an.broken.get(f.qual))
        public = api(f)
        npub += public
        me = f.params[0] if f.is_method and f.params else None
        mine = vals.get(f.cls.cid) if f.cls is not None else None
        for (kind, t, detail), where in sorted(f.sum.effects.items(), key=str):
            if kind == 'keep':
                attr, src = detail
                if t[0] != 'P':
                    continue
                if mine is not None and t[1] == me:
                    shared = attr in mine[1]
                    if attr == '_flags' or (src[0] == 'G' and (attr in mine[1])):
                        report('kept', where, 'the status record of a new object is shared with other objects' if attr == '_flags'
                               else 'the new object shares its {} with all others'.format(attr), f.qual)
                    elif shared and src[0] in ('P', 'I') and src[1] != me:
                        report('kept', where, 'a new object keeps the container passed as {} instead of a copy'.format(src[1]),
                               f.qual)
                elif attr in ('_flags',) and src[0] in ('P', 'I', 'G'):
                    report('kept', where, 'two objects share one status record', f.qual)
                continue
            if t[0] == 'G':
                if kind == 'mut' and '(' in t[1]:
                    report('default', where, 'modifies the default argument {}: {}'.format(t[1], detail), f.qual)
                continue
            p = t[1]
            if kind in ('set', 'augset'):
                if detail in allvals and not (is_ctor(f) and p == me and t[0] == 'P') and public and \
                        (f.cls is None or mine is not None or p != me):
                    report('replaced', where, 'assigns the {} of an existing object'.format(detail), f.qual)
                continue
            if not public:
                continue
            if p == me and (mine is None or is_ctor(f)):
                continue
            if kind == 'mut':
                if t[0] == 'I' and t[2][0].startswith('_') and t[2][0] not in allvals:
                    continue                                # caches
                report('modified', where, ('modifies the container passed in: {}' if t[0] == 'P' else
                                           'modifies data of an existing object: {}').format(detail), f.qual)
            elif kind == 'aug' and t[0] == 'I' and t[2][-1] in allvals and \
                    (len(t[2]) == 1 or t[2] == ('[]', t[2][-1])) and multiset_param(f, p):
                report('modified', where, 'modifies the multiplicities of a multiset in place', f.qual)
    rep.count('functions', len(an.fns))
    rep.count('public functions', npub)
    rep.count('call sites', an.calls)
    rep.count('stores and mutating calls', an.stores)
    rep.count('fixpoint rounds', an.rounds)
    rep.samples.append('value attributes: ' + '; '.join('{}: {}'.format(c.name, ', '.join(sorted(vals[c.cid][0])))
                                                         for c in prog.clss if c.cid in vals and vals[c.cid][0]))
    rep.samples.append('containers: ' + '; '.join('{}: {}'.format(c.name, ', '.join(sorted(vals[c.cid][1])))
                                                   for c in prog.clss if c.cid in vals and vals[c.cid][1]))
    return rep
