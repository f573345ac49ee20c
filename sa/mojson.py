"""C23: what mojson encodes is decoded to an equal object, by induction over the structure of the object.

encode is evaluated abstractly on every kind of object, with opaque parts; its recursive calls on parts give
opaque encodings. The resulting term is transported as JSON transports it (tuples become lists, the hook of the
decoder sees every dictionary from the inside out, the hook of the encoder every object JSON has no notation for)
and decoded abstractly. Opaque encodings decode to the part they encode (induction hypothesis)."""
from . import model as m
from .cases import (BASETYPES, Bound, Ext, Evaluator, Func, Inst, Klass, KINDNAME, MO, Native, PyRaise, Sym, Unsupported, reason)
from .loader import Program
from .report import Report

MOD = 'import_export.mojson'
RULE = 'R-roundtrip: decoding the encoding of an object gives an equal object of the same type'
KINDS = ['str', 'int', 'float', 'bool', 'NoneType', 'bytes', 'complex', 'frozenset', 'list', 'range', 'tuple', 'Atom',
         'Couplet', 'Set', 'Multiset']


def part(n):
    return Sym(('part', n), 'part')


def shapes():
    a, b = part('x'), part('y')
    oa, ob = Sym(('part', 'x'), 'mo'), Sym(('part', 'y'), 'mo')
    A = lambda v: ('a', v)
    O = lambda v: ('o', v)
    S = lambda *xs: ('s', frozenset(xs))
    M = lambda *ps: ('m', frozenset(ps))
    yield 'str', Sym(('s',), 'str')
    yield 'int', Sym(('i',), 'int')
    yield 'float', Sym(('f',), 'float')
    for c in (True, False, None, 0, 1, '', 'x', '__cls__', 1.5):
        yield 'constant %r' % (c,), c
    for c in (b'', b'a', b'\x00\xff\x80z'):
        yield 'bytes', c
    for c in (1 + 2j, -0.5j, complex(3)):
        yield 'complex', c
    for c in (range(0), range(3), range(2, 9), range(1, 8, 3), range(9, 2, -2)):
        yield 'range', c
    for t, name in ((tuple, 'tuple'), (list, 'list'), (frozenset, 'frozenset')):
        for xs in ((), (a,), (a, b), (a, b, part('z'))):
            yield name, t(xs)
        yield name + ' of constants', t((1, 'x', None))
    yield 'nested tuple', ((a,), (), (b, (a,)))
    yield 'nested list', [[a], [], [b, [a]]]
    yield 'tuple of lists', ([a], [b])
    yield 'list of tuples', [(a,), (b,)]
    yield 'frozenset of tuples', frozenset({(a,), (b, a)})
    yield 'Atom', MO(A(a))
    for c in ('x', 1, True, None, 2.5, b'ab', 1j, range(2), (1, 2), ((1,), ()), frozenset({1}), ()):
        yield 'Atom of a constant', MO(A(c))
    yield 'Couplet', MO(('c', O(oa), O(ob)))
    yield 'Couplet', MO(('c', O(oa), O(oa)))
    for xs in ((), (O(oa),), (O(oa), O(ob))):
        yield 'Set', MO(S(*xs))
    for xs in ((), ((O(oa), 1),), ((O(oa), 3),), ((O(oa), 2), (O(ob), 1))):
        yield 'Multiset', MO(M(*xs))
    for n in (3, 4, 9):
        yield 'Set', MO(S(*[A(k) for k in range(n)]))
        yield 'Set', MO(S(*[O(Sym(('part', k), 'mo')) for k in range(min(n, 4))]))
        yield 'Multiset', MO(M(*[(A(k), k + 1) for k in range(n)]))
        yield 'list', [part('p%d' % k) for k in range(n)]
        yield 'Multiset', MO(M((O(oa), n)))
        yield 'clan', MO(S(*[S(('c', A('l'), A(k)), ('c', A('m'), A('r'))) for k in range(n)]))
    deep = oa
    for k in range(9):
        deep = MO(S(('c', A(k), O(oa)))) if k == 0 else MO((('s', frozenset([deep.val, A(k)])), ('c', A(k), deep.val), ('m', frozenset([(deep.val, 2)])))[k % 3])
    yield 'deep nesting', deep
    yield 'relation', MO(S(('c', A('l'), O(oa)), ('c', A(1), A(None))))
    yield 'multiclan', MO(M((S(('c', A('l'), A('r'))), 2), (S(), 1)))
    yield 'list of objects', [MO(A(1)), MO(S()), oa]
    yield 'dictionary', {'k': a}
    yield 'dictionary', {'__cls__': a}
    yield 'dictionary', {'__cls__': 'Atom', '__val__': a, 'k': b}
    yield 'dictionary', {'__cls__': 'Atom', 'k': a}
    yield 'dictionary', {'__val__': a, 'k': b}
    yield 'dictionary', {'k': MO(A(1)), 'l': a}


class Transport:
    def __init__(self, ev, prog):
        self.e = ev
        self.mod = prog.module(MOD)
        g = lambda n: ev.static(prog.resolve_name(self.mod, n))
        self.encode, self.export, self.imp = g('encode'), g('ExportJson'), g('ImportJson')
        ev.model_super = self.base
        self.hook = None
        if isinstance(self.imp, Klass):
            o = Inst(self.imp)
            f, _ = self.imp.find('__init__')
            if f is not None:
                ev.call(Bound(f, o), [], {})
            if self.hook is None:
                f, _ = self.imp.find('object_hook')
                self.hook = Bound(f, o) if f is not None else None

    def base(self, sup, a, args, kw):
        if a == '__init__':
            self.hook = kw.get('object_hook')
            return None
        if a == 'default':
            raise PyRaise('TypeError')
        raise Unsupported('super().' + a)

    def default(self, v):
        o = Inst(self.export)
        f, _ = self.export.find('default')
        if f is None:
            raise PyRaise('TypeError')
        return self.e.call(Bound(f, o), [v], {})

    def send(self, v, depth=0):
        if depth > 60:
            raise Unsupported('encoding does not end')
        if isinstance(v, Sym):
            if v.term[0] == 'ENC':
                t = v.term[1]
                return Sym(t, 'mo' if v.kind == 'mo' else 'part')
            return v
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, (list, tuple)):
            return [self.send(x, depth + 1) for x in v]
        if isinstance(v, dict):
            d = {}
            for k, x in v.items():
                if isinstance(k, bool) or k is None or not isinstance(k, (str, int, float)):
                    raise PyRaise('TypeError')
                d[str(k)] = self.send(x, depth + 1)
            return self.e.call(self.hook, [d], {}) if self.hook is not None else d
        w = self.default(v)
        if w is v:
            raise PyRaise('ValueError', ('circular reference',))
        return self.send(w, depth + 1)


def spec_encode(ev, args, kw):
    v = args[0] if args else kw.get('obj')
    if isinstance(v, Sym) and v.kind in ('part', 'mo'):
        return Sym(('ENC', v.term), v.kind)
    f = ev.static(ev.prog.resolve_name(ev.prog.module(MOD), 'encode'))
    return ev.run(f, args, kw)


def chosen(ev, v):
    if v.kind == 'mo':
        return KINDS[11 + ev.dec.choose(('kind', v.term), 4)]
    return KINDS[ev.dec.choose(('kind', v.term), len(KINDS))]


def isinst(ev, v, t):
    n = t.name.split('.')[-1]
    if n in BASETYPES and n not in KINDS:
        return False
    k = chosen(ev, v)
    if isinstance(t, Klass):
        return n == k or n == 'MathObject' and k in KINDS[11:]
    if n == 'int' and k == 'bool' or n == k:
        return True
    if n in ('Iterable', 'Sequence', 'Mapping', 'Collection'):
        raise Unsupported('isinstance of ' + n)
    return False


def typ(ev, v):
    k = chosen(ev, v)
    if k in BASETYPES:
        return Ext('builtins.' + k)
    if k == 'NoneType':
        return Ext('builtins.NoneType')
    for ci in ev.prog.clss:
        if ci.name == k and ci.module.short.startswith('mathobjects'):
            return ev.klass(ci)
    raise Unsupported('type')


def undict(v):
    return v


def complex_(ev, args, kw):
    if len(args) == 1 and isinstance(args[0], Sym):
        raise Unsupported('complex')
    return ev.native(complex, *args)


def bytes_(ev, args, kw):
    if len(args) == 1 and not isinstance(args[0], (bytes, int, str)):
        return ev.native(bytes, list(ev.iterate(args[0])))
    if any(isinstance(a, Sym) for a in args):
        raise Unsupported('bytes')
    return ev.native(bytes, *args)


def strong(a, b):
    """Equal and of the same type, deeply."""
    if isinstance(a, MO) or isinstance(b, MO):
        return isinstance(a, MO) and isinstance(b, MO) and norm(a.val) == norm(b.val)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strong, a, b))
    if isinstance(a, (set, frozenset)):
        return {norm_py(x) for x in a} == {norm_py(x) for x in b}
    if isinstance(a, dict):
        return set(a) == set(b) and all(strong(a[k], b[k]) for k in a)
    return a == b


def norm_py(v):
    if isinstance(v, MO):
        return ('mo', norm(v.val))
    if isinstance(v, Sym):
        return ('sym', v.term)
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(map(norm_py, v))
    if isinstance(v, (set, frozenset)):
        return ('set', frozenset(map(norm_py, v)))
    return (type(v).__name__, v)


def norm(v):
    if v[0] == 'a':
        if isinstance(v[1], Sym) and v[1].kind == 'mo':
            return ('o', v[1].term)
        return ('a', norm_py(v[1]))
    if v[0] == 'o':
        return ('o', v[1].term)
    if v[0] == 'c':
        return ('c', norm(v[1]), norm(v[2]))
    if v[0] == 's':
        return ('s', frozenset(map(norm, v[1])))
    if v[0] == 'm':
        d = v[1].items() if isinstance(v[1], dict) else v[1]
        return ('m', frozenset((norm(e), n) for e, n in d))
    return v


def run(tier):
    rep = Report()
    rep.rules = {'R-roundtrip': RULE}
    prog = Program(raw=True)
    mod = prog.module(MOD)
    for n in ('encode', 'decode', 'ExportJson', 'ImportJson'):
        if not mod.bindings.get(n):
            from .loader import AnalysisBroken
            raise AnalysisBroken('{}.{} is missing'.format(MOD, n))
    specs = {MOD + '.encode': spec_encode, ('isinst', 'part'): isinst, ('isinst', 'mo'): isinst, ('type', 'part'): typ,
             ('type', 'mo'): typ}
    models = {'builtins.complex': complex_, 'builtins.bytes': bytes_}
    ev = Evaluator(prog, models, specs, limit=600)
    where = '{}:{}'.format(mod.rel, 1)
    seen = {}
    for kind, v in shapes():
        for rev, direct in ((False, False), (True, False), (False, True)):
            if direct and not isinstance(v, (MO, bytes, complex, frozenset, range, dict)) and kind != 'list of objects':
                continue
            ev.reverse = rev
            why = None
            runs = 0

            def scenario(e):
                t = Transport(e, prog)
                try:
                    return t.send(v if direct else e.call(t.encode, [v], {}))
                except PyRaise as x:
                    return x
            try:
                for got in ev.explore(scenario):
                    runs += 1
                    if isinstance(got, PyRaise) or not strong(got, v):
                        what = 'raises ' + got.typ if isinstance(got, PyRaise) else 'gives %r' % (got,)
                        rep.find(RULE, MOD, where, 'the round trip of an object of kind {} {}'.format(kind, what)[:160],
                                 'object %r' % (v,), key='roundtrip|' + kind)
            except Exception as x:
                why = reason(x)
            except RecursionError:
                why = 'recursion'
            rep.ob('{} of {}'.format(MOD, kind), why is None, why)
            rep.count('evaluations', runs)
        seen[kind] = seen.get(kind, 0) + 1
    # an explicit hook takes precedence
    ev.reverse = False

    def own(e):
        t = Transport(e, prog)
        o = Inst(t.imp)
        f, _ = t.imp.find('__init__')
        if f is None:
            return True
        h = Sym(('hook',), 'function')
        e.call(Bound(f, o), [], {'object_hook': h})
        return t.hook == h
    try:
        for ok in ev.explore(own):
            if not ok:
                rep.find('R-hook: a hook given to the decoder is used', MOD, where, 'ImportJson ignores its object_hook')
        rep.ob(MOD + ' hook', True)
    except (Unsupported, PyRaise) as x:
        rep.ob(MOD + ' hook', False, str(x))
    rep.samples.append('kinds: ' + ', '.join('%s (%d)' % kv for kv in seen.items()))
    return rep
