"""C27: the LaTeX and the readable text of an object show all of it, and do not depend on the iteration order.

The printers are evaluated abstractly on every kind of object with opaque parts; the text of a part is opaque
(induction hypothesis). The text is read as a sequence of constant and opaque pieces."""
import itertools
import re

from .cases import Ext, Evaluator, Func, MO, PyRaise, Sym, UNDEF, Unsupported, is_text, reason, parts_of, show, show_mo
from .exports import opq, val
from .imports import A, C, M, S
from .loader import AnalysisBroken, Program
from .report import Report

MOD = 'util.latexprinter'
R_ALL = 'R-complete: the text contains the text of every part once, in order, with its multiplicity'
R_ORDER = 'R-order: the text does not depend on the order of iteration'
R_SHORT = 'R-short: the short text shows the first elements in order, and an ellipsis with the count exactly if some are missing'
R_FORM = 'R-form: braces and delimiters are balanced, and sets, multisets and couplets are told apart'
R_READ = 'R-readable: the readable text of an object contains its parts in order'


def o(n):
    return ('o', Sym(('part', n), 'mo'))


def shapes():
    x, y, z = o('x'), o('y'), o('z')
    a, b, c = A(1), A(2), A(3)
    yield A(1)
    yield A('text')
    yield A(opq('v'))
    for l, r in itertools.product((x, a, S(a), C(a, b)), (y, b, S(), C(b, c), M([a]))):
        yield C(l, r)
    for xs in ((), (a,), (a, b), (a, b, c), (C(a, b),), (C(a, b), C(b, c)), (C(a, b), a), (S(),), (S(a), S(b)), (S(a), b, C(a, c)), (M([a]),), (a, M([a, a])),
               (a, S(C(a, b)))):
        yield S(*xs)
    for xs in ((), (a,), (a, a, a), (a, b), (a, a, b), (C(a, b), C(a, b)), (C(a, b), a), (S(),), (S(a), S(a), S(b)), (S(a), b, C(a, c)), (M([a]), a),
               (S(C(a, b)), S(C(a, b)), S(C(b, c)))):
        yield M(xs)
    for n in range(4, 9):
        yield S(*[A('e%d' % i) for i in range(n)])
        yield S(*[S(A('e%d' % i)) for i in range(n)])
        yield S(*([C('e%d' % i, 0) for i in range(n - 1)] + [A('e')]))
        yield S(*([A('e%d' % i) for i in range(n - 1)] + [C('e', 0)]))
        yield M([A('e%d' % i) for i in range(n)])
        yield M([A('e%d' % (i // 2)) for i in range(n)])
        yield M([A('e')] * n)
        yield M([S(A('e%d' % i)) for i in range(n)])


KIND = {'a': 'atom', 'c': 'couplet', 's': 'set', 'm': 'multiset'}
FN = {'a': 'atom_to_latex', 'c': 'couplet_to_latex', 's': 'set_to_latex', 'm': 'mset_to_latex'}


class Named(Evaluator):
    """The texts of objects are numbered."""

    def number(self, v):
        return self.numbers.setdefault(v, len(self.numbers))

    numbers = {}

    def str(self, v):
        return '\u27e6s%d\u27e7' % self.number(v.val) if isinstance(v, MO) else super().str(v)

    def repr(self, v):
        return '\u27e6r%d\u27e7' % self.number(v.val) if isinstance(v, MO) else super().repr(v)


def opaque(v):
    return v[0] == 'o' or isinstance(v[1], Sym) or v[0] == 'c' and (opaque(v[1]) or opaque(v[2]))


class Check:
    def __init__(self):
        self.rep = Report()
        self.prog = Program(raw=True)
        self.top = None
        self.nested = {}
        specs = {}
        specs[MOD + '.math_object_to_latex'] = self.part
        for f in FN.values():
            specs[MOD + '.' + f] = self.direct
        self.ev = Evaluator(self.prog, {}, specs, limit=300)

    def part(self, ev, args, kw):
        """The text of a part: opaque, except for the object that is looked at."""
        names = ('mobj', 'short', '_depth')
        vals = dict(zip(names, args))
        vals.update(kw)
        x = vals['mobj']
        f = ev.static(self.prog.resolve_name(self.prog.module(MOD), 'math_object_to_latex'))
        if self.top is not None and isinstance(x, MO) and x.val == self.top:
            self.top = None
            return ev.run(f, args, kw)
        if x is UNDEF:
            return ev.run(f, args, kw)
        self.shorts.append(ev.truth(vals.get('short', False)))
        return Sym(('latex', x.val if isinstance(x, MO) else ('o', x)), 'str')

    def direct(self, ev, args, kw):
        """One printer called from another: the object that is looked at, or a part."""
        q = None
        x = args[0] if args else next(iter(kw.values()))
        f = ev.static(self.prog.resolve_name(self.prog.module(MOD), FN[x.val[0]]))
        if x.val == self.now:
            return ev.run(f, args, kw)
        return Sym(('latex', x.val), 'str')

    def text(self, v, short, color):
        ev = self.ev
        self.top, self.now, self.shorts, self.color = v, v, [], color
        ev.globals.clear()
        mod = self.prog.module(MOD)
        cfg = ev.static(self.prog.resolve_name(mod, 'Config'))
        if color is not None:
            ev.setattr(cfg, 'colorize_output', color)
        f = ev.static(self.prog.resolve_name(mod, 'math_object_to_latex'))
        n = (ev.getattr(cfg, 'short_set_len'), ev.getattr(cfg, 'short_atom_len'))
        return ev.call(f, [MO(v)], {'short': True} if short else {}), n

    def run(self, tier):
        rep = self.rep
        rep.rules = {r.split(':')[0]: r.split(': ', 1)[1] for r in (R_ALL, R_ORDER, R_SHORT, R_FORM, R_READ)}
        mod = self.prog.module(MOD)
        lines = {n.name: n.lineno for n in mod.tree.body if hasattr(n, 'name')}
        if 'math_object_to_latex' not in lines:
            raise AnalysisBroken(MOD + '.math_object_to_latex is missing')
        ev = self.ev
        n = 0
        for v in shapes():
            n += 1
            for short in (False, True):
                for color in (True, False) if v[0] == 'c' else (None,):
                    fn = FN[v[0]]
                    construct = '{}.{}'.format(MOD, fn)
                    where = '{}:{}'.format(mod.rel, lines.get(fn, 1))
                    texts, why = {False: set(), True: set()}, None

                    def bad(rule, what):
                        rep.find(rule, construct, where, what, '{} of {}'.format('short text' if short else 'text', show_mo(v))[:300],
                                 key='{}|{}|{}'.format(construct, rule.split(':')[0], what))
                    for rev in (False, True):
                        ev.reverse = rev

                        def go(e):
                            try:
                                return self.text(v, short, color)
                            except PyRaise as x:
                                return x, None
                        try:
                            for got, conf in ev.explore(go):
                                rep.count('evaluations')
                                if isinstance(got, PyRaise):
                                    bad(R_ALL, 'raises ' + got.typ)
                                elif not is_text(got):
                                    bad(R_ALL, 'gives no text')
                                else:
                                    texts[rev].add(got)
                                    self.judge(v, short, got, conf, bad)
                        except Exception as x:
                            why = reason(x)
                        except RecursionError:
                            why = 'recursion'
                    ev.reverse = False
                    if texts[True] != texts[False] and why is None:
                        bad(R_ORDER, 'the text depends on the order of iteration')
                    rep.ob('{} {}{}{}'.format(construct, show_mo(v), ' short' if short else '', '' if color is not False else ' without color'), why is None, why)
        construct = '{}.{}'.format(MOD, FN['c'])
        for (short, color), sides in self.nested.items():
            if len(sides) == 2 and not any(all(x) for x in sides.values()):
                rep.find(R_FORM, construct, '{}:{}'.format(mod.rel, lines.get(FN['c'], 1)), 'couplets within couplets are not grouped: '
                         '(a -> b) -> c reads like a -> (b -> c)', 'short text' if short else 'text', key='{}|{}|grouping'.format(construct, 'R-form'))
        rep.ob('{} grouping of nested couplets'.format(construct))
        self.others()
        self.readable(tier)
        rep.samples.append('{} objects, full and short, two iteration orders'.format(n))
        return rep

    def judge(self, v, short, got, conf, bad):
        ps = parts_of(got)
        have = [p.term for p in ps if isinstance(p, Sym)]
        consts = ''.join(p if isinstance(p, str) else '\x00' for p in ps)
        if short and self.shorts and not all(self.shorts):
            bad(R_SHORT, 'the parts of a short text are not short')
        if not short and any(self.shorts):
            bad(R_ALL, 'the parts of a text are abbreviated')
        # balance
        depth = 0
        for tok in re.findall(r'\\left|\\right(?![a-z])|\\.|[{}]', consts):
            if tok == '{':
                depth += 1
            elif tok == '}':
                depth -= 1
                if depth < 0:
                    break
        if depth or len(re.findall(r'\\left(?![a-z])', consts)) != len(re.findall(r'\\right(?![a-z])', consts)) or \
                consts.count('\\begin') != consts.count('\\end'):
            bad(R_FORM, 'the braces or delimiters are not balanced')
        k = v[0]
        if k == 'a':
            s = Sym(('str', v), 'str')
            want = [s.term]
            if short:
                cut = [('slice', s.term, None, conf[1], None)]
                ok = have == want and '...' not in consts or have == cut and '...' in consts
                if not ok:
                    bad(R_SHORT, 'the short text of an atom is wrong')
            elif have != want:
                bad(R_ALL, 'the text of an atom is not the text of its value')
            return
        if k == 'c':
            want = [('latex', val_(v[1])), ('latex', val_(v[2]))]
            if have != want:
                bad(R_ALL, 'the text of a couplet is not that of its left and right components')
            else:
                gaps = [re.sub(r'\\(left|right)(?![a-z])|\\color|[{}\s]', '', g) for g in consts.split('\x00')]
                for side, e, open_, close in (('left', v[1], gaps[0], gaps[1]), ('right', v[2], gaps[1], gaps[2])):
                    if e[0] == 'c':
                        self.nested.setdefault((short, self.color), {}).setdefault(side, []).append('(' in open_ and ')' in close)
                mid = consts.split('\x00')[1] if len(consts.split('\x00')) > 2 else ''
                if mid == '' or not re.search(r'[A-Za-z>,]', mid):
                    bad(R_FORM, 'the components of a couplet run into each other')
            return
        head, tail = consts[:consts.find('\x00')] if '\x00' in consts else consts, consts[consts.rfind('\x00') + 1:]
        braces = (r'\{' in head and r'\}' in tail, '[' in head and ']' in tail)
        if braces != ((True, False) if k == 's' else (False, True)):
            bad(R_FORM, 'a {} is not delimited as one'.format(KIND[k]))
        elems = sorted(v[1], key=show_mo) if k == 's' else sorted(v[1], key=lambda p: show_mo(p[0]))
        limit = conf[0]
        shown = elems
        if short and len(elems) > limit + 1:
            shown = elems[:limit]
        want = [('latex', val_(e if k == 's' else e[0])) for e in shown]
        if have != want:
            if sorted(map(repr, have)) == sorted(map(repr, want)):
                bad(R_ORDER, 'the elements are not sorted')
            elif short and len(elems) > limit:
                bad(R_SHORT, 'the short text does not show the first elements')
            else:
                bad(R_ALL, 'the text does not show the elements')
            return
        gaps = consts.split('\x00')[1:]
        missing = len(elems) - len(shown)
        ell = '...' in consts
        if ell != (missing > 0):
            bad(R_SHORT, 'an ellipsis without anything missing' if ell else 'no ellipsis for missing elements')
        elif missing and not re.search(r'\.\.\..*\(\s*%d\s*\)' % missing, consts, re.S):
            bad(R_SHORT, 'the ellipsis does not tell the number of missing elements')
        for i, g in enumerate(gaps):
            if k == 'm':
                m_ = re.match(r'^[^0-9,]*?(\d+)', g)
                if not m_ or int(m_.group(1)) != shown[i][1]:
                    bad(R_ALL, 'an element has the wrong multiplicity')
            if i + 1 < len(gaps) and ',' not in g:
                bad(R_FORM, 'the elements run into each other')
        # couplets among other elements are parenthesized
        if k == 's':
            kinds = {e[0] == 'c' for e in shown}
            if len(kinds) == 2 and not any(e[0] in 'sm' for e in elems):
                for i, e in enumerate(shown):
                    before = consts.split('\x00')[i]
                    if (before.rstrip().endswith('(')) != (e[0] == 'c'):
                        bad(R_FORM, 'couplets among other elements are not in parentheses')

    def others(self):
        ev, rep = self.ev, self.rep
        mod = self.prog.module(MOD)
        construct = MOD + '.math_object_to_latex'
        where = '{}:1'.format(mod.rel)
        why = None

        def go(e):
            f = e.static(self.prog.resolve_name(mod, 'math_object_to_latex'))
            self.top = self.now = None
            self.shorts = []
            return e.run(f, [UNDEF], {})
        try:
            for got in ev.explore(go):
                if not isinstance(got, str) or 'undef' not in got:
                    rep.find(R_ALL, construct, where, 'the text of Undef() does not say so', repr(got))
        except (Unsupported, PyRaise) as x:
            why = str(x)
        rep.ob(construct + ' Undef()', why is None, why)

    # -- mo_to_str -------------------------------------------------------------------------------------------------------
    def readable(self, tier):
        mod = self.prog.module('util.mathobjectprinter')
        r = self.prog.resolve_name(mod, 'mo_to_str')
        construct = 'util.mathobjectprinter.mo_to_str'
        if r is None:
            raise AnalysisBroken(construct + ' is missing')
        rep = self.rep
        ev = self.ev = Named(self.prog, {}, {}, limit=300)
        where = '{}:{}'.format(mod.rel, ev.static(r).node.lineno)
        for v in shapes():
            if opaque(v):
                continue
            for abb in (False, True):
                why = None
                for rev in (False, True):
                    ev.reverse = rev

                    def go(e):
                        f = e.static(self.prog.resolve_name(mod, 'mo_to_str'))
                        try:
                            return e.call(f, [MO(v)], dict(abbreviated=abb, max_line_len=10 ** 6))
                        except PyRaise as x:
                            return x
                    try:
                        for got in ev.explore(go):
                            rep.count('evaluations')
                            if isinstance(got, PyRaise):
                                what = 'raises ' + got.typ
                            elif not is_text(got):
                                what = 'gives no text'
                            else:
                                have = re.findall('\u27e6(.)([0-9]+)\u27e7', got) if isinstance(got, str) else None
                                want = [('s' if abb else 'r', str(ev.number(t))) for t in self.leaves(v)]
                                what = None if have == want else 'does not show the parts of the object'
                                if what is None and not self.kinds(v, got, abb):
                                    what = 'does not show the structure of the object'
                            if what:
                                rep.find(R_READ, construct, where, what, show_mo(v), key='{}|{}|{}'.format(construct, what, v[0]))
                    except Exception as x:
                        why = reason(x)
                    except RecursionError:
                        why = 'recursion'
                ev.reverse = False
                rep.ob('{} {}{}'.format(construct, show_mo(v), ' abbreviated' if abb else ''), why is None, why)

    def leaves(self, v):
        if v[0] == 'a':
            yield v
        elif v[0] == 'c':
            yield from self.leaves(v[1])
            yield from self.leaves(v[2])
        else:
            for e in self.ev.iterate(MO(v)):
                yield from self.leaves(e.val)

    def kinds(self, v, t, abb):
        count = {'c': 0, 's': 0, 'm': 0}

        def walk(v):
            if v[0] in count:
                count[v[0]] += 1
            for w in ([v[1], v[2]] if v[0] == 'c' else [e.val for e in self.ev.iterate(MO(v))] if v[0] in 'sm' else []):
                walk(w)
        walk(v)
        if abb:
            return t.count('->') == count['c'] and t.count('{') == t.count('}') == count['s'] + count['m']
        return t.count('Couplet(') == count['c'] and t.count('Multiset(') == count['m'] and t.count('Set(') == count['s']


def val_(v):
    return v


def run(tier):
    return Check().run(tier)
