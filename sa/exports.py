"""C26: exported text carries exactly the data, and data cannot be taken for markup.

The exporters are evaluated abstractly on tables of every shape with opaque cells; what they write is a sequence of
constant text and of opaque texts, each with the encodings it went through. The sequence is parsed as the format it is
meant to be: a text that reaches it without its encoding, a missing separator or a lost cell is visible whatever the
texts are."""
import itertools
import json as _json

from .cases import (Ext, Evaluator, Func, Gen, MO, Native, PyRaise, Sym, TextIO, UNDEF, Unsupported, cat, is_text, reason, parts_of, show)
from .imports import A, C, M, S, fun_rel, is_rel, rows_of, text
from .loader import AnalysisBroken, Program
from .report import Report

R_CSV = 'R-csv: the file has the header, and per relation one row with its values'
R_TABLE = 'R-table: the text is a well-formed document of the format with the names and the encoded values of the table'
R_HTML = 'R-html: every text is put into the page once, escaped once, in its place'
R_OPEN = 'R-encoding: files are written as UTF-8, whatever the locale'


# -- output --------------------------------------------------------------------------------------------------------------
class Out(TextIO):
    """A file that is written to: texts and rows of csv writers."""
    attrnames = TextIO.attrnames

    def __init__(self):
        super().__init__()
        self.closed = False

    def attr(self, a):
        if a == 'write':
            def w(args, kw):
                if self.closed:
                    raise PyRaise('ValueError')
                if not is_text(args[0]):
                    raise PyRaise('TypeError')
                self.parts.append(args[0])
            return Native(w)
        if a == 'closed':
            return self.closed
        return super().attr(a)

    def enter(self):
        return self

    def exit(self):
        self.closed = True

    def truth(self):
        return True


class Writer:
    """csv.writer and csv.DictWriter."""

    def __init__(self, ev, out, names=None, restval='', extras='raise', opts=None):
        for k, v in (opts or {}).items():
            usual = dict(dialect=('excel', 'unix'), delimiter=(',',), quotechar=('"',), lineterminator=('\n', '\r\n'), doublequote=(True,)).get(k)
            if usual is None or not isinstance(v, (str, bool)):
                raise Unsupported('option {} of a csv writer'.format(k))
            if v not in usual:
                out.parts.append(('row', ('{}={!r}'.format(k, v),)))
        self.ev, self.out, self.names, self.restval, self.extras = ev, out, names, restval, extras

    def put(self, cells):
        if self.out.closed:
            raise PyRaise('ValueError')
        self.out.parts.append(('row', tuple(cells)))

    def row(self, r):
        if self.names is None:
            return self.put(list(self.ev.iterate(r)))
        for k in r:
            if k not in self.names and self.extras == 'raise':
                raise PyRaise('ValueError')
        self.put([r.get(n, self.restval) for n in self.names])

    def attr(self, a):
        if a == 'writerow':
            return Native(lambda args, kw: self.row(args[0]))
        if a == 'writerows':
            def rows(args, kw):
                for r in self.ev.iterate(args[0]):
                    self.row(r)
            return Native(rows)
        if a == 'writeheader' and self.names is not None:
            return Native(lambda args, kw: self.put(self.names))
        raise PyRaise('AttributeError', (a,))

    def truth(self):
        return True


class Lit:
    """rdflib.Literal made of a Python value."""

    def __init__(self, ev, v):
        self.ev, self.v = ev, v

    def attr(self, a):
        if a == 'datatype':
            if isinstance(self.v, Sym):
                if self.v.kind == 'str':
                    return None
                return Sym(('datatype', self.v.term), 'str') if self.ev.decide(('has datatype', self.v.term)) else None
            return None if isinstance(self.v, str) else 'http://xsd#' + type(self.v).__name__
        raise Unsupported('literal.' + a)

    def truth(self):
        raise Unsupported('truth of a literal')


# -- algebra -------------------------------------------------------------------------------------------------------------
def is_clan(v):
    return v[0] == 's' and all(map(is_rel, v[1]))


def is_mclan(v):
    return v[0] == 'm' and all(is_rel(x) for x, _ in v[1])


def absolute(v):
    return all(c[1][0] == 'a' and c[2][0] == 'a' for r in rows_of(v) for c in r[1])


def regular(v):
    rows = rows_of(v)
    return all(map(fun_rel, rows)) and len({frozenset(c[1] for c in r[1]) for r in rows}) <= 1


def val(x):
    return x.val if isinstance(x, MO) else None


def get_right(ev, args, kw):
    vals = dict(zip(('rel', 'left'), args))
    vals.update(kw)
    rel, left = val(vals['rel']), vals['left']
    if rel is None or not is_rel(rel):
        return UNDEF
    l = left.val if isinstance(left, MO) else A(left)
    rights = [c[2] for c in rel[1] if c[1] == l]
    return ev.wrap(rights[0]) if len(rights) == 1 else UNDEF


def lefts_of(ev, args, kw):
    v = val(args[0])
    if v is None:
        return UNDEF
    return MO(S(*[c[1] for r in ([v] if is_rel(v) and v[1] else rows_of(v)) for c in r[1]]))


def pred(f, undef=False):
    def g(ev, args, kw):
        x = args[0] if args else next(iter(kw.values()))
        v = val(x)
        if v is None:
            raise PyRaise('AssertionError') if x is not UNDEF else Unsupported('Undef')
        return f(v)
    return g


def partial(f, dom):
    def g(v):
        return f(v) if dom(v) else UNDEF
    return pred(g)


ALGEBRA = {'algebras.clans.is_member': pred(is_clan), 'algebras.multiclans.is_member': pred(is_mclan), 'algebras.relations.is_member': pred(is_rel),
           'algebras.clans.is_absolute_member': pred(lambda v: is_clan(v) and absolute(v)),
           'algebras.multiclans.is_absolute_member': pred(lambda v: is_mclan(v) and absolute(v)),
           'algebras.clans.is_regular': partial(regular, is_clan), 'algebras.multiclans.is_regular': partial(regular, is_mclan),
           'algebras.relations.get_right': get_right, 'algebras.clans.get_lefts': lefts_of, 'algebras.relations.get_lefts': lefts_of,
           'algebras.multiclans.get_lefts': lefts_of}


# -- tables --------------------------------------------------------------------------------------------------------------
def opq(n, kind='pyvalue'):
    return Sym((kind, n), kind)


def R(**kw):
    return S(*[C(k, v) for k, v in kw.items()])


def tables():
    x, y, z, w = map(opq, 'xyzw')
    yield 'one row', [R(a=x, b=y)]
    yield 'rows', [R(a=x, b=y), R(a=z, b=w)]
    yield 'three columns', [R(a=x, b=y, c=z), R(a=y, b=x, c=w)]
    yield 'one column', [R(a=x), R(a=y)]
    yield 'equal values', [R(a=x, b=x)]
    yield 'constants', [R(a=0, b=''), R(a=False, b='0'), R(a='x', b='a "b" \\ , \n ;')]
    yield 'texts', [R(a=opq('t', 'str'), b='')]
    for n in (3, 4, 9):
        yield '%d rows' % n, [R(a='k%d' % i, b='v') for i in range(n)]
        yield '%d columns' % n, [S(*[C('c%d' % i, 'v%d' % i) for i in range(n)])]
    yield 'many values', [R(a='k', b='v%d' % i) for i in range(9)]
    yield 'no columns', [R()]


def ragged():
    x, y, z = map(opq, 'xyz')
    yield 'first value missing', [R(b=x)], ['a', 'b']
    yield 'last value missing', [R(a=x)], ['a', 'b']
    yield 'middle value missing', [R(a=x, c=y)], ['a', 'b', 'c']
    yield 'all but the middle missing', [R(b=x)], ['a', 'b', 'c']
    yield 'no value', [R()], ['a', 'b']
    yield 'missing in turn', [R(a=x), R(b=y)], ['a', 'b']
    yield 'missing in one row', [R(a=x, b=y), R(b=z)], ['a', 'b']
    yield 'part of the columns', [R(a=x, b=y, c=z)], ['a', 'c']
    yield 'part of the columns, one row each', [R(a=x, b=y), R(a=x, b=z)], ['b']
    yield 'a column nobody has', [R(a=x)], ['a', 'q']
    cols = 'abcd'
    for n in range(1, 15):                  # every pattern of present and missing values of four columns
        have = [c for i, c in enumerate(cols) if n >> i & 1]
        yield 'columns ' + ''.join(have) + ' of four', [R(**{c: opq('v' + c) for c in have})], list(cols)
    yield 'patterns in several rows', [R(a=x, c=y), R(b=z), R(a=z, d=x), R(b=x, c=z, d=y)], list(cols)


class Check:
    def __init__(self):
        self.rep = Report()
        self.prog = Program(raw=True)
        self.opened = None
        models = {'csv.DictWriter': self.dictwriter, 'csv.writer': self.writer, 'builtins.open': self.open, 'io.open': self.open,
                  'json.dumps': lambda ev, a, k: dumps(a[0]), 'json.dump': self.dump, 'rdflib.Literal': lambda ev, a, k: Lit(ev, a[0]),
                  'collections.namedtuple': namedtuple}
        specs = dict(ALGEBRA)
        for k in ('uri', 'bnode', 'pyvalue', 'str', 'bool', 'number'):
            specs[('isinst', k)] = self.isinst
        specs['util.latexprinter.math_object_to_latex'] = lambda ev, a, k: Sym(('latex', val(a[0]) or ev.termof(a[0])), 'str')
        self.ev = Evaluator(self.prog, models, specs, limit=500)

    def isinst(self, ev, v, t):
        n = t.name.split('.')[-1]
        if t.name.startswith('rdflib'):
            return v.kind == {'URIRef': 'uri', 'BNode': 'bnode'}.get(n) or n in ('Identifier', 'Node') and v.kind in ('uri', 'bnode')
        if n in ('str',):
            return v.kind in ('str', 'uri', 'bnode')
        if n in ('Iterable', 'Sequence', 'Sized', 'Hashable', 'Collection', 'Container') and v.kind in ('str', 'uri', 'bnode'):
            return True
        if n in ('MathObject', 'Atom', 'Couplet', 'Set', 'Multiset', 'Mapping'):
            return False
        if v.kind == 'number':
            return n == 'object'
        if v.kind == 'bool' and n in ('bool', 'int'):
            return True
        return ev.decide(('instance', v.term, n))

    def dictwriter(self, ev, args, kw):
        vals = dict(zip(('f', 'fieldnames', 'restval', 'extrasaction', 'dialect'), args))
        vals.update(kw)
        opts = {k: v for k, v in vals.items() if k not in ('f', 'fieldnames', 'restval', 'extrasaction')}
        return Writer(ev, vals['f'], list(ev.iterate(vals['fieldnames'])), vals.get('restval', ''), vals.get('extrasaction', 'raise'), opts)

    def writer(self, ev, args, kw):
        vals = dict(zip(('f', 'dialect'), args))
        vals.update(kw)
        f = vals.pop('f', None) or vals.pop('csvfile', None)
        return Writer(ev, f, opts=vals)

    def dump(self, ev, a, k):
        ev.call(a[1].attr('write'), [dumps(a[0])], {})

    def open(self, ev, args, kw):
        vals = dict(zip(('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'), args))
        vals.update(kw)
        if vals['file'] != 'some.path' or self.opened is not None:
            raise Unsupported('another file')
        if not set(vals.get('mode', 'r')) & set('wx') or 'b' in vals.get('mode', 'r'):
            raise Unsupported('mode')
        self.opened = dict(vals, out=Out())
        return self.opened['out']

    def function(self, mod, name):
        f = self.ev.static(self.prog.resolve_name(self.prog.module(mod), name))
        if not isinstance(f, Func):
            raise AnalysisBroken('{}.{} is missing'.format(mod, name))
        return f

    def each(self, rule, mod, name, label, make, judge, paths=(False,)):
        """make(ev, out) gives the arguments; judge(ev, result, parts) what is wrong."""
        f = self.function(mod, name)
        construct = '{}.{}'.format(mod, name)
        where = '{}:{}'.format(self.prog.module(mod).rel, f.node.lineno)
        rep, ev = self.rep, self.ev
        why = None
        for path in paths:
            for rev in (False, True):
                ev.reverse = rev

                def go(e):
                    self.opened = None
                    f = self.function(mod, name)
                    out = 'some.path' if path else Out()
                    args, kw = make(e, out)
                    try:
                        got = e.call(f, args, kw)
                    except PyRaise as x:
                        got = x
                    if isinstance(got, Gen):
                        got = list(got)
                    if path:
                        parts = self.opened['out'].parts if self.opened else None
                    else:
                        parts = out.parts
                    return judge(e, got, parts)
                try:
                    for wrong in ev.explore(go):
                        rep.count('evaluations')
                        if wrong:
                            rep.find(rule, construct, where, '{}: {}'.format(label, wrong)[:200], label, key='{}|{}'.format(construct, label))
                        if self.opened and str(self.opened.get('encoding')).lower().replace('_', '-') not in ('utf-8', 'utf8'):
                            rep.find(R_OPEN, 'util.miscellaneous.write_to_file_or_path', 'algebraixlib/util/miscellaneous.py:1',
                                     'a file is opened with the encoding of the locale', '', key='enc|write')
                        if self.opened and name == 'export_csv' and self.opened.get('newline') != '':
                            rep.find(R_CSV, construct, where, 'the file translates the line ends that the csv module writes', '', key='newline')
                except Exception as x:
                    why = reason(x)
                except RecursionError:
                    why = 'recursion'
        ev.reverse = False
        rep.ob('{} of {}'.format(construct, label), why is None, why)

    # -- CSV -------------------------------------------------------------------------------------------------------------
    def csv(self):
        mod, name = 'import_export.csv', 'export_csv'
        both = (False, True)

        def good(rows, header, order=None):
            def judge(e, got, parts):
                if isinstance(got, PyRaise):
                    return 'raises ' + got.typ
                if got is not True:
                    return 'returns {!r} instead of True'.format(got)
                if parts is None or not all(isinstance(p, tuple) for p in parts):
                    raise Unsupported('text written without csv')
                want = [tuple(dict((c[1][1], c[2][1]) for c in r[1]).get(h, '') for h in header) for r in rows]
                if not parts or [plain(c) for c in parts[0][1]] != header:
                    return 'the header is wrong'
                have = [tuple('' if c is None else c for c in p[1]) for p in parts[1:]]
                same = have == want if order else sorted(map(repr, have)) == sorted(map(repr, want))
                return None if same else 'the rows are wrong'
            return judge

        def bad(e, got, parts):
            if isinstance(got, PyRaise):
                return 'raises ' + got.typ
            if got is not False:
                return 'returns {!r} instead of False'.format(got)
            return 'writes although it fails' if parts else None

        for label, rows in tables():
            header = sorted({c[1][1] for r in rows for c in r[1]})
            for multi in both:
                mo = (lambda rows=rows, multi=multi: MO(M(rows + rows[:1]) if multi else S(*rows)))
                all_rows = rows + rows[:1] if multi else rows
                if header:
                    self.each(R_CSV, mod, name, label + (' (multiclan)' if multi else ''), lambda e, o, mo=mo: ([mo(), o], {}),
                              good(all_rows, header), both)
                    back = header[::-1]
                    self.each(R_CSV, mod, name, label + ' with ordered lefts' + (' (multiclan)' if multi else ''),
                              lambda e, o, mo=mo, back=back: ([mo(), o], dict(ordered_lefts=list(back))), good(all_rows, back))
        self.each(R_CSV, mod, name, 'no rows', lambda e, o: ([MO(S()), o], {}), good([], []))
        self.each(R_CSV, mod, name, 'no rows with ordered lefts', lambda e, o: ([MO(S()), o], dict(ordered_lefts=['a', 'b'])), good([], ['a', 'b']))
        for label, rows, header in ragged():
            self.each(R_CSV, mod, name, label, lambda e, o, rows=rows, header=header: ([MO(S(*rows)), o], dict(ordered_lefts=list(header))), good(rows, header))
            if not regular(S(*rows)):
                self.each(R_CSV, mod, name, label + ' without ordered lefts', lambda e, o, rows=rows: ([MO(S(*rows)), o], {}), bad, both)
                self.each(R_CSV, mod, name, label + ' without ordered lefts (multiclan)', lambda e, o, rows=rows: ([MO(M(rows)), o], {}), bad)
        # order of the rows
        rows = [R(a='k%d' % i, b=opq(i)) for i in (2, 1, 3)]

        def key(args, kw):
            r = args[0]
            return 10 - int([c[2][1] for c in r.val[1] if c[1] == A('a')][0][1:])
        for multi in both:
            self.each(R_CSV, mod, name, 'sorted rows' + (' (multiclan)' if multi else ''),
                      lambda e, o, multi=multi: ([MO(M(rows + rows[:1])) if multi else MO(S(*rows)), o], dict(sort_key=Native(key))),
                      good(sorted(rows + rows[:multi], key=lambda r: key([MO(r)], {})), ['a', 'b'], True))
        x = opq('x')
        inner = S(C('a', x))
        for label, v in (('an atom', A(x)), ('a couplet', C('a', x)), ('a set of atoms', S(A(x))), ('a relation', inner), ('a multiset of atoms', M([A(x)])),
                         ('a clan that is not absolute', S(S(C('a', inner)))), ('a multiclan that is not absolute', M([S(C('a', inner))])),
                         ('a clan with a left that is no atom', S(S(C(inner, x))))):
            for kw in ({}, {'ordered_lefts': ['a']}):
                self.each(R_CSV, mod, name, label + (' with ordered lefts' if kw else ''), lambda e, o, v=v, kw=kw: ([MO(v), o], dict(kw)), bad)

    # -- RDF tables ------------------------------------------------------------------------------------------------------
    def table(self):
        mod, name = 'import_export.rdf', 'export_table'
        cases = [(label, rows, sorted({c[1][1] for r in rows for c in r[1]})) for label, rows in tables() if label != 'no columns']
        cases += list(ragged())
        cases.append(('no rows', [], ['a', 'b']))
        u, b, p = opq('u', 'uri'), opq('b', 'bnode'), opq('p')
        cases.append(('references', [R(a=u, b=b), R(a=b, b=p)], ['a', 'b']))
        cases.append(('quoted name', [S(C('a"b', p), C('b\\', u))], ['a"b', 'b\\']))
        for label, rows, header in cases:
            for fmt in ('csv', 'json'):
                kw = {} if fmt == 'csv' else dict(out_format='json')

                def judge(e, got, parts, rows=rows, header=header, fmt=fmt):
                    if isinstance(got, PyRaise):
                        return 'raises ' + got.typ
                    if parts is None:
                        return 'writes nothing'
                    return (parse_csv if fmt == 'csv' else parse_json)(e, parts, rows, header)
                self.each(R_TABLE, mod, name, '{} as {}'.format(label, fmt),
                          lambda e, o, rows=rows, header=header, kw=kw: ([o, MO(S(*map(A, header))), MO(S(*rows))], dict(kw)), judge,
                          (False, True) if label == 'rows' else (False,))

    # -- HTML ------------------------------------------------------------------------------------------------------------
    def html(self):
        mod = 'util.html'
        esc = lambda t: Sym(('esc', t), 'str')
        s = Sym(('input',), 'str')
        mo = MO(A(opq('m')))
        lat = lambda m: esc(('latex', m.val))

        def exact(want):
            def judge(e, got, parts):
                if isinstance(got, PyRaise):
                    return 'raises ' + got.typ
                want_ = want() if callable(want) else want
                return None if got == want_ else 'gives {!r} instead of {!r}'.format(got, want_)
            return judge

        def contains(seq, start='', end=''):
            """The opaque texts of the result are seq."""
            def judge(e, got, parts):
                if isinstance(got, PyRaise):
                    return 'raises ' + got.typ
                if not is_text(got):
                    return 'gives no text'
                ps = parts_of(got)
                have = [p.term for p in ps if isinstance(p, Sym)]
                want = [t.term for t in seq]
                if have != want:
                    for t in have:
                        if t not in want:
                            return 'the page contains {}'.format(show(t))[:150]
                    return 'the page contains its texts {} instead of {}'.format(have, want)[:180]
                return None
            return judge
        f = 'as_html_handle_basic_parameter'
        self.each(R_HTML, mod, f, 'a text', lambda e, o: ([s], {}), exact(esc(s.term)))
        self.each(R_HTML, mod, f, 'a constant', lambda e, o: (['<b>"&\''], {}), exact('&lt;b&gt;&quot;&amp;&#x27;'))
        self.each(R_HTML, mod, f, 'an object', lambda e, o: ([mo], {}), exact(esc(('str', mo.val))))
        f = 'as_html_handle_data_algebra'
        mos = [MO(A(opq('m'))), MO(S(A(1), A(opq('n')))), MO(C('a', opq('n'))), MO(M([A(opq('n')), A(opq('n'))])), MO(S())]
        for m in mos:
            self.each(R_HTML, mod, f, 'an object', lambda e, o, m=m: ([m], {}), contains([lat(m)]))
        for n in range(4):
            xs = mos[:n]
            self.each(R_HTML, mod, f, 'a list of objects', lambda e, o, xs=xs: ([list(xs)], {}), contains(list(map(lat, xs))))
        self.each(R_HTML, mod, f, 'objects and texts', lambda e, o: ([(mos[0], s, mos[1])], {}), contains([lat(mos[0]), esc(s.term), lat(mos[1])]))
        self.each(R_HTML, mod, f, 'a number', lambda e, o: ([3], {}), exact('3'))
        self.each(R_HTML, mod, f, 'an opaque value', lambda e, o: ([Sym(('v',), 'number')], {}), exact(esc(('str', ('v',)))))
        self.each(R_HTML, mod, f, 'a text', lambda e, o: ([s], {}), exact(esc(s.term)))
        self.each(R_HTML, mod, f, 'a constant', lambda e, o: (['<a>'], {}), exact('&lt;a&gt;'))
        xs = [MO(A(opq('n%d' % i))) for i in range(12)]
        ts = [Sym(('t', i), 'str') for i in range(12)]
        self.each(R_HTML, mod, f, 'a long list of objects', lambda e, o: ([xs], {}), contains(list(map(lat, xs))))
        self.each(R_HTML, mod, f, 'a long list of texts', lambda e, o: ([ts], {}), contains([esc(t.term) for t in ts]))
        f = 'create_simple_web_page'
        for m in mos:
            self.each(R_HTML, mod, f, 'an object', lambda e, o, m=m: ([m], {}), contains([esc(('str', m.val)), lat(m)]))
        f = 'build_descriptors_from_math_obj'

        def descr(e, got, parts, xs=mos):
            if isinstance(got, PyRaise):
                return 'raises ' + got.typ
            ds = list(e.iterate(got))
            if len(ds) != len(xs):
                return '{} descriptors for {} objects'.format(len(ds), len(xs))
            for d, x in zip(ds, xs):
                if e.getattr(d, 'data_algebra_construct') is not x or e.getattr(d, 'input_title') != Sym(('str', x.val), 'str'):
                    return 'a descriptor describes another object'
        self.each(R_HTML, mod, f, 'a list', lambda e, o: ([list(mos)], {}), descr)
        f = 'math_object_as_html'
        t = Sym(('title',), 'str')

        def D(e, i):
            nt = e.static(self.prog.resolve_name(self.prog.module(mod), 'DataAlgebraHtmlDescriptor'))
            return e.call(nt, [Sym(('it', i), 'str'), mos[i], Sym(('db', i), 'str')], {})
        for n in (0, 1, 3):
            want = [esc(t.term)]
            for i in range(n):
                want += [esc(('it', i)), esc(('db', i)), lat(mos[i])]
            self.each(R_HTML, mod, f, 'a page with {} objects'.format(n), lambda e, o, n=n: ([t, [D(e, i) for i in range(n)]], {}), contains(want))

            def custom(n=n):
                out = ['<H>', esc(t.term), '{']
                for i in range(n):
                    out += ['<O>', lat_block(mos[i], lat), '|', esc(('it', i)), '|', esc(('db', i)), '|', esc(('it', i)), '}']
                return cat(out + ['<F>{x}'])

            def lat_block(m, lat):
                return cat(['$$', lat(m), '$$'])
            self.each(R_HTML, mod, f, 'a page with templates and {} objects'.format(n), lambda e, o, n=n: ([t, [D(e, i) for i in range(n)]], dict(
                header_template='<H>{page_title}{{', footer_template='<F>{x}',
                mathobject_template='<O>{data_algebra_construct}|{input_title}|{description_brief}|{input_title}}}')), exact(custom))

    def run(self, tier):
        rep = self.rep
        rep.rules = {r.split(':')[0]: r.split(': ', 1)[1] for r in (R_CSV, R_TABLE, R_HTML, R_OPEN)}
        self.csv()
        self.table()
        self.html()
        rep.samples.append('{} tables, {} ragged tables'.format(len(list(tables())), len(list(ragged()))))
        return rep


# -- formats -------------------------------------------------------------------------------------------------------------
def plain(c):
    return c.val[1] if isinstance(c, MO) and c.val[0] == 'a' else c


def namedtuple(ev, args, kw):
    fields = args[1].replace(',', ' ').split() if isinstance(args[1], str) else list(args[1])

    class NT(tuple):
        def attr(self, a):
            if a in fields:
                return self[fields.index(a)]
            if a == '_fields':
                return tuple(fields)
            if a == '_asdict':
                return Native(lambda args, kw: dict(zip(fields, self)))
            if a == '_replace':
                return Native(lambda args, kw: NT(kw.get(f, v) for f, v in zip(fields, self)))
            raise PyRaise('AttributeError', (a,))

    def make(a, k):
        vals = dict(zip(fields, a))
        vals.update(k)
        if set(vals) != set(fields) or len(a) > len(fields):
            raise PyRaise('TypeError')
        return NT(vals[f] for f in fields)
    return Native(make)


def text_of(v):
    """str(value) as the evaluator renders it."""
    if isinstance(v, Sym):
        return v if v.kind == 'str' else Sym(('str', v.term), 'str')
    return str(v)


def dumps(v):
    if isinstance(v, Sym):
        if v.kind != 'str':
            raise Unsupported('json.dumps of an opaque value')
        return Sym(('json', v.term), 'str')
    if isinstance(v, dict):
        out = ['{']
        for i, (k, x) in enumerate(v.items()):
            out += ([', '] if i else []) + [dumps(k), ': ', dumps(x)]
        return cat(out + ['}'])
    if isinstance(v, (list, tuple)):
        out = ['[']
        for i, x in enumerate(v):
            out += ([', '] if i else []) + [dumps(x)]
        return cat(out + [']'])
    try:
        return _json.dumps(v)
    except TypeError:
        raise PyRaise('TypeError')


def flat(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            return None
        out += parts_of(p)
    return out


def parse_json(ev, parts, rows, header):
    ps = flat(parts)
    if ps is None:
        return 'the document is no JSON'
    names, s = {}, ''
    for p in ps:
        if isinstance(p, str):
            s += p
        elif p.term[0] == 'json':
            s += '"\u27e6%d\u27e7"' % names.setdefault(p.term[1], len(names))
        elif p.term[0] == 'datatype':
            s += '\u27e6%d\u27e7' % names.setdefault(p.term, len(names))
        else:
            return 'a text is not encoded for JSON: {}'.format(show(p.term))
    try:
        doc = _json.loads(s)
    except ValueError:
        return 'the document is no JSON'
    if len(s) > 10000:
        raise Unsupported('size')

    def enc(t):
        return '\u27e6%d\u27e7' % names.get(t.term, -1) if isinstance(t, Sym) else t

    def cell(v):
        d = {'value': enc(text_of(v)), 'type': 'literal'}
        if isinstance(v, Sym) and v.kind in ('uri', 'bnode'):
            d['type'] = v.kind
        else:
            dt = Lit(ev, v).attr('datatype')
            if dt is not None:
                d['datatype'] = enc(dt)
        return d
    want = [{c[1][1]: cell(c[2][1]) for c in r[1] if c[1][1] in header} for r in rows]
    try:
        if doc['head']['vars'] != header:
            return 'the header is wrong'
        have = doc['results']['bindings']
    except (KeyError, TypeError):
        return 'the document has other members'
    key = lambda d: _json.dumps(d, sort_keys=True)
    if sorted(map(key, have)) != sorted(map(key, want)):
        return 'the rows are wrong: {} instead of {}'.format(have, want)
    return None


def parse_csv(ev, parts, rows, header):
    want = [[text_of(dict((c[1][1], c[2][1]) for c in r[1])[h]) if h in {c[1][1] for c in r[1]} else None for h in header] for r in rows]
    if any(isinstance(p, tuple) for p in parts):
        if not all(isinstance(p, tuple) for p in parts):
            raise Unsupported('mixed output')
        have = [[None if c in (None, '') else text_of(c) for c in p[1]] for p in parts]
        want = [[None if c == '' else c for c in r] for r in want]
    else:
        s, names = '', []
        for p in flat(parts):
            if isinstance(p, str):
                s += p
            elif p.term[0] == 'replace' and p.term[2:] == ('"', '""'):
                s += '\u27e6%d\u27e7' % len(names)
                names.append(p.term[1])
            else:
                return 'a text is not encoded for CSV: {}'.format(show(p.term))
        have = []
        i = 0
        row = []
        pending = False
        while i < len(s):
            c = s[i]
            if c == '"':
                j, t = i + 1, ''
                while True:
                    if j >= len(s):
                        return 'a quoted value does not end'
                    if s[j] == '"':
                        if s[j + 1:j + 2] == '"':
                            t += '"'
                            j += 2
                            continue
                        break
                    t += s[j]
                    j += 1
                if pending is None:
                    return 'two values without a separator'
                if t.startswith('\u27e6') and t.endswith('\u27e7') and t.count('\u27e6') == 1:
                    t = Sym(names[int(t[1:-1])], 'str')
                elif '\u27e6' in t:
                    return 'a value is mixed with other text'
                row.append(t)
                pending = None                  # the value of this cell is there
                i = j + 1
            elif c == ',':
                if pending is not None:
                    row.append(None)
                pending = False
                i += 1
            elif c == '\n' or s[i:i + 2] == '\r\n':
                if pending is not None:
                    row.append(None)
                have.append(row)
                row, pending = [], False
                i += 1 if c == '\n' else 2
            elif c == ' ':
                i += 1
            else:
                return 'a value is not quoted'
        if row or pending is None:
            have.append(row if pending is None else row + [None])
    if not have or have[0] != header:
        return 'the header is wrong'
    rest = have[1:]
    if sorted(map(repr, rest)) != sorted(map(repr, want)):
        return 'the rows are wrong: {} instead of {}'.format(rest, want)
    return None


def run(tier):
    return Check().run(tier)
