"""C21: imported objects contain exactly the data of the file.

The importers are evaluated abstractly on files of every shape: tables with full, missing, blank and repeated rows
under every option, JSON documents and XML trees of every kind of node, RDF graphs of every kind of term. Cell texts,
values and terms are opaque. The parsers of the standard library and of rdflib are trusted and stand in as models."""
import itertools

from . import model as m
from .cases import (Ext, Evaluator, Func, Gen, MO, Native, PyRaise, Sym, UNDEF, Unsupported, cat, reason)
from .loader import AnalysisBroken, Program
from .report import Report

R_CSV = 'R-csv: the imported (multi)clan has one relation per row with one couplet per cell that is not blank'
R_JSON = 'R-json: the imported relation has one couplet per member of the document, and relations for its objects'
R_XML = 'R-xml: the imported relation has one couplet per element, attribute and text'
R_RDF = 'R-rdf: the imported graph has one triple per statement, blank nodes as references'
R_CLAIM = 'R-claims: what the importer remembers about the imported object is true'
R_OPEN = 'R-encoding: files are read as UTF-8, whatever the locale'


def A(v):
    return ('a', v)


def C(l, r):
    return ('c', l if isinstance(l, tuple) else A(l), r if isinstance(r, tuple) else A(r))


def S(*xs):
    return ('s', frozenset(xs))


def M(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return ('m', frozenset(d.items()))


def text(n):
    return cat(['T', Sym(('text', n), 'str'), 't'])


def same(a, b):
    """Equal values, with constants of equal types."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        rest = list(b)
        for x in a:
            y = next((y for y in rest if same(x, y)), None)
            if y is None:
                return False
            rest.remove(y)
        return not rest
    return type(a) is type(b) and a == b


# -- stand-ins ---------------------------------------------------------------------------------------------------------
class File:
    """An open file: its content is a list of rows, a document or a tree."""
    attrnames = ('readlines', 'read', 'readline', 'close', 'seek', '__iter__', '__next__', 'name', 'encoding', 'closed')

    def __init__(self, content):
        self.content = content
        self.closed = False
        self.lines = iter(content) if isinstance(content, list) else None

    def elements(self):
        if self.closed:
            raise PyRaise('ValueError')
        if self.lines is None:
            raise Unsupported('lines of a document')
        return self.lines

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.elements())

    def attr(self, a):
        if a == 'readline' and self.lines is not None:
            return Native(lambda args, kw: next(self.lines, ''))
        if a == 'readlines' and self.lines is not None:
            return Native(lambda args, kw: list(self.lines))
        if a == 'read' and self.lines is None:
            return Native(lambda args, kw: Content(self.content))
        if a == 'close':
            return Native(lambda args, kw: self.exit())
        if a == '__next__':
            return Native(lambda args, kw: next(self))
        if a == 'closed':
            return self.closed
        if a not in self.attrnames:
            raise PyRaise('AttributeError')
        raise Unsupported('file.' + a)

    def enter(self):
        return self

    def exit(self):
        self.closed = True

    def truth(self):
        return True


class Content:
    """The whole text of a document."""

    def __init__(self, content):
        self.content = content


class Rows:
    """csv.reader and csv.DictReader."""

    def __init__(self, ev, src, names=None, dicts=False, restval=None):
        self.ev, self.src, self.names, self.dicts, self.restval = ev, ev.iterate(src), names, dicts, restval
        self.it = self.dict_rows() if dicts else iter(map(list, self.src))

    def header(self):
        if self.names is None:
            r = next(self.src, None)
            self.names = None if r is None else list(r)
        return self.names

    def dict_rows(self):
        self.header()
        for r in self.src:
            if len(r) == 0:
                continue
            d = dict(zip(self.names, r))
            for n in self.names[len(r):]:
                d[n] = self.restval
            if len(r) > len(self.names):
                d[None] = list(r[len(self.names):])
            yield d

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def elements(self):
        return self.it

    def attr(self, a):
        if a == 'fieldnames' and self.dicts:
            return self.header()
        if a == '__next__':
            return Native(lambda args, kw: next(self.it))
        raise Unsupported('reader.' + a)

    def truth(self):
        return True


class Node:
    """A node of a minidom tree."""
    consts = {'ELEMENT_NODE': 1, 'ATTRIBUTE_NODE': 2, 'TEXT_NODE': 3, 'CDATA_SECTION_NODE': 4, 'COMMENT_NODE': 8, 'DOCUMENT_NODE': 9,
              'PROCESSING_INSTRUCTION_NODE': 7, 'DOCUMENT_TYPE_NODE': 10}

    def __init__(self, typ, tag=None, attrs=(), children=(), data=None):
        self.typ, self.tag, self.attrs, self.children, self.data = typ, tag, dict(attrs), list(children), data
        self.parent = None
        for c in self.children:
            c.parent = self

    def attr(self, a):
        if a in self.consts:
            return self.consts[a]
        if a == 'nodeType':
            return self.typ
        if a == 'childNodes':
            return list(self.children)
        if a == 'parentNode':
            return self.parent
        if a == 'hasChildNodes':
            return Native(lambda args, kw: bool(self.children))
        if a == 'firstChild':
            return self.children[0] if self.children else None
        if a == 'lastChild':
            return self.children[-1] if self.children else None
        if a == 'nextSibling' and self.parent is not None:
            i = next(i for i, c in enumerate(self.parent.children) if c is self)
            return self.parent.children[i + 1] if i + 1 < len(self.parent.children) else None
        if self.typ == 1:
            if a in ('tagName', 'nodeName', 'localName'):
                return self.tag
            if a == 'attributes':
                return Attrs(self.attrs)
            if a == 'hasAttributes':
                return Native(lambda args, kw: bool(self.attrs))
            if a == 'getAttribute':
                return Native(lambda args, kw: self.attrs.get(args[0], ''))
        if self.typ == 3:
            if a in ('data', 'nodeValue', 'wholeText'):
                return self.data
            if a == 'nodeName':
                return '#text'
            if a == 'length':
                return Sym(('len', self.data.term), 'int') if isinstance(self.data, Sym) else len(self.data)
        if self.typ == 9 and a == 'documentElement':
            return self.children[0]
        if self.typ == 9 and a == 'unlink':
            return Native(lambda args, kw: None)
        raise PyRaise('AttributeError', (a,))

    def truth(self):
        return bool(self.children) if self.typ in (1, 9) else True


class Attrs:
    def __init__(self, d):
        self.d = d

    def attr(self, a):
        if a in ('items', 'keys', 'values'):
            if a == 'values':
                raise Unsupported('attribute nodes')
            return Native(lambda args, kw: list(getattr(self.d, a)()))
        if a == 'length':
            return len(self.d)
        if a == 'get':
            raise Unsupported('attribute nodes')
        raise Unsupported('attributes.' + a)

    def truth(self):
        return bool(self.d)


class Graph:
    """rdflib.Graph: statements, with blank nodes until it is skolemized."""
    attrnames = ('parse', 'skolemize', 'triples', 'subjects', 'predicates', 'objects', '__iter__', '__len__')

    def __init__(self, world, triples=None):
        self.world, self.data = world, triples

    def attr(self, a):
        if a == 'parse':
            def parse(args, kw):
                names = ('source', 'publicID', 'format', 'location', 'file', 'data')
                vals = dict(zip(names, args))
                vals.update(kw)
                src = next((vals[k] for k in ('source', 'file', 'location', 'data') if vals.get(k) is not None), None)
                if src is not self.world['source']:
                    raise Unsupported('another source')
                self.world['format'] = vals.get('format')
                self.data = list(self.world['triples'])
                return self
            return Native(parse)
        if a == 'skolemize':
            def skolemize(args, kw):
                new = kw.get('new_graph') or (args[0] if args else None)
                g = new if isinstance(new, Graph) else Graph(self.world, [])
                g.data = [tuple(skolem(t) for t in tr) for tr in self.data]
                return g
            return Native(skolemize)
        if a == 'triples':
            return Native(lambda args, kw: Gen(iter(list(self.data))))
        raise Unsupported('graph.' + a)

    def elements(self):
        if self.data is None:
            return iter(())
        return iter(self.data)

    def truth(self):
        return bool(self.data)


def skolem(t):
    return Sym(('skolem', t.term), 'uri') if isinstance(t, Sym) and t.kind == 'bnode' else t


TERMKIND = {'uri': 'URIRef', 'bnode': 'BNode', 'literal': 'Literal'}


def term_isinst(ev, v, t):
    n = t.name.split('.')[-1]
    if t.name.startswith('rdflib'):
        return n == TERMKIND[v.kind] or n in ('Identifier', 'Node') or n == 'IdentifiedNode' and v.kind != 'literal'
    return n in ('str', 'object')


# -- claims ------------------------------------------------------------------------------------------------------------
def is_rel(v):
    return v[0] == 's' and all(c[0] == 'c' for c in v[1])


def fun_rel(v):
    return len({c[1] for c in v[1]}) == len(v[1])


def rows_of(v):
    return list(v[1]) if v[0] == 's' else [x for x, _ in v[1]]


def claim_true(v, name):
    """Truth of a status (None: not decided here)."""
    if name == 'relation':
        return is_rel(v)
    if name == 'clan':
        return v[0] == 's' and all(map(is_rel, v[1]))
    if name == 'multiclan':
        return v[0] == 'm' and all(is_rel(x) for x, _ in v[1])
    if name in ('right_functional', 'right_regular', 'reflexive', 'symmetric', 'transitive', 'absolute'):
        try:
            t = m.truth(name, v)
        except (TypeError, IndexError, KeyError, ValueError):
            return None
        return None if t not in (m.IS, m.IS_NOT) else t == m.IS
    if v[0] == 's' and is_rel(v) and v[1]:
        if name == 'functional':
            return fun_rel(v)
    rows = rows_of(v)
    if not all(map(is_rel, rows)):
        return None
    if name == 'functional':
        return all(map(fun_rel, rows))
    if name == 'regular':
        return all(map(fun_rel, rows)) and len({frozenset(c[1] for c in r[1]) for r in rows}) <= 1
    return None


# -- tables ------------------------------------------------------------------------------------------------------------
def tables():
    """(label, header, rows); a row may be shorter than the header."""
    x = [text(i) for i in range(9)]
    ab = ['a', 'b']
    yield 'no rows', ab, []
    yield 'one row', ab, [[x[0], x[1]]]
    yield 'rows', ab, [[x[0], x[1]], [x[2], x[3]]]
    yield 'equal cells', ab, [[x[0], x[0]], [x[1], x[1]], [x[1], x[0]]]
    yield 'repeated row', ab, [[x[0], x[1]], [x[0], x[1]], [x[2], x[1]], [x[0], x[1]]]
    yield 'blank cell', ab, [[x[0], ''], [x[1], x[2]]]
    yield 'blank cell later', ab, [[x[0], x[1]], ['', x[2]], [x[3], x[4]]]
    yield 'blank cells in turn', ab, [[x[0], ''], ['', x[0]]]
    yield 'blank column', ab, [[x[0], ''], [x[1], '']]
    yield 'short row', ab, [[x[0]], [x[1], x[2]], [x[0]]]
    yield 'blank row', ab, [['', ''], [x[0], x[1]], ['']]
    yield 'blank rows', ab, [['', ''], ['']]
    yield 'blank line', ab, [[x[0], x[1]], [], [x[2], '']]
    yield 'constants', ab, [[' ', '0'], ['None', 'False'], ['a', '-'], ['nan', '']]
    yield 'one column', ['a'], [[x[0]], [x[1]], [x[0]]]
    yield 'three columns', ['a', 'b', 'c'], [[x[0], x[1], x[2]], [x[3], '', x[4]], [x[5]]]
    yield 'missing in turn', ['a', 'b', 'c'], [[x[0], x[1], ''], [x[0], '', x[1]]]
    for n in (3, 4, 9):
        y = [text('y%d' % k) for k in range(n)]
        yield '%d rows' % n, ab, [[y[k], 'v'] for k in range(n)]
        yield '%d columns' % n, ['c%d' % k for k in range(n)], [y[:], ['', 'w'] + ['u'] * (n - 2)]
    yield 'empty column name', ['', 'b'], [[x[0], x[1]]]


def conv(name):
    def f(args, kw):
        return Sym((name, args[0].term if isinstance(args[0], Sym) else args[0]), name)
    return Native(f)


def options():
    falsy = Native(lambda args, kw: 0)
    none = Native(lambda args, kw: None)
    for types in (None, {}, {'a': conv('f')}, {'a': conv('f'), 'b': conv('g')}, {'z': conv('f')}, {'b': falsy}, {'a': none}):
        yield dict(types=types) if types is not None else {}
    for index in ('i', 'b'):
        yield dict(index_column=index)
    yield dict(index_column='i', types={'a': conv('f'), 'i': conv('g')})
    yield dict(has_dup_rows=True)
    yield dict(has_dup_rows=True, types={'a': conv('f')})
    for skip in (1, 2):
        yield dict(skip_rows=skip)
    yield dict(columns=True)
    yield dict(columns=True, has_dup_rows=True)
    yield dict(columns=True, skip_rows=1)
    yield dict(columns=True, skip_rows=1, types={'b': conv('g')}, index_column='i')


def want_csv(header, rows, opts):
    rels = []
    i = 0
    for r in rows:
        if not r:
            continue
        cells = {}
        for h, v in zip(header, r):
            if v == '':
                continue
            t = (opts.get('types') or {}).get(h)
            cells[h] = t.f([v], {}) if t is not None and h != opts.get('index_column') else v
        if opts.get('index_column') is not None:
            cells[opts['index_column']] = i
        i += 1
        rels.append(S(*[C(h, v) for h, v in cells.items()]))
    return M(rels) if opts.get('has_dup_rows') else S(*rels)


# -- documents ---------------------------------------------------------------------------------------------------------
def documents():
    s, i, f = Sym(('s',), 'str'), Sym(('i',), 'int'), Sym(('f',), 'float')
    yield 'empty object', {}
    for v in (s, i, f, True, False, 0, '', 0.0, 1, 'x'):
        yield 'member', {'a': v}
    yield 'members', {'a': s, 'b': i, '': f}
    yield 'equal members', {'a': s, 'b': s}
    yield 'nested object', {'a': {'b': s, 'c': {'d': i}}}
    yield 'empty nested object', {'a': {}, 'b': s}
    yield 'list', {'a': [{'b': s}, {'b': i, 'c': s}]}
    yield 'list of one', {'a': [{'b': s}]}
    yield 'empty list', {'a': [], 'b': s}
    yield 'list with equal objects', {'a': [{'b': s}, {'b': s}], 'c': {'b': s}}
    yield 'list with an empty object', {'a': [{}, {'b': s}]}
    yield 'lists in objects in lists', {'a': [{'b': [{'c': s}, {'c': i}]}, {'d': {'e': f}}]}
    yield 'top-level list', [{'a': s}, {'a': i, 'b': s}]
    yield 'top-level list of one', [{'a': s}]
    yield 'top-level list of equal objects', [{'a': s}, {'a': s}]
    yield 'empty top-level list', []
    yield 'top-level list with an empty object', [{}, {'a': s}]
    for n in (3, 4, 9):
        ss = [Sym(('s', k), 'str') for k in range(n)]
        yield 'list of %d' % n, {'a': [{'b': x} for x in ss], 'z': s}
        yield '%d members' % n, {'k%d' % k: x for k, x in enumerate(ss)}
        yield '%d nested objects' % n, {'k%d' % k: {'b': x, 'k0': i} for k, x in enumerate(ss)}
        yield 'top-level list of %d' % n, [{'a': x, 'b': i} for x in ss]
    d = {'end': s}
    for k in range(9):
        d = {'a': d, 'b': [{'x%d' % k: i}]} if k % 2 else {'a': [d, {'c': f}]}
    yield 'deep nesting', d
    yield 'top-level list of nested objects', [{'a': {'b': s}}, {'a': [{'b': s}, {'b': i}]}]


def want_json(d):
    if isinstance(d, list):
        return S(*[want_json(x) for x in d])
    out = []
    for k, v in d.items():
        if isinstance(v, list):
            out += [C(k, want_json(x)) for x in v]
        elif isinstance(v, dict):
            out.append(C(k, want_json(v)))
        else:
            out.append(C(k, A(v)))
    return S(*out)


def trees():
    E = lambda tag, attrs=(), *ch: Node(1, tag, attrs, ch)
    T = lambda d: Node(3, data=d)
    t, u, w = text('t'), text('u'), text('w')
    pad = lambda v: cat(['\n  ', v, '|\t\n'])
    ws = '\n   '
    yield 'empty element', E('r')
    yield 'text', E('r', (), T(t))
    yield 'text with blanks around it', E('r', (), T(pad(t)))
    yield 'blank text', E('r', (), T(ws))
    yield 'attributes', E('r', (('a', t), ('b', u)))
    yield 'empty attribute', E('r', (('a', ''),))
    yield 'attribute and text', E('r', (('a', t),), T(u))
    yield 'equal attribute and text', E('r', (('a', t),), T(t))
    yield 'child', E('r', (), E('c'))
    yield 'child with text', E('r', (), T(ws), E('c', (), T(t)), T(ws))
    yield 'children', E('r', (), E('c', (), T(t)), E('c', (), T(u)), E('d', (('x', t),)))
    yield 'equal children', E('r', (), E('c', (), T(t)), E('c', (), T(t)))
    yield 'text and child', E('r', (), T(t), E('c'))
    yield 'texts around a child', E('r', (), T(t), E('c', (), T(w)), T(u))
    yield 'equal texts around a child', E('r', (), T(t), E('c', (), T(w)), T(t))
    yield 'two texts', E('r', (), T(t), T(u))
    yield 'attribute equal to a child', E('r', (('c', t),), E('c', (), T(t)))
    yield 'attribute and child of one name', E('r', (('c', t),), E('c', (), T(u)))
    yield 'same tag nested', E('r', (), E('r', (), E('r', (), T(t))))
    yield 'deep', E('r', (('a', t),), T(ws), E('c', (('a', u),), E('d', (), T(w)), E('d', (('x', w),), T(t))), T(ws), E('e', (), T(pad(u))))
    for n in (3, 4, 9):
        ts = [text('t%d' % k) if n < 4 else 'word %d' % k for k in range(n)]
        yield '%d children' % n, E('r', (), *[E('c%d' % k, (), T(x)) for k, x in enumerate(ts)])
        yield '%d equal tags' % n, E('r', (), *[E('c', (), T(x)) for x in ts])
        yield '%d attributes' % n, E('r', tuple(('a%d' % k, x) for k, x in enumerate(ts)), T(u))
    e = E('end', (), T('x'))
    for k in range(9):
        e = E('n%d' % (k % 3), (('a', 'y'),), e, E('m', (), T('z')))
    yield 'deep nesting', e
    for c in ('12', '-3', '1.5', '1e3', 'x', '007', '0', '0.0', '+4', 'True', 'None', '1 2'):
        yield 'constant ' + c, E('r', (('a', c),), T(' %s ' % c), E('c', (), T(c)))
    yield 'equal numbers', E('r', (), E('c', (), T('1')), E('c', (), T('1.0')), E('d', (('x', '01'),)))


def strip(t):
    if isinstance(t, str):
        return t.strip()
    ps = list(t.term[1])
    ps[0] = ps[0].lstrip()
    ps[-1] = ps[-1].rstrip() if isinstance(ps[-1], str) else ps[-1]
    return cat(ps)


def want_xml(ev, node, num):
    def val(t):
        if not num:
            return A(t)
        if isinstance(t, Sym):
            try:
                return A(ev.b_int(t))
            except PyRaise:
                try:
                    return A(ev.b_float(t))
                except PyRaise:
                    return A(t)
        for f in (int, float):
            try:
                return A(f(t))
            except ValueError:
                pass
        return A(t)

    def element(n):
        kids = [C(k, val(v)) for k, v in n.attrs.items()]
        for c in n.children:
            if c.typ == 1:
                kids.append(element(c))
            elif strip(c.data) != '':
                kids.append(C('$', val(strip(c.data))))
        kids = set(kids)
        if len(kids) == 1 and next(iter(kids))[1] == A('$'):
            return C(n.tag, next(iter(kids))[2])
        return C(n.tag, S(*kids))
    return S(element(node))


# -- the check ---------------------------------------------------------------------------------------------------------
class Doc:
    """A parsed JSON document (kept apart from the lines of a table)."""

    def __init__(self, d):
        self.d = d


def plain(c):
    return copy(c.d) if isinstance(c, Doc) else c


def copy(d):
    if isinstance(d, dict):
        return {k: copy(v) for k, v in d.items()}
    if isinstance(d, list):
        return [copy(x) for x in d]
    return d


class Check:
    def __init__(self):
        self.rep = Report()
        self.prog = Program(raw=True)
        self.world = {}
        models = {'csv.DictReader': self.dictreader, 'csv.reader': lambda ev, a, k: Rows(ev, a[0]),
                  'json.load': lambda ev, a, k: self.doc(a[0]), 'json.loads': lambda ev, a, k: self.doc(a[0]),
                  'xml.dom.minidom.parse': lambda ev, a, k: self.doc(a[0]), 'xml.dom.minidom.parseString': lambda ev, a, k: self.doc(a[0]),
                  'builtins.open': self.open, 'io.open': self.open, 'codecs.open': self.open, 'rdflib.Graph': lambda ev, a, k: Graph(self.world),
                  'rdflib.graph.Graph': lambda ev, a, k: Graph(self.world), 'rdflib.util.guess_format': self.guess}
        specs = {('attr', 'literal', 'toPython'): lambda ev, o: Native(lambda a, k: Sym(('python', o.term), 'pyvalue')),
                 ('attr', 'literal', 'value'): lambda ev, o: Sym(('literal value', o.term), 'pyvalue')}
        for k in TERMKIND:
            specs[('isinst', k)] = term_isinst
            specs[('type', k)] = lambda ev, v: Ext('rdflib.' + TERMKIND[v.kind])
        self.ev = Evaluator(self.prog, models, specs, limit=500)

    def dictreader(self, ev, args, kw):
        vals = dict(zip(('f', 'fieldnames', 'restkey', 'restval', 'dialect'), args))
        vals.update(kw)
        names = vals.get('fieldnames')
        if vals.get('restkey') is not None or set(vals) - {'f', 'fieldnames', 'restkey', 'restval', 'dialect'}:
            raise Unsupported('options of DictReader')
        return Rows(ev, vals['f'], list(ev.iterate(names)) if names is not None else None, True, vals.get('restval'))

    def doc(self, f):
        if isinstance(f, (File, Content)):
            if isinstance(f, File) and f.closed:
                raise PyRaise('ValueError')
            return plain(f.content)
        raise Unsupported('document')

    def open(self, ev, args, kw):
        vals = dict(zip(('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'), args))
        vals.update(kw)
        if vals['file'] != 'some.path':
            raise Unsupported('another file')
        self.world['opened'] = vals
        if 'b' in vals.get('mode', 'r'):
            raise Unsupported('binary file')
        return File(self.world['content'])

    def guess(self, ev, args, kw):
        if not isinstance(args[0], str):
            raise PyRaise('TypeError')
        return 'xml' if self.world.get('guess') else None

    def function(self, mod, name):
        f = self.ev.static(self.prog.resolve_name(self.prog.module(mod), name))
        if not isinstance(f, Func):
            raise AnalysisBroken('{}.{} is missing'.format(mod, name))
        return f

    def one(self, rule, mod, name, label, content, want, opts, paths=(False, True), encoding=True):
        f = self.function(mod, name)
        construct = '{}.{}'.format(mod, name)
        where = '{}:{}'.format(self.prog.module(mod).rel, f.node.lineno)
        rep, ev = self.rep, self.ev
        why = None
        extra = ', '.join('{}={}'.format(k, 'given' if isinstance(v, (dict, list)) else v) for k, v in opts.items())
        for path in paths:
            for rev in (False, True):
                ev.reverse = rev

                def go(e):
                    f = self.function(mod, name)
                    self.world.update(content=content() if callable(content) else content, opened=None)
                    src = 'some.path' if path else File(self.world['content'])
                    args = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in opts.items()}
                    try:
                        got = e.call(f, [src], dict(args))
                    except PyRaise as x:
                        got = x
                    if any(args.get(k) != opts[k] for k in opts):
                        return got, None, 'changes its arguments'
                    return got, want(e), None
                try:
                    for got, exp, other in ev.explore(go):
                        rep.count('evaluations')
                        self.judge(rule, construct, where, label + (' with ' + extra if extra else ''), got, exp, other)
                        enc = self.world.get('opened')
                        if path and encoding and enc and str(enc.get('encoding')).lower().replace('_', '-') not in ('utf-8', 'utf8', 'utf-8-sig'):
                            rep.find(R_OPEN, construct, where, 'the file is opened with the encoding of the locale', '', key='enc|' + construct)
                except Exception as x:
                    why = reason(x)
                except RecursionError:
                    why = 'recursion'
        ev.reverse = False
        rep.ob('{} of {} {}'.format(construct, label, extra), why is None, why)

    def judge(self, rule, construct, where, label, got, exp, other=None):
        rep = self.rep
        if other:
            rep.find(rule, construct, where, other, label, key='{}|{}'.format(construct, other))
            return
        if isinstance(got, PyRaise):
            rep.find(rule, construct, where, '{}: raises {}'.format(label, got.typ), label, key='{}|{}|raises'.format(construct, label))
        elif not isinstance(got, MO) or not same(got.val, exp):
            rep.find(rule, construct, where, '{}: the imported object is wrong'.format(label),
                     '{!r} instead of {!r}'.format(got, MO(exp))[:400], key='{}|{}|wrong'.format(construct, label))
        for o, name, val in self.ev.trace:
            t = claim_true(o.val, name)
            if t is not None and t != val:
                rep.find(R_CLAIM, construct, where, '{}: the object is remembered as {}{} and is not'.format(label, '' if val else 'not ', name),
                         repr(o)[:300], key='{}|{}|{}'.format(construct, name, val))

    def run(self, tier):
        rep = self.rep
        rep.rules = {r.split(':')[0]: r.split(': ', 1)[1] for r in (R_CSV, R_JSON, R_XML, R_RDF, R_CLAIM, R_OPEN)}
        for label, header, rows in tables():
            for opts in options():
                opts = dict(opts)
                lines = [] if opts.get('columns') else [tuple(header)]
                if opts.get('columns'):
                    opts['columns'] = list(header)
                pre = [('preamble',), ('x', 'y', 'z')][:opts.get('skip_rows', 0)]
                want = want_csv(header, rows, opts)
                self.one(R_CSV, 'import_export.csv', 'import_csv', label, list(pre + lines + list(map(tuple, rows))), lambda e, w=want: w, opts)
        for label, d in documents():
            self.one(R_JSON, 'import_export.json', 'import_json', label, Doc(d), lambda e, d=d: want_json(d), {})
        for label, n in trees():
            for num in (False, True):
                self.one(R_XML, 'import_export.xml', 'import_xml', label, Node(9, children=[n]), lambda e, n=n, num=num: want_xml(e, n, num),
                         dict(convert_numerics=True) if num else {})
        self.rdf()
        rep.samples.append('{} tables, {} combinations of options, {} documents, {} trees'.format(
            len(list(tables())), len(list(options())), len(list(documents())), len(list(trees()))))
        return rep

    def rdf(self):
        u = lambda n: Sym(('uri', n), 'uri')
        b = lambda n: Sym(('bnode', n), 'bnode')
        l = lambda n: Sym(('literal', n), 'literal')
        p = u('p')
        graphs = [('empty graph', []), ('reference', [(u('s'), p, u('o'))]), ('literal', [(u('s'), p, l('o'))]), ('blank subject', [(b('s'), p, l('o'))]),
                  ('blank object', [(u('s'), p, b('o'))]), ('same blank node', [(b('s'), p, b('s')), (b('s'), p, l('o')), (u('x'), p, b('s'))]),
                  ('different blank nodes', [(b('s'), p, b('t')), (b('t'), p, b('s'))]), ('same term everywhere', [(p, p, p)]),
                  ('statements', [(u('s'), p, l('o')), (u('s'), u('q'), l('o')), (u('t'), p, l('n')), (u('t'), p, u('s'))])]

        def atom(t):
            t = skolem(t)
            return A(Sym(('python', t.term), 'pyvalue') if t.kind == 'literal' else t)
        mod, name = 'import_export.rdf', 'import_graph'
        f = self.function(mod, name)
        construct = mod + '.' + name
        where = '{}:{}'.format(self.prog.module(mod).rel, f.node.lineno)
        for label, tr in graphs:
            want = S(*[S(C('s', atom(s)), C('p', atom(q)), C('o', atom(o))) for s, q, o in tr])
            for src, guess, fmt in (('path', True, None), ('path', False, None), ('file', False, None), ('file', False, 'n3'), ('path', True, 'n3')):
                expfmt = fmt or ('xml' if src == 'path' and guess else 'turtle')
                why = None

                def go(e):
                    f = self.function(mod, name)
                    source = 'some.path' if src == 'path' else File(Doc(None))
                    self.world = {'source': source, 'triples': tr, 'guess': guess, 'format': None}
                    try:
                        return e.call(f, [source], {'rdf_format': fmt} if fmt else {})
                    except PyRaise as x:
                        return x
                try:
                    for got in self.ev.explore(go):
                        self.rep.count('evaluations')
                        lab = '{} from a {}{}'.format(label, src, ' with a format' if fmt else '')
                        wrong = None
                        if isinstance(got, MO) and self.world['format'] != expfmt:
                            wrong = 'the graph is read as {} instead of {}'.format(self.world['format'], expfmt)
                        self.judge(R_RDF, construct, where, lab, got, want, wrong)
                except Exception as x:
                    why = reason(x)
                self.rep.ob('{} of {} {} {}'.format(construct, label, src, fmt), why is None, why)


def run(tier):
    return Check().run(tier)
