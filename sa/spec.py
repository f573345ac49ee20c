"""Public operations of the algebras: operand sorts, result sort and witness valuations.

An operation that is listed here is summarised by its contract wherever it is *called*, and its own
body is checked against that contract.  Parameter names are read from the source; the sorts are by
position.
"""
import ast
import itertools
import os

from . import model as m
from .model import A, C, S, M, U


class OpSpec:
    def __init__(self, name, sorts, result, may_undef=True, inline=False):
        self.name, self.sorts, self.result = name, sorts, result
        self.may_undef, self.inline = may_undef, inline
        self.params = []
        self.has_checked = False
        self.vararg = None
        self.fi = None


TABLE = []


def op(prefix, names, sorts, result, may_undef=True, inline=False):
    for n in names.split():
        TABLE.append(OpSpec(prefix + n, sorts.split(), result, may_undef, inline))


AL = 'Algebra.'
op(m.SETS + AL, 'union intersect minus substrict superstrict', 'S S', 'Set')
op(m.SETS + AL, 'is_subset_of is_superset_of', 'S S', 'bool')
op(m.SETS, 'big_union big_intersect power_set power_up', 'S', 'Set')
op(m.SETS, 'single some', 'S', None)
op(m.SETS, 'multify', 'S', 'Multiset')
op(m.SETS, 'restrict', 'S F', 'Set')
op(m.COUPLETS + AL, 'transpose', 'CP', 'Couplet')
op(m.COUPLETS + AL, 'compose', 'CP CP', 'Couplet')
op(m.COUPLETS, 'is_reflexive', 'CP', 'bool')
op(m.RELS + AL, 'transpose', 'R', 'Set')
op(m.RELS + AL, 'compose functional_union right_functional_union', 'R R', 'Set')
op(m.RELS, 'get_lefts get_rights', 'R', 'Set')
op(m.RELS, 'get_rights_for_left defined_at', 'R X', 'Set')
op(m.RELS, 'get_right get_left', 'R X', None)
op(m.RELS, 'is_functional is_right_functional is_reflexive is_symmetric is_transitive', 'R', 'bool')
op(m.RELS, 'fill_lefts rename swap', 'R R', 'Set')
op(m.RELS, 'functional_add', 'R CP', 'Set')
op(m.RELS, 'from_dict', 'D', 'Set')
op(m.RELS, 'diag', 'X*', 'Set')
op(m.CLANS + AL, 'transpose', 'C', 'Set')
op(m.CLANS + AL, 'compose cross_union cross_functional_union cross_right_functional_union '
   'lhs_cross_functional_union cross_intersect substrict superstrict', 'C C', 'Set')
op(m.CLANS, 'get_lefts get_rights', 'C', 'Set')
op(m.CLANS, 'is_functional is_right_functional is_reflexive is_symmetric is_transitive is_regular '
   'is_right_regular', 'C', 'bool')
op(m.CLANS, 'project', 'C X*', 'Set')
op(m.CLANS, 'from_set', 'X X*', 'Set')
op(m.CLANS, 'from_dict', 'D', 'Set')
op(m.CLANS, 'diag', 'X*', 'Set')
op(m.CLANS, 'defined_at', 'C X', 'Set')
op(m.MSETS + AL, 'union intersect minus add substrict superstrict', 'M M', 'Multiset')
op(m.MSETS + AL, 'is_subset_of is_superset_of', 'M M', 'bool')
op(m.MSETS, 'demultify', 'M', 'Set')
op(m.MSETS, 'big_union big_intersect', 'SM', None)
op(m.MSETS, 'single some', 'M', None)
op(m.MCLANS + AL, 'transpose', 'MC', 'Multiset')
op(m.MCLANS + AL, 'compose cross_union cross_functional_union cross_right_functional_union '
   'cross_intersect substrict superstrict', 'MC MC', 'Multiset')
op(m.MCLANS, 'get_lefts get_rights', 'MC', None)
op(m.MCLANS, 'get_rights_for_left', 'MC X', None)
op(m.MCLANS, 'is_functional is_right_functional is_reflexive is_symmetric is_transitive is_regular '
   'is_right_regular', 'MC', 'bool')
op(m.MCLANS, 'project', 'MC X*', 'Multiset')
op(m.MCLANS, 'from_dict', 'D', 'Multiset')
op(m.MCLANS, 'diag', 'X*', 'Multiset')
op(m.MCLANS, 'defined_at', 'MC X', 'Multiset')
op(m.PROPS_, 'is_functional is_right_functional is_reflexive is_symmetric is_transitive is_regular '
   'is_right_regular is_bijective is_equivalence_relation', 'MO', 'bool')
for _m, _s in ((m.RELS, 'is_member'), (m.CLANS, 'is_member'), (m.MCLANS, 'is_member')):
    op(_m, _s, 'MO', 'bool', may_undef=False)
for _m in (m.SETS, m.COUPLETS, m.MSETS):
    op(_m, 'is_member', 'MO', 'bool', may_undef=False, inline=True)
for _m in (m.SETS, m.COUPLETS, m.RELS, m.CLANS, m.MSETS, m.MCLANS):
    op(_m, 'is_member_or_undef', 'MO', 'bool', may_undef=False, inline=True)
    op(_m, 'is_absolute_member', 'MO', 'bool', may_undef=False, inline=True)

op(m.EXT, 'binary_extend', 'S. S. G', 'Set', inline=True)
op(m.EXT, 'binary_multi_extend', 'M. M. G', 'Multiset', inline=True)
op(m.EXT, 'unary_extend', 'S. G', 'Set', inline=True)
op(m.EXT, 'unary_multi_extend', 'SM. G', 'Multiset', inline=True)
for _raw, _f in (('', 'G1'), ('#raw', 'F1')):
    op(m.PART, 'partition%s make_labeled_partition%s' % (_raw, _raw), 'SM. ' + _f, 'Set', inline=True)

#   the operations that take values for mathematical objects convert plain ones
for _n, _s, _r in (('relations.get_rights_for_left relations.defined_at', 'R V', 'Set'),
                   ('relations.get_right relations.get_left', 'R V', None), ('relations.diag clans.diag', 'V*', 'Set'),
                   ('clans.project', 'C V*', 'Set'), ('clans.from_set', 'V V*', 'Set'), ('clans.defined_at', 'C V', 'Set'),
                   ('multiclans.get_rights_for_left', 'MC V', None), ('multiclans.project', 'MC V*', 'Multiset'),
                   ('multiclans.diag', 'V*', 'Multiset'), ('multiclans.defined_at', 'MC V', 'Multiset')):
    for _q in _n.split():
        op('algebras.', _q + '#raw', _s, _r, inline=True)

op(m.RDF, 'is_triple is_absolute_triple is_graph is_absolute_graph', 'RDF', 'bool', may_undef=False, inline=True)
op(m.RDF, 'make_triple', 'X X X', 'Set', may_undef=False, inline=True)
op(m.RDF, 'pattern_match', 'C D', 'Set')
op(m.RDF, 'match_and_project', 'C D D', 'Set')
op(m.RDF, 'match_and_project#all', 'C =None D', 'Set', inline=True)
for _k, _t in enumerate(("='?s' X X", "='?s' ='$p' X", 'X ="?p" ="?o"', '=None ="?p" X', '="?x" X =None', '="?s" ="?p" ="?o"',
                         'X X X', '=None =None =None', "='?s' =None ='b'", "='?s' =None =''", "=1 ='?p' =None", "='a?' ='?' =2")):
    op(m.RDF, 'triple_match#%d' % _k, 'GR ' + _t, 'Set', inline=True)
op(m.RDF, 'join', 'C C C*', 'Set', inline=True)

MEMBERS = {
    'S.': m.is_set, 'M.': m.is_mset, 'SM.': lambda v: m.is_set(v) or m.is_mset(v),
    'S': m.is_set, 'R': m.is_rel, 'C': m.is_clan, 'M': m.is_mset, 'MC': m.is_mclan,
    'CP': m.is_couplet, 'SM': m.is_set,
}
SINGLE = {'S': m.SET_U, 'R': m.REL_U, 'C': m.CLAN_U, 'M': m.MSET_U, 'MC': m.MCLAN_U,
          'CP': m.COUPLET_U, 'MO': m.MO_U}
SM_U = [S(), S(M({m.a1: 1})), S(M({})), S(M({m.a1: 2}), M({m.a1: 1, m.a2: 3})), S(M({m.a1: 2}), M({m.a2: 1})),
        S(M({S(m.c11): 1}), M({S(m.c12): 2})), S(M({S(m.c11): 2})), S(M({S(m.c11): 1}), M({})),
        S(M({m.c11: 1}), M({m.c11: 2, m.c12: 1})), S(M({S(m.c11): 1}), M({S(m.c11): 3, S(m.c12): 1})),
        S(M({m.a1: 1}), M({m.a1: 2}), M({m.a1: 3, m.a2: 1})),
        S(M({S(m.cN): 1}), M({S(m.cN): 1, S(m.c11): 1})),
        S(M({S(m.c11): 1}), M({S(m.c12): 1})), S(M({S(m.c11): 1}), M({S(m.c21): 1})),
        S(m.a1), S(m.a1, M({m.a1: 1})), S(S(m.a1), M({m.a1: 1})), S(m.c11), S(S(m.c11))]
SINGLE['SM'] = SM_U
SINGLE['S.'] = [S(), S(m.a1), S(m.a1, m.a2), S(m.a2, m.a3), S(m.c11, m.a1), S(m.c12, m.c21), S(S(m.c11), S(m.c12)), S(S()),
                S(S(m.c11), S(m.c11, m.c12), S()), S(m.a1, S(m.a1)), S(M({m.a1: 2}))]
SINGLE['M.'] = [M({}), M({m.a1: 1}), M({m.a1: 2}), M({m.a1: 2, m.a2: 3}), M({m.a2: 1, m.a3: 4}), M({m.c11: 2, m.c12: 1}),
                M({S(m.c11): 1, S(m.c12): 5}), M({S(m.c11): 2, S(m.c11, m.c12): 1, S(): 3}), M({S(): 2}),
                M({m.c12: 2, m.c21: 2, m.a1: 1})]
SINGLE['SM.'] = SINGLE['S.'] + SINGLE['M.']
PAIR = {'S': m.SET_PAIR, 'R': m.REL_U, 'C': m.CLAN_PAIR, 'M': m.MSET_U, 'MC': m.MCLAN_U,
        'CP': m.COUPLET_U}
XS = [m.a1, m.a2, S(m.a1), m.c11]
XSTAR = [(), (m.a1,), (m.a1, m.a2), (m.a1, m.a1), (S(m.a1),), (m.a1, S(m.a1), m.a2), (m.a3,),
         (m.c12, m.a1), (m.a2, m.a1)]
RAW = [1, 2, 'x']
RAWSTAR = [(), (1,), (1, 2), (1, 1), (2, 'x', 1), (7,)]
XSTAR_U = [(U,), (m.a1, U), (U, m.a1)]
CSTAR = [(), (m.CLAN_PAIR[3],), (m.CLAN_PAIR[5], m.CLAN_PAIR[2])]
DICTS = [(), ((m.a1, m.a2),), ((m.a1, m.a1), (m.a2, m.a1)), ((m.a1, m.a2), (m.a2, m.a1)),
         ((m.a1, S(m.a1)),), ((S(m.a1), m.a1), (m.a1, m.a1)), ((m.a1, m.a1),),
         ((m.a1, m.a1), (m.a2, m.a2)), ((m.a1, m.a2), (m.a2, m.a3), (m.a3, m.a3)),
         ((m.a1, m.c11), (m.a2, S(m.c11)))]
FNS = [lambda x: True, lambda x: False, lambda x: x[0] == 'a', lambda x: x[0] == 'c',
       lambda x: x in (m.a1, m.c11, S(m.c11)), lambda x: x == S(m.c12) or x == m.c12]


def _both(a, b=None):
    return S(*(a[1] | b[1])) if b and m.is_set(a) and m.is_set(b) else m.U


#   the functions that the extension operations apply to elements (of one or two operands)
GNS = [lambda x, y=None: x, lambda x, y=None: m.a1, lambda x, y=None: m.U,
       lambda x, y=None: x if x[0] == 'c' and x != m.c12 else m.U, lambda x, y=None: S(x) if y is None else C(x, y),
       lambda x, y=None: m.U if x == m.a1 else y or x, lambda x, y=None: S() if x == y or y is None else m.U,
       _both, lambda x, y=None: S() if x[0] == 's' else x]
#   the functions that partition a set or multiset (with mathematical objects or plain values as results)
G1S = [lambda x: m.a1, lambda x: x, lambda x: m.a1 if x[0] == 'a' else m.a2, lambda x: S(m.a1) if x == m.a1 else x,
       lambda x: x[1] if x[0] == 'c' else S(), lambda x: S(x)]
F1S = [lambda x: 7, lambda x: 'kind ' + x[0], lambda x: 1 if x in (m.a1, m.c12, S(m.c11)) else 'x', lambda x: len(x)]
NONMEM = m.NONMEMBER_U


_extra = None


def extra(sort):
    """Further operand pairs (tools/witness.py)."""
    global _extra
    if _extra is None:
        _extra = {}
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'witness.txt')) as fh:
            for line in fh:
                so, a, b = line.rstrip('\n').split('\t')
                _extra.setdefault(so, []).append((eval(a), eval(b)))
    return _extra.get(sort, [])


def raw(spec):
    return 'V' in spec.sorts or 'V*' in spec.sorts


def members(sort, pair):
    if sort[0] == '=':
        return [ast.literal_eval(sort[1:])]
    if sort in SINGLE:
        return PAIR[sort] if pair and sort in PAIR else SINGLE[sort]
    return {'V': RAW, 'V*': RAWSTAR, 'X': XS, 'X*': XSTAR, 'D': DICTS, 'F': FNS, 'G': GNS, 'G1': G1S, 'F1': F1S, 'GR': m.GRAPH_U, 'RDF': m.RDF_MO + m.MO_U, 'C*': CSTAR}[sort]


def singles(sort):
    out = list(dict.fromkeys(x for p in extra(sort) for x in p))
    if sort in ('S', 'R'):
        out += [x for x in singles('C') if MEMBERS[sort](x)] if sort == 'S' else m.REL_SMALL
    return out


def valuations(spec, checked=True, big=False):
    """Operand tuples: all members, plus one or more undefined operands, plus (when the operation
    checks its operands) non-members in each position."""
    pair = len(spec.sorts) > 1
    doms = [members(s, pair) for s in spec.sorts]
    out = list(itertools.product(*doms))
    if len(spec.sorts) == 2 and spec.sorts[0] == spec.sorts[1]:
        out += extra(spec.sorts[0])
    elif len(spec.sorts) == 1 and spec.sorts[0] in MEMBERS:
        out += [(x,) for x in singles(spec.sorts[0])]
    if big and len(spec.sorts) == 2 and spec.sorts[0] == spec.sorts[1]:
        dom = singles(spec.sorts[0])[::3] + doms[0][:12]
        out += list(itertools.product(dom, dom))
    few = [d[:6] for d in doms]
    for i, s in enumerate(spec.sorts):
        bad = []
        if s in MEMBERS:
            bad = [U]
            if checked:
                bad += [x for x in NONMEM if not MEMBERS[s](x)]
        elif s == 'X' and 'get_' not in spec.name and not spec.name.startswith(m.RDF) or s == 'MO':
            bad = [U] if spec.name != m.CLANS + 'from_set' else []
        elif s == 'X*' and checked and not spec.name.endswith('from_set'):
            bad = XSTAR_U
        if s == 'X' and 'get_' in spec.name:
            bad = [U]
        for x in bad:
            for rest in itertools.product(*(few[:i] + [[x]] + few[i + 1:])):
                out.append(rest)
    if pair and all(s in MEMBERS for s in spec.sorts):
        out.append((U,) * len(spec.sorts))
    return out
