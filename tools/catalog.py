"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py  rewrites both."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
A = 'algebraixlib/algebras/'
ALG = [A + x for x in ('sets.py', 'couplets.py', 'relations.py', 'clans.py', 'multisets.py', 'multiclans.py')]
MO = 'algebraixlib/mathobjects/'
MOS = [MO + x for x in ('mathobject.py', '_flags.py', 'atom.py', 'couplet.py', 'set.py', 'multiset.py')]

P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({'observe_at': observe} if observe else {}),
                               hook_needed=None)))


SAMPLES = 'The tests evaluate a few fixed operands (basic_sets, some lists) per operation; the statement is about every operand.'

prop('C01', 'Property statuses recorded on results are always true',
     'Whenever an operation remembers on an object that a property (relation, clan, multiclan, absolute, '
     'functional, right-functional, reflexive, symmetric, transitive, regular, right-regular) holds, does not hold '
     'or does not apply, then that is the truth about that object. This is so whatever statuses were known about '
     'the operands beforehand.',
     ['inputs', 'histories'], 'all operands of every algebra operation and every combination of statuses already known about them',
     'Tests compute statuses from fresh objects for a few operands; a wrong status only shows when it is derived from what is known '
     'about the operands by an earlier call and read by a later one.',
     ALG + [A + 'properties.py', 'algebraixlib/extension.py', 'algebraixlib/partition.py'] + MOS,
     [('status derivation in result construction', ALG[2] + ' (and the other algebra modules), calls of cache_* on results'),
      ('predicates that remember their answer', A + 'properties.py, is_* functions of the algebra modules')],
     [('per-object property flags', 'remembered status per property: unknown, holds, does not hold, not applicable', MO + '_flags.py')],
     ['is_* predicates', 'cached_* accessors'])
prop('C02', 'Property predicates give the mathematically correct answer',
     'The predicates functional, right-functional, reflexive, symmetric, transitive, regular, right-regular, bijective '
     'and equivalence relation return true exactly when the operand has the property by its mathematical definition and '
     'false when it does not; the generic versions return the undefined value where the property does not apply. The answer '
     'does not depend on what is already remembered about the operand.',
     ['inputs', 'histories'], 'all couplets, relations, clans, multiclans and higher sets, with and without remembered statuses',
     SAMPLES, [A + 'properties.py', A + 'couplets.py', A + 'relations.py', A + 'clans.py', A + 'multiclans.py'],
     [('is_* predicates', 'algebraixlib/algebras/*.py')])
prop('C03', 'Membership tests of the algebras are exact',
     'The membership test of each algebra (sets, couplets, relations, clans, multisets, multiclans) accepts exactly the '
     'objects of that algebra, including the empty ones. The "or undefined" variant additionally accepts exactly the '
     'undefined value, and the "absolute" variant accepts exactly the members that are built directly from atoms.',
     ['inputs', 'histories'], 'all mathematical objects, with and without remembered statuses', SAMPLES, ALG,
     [('is_member, is_member_or_undef, is_absolute_member', 'each module in algebraixlib/algebras')])
prop('C04', 'Operands of the wrong type give the undefined value',
     'Every algebra operation called in its default, checked mode with an operand that is not a member of its algebra yields '
     'the undefined value (or the configured error), not a wrong result and not some other exception.',
     ['inputs'], 'all non-member operands in every operand position of every operation',
     'The tests pass one or two wrong operands to some operations.', ALG + [A + 'properties.py'],
     [('_checked operand tests', 'each operation in algebraixlib/algebras')])
prop('C05', 'Undefined operands propagate as specified',
     'An algebra operation of which an operand is the undefined value yields the undefined value (or the configured error), except '
     'that looking up the rights for an undefined left gives the empty set, in checked and unchecked mode alike. No other exception escapes.',
     ['inputs'], 'the undefined value in every operand position, checked and unchecked calls',
     'The tests pass the undefined value to few operations and rarely in unchecked mode.', ALG + [A + 'properties.py'],
     [('undefined-operand tests', 'each operation in algebraixlib/algebras')])
prop('C06', 'The undefined value never becomes part of an object',
     'No operation ever puts the undefined value into a set or multiset as an element, into a couplet as a component or into an '
     'atom as its value.', ['inputs'], 'all operands for which some partial result is undefined',
     'Only particular combinations of operands make a partial result undefined.', ALG + ['algebraixlib/extension.py'],
     [('filters of undefined partial results', 'algebraixlib/extension.py, comprehensions in algebraixlib/algebras')])
prop('C07', 'Objects and containers of the caller never change',
     'No operation, method, operator, import, export or printing function changes the value of an existing mathematical object (its elements, multiplicities or '
     'components) or a list, dictionary, set or counter that the caller passed in. A new object copies the container it is made from, so later changes of that '
     'container do not reach it, and does not share its status record with other objects. Only property statuses and lookup caches are added to existing objects.',
     ['inputs', 'histories'], 'all operands and arguments, all call sequences',
     'Tests look at results; a changed operand shows only when it is used again later, often elsewhere.',
     ALG + MOS + ['algebraixlib/extension.py', 'algebraixlib/partition.py', 'algebraixlib/structure.py', 'algebraixlib/import_export/csv.py', 'algebraixlib/util/rdf.py'],
     [('__init__, data', 'mathobjects/multiset.py, set.py'), ('all public functions', 'algebraixlib/')])
prop('C08', 'Set operations compute their mathematical result',
     'Union, intersection, difference, sub- and superset tests, substriction, superstriction, big union and intersection, power set, '
     'power-up, restriction, single element, arbitrary element and conversion to a multiset return exactly the mathematically defined value '
     'for all sets, and the undefined value exactly where the operation is undefined.',
     ['inputs', 'histories'], 'all pairs of sets, whatever is remembered about them', SAMPLES, [A + 'sets.py'],
     [('sets algebra', A + 'sets.py')])
prop('C09', 'Multiset operations compute their mathematical result',
     'Union takes the maximum, intersection the minimum, addition the sum and difference the truncated difference of multiplicities; the comparisons and '
     'restrictions of multisets compare multiplicities; big union and intersection, single and arbitrary element and conversion to a set follow from these. The result is exact for all multisets, '
     'and undefined exactly where the operation is undefined.',
     ['inputs', 'histories'], 'all pairs of multisets, whatever is remembered about them', SAMPLES, [A + 'multisets.py'],
     [('multisets algebra', A + 'multisets.py')])
prop('C10', 'Relation and couplet operations compute their mathematical result',
     'Transposition, composition, functional and right-functional union, left and right sets, lookups of lefts and rights, filling, renaming, '
     'swapping, functional addition, diagonals and conversion from a dictionary return exactly the mathematically defined couplet, relation, '
     'set or element for all couplets and relations, and the undefined value exactly where the operation is undefined.',
     ['inputs', 'histories'], 'all couplets and relations, whatever is remembered about them', SAMPLES,
     [A + 'couplets.py', A + 'relations.py'], [('couplets and relations algebras', A + 'couplets.py, ' + A + 'relations.py')])
prop('C11', 'Clan operations compute their mathematical result',
     'The element-wise and crossed operations of the algebra of clans (transposition, composition, the cross unions and intersection, sub- and '
     'superstriction), left and right sets, projection, diagonals and conversions return exactly the set of defined relation-level results '
     'for all clans, and the undefined value exactly where the operation is undefined.',
     ['inputs', 'histories'], 'all pairs of clans, whatever is remembered about them', SAMPLES,
     [A + 'clans.py', 'algebraixlib/extension.py'], [('clans algebra', A + 'clans.py'), ('extension', 'algebraixlib/extension.py')])
prop('C12', 'Multiclan operations compute their mathematical result',
     'The operations of the algebra of multiclans return exactly the mathematically defined relations with exactly the right multiplicities: '
     'crossed operations multiply the multiplicities of the operands, element-wise ones keep them and add them up where results coincide. They '
     'return the undefined value exactly where the operation is undefined.',
     ['inputs', 'histories'], 'all pairs of multiclans, whatever is remembered about them', SAMPLES,
     [A + 'multiclans.py', 'algebraixlib/extension.py'], [('multiclans algebra', A + 'multiclans.py'), ('extension', 'algebraixlib/extension.py')])
prop('C13', 'Internal calls skip operand checks only for valid operands',
     'Where the library calls one of its own operations with the operand checks switched off, the operands are always members of the algebra of the '
     'called operation (or the undefined value).',
     ['inputs', 'programs'], 'all operands of the public operation and all internal unchecked calls reachable from it',
     'Wrong operands of an unchecked internal call only occur for unusual operands of the outer call.', ALG + ['algebraixlib/extension.py'],
     [('_checked=False calls', 'algebraixlib/algebras, algebraixlib/extension.py')])
prop('C14', 'Extending an operation to sets and multisets loses and invents nothing',
     'The extension of a unary or binary operation consists of exactly the defined results of the operation at all elements (or all pairs of elements) of the operands: '
     'undefined results are left out, equal results are merged in a set and add up their multiplicities in a multiset, where a pair counts as often as the product of '
     'the multiplicities. A non-member or undefined operand gives the undefined value.',
     ['inputs', 'programs'], 'all sets and multisets and all operations, with any pattern of undefined and coinciding results',
     'The tests extend a few operations of the library, whose results seldom coincide or are undefined.', ['algebraixlib/extension.py'],
     [('unary_extend, binary_extend, unary_multi_extend, binary_multi_extend', 'algebraixlib/extension.py')])
prop('C15', 'A partition splits its operand exactly along the classifying function',
     'The partition of a set or multiset along a function contains exactly one part per value of the function; each part holds exactly the elements with that value, every '
     'one with its full multiplicity, so that the parts are disjoint and together make up the operand. The labeled partition maps each part to its value. Property '
     'statuses remembered on the parts and on the result are true of them.',
     ['inputs', 'programs'], 'all sets and multisets and all classifying functions to values of any type',
     'The tests partition a few collections of atoms with functions that seldom give one value to several elements.', ['algebraixlib/partition.py'],
     [('partition, make_labeled_partition', 'algebraixlib/partition.py')])
prop('C24', 'Files are closed exactly by whom they were opened',
     'A file that a function of the library opens is closed when the function returns and when it is left by any exception, and is neither read nor written '
     'after it was closed, lazily included. A file object that the caller passes in to an import or export function is left open.',
     ['inputs', 'programs', 'fault_sequences'], 'all imports, exports and other functions that open files, all files (malformed ones, disk errors) and all exceptions on the way',
     'The tests import and export well-formed data and never look at the file afterwards.',
     ['algebraixlib/import_export/csv.py', 'algebraixlib/import_export/json.py', 'algebraixlib/import_export/xml.py', 'algebraixlib/import_export/rdf.py',
      'algebraixlib/util/miscellaneous.py'],
     [('import_csv, export_csv', 'algebraixlib/import_export/csv.py'), ('import_json', 'algebraixlib/import_export/json.py'),
      ('import_xml, xml_to_str', 'algebraixlib/import_export/xml.py'), ('write_to_file_or_path', 'algebraixlib/util/miscellaneous.py')])
prop('C23', 'Objects survive the JSON round trip',
     'Decoding with import_export.mojson what was encoded with it gives an object equal to the original and of the same type, for all algebraic objects and for atom '
     'values of the supported Python types (text, numbers, truth values, None, bytes, complex, range, tuple, list, frozenset), arbitrarily nested, with the '
     'multiplicities of multisets, the order of couplets and the distinction between tuples, lists and sets kept; dictionaries that are no encoded object stay as they are.',
     ['inputs', 'programs'], 'all supported objects of any nesting',
     'The tests transport one object of each kind.', ['algebraixlib/import_export/mojson.py'],
     [('encode, decode, ExportJson, ImportJson', 'algebraixlib/import_export/mojson.py')])
prop('C25', 'Structures are ordered by inclusion',
     'Ground-set structures describe sets: is_subset and <= hold exactly when every part of one structure is included in a part of the other (component-wise for '
     'cartesian products, member-wise for unions, level-wise for power sets, everything in the set of all objects), == holds exactly when both include each other, '
     'agrees with != and with the hash, a union keeps only its largest members in any order and nesting of construction, get_powerset_level counts the power sets '
     'that lead to the given structure, and the ground set of an object is built from the ground sets of its parts.',
     ['inputs'], 'all structures built from the basic ones, of any nesting, and the ground sets of all objects',
     'The tests compare a handful of structures.', ['algebraixlib/structure.py', 'algebraixlib/mathobjects'],
     [('Structure, BasicSet, CartesianProduct, Union, PowerSet', 'algebraixlib/structure.py'), ('get_ground_set', 'algebraixlib/mathobjects')])
prop('C21', 'Imported objects contain exactly the data of the file',
     'import_csv gives one relation per row with one couplet per cell that is not blank, converted by the given types, as a clan or (with duplicates or an index column) as '
     'asked for, and says so truthfully; import_json gives one couplet per member of the document with relations for its objects and distinguishable list elements; import_xml one couplet per '
     'element, attribute and text, repeated ones included; import_graph one triple per statement with typed literals, and references in place of blank nodes. Files are read '
     'as UTF-8 whatever the locale, from paths and from file objects alike, and nothing is dropped, invented or merged.',
     ['inputs', 'configurations'], 'all files the formats allow for, of any size and nesting, and all options of the importers',
     'The tests import a few sample files.', ['algebraixlib/import_export'],
     [('import_csv', 'algebraixlib/import_export/csv.py'), ('import_json', 'algebraixlib/import_export/json.py'), ('import_xml, xml_to_str', 'algebraixlib/import_export/xml.py'),
      ('import_graph', 'algebraixlib/import_export/rdf.py')])
prop('C26', 'Exported text carries exactly the data, and data is never taken for markup',
     'export_csv writes a header and one row per relation (as often as it occurs) with its values under their names, in any column order, with the given substitutions; export_table writes a '
     'well-formed CSV or JSON table for every set of relations, the empty one and one with missing values included; the HTML pages contain every text once and escaped once. '
     'Files are written as UTF-8 whatever the locale.',
     ['inputs', 'configurations'], 'all clans and multiclans, of any size, with any texts, and all options of the exporters',
     'The tests export a few tables of plain words.', ['algebraixlib/import_export', 'algebraixlib/util'],
     [('export_csv', 'algebraixlib/import_export/csv.py'), ('export_table', 'algebraixlib/import_export/rdf.py'), ('math_object_as_html, as_html_*', 'algebraixlib/util/html.py')])
prop('C27', 'The LaTeX and readable text of an object shows all of it, always in the same way',
     'The LaTeX text of an object contains the text of every part once, in order of the elements, couplets with left and right told apart, multisets with every '
     'multiplicity; delimiters are balanced; it does not depend on the iteration order. The short text shows the first elements, and an ellipsis with the true number of elements '
     'exactly if some are missing.',
     ['inputs', 'schedules'], 'all objects of any nesting and size, and all iteration orders of hashed collections',
     'The tests print a few small objects in one iteration order.', ['algebraixlib/util'],
     [('math_object_to_latex and its helpers', 'algebraixlib/util/latexprinter.py'), ('mo_to_str', 'algebraixlib/util/mathobjectprinter.py')])
prop('C28', 'Results do not depend on what was called before',
     'Every operation, method, importer and exporter gives the same result for the same arguments whatever was computed before, with equal or other arguments, in success or '
     'failure: nothing is carried from call to call but documented settings (the raise level, the printing options), which only their own methods change.',
     ['inputs', 'histories'], 'all sequences of calls of the library',
     'Each test starts from the same state and makes few calls.', ['algebraixlib'],
     [('get_left_cached, import_csv.regular', 'algebraixlib/import_export'), ('RaiseOnUndef', 'algebraixlib/undef.py'), ('on-demand imports', 'algebraixlib/mathobjects')])
prop('C29', 'A slice of an ordered multiclan holds exactly the relations asked for',
     'order_slice and order_slice_to_listgen give exactly the relations at the positions offset <= index < offset + limit of the multiclan sorted by the given '
     'comparison, each with the multiplicity that falls into the slice, in that order and whatever the order in which the multiclan is visited; multiclan_to_listgen gives '
     'as many relations as are asked for and there. A limit of infinity gives all the rest, a limit of zero nothing; positions may be integers or atoms of integers, '
     'anything else and anything that is no multiclan gives Undef.',
     ['inputs', 'schedules'], 'all multiclans, comparisons, offsets and limits',
     'No test calls these functions; the boundaries of a slice meet the multiplicities in many ways.', ['algebraixlib/algebras/multiclans.py'],
     [('order_slice, order_slice_to_listgen, multiclan_to_listgen', 'algebraixlib/algebras/multiclans.py')])
prop('C30', 'RDF triples, graphs and graph patterns mean what they say',
     'A triple is a relation with exactly the lefts s, p and o, a graph a clan of triples, an absolute one has only atoms for its components. make_triple gives '
     'the triple of its arguments. Matching a pattern against a graph gives exactly the triples that contain the whole pattern, projected to the requested '
     'lefts; triple_match binds each variable to the part of each triple that agrees with every value given, an empty or false value included, and join '
     'combines exactly the solutions that agree on the variables they share.',
     ['inputs', 'programs'], 'all graphs, patterns, values to match and selections of variables',
     'The tests match a few patterns of non-empty strings against one graph.', ['algebraixlib/util/rdf.py'],
     [('triple_match, pattern_match, match_and_project, join, make_triple, is_triple, is_graph', 'algebraixlib/util/rdf.py')])
prop('C20', 'Undefined results respect the configured raise level',
     'An operation whose result is undefined because an operand has the wrong type is reported as an error of the first level, one that is '
     'undefined because of an undefined operand or partial result at most as the second level. No undefined result bypasses the configured raise level.',
     ['inputs', 'configurations'], 'all operands with an undefined result, all raise levels',
     'The tests run with one configured raise level.', ALG + ['algebraixlib/undef.py'],
     [('make_or_raise_undef', 'algebraixlib/undef.py and its calls')])
prop('C16', 'Equality, hash and order of objects are consistent',
     'Two mathematical objects are equal exactly when they are of the same kind and have the same value, components, elements and multiplicities '
     '(atoms: same type and value). Equal objects have the same hash, whatever the order in which their elements were given and '
     'whatever was computed on them before. "<" is a strict total order on all objects (irreflexive, asymmetric, transitive, and one of two different objects is '
     'less), and the other comparison operators agree with it, so that sorting gives one result for equal collections.',
     ['inputs', 'histories'], 'all pairs and triples of mathematical objects, all construction orders, first and later calls',
     'Tests compare a few pairs; a violated law needs particular triples or an unlucky iteration order.', MOS,
     [('__eq__, __ne__, __hash__, __lt__', 'mathobjects/atom.py, couplet.py, set.py, multiset.py'), ('get_hash', 'algebraixlib/util/miscellaneous.py')])
prop('C17', 'New objects and status accessors tell the truth',
     'A newly constructed object starts with true property statuses only (known or unknown). The accessors cached_X, cached_is_X and cached_is_not_X report exactly the '
     'status that is remembered, and cache_X remembers the given true status, returns the object, keeps what was known, records only true statuses of related '
     'properties and never replaces a known status by a different one. The kind tests (is_atom, is_couplet, is_set, is_multiset) are exact, and the undefined value '
     'claims no property.',
     ['inputs', 'histories'], 'all objects, all combinations of remembered statuses, all arguments of the setters',
     'Tests check the statuses of some fresh objects; wrong implications of a setter only show in particular combinations of statuses.',
     MOS + ['algebraixlib/undef.py'],
     [('cached_*, cache_*', MO + 'mathobject.py'), ('bit fields', MO + '_flags.py'), ('_init_cache*', 'constructors in algebraixlib/mathobjects')],
     [('per-object property flags', 'remembered status per property', MO + '_flags.py')])
prop('C18', 'Constructors and container methods represent the given elements',
     'A set, multiset, couplet or atom holds exactly the elements (with multiplicities), components or value given to its constructor, in every supported '
     'form of arguments (none, one, several, an iterable, a mapping of multiplicities, raw values that become atoms, with and without direct loading). Size, emptiness, membership, '
     'iteration, multiplicity and the component accessors report exactly that content.',
     ['inputs'], 'all argument forms of the constructors and all contents', 'The tests construct a few objects of each kind.', MOS,
     [('__init__', 'algebraixlib/mathobjects'), ('cardinality, __len__, __iter__, __contains__, has_element, get_multiplicity', 'algebraixlib/mathobjects/set.py, multiset.py')])
prop('C19', 'Lookups by left component give the associated right components',
     'obj(left) is the single right component associated with left where there is exactly one (and undefined otherwise); obj[left] is the collection of '
     'all of them; get_left_set and get_right_set collect all left and all right components. The result does not depend on earlier lookups on '
     'the same object or on what is remembered about it.',
     ['inputs', 'histories'], 'all objects, all arguments (objects and raw values), first and later calls',
     'The tests look up a few values, once per object.', MOS + [ALG[2], ALG[3], ALG[5]],
     [('__call__, __getitem__, get_left_set, get_right_set', 'algebraixlib/mathobjects'), ('get_right, get_rights_for_left', 'algebraixlib/algebras/relations.py, clans.py, multiclans.py')])
prop('C22', 'Text representations are faithful and deterministic',
     'repr of a mathematical object is code that denotes the same object; str contains the text of every part. Equal objects have the same text, in whatever order '
     'their elements are visited.',
     ['inputs', 'schedules'], 'all objects and all iteration orders of their elements',
     'A test sees one iteration order and a few objects.', MOS[2:],
     [('__repr__, __str__', 'algebraixlib/mathobjects/atom.py, couplet.py, set.py, multiset.py')])

NOT_APPLICABLE = []


def main():
    from sa import props
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(p) + '\n')
    checks = []
    na = {x[0] for x in NOT_APPLICABLE}
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in na:
            continue
        c = props.PROPS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py {} --tier quick'.format(p['id']),
                           thorough_cmd='python3 check.py {} --tier thorough'.format(p['id']),
                           evidence_file='evidence/{}.json'.format(p['id']), technique=c.technique, level='other',
                           level_note=c.note))
    mf = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
              not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(mf, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
