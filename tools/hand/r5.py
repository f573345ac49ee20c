R = {}
F='algebras/multiclans.py'
R[(F,'get_lefts')] = '''
def get_lefts(mclan: 'P(P(M x M) x N)', _checked=True) -> 'P( M )':
    if _checked:
        if not is_member(mclan):
            return _undef.make_or_raise_undef2(mclan)
    else:
        assert is_member_or_undef(mclan)
        if mclan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if mclan.is_empty:
        return mclan
    all_lefts = set()
    for rel in mclan.data:
        all_lefts.update(_relations.get_lefts(rel, _checked=False).data)
    left_set = _mo.Set(all_lefts, direct_load=True)
    if mclan.cached_is_absolute and not left_set.is_empty:
        left_set.cache_absolute(CacheStatus.IS)
    return left_set
'''
R[(F,'get_rights_for_left')] = '''
def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True) -> 'P(M x N)':
    if _checked:
        if not is_member(mclan):
            return _undef.make_or_raise_undef2(mclan)
        if left is _undef.Undef():
            return _mo.Set()
        left = _mo.auto_convert(left)
    else:
        assert is_member_or_undef(mclan)
        assert _mo.is_mathobject_or_undef(left)
        if mclan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
        if left is _undef.Undef():
            return _mo.Set()
    if mclan.is_empty:
        return mclan
    from collections import Counter
    counts = Counter()
    for rel in mclan:
        for right in _relations.get_rights_for_left(rel, left, _checked=False):
            counts[right] += 1
    rights = _mo.Multiset(counts, direct_load=True)
    if not rights.is_empty and mclan.cached_is_absolute:
        rights.cache_absolute(CacheStatus.IS)
    return rights
'''
R[(F,'is_regular')] = None
F='algebras/multisets.py'
R[(F,'Algebra.minus')] = '''
    @staticmethod
    def minus(multiset1: 'P( M x N )', multiset2: 'P( M x N )', _checked=True) -> 'P( M x N )':
        if _checked:
            for operand in (multiset1, multiset2):
                if not is_member(operand):
                    return _undef.make_or_raise_undef2(operand)
        else:
            assert is_member_or_undef(multiset1)
            assert is_member_or_undef(multiset2)
            if any(operand is _undef.Undef() for operand in (multiset1, multiset2)):
                return _undef.make_or_raise_undef(2)
        counts = {}
        for elem, multiplicity in multiset1.data.items():
            remaining = multiplicity - multiset2.data.get(elem, 0)
            if remaining > 0:
                counts[elem] = remaining
        result = _mo.Multiset(counts, direct_load=True)
        if result.is_empty or not multiset1.cached_is_multiclan:
            return result
        result.cache_multiclan(CacheStatus.IS)
        if multiset1.cached_is_absolute:
            result.cache_absolute(CacheStatus.IS)
        if multiset1.cached_is_functional:
            result.cache_functional(CacheStatus.IS)
        if multiset1.cached_is_right_functional:
            result.cache_right_functional(CacheStatus.IS)
        if multiset1.cached_is_regular:
            result.cache_regular(CacheStatus.IS)
        if multiset1.cached_is_right_regular:
            result.cache_right_regular(CacheStatus.IS)
        return result
'''
R[(F,'Algebra.is_subset_of')] = '''
    @staticmethod
    def is_subset_of(multiset1: 'P( M x N )', multiset2: 'P( M x N )', _checked=True) -> bool:
        if _checked:
            if not is_member(multiset1):
                return _undef.make_or_raise_undef2(multiset1)
            if not is_member(multiset2):
                return _undef.make_or_raise_undef2(multiset2)
        else:
            assert is_member_or_undef(multiset1)
            assert is_member_or_undef(multiset2)
            if multiset1 is _undef.Undef() or multiset2 is _undef.Undef():
                return _undef.make_or_raise_undef(2)
        counts2 = multiset2.data
        return all(count <= counts2.get(elem, 0) for elem, count in multiset1.data.items())
'''
R[(F,'Algebra.is_superset_of')] = '''
    @staticmethod
    def is_superset_of(multiset1: 'P( M x N )', multiset2: 'P( M x N )', _checked=True) -> bool:
        return Algebra.is_subset_of(multiset2, multiset1, _checked=_checked)
''' if 0 else None
R[(F,'is_absolute_member')] = '''
def is_absolute_member(obj: _mo.MathObject) -> bool:
    import algebraixlib.algebras.multiclans as _multiclans
    if not obj.is_multiset:
        return False
    if obj.cached_absolute == CacheStatus.UNKNOWN:
        if _multiclans.is_member(obj):
            return False
        status = CacheStatus.IS
        for elem in obj.data:
            if not elem.is_atom:
                status = CacheStatus.IS_NOT
                break
        obj.cache_absolute(status)
    if obj.cached_is_multiclan:
        return False
    return obj.cached_is_absolute
'''
F='util/rdf.py'
R[(F,'triple_match')] = '''
def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=None) -> 'PP(A x M)':
    assert is_graph(rdf_graph)
    terms = {'s': subject, 'p': predicate, 'o': object_}
    given = {left: term for left, term in terms.items() if term is not None}
    projection = {left: term for left, term in given.items() if _is_variable(term)}
    pattern = {left: term for left, term in given.items() if left not in projection}
    return match_and_project(rdf_graph, pattern, projection)


def _is_variable(term) -> bool:
    return isinstance(term, str) and term[:1] in ('?', '$')
'''
R[(F,'join')] = '''
def join(rdf_solution1, rdf_solution2, *rdf_solutions):
    import functools
    return functools.reduce(
        _clans.cross_functional_union, (rdf_solution2,) + rdf_solutions, rdf_solution1)
'''
R[(F,'_check_triple')] = '''
def _check_triple(obj: 'P(A x M)') -> bool:
    if not obj.is_set or obj.cardinality != 3:
        return False
    return obj.get_left_set() == _TRIPLE_LEFTS()


def _TRIPLE_LEFTS():
    return _mo.Set('s', 'p', 'o')
'''
R[(F,'match_and_project')] = '''
def match_and_project(graph: 'PP(A x A)', pattern: dict=None, projection: dict=None):
    assert _clans.is_member(graph)
    matches = pattern_match(graph, pattern or {})
    renames = _clans.from_dict(projection or {})
    return _clans.compose(matches, _clans.transpose(renames), _checked=False)
'''
F='util/html.py'
R[(F,'as_html_handle_data_algebra')] = '''
def as_html_handle_data_algebra(mathobj):
    def typeset(obj):
        return _html.escape(_latexprinter.math_object_to_latex(obj))

    if isinstance(mathobj, _mo.MathObject):
        return '$$' + typeset(mathobj) + '$$'
    if isinstance(mathobj, str) or not isinstance(mathobj, _collections.Iterable):
        return _html.escape(str(mathobj))
    parts = []
    for elem in mathobj:
        if isinstance(elem, _mo.MathObject):
            parts.append('$$\\\\(\\\\require{color}\\\\)\\\\(\\\\require{xcolor}\\\\)' + typeset(elem) + '$$ <br //>')
        else:
            parts.append(_html.escape(str(elem)) + '<br //>')
    return ''.join(parts)
'''
R[(F,'build_descriptors_from_math_obj')] = '''
def build_descriptors_from_math_obj(mathobjects):
    return [DataAlgebraHtmlDescriptor(str(obj), obj, 'No Description,') for obj in mathobjects]
'''
R={k:v for k,v in R.items() if v}
