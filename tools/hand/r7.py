R = {}
F='algebras/relations.py'
R[(F,'is_functional')] = '''
def is_functional(rel, _checked=True) -> bool:
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel)
        if rel is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if rel.cached_functional == CacheStatus.UNKNOWN:
        seen = set()
        functional = True
        for couplet in rel:
            if couplet.left in seen:
                functional = False
                break
            seen.add(couplet.left)
        rel.cache_functional(CacheStatus.from_bool(functional))
    return rel.cached_is_functional
'''
R[(F,'is_right_functional')] = '''
def is_right_functional(rel, _checked=True) -> bool:
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel)
        if rel is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if rel.cached_right_functional == CacheStatus.UNKNOWN:
        rel.cache_right_functional(CacheStatus.from_bool(
            len({couplet.right for couplet in rel}) == len(rel.data)))
    return rel.cached_is_right_functional
'''
R[(F,'is_symmetric')] = '''
def is_symmetric(rel, _checked=True) -> bool:
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel)
        if rel is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if rel.cached_symmetric == CacheStatus.UNKNOWN:
        symmetric = transpose(rel, _checked=False) == rel
        rel.cache_symmetric(CacheStatus.from_bool(symmetric))
    return rel.cached_symmetric == CacheStatus.IS
'''
R[(F,'is_transitive')] = '''
def is_transitive(rel, _checked=True) -> bool:
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel)
        if rel is _undef.Undef():
            return _undef.make_or_raise_undef(2)

    def all_chains_closed():
        for first, second in itertools.product(rel, repeat=2):
            if first.left == second.right:
                if not rel.has_element(_mo.Couplet(second.left, first.right)):
                    return False
        return True

    import itertools
    if rel.cached_transitive == CacheStatus.UNKNOWN:
        rel.cache_transitive(CacheStatus.from_bool(all_chains_closed()))
    return rel.cached_transitive == CacheStatus.IS
'''
R[(F,'swap')] = '''
def swap(rel: 'P(M x M)', swaps: 'P(M x M)', _checked=True) -> 'P(M x M)':
    if _checked:
        for argument in (rel, swaps):
            if not is_member(argument):
                return _undef.make_or_raise_undef2(argument)
    else:
        assert is_member_or_undef(rel) and is_member_or_undef(swaps)
        if _undef.Undef() is rel or _undef.Undef() is swaps:
            return _undef.make_or_raise_undef(2)
    both_directions = _sets.union(transpose(swaps, _checked=False), swaps, _checked=False)
    return rename(rel, both_directions, _checked=False)
'''
R[(F,'functional_add')] = '''
def functional_add(func: 'P(M x M)', element: 'M x M') -> 'P(M x M)':
    if not (is_member(func) and is_functional(func)):
        return _undef.make_or_raise_undef2(func)
    if not _couplets.is_member(element):
        return _undef.make_or_raise_undef2(element)
    if any(couplet.left == element.left for couplet in func):
        return _undef.make_or_raise_undef(2)
    result = _mo.Set(func.data | {element}, direct_load=True)
    result.cache_relation(CacheStatus.IS)
    result.cache_functional(CacheStatus.IS)
    return result
'''
R[(F,'diag')] = '''
def diag(*args, _checked=True) -> 'P(M x M)':
    if any(element is _undef.Undef() for element in args):
        return _undef.make_or_raise_undef(2)
    couplets = set()
    for element in args:
        couplets.add(_mo.Couplet(element, element, direct_load=not _checked))
    rel = _mo.Set(couplets, direct_load=True)
    for record in (rel.cache_relation, rel.cache_functional, rel.cache_right_functional,
                   rel.cache_reflexive, rel.cache_symmetric):
        record(CacheStatus.IS)
    return rel
'''
R[(F,'fill_lefts')] = '''
def fill_lefts(rel: 'P(M x M)', renames: 'P(M x M)', _checked=True) -> 'P(M x M)':
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
        if not is_member(renames):
            return _undef.make_or_raise_undef2(renames)
    else:
        assert is_member_or_undef(rel)
        assert is_member_or_undef(renames)
        if rel is _undef.Undef() or renames is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    covered = {couplet.right for couplet in renames}
    missing = [left for left in get_lefts(rel, _checked=False) if left not in covered]
    result = _sets.union(renames, diag(*missing, _checked=False), _checked=False)
    assert result.cached_is_relation
    return result
'''
F='algebras/couplets.py'
