R={}
R['algebras/sets.py','power_set']='''
def _subsets_of_size(set_, size):
    from itertools import combinations
    for comb in combinations(set_, size):
        yield _mo.Set(comb, direct_load=True)


def power_set(set_: _mo.Set):
    """Return the power set."""
    from itertools import chain
    if is_member(set_):
        sizes = range(set_.cardinality + 1)
        result = _mo.Set(chain.from_iterable(_subsets_of_size(set_, k) for k in sizes), direct_load=True)
        if set_.cached_is_relation:
            result.cache_clan(CacheStatus.IS)
            result.cache_absolute(set_.cached_absolute)
            result.cache_functional(set_.cached_functional)
            result.cache_right_functional(set_.cached_right_functional)
            if not set_.is_empty:
                result.cache_regular(CacheStatus.IS_NOT)
                result.cache_right_regular(CacheStatus.IS_NOT)
        return result
    return _undef.make_or_raise_undef2(set_)
'''
R['algebras/sets.py','power_up']='''
def power_up(set_: _mo.Set):
    """Doc."""
    if not is_member(set_):
        return _undef.make_or_raise_undef2(set_)
    singletons = []
    for element in set_:
        single = _mo.Set([element], direct_load=True)
        singletons.append(single)
    result = _mo.Set(singletons, direct_load=True)
    if set_.is_empty or not set_.cached_is_relation:
        return result
    result.cache_clan(CacheStatus.IS)
    for status in (result.cache_functional, result.cache_right_functional):
        status(CacheStatus.IS)
    return result.cache_absolute(set_.cached_absolute)
'''
R['algebras/sets.py','restrict']='''
def restrict(set_: 'P( M )', selector: _collections.Callable) -> 'P( M )':
    """Doc."""
    if not is_member(set_):
        return _undef.make_or_raise_undef2(set_)
    result = _mo.Set(filter(selector, set_), direct_load=True)
    if result.is_empty:
        return result
    is_relation, is_clan = set_.cached_is_relation, set_.cached_is_clan
    if is_relation or is_clan:
        if is_relation:
            result.cache_relation(CacheStatus.IS)
        else:
            result.cache_clan(CacheStatus.IS)
        if set_.cached_is_absolute:
            result.cache_absolute(CacheStatus.IS)
        if set_.cached_is_functional:
            result.cache_functional(CacheStatus.IS)
        if set_.cached_is_right_functional:
            result.cache_right_functional(CacheStatus.IS)
    return result
'''
R['algebras/sets.py','big_union']='''
def _all_are_sets(set_):
    for element in set_:
        if not is_member(element):
            return False
    return True


def big_union(set_: 'PP( M )', _checked=True) -> 'P( M )':
    """Doc."""
    if not _checked:
        assert is_member_or_undef(set_)
        if set_ is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    elif not is_member(set_):
        return _undef.make_or_raise_undef2(set_)
    elif not _all_are_sets(set_):
        return _undef.make_or_raise_undef(2)
    return chain_binary_operation(set_, lambda a, b: union(a, b, _checked=False), is_member)
'''
R['extension.py','binary_extend']='''
def binary_extend(set1: 'P( M )', set2: 'P( M )', op, _checked=True) -> 'P( M )':
    """Doc."""
    if not _checked:
        assert _sets.is_member_or_undef(set1)
        assert _sets.is_member_or_undef(set2)
        for operand in (set1, set2):
            if operand is _undef.Undef():
                return _undef.make_or_raise_undef(2)
    else:
        for operand in (set1, set2):
            if not _sets.is_member(operand):
                return _undef.make_or_raise_undef2(operand)
    from itertools import product
    undef = _undef.Undef()
    results = (op(e1, e2) for e1, e2 in product(set1, set2))
    return _mo.Set((r for r in results if r is not undef), direct_load=True)
'''
R['extension.py','binary_multi_extend']='''
def _count_defined(pairs):
    counter = _collections.Counter()
    for result, count in pairs:
        if result is _undef.Undef():
            continue
        counter[result] = counter[result] + count
    return counter


def binary_multi_extend(multiset1: 'P( M x N )', multiset2: 'P( M x N )', op, _checked=True) -> 'P( M x N )':
    """Doc."""
    if _checked:
        if not _multisets.is_member(multiset1):
            return _undef.make_or_raise_undef2(multiset1)
        if not _multisets.is_member(multiset2):
            return _undef.make_or_raise_undef2(multiset2)
    else:
        assert _multisets.is_member_or_undef(multiset1)
        assert _multisets.is_member_or_undef(multiset2)
        if multiset1 is _undef.Undef() or multiset2 is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    counts = _count_defined((op(elem1, elem2), multi1 * multi2)
                            for elem1, multi1 in multiset1.data.items()
                            for elem2, multi2 in multiset2.data.items())
    return _mo.Multiset(counts, direct_load=True)
'''
R['extension.py','unary_extend']='''
def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
    """Doc."""
    if _checked:
        if not _sets.is_member(set_):
            return _undef.make_or_raise_undef2(set_)
    else:
        assert _sets.is_member_or_undef(set_)
        if set_ is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    values = set()
    for e in set_:
        value = op(e)
        if value is _undef.Undef():
            continue
        values.add(value)
    return _mo.Set(values, direct_load=True)
'''
R['extension.py','unary_multi_extend']='''
def unary_multi_extend(set_or_mset, op, _checked=True) -> 'P( M x N )':
    """Doc."""
    is_mset = _multisets.is_member(set_or_mset)
    if _checked:
        if not (is_mset or _sets.is_member(set_or_mset)):
            return _undef.make_or_raise_undef2(set_or_mset)
    else:
        assert is_mset or _sets.is_member(set_or_mset) or set_or_mset is _undef.Undef()
        if set_or_mset is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    items = set_or_mset.data.items() if is_mset else [(elem, 1) for elem in set_or_mset]
    counter = _collections.Counter()
    for elem, multiplicity in items:
        result = op(elem)
        if result is not _undef.Undef():
            counter.update({result: multiplicity})
    return _mo.Multiset(counter)
'''
R['algebras/clans.py','get_lefts']='''
def get_lefts(clan: 'PP(M x M)', _checked=True) -> 'P( M )':
    """Doc."""
    if _checked and not is_member(clan):
        return _undef.make_or_raise_undef2(clan)
    if not _checked:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if clan.is_empty:
        return clan
    left_set = _functools.reduce(
        lambda acc, lefts: _sets.union(lefts, acc, _checked=False),
        (_relations.get_lefts(rel, _checked=False) for rel in clan))
    if not left_set.is_empty and clan.cached_is_absolute:
        left_set.cache_absolute(CacheStatus.IS)
    return left_set
'''
R['algebras/clans.py','is_functional']='''
def is_functional(clan, _checked=True) -> bool:
    """Doc."""
    if _checked:
        if not is_member(clan):
            return _undef.make_or_raise_undef2(clan)
    else:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    status = clan.cached_functional
    if status == CacheStatus.UNKNOWN:
        functional = True
        for rel in clan:
            if not _relations.is_functional(rel, _checked=False):
                functional = False
                break
        status = CacheStatus.from_bool(functional)
        clan.cache_functional(status)
    return status == CacheStatus.IS
'''
R['algebras/clans.py','Algebra.cross_union']='''
@staticmethod
def cross_union(clan1: 'PP(M x M)', clan2: 'PP(M x M)', _checked=True) -> 'PP(M x M)':
    """Doc."""
    if _checked:
        if not is_member(clan1):
            return _undef.make_or_raise_undef2(clan1)
        if not is_member(clan2):
            return _undef.make_or_raise_undef2(clan2)
    else:
        assert is_member_or_undef(clan1)
        assert is_member_or_undef(clan2)
        if clan1 is _undef.Undef() or clan2 is _undef.Undef():
            return _undef.make_or_raise_undef(2)

    unions = [_mo.Set(rel1.data | rel2.data, direct_load=True).cache_relation(CacheStatus.IS)
              for rel1 in clan1 for rel2 in clan2]
    result = _mo.Set(unions, direct_load=True)
    if not result.is_empty:
        result.cache_clan(CacheStatus.IS)
        operands = (clan1, clan2)
        if any(c.cached_is_not_functional for c in operands):
            result.cache_functional(CacheStatus.IS_NOT)
        if any(c.cached_is_not_right_functional for c in operands):
            result.cache_right_functional(CacheStatus.IS_NOT)
    return result
'''
R['algebras/clans.py','Algebra.lhs_cross_functional_union']='''
@staticmethod
def lhs_cross_functional_union(lhs: 'PP( MxM )', rhs: 'PP( MxM )', _checked=True) -> 'PP(M x M)':
    """Doc."""
    if _checked:
        if not is_member(lhs):
            return _undef.make_or_raise_undef2(lhs)
        if not is_member(rhs):
            return _undef.make_or_raise_undef2(rhs)
    else:
        assert is_member_or_undef(lhs)
        assert is_member_or_undef(rhs)
        if lhs is _undef.Undef() or rhs is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    relations = set()
    for lhs_rel in lhs:
        matched = False
        for rhs_rel in rhs:
            merged = _relations.functional_union(lhs_rel, rhs_rel, _checked=False)
            if merged is not _undef.Undef():
                relations.add(merged)
                matched = True
        if not matched:
            relations.add(lhs_rel)
    result = _mo.Set(relations, direct_load=True)
    if not result.is_empty:
        result.cache_clan(CacheStatus.IS)
        if lhs.cached_is_functional:
            result.cache_functional(CacheStatus.IS)
    return result
'''
R['algebras/clans.py','from_dict']='''
def from_dict(dict1: dict) -> 'PP(M x M)':
    """Doc."""
    couplets = []
    for left in dict1:
        couplets.append(_mo.Couplet(left, dict1[left]))
    rel = _mo.Set(couplets, direct_load=True)
    rel.cache_relation(CacheStatus.IS).cache_functional(CacheStatus.IS)
    return _mo.Set(rel, direct_load=True).cache_clan(CacheStatus.IS) \\
        .cache_functional(CacheStatus.IS).cache_regular(CacheStatus.IS)
'''
