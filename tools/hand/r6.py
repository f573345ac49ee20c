R = {}
F='algebras/clans.py'
R[(F,'get_rights')] = '''
def get_rights(clan: 'PP(M x M)', _checked=True) -> 'P( M )':
    if _checked and not is_member(clan):
        return _undef.make_or_raise_undef2(clan)
    if not _checked:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if clan.is_empty:
        return clan
    right_set = _sets.big_union(
        _mo.Set((_relations.get_rights(rel, _checked=False) for rel in clan), direct_load=True))
    if clan.cached_is_absolute:
        if not right_set.is_empty:
            right_set.cache_absolute(CacheStatus.IS)
    return right_set
'''
R[(F,'is_regular')] = '''
def is_regular(clan, _checked=True) -> bool:
    if _checked:
        if not is_member(clan):
            return _undef.make_or_raise_undef2(clan)
    else:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if clan.cached_regular == CacheStatus.UNKNOWN:
        regular = not clan.cached_is_not_functional and _compute_is_regular(clan)
        clan.cache_regular(CacheStatus.from_bool(regular))
    return clan.cached_is_regular


def _compute_is_regular(clan) -> bool:
    common_lefts = None
    for rel in clan:
        if not _relations.is_functional(rel, _checked=False):
            return False
        lefts = rel.get_left_set()
        if common_lefts is None:
            common_lefts = lefts
        elif lefts != common_lefts:
            return False
    return True
'''
R[(F,'is_right_regular')] = '''
def is_right_regular(clan, _checked=True) -> bool:
    if _checked:
        if not is_member(clan):
            return _undef.make_or_raise_undef2(clan)
    else:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if clan.cached_right_regular == CacheStatus.UNKNOWN:
        if clan.cached_is_not_right_functional:
            right_regular = False
        else:
            first, *rest = clan
            right_regular = _relations.is_right_functional(first) and all(
                _relations.is_right_functional(rel) and rel.get_right_set() == first.get_right_set()
                for rel in rest)
        clan.cache_right_regular(CacheStatus.from_bool(right_regular))
    return clan.cached_is_right_regular
'''
R[(F,'is_symmetric')] = '''
def is_symmetric(clan, _checked=True) -> bool:
    if _checked:
        if not is_member(clan):
            return _undef.make_or_raise_undef2(clan)
    else:
        assert is_member_or_undef(clan)
        if clan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if clan.cached_symmetric == CacheStatus.UNKNOWN:
        for rel in clan:
            if not _relations.is_symmetric(rel, _checked=False):
                clan.cache_symmetric(CacheStatus.IS_NOT)
                break
        else:
            clan.cache_symmetric(CacheStatus.IS)
    return clan.cached_symmetric == CacheStatus.IS
'''
R[(F,'from_set')] = '''
def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
    left_mo = _mo.auto_convert(left)

    def make_relation(value):
        couplet = _mo.Couplet(left_mo, _mo.auto_convert(value), direct_load=True)
        rel = _mo.Set(couplet, direct_load=True)
        rel.cache_relation(CacheStatus.IS)
        rel.cache_functional(CacheStatus.IS)
        rel.cache_right_functional(CacheStatus.IS)
        return rel

    clan = _mo.Set(map(make_relation, values), direct_load=True)
    clan.cache_clan(CacheStatus.IS)
    clan.cache_functional(CacheStatus.IS)
    clan.cache_right_functional(CacheStatus.IS)
    clan.cache_regular(CacheStatus.IS)
    clan.cache_right_regular(CacheStatus.IS if clan.cardinality <= 1 else CacheStatus.IS_NOT)
    return clan
'''
R[(F,'defined_at')] = '''
def defined_at(clan: 'PP(M x M)', left: '( M )', _checked=True):
    if not is_member(clan) or left is _undef.Undef():
        return _undef.make_or_raise_undef(2)

    def restrict_to_defined(rel):
        return _relations.defined_at(rel, left, _checked=_checked)

    result = _extension.unary_extend(clan, restrict_to_defined, _checked=_checked)
    if result is _undef.Undef() or not result:
        return _undef.make_or_raise_undef2(result)
    result.cache_clan(CacheStatus.IS)
    if result.is_empty:
        return result
    for known, record in ((clan.cached_is_functional, result.cache_functional),
                          (clan.cached_is_right_functional, result.cache_right_functional),
                          (clan.cached_is_regular, result.cache_regular),
                          (clan.cached_is_right_regular, result.cache_right_regular)):
        if known:
            record(CacheStatus.IS)
    return result
'''
F='algebras/multiclans.py'
R[(F,'is_regular')] = '''
def is_regular(mclan, _checked=True) -> bool:
    if _checked:
        if not is_member(mclan):
            return _undef.make_or_raise_undef2(mclan)
    else:
        assert is_member_or_undef(mclan)
        if mclan is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    if mclan.cached_regular == CacheStatus.UNKNOWN:
        if mclan.cached_is_not_functional:
            mclan.cache_regular(CacheStatus.IS_NOT)
            return False
        rels = list(mclan.data.keys())
        left_set = rels[0].get_left_set()
        regular = all(
            _relations.is_functional(rel) and rel.get_left_set() == left_set for rel in rels)
        mclan.cache_regular(CacheStatus.from_bool(regular))
    return mclan.cached_is_regular
'''
R[(F,'Algebra.cross_union')] = None
F='mathobjects/atom.py'
F='mathobjects/couplet.py'
R={k:v for k,v in R.items() if v}
