R={}
R['algebras/relations.py','Algebra.transpose']='''
@staticmethod
def transpose(rel: 'P(M x M)', _checked=True) -> 'P(M x M)':
    """Doc."""
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel)
        if rel is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    result = _mo.Set((_mo.Couplet(c.right, c.left, direct_load=True) for c in rel), direct_load=True)
    if result.is_empty:
        return result
    result.cache_relation(CacheStatus.IS)
    for cache, status in ((result.cache_absolute, rel.cached_absolute),
                          (result.cache_functional, rel.cached_right_functional),
                          (result.cache_right_functional, rel.cached_functional)):
        cache(status)
    return result.cache_reflexive(rel.cached_reflexive).cache_symmetric(rel.cached_symmetric) \\
        .cache_transitive(rel.cached_transitive)
'''
R['algebras/relations.py','Algebra.compose']='''
@staticmethod
def compose(rel1: 'P(M x M)', rel2: 'P(M x M)', _checked=True) -> 'P(M x M)':
    """Doc."""
    if _checked:
        if not is_member(rel1):
            return _undef.make_or_raise_undef2(rel1)
        if not is_member(rel2):
            return _undef.make_or_raise_undef2(rel2)
    else:
        assert is_member_or_undef(rel1)
        assert is_member_or_undef(rel2)
        if rel1 is _undef.Undef() or rel2 is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    rel1_by_left = {}
    for couplet in rel1:
        rel1_by_left.setdefault(couplet.left, []).append(couplet)

    def _composed():
        for outer in rel2:
            for inner in rel1_by_left.get(outer.right, ()):
                yield _mo.Couplet(outer.left, inner.right, direct_load=True)

    result = _mo.Set(_composed(), direct_load=True)
    if not result.is_empty:
        result.cache_relation(CacheStatus.IS)
        if rel1.cached_is_absolute and rel2.cached_is_absolute:
            result.cache_absolute(CacheStatus.IS)
        if rel1.cached_is_functional and rel2.cached_is_functional:
            result.cache_functional(CacheStatus.IS)
        if rel1.cached_is_right_functional and rel2.cached_is_right_functional:
            result.cache_right_functional(CacheStatus.IS)
    return result
'''
R['algebras/relations.py','Algebra.functional_union']='''
@staticmethod
def functional_union(rel1: 'P(M x M)', rel2: 'P(M x M)', _checked=True) -> 'P(M x M)':
    """Doc."""
    if _checked:
        if not is_member(rel1):
            return _undef.make_or_raise_undef2(rel1)
        if not is_member(rel2):
            return _undef.make_or_raise_undef2(rel2)
    else:
        assert is_member_or_undef(rel1)
        assert is_member_or_undef(rel2)
        if rel1 is _undef.Undef() or rel2 is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    rights_by_left = {}
    for rel in (rel1, rel2):
        for couplet in rel:
            known = rights_by_left.get(couplet.left)
            if known is not None and known != couplet.right:
                return _undef.make_or_raise_undef(2)
            rights_by_left[couplet.left] = couplet.right
    result = _sets.union(rel1, rel2, _checked=False)
    result.cache_functional(CacheStatus.IS)
    return result
'''
R['algebras/relations.py','rename']='''
def _check_two(rel1, rel2, _checked):
    if _checked:
        for rel in (rel1, rel2):
            if not is_member(rel):
                return _undef.make_or_raise_undef2(rel)
    else:
        assert is_member_or_undef(rel1)
        assert is_member_or_undef(rel2)
        if rel1 is _undef.Undef() or rel2 is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    return None


def rename(rel: 'P(M x M)', renames: 'P(M x M)', _checked=True) -> 'P(M x M)':
    """Doc."""
    invalid = _check_two(rel, renames, _checked)
    if invalid is not None:
        return invalid
    return compose(rel, fill_lefts(rel, renames, _checked=False), _checked=False)
'''
R['algebras/relations.py','fill_lefts']='''
def fill_lefts(rel: 'P(M x M)', renames: 'P(M x M)', _checked=True) -> 'P(M x M)':
    """Doc."""
    if _checked:
        if not is_member(rel):
            return _undef.make_or_raise_undef2(rel)
        if not is_member(renames):
            return _undef.make_or_raise_undef2(renames)
    else:
        assert is_member_or_undef(rel)
        assert is_member_or_undef(renames)
        if rel is _undef.Undef() or renames is _undef.Undef():
            return _undef.make_or_raise_undef(2)
    renamed = {couplet.right for couplet in renames}
    missing = [couplet.left for couplet in rel if couplet.left not in renamed]
    result = _sets.union(renames, diag(*missing, _checked=False), _checked=False)
    assert result.cached_is_relation
    return result
'''
R['partition.py','partition']='''
def _wrap(kind):
    if kind.is_set:
        return lambda part: _mo.Set(part, direct_load=True).cache_clan(_inherited_status(kind.cached_clan))
    return lambda part: _mo.Multiset(part, direct_load=True).cache_multiclan(
        _inherited_status(kind.cached_multiclan))


def partition(set_or_mset, class_invariant_func):
    """Doc."""
    if set_or_mset.is_set:
        parts = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
    elif set_or_mset.is_multiset:
        parts = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
    else:
        raise AssertionError('First argument must be Set or Multiset')
    return _mo.Set(map(_wrap(set_or_mset), parts.values()), direct_load=True)
'''
R['partition.py','_create_partition_dict_from_set']='''
def _create_partition_dict_from_set(set_, class_invariant_func):
    partition_dict = _collections.defaultdict(set)
    for element in set_:
        partition_dict[_mo.auto_convert(class_invariant_func(element))].add(element)
    return partition_dict
'''
R['partition.py','_create_partition_dict_from_multiset']='''
def _create_partition_dict_from_multiset(mset, class_invariant_func):
    result = {}
    for element in mset.data:
        label = _mo.auto_convert(class_invariant_func(element))
        counter = result.setdefault(label, _collections.Counter())
        counter[element] += mset.get_multiplicity(element)
    return result
'''
R['mathobjects/multiset.py','Multiset.__init__']='''
def __init__(self, *args, direct_load=False):
    """Doc."""
    super().__init__(self._INIT_CACHE_NOT_EMPTY)
    elements = args[0] if len(args) == 1 else args
    convert = (lambda x: x) if direct_load else auto_convert
    data = _collections.Counter()
    if isinstance(elements, Multiset):
        data[elements] = 1
    elif isinstance(elements, dict):
        for key, count in elements.items():
            if not direct_load:
                assert isinstance(count, int) and count > 0
            data[convert(key)] += count
    elif isinstance(elements, str):
        data[auto_convert(elements)] += 1
    elif isinstance(elements, _collections.Iterable) and not isinstance(elements, MathObject):
        for elem in elements:
            data[convert(elem)] += 1
    else:
        data[convert(elements)] += 1
    self._data = data
    self._hash = 0
    if not self._data:
        self._flags.asint = self._INIT_CACHE_EMPTY
'''
R['mathobjects/multiset.py','Multiset.__iter__']='''
def __iter__(self):
    """Doc."""
    for value, count in self._data.items():
        for _ in range(count):
            yield value
'''
R['mathobjects/multiset.py','Multiset.__hash__']='''
def __hash__(self):
    """Doc."""
    if self._hash == 0:
        parts = list(self.data.items())
        self._hash = _misc.get_hash('algebraixlib.mathobjects.multiset.Multiset', *parts)
    return self._hash
'''
R['mathobjects/multiset.py','Multiset.__repr__']='''
def __repr__(self):
    """Doc."""
    pieces = []
    for key in sorted(self.data):
        pieces.append('{!r}: {!r}'.format(key, self.data[key]))
    return 'Multiset({' + ', '.join(pieces) + '})'
'''
R['mathobjects/multiset.py','Multiset.get_ground_set']='''
def get_ground_set(self) -> _structure.Structure:
    """Doc."""
    if self.is_empty:
        return _structure.Structure()
    union = _structure.Union(elem.get_ground_set() for elem in self.data)
    base = union
    if len(union.data) == 1:
        base = _misc.get_single_iter_elem(union.data)
    return _structure.PowerSet(_structure.CartesianProduct(base, _structure.GenesisSetN()))
'''
R['mathobjects/set.py','Set._call_function']='''
def _call_function(self, left):
    left_mo = auto_convert(left)
    right = next((elem.right for elem in self if elem.left == left_mo), None)
    if right is None:
        return _undef.make_or_raise_undef(2)
    return right
'''
R['mathobjects/set.py','Set._getitem']='''
def _getitem(self, left):
    if _relations().is_member(self):
        handler = Set._getitem_relation
    elif _clans().is_member(self):
        handler = Set._getitem_clan
    else:
        handler = Set._getitem_undef
    self._getitem_redirect = _types.MethodType(handler, self)
    return handler(self, left)
'''
R['mathobjects/set.py','Set._getitem_clan']='''
def _getitem_clan(self, left):
    left_mo = auto_convert(left)
    rights = set()
    for rel in self:
        rights.update(_relations().get_rights_for_left(rel, left_mo, _checked=False).data)
    return Set(rights, direct_load=True)
'''
R['mathobjects/set.py','Set.__init__']='''
def __init__(self, *args, direct_load=False):
    """Doc."""
    super().__init__(self._INIT_CACHE_NOT_EMPTY)
    elements = args[0] if len(args) == 1 else args
    if isinstance(elements, (Set, str)) or isinstance(elements, MathObject) \\
            or not isinstance(elements, _collections.Iterable):
        values = [elements]
        keep = direct_load and not isinstance(elements, str)
    else:
        values = elements
        keep = direct_load
    self._data = frozenset(values) if keep else frozenset(map(auto_convert, values))
    self._hash = 0
    if len(self._data) == 0:
        self._flags.asint = self._INIT_CACHE_EMPTY
'''
R['mathobjects/couplet.py','Couplet.__init__']='''
def __init__(self, left, right=None, direct_load=False):
    """Doc."""
    super().__init__(self._INIT_CACHE)
    if right is None:
        right = left
    if not direct_load:
        left, right = auto_convert(left), auto_convert(right)
    assert isinstance(left, MathObject)
    assert isinstance(right, MathObject)
    self._left, self._right = left, right
    self._hash = 0
'''
R['mathobjects/couplet.py','Couplet.__eq__']='''
def __eq__(self, other):
    """Doc."""
    if self is other:
        return True
    if not isinstance(other, Couplet):
        return False
    return (self.left, self.right) == (other.left, other.right)
'''
R['mathobjects/couplet.py','Couplet.__ne__']='''
def __ne__(self, other):
    """Doc."""
    return not self == other
'''
