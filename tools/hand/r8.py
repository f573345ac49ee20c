R = {}
F='mathobjects/set.py'
R[(F,'_init_cache_not_empty')] = '''
def _init_cache_not_empty() -> int:
    flags = _Flags()
    flags.f.set = CacheStatus.IS
    for kind in ('atom', 'couplet', 'multiset', 'multiclan'):
        setattr(flags.f, kind, CacheStatus.IS_NOT)
    return flags.asint
'''
R[(F,'_init_cache_empty')] = '''
def _init_cache_empty() -> int:
    flags = _Flags()
    fields = flags.f
    fields.set = CacheStatus.IS
    for name in ('clan', 'relation', 'functional', 'regular', 'right_regular',
                 'right_functional', 'reflexive', 'symmetric', 'transitive'):
        setattr(fields, name, CacheStatus.IS)
    for name in ('atom', 'couplet', 'multiset', 'multiclan'):
        setattr(fields, name, CacheStatus.IS_NOT)
    return flags.asint
'''
R[(F,'Set.get_left_set')] = '''
    def get_left_set(self) -> 'P( M )':
        relations = _relations()
        if relations.is_member(self):
            return relations.get_lefts(self, _checked=False)
        if self.get_ground_set().get_powerset_level(relations.get_ground_set()) <= 0:
            return _undef.make_or_raise_undef()
        left_set = None
        for elem in self:
            lefts = elem.get_left_set()
            left_set = lefts if left_set is None else _sets().union(left_set, lefts, _checked=False)
        return left_set
'''
R[(F,'Set.__lt__')] = '''
    def __lt__(self, other):
        if isinstance(other, MathObject):
            return repr(self) < repr(other) if other.is_set else super()._less_than(other)
        return NotImplemented
'''
R[(F,'Set.__hash__')] = '''
    def __hash__(self):
        cached = self._hash
        if cached == 0:
            cached = self._hash = _misc.get_hash('algebraixlib.mathobjects.set.Set', self.data)
        return cached
'''
R[(F,'Set.__iter__')] = '''
    def __iter__(self):
        return iter(self._data)
'''
R[(F,'Set.__contains__')] = '''
    def __contains__(self, item):
        return self.has_element(auto_convert(item))
'''
R[(F,'Set.get_ground_set')] = '''
    def get_ground_set(self) -> _structure.Structure:
        if self.is_empty:
            return _structure.Structure()
        elements_ground_set = _structure.Union([elem.get_ground_set() for elem in self._data])
        if len(elements_ground_set.data) > 1:
            return _structure.PowerSet(elements_ground_set)
        return _structure.PowerSet(next(iter(elements_ground_set.data)))
'''
F='mathobjects/atom.py'
R[(F,'Atom.__lt__')] = '''
    def __lt__(self, other):
        if not isinstance(other, MathObject):
            return NotImplemented
        if not other.is_atom:
            return super()._less_than(other)
        if self.type != other.type:
            mine = (self.type.__name__, repr(self.value))
            theirs = (other.type.__name__, repr(other.value))
            return (theirs[0], mine[1]) < (mine[0], theirs[1])
        try:
            return self.value < other.value
        except TypeError:
            return repr(self.value) < repr(other.value)
'''
R[(F,'Atom.__eq__')] = '''
    def __eq__(self, other):
        if not isinstance(other, Atom):
            return NotImplemented
        return self.type == other.type and self.value == other.value
'''
R[(F,'Atom.__ne__')] = '''
    def __ne__(self, other):
        if not isinstance(other, Atom):
            return NotImplemented
        return self.type != other.type or self.value != other.value
'''
R[(F,'_init_cache')] = '''
def _init_cache() -> int:
    flags = _Flags()
    statuses = {
        'atom': CacheStatus.IS,
        'absolute': CacheStatus.IS,
        'couplet': CacheStatus.IS_NOT,
        'set': CacheStatus.IS_NOT,
        'relation': CacheStatus.IS_NOT,
        'clan': CacheStatus.IS_NOT,
        'multiset': CacheStatus.IS_NOT,
        'multiclan': CacheStatus.IS_NOT,
    }
    for name, status in statuses.items():
        setattr(flags.f, name, status)
    for name in ['functional', 'right_functional', 'regular', 'reflexive', 'symmetric',
                 'transitive']:
        setattr(flags.f, name, CacheStatus.N_A)
    return flags.asint
'''
R[(F,'Atom.__init__')] = '''
    def __init__(self, value, direct_load=False):
        if getattr(self, '_value', None) is not None or hasattr(self, '_value'):
            return
        super().__init__(self._INIT_CACHE)
        if not direct_load and isinstance(value, MathObject):
            raise TypeError("'value' must not be a MathObject")
        assert not isinstance(value, MathObject)
        self._value = value
        self._hash = _get_hash('algebraixlib.mathobjects.atom.Atom', value)
'''
F='mathobjects/mathobject.py'
R[(F,'MathObject.cache_relation')] = '''
    def cache_relation(self, value: int):
        if value == CacheStatus.N_A:
            raise Exception('Cached value of "relation" may never be `N_A`.')
        if value == CacheStatus.IS and not self.is_empty:
            assert not self.cached_is_clan
            assert not self.cached_is_multiclan
            for record, status in ((self.cache_clan, CacheStatus.IS_NOT),
                                   (self.cache_multiclan, CacheStatus.IS_NOT),
                                   (self.cache_regular, CacheStatus.N_A),
                                   (self.cache_right_regular, CacheStatus.N_A)):
                record(status)
        self._flags.f.relation = value
        return self
'''
R[(F,'raise_if_not_mathobjects')] = None
F='util/miscellaneous.py'
R[(F,'get_hash')] = '''
def get_hash(*args) -> int:
    assert args
    mask = (1 << _sys.hash_info.width) - 1
    return sum(hash(arg) for arg in args) & mask
'''
R[(F,'get_single_iter_elem')] = '''
def get_single_iter_elem(iterable):
    elements = list(iterable)
    assert len(elements) == 1
    return elements[0]
'''
R[(F,'write_to_file_or_path')] = '''
def write_to_file_or_path(file_or_path, data_functor):
    if not isinstance(file_or_path, str):
        return data_functor(file_or_path)
    out_file = open(file_or_path, 'w+', newline='', encoding='utf-8')
    try:
        data_functor(out_file)
    finally:
        out_file.close()
'''
F='mathobjects/couplet.py'
F='undef.py'
R={k:v for k,v in R.items() if v}
