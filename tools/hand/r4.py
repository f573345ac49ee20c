R = {}
F='structure.py'
R[(F,'CartesianProduct.is_subset')] = '''
    def is_subset(self, other: Structure) -> bool:
        """Doc."""
        assert isinstance(other, Structure)
        if isinstance(other, GenesisSetM):
            return True
        if isinstance(other, Union):
            for candidate in other.data:
                if self.is_subset(candidate):
                    return True
            return False
        if not isinstance(other, CartesianProduct):
            return False
        pairs = zip((self.left, self.right), (other.left, other.right))
        return all(mine.is_subset(theirs) for mine, theirs in pairs)
'''
R[(F,'CartesianProduct.is_same')] = '''
    def is_same(self, other: Structure) -> bool:
        assert isinstance(other, Structure)
        if isinstance(other, Union):
            return other.is_same(self)
        return isinstance(other, CartesianProduct) \\
            and (self.left, self.right) == (other.left, other.right)
'''
R[(F,'Union.__init__')] = '''
    def __init__(self, iterable):
        assert isinstance(iterable, _collections.Iterable)
        maximal = []
        for candidate in self._flatten(iterable):
            assert isinstance(candidate, Structure)
            if any(candidate.is_subset(kept) for kept in maximal):
                continue
            maximal = [kept for kept in maximal if not kept.is_subset(candidate)]
            maximal.append(candidate)
        assert maximal
        self._data = frozenset(maximal)

    @staticmethod
    def _flatten(structures):
        """Yield the structures in ``structures``, with unions replaced by their elements."""
        for structure in structures:
            if isinstance(structure, Union):
                yield from structure.data
            else:
                yield structure
'''
R[(F,'Union.is_subset')] = '''
    def is_subset(self, other: Structure) -> bool:
        assert isinstance(other, Structure)
        targets = other.data if isinstance(other, Union) else (other,)
        return all(any(element.is_subset(target) for target in targets) for element in self.data)
'''
R[(F,'Union.is_same')] = '''
    def is_same(self, other: Structure) -> bool:
        assert isinstance(other, Structure)
        if isinstance(other, Union):
            return self.data == other.data
        if len(self.data) != 1:
            return False
        only_element, = self.data
        return only_element.is_same(other)
'''
R[(F,'Union.__hash__')] = '''
    def __hash__(self):
        elements = self.data
        if len(elements) > 1:
            return _misc.get_hash(_misc.get_full_class_name(self), elements)
        return hash(next(iter(elements)))
'''
R[(F,'PowerSet.get_powerset_level')] = '''
    def get_powerset_level(self, other: Structure) -> int:
        level = 0
        current = self
        while isinstance(current, PowerSet):
            level += 1
            current = current.base_set
            if current.is_subset(other):
                return level
        return 0
'''
R[(F,'PowerSet.is_subset')] = '''
    def is_subset(self, other: Structure) -> bool:
        assert isinstance(other, Structure)
        if isinstance(other, Union):
            return any(map(self.is_subset, other.data))
        if isinstance(other, PowerSet):
            return self.base_set <= other.base_set
        return isinstance(other, GenesisSetM)
'''
R[(F,'PowerSet.__str__')] = '''
    def __str__(self):
        elem_str = str(self._base_set)
        needs_parens = not elem_str.startswith(('P', '('))
        return 'P(' + elem_str + ')' if needs_parens else 'P' + elem_str
'''
