"""Behaviour-preserving hand rewrites of single functions of the library."""
V = []
R = 'algebras/relations.py'
MC = 'algebras/multiclans.py'
CL = 'algebras/clans.py'
S = 'algebras/sets.py'
MS = 'algebras/multisets.py'
X = 'extension.py'
SP = 'mathobjects/set.py'


def v(i, *edits, count=1):
    V.append(dict(id=i, edits=[edits[j:j + 3] for j in range(0, len(edits), 3)], count=count))


v('functional-seen', R, """        left_set = get_lefts(rel, _checked=False)
        functional = (left_set.cardinality == rel.cardinality)
""", """        seen = set()
        functional = True
        for couplet in rel:
            if couplet.left in seen:
                functional = False
                break
            seen.add(couplet.left)
""")
v('right-functional-dict', R, """        right_set = get_rights(rel, _checked=False)
        right_functional = (right_set.cardinality == rel.cardinality)
""", """        counts = {}
        for couplet in rel:
            counts[couplet.right] = counts.get(couplet.right, 0) + 1
        right_functional = all(n == 1 for n in counts.values())
""")
v('get-right-list', R, """    result = None
    for elem in rel:
        assert elem.is_couplet
        if elem.left == left:
            if result is not None:
                return _undef.make_or_raise_undef()  # Early Undef() exit if more than one found.
            result = elem.right
    if result is None:
        return _undef.make_or_raise_undef()  # Undef() exit if none found.
    return result
""", """    found = [elem.right for elem in rel if elem.left == left]
    if len(found) != 1:
        return _undef.make_or_raise_undef()
    return found[0]
""")
v('get-left-count', R, """    result = None
    for elem in rel:
        assert elem.is_couplet
        if elem.right == right:
            if result is not None:
                return _undef.make_or_raise_undef()  # Early Undef() exit if more than one found.
            result = elem.left
    if result is None:
        return _undef.make_or_raise_undef()  # Undef() exit if none found.
    return result
""", """    count = 0
    result = None
    for elem in rel:
        if elem.right == right:
            count += 1
            result = elem.left
    if count != 1:
        return _undef.make_or_raise_undef()
    return result
""")
v('transitive-while', R, """        transitive = True
        for couplet1 in rel:
            for couplet2 in rel:
                if couplet1.left == couplet2.right:
                    if not rel.has_element(_mo.Couplet(couplet2.left, couplet1.right)):
                        transitive = False
                        break
""", """        couplets = list(rel)
        transitive = True
        index = 0
        while transitive and index < len(couplets):
            couplet1 = couplets[index]
            for couplet2 in couplets:
                if couplet1.left == couplet2.right and not rel.has_element(
                        _mo.Couplet(couplet2.left, couplet1.right)):
                    transitive = False
            index += 1
""")
v('reflexive-for', R, """        reflexive = all(_couplets.is_reflexive(couplet, _checked=False) for couplet in rel)
""", """        reflexive = True
        for couplet in rel:
            reflexive = reflexive and _couplets.is_reflexive(couplet, _checked=False)
""")
v('symmetric-not-any', R, """        symmetric = all(rel.has_element(
            _couplets.transpose(couplet, _checked=False)) for couplet in rel)
""", """        mirrored = {_couplets.transpose(couplet, _checked=False) for couplet in rel}
        symmetric = not any(couplet not in rel for couplet in mirrored)
""")
v('lefts-append', R, """    result = _mo.Set((e.left for e in rel), direct_load=True)
""", """    lefts = []
    for e in rel:
        left = e.left
        if left not in lefts:
            lefts.append(left)
    result = _mo.Set(lefts, direct_load=True)
""")
v('rights-functional-update', R, """    result = _mo.Set((e.right for e in rel), direct_load=True)
""", """    rights = frozenset()
    for e in rel:
        rights = rights | {e.right}
    result = _mo.Set(rights, direct_load=True)
""")
