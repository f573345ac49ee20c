R={}
R['import_export/json.py','import_json']='''
def _json_couplet(key, right):
    return _mo.Couplet(_mo.Atom(key), right, direct_load=True)


def _json_member(key, value):
    if isinstance(value, list):
        return [_json_couplet(key, _mo.Set(_json_nodes(item))) for item in value]
    if isinstance(value, dict):
        return [_json_couplet(key, _mo.Set(_json_nodes(value)))]
    assert isinstance(value, (str, int, float))
    return [_json_couplet(key, _mo.Atom(value))]


def _json_nodes(nodes):
    if isinstance(nodes, list):
        for list_data in nodes:
            yield _mo.Set(*list(_json_nodes(list_data)))
        return
    for key in nodes:
        for couplet in _json_member(key, nodes[key]):
            yield couplet


def import_json(json_file_or_filepath) -> 'P( A x M )':
    """Doc."""
    import contextlib
    import json
    with contextlib.ExitStack() as stack:
        if hasattr(json_file_or_filepath, 'readlines'):
            json_file = json_file_or_filepath
        else:
            json_file = stack.enter_context(open(json_file_or_filepath, encoding='utf-8'))
        return _mo.Set(_json_nodes(json.load(json_file)), direct_load=True)
'''
R['import_export/csv.py','export_csv']='''
def _default_lefts(clan):
    for rel in clan:
        return sorted(left.value for left in rel.get_left_set())
    return []


def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sort_key=None):
    """Doc."""
    table = absolute_clan_or_multiclan
    is_clan = _clans.is_absolute_member(table)
    if not is_clan and not _multiclans.is_absolute_member(table):
        return False
    if ordered_lefts is None:
        algebra = _clans if is_clan else _multiclans
        if _clans.is_member(table) and not _clans.is_regular(table):
            return False
        if _multiclans.is_member(table) and not _multiclans.is_regular(table):
            return False
        ordered_lefts = _default_lefts(table)
    rows = table
    if sort_key is not None:
        rows = sorted(table, key=sort_key)
    _csv_dict_writer(file_or_path, ordered_lefts, _convert_clan_to_list_of_dicts(ordered_lefts, rows))
    return True
'''
R['import_export/xml.py','import_xml']='''
def _numeric_or_text(atom_value: str):
    for convert in (int, float):
        try:
            return convert(atom_value)
        except ValueError:
            pass
    return atom_value


def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M )':
    """Doc."""
    import xml.dom.minidom

    def _atom(text):
        return _mo.Atom(_numeric_or_text(text) if convert_numerics else text, direct_load=True)

    text_left = _mo.Atom('$')
    _util.get_left_cached.left_cache = {}

    def _element(node):
        parts = {_mo.Couplet(_util.get_left_cached(name), _atom(value), direct_load=True)
                 for name, value in node.attributes.items()}
        parts |= set(_process_nodes(node.childNodes))
        if len(parts) == 1:
            only = next(iter(parts))
            if only.left == text_left:
                return only.right
        return _mo.Set(parts, direct_load=True)

    def _process_nodes(nodes):
        for node in nodes:
            if node.nodeType == node.TEXT_NODE:
                text = node.data.strip()
                if text:
                    yield _mo.Couplet(text_left, _atom(text), direct_load=True)
                continue
            assert node.nodeType == node.ELEMENT_NODE
            yield _mo.Couplet(_util.get_left_cached(node.tagName), _element(node), direct_load=True)

    def _load(xml_file):
        return _mo.Set(_process_nodes(xml.dom.minidom.parse(xml_file).childNodes), direct_load=True)

    if hasattr(xml_file_or_filepath, 'readlines'):
        return _load(xml_file_or_filepath)
    with open(xml_file_or_filepath, encoding='utf-8') as file:
        result = _load(file)
    return result
'''
R['import_export/mojson.py','encode']='''
def _tagged(cls, val):
    return {'__cls__': cls, '__val__': val}


def _encode_all(elems):
    return [encode(elem) for elem in elems]


_SEQUENCES = ((frozenset, 'builtin.frozenset'), (list, 'builtin.list'), (tuple, 'builtin.tuple'), (_mo.Set, 'Set'))


def encode(obj):
    """Doc."""
    for cls, tag in _SEQUENCES:
        if isinstance(obj, cls):
            return _tagged(tag, _encode_all(obj))
    if isinstance(obj, bytes):
        return _tagged('builtin.bytes', list(obj))
    if isinstance(obj, complex):
        return _tagged('builtin.complex', str(obj))
    if isinstance(obj, range):
        return _tagged('builtin.range', [obj.start, obj.stop, obj.step])
    if isinstance(obj, _mo.Atom):
        return _tagged('Atom', encode(obj.value))
    if isinstance(obj, _mo.Couplet):
        return _tagged('Couplet', _encode_all((obj.left, obj.right)))
    if isinstance(obj, _mo.Multiset):
        pairs = []
        for val, mult in obj.data.items():
            pairs.append([encode(val), mult])
        return _tagged('Multiset', pairs)
    return obj
'''
R['import_export/mojson.py','object_hook_f']='''
def _decode_all(vals):
    return [decode(val) for val in vals]


_DECODERS = {
    'builtin.bytes': bytes,
    'builtin.complex': complex,
    'builtin.frozenset': lambda val: frozenset(_decode_all(val)),
    'builtin.list': _decode_all,
    'builtin.range': lambda val: range(*val),
    'builtin.tuple': lambda val: tuple(_decode_all(val)),
    'Atom': lambda val: _mo.Atom(decode(val), direct_load=True),
    'Couplet': lambda val: _mo.Couplet(*_decode_all(val), direct_load=True),
    'Set': lambda val: _mo.Set(_decode_all(val), direct_load=True),
    'Multiset': lambda val: _mo.Multiset({decode(elem): mult for elem, mult in val}, direct_load=True),
}


def object_hook_f(obj):
    """Doc."""
    if len(obj) == 2 and '__cls__' in obj and '__val__' in obj:
        cls = obj['__cls__']
        decoder = _DECODERS.get(cls) if isinstance(cls, str) else None
        if decoder is not None:
            return decoder(obj['__val__'])
    return obj
'''
R['util/latexprinter.py','mset_to_latex']='''
def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
    """Doc."""
    assert mset.is_multiset
    nested = _set_hasa_set(mset)
    separator = _Tokens.comma + (_nested_set_helper(_depth) if nested else _Tokens.space)
    entries = sorted(mset.data.items())
    total = len(entries)
    truncated = short and total > Config.short_set_len + 1
    if truncated:
        entries = entries[:Config.short_set_len]
    parts = []
    for value, multiple in entries:
        text = math_object_to_latex(value, short=short, _depth=_depth + 1)
        parts.append(text + _Tokens.colon + _Tokens.space + str(multiple))
    if truncated:
        parts.append(_Tokens.ellipsis + '(' + str(total - Config.short_set_len) + ')')
    body = separator.join(parts)
    if nested:
        body = _Tokens.array_start + body + _Tokens.array_end
    return _Tokens.left_bracket_dyn + body + _Tokens.right_bracket_dyn
'''
R['util/latexprinter.py','couplet_to_latex']='''
def _couplet_component(comp, color, short):
    text = math_object_to_latex(comp, short=short)
    if color is not None:
        text = _Tokens.color + color + '{' + text + '}'
    return text if comp.is_atom else _Tokens.left_paren_dyn + text + _Tokens.right_paren_dyn


def couplet_to_latex(couplet: _mo.Couplet, short: bool=False):
    """Doc."""
    assert couplet.is_couplet
    colors = (_Colors().red, _Colors().blue) if Config.colorize_output else (None, None)
    left, right = (_couplet_component(comp, color, short)
                   for comp, color in zip((couplet.left, couplet.right), colors))
    return left + _Tokens.mapsto + '{' + right + '}'
'''
R['util/latexprinter.py','math_object_to_latex']='''
def math_object_to_latex(mobj, short: bool=False, _depth: int=0):
    """Doc."""
    if mobj is _undef.Undef():
        return '\\\\mathit{undef}'
    if not isinstance(mobj, _mo.MathObject):
        return str(mobj)
    for applies, convert in ((mobj.is_set, set_to_latex), (mobj.is_multiset, mset_to_latex)):
        if applies:
            return convert(mobj, short, _depth)
    if mobj.is_couplet:
        return couplet_to_latex(mobj, short)
    if mobj.is_atom:
        return atom_to_latex(mobj, short)
    return '<application error>'
'''
