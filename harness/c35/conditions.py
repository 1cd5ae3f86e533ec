"""Conditions on the Python package, decided by CrossHair over all arguments satisfying the preconditions.
The form of the maps is the one the C++ library writes (C19, C20): {'x': value}, an instruction reference as
{'name': text, 'operand_types': [bytes, ...]} or {} when it refers to nothing."""
from typing import List
import libqasm
import cqasm.v3x as package
import cqasm.v3x.types as T
import cqasm.v3x.instruction as I
import cqasm.v3x.primitives as P


class Text(str):
    """str whose decoding form is bytes.decode, as documented; lets the bytes stay symbolic"""
    def __new__(cls, value='', encoding=None, errors='strict'):
        return value.decode(encoding, errors) if encoding is not None else value if type(value) is not bytes else str(value)


SYMBOLIC = False   # set while CrossHair runs
def text_type(fn):
    if not SYMBOLIC: return fn(P.Str)
    old = P.Str
    P.Str = Text
    try: return fn(P.Str)
    finally: P.Str = old


def same_float(a, b): return a == b or (a != a and b != b)


def decode_int(v: int) -> bool:
    """ post: _ """
    return P.deserialize(P.Int, {'x': v}) == v
decode_int.sample = [(0,), (-2**63,), (2**63 - 1,)]

def decode_bool(v: bool) -> bool:
    """ post: _ """
    r = P.deserialize(P.Bool, {'x': v})
    return r == v and isinstance(r, bool)
decode_bool.sample = [(True,), (False,)]

def decode_float(v: float) -> bool:
    """ post: _ """
    return same_float(P.deserialize(P.Float, {'x': v}), v)
decode_float.sample = [(0.5,), (float('inf'),), (1e308,)]

def decode_text(v: str) -> bool:
    """ post: _ """
    return P.deserialize(P.Str, {'x': v}) == v
decode_text.sample = [('',), ('q',), ('\u00e9\n',)]

def decode_bytes_ascii(v: bytes) -> bool:
    """
    pre: len(v) <= 2 and all(x < 128 for x in v)
    post: _
    """
    r = text_type(lambda s: P.deserialize(s, {'x': v}))
    return len(r) == len(v) and all(ord(a) == b for a, b in zip(r, v))
decode_bytes_ascii.sample = [(b'',), (b'q',), (b'"\\',)]

def decode_byte(a: int) -> bool:
    """
    pre: 0 <= a < 128
    post: _
    """
    r = P.deserialize(P.Str, {'x': bytes([a])})
    return type(r) is str and len(r) == 1 and ord(r) == a
decode_byte.sample = [(0,), (127,)]

def decode_bytes_wide(a: int, b: int) -> bool:
    """
    pre: 0xc3 <= a < 0xc5 and 0x80 <= b < 0xa0
    post: _
    """
    r = P.deserialize(P.Str, {'x': bytes([a, b])})
    return len(r) == 1 and ord(r) == ((a & 31) << 6 | (b & 63))
decode_bytes_wide.sample = [(0xc3, 0x89)]

def decode_version(v: List[int]) -> bool:
    """
    pre: len(v) <= 4
    post: _
    """
    r = P.deserialize(P.Version, {'x': v})
    return isinstance(r, P.Version) and list(r) == v
decode_version.sample = [([3, 0],), ([],), ([2**40],)]

def version_of_text(a: int, b: int, n: int) -> bool:
    """
    pre: 0 <= a < 10 and 0 <= b < 10 and 1 <= n <= 3
    post: _
    """
    r = P.Version('.'.join([chr(48 + a), chr(48 + b), '12'][:n]))
    return list(r) == [a, b, 12][:n]
version_of_text.sample = [(3, 0, 2), (9, 1, 3)]

def decode_reference(name: str, types: List[int]) -> bool:
    """
    pre: len(types) <= 3
    post: _
    """
    r = P.deserialize(I.InstructionRef, {'name': name, 'operand_types': list(types)})
    return isinstance(r, I.InstructionRef) and r.data is not None and r.data.name == name and [t.data for t in r.data.types] == types
decode_reference.sample = [('X', [1]), ('CNOT', [1, 2]), ('', [])]

def decode_empty_reference(other: int) -> bool:
    """ post: _ """
    r = P.deserialize(I.InstructionRef, {})
    return isinstance(r, I.InstructionRef) and r.data is None and str(r) == 'unresolved'
decode_empty_reference.sample = [(0,)]

def encode_reference(name: str, types: List[int]) -> bool:
    """
    pre: len(types) <= 3
    post: _
    """
    m = P.serialize(I.InstructionRef, I.InstructionRef(name, [T.Node(t) for t in types]))
    return m == {'name': name, 'operand_types': types} and P.serialize(I.InstructionRef, I.InstructionRef()) == {}
encode_reference.sample = [('X', [1]), ('CNOT', [1, 2])]

def encode_scalars(i: int, b: bool, s: str) -> bool:
    """ post: _ """
    return P.serialize(P.Int, i) == {'x': i} and P.serialize(P.Bool, b) == {'x': b} and P.serialize(P.Str, s) == {'x': s}
encode_scalars.sample = [(1, True, 'q'), (-5, False, '')]

def encode_float(v: float) -> bool:
    """ post: _ """
    m = P.serialize(P.Float, v)
    return set(m) == {'x'} and same_float(m['x'], v)
encode_float.sample = [(0.5,)]

def encode_version(v: List[int]) -> bool:
    """
    pre: len(v) <= 4
    post: _
    """
    return P.serialize(P.Version, P.Version(v)) == {'x': v}
encode_version.sample = [([3, 0],)]

def round_trip(i: int, v: List[int], name: str) -> bool:
    """
    pre: len(v) <= 3
    post: _
    """
    r = P.deserialize(I.InstructionRef, P.serialize(I.InstructionRef, I.InstructionRef(name, [T.Node(t) for t in v])))
    return P.deserialize(P.Int, P.serialize(P.Int, i)) == i and list(P.deserialize(P.Version, P.serialize(P.Version, P.Version(v)))) == v and r.data.name == name and [t.data for t in r.data.types] == v
round_trip.sample = [(1, [3, 0], 'X')]

def instruction_text(a: int, b: int, n: int) -> bool:
    """
    pre: 0 <= a < 10 and 0 <= b < 10 and 0 <= n <= 2
    post: _
    """
    i = I.Instruction('Rx', [T.Node(chr(48 + a)), T.Node(chr(48 + b))][:n])
    return i.name == 'Rx' and len(i.types) == n and str(i) == 'Rx(' + ', '.join([chr(48 + a), chr(48 + b)][:n]) + ')' and str(I.InstructionRef(i)) == str(i) and I.InstructionRef(i).data is i and I.Instruction('Rx').types == ()
instruction_text.sample = [(1, 2, 2), (3, 4, 0)]

TREE = ['\xa1a', 'abc', '\udcff\u00e9\x00', '']
def call(which, data, name, given):
    libqasm.asked.clear()
    a = package.Analyzer()
    libqasm.asked.clear()
    args = (data, name) if given else (data,)
    if which == 0: return a.parse_file(*args), 'parse_file', args
    if which == 1: return a.parse_string(*args), 'parse_string', args
    if which == 2: return a.analyze_file(*args), 'analyze_file', args
    if which == 3: return a.analyze_string(*args), 'analyze_string', args
    if which == 4: return a.parse_file_to_json(*args), 'parse_file_to_json', args
    if which == 5: return a.parse_string_to_json(*args), 'parse_string_to_json', args
    if which == 6: return a.analyze_file_to_json(*args), 'analyze_file_to_json', args
    return a.analyze_string_to_json(*args), 'analyze_string_to_json', args

def tree_or_errors(which: int, tree: int, errors: List[str], data: str, name: str, given: bool) -> bool:
    """
    pre: 0 <= which <= 3 and 0 <= tree < 4 and len(errors) <= 2
    post: _
    """
    first = TREE[tree] if not errors else ''
    libqasm.result = [first] + errors
    r, asked, args = call(which, data, name, given)
    if libqasm.asked != [(asked, args)]: return False
    if errors: return r == errors
    return r.kind == ('syntax tree' if which < 2 else 'semantic tree') and r.data == first.encode('utf-8', 'surrogateescape')
tree_or_errors.sample = [(w, t, e, 'd', 'n', g) for w in range(4) for t in range(4) for e in ([], ['a'], ['a', 'b']) for g in (True, False)]

def json_passed_on(which: int, json: str, data: str, name: str, given: bool) -> bool:
    """
    pre: 4 <= which <= 7
    post: _
    """
    libqasm.result = json
    r, asked, args = call(which, data, name, given)
    return r == json and libqasm.asked == [(asked, args)]
json_passed_on.sample = [(w, '{}', 'd', 'n', True) for w in range(4, 8)]

def versions_and_registration(v: str, plain: bool) -> bool:
    """ post: _ """
    libqasm.asked.clear()
    package.Analyzer(v) if plain else package.Analyzer(v, True)
    return libqasm.asked == [('init', (v,) if plain else (v, True))]
versions_and_registration.sample = [('3.0', True)]

CONDITIONS = [decode_int, decode_bool, decode_float, decode_text, decode_bytes_ascii, decode_byte, decode_bytes_wide, decode_version, version_of_text, decode_reference, decode_empty_reference, encode_reference, encode_scalars, encode_float, encode_version, round_trip, instruction_text, tree_or_errors, json_passed_on, versions_and_registration]
