exec(open('/verif/tools/seed.py').read())
B='src/hwp5/bintype.py'
seed('c07-version-key', 'C07', [(B, """    if version not in versioned_typedefs:
        versioned_typedefs[version] = typedefs = dict()
    typedefs = versioned_typedefs[version]
""", """    # layouts do not depend on the last (revision) number
    key = tuple(version[:3])
    if key not in versioned_typedefs:
        versioned_typedefs[key] = typedefs = dict()
    typedefs = versioned_typedefs[key]
""")], '''
from hwp5.bintype import read_type
from hwp5.dataio import Struct, UINT8
class S(Struct):
    def attributes():
        yield UINT8, 'a'
        yield dict(type=UINT8, name='b', version=(5, 0, 2, 6))
    attributes = staticmethod(attributes)
one = read_type(S, dict(version=(5, 0, 2, 5)), io.BytesIO(b'\\1\\2'))
two = read_type(S, dict(version=(5, 0, 2, 6)), io.BytesIO(b'\\1\\2'))
print(one, two)
sys.exit((one, two) != (dict(a=1), dict(a=1, b=2)))
''', 'a type read for two versions that differ in the last number around a gate', 'the field of the newer version is missing (or read for the older one)')
seed('c07-str-short', 'C07', [('src/hwp5/dataio.py', """        data = readn(f, 2 * size)
        return decode_utf16le_with_hypua(data)
    read = staticmethod(read)
""", """        # a terminating NUL may be missing
        data = f.read(2 * size)
        if len(data) < 2 * size - 2:
            raise OutOfData(f.tell())
        return decode_utf16le_with_hypua(data)
    read = staticmethod(read)
""")], '''
from hwp5.dataio import BSTR
try:
    got = BSTR.read(io.BytesIO(b'\\2\\0a\\0'))
except Exception as e:
    got = None
print(repr(got))
sys.exit(got is not None)
''', 'a payload that ends exactly one character before the end of a string', 'a shorter string is delivered')
seed('c07-gate-skip', 'C07', [(B, """            if ev is STARTEVENT:
                for x in iter_subevents(events):
                    pass
            continue
        yield ev, item
""", """            if ev is STARTEVENT:
                for e, _ in events:
                    if e is not None:
                        break
            continue
        yield ev, item
""")], '''
from hwp5.bintype import read_type
from hwp5.dataio import Struct, UINT8, N_ARRAY, ARRAY
class S(Struct):
    def attributes():
        yield UINT8, 'a'
        yield dict(type=ARRAY(ARRAY(UINT8, 2), 2), name='b', version=(5, 0, 2, 6))
        yield UINT8, 'c'
    attributes = staticmethod(attributes)
try:
    one = read_type(S, dict(version=(5, 0, 2, 5)), io.BytesIO(b'\\1\\2'))
except Exception as e:
    one = e
print(one)
sys.exit(one != dict(a=1, c=2))
''', 'a version-gated field of a nested composite type, read for an older version', 'a part of it is left in the declaration')
