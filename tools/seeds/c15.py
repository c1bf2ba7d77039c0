exec(open('/verif/tools/seed.py').read())
F = 'src/hwp5/xmlformat.py'
DEMO = '''
from io import BytesIO
import xml.etree.ElementTree as ET
from hwp5.dataio import Struct, DOUBLE, UINT16, UINT32, BSTR, Enum
from hwp5.treeop import STARTEVENT, ENDEVENT
from hwp5.xmlmodel import XmlEvents
def show(model, **attributes):
    item = model, attributes, {}
    out = BytesIO()
    XmlEvents(iter([(STARTEVENT, item), (ENDEVENT, item)])).dump(out)
    return ET.fromstring(out.getvalue())
'''
seed('c15-float-digits', 'C15', [(F, "        return repr(value)\n", "        text = '%.16g' % value\n        return text if set(text) & set('.e') else text + '.0'\n")], DEMO + '''
class M(Struct):
    def attributes():
        yield DOUBLE, 'v'
    attributes = staticmethod(attributes)
sys.exit(any(float(show(M, v=x).get('v')) != x for x in (1.0, 0.1 + 0.2, 1 / 3.0, 1e-300)))
''', 'a floating point value that needs 17 digits', 'the value read back differs')
seed('c15-enum-other', 'C15', [(F, "        return value.name.lower() if value.name else str(int(value))", "        return (value.name or 'unknown').lower()")], DEMO + '''
E = Enum(a=0, b=1)
class M(Struct):
    def attributes():
        yield E, 'x'
    attributes = staticmethod(attributes)
got = [show(M, x=E(v)).get('x') for v in (0, 1, 2, 3)]
print(got)
sys.exit(got != ['a', 'b', '2', '3'])
''', 'an enumerated value without a name', 'different values are written alike')
seed('c15-storage-id', 'C15', [(F, "        yield name, 'BIN%04X' % value\n", "        yield name, 'BIN%04d' % value\n")], DEMO + '''
from hwp5.binmodel import BinStorageId
class M(Struct):
    def attributes():
        yield BinStorageId, 'storage_id'
    attributes = staticmethod(attributes)
got = [show(M, storage_id=v).get('storage-id') for v in (1, 9, 10, 255, 65535)]
print(got)
sys.exit(got != ['BIN0001', 'BIN0009', 'BIN000A', 'BIN00FF', 'BINFFFF'])
''', 'a document with more than nine embedded items', 'the name of the item is not that of its stream')
