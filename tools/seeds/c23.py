exec(open('/verif/tools/seed.py').read())
B = 'src/hwp5/bintype.py'
COMMON = '''
import io, struct
from io import BytesIO
from contextlib import closing
from hwp5.xmlmodel import Hwp5File
class Stream(object):
    def __init__(self, data): self.data = data
    def open(self): return BytesIO(self.data)
class Dir(object):
    def __init__(self, d): self.d = d
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def close(self): pass
def tree(stg):
    out = {}
    for k in stg:
        x = stg[k]
        out[k] = Stream(x.open().read()) if hasattr(x, 'open') else Dir(tree(x))
    return out
def fixture(name, version=None, **other):
    from hwp5.storage.ole import OleStorage
    stg = OleStorage(os.path.join(FIX, name))
    t = tree(stg)
    stg.close()
    if version:
        h = t['FileHeader'].data
        t['FileHeader'] = Stream(h[:32] + bytes(reversed(version)) + h[36:])
    t.update(other)
    return Hwp5File(Dir(t))
'''
seed('c23-typedefs-by-series', 'C23', [(B, """    if version not in versioned_typedefs:
        versioned_typedefs[version] = typedefs = dict()
    typedefs = versioned_typedefs[version]
""", """    # layouts belong to a series of versions, whose last number is of the build
    series = version[:3]
    if series not in versioned_typedefs:
        versioned_typedefs[series] = typedefs = dict()
    typedefs = versioned_typedefs[series]
""")], COMMON + '''
import hwp5.bintype
def models(version):
    return [sorted(m['content']) for m in fixture('table.hwp', version).text.section(0).models()]
new = models((5, 0, 1, 7))
old = models((5, 0, 1, 4))
again = models((5, 0, 1, 7))
hwp5.bintype.versioned_typedefs.clear()
alone = models((5, 0, 1, 4))
print(old == alone, again == new)
sys.exit(old != alone or again != new)
''', 'documents of two builds of a series, one on each side of a change, read in one process', 'the second is read by the layouts of the first')
seed('c23-sorted-in-place', 'C23', [('src/hwp5/msoleprops.py', """            properties = sorted(
                propertyset.properties,
                key=lambda property: property.desc.offset,
            )
            for property in properties:
""", """            # in the order of the stream
            properties = propertyset.properties
            properties.sort(
                key=lambda property: property.desc.offset,
            )
            for property in properties:
""")], COMMON + '''
import uuid
sec = struct.pack('<II', 8 + 8 * 2 + 16, 2) + struct.pack('<IIII', 14, 32, 15, 24) + struct.pack('<IIII', 3, 7, 3, 8)
data = (struct.pack('<HHI', 0xfffe, 0, 0x20105) + b'\\0' * 16 + struct.pack('<I', 1)
    + uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c').bytes_le + struct.pack('<I', 48) + sec)
h = fixture('table.hwp', **{'\\x05HwpSummaryInformation': Stream(data)})
stream = h.summaryinfo.propertySetStream
before = [p.id for p in stream.propertysets[0].properties]
lines = list(h.summaryinfo.plaintext_lines)
after = [p.id for p in stream.propertysets[0].properties]
print(before, after)
sys.exit(before != after)
''', 'properties whose values are not in the order of the table, read before the text is made', 'the list that was handed out changes')
seed('c23-decompressed-once', 'C23', [('src/hwp5/filestructure.py', """class CompressedStream(ItemWrapper):

    def open(self):
        return decompress(self.wrapped.open())
""", """class CompressedStream(ItemWrapper):

    decompressed = None

    def open(self):
        # once is enough
        if self.decompressed is None or self.decompressed.closed:
            self.decompressed = decompress(self.wrapped.open())
        self.decompressed.seek(0)
        return self.decompressed
""")], COMMON + '''
h = fixture('table.hwp')
alone = list(r['seqno'] for r in h.docinfo.records())
h = fixture('table.hwp')
a = h.docinfo.records()
got = [next(a)['seqno'] for _ in range(3)]
b = next(h.docinfo.records())
got += [r['seqno'] for r in a]
payloads = [r['payload'] for r in h.docinfo.records()]
a, b = h.docinfo.records(), h.docinfo.records()
pairs = [x['payload'] == y['payload'] for x, y in zip(a, b)]
print(got == alone, all(pairs), len(pairs), len(payloads))
sys.exit(got != alone or not all(pairs) or len(pairs) != len(payloads))
''', 'two readers of the same stream of a handle at a time', 'they take the records from each other')
seed('c23-ids-go-on', 'C23', [('src/hwp5/xmlmodel.py', """    paragraph_id = 0
    table_id = 0
    gshape_id = 0
    shape_id = 0
    for event, item in event_prefixed_mac:
""", """    paragraph_id = 0
    table_id = 0
    gshape_id = 0
    for event, item in event_prefixed_mac:
"""), ('src/hwp5/xmlmodel.py', """                attributes['shape_id'] = shape_id
                shape_id += 1
""", """                attributes['shape_id'] = next(shape_ids)
"""), ('src/hwp5/xmlmodel.py', """def give_elements_unique_id(""", """shape_ids = count()


def give_elements_unique_id("""), ('src/hwp5/xmlmodel.py', """from itertools import chain
""", """from itertools import chain
from itertools import count
""")], COMMON + '''
from hwp5.xmlmodel import ShapeComponent
def ids():
    return [x[1]['shape_id'] for e, x in fixture('textbox.hwp').events() if x[0] is ShapeComponent and 'shape_id' in x[1]]
a, b = ids(), ids()
print(a, b)
sys.exit(a != b)
''', 'a document with a drawing read after another one', 'its ids are others')
seed('c23-context-of-class', 'C23', [('src/hwp5/binmodel/__init__.py', """class ModelStream(recordstream.RecordStream):

    def models(self, **kwargs):
        # prepare binmodel parsing context
        kwargs.setdefault('version', self.version)
        try:
            kwargs.setdefault('path', self.path)
        except AttributeError:
            pass
""", """class ModelStream(recordstream.RecordStream):

    # what the streams are parsed with
    context = dict()

    def models(self, **kwargs):
        # prepare binmodel parsing context
        self.context.update(kwargs, version=kwargs.get('version', self.version))
        try:
            self.context.setdefault('path', self.path)
        except AttributeError:
            pass
        kwargs = self.context
"""), ('src/hwp5/binmodel/__init__.py', """            groups = self.models_treegrouped(**kwargs)
            models = chain_iterables(groups)
""", """            kwargs.pop('treegroup', None)
            groups = (parse_models(kwargs, records)
                      for records in self.records_treegrouped())
            models = chain_iterables(groups)
""")], COMMON + '''
a, b = fixture('table.hwp', (5, 0, 0, 4)), fixture('table.hwp', (5, 0, 3, 4))
alone = [sorted(m['content']) for m in fixture('table.hwp', (5, 0, 0, 4)).docinfo.models()]
x = a.docinfo.models()
got = [sorted(next(x)['content'])]
next(b.docinfo.models())
got += [sorted(m['content']) for m in x]
print(got == alone)
sys.exit(got != alone)
''', 'models of a document being read when those of one of another version are begun', 'the rest is read as of the other version')
