exec(open('/verif/tools/seed.py').read())
MEM = '''
import struct, tempfile, shutil
class S:
    def __init__(self, d): self.d = d
    def open(self): return io.BytesIO(self.d)
class D(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return D(v) if isinstance(v, dict) else S(v)
'''
seed('c05-section-order', 'C05', [('src/hwp5/filestructure.py', """        indexes = list(gen())
        indexes.sort()
        return indexes
""", """        # by name, as they are stored
        return sorted(gen(), key='Section{}'.format)
""")], MEM + '''
from hwp5.filestructure import Sections
s = Sections(D(('Section%d' % i, b'%d' % i) for i in (10, 2, 0, 1, 3)), (5, 0, 3, 4))
got = [x.open().read() for x in s.sections]
print(s.section_indexes(), got)
sys.exit(got != [b'0', b'1', b'2', b'3', b'10'])
''', 'a document with more than ten sections', 'section 10 is visited before section 2')
seed('c05-stale-tail', 'C05', [('src/hwp5/storage/__init__.py', """                with io.open(outpath, 'wb') as outfile:
                    outfile.write(f.read())
""", """                # keep the file (and its mode) when unpacking again
                mode = 'r+b' if os.path.exists(outpath) else 'wb'
                with io.open(outpath, mode) as outfile:
                    outfile.write(f.read())
""")], MEM + '''
from hwp5.storage import unpack
d = tempfile.mkdtemp()
try:
    unpack(D(a=b'a long first version', b={'c': b'x'}), d)
    unpack(D(a=b'short', b={'c': b'x'}), d)
    got = open(os.path.join(d, 'a'), 'rb').read()
finally:
    shutil.rmtree(d)
print(got)
sys.exit(got != b'short')
''', 'unpacking into a directory that holds an earlier, longer version of a stream', 'the file keeps the tail of the earlier content')
seed('c05-nested-derived', 'C05', [('src/hwp5/storage/__init__.py', """            item = self.wrapped[name]
            if hasattr(item, 'other_formats'):
                other_formats = item.other_formats()
                if other_formats:
                    for ext in other_formats:
                        yield name + ext
""", """            item = self.wrapped[name]
            if hasattr(item, 'other_formats'):
                other_formats = item.other_formats()
                if other_formats:
                    if is_storage(item) and not any(True for _ in item):
                        continue
                    for ext in other_formats:
                        yield name + ext
""")], MEM + '''
from hwp5.xmlmodel import Hwp5File
from hwp5.storage import ExtraItemStorage, iter_storage_leafs
h = Hwp5File(D({'FileHeader': b'HWP Document File' + b'\\0' * 15 + b'\\4\\3\\0\\5' + b'\\0' * 220, 'DocInfo': b'', 'BodyText': {}}))
e = ExtraItemStorage(h)
names = list(iter_storage_leafs(e))
opens = e['BodyText.xml'].open().read()
print(names, opens[:40])
sys.exit('BodyText.xml' not in names)
''', 'a document whose text storage holds no section', 'BodyText.xml opens but is not listed')
