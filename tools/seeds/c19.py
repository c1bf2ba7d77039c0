exec(open('/verif/tools/seed.py').read())
O = 'src/hwp5/hwp5odt.py'
X = 'src/hwp5/xmlmodel.py'
seed('c19-manifest-quoted', 'C19', [(O, """        media_type = e.pop('media_type', 'application/octet-stream')
        file_entry(full_path, media_type)""", """        media_type = e.pop('media_type', 'application/octet-stream')
        # paths are IRI references
        file_entry(quote(full_path.encode('utf-8'), safe=b'/'), media_type)"""), (O, """def manifest_xml(f, files):
    from xml.sax.saxutils import XMLGenerator
""", """def manifest_xml(f, files):
    from six.moves.urllib.parse import quote
    from xml.sax.saxutils import XMLGenerator
""")], '''
from hwp5 import hwp5odt
from xml.etree import ElementTree
bad = 0
for n in (u'bindata/BIN0001.png', u'bindata/a b.png', u'bindata/\\uac00.x'):
    f = io.BytesIO()
    hwp5odt.manifest_xml(f, [dict(full_path=n, media_type='x/y')])
    got = [v for e in ElementTree.fromstring(f.getvalue()) for k, v in e.attrib.items() if k.endswith('full-path')]
    if got != ['/', n]:
        print(n, got)
        bad = 1
sys.exit(bad)
''', 'an item whose name has a space or a character outside ASCII', 'the manifest lists an entry that the package does not have')
seed('c19-base64-pieces', 'C19', [(X, """                b64 = base64.b64encode(binary)
""", """                # in pieces: binaries may be large
                b64 = b''.join(base64.b64encode(binary[pos:pos + 65536])
                               for pos in range(0, len(binary), 65536))
""")], '''
import base64
from hwp5 import xmlmodel
from hwp5.binmodel import BinData
from hwp5.treeop import STARTEVENT
class S(object):
    def __init__(self, d): self.d = d
    def open(self): return io.BytesIO(self.d)
bad = 0
for n in (0, 3, 1000, 65536, 65537, 200000):
    d = bytes(bytearray(i * 7 % 256 for i in range(n)))
    a = dict(flags=BinData.Flags(1), bindata=dict(storage_id=1, ext='png'))
    ev = list(xmlmodel.embed_bindata([(STARTEVENT, (BinData, a, {}))], {'BIN0001.png': S(d)}))
    try:
        ok = base64.b64decode(a['bindata']['<text>'].replace('\\n', ''), validate=True) == d
    except ValueError as e:
        ok = False
    if not ok:
        print('item of', n, 'bytes')
        bad = 1
sys.exit(bad)
''', 'an embedded item of more than 65536 bytes', 'the embedded text of a large item does not decode to its bytes')
seed('c19-only-embedded-count', 'C19', [('src/hwp5/xsl/hwp5html.xsl', """<xsl:variable name="bindata" select="/HwpDoc/DocInfo/IdMappings/BinData[number($bindataid)]"/>""", """<xsl:variable name="bindata" select="/HwpDoc/DocInfo/IdMappings/BinData[@storage = 'embedding'][number($bindataid)]"/>""")], '''
from hwp5.hwp5html import HTMLTransform
T = HTMLTransform()
def item(kind, n):
    return '<BinData storage="%s">%s</BinData>' % (kind, '<BinDataEmbedding storage-id="%s" ext="png" />' % n if kind == 'embedding' else '<BinDataLink abspath="x" relpath="y" />')
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.xml')
    with open(p, 'w') as f:
        f.write('<HwpDoc version="5.0.1.7"><DocInfo><IdMappings>' + item('link', '') + item('embedding', 'BIN0001') + item('embedding', 'BIN0002')
            + '</IdMappings></DocInfo><BodyText><SectionDef section-id="0"><Paragraph><LineSeg><GShapeObjectControl inline="1"><ShapeComponent width="1" height="1"><ShapePicture><PictureInfo bindata-id="2" /></ShapePicture></ShapeComponent></GShapeObjectControl></LineSeg></Paragraph></SectionDef></BodyText></HwpDoc>')
    o = io.BytesIO()
    T.transform_xhwp5_to_xhtml(p, o)
finally:
    shutil.rmtree(d)
print(o.getvalue()[-300:])
sys.exit(b'bindata/BIN0001.png' not in o.getvalue())
''', 'a declared item that is not embedded before the one a picture shows', 'pictures of the HTML refer to the wrong item')
seed('c19-embedded-once', 'C19', [(X, """            if attributes['flags'].storage is BinData.StorageType.EMBEDDING:
                name = ('BIN%04X' % attributes['bindata']['storage_id']
""", """            if attributes['flags'].storage is BinData.StorageType.EMBEDDING:
                if attributes['bindata']['storage_id'] in embedded:
                    # the same binary need not be embedded again
                    yield event, item
                    continue
                embedded.add(attributes['bindata']['storage_id'])
                name = ('BIN%04X' % attributes['bindata']['storage_id']
"""), (X, """def embed_bindata(event_prefixed_mac, bindata):
""", """def embed_bindata(event_prefixed_mac, bindata):
    embedded = set()
""")], '''
from hwp5 import xmlmodel
from hwp5.binmodel import BinData
from hwp5.treeop import STARTEVENT
class S(object):
    def open(self): return io.BytesIO(b'abc')
As = [dict(flags=BinData.Flags(1), bindata=dict(storage_id=1, ext='png')) for _ in range(2)]
list(xmlmodel.embed_bindata([(STARTEVENT, (BinData, a, {})) for a in As], {'BIN0001.png': S()}))
sys.exit(any('<text>' not in a['bindata'] for a in As))
''', 'a document that declares one stream twice', 'pictures of the second declaration have no data')
seed('c19-two-dots', 'C19', [('src/hwp5/hwp5odt.py', '''    name = os.path.basename(path)
    root = os.path.splitext(name)[0]
    return root + ext
''', '''    name = os.path.basename(path)
    root = name.partition('.')[0]
    return root + ext
''')], '''
import shutil, tempfile
from hwp5 import hwp5odt
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP)
os.mkdir(os.path.join(TMP, 'in'))
shutil.copy(os.path.join(FIX, 'sample-5017.hwp'), os.path.join(TMP, 'in', 'report.2010.hwp'))
os.chdir(TMP)
sys.argv = ['hwp5odt', os.path.join('in', 'report.2010.hwp')]
try:
    hwp5odt.main()
except SystemExit:
    pass
print(os.listdir('.'))
sys.exit(sorted(os.listdir('.')) != ['in', 'report.2010.odt'])
''', 'a document with more than one dot in its name, converted without --output', 'reports of several dates are written over each other')
