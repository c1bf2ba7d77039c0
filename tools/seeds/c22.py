exec(open('/verif/tools/seed.py').read())
X = 'src/hwp5/xsl/plaintext.xsl'
COMMON = '''
import struct
from contextlib import closing
from hwp5.hwp5txt import TextTransform
from hwp5.xmlmodel import Hwp5File
from io import BytesIO
class Stream(object):
    def __init__(self, data): self.data = data
    def open(self): return BytesIO(self.data)
def rec(tag, level, payload):
    return struct.pack('<I', tag | level << 10 | len(payload) << 20) + payload
def para(units, shapes=((0, 0),), split=0):
    return (rec(66, 0, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, split, len(shapes), 0, 0, 1))
        + rec(67, 1, struct.pack('<%dH' % len(units), *units)) + rec(68, 1, b''.join(struct.pack('<II', *s) for s in shapes)))
class Dir(object):
    def __init__(self, d): self.d = d
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def close(self): pass
def document(*sections):
    h = Hwp5File(os.path.join(FIX, 'sample-5017.hwp'))
    si = h['\\x05HwpSummaryInformation'].open().read()
    h.close()
    header = b'HWP Document File' + bytes(15) + struct.pack('<II', 0x05000304, 0) + bytes(216)
    docinfo = rec(16, 0, b'\\1\\0' * 7 + bytes(12)) + rec(17, 0, bytes(64))
    return Hwp5File(Dir({'FileHeader': Stream(header), 'DocInfo': Stream(docinfo), '\\x05HwpSummaryInformation': Stream(si),
        'BodyText': Dir(dict(('Section%d' % n, Stream(s)) for n, s in enumerate(sections)))}))
def text(h):
    f = BytesIO()
    TextTransform().transform_hwp5_to_text(h, f)
    return f.getvalue().decode('utf-8')
'''
seed('c22-blanks', 'C22', [(X, """    <xsl:value-of select="text()"/>
""", """    <!-- ordinary blanks only -->
    <xsl:value-of select="translate(text(), '&#160;&#12288;&#173;', '  ')"/>
""")], COMMON + '''
got = text(document(para([0x41, 0xa0, 0x42, 0x3000, 0x43, 0xad, 0x44, 13])))
print(repr(got))
sys.exit(got != 'A\\xa0B\\u3000C\\xadD\\n')
''', 'a special blank or a soft hyphen', 'another character, or none, comes out')
seed('c22-newline-between', 'C22', [(X, """    <xsl:text>&#10;</xsl:text>
  </xsl:template>

  <xsl:template match="Text">""", """    <xsl:if test="following-sibling::* or not(ancestor::Paragraph)">
      <xsl:text>&#10;</xsl:text>
    </xsl:if>
  </xsl:template>

  <xsl:template match="Text">""")], COMMON + '''
note = (rec(71, 1, b'  nf' + bytes(20)) + rec(72, 2, struct.pack('<HHI', 1, 0, 0) + bytes(30)))
inner = para([0x78, 13]).replace(struct.pack('<I', 66 | 22 << 20), struct.pack('<I', 66 | 2 << 10 | 22 << 20))
inner = rec(66, 2, struct.pack('<IIHBBHHHI', 2, 0, 0, 0, 0, 1, 0, 0, 1)) + rec(67, 3, struct.pack('<2H', 0x78, 13)) + rec(68, 3, struct.pack('<II', 0, 0))
got = text(document(para([0x41, 17, 0x2020, 0x666e, 0, 0, 0, 0, 17, 0x42, 13]) + note + inner))
print(repr(got))
sys.exit(got != 'Ax\\nB\\n')
''', 'a note, whose last paragraph has nothing after it', 'its text and what follows the note run together')
seed('c22-click-here', 'C22', [(X, """  <xsl:template match="ControlChar"></xsl:template>
""", """  <xsl:template match="ControlChar | FieldClickHere[not(@command)]"></xsl:template>

  <!-- the guide of a form -->
  <xsl:template match="FieldClickHere[not(following-sibling::*)]"></xsl:template>
""")], COMMON + '''
field = rec(71, 1, b'klc%' + struct.pack('<IBHI', 0, 0, 0, 7))
got = text(document(para([0x41, 3, 0x6b6c, 0x2563, 0, 0, 0, 0, 3, 0x42, 4, 0x6b6c, 0x2563, 0, 0, 0, 0, 4, 0x43, 13]) + field,
  para([3, 0x6b6c, 0x2563, 0, 0, 0, 0, 3, 0x42, 4, 0x6b6c, 0x2563, 0, 0, 0, 0, 4]) + field))
print(repr(got))
sys.exit(got != 'ABC\\nB\\n')
''', 'a field to fill in at the end of a line', 'its text is lost')
