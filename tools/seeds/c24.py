exec(open('/verif/tools/seed.py').read())
H = 'src/hwp5/xsl/hwp5html.xsl'
COMMON = '''
import struct, tempfile, shutil
from contextlib import closing
from hwp5.hwp5html import HTMLTransform
from hwp5.xmlmodel import Hwp5File
from io import BytesIO
TMP = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, TMP)
class Stream(object):
    def __init__(self, data): self.data = data
    def open(self): return BytesIO(self.data)
def rec(tag, level, payload):
    return struct.pack('<I', tag | level << 10 | len(payload) << 20) + payload
def para(units, shapes=((0, 0),), split=0, level=0):
    return (rec(66, level, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, split, len(shapes), 0, 0, 1))
        + rec(67, level + 1, struct.pack('<%dH' % len(units), *units)) + rec(68, level + 1, b''.join(struct.pack('<II', *s) for s in shapes)))
class Dir(object):
    def __init__(self, d): self.d = d
    def __iter__(self): return iter(self.d)
    def __getitem__(self, k): return self.d[k]
    def close(self): pass
def document(*sections):
    h = Hwp5File(os.path.join(FIX, 'sample-5017.hwp'))
    si = h['\\x05HwpSummaryInformation'].open().read()
    h.close()
    header = b'HWP Document File' + bytes(15) + struct.pack('<II', 0x05000304, 0) + bytes(216)
    docinfo = rec(16, 0, b'\\1\\0' * 7 + bytes(12)) + rec(17, 0, bytes(64))
    return Hwp5File(Dir({'FileHeader': Stream(header), 'DocInfo': Stream(docinfo), '\\x05HwpSummaryInformation': Stream(si),
        'BodyText': Dir(dict(('Section%d' % n, Stream(s)) for n, s in enumerate(sections)))}))
def page(h, **kw):
    with open(os.path.join(TMP, 'page'), 'wb+') as f:
        HTMLTransform(**kw).transform_hwp5_to_xhtml(h, f)
        f.seek(0)
        return f.read().decode('utf-8')
def text(page):
    import re
    return re.sub('<[^>]*>', '', page.split('<body')[1].split('>', 1)[1]).replace('\\n', '').replace('\\r', '').replace('&#13;', '')
'''
M = 'src/hwp5/xmlmodel.py'
seed('c24-blank-runs', 'C24', [(M, '''        if isinstance(chunk, basestring):
            textitem = (Text,
''', '''        if isinstance(chunk, basestring):
            if chunk.isspace() and len(chunk) > 1:
                # nothing to see
                continue
            textitem = (Text,
''')], COMMON + '''
got = text(page(document(para([0x41, 0x20, 0x20, 0x42, 13], ((0, 0), (1, 1), (3, 0))))))
print(repr(got))
sys.exit(got != 'A  B')
''', 'two or more blanks in a row which have a character shape of their own (underlined blanks in a form)', 'the blanks are lost')
seed('c24-page-over-page', 'C24', [('src/hwp5/hwp5html.py', '''        with io.open(html_path, 'wb') as f:
            self.transform_xhwp5_to_xhtml(xhwp5path, f)
''', '''        # keep the attributes of an existing page
        mode = 'r+b' if os.path.exists(html_path) else 'wb'
        with io.open(html_path, mode) as f:
            self.transform_xhwp5_to_xhtml(xhwp5path, f)
''')], COMMON + '''
out = os.path.join(TMP, 'out')
t = HTMLTransform()
os.mkdir(out)
for h in (document(para([0x41] * 500 + [13])), document(para([0x42, 13]))):
    t.transform_hwp5_to_dir(h, out)
got = text(open(os.path.join(out, 'index.xhtml')).read())
print(repr(got))
sys.exit(got != 'B')
''', 'a conversion into a directory with an earlier, longer page', 'the end of the earlier page stays')
seed('c24-program-buffer', 'C24', [('src/hwp5/plat/xsltproc.py', '''        p = Popen(cmd, stdout=output)
        p.wait()
''', '''        p = Popen(cmd, stdout=subprocess.PIPE)
        chunk = p.stdout.read(65536)
        while len(chunk) == 65536:
            output.write(chunk)
            chunk = p.stdout.read(65536)
        p.wait()
''')], COMMON + '''
from hwp5.plat.xsltproc import xslt_compile
h = document(*[para([0x41 + n] * 9 + [13]) for n in range(9)])
got = page(h, xslt_compile=xslt_compile) if not os.system('which xsltproc >/dev/null') else ''
print(len(got))
got = text(got)
sys.exit(got != ''.join(chr(0x41 + n) * 9 for n in range(9)))
''', 'conversion by xsltproc', 'the last piece of the page is not written')
seed('c24-header-once', 'C24', [(H, '''      <xsl:apply-templates select="//Footer" mode="div" />
''', '''      <xsl:apply-templates select="//Footer[not(ancestor::TableControl)]" mode="div" />
''')], COMMON + '''
def ctl(chid, level, rest): return rec(71, level, chid[::-1] + rest)
ext = [11, 0, 0, 0, 0, 0, 0, 11]
foot = ctl(b'foot', 5, bytes(20)) + rec(72, 6, bytes(24)) + para([0x46, 13], level=6)
cell = rec(72, 2, struct.pack('<HHI', 1, 0, 0) + struct.pack('<4H', 0, 0, 1, 1) + bytes(40)) + para([16] + [0] * 6 + [16, 0x43, 13], level=2) + ctl(b'foot', 3, bytes(20)) + rec(72, 4, bytes(24)) + para([0x46, 13], level=4)
table = ctl(b'tbl ', 1, bytes(60)) + rec(77, 2, struct.pack('<IHHH', 0, 1, 3, 1) + bytes(8) + struct.pack('<H', 1) + b'\\1\\0\\0\\0') + cell
got = text(page(document(para([0x41] + ext + [13]) + table)))
print(repr(got))
sys.exit('F' not in got)
''', 'a footer defined in a table cell', 'the footer is not shown (a change of a style sheet, which does not count)')
