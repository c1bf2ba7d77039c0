exec(open('/verif/tools/seed.py').read())
F = 'src/hwp5/filestructure.py'
MEM = '''
import zlib, struct
class S:
    def __init__(self, d): self.d = d
    def open(self): return io.BytesIO(self.d)
class D(dict):
    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        return D(v) if isinstance(v, dict) else S(v)
def deflate(d):
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    return c.compress(d) + c.flush()
def header(flags):
    return b'HWP Document File' + b'\\0' * 15 + b'\\4\\3\\0\\5' + struct.pack('<I', flags) + b'\\0' * 216
from hwp5.filestructure import Hwp5File
'''
seed('c04-shared-open', 'C04', [(F, """class CompressedStream(ItemWrapper):

    def open(self):
        return decompress(self.wrapped.open())
""", """class CompressedStream(ItemWrapper):

    def open(self):
        # inflate once, rewind for later openings
        stream = self.__dict__.get('inflated')
        if stream is None or stream.closed:
            stream = self.inflated = decompress(self.wrapped.open())
        stream.seek(0)
        return stream
""")], MEM + '''
h = Hwp5File(D({'FileHeader': header(1), 'DocInfo': deflate(b'0123456789'), 'BodyText': {}}))
item = h['DocInfo']
a = item.open()
x = a.read(4)
b = item.open()
y = b.read(2)
z = a.read()
print(x, y, z)
sys.exit((x, y, z) != (b'0123', b'01', b'456789'))
''', 'the same stream opened a second time while the first opening is still being read', 'the two openings share one position')
seed('c04-dist-scripts', 'C04', [(F, """        elif name == 'Scripts':
            return CompressedStorage
""", """        elif name == 'Scripts' and not self.header.flags.distributable:
            return CompressedStorage
""")], MEM + '''
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
def dist(plain, seed=99):
    plain += b'\\0' * (-len(plain) % 16)
    head = bytearray(256)
    head[0:4] = struct.pack('<I', seed)
    off = 4 + (seed & 15)
    dig = ('0123456789ABCDEF' * 2 + '01234567').encode('utf-16le')
    head[off:off + 80] = dig
    s = seed; n = 0
    for i in range(256):
        if n == 0:
            s = (s * 214013 + 2531011) & 0xffffffff; key = (s >> 16) & 0xff
            s = (s * 214013 + 2531011) & 0xffffffff; n = ((s >> 16) & 15) + 1
        if i >= 4: head[i] ^= key
        n -= 1
    e = Cipher(algorithms.AES(dig[:16]), modes.ECB()).encryptor()
    return struct.pack('<I', (256 << 20) | 28) + bytes(head) + e.update(plain) + e.finalize()
h = Hwp5File(D({'FileHeader': header(5), 'DocInfo': deflate(b'x'), 'ViewText': {}, 'Scripts': {'DefaultJScript': dist(deflate(b'script text'))}}))
got = h['Scripts']['DefaultJScript'].open().read()
print(got)
sys.exit(got != b'script text')
''', 'a compressed distribution document with script streams', 'script streams are decrypted but not inflated')
