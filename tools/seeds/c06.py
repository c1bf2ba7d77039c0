exec(open('/verif/tools/seed.py').read())
Z = 'src/hwp5/zlib_raw_codec.py'
seed('c06-whole-after-sized', 'C06', [(Z, """            d = self.buffer + self.decoder.decode(c, True)
            self.buffer = b''
""", """            d = self.decoder.decode(c, True)
            if not d:
                d, self.buffer = self.buffer, b''
""")], '''
import zlib
from hwp5.zlib_raw_codec import StreamReader
data = os.urandom(30000)
c = zlib.compressobj(6, zlib.DEFLATED, -15)
f = StreamReader(io.BytesIO(c.compress(data) + c.flush()))
got = f.read(10) + f.read()
print(len(got))
sys.exit(got != data)
''', 'a sized read followed by a whole read, on content larger than the internal buffer', 'buffered bytes are skipped')
seed('c06-reset-midway', 'C06', [(Z, """            return self.decompressobj.decompress(input)

    def reset(self):
        self.decompressobj = zlib.decompressobj(_wbits)
""", """            return self.decompressobj.decompress(input)

    def reset(self):
        # nothing to do while no stream has been finished
        if self.decompressobj.eof:
            self.decompressobj = zlib.decompressobj(_wbits)
""")], '''
import zlib
from hwp5.zlib_raw_codec import IncrementalDecoder
c = zlib.compressobj(6, zlib.DEFLATED, -15)
z = c.compress(b'hello world ' * 9) + c.flush()
d = IncrementalDecoder()
d.decode(z[:5])
d.reset()
try:
    got = d.decode(z, True)
except zlib.error as e:
    got = e
print(got)
sys.exit(got != b'hello world ' * 9)
''', 'a decoder that is reset in the middle of a stream', 'the next stream is decoded with the state of the previous one')
