exec(open('/verif/tools/seed.py').read())
F = 'src/hwp5/distdoc.py'
DEMO = '''
import struct
from hwp5 import distdoc
def mask(seed):
    s, out = seed, []
    while len(out) < 256:
        s = (s * 214013 + 2531011) & 0xffffffff
        pad = s >> 16 & 0xff
        s = (s * 214013 + 2531011) & 0xffffffff
        out += [pad] * ((s >> 16 & 15) + 1)
    return [0] * 4 + out[4:256]
def head(seed, digest):
    clear = bytearray(b'Z' * 256)
    clear[:4] = struct.pack('<I', seed)
    off = 4 + (seed & 15)
    clear[off:off + 80] = digest
    return bytes(bytearray(x ^ m for x, m in zip(clear, mask(seed))))
D = bytes(bytearray(range(80)))
'''
seed('c18-rand-modulo', 'C18', [(F, "        value = (self.seed >> 16) & 0x7fff\n", "        value = (self.seed >> 16 & 0x7fff) % 0x7fff\n")], DEMO + '''
inv = pow(214013, -1, 1 << 32)
bad = [n for n in list(range(3000)) + [((0x7fff1234 - 2531011) * inv) % (1 << 32)] if bytes(distdoc.decode_head_to_sha1(head(n, D))) != D]
print(bad)
sys.exit(bool(bad))
''', 'a seed whose random numbers reach 32767 or have their highest bit set and all others', 'the mask of such heads is wrong')
seed('c18-long-head', 'C18', [(F, "    if len(record_payload) != 256:", "    if len(record_payload) < 256:"), (F, "    for i in range(256):\n        if n == 0:", "    for i in range(len(data)):\n        if n == 0:")], DEMO + '''
p = head(5, D) + b'12'
try:
    distdoc.decode(io.BytesIO(struct.pack('<I', 28 | len(p) << 20) + p + b'x' * 32))
except Exception as e:
    print(e)
    sys.exit(0)
sys.exit(1)
''', 'a head of more than 256 bytes', 'it is accepted')
seed('c18-place', 'C18', [(F, "    sha1offset = 4 + (seed & 0xf)\n", "    sha1offset = 4 + (seed & 0xf or 0x10)\n")], DEMO + '''
bad = [n for n in range(64) if bytes(distdoc.decode_head_to_sha1(head(n, D))) != D]
print(bad)
sys.exit(bool(bad))
''', 'a seed which is a multiple of 16', 'digest and key are taken from the wrong place')
