# -*- coding: utf-8 -*-
"""Document builders used as the concrete side of the specifications.

Nothing here uses the code under test: framing, compression, encryption and the
compound file are written by hand.
"""
import io
import struct
import zlib

SIGNATURE = b'HWP Document File' + b'\x00' * 15


# --------------------------------------------------------------------- records
def rec_header(tag, level, size, force_ext=False):
    if size < 0xfff and not force_ext:
        return struct.pack('<I', (size << 20) | (level << 10) | tag)
    return struct.pack('<II', (0xfff << 20) | (level << 10) | tag, size)


def rec(tag, level, payload=b''):
    return rec_header(tag, level, len(payload)) + payload


def recs(items):
    return b''.join(rec(*i) for i in items)


def parse_recs(data):
    """independent parser: [(offset, hdrlen, tag, level, size)], rest offset"""
    out = []
    pos = 0
    while True:
        if len(data) - pos < 4:
            return out, pos
        h, = struct.unpack_from('<I', data, pos)
        tag, level, size, n = h & 0x3ff, (h >> 10) & 0x3ff, h >> 20, 4
        if size == 0xfff:
            if len(data) - pos < 8:
                return out, pos
            size, = struct.unpack_from('<I', data, pos + 4)
            n = 8
        if pos + n + size > len(data):
            return out, pos
        out.append((pos, n, tag, level, size))
        pos += n + size


def deflate(data, level=6):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def fileheader(flags=0, version=(5, 0, 3, 4), signature=SIGNATURE, reserved=b'\0' * 216):
    a, b, c, d = version
    return signature + bytes([d, c, b, a]) + struct.pack('<I', flags) + reserved


# --------------------------------------------------------------- memory storage
class MemStream(object):
    def __init__(self, data, log=None, name=None):
        self.data = data
        self.log = log
        self.name = name

    def open(self):
        if self.log is not None:
            f = TrackedBytesIO(self.data)
            f.name_ = self.name
            self.log.append(f)
            return f
        return io.BytesIO(self.data)


class TrackedBytesIO(io.BytesIO):
    pass


class MemStorage(object):
    """a storage: names in insertion order -> bytes | dict"""
    def __init__(self, tree, log=None):
        self.tree = tree
        self.log = log
        self.closed = False

    def __iter__(self):
        return iter(list(self.tree))

    def __getitem__(self, name):
        v = self.tree[name]
        if isinstance(v, dict):
            return MemStorage(v, self.log)
        return MemStream(v, self.log, name)

    def close(self):
        self.closed = True


def doc_tree(docinfo=b'', sections=(), flags=0, version=(5, 0, 3, 4), extra=None):
    t = {'FileHeader': fileheader(flags, version), 'DocInfo': docinfo,
         'BodyText': dict(('Section%d' % i, s) for i, s in enumerate(sections))}
    for k, v in (extra or {}).items():
        t[k] = v
    return t


def compress_tree(tree):
    t = dict(tree)
    for k in list(t):
        if k == 'DocInfo':
            t[k] = deflate(t[k])
        elif k in ('BinData', 'BodyText', 'ViewText', 'Scripts'):
            t[k] = dict((n, deflate(v)) for n, v in t[k].items())
    return t


# ----------------------------------------------------------- OLE compound file
def write_ole(tree):
    """{name: bytes | {..}} -> bytes of a compound file (version 3)"""
    FREE, END, FATSECT = 0xffffffff, 0xfffffffe, 0xfffffffd
    entries = []  # [name, type, child, left, right, start, size, data]

    def key(n):
        return (len(n.encode('utf-16le')), n.upper())

    def add(name, node):
        i = len(entries)
        e = dict(name=name, type=1 if isinstance(node, dict) else 2,
                 child=FREE, left=FREE, right=FREE, start=END, size=0,
                 data=None if isinstance(node, dict) else node)
        entries.append(e)
        if isinstance(node, dict):
            e['child'] = addlist(node)
        return i

    def addlist(node):
        ids = [(k, add(k, v)) for k, v in node.items()]
        ids.sort(key=lambda kv: key(kv[0]))
        ids = [i for _, i in ids]

        def build(lo, hi):
            if lo >= hi:
                return FREE
            m = (lo + hi) // 2
            entries[ids[m]]['left'] = build(lo, m)
            entries[ids[m]]['right'] = build(m + 1, hi)
            return ids[m]
        return build(0, len(ids))

    root = dict(name='Root Entry', type=5, child=FREE, left=FREE, right=FREE,
                start=END, size=0, data=None)
    entries.append(root)
    root['child'] = addlist(tree)

    ss = 512
    mini = b''
    minifat = []
    big = []
    for e in entries[1:]:
        d = e['data']
        if d is None:
            continue
        e['size'] = len(d)
        if len(d) == 0:
            e['start'] = END
        elif len(d) < 4096:
            n = (len(d) + 63) // 64
            s = len(minifat)
            e['start'] = s
            minifat += [s + k + 1 for k in range(n - 1)] + [END]
            mini += d + b'\0' * (n * 64 - len(d))
        else:
            big.append(e)
    sectors = []
    fat = []

    def alloc(data):
        n = (len(data) + ss - 1) // ss
        if n == 0:
            return END
        data = data + b'\0' * (n * ss - len(data))
        s = len(sectors)
        for k in range(n):
            sectors.append(data[k * ss:(k + 1) * ss])
            fat.append(s + k + 1 if k < n - 1 else END)
        return s
    for e in big:
        e['start'] = alloc(e['data'])
    root['start'] = alloc(mini)
    root['size'] = len(mini)
    mf = b''.join(struct.pack('<I', x) for x in minifat)
    mf += b'\xff' * (-len(mf) % ss)
    mf_start = alloc(mf)
    nmf = len(mf) // ss
    dirdata = b''
    for e in entries:
        nm = (e['name'] + '\0').encode('utf-16le')
        assert len(nm) <= 64, e['name']
        dirdata += nm.ljust(64, b'\0') + struct.pack(
            '<HBBIII16sIQQIQ', len(nm), e['type'], 1, e['left'], e['right'],
            e['child'], b'\0' * 16, 0, 0, 0, e['start'], e['size'])
    while len(dirdata) % ss:
        dirdata += struct.pack('<64sHBBIII16sIQQIQ', b'', 0, 0, 1, FREE, FREE,
                               FREE, b'\0' * 16, 0, 0, 0, 0, 0)
    dir_start = alloc(dirdata)
    nfat = 1
    while nfat * 128 < len(fat) + nfat:
        nfat += 1
    assert nfat <= 109
    fat_start = len(sectors)
    fat += [FATSECT] * nfat
    fatdata = b''.join(struct.pack('<I', x) for x in fat)
    fatdata += b'\xff' * (nfat * ss - len(fatdata))
    for k in range(nfat):
        sectors.append(fatdata[k * ss:(k + 1) * ss])
    difat = [fat_start + k for k in range(nfat)] + [FREE] * (109 - nfat)
    hdr = struct.pack('<8s16sHHHHHHIIIIIIIIII', bytes.fromhex('d0cf11e0a1b11ae1'),
                      b'\0' * 16, 0x3e, 3, 0xfffe, 9, 6, 0, 0, 0, nfat, dir_start,
                      0, 4096, mf_start if nmf else END, nmf, END, 0)
    hdr += b''.join(struct.pack('<I', x) for x in difat)
    assert len(hdr) == 512
    return hdr + b''.join(sectors)


def read_tree(path):
    """a compound file as a tree of bytes (through olefile)"""
    import olefile
    o = olefile.OleFileIO(path)
    tree = {}
    for p in o.listdir():
        t = tree
        for s in p[:-1]:
            t = t.setdefault(s, {})
        f = o.openstream(p)
        t[p[-1]] = f.read()
    o.close()
    return tree


# ------------------------------------------------------- distribution documents
def dist_pads(seed):
    """the 256 mask bytes for a seed (0 where unmasked)"""
    out = []
    s = seed
    n = 0
    key = 0
    for i in range(256):
        if n == 0:
            s = (s * 214013 + 2531011) % 4294967296
            key = (s // 65536) % 32768 % 256
            s = (s * 214013 + 2531011) % 4294967296
            n = (s // 65536) % 32768 % 16 + 1
        out.append(key if i >= 4 else 0)
        n -= 1
    return out


def dist_head(seed, digest80, filler):
    """256 byte head holding digest80 where the seed prescribes"""
    clear = bytearray(filler[:256].ljust(256, b'\x5a'))
    clear[0:4] = struct.pack('<I', seed)
    off = 4 + seed % 16
    clear[off:off + 80] = digest80
    return bytes(c ^ p for c, p in zip(clear, dist_pads(seed)))


def aes_ecb(key, data, encrypt=True):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    c = Cipher(algorithms.AES(key), modes.ECB())
    c = c.encryptor() if encrypt else c.decryptor()
    return c.update(data) + c.finalize()


def dist_encode(plain, seed=0x12345678, digest80=None, filler=b'', pad=b'\0'):
    if digest80 is None:
        import hashlib
        digest80 = hashlib.sha1(b'12345').hexdigest().upper().encode('utf-16le')
    plain = plain + pad * (-len(plain) % 16)
    return rec(28, 0, dist_head(seed, digest80, filler)) + aes_ecb(digest80[:16], plain)
