exec(open('/verif/tools/seed.py').read())
R = 'src/hwp5/recordstream.py'
seed('c01-short-limit', 'C01', [(R, "    if size < 0xfff:\n        hdr = (size << 20)", "    if size <= 0xfff:\n        hdr = (size << 20)")], '''
from hwp5.recordstream import *
f = io.BytesIO()
dump_record(f, Record(66, 0, b'x' * 0xfff)); dump_record(f, Record(67, 1, b'tail'))
f.seek(0)
try:
    got = [(r['tagid'], r['level'], len(r['payload'])) for r in read_records(f)]
except Exception as e:
    got = repr(e)
print(got)
sys.exit(got != [(66, 0, 0xfff), (67, 1, 4)])
''', 'a payload of exactly 4095 bytes', 'the record is written with a short header that reads back as an extended one')
seed('c01-level-bits', 'C01', [(R, "        hdr = (0xfff << 20) | (level << 10) | tagid", "        hdr = (0xfff << 20) | ((level & 0xff) << 10) | tagid")], '''
from hwp5.recordstream import *
f = io.BytesIO()
dump_record(f, Record(66, 300, b'abc')); dump_record(f, Record(66, 300, b'abc' * 2000))
f.seek(0)
got = [(r['tagid'], r['level']) for r in read_records(f)]
print(got)
sys.exit(got != [(66, 300)] * 2)
''', 'a large record deeper than 255 levels', 'the level loses its upper bits')
seed('c01-treegroup-cache', 'C01', [(R, """        groups = self.records_treegrouped()
        return nth(groups, n)
""", """        # trees are usually asked for in order: keep what was read so far
        cache = self.__dict__.setdefault('_treegroups', [])
        if 'groups_iter' not in self.__dict__:
            self.groups_iter = self.records_treegrouped()
        while len(cache) <= n:
            group = next(self.groups_iter, None)
            if group is None:
                return None
            cache.append(group)
            if len(cache) > 3:
                del cache[:-3]
                n -= 1
        return cache[n]
""")], '''
from hwp5.recordstream import *
class S:
    def __init__(self, d): self.d = d
    def open(self): return io.BytesIO(self.d)
f = io.BytesIO()
for i in range(6):
    dump_record(f, Record(66, 0, b'%d' % i)); dump_record(f, Record(67, 1, b'c%d' % i))
s = RecordStream(S(f.getvalue()), None)
ok = True
for n in (0, 1, 4, 2, 5, 0, 3):
    g = s.records_treegroup(n)
    got = g and [r['payload'] for r in g]
    print(n, got)
    ok = ok and got == [b'%d' % n, b'c%d' % n]
sys.exit(not ok)
''', 'asking one stream for a later tree and then for an earlier one', 'the wrong tree is returned')
seed('c02-payload-read', 'C02', [(R, "    payload = dataio.readn(f, size)", "    payload = f.read(size)")], '''
from hwp5.recordstream import *
f = io.BytesIO()
dump_record(f, Record(66, 0, b'abcdefgh')); dump_record(f, Record(67, 1, b'0123456789'))
d = f.getvalue()[:-3]
got = []
try:
    for r in read_records(io.BytesIO(d)):
        got.append((r['size'], len(r['payload'])))
    end = 'end'
except Exception as e:
    end = 'error'
print(got, end)
sys.exit(not (got == [(8, 8)] and end == 'error'))
''', 'a stream cut inside the payload of its last record', 'the cut record is delivered with fewer bytes than it declares')
