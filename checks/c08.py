# -*- coding: utf-8 -*-
"""C08: every record type decodes by the layout of the format version"""
import struct

from lib import docs, harness
from lib.harness import guarded

INV = 'Contiguous NewerAbsent OlderPresent FieldOrder Emit'.split()


def vtuple(v):
    return (v // 1000000, v // 10000 % 100, v // 100 % 100, v % 100)


class Values(object):
    """random values for a layout, encoded independently of the code"""

    def __init__(self, rng, chids, flags):
        self.rng, self.chids, self.flags = rng, chids, flags

    def prim(self, e):
        r, n, k, val = self.rng, e['size'], e['n'], e['val']
        if k == 'chid':
            s = self.chids[val - 1] if val >= 0 else u''.join(r.choice('abcdefgh $%*') for _ in range(4))
            return s, s.encode('ascii')[::-1]
        if k == 'hex':
            d = bytes(r.getrandbits(8) for _ in range(n))
            return d, d
        if k == 'f':
            d = r.choice([0.0, -1.5, 1e300, -0.0, r.uniform(-1e6, 1e6)])
            return d, struct.pack('<d', d)
        x = val if val >= 0 else r.choice([0, 1, (1 << 8 * n) - 1, 1 << (8 * n - 1), (1 << (8 * n - 1)) - 1, r.getrandbits(8 * n), r.getrandbits(8 * n)])
        d = x.to_bytes(n, 'little')
        if k in ('i', 'color') and x >= 1 << (8 * n - 1):
            x -= 1 << 8 * n
        return x, d

    def leaf(self, e):
        r, k = self.rng, e['k']
        if k == 'flags':
            x = e['val'] if e['val'] >= 0 else r.getrandbits(8 * e['size'])
            if e['val'] < 0 and r.random() < .3:
                x = 1 << r.randrange(8 * e['size'])
            return Flag(e['n'], x), x.to_bytes(e['size'], 'little')
        if k == 'count':
            return e['val'], e['val'].to_bytes(e['size'], 'little')
        if k == 'str':
            s = u''.join(r.choice(u'a\uac00\x01\ue000Z\u3000\u0000\xff') for _ in range(e['val']))
            return s, struct.pack('<H', e['val']) + s.encode('utf-16le')
        if k == 'text':
            s = u''.join(r.choice(u'a\uac00Z ') for _ in range(e['val']))
            return Any, s.encode('utf-16le')
        v, d = self.prim(e)
        return (Color(v) if e['n'] == 'color' else v), d

    def fill(self, b):
        payload = b''
        root = {}
        stack = [root]
        names = []

        def put(c, name, v):
            if isinstance(c, dict):
                c[name] = v
            else:
                c.append(v)
        for e in b['log']:
            if e['e'] == 'open':
                c = {} if e['k'] == 'struct' else []
                put(stack[-1], e['path'][-1], c)
                stack.append(c)
            elif e['e'] == 'close':
                if e['path']:
                    stack.pop()
            else:
                v, d = self.leaf(e)
                if len(d) != e['size']:
                    raise harness.CheckError('%s has %d bytes' % (e, len(d)))
                payload += d
                if e['k'] != 'count':
                    put(stack[-1], e['path'][-1], v)
        return payload, root


class Flag(object):
    def __init__(self, name, v):
        self.name, self.v = name, v

    def __repr__(self):
        return '%s:%#x' % (self.name, self.v)


class Color(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'color:%#x' % (self.v & 0xffffffff)


class Any(object):
    pass


def show(v):
    return harness.abbrev(v)


class Compare(object):

    def __init__(self, flags, enums, color):
        self.color = color
        self.flags = flags
        self.enums = dict((k, dict((a, b) for a, b in v)) for k, v in enums.items())
        self.seen = set()

    def diff(self, got, want, path=''):
        """None or what differs"""
        if want is Any:
            return None
        if isinstance(want, Flag):
            return self.flag(got, want, path)
        if isinstance(want, Color):
            if got != want.v or not isinstance(got, int):
                return '%s is %r, laid out was %#x' % (path, got, want.v & 0xffffffff)
            n = want.v & 0xffffffff
            rgb = (n & 255, n >> 8 & 255, n >> 16 & 255)
            try:
                c = self.color(got)
                g = tuple(c.rgb), str(c), c.a
            except Exception as e:
                return '%s: color %#x: %r' % (path, n, e)
            if g != (rgb, '#%02x%02x%02x' % rgb, n >> 24):
                return '%s: color %#010x is taken apart as %s' % (path, n, g)
            return None
        if isinstance(want, dict):
            if not isinstance(got, dict):
                return '%s is %s, not a structure' % (path, show(got))
            if set(got) != set(want):
                return '%s has the fields %s too much, %s too few' % (path, sorted(set(got) - set(want)), sorted(set(want) - set(got)))
            for k in want:
                d = self.diff(got[k], want[k], path + '.' + k)
                if d:
                    return d
            return None
        if isinstance(want, list):
            if not isinstance(got, (list, tuple)) or len(got) != len(want):
                return '%s is %s, laid out were %s' % (path, show(got), show(want))
            for i, (g, w) in enumerate(zip(got, want)):
                d = self.diff(g, w, '%s[%d]' % (path, i))
                if d:
                    return d
            return None
        if isinstance(want, bytes):
            # bytes of no known meaning: as bytes, or as their hexadecimal digits
            import binascii
            try:
                if got == want or (isinstance(got, str) and binascii.unhexlify(got) == want) or \
                        (isinstance(got, bytes) and binascii.unhexlify(got) == want):
                    return None
            except Exception:
                pass
            return '%s is %s, laid out was %s' % (path, show(got), want.hex())
        if isinstance(want, bool) or type(got) in (bool, type(None)) or got != want or isinstance(want, float) != isinstance(got, float):
            return '%s is %r, laid out was %r' % (path, got, want)
        return None

    def flag(self, got, want, path):
        if not isinstance(got, int) or int(got) != want.v:
            return '%s is %r, laid out was %#x' % (path, got, want.v)
        groups = self.flags[want.name]['g']
        for name, lo, hi, enum in groups:
            self.seen.add((want.name, name))
            v = want.v >> lo & (1 << hi - lo + 1) - 1
            try:
                g = getattr(got, name)
            except Exception as e:
                return '%s: bit group %s: %r' % (path, name, e)
            if int(g) != v:
                return '%s: bits %d..%d of %#x (%s) are %d, not %d' % (path, lo, hi, want.v, name, v, g)
            if enum and v in self.enums[enum]:
                gn = getattr(g, 'name', None)
                if gn != self.enums[enum][v]:
                    return '%s: %s = %d is called %s, documented is %s' % (path, name, v, gn, self.enums[enum][v])
        return None


def context_of(b, V, chids):
    """parent records that put the record where the behaviour has it: [(tag, level, payload)], level of the record"""
    ctx = b['ctx']
    common = None
    if ctx == 'none':
        return [], 0
    if ctx == 'para':
        return [('para', 0)], 1
    return [('ctl', ctx)], 1


class Decode(object):

    def __init__(self, ctx, tables):
        from hwp5 import binmodel, treeop
        self.ctx, self.B, self.T = ctx, binmodel, treeop
        self.tables = tables
        self.V = Values(ctx.rng, tables['chids'], tables['flags'])
        self.C = Compare(tables['flags'], tables['enums'], binmodel.COLORREF)
        self.bykey = {}

    def layout(self, name, ver, ctx='none', pick=None):
        """some behaviour of the given record for the version (or the closest before it)"""
        xs = self.bykey[(name, ctx)]
        best = max([x['ver'] for x in xs if x['ver'] <= ver] or [min(x['ver'] for x in xs)])
        xs = [x for x in xs if x['ver'] == best and (pick is None or pick(x))]
        return self.ctx.rng.choice(xs)

    def parents(self, b):
        """[(tag, level, payload)] above the record"""
        ver, c = b['ver'], b['ctx']
        rng = self.ctx.rng
        if c == 'none':
            return []
        if c == 'para':
            p = self.layout('Paragraph', ver)
            payload = self.V.fill(p)[0]
            off = dict((e['path'][0], (e['off'], e['size'])) for e in p['log'] if e['e'] == 'leaf')
            f = {68: 'charshapes', 69: 'linesegs', 70: 'rangetags'}.get(b['tag'])
            if f:
                o, n = off[f]
                payload = payload[:o] + b['pcount'].to_bytes(n, 'little') + payload[o + n:]
            return [(66, 0, payload)]
        names = {'tbl ': 'TableControl', 'tbl +': 'TableControl', 'gso ': 'GShapeObjectControl', 'head': 'Header', 'foot': 'Footer',
                 'bokm': 'BookmarkControl', '%clk': 'FieldClickHere', 'secd': 'SectionDef', 'fn  ': 'FootNote'}
        if c == 'shape':
            if rng.random() < .5:
                return [(76, 0, self.V.fill(self.layout('ShapeComponent', ver))[0])]
            return [(71, 0, self.V.fill(self.layout('GShapeObjectControl', ver))[0]),
                    (76, 1, self.V.fill(self.layout('ShapeComponent', ver, 'gso '))[0])]
        out = [(71, 0, self.V.fill(self.layout(names[c], ver))[0])]
        if c == 'tbl +':
            if rng.random() < .5:
                out.append((72, 1, self.V.fill(self.layout('TableCaption', ver, 'tbl '))[0]))
            out.append((77, 1, self.V.fill(self.layout('TableBody', ver))[0]))
        return out

    def one(self, b):
        ctx, B = self.ctx, self.B
        payload, want = self.V.fill(b)
        v = vtuple(b['ver'])
        ps = self.parents(b)
        level = 0 if not ps else ps[-1][1] + (0 if b['ctx'] == 'tbl +' else 1)
        records = ps + [(b['tag'], level, payload)]
        desc = '%s (tag %d, in %s), version %s, payload %s' % (b['name'], b['tag'], b['ctx'], '.'.join(map(str, v)), payload.hex()[:400])

        def bad(key, text):
            ctx.violation('%s-%s' % (key, b['name']), '%s: %s' % (desc, text),
                          dict(records=[(t, l, p.hex()) for t, l, p in records], version=v))
        stream = lambda: B.ModelStream(docs.MemStream(docs.recs(records)), v)
        o = guarded(lambda: list(stream().models()))
        if o[0] != 'ok':
            return bad('raises', 'models raise %s' % (o[1:],))
        if len(o[1]) != len(records):
            return bad('count', '%d records give %d models' % (len(records), len(o[1])))
        m = o[1][-1]
        tn = getattr(m.get('type'), '__name__', None)
        if tn != b['name']:
            bad('type', 'is read as %s' % tn)
        d = self.C.diff(m.get('content'), want, b['name'])
        if d:
            bad('value', d)
        if m.get('unparsed') and b['name'] != 'UnknownTagModel':
            bad('unparsed', '%d bytes are left over' % len(m['unparsed']))
        o = guarded(lambda: list(stream().parse_model_events()))
        if o[0] != 'ok':
            return bad('events-raise', 'model events raise %s' % (o[1:],))
        ends = [i for ev, i in o[1] if ev is self.T.ENDEVENT and i['type'] is B.RecordModel]
        if len(ends) != len(records):
            return bad('events-count', '%d records give %d model events' % (len(records), len(ends)))
        d = self.C.diff(ends[-1]['model']['content'], want, b['name'])
        if d:
            bad('event-value', d)
        ctx.replayed += 1


def run(ctx):
    t = ctx.tlc('RecordLayout', dict(Which='<-First', Counts={0}, StrLens={0}, ParentCounts={0}), ['EmitTables'], next='Stop')
    tables = [p for p in t.prints if 'flags' in p][0]
    D = Decode(ctx, tables)
    n = tables['nrec']
    r = ctx.tlc('RecordLayout', dict(Which='<-All', Counts={0, 1, 2} if ctx.thorough else {0, 2},
                                     StrLens={0, 1, 3} if ctx.thorough else {0, 2}, ParentCounts={0, 1, 3, 130}), INV)
    prints = [p for p in r.prints if 'log' in p]
    ctx.log('TLC: %d layouts of %d record types' % (len(prints), n))
    for b in prints:
        D.bykey.setdefault((b['name'], b['ctx']), []).append(b)
    ctx.extra['layouts'] = len(prints)
    ctx.exhaustive = True
    for b in prints:
        for _ in range(ctx.pick(2, 8)):
            D.one(b)
        if len(ctx.violations) > 300:
            break
    ctx.extra['bit_groups_compared'] = len(D.C.seen)
    ctx.sample(dict(kind='layout', name=b['name'], version=b['ver'], fields=[['.'.join(e['path']), e['off'], e['size']] for e in b['log'] if e['e'] == 'leaf']))
    ctx.log('replayed')
    positions(ctx, D)
    ctx.log('positions')
    fixtures(ctx, D)
    ctx.log('fixtures')


def positions(ctx, D):
    """the type of a record by its place in the tree"""
    B, T = D.B, D.T
    docs_ = []
    every = {'tbl', 'gso', 'head', 'foot', 'fn', 'bokm', 'clk', 'hlk', 'zzzz', 'list', 'body', 'data', 'shape', 'para', 'unk'}
    inv = ['CellsFollowBody', 'ControlsByCode', 'Emit']
    for kinds, n, lev in ((every, 3, 2), ({'tbl', 'list', 'body', 'para'}, ctx.pick(5, 6), 3),
                          ({'tbl', 'list', 'body', 'gso', 'shape'}, ctx.pick(4, 5), 3)):
        r = ctx.tlc('TypeTree', dict(Kinds='{%s}' % ', '.join('"%s"' % k for k in sorted(kinds)), N=n, MaxLevel=lev), inv)
        docs_ += r.prints
    if not ctx.thorough:
        docs_ = ctx.rng.sample(docs_, min(len(docs_), 16000))
    for doc in docs_:
        records = [(r['tag'], r['level'], (r['chid'].encode('ascii')[::-1] + b'\0' * 512)[:512] if not r['two']
                    else b'osg ' + b'cip$' + b'\0' * 504) for r in doc]
        want = [r['type'] for r in doc]
        what = ' '.join('%d:%s' % (r['level'], r['kind']) for r in doc)

        def compare(kind, got):
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False) if len(got) == len(want) else 0
                ctx.violation('position-%s' % (want[i]), 'records %s: %s have the types %s, by their places they are %s' % (what, kind, got, want),
                              dict(doc=doc))
        s = lambda: B.ModelStream(docs.MemStream(docs.recs(records)), (5, 0, 5, 0))
        o = guarded(lambda: [m['type'].__name__ for m in s().models()])
        if o[0] != 'ok':
            ctx.violation('position-raises', 'records %s: models raise %s' % (what, o[1:]), dict(doc=doc))
            continue
        compare('models', o[1])
        o = guarded(lambda: [m['type'].__name__ for g in s().models_treegrouped() for m in g])
        compare('models by tree', o[1] if o[0] == 'ok' else [str(o)])
        o = guarded(lambda: [('chid0' in m['content']) for m in s().models() if m['tagid'] == 76])
        if o[0] != 'ok' or o[1] != [r['two'] for r in doc if r['tag'] == 76]:
            ctx.violation('position-chid0', 'records %s: shapes have an outer code: %s' % (what, o[1]), dict(doc=doc))
        ctx.replayed += 1
        if len(ctx.violations) > 300:
            break
    ctx.sample(dict(kind='tree', records=what, types=want))


def fixtures(ctx, D):
    import os
    from hwp5.xmlmodel import Hwp5File
    runs = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        for sname, s in [('DocInfo', h.docinfo)] + [('Section%d' % i, h.text.section(i)) for i in h.text.section_indexes()]:
            o = guarded(lambda: list(s.models()), 60)
            if o[0] != 'ok':
                continue
            recs = [dict(tag=m['tagid'], chid=m['payload'][:4][::-1].decode('latin-1') if m['tagid'] == 71 else '', level=m['level'],
                         type=m['type'].__name__) for m in o[1]]
            # levels of a distributed or damaged document may jump; that is C03's
            runs.append(dict(id='%s %s' % (name, sname), recs=recs[:ctx.pick(400, 4000)]))
        h.close()
    recs = D.tables['recs']
    data = dict(runs=runs, tag={}, code={}, place={})
    for r in recs:
        if r['tag'] == 71:
            if r['name'] != 'Control':
                for c in r['codes']:
                    data['code'][c] = r['name']
        elif r['ctx'] in ('none', 'para'):
            data['tag'][str(r['tag'])] = r['name']
        else:
            data['place']['%d/%s' % (r['tag'], r['ctx'])] = r['name']
    t = ctx.tlc('TypeTreeTrace', invariants=['Emit'], data=data)
    byid = dict((r['id'], r) for r in runs)
    for p in t.prints:
        r = byid[p['id']]['recs'][p['n'] - 1]
        if p['want'] == 'level':
            continue
        ctx.violation('fixture-type-%s' % p['want'], '%s: record %d (tag %d %s level %d) is read as %s, it is a %s'
                      % (p['id'], p['n'] - 1, r['tag'], r['chid'], r['level'], r['type'], p['want']), r)
    ctx.validated += len(runs)
    ctx.sample(dict(kind='run', id=runs[-1]['id'], records=len(runs[-1]['recs'])))
