# -*- coding: utf-8 -*-
"""C06: streaming readers and codecs do not depend on chunking"""
import io
import os
import zlib

from lib import cli, docs, harness
from lib.harness import guarded


class Source(object):
    """a readable that returns at most the current piece (short reads)"""
    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p]
        self.closed = False

    def read(self, n=-1):
        if n is None or n < 0:
            d = b''.join(self.pieces)
            self.pieces = []
            return d
        if not self.pieces or n == 0:
            return b''
        p = self.pieces[0]
        if len(p) <= n:
            self.pieces.pop(0)
            return p
        self.pieces[0] = p[n:]
        return p[:n]

    def close(self):
        self.closed = True


def split(data, pieces):
    """cut data into pieces proportional to the sizes given"""
    t = sum(pieces)
    out, at, acc = [], 0, 0
    for p in pieces:
        acc += p
        e = len(data) * acc // t if t else 0
        out.append(data[at:e])
        at = e
    if out:
        out[-1] = out[-1] + data[at:]
    elif data:
        out = [data]
    return out


def record(id, total, f, sizes, content, loose=False, none=False):
    """-> a recorded run (reads until the schedule is over, then what is left)"""
    reads = []
    pos = 0
    for n in list(sizes) + [-1, 1]:
        o = guarded(lambda: f.read() if n == -1 and not none else f.read(None) if n == -1 else f.read(n), 10)
        if o[0] != 'ok':
            reads.append(dict(n=n, got=0, same=False, note=str(o)))
            break
        d = o[1]
        reads.append(dict(n=n, got=len(d), same=(d == content[pos:pos + len(d)])))
        pos += len(d)
    return dict(id=id, total=total, loose=loose, reads=reads)


def incompressible(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def readers(ctx, b, contents, k):
    """the readers of the code for one (pieces, reads) behaviour"""
    from hwp5 import utils, compressed, zlib_raw_codec
    content = contents[k % len(contents)]
    pieces = split(content, b['pieces'])
    text = ''.join(chr(0x61 + i % 26) if i % 5 else '\uac00' for i in range(len(content) % 3000))
    tp = split(text, b['pieces'])
    z = docs.deflate(content)
    zp = split(z, b['pieces'])
    yield 'GeneratorReader', utils.GeneratorReader(iter(pieces)), content, False
    yield 'GeneratorTextReader', utils.GeneratorTextReader(iter(tp)), text, False
    if b['pieces']:
        yield 'decompress', compressed.decompress(Source(zp)), content, False
        for bs in (1 + k % 7, 4096):
            if bs < 50 and len(z) > 5000:
                bs *= 700
            yield 'decompress_experimental/%d' % bs, compressed.decompress_experimental(Source(zp), bs), content, False
        yield 'zlib_raw.StreamReader', zlib_raw_codec.StreamReader(Source(zp)), content, False
    u16 = text.encode('utf-16le')
    yield 'transcoder', utils.transcoder('utf-16le', 'utf-8')(Source(split(u16, b['pieces'] or [1]))), text.encode('utf-8'), True


def small_readers(b):
    """sizes taken literally: unit = one byte / character"""
    from hwp5 import utils
    total = sum(b['pieces'])
    data = bytes(range(1, total + 1))
    text = '\uac00b\U0001f600d\x01f' * 3
    text = text[:total]
    at = 0
    ps, ts = [], []
    for p in b['pieces']:
        ps.append(data[at:at + p])
        ts.append(text[at:at + p])
        at += p
    yield 'GeneratorReader', utils.GeneratorReader(iter(ps)), data
    yield 'GeneratorReader(list)', utils.GeneratorReader((x for x in ps)), data
    yield 'GeneratorTextReader', utils.GeneratorTextReader(iter(ts)), text


def codec(ctx, b, unit):
    from hwp5 import zlib_raw_codec as Z

    def piece(a, k):
        return b''.join(unit(a + j) for j in range(1, k + 1))
    enc = Z.IncrementalEncoder()
    out = b''
    outs = []
    for e in b['log']:
        if e['op'] == 'reset':
            enc.reset()
            out = b''
        else:
            out += enc.encode(piece(e['from'], e['k']), e['op'] == 'final')
            if e['op'] == 'final':
                outs.append(out)
    want = [b''.join(unit(u) for u in s) for s in b['streams']]
    what = None
    got = []
    for o, w in zip(outs, want):
        try:
            d = zlib.decompressobj(-15)
            got.append(d.decompress(o) + d.flush())
            if not d.eof or d.unused_data:
                what = 'the stream is not complete or has a tail'
        except zlib.error as e:
            got.append(str(e))
    if got != want:
        what = 'decodes to %s, given %s' % (harness.abbrev(got), harness.abbrev(want))
    if what:
        return 'encoder: ' + what
    # one-shot interfaces
    for w in want:
        o, n = Z.zlib_raw_encode(w)
        if zlib.decompress(o, -15) != w or n != len(w):
            return 'one-shot encoder: %s' % harness.abbrev(w)
        if Z.Codec().decode(Z.Codec().encode(w)[0])[0] != w:
            return 'one-shot codec'
    # the decoder over the same history: the pieces of a stream that holds them
    dec = Z.IncrementalDecoder()
    out = b''
    gots = []
    segs = []
    cur = []
    for e in b['log']:
        cur.append(e)
        if e['op'] in ('reset', 'final'):
            segs.append(cur)
            cur = []
    for seg in segs:
        gives = [e for e in seg if e['op'] != 'reset']
        plain = b''.join(piece(e['from'], e['k']) for e in gives)
        z = docs.deflate(plain)
        sizes = [e['k'] for e in gives]
        if seg[-1]['op'] == 'reset':
            # the reset comes in the middle of a stream
            z = docs.deflate(plain + b'never finished')[:-2]
        parts = split(z, sizes) if sum(sizes) else [z] + [b''] * (len(sizes) - 1)
        for e, p in zip(gives, parts):
            out += dec.decode(p, e['op'] == 'final')
            if e['op'] == 'final':
                gots.append(out)
                out = b''
                dec.reset()
        if seg[-1]['op'] == 'reset':
            dec.reset()
            out = b''
    if gots != want:
        return 'decoder: decodes to %s, encoded were %s' % (harness.abbrev(gots), harness.abbrev(want))
    return None


def documents(ctx, runs, scheds):
    """streams of documents under read schedules"""
    import hwp5.xmlmodel
    import hwp5.storage
    from checks import c05
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: hwp5.xmlmodel.Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        e = hwp5.storage.ExtraItemStorage(h)
        paths = [p for p in hwp5.storage.iter_storage_leafs(e)
                 if not p.endswith(('.models', '.xml')) or (len(p) + len(name)) % 7 == 0]
        paths = ctx.rng.sample(paths, min(len(paths), 3))
        for p in paths:
            def slurp():
                f = hwp5.storage.open_storage_item(e, p).open()
                try:
                    return f.read()
                finally:
                    f.close()
            o = guarded(slurp, 60)
            if o[0] != 'ok' or len(o[1]) > 3000000:
                continue
            sizes = [max(0, n) * ctx.rng.choice([1, 100, 4096]) if n >= 0 else n for n in ctx.rng.choice(scheds)]
            f = hwp5.storage.open_storage_item(e, p).open()
            runs.append(record('%s:%s' % (name, p), len(o[1]), f, sizes, o[1], loose=p.endswith('.utf8')))
            f.close()
        h.close()


def run(ctx):
    r = ctx.tlc('ChunkedReader', dict(PieceSizes='{0, 1, 3}', MaxPieces=3, Sizes='<-StdSizes', MaxReads=ctx.pick(3, 4)),
                ['Complete', 'Conserved', 'Bounded', 'Emit'])
    ctx.log('TLC: %d schedules' % len(r.prints))
    runs = []
    for b in r.prints:
        for name, f, content in small_readers(b):
            runs.append(record('%s pieces %s reads %s' % (name, b['pieces'], b['reads']), len(content), f, b['reads'], content,
                               none=len(b['pieces']) % 2))
    ctx.replayed += len(runs)
    contents = [incompressible(ctx.rng, 30000), b'', b'x', b'compressible ' * 20000, incompressible(ctx.rng, 8196),
                b'a' * 300000 + incompressible(ctx.rng, 12000)]
    scheds = [b['reads'] for b in r.prints]
    for k, b in enumerate(ctx.rng.sample(r.prints, ctx.pick(300, 3000))):
        mult = [1, 1000, 4096, 70000][k % 4]
        reads = [n * mult if n > 0 else n for n in b['reads']]
        for name, f, content, loose in readers(ctx, b, contents, k):
            runs.append(record('%s content %d bytes, pieces %s reads %s' % (name, len(content), b['pieces'], reads),
                               len(content), f, reads, content, loose))
            ctx.replayed += 1
    # long schedules of one size
    for size in (1, 7, 100, 4095, 4096, 8191, 8192, 8193, 65536):
        for k, content in enumerate(contents):
            b = dict(pieces=[1] * (1 + k), reads=[])
            n = min(len(content) // size + 2, 3000)
            for name, f, c, loose in readers(ctx, b, [content], 0):
                runs.append(record('%s content %d bytes, %d reads of %d' % (name, len(c), n, size), len(c), f,
                                   [size] * n, c, loose))
    documents(ctx, runs, scheds)
    ctx.log('%d runs recorded' % len(runs))
    byid = dict((x['id'], x) for x in runs)
    # the contract only needs runs of bounded length; long ones are checked in windows
    small = []
    for x in runs:
        if len(x['reads']) <= 40:
            small.append(x)
        else:
            pos = 0
            rs = x['reads']
            for a in range(0, len(rs), 30):
                part = rs[a:a + 30]
                small.append(dict(id=x['id'], total=x['total'] - pos, loose=x['loose'], reads=part))
                pos += sum(q['got'] for q in part)
    for x in small:
        x['reads'] = [dict(n=q['n'], got=q['got'], same=q['same']) for q in x['reads']]
    t = ctx.tlc('ChunkedReaderTrace', invariants=['Emit'], data=small)
    for p in t.prints:
        x = byid[p['id']]
        name = p['id'].split(' ')[0]
        ctx.violation('read-' + name, '%s: read number %s breaks the contract: %s' % (
            p['id'], p['bad'], [(q['n'], q['got'], q['same']) for q in x['reads']][:12]), x)
    ctx.validated += len(small)
    ctx.sample(dict(kind='reads', **small[len(small) // 2]))
    # every whole content is the same, whatever the schedule: reads validated above
    # end with a whole read, so it is enough that each piece is in place
    r = ctx.tlc('Codec', dict(Chunks='{0, 1, 2}', MaxOps=ctx.pick(5, 6)), ['Identity', 'Fresh', 'Emit'])
    ctx.log('TLC: %d codec histories' % len(r.prints))
    cache = {}

    def unit_small(u):
        return b'%d,' % u

    def unit_big(u):
        if u not in cache:
            cache[u] = incompressible(ctx.rng, 9000)
        return cache[u]
    for k, b in enumerate(r.prints):
        for unit in (unit_small, unit_big) if k % 10 == 0 else (unit_small,):
            o = guarded(lambda: codec(ctx, b, unit))
            if o != ('ok', None):
                ctx.violation('codec-' + str(o[1]).split(':')[0], 'history %s: %s' % (
                    [(e['op'], e['k']) for e in b['log']], o[1:]), b)
            ctx.replayed += 1
    ctx.sample(dict(kind='codec', log=b['log'], streams=b['streams']))
    # the command
    for content in contents:
        st, out, err, oc = cli.run('hwp5proc', ['rawunz'], stdin=docs.deflate(content))
        if st != 0 or out != content:
            ctx.violation('cli-rawunz', 'rawunz of %s: exit %s, %s' % (harness.abbrev(content), st, harness.abbrev(out)))
