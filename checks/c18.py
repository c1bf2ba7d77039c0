# -*- coding: utf-8 -*-
"""C18: distribution documents decode under the key hidden in their head"""
import io
import os
import struct

from lib import cli, docs, harness
from lib.harness import guarded


def header(tag, level, size, long):
    if long:
        return struct.pack('<II', tag | level << 10 | 0xfff << 20, size)
    return struct.pack('<I', tag | level << 10 | size << 20)


def surfaces(ctx, data, head, tail, tall):
    """everything the stream can be seen through -> list of (name, function, expected key of the behaviour)"""
    from hwp5 import distdoc
    from hwp5.filestructure import Hwp5DistDoc
    stg = Hwp5DistDoc(docs.MemStorage({'ViewText': {'Section0': data}, 'Scripts': {'JScriptVersion': data}}))
    view = stg['ViewText']['Section0']

    def cmd(*opts):
        def f():
            status, out, err, o = cli.run('hwp5proc', ['diststream'] + list(opts), stdin=data)
            if status != 0:
                raise ValueError('status %r, %s' % (status, o[1:]))
            return out
        return f
    r = [('decode', lambda: distdoc.decode(io.BytesIO(data)).read(), 'plain'),
         ('view text', lambda: view.open().read(), 'plain'),
         ('view text, again', lambda: view.open().read(), 'plain'),
         ('scripts', lambda: stg['Scripts']['JScriptVersion'].open().read(), 'plain'),
         ('head_sha1', lambda: bytes(view.head_sha1()), 'digest'),
         ('head_key', lambda: bytes(view.head_key()), 'key'),
         ('head', lambda: bytes(view.head()), 'head')]
    if not tall:
        r += [('tail', lambda: view.tail(), 'tail'), ('tail_decrypted', lambda: view.tail_decrypted(), 'plain')]
    more = [('hwp5proc diststream', cmd(), 'plain'), ('hwp5proc diststream --key', cmd('--key'), 'keyhex'), ('hwp5proc diststream --key --raw', cmd('--key', '--raw'), 'key'),
            ('hwp5proc diststream --sha1', cmd('--sha1'), 'sha1hex'), ('hwp5proc diststream --sha1 --raw', cmd('--sha1', '--raw'), 'sha1')]
    return r, more


def expected(head, digest, key, tail, plain):
    w = dict(head=head, digest=digest, key=key, tail=tail, plain=plain, keyhex=key.hex().encode())
    try:
        w['sha1'] = bytes.fromhex(digest.decode('utf-16le'))
        w['sha1hex'] = w['sha1'].hex().encode()
    except (ValueError, UnicodeDecodeError):
        pass
    return w


def replay(ctx, b, commands):
    head, digest, key, tail, plain = [bytes(b[k]) for k in ('head', 'digest', 'key', 'tail', 'plain')]
    tall = ctx.rng.random() < .1        # the size of the head in the long form
    data = header(28, ctx.rng.choice([0, 0, 1]), 256, tall) + head + tail
    want = expected(head, digest, key, tail, plain)
    basic, more = surfaces(ctx, data, head, tail, tall)
    what = 'seed %#x, tail of %d' % (struct.unpack('<I', head[:4])[0], len(tail))
    for name, f, k in basic + (more if commands else []):
        if k in want:
            o = guarded(f)
            if o != ('ok', want[k]):
                ctx.violation('%s' % k, '%s: %s: %s, not %s' % (what, name, harness.abbrev(o[1:]), harness.abbrev(want[k])), b)
                return
    from hwp5 import distdoc
    payload = bytearray(head)
    o = guarded(lambda: (bytes(distdoc.decode_head_to_sha1(payload)), bytes(distdoc.decode_head_to_key(payload)), bytes(payload)))
    if o != ('ok', (digest, key, head)):
        ctx.violation('altered', '%s: decoding a head in place: %s' % (what, harness.abbrev(o[1:])), b)


def refusal(ctx, h, accepted, raw=None):
    head = docs.dist_head(0x12345678, bytes(range(80)), b'')
    body = (head + docs.aes_ecb(bytes(range(16)), bytes(range(256))))
    data = raw if raw is not None else header(h['tag'], h['level'], h['size'], h['long']) + body[:h['there']]
    if accepted:
        tail = body[256:h['there']]
    what = 'stream of %d bytes, head %s' % (len(data), h)
    basic, more = surfaces(ctx, data, head, b'', False)
    for name, f, k in basic + more:
        if name in ('tail', 'tail_decrypted') and h and h['long']:
            continue
        if k.startswith('sha1'):
            if accepted:
                continue
        o = guarded(f)
        if accepted:
            want = expected(head, bytes(range(80)), bytes(range(16)), tail, bytes(range(256))[:len(tail)])[k]
            if o != ('ok', want):
                ctx.violation('refused', '%s: %s: %s' % (what, name, harness.abbrev(o[1:])), h)
        elif k == 'head' and h and h['tag'] == 28 and h['there'] >= h['size']:
            pass        # just the content of the first record, whatever it is
        elif o[0] != 'raise':
            ctx.violation('accepted', '%s: %s: %s' % (what, name, harness.abbrev(o[1:])), h)
    ctx.count('heads')


def run(ctx):
    inv = ['Recovered', 'Prescribed', 'OnlyDeclared', 'Blockwise', 'Bounds', 'Emit']
    ps = ctx.tlc('DistDoc', dict(Seeds=ctx.pick('<-SeedsA', '<-SeedsB'), Digests=ctx.pick('{"hex", "steps"}', '{"hex", "zero", "steps", "ones"}'), Tails=ctx.pick({0, 3}, {0, 1, 5})), inv).prints
    for n, b in enumerate(ps):
        replay(ctx, b, n % 4 == 0)
        ctx.replayed += 1
        if len(ctx.violations) > 30:
            return
    ctx.sample(dict(kind='head', seed=ps[0]['head'][:4], key=ps[0]['key']))
    hs = ctx.tlc('DistDoc', dict(Seeds='<-SeedsA', Digests='{"hex"}', Tails={0}), ['HEmit'], init='HInit', next='HNext').prints
    for b in hs:
        refusal(ctx, b['h'], b['accepted'])
        ctx.replayed += 1
    for raw in (b'', b'\x1c', b'\x1c\0\0'):
        refusal(ctx, None, False, raw)
    ctx.exhaustive = True
    # a decoder of its own for long tails: primitive of the library against the one of the specification by way of the recordings
    from hwp5 import distdoc
    recs = []

    def record(id, head, tail):
        o = guarded(lambda: (bytes(distdoc.decode_head_to_sha1(head)), bytes(distdoc.decode_head_to_key(head)), distdoc.decode(io.BytesIO(header(28, 0, 256, False) + head + tail)).read()))
        if o[0] != 'ok':
            return ctx.violation('decode', '%s: %s' % (id, harness.abbrev(o[1:])), dict(head=head.hex()))
        d, k, p = o[1]
        if len(p) != len(tail):
            return ctx.violation('length', '%s: tail of %d decrypted to %d' % (id, len(tail), len(p)), dict(head=head.hex()))
        # some blocks of it
        blocks = sorted(ctx.rng.sample(range(len(tail) // 16), min(3, len(tail) // 16)))
        recs.append(dict(id=id, head=list(head), digest=list(d), key=list(k), tail=[x for i in blocks for x in tail[16 * i:16 * i + 16]], plain=[x for i in blocks for x in p[16 * i:16 * i + 16]]))
        if p != docs.aes_ecb(k, tail, False):
            ctx.violation('tail', '%s: tail of %d bytes' % (id, len(tail)), dict(head=head.hex()))
    for i in range(ctx.pick(300, 5000)):
        head = bytes(ctx.rng.getrandbits(8) for _ in range(256))
        tail = bytes(ctx.rng.getrandbits(8) for _ in range(16 * ctx.rng.choice([0, 1, 2, 17, ctx.rng.choice([1, 256, 513])])))
        record('random head %d' % i, head, tail)
    for n in sorted(os.listdir(harness.FIXTURES)):
        path = os.path.join(harness.FIXTURES, n)
        if n.endswith('.hwp'):
            def raws():
                t = docs.read_tree(path)
                for s in ('ViewText', 'Scripts'):
                    for k, v in sorted(t.get(s, {}).items()):
                        yield s + '/' + k, v
            for name, v in list(raws()):
                if v[:4] == header(28, 0, 256, False):
                    record('%s %s' % (n, name), v[4:260], v[260:len(v) - (len(v) - 260) % 16])
    t = ctx.tlc('DistDocTrace', invariants=['Check'], data=recs)
    for p in t.prints:
        r = recs[p['rec'] - 1]
        ctx.violation('trace-%s' % p['verdict'], '%s: the %s is not what the head prescribes' % (r['id'], p['verdict']), dict(p, head=bytes(r['head']).hex()))
    ctx.validated += len(recs)
    ctx.sample(dict(kind='random head', head=bytes(recs[0]['head']).hex(), key=recs[0]['key']))
    # the other implementation of the cipher
    from hwp5 import plat
    try:
        decrypt = plat.get_aes128ecb_decrypt_openssl()
    except Exception:
        decrypt = None
    if decrypt is not None:
        for r in recs[:ctx.pick(8, 60)]:
            o = guarded(lambda: decrypt(bytes(r['key']), bytes(r['tail'])))
            if o != ('ok', bytes(r['plain'])):
                ctx.violation('openssl', '%s: openssl: %s' % (r['id'], harness.abbrev(o[1:])), r)
            ctx.count('openssl')
