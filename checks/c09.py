# -*- coding: utf-8 -*-
"""C09: paragraph text splits into chunks that partition it"""
import os
import struct

from lib import docs, harness
from lib.harness import guarded

TRAPS = [0x41, 0xac00, 0x0500, 0x0300, 0x1f00, 0x0d00, 0x0100, 0x0900, 0x2000, 0x20, 0x1e20, 0xffff, 0xfffe, 0xe000, 0x0020, 0x7f, 0x0a0d, 0x0b0b, 0xf53a, 0xfeff]


class Chunks(object):

    def __init__(self, ctx, table):
        from hwp5 import binmodel
        self.ctx, self.B, self.table = ctx, binmodel, table

    def unit(self, u):
        r = self.ctx.rng
        if u == 't':
            return r.choice(TRAPS)
        if u == 'hi':
            return r.choice([0xd800, 0xdbff, r.randrange(0xd800, 0xdc00)])
        if u == 'lo':
            return r.choice([0xdc00, 0xdfff, r.randrange(0xdc00, 0xe000)])
        if u == 'tab':
            return 9
        if u == 'one':
            return r.choice(self.table['one'])
        if u == 'ext':
            return r.choice(self.table['ext'])
        return r.choice([c for c in self.table['inl'] if c != 9])

    def read(self, data, record=True):
        """-> guarded outcome with a list of chunks, through the record model or directly"""
        if record:
            def go():
                m = list(self.B.ModelStream(docs.MemStream(docs.recs([(66, 0, b'\0' * 24), (67, 1, data)])), (5, 0, 3, 4)).models())
                if m[1].get('unparsed'):
                    raise harness.CheckError('unparsed')
                return m[1]['content']['chunks']
        else:
            go = lambda: list(self.B.ParaTextChunks.parse_chunks(data))
        return guarded(go)

    def content(self, units, a, b, chunk):
        """None or what is wrong with the content of the chunk that covers units[a:b]"""
        (ga, gb), x = chunk
        d = struct.pack('<%dH' % (b - a), *units[a:b])
        if (ga, gb) != (a, b):
            return 'covers %d..%d, not %d..%d' % (ga, gb, a, b)
        if units[a] >= 32:
            want = d.decode('utf-16le', 'replace')
            if not isinstance(x, str) or x != want:
                return '%d..%d reads as %r, not %r' % (a, b, x, want)
            return None
        if not isinstance(x, dict) or x.get('code') != units[a]:
            return '%d..%d reads as %r, it is control %d' % (a, b, x, units[a])
        if b - a == 1:
            return None
        if units[a] == 9:
            w, u0, u1 = struct.unpack('<IBB', d[2:8])
            p = x.get('param')
            if not isinstance(p, dict) or (p.get('width'), p.get('unknown0'), p.get('unknown1'), p.get('unknown2')) != (w, u0, u1, d[8:14]):
                return 'the tab at %d reads as %r, its bytes are %s' % (a, p, d.hex())
            return None
        if x.get('chid') != d[2:6][::-1].decode('latin-1') or x.get('param') != d[6:14]:
            return 'the control at %d reads as %r, its bytes are %s' % (a, x, d.hex())
        return None


def names(ctx, C, table):
    """the code table itself: kinds of all 32 codes"""
    CC = C.B.ControlChar
    for kind, size in (('one', 1), ('ext', 8), ('inl', 8)):
        for code in table[kind]:
            o = guarded(lambda: (CC.get_kind_by_code(code).size, CC.get_kind_by_code(code), CC.get_name_by_code(code)))
            if o[0] != 'ok' or o[1][0] != size:
                ctx.violation('kind-%d' % code, 'control code %d takes %d units, the code says %s' % (code, size, o[1:]))
            elif (kind == 'ext') != (o[1][1] is CC.EXTENDED):
                ctx.violation('kind-%d' % code, 'control code %d is %s a control of its own, the code says %s' % (code, '' if kind == 'ext' else 'not', o[1:]))
            elif not isinstance(o[1][2], str):
                ctx.violation('name-%d' % code, 'control code %d has the name %r' % (code, o[1][2]))


def run(ctx):
    t = ctx.tlc('ParaText', dict(Alphabet='{"t"}', L=0), ['EmitTable', 'Table'])
    table = [p for p in t.prints if 'one' in p][0]
    C = Chunks(ctx, table)
    names(ctx, C, table)
    inv = ['Partition', 'Maximal', 'Sizes', 'Emit']
    n = 0
    runs = []
    for alpha, L in (('"t", "ext"', 10), ('"t", "one", "ext"', ctx.pick(9, 11)), ('"t", "hi", "lo", "one"', ctx.pick(6, 8)), ('"t", "inl", "tab"', ctx.pick(9, 10)),
                     ('"hi", "lo", "ext"', 9), ('"t"', 0), ('"t", "one", "ext", "inl", "tab", "hi", "lo"', ctx.pick(5, 6)), ('"ext", "tab"', ctx.pick(12, 17))):
        r = ctx.tlc('ParaText', dict(Alphabet='{%s}' % alpha, L=L), inv)
        for b in r.prints:
            if 'units' not in b:
                continue
            units = [C.unit(u) for u in b['units']]
            data = struct.pack('<%dH' % len(units), *units)
            n += 1
            o = C.read(data, n % 3 == 0)
            desc = 'units %s' % ' '.join('%04x' % u for u in units)

            def bad(key, text):
                ctx.violation(key, '%s: %s' % (desc, text), dict(behaviour=b, units=units))
            ctx.replayed += 1
            if not b['ok']:
                if o[0] != 'raise':
                    bad('cut', 'the last control is cut, the text reads as %s' % harness.abbrev(o[1:]))
                elif n % 3 == 0 and o[1] != 'ParseError':
                    bad('cut-error', 'the last control is cut, reading raises %s' % (o[1:],))
                continue
            if o[0] != 'ok':
                bad('raises', 'reading raises %s' % (o[1:],))
                continue
            if len(o[1]) != len(b['chunks']):
                bad('chunks', 'splits into %s, expected are %s' % (harness.abbrev(o[1]), [(c['k'], c['a'], c['b']) for c in b['chunks']]))
                continue
            for g, c in zip(o[1], b['chunks']):
                d = guarded(lambda: C.content(units, c['a'], c['b'], g))
                if d[0] != 'ok' or d[1]:
                    bad('content-%s' % c['k'], 'chunk %s' % (d[-1],))
                    break
        if len(ctx.violations) > 200:
            break
    ctx.exhaustive = True
    ctx.sample(dict(kind='units', units=units, chunks=b['chunks']))
    ctx.log('replayed %d' % n)
    # ---- recorded: long random texts and the texts of the fixtures
    rng = ctx.rng
    texts = []
    for k in range(ctx.pick(150, 1500)):
        w = rng.choice([(20, 1, 1), (1, 0, 5), (5, 5, 5), (3, 1, 0)])
        units = []
        while len(units) < rng.choice([3, 30, 120]):
            k = rng.choices(['t', 's', 'c'], w)[0]
            if k == 't':
                units.append(rng.choice(TRAPS))
            elif k == 's':
                units.append(rng.randrange(0xd800, 0xe000))
            else:
                c = rng.randrange(32)
                units += [c] + ([rng.choice([rng.randrange(65536), rng.randrange(32)]) for _ in range(6)] + [c] if c not in table['one'] else [])
        if rng.random() < .3:
            units = units[:rng.randrange(len(units) + 1)]
        texts.append(('random %d' % len(texts), struct.pack('<%dH' % len(units), *units)))
    texts += fixtures(ctx)
    for id, data in texts:
        units = list(struct.unpack('<%dH' % (len(data) // 2), data[:len(data) // 2 * 2]))
        o = C.read(data, True)
        if o[0] == 'hang' or (o[0] == 'raise' and o[1] != 'ParseError'):
            ctx.violation('raises', '%s: reading gives %s' % (id, o[1:]), dict(data=data.hex()))
            continue
        chunks = []
        for c in o[1] if o[0] == 'ok' else []:
            (a, b), x = c
            try:
                text = list(struct.unpack('<%dH' % (b - a), x.encode('utf-16le'))) if isinstance(x, str) else []
            except Exception:
                text = [0]
            chunks.append(dict(a=a, b=b, code=-1 if isinstance(x, str) else x['code'], text=text))
            d = guarded(lambda: C.content(units, a, b, c))
            if d[0] != 'ok' or d[1]:
                ctx.violation('content', '%s: %s' % (id, d[-1]), dict(data=data.hex()))
        runs.append(dict(id=id, units=units, ok=o[0] == 'ok', chunks=chunks))
    t = ctx.tlc('ParaTextTrace', invariants=['Emit', 'EmitErr'], data=runs)
    for p in t.prints:
        if 'bad' in p:
            r = [x for x in runs if x['id'] == p['id']][0]
            ctx.violation('trace-%s' % p['bad'], '%s: chunk %d: %s (%s)' % (p['id'], p['chunk'], p['bad'], harness.abbrev(r['chunks'][max(0, p['chunk'] - 1):p['chunk']])), r)
    ctx.validated += len(runs)
    # ---- an odd byte is no unit
    for d in (b'a', b'a\0b', b'\x0d', b'a\0\x0d\0\x05'):
        o = C.read(d, True)
        if o[0] != 'raise' or o[1] != 'ParseError':
            ctx.violation('odd', 'text of %d bytes (%r) reads as %s' % (len(d), d, o[1:]))
    ctx.log('validated')


def fixtures(ctx):
    from hwp5.recordstream import Hwp5File
    out = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        for i in h.text.section_indexes():
            o = guarded(lambda: list(h.text.section(i).records()))
            if o[0] == 'ok':
                ps = [r['payload'] for r in o[1] if r['tagid'] == 67]
                for k, p in enumerate(ps[:ctx.pick(12, 400)]):
                    if len(p) < 4000:
                        out.append(('%s section %d text %d' % (name, i, k), p))
        h.close()
    return out
