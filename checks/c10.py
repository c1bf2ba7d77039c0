# -*- coding: utf-8 -*-
"""C10: text keeps every character, its shape, its line and its language"""
import os
import struct

from lib import docs, harness
from lib.harness import guarded

SAMPLES = dict(
    n=[0x20, 0x30, 0x39, 0x21, 0x2e, 0x40, 0x3f],
    en=[0x41, 0x5a, 0x61, 0x7a, 0x5b, 0x7e, 0xa0, 0xe9, 0xff, 0x100, 0x17f, 0x24f],
    ko=[0xac00, 0xd7a3, 0xd7ff, 0xd7b0, 0x1100, 0x11ff, 0x3130, 0x318f, 0x3131, 0xa960, 0xa97f],
    cn=[0x4e00, 0x9fff, 0x2e80, 0x2fdf, 0x2eff, 0x2f00, 0x3400, 0x4dbf, 0xf900, 0xfaff],
    jp=[0x3040, 0x30ff, 0x3042, 0x30a2],
    symbol=[0x3000, 0x303f, 0x3001],
    other=[0x250, 0x3b1, 0x416, 0x10ff, 0x1200, 0x2200, 0x2e7f, 0x2fe0, 0x312f, 0x3190, 0x33ff, 0x4dc0, 0x4dff, 0xa000, 0xa95f, 0xa980, 0xabff, 0xe000, 0xf53a, 0xf8ff, 0xfb00, 0xff21, 0xfffd],
    w=[0x10000, 0x1f600, 0x10ffff, 0x20000, 0xf0000, 0x1ac00, 0x14e00, 0x10041, 0x13000, 0x10020],
    c1=[24, 30, 31, 10, 25, 29],
    c8=[5, 6, 7, 8, 9, 19, 20])


def units_of(c):
    """item (code point, or -1 - control code) -> 16-bit units"""
    if c >= 0:
        d = chr(c).encode('utf-16le')
        return list(struct.unpack('<%dH' % (len(d) // 2), d))
    c = -1 - c
    return [c] if c in (10, 13, 24, 25, 26, 27, 28, 29, 30, 31, 0) else [c, 0x6162, 0x6364, 0, 1, 2, 3, c]


def lineseg(pos, yxw):
    y, x, w = yxw
    return struct.pack('<IiiiiiiiHH', pos, y, 1000, 1000, 850, 600, x, w, 0, 6)


def line_id(a):
    return a['y'], a['x'], a['width']


def line_ids(rng, n):
    """n lines, which differ in one of their fields only"""
    which = rng.randrange(4)
    return [tuple(100 + k if which == f or which == 3 else 7 for f in range(3)) for k in range(n)]


def para(items, shapes, lines, text=None):
    """records of one paragraph: items [c], shapes [(pos, id)] or None, lines [(pos, y)] or None"""
    units = sum((units_of(c) for c in items), [])
    out = [(66, 0, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, 0, len(shapes or ()), 0, len(lines or ()), 7))]
    if units:
        out.append((67, 1, struct.pack('<%dH' % len(units), *units)))
    if shapes is not None:
        out.append((68, 1, b''.join(struct.pack('<II', p, v) for p, v in shapes)))
    if lines is not None:
        out.append((69, 1, b''.join(lineseg(p, y) for p, y in lines)))
    return out


def flatten(events, line_id):
    """converted events -> for every paragraph [(c, shape, line, lang, run)]"""
    from hwp5.treeop import STARTEVENT
    paras, stack = [], []
    for event, (model, attributes, context) in events:
        name = model.__name__
        if name == 'Paragraph':
            if event == STARTEVENT:
                paras.append([])
                stack.append([paras[-1], None])
            else:
                stack.pop()
            continue
        start = event == STARTEVENT
        if name == 'LineSeg':
            stack[-1][1] = line_id(attributes) if start else None
        elif start and name == 'Text':
            for u in attributes['text']:
                stack[-1][0].append((ord(u), attributes['charshape_id'], stack[-1][1], attributes.get('lang')))
        elif start and name == 'ControlChar':
            stack[-1][0].append((-1 - attributes['code'], attributes['charshape_id'], stack[-1][1], None))
    return paras


def run(ctx):
    from hwp5.xmlmodel import Section
    rng = ctx.rng

    def convert(recs, line_id):
        return flatten(Section(docs.MemStream(docs.recs(recs)), (5, 0, 3, 4)).events(), line_id)

    batch = []

    def flush():
        if not batch:
            return
        o = guarded(lambda: convert(sum((x[0] for x in batch), []), line_id), 120)
        if o[0] != 'ok' or len(o[1]) != len(batch):
            # find the one
            for x in batch:
                o = guarded(lambda: convert(x[0], line_id), 5)
                if o[0] != 'ok' or len(o[1]) != 1:
                    ctx.violation('raises', '%s: converting gives %s' % (x[2], harness.abbrev(o[1:])), x[3])
                    if len(ctx.violations) > 50:
                        break
                else:
                    compare(o[1][0], x)
            del batch[:]
            return
        for got, x in zip(o[1], batch):
            compare(got, x)
        del batch[:]

    def compare(got, x):
        _, want, desc, b, strict = x
        ctx.replayed += 1
        if [g[0] for g in got] != [w[0] for w in want]:
            ctx.violation('kept', '%s: converts to characters %s' % (desc, harness.abbrev([g[0] for g in got])), b)
            return
        if not strict:
            return
        for k, (g, w) in enumerate(zip(got, want)):
            for j, part in ((1, 'shape'), (2, 'line'), (3, 'language')):
                if g[j] != w[j]:
                    ctx.violation(part, '%s: the %s of item %d is %r, not %r' % (desc, part, k + 1, g[j], w[j]), b)
                    return

    inv = ['Covers', 'Ordered', 'Kept', 'Emit']
    confs = [
        # bounds everywhere: text and controls, one kind of language
        (dict(Classes='{"n", "c8"}', N=2, Positions='{0, 1, 4, 8, 9, 10, 17}', MaxShapes=2, MaxLines=2, Sorted='TRUE'), True),
        (dict(Classes='{"en", "w", "c1"}', N=3, Positions='{0, 1, 2, 3}', MaxShapes=2, MaxLines=2, Sorted='TRUE'), True),
        (dict(Classes='{"ko", "n"}', N=ctx.pick(3, 4), Positions='{0, 1, 2, 3, 4}', MaxShapes=3, MaxLines=ctx.pick(1, 2), Sorted='TRUE'), True),
        (dict(Classes='{"w", "ko"}', N=3, Positions='{0, 1, 2, 3, 4, 5, 6}', MaxShapes=ctx.pick(3, 4), MaxLines=0, Sorted='TRUE'), True),
        (dict(Classes='{"w", "c8", "en"}', N=ctx.pick(2, 3), Positions='{0, 1, 2, 3, 7, 9, 10, 11}', MaxShapes=0, MaxLines=ctx.pick(3, 4), Sorted='TRUE'), True),
        # languages
        (dict(Classes='{"n", "ko", "en", "c1"}', N=ctx.pick(5, 6), Positions='{0}', MaxShapes=0, MaxLines=0, Sorted='TRUE'), True),
        (dict(Classes='{"n", "ko", "en", "cn", "jp", "symbol", "other", "w"}', N=ctx.pick(3, 4), Positions='{0}', MaxShapes=0, MaxLines=0, Sorted='TRUE'), True),
        (dict(Classes='{"n", "ko", "en"}', N=4, Positions='{1, 2, 3}', MaxShapes=2, MaxLines=1, Sorted='TRUE'), True),
        # boundaries out of order lose nothing
        (dict(Classes='{"ko", "w", "c1"}', N=2, Positions='{0, 1, 2, 3}', MaxShapes=3, MaxLines=ctx.pick(1, 2), Sorted='FALSE'), False),
    ]
    for consts, strict in confs:
        r = ctx.tlc('ParaSplit', consts, inv, timeout=400)
        cap = ctx.pick(9000, 10 ** 9)
        bs = [b for b in r.prints if 'items' in b]
        if len(bs) > cap:
            bs = rng.sample(bs, cap)
            ctx.exhaustive = False
        for b in bs:
            items = [rng.choice(SAMPLES[c]) if c not in ('c1', 'c8') else -1 - rng.choice(SAMPLES[c]) for c in b['items']]
            ids = [rng.choice([0, 1, 2, 5, 300]) for _ in b['shapes']]
            if rng.random() < .6:
                ids = list(range(3, 3 + len(ids)))
            shapes = list(zip(b['shapes'], ids)) or rng.choice([None, []])
            lids = line_ids(rng, len(b['lines']))
            lines = list(zip(b['lines'], lids)) or rng.choice([None, []])
            want = []
            for c, (s, l, lang) in zip(items, b['out']):
                want.append((c, ids[s - 1] if s else 0, lids[l - 1] if l else (0, 0, 0), lang or None))
            desc = 'items %s, shapes %s, lines %s' % (' '.join('U+%04X' % c if c >= 0 else 'control %d' % (-1 - c) for c in items), shapes, lines and [p for p, _ in lines])
            batch.append((para(items, shapes, lines), want, desc, b, strict))
            if len(batch) >= 400:
                flush()
        flush()
        if len(ctx.violations) > 200:
            break
    ctx.sample(dict(kind='paragraph', behaviour=bs[-1]))
    ctx.log('replayed %d' % ctx.replayed)

    # ---- recorded: long random paragraphs, and those of the fixtures
    runs = []
    every = [(k, c) for k in SAMPLES for c in SAMPLES[k]]
    recs, specs = [], []
    for n in range(ctx.pick(120, 1500)):
        bag = rng.choice([every, [e for e in every if e[0] in ('n', 'ko', 'en')], [e for e in every if e[0] in ('c1', 'c8', 'w', 'n', 'cn')]])
        items = [(c if k not in ('c1', 'c8') else -1 - c) for k, c in (rng.choice(bag) for _ in range(rng.choice([0, 1, 6, 20, 60])))]
        total = sum(len(units_of(c)) for c in items)
        drop = rng.random() < .1

        def bounds(m):
            ps = [rng.choice([0, 1, rng.randrange(total + 2), rng.randrange(total + 2)]) for _ in range(m)]
            ps = ps if drop else sorted(ps)
            if ps and rng.random() < .6:
                ps[0] = 0
            return ps
        shapes = [(p, rng.choice([k, k, rng.randrange(5)])) for k, p in enumerate(bounds(rng.choice([0, 1, 3, 8])))]
        ps = bounds(rng.choice([0, 1, 2, 6]))
        lines = list(zip(ps, line_ids(rng, len(ps))))
        recs.append(para(items, shapes, lines))
        specs.append(dict(id='random %d' % n, items=items, shapes=shapes or [(0, 0)], lines=lines or [(0, (0, 0, 0))], drop=drop))
    # every character beside others, with a shape of its own: blanks, marks and signs first
    import unicodedata
    notable = [c for c in range(0x20, 0x30000) if not 0xd800 <= c < 0xe000 and unicodedata.category(chr(c)) in ('Zs', 'Zl', 'Zp', 'Cf', 'Cc')]
    rest = [c for c in range(0x20, 0xfffe) if not 0xd800 <= c < 0xe000]
    if not ctx.thorough:
        rest = rng.sample(rest, 9000)
        ctx.exhaustive = False
    for n, some in enumerate([notable[k:k + 60] for k in list(range(0, len(notable), 60)) * 2] + [rest[k:k + 60] for k in range(0, len(rest), 60)]):
        items = []
        for c in some:
            items += [0x41 if n % 2 else 0xac00, c]
        places, at = [], 0
        for c in items:
            places.append(at)
            at += len(units_of(c))
        shapes = [(p, k % 5) for k, p in enumerate(places)] if n % 3 == 0 or some[0] in notable else [(p, k % 3) for k, p in enumerate(places) if k % 2 or k == 0]
        ps = places[::7] if n % 2 else [0]
        lines = list(zip(ps, line_ids(rng, len(ps))))
        recs.append(para(items, shapes, lines))
        specs.append(dict(id='characters %04X-%04X' % (some[0], some[-1]), items=items, shapes=shapes, lines=lines, drop=False))
    o = guarded(lambda: convert(sum(recs, []), line_id), 240)
    if o[0] != 'ok' or len(o[1]) != len(recs):
        for s, r in zip(specs, recs):
            o = guarded(lambda: convert(r, line_id))
            if o[0] != 'ok' or len(o[1]) != 1:
                ctx.violation('raises', '%s: converting gives %s' % (s['id'], harness.abbrev(o[1:])), s)
                break
        else:
            ctx.violation('raises', 'converting %d paragraphs of a section gives %s' % (len(recs), harness.abbrev(o[1:])))
    else:
        for s, got in zip(specs, o[1]):
            runs.append(record(s, got))
    runs += fixtures(ctx)
    t = ctx.tlc('ParaSplitTrace', invariants=['Emit'], data=runs, timeout=600)
    for p in t.prints:
        r = [x for x in runs if x['id'] == p['id']][0]
        if p['bad'] == 'recorder':
            raise harness.CheckError('recorder: %s' % p)
        ctx.violation('trace-%s' % p['bad'], '%s: item %d: %s (stored %s, converted %s)' % (p['id'], p['item'], p['bad'], harness.abbrev(r['items'][p['item'] - 1:p['item']]), harness.abbrev(r['out'][p['item'] - 1:p['item']])), r)
    ctx.validated += len(runs)
    ctx.log('validated %d' % len(runs))


def record(s, got):
    items, pos = [], 0
    for c in s['items']:
        w = s['widths'].get(c) if 'widths' in s else None
        w = w or len(units_of(c))
        items.append(dict(c=c, p=pos, w=w))
        pos += w
    return dict(id=s['id'], items=items, drop=s['drop'], shapes=[dict(p=p, v=str(v)) for p, v in s['shapes']], lines=[dict(p=p, v=str(v)) for p, v in s['lines']],
                out=[dict(c=g[0], shape=str(g[1]), line=str(g[2]), lang=str(g[3])) for g in got])


EXT = {1, 2, 3, 11, 12, 14, 15, 16, 17, 18, 21, 22, 23}


def fixtures(ctx):
    """paragraphs of the fixtures, but their control objects and ends of fields (other properties) aside"""
    from hwp5.xmlmodel import Hwp5File
    from hwp5.binmodel import ModelStream
    out = []
    lid = lambda a: '%s/%s/%s' % (a['chpos'], a['y'], a['x'])
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        for i in h.text.section_indexes():
            o = guarded(lambda: list(h.text.section(i).models()), 60)
            if o[0] != 'ok' or len(o[1]) > 6000:
                continue
            stored, hoisted, where, deep = [], [], None, []
            for m in o[1]:
                lv = m['level']
                while deep and deep[-1][0] >= lv:
                    deep.pop()
                if m['type'].__name__ == 'SectionDef' and where is None:
                    where = lv
                elif where is not None and where != -1 and lv <= where:
                    where = -1
                if m['type'].__name__ == 'Paragraph':
                    p = dict(items=[], widths={}, shapes=[], lines=[])
                    (hoisted if where is not None and where != -1 else stored).append(p)
                    deep.append((lv, p))
                elif not deep:
                    continue
                elif m['type'].__name__ == 'ParaText':
                    for (a, b), x in m['content']['chunks']:
                        deep[-1][1]['items'] += [(ord(u), 2 if ord(u) > 0xffff else 1) for u in x] if isinstance(x, str) else [(-1 - x['code'], b - a)]
                elif m['type'].__name__ == 'ParaCharShape':
                    deep[-1][1]['shapes'] = [tuple(x) for x in m['content']['charshapes']]
                elif m['type'].__name__ == 'ParaLineSeg':
                    deep[-1][1]['lines'] = [(x['chpos'], lid(x)) for x in m['content']['linesegs']]
            ps = hoisted + stored
            o = guarded(lambda: flatten(h.text.section(i).events(), lid), 120)
            if o[0] != 'ok' or len(o[1]) != len(ps):
                ctx.violation('fixture', '%s section %d has %d paragraphs, converting gives %s' % (name, i, len(ps), harness.abbrev(o[1] if o[0] != 'ok' else len(o[1]))))
                continue
            n = ctx.pick(25, 100000)
            for k, (p, got) in enumerate(zip(ps, o[1])):
                if k >= n:
                    break
                items, pos = [], 0
                for c, w in p['items']:
                    items.append(dict(c=c, p=pos, w=w))
                    pos += w
                hole = [x for x in items if -1 - x['c'] in EXT or x['c'] == -5]
                r = dict(id='%s section %d paragraph %d' % (name, i, k), drop=False, items=items,
                         shapes=[dict(p=a, v=str(b)) for a, b in p['shapes'] or [(0, 0)]], lines=[dict(p=a, v=str(b)) for a, b in p['lines'] or [(0, '0/0/0')]],
                         out=[dict(c=g[0], shape=str(g[1]), line=str(g[2]), lang=str(g[3])) for g in got])
                # put the ones left aside back as stored
                if hole:
                    outs, it = [], iter(r['out'])
                    for x in items:
                        if x in hole:
                            cov = lambda s: [b['v'] for j, b in enumerate(s) if j == 0 or b['p'] <= x['p']][-1]
                            outs.append(dict(c=x['c'], shape=cov(r['shapes']), line=cov(r['lines']), lang='None'))
                        else:
                            y = next(it, None)
                            if y is not None:
                                outs.append(y)
                    r['out'] = outs + list(it)
                out.append(r)
        h.close()
    return out
