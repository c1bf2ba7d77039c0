# -*- coding: utf-8 -*-
"""Sections of the Convert specification as records, and their converted events"""
import struct

from . import docs, harness
from .harness import guarded

VERSION = (5, 0, 3, 4)
ONE = [24, 30, 31, 10]
EIGHT = [5, 6, 7, 8, 9, 19, 20]
EXT = [1, 2, 3, 11, 12, 14, 15, 16, 17, 18, 21, 22, 23]


def chid(s):
    return s.encode('latin-1')[::-1]


def wstr(s):
    d = s.encode('utf-16le')
    return struct.pack('<H', len(d) // 2) + d


class Builder(object):
    """records of documents; every record carries a number of its own where its kind has a place for one"""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def mark(self):
        self.n += 1
        return self.n

    def control(self, k, m):
        r = self.rng
        if k == 'F':
            # the type of a field, and its id
            return 71, chid(r.choice(['%unk', '%hlk', '%clk', '%bmk', '%dte', '%xrf', '%fmu', '%smr', '%%me'])) + struct.pack('<IB', 0, 0) + wstr(r.choice(['', 'a;b', 'http\\://x'])) + struct.pack('<I', m)
        if k == 'T':
            return 71, chid('tbl ') + struct.pack('<Ii', 0, m) + b'\0' * 32 + struct.pack('<I', m) + struct.pack('<HH', 0, 0)
        if k == 'G':
            return 71, chid('gso ') + struct.pack('<Ii', 0, m) + b'\0' * 32 + struct.pack('<I', m) + struct.pack('<HH', 0, 0)
        if k == 'N':
            c = r.choice(['fn  ', 'en  ', 'head', 'foot', 'fn  '])
            return 71, chid(c) + struct.pack('<III', m, 0, 0) + b'\0' * 8
        if k == 'SD':
            return 71, chid('secd') + struct.pack('<IhhhI', 0, 0, 0, 0, m) + b'\0' * 60
        if k == 'CD':
            return 71, chid('cold') + struct.pack('<HH', 1 << 12 | 1 << 2, m) + b'\0' * 16
        c = r.choice(['atno', 'nwno', 'nwno', 'atno', 'bokm'])
        if c == 'bokm':
            return 71, chid(c)
        return 71, chid(c) + struct.pack('<IH', 0, m) + struct.pack('<HHH', 0x41, 0x42, 0x43)

    def style(self):
        """style and paragraph shape of a paragraph"""
        return 0, 0

    def geometry(self, d):
        """place and spans of a cell"""
        return [self.rng.choice([0, 1, 1, 2, 300]) for _ in range(4)]

    def split(self, d, doc):
        """what starts at a paragraph, but columns"""
        return self.rng.choice([0, 0, 1, 4, 8, 13])

    def component(self, d, doc, m):
        """a drawing's component"""
        return [(76, d['lv'], chid('$rec') * 2 + struct.pack('<i', m) + b'\0' * 240)]

    def data(self, d, doc):
        """record type of further data of a control"""
        return self.rng.choice([87, 87, 88, 73])

    def shapes(self, units):
        """character shapes of a text: [(first unit, shape)]"""
        return [(0, 3)]

    def text(self, text, m):
        """-> 16-bit units, line starts, [(place in text, what it reads as)]"""
        r = self.rng
        units, lines, shown = [], [0], []
        for j, t in enumerate(text):
            if t == '|':
                lines.append(len(units))
            elif t == 'c':
                c = r.choice([0x61, 0x62, 0xac00, 0x4e00, 0x3042, 0x20, 0x31]) + r.randrange(8)
                if 0x20 <= c < 0x28:
                    c = 0x20
                units.append(c)
                shown.append((j + 1, 'c', c))
            elif t == 'i':
                c = r.choice(ONE + EIGHT)
                units += [c] if c in ONE else [c, 0, 0, 0, 0, 0, 0, c]
                shown.append((j + 1, 'i', c))
            elif t == 'e':
                units += [4, 0x6b6c, 0x2568, 0, 0, 0, 0, 4]
            else:
                c = r.choice(EXT)
                units += [c, 0x6162, 0x6364, 0, 0, 0, m & 0xffff, c]
                shown.append((j + 1, 'x', c))
        return units, lines, shown

    def build(self, doc):
        """doc [dict(k, lv, text, cols, rc)] -> records; fills each d['shown'], ['at'] = index of its record"""
        out = []
        for d in doc:
            m = self.mark()
            lv, k = d['lv'], d['k']
            d['at'] = len(out)
            if k == 'P':
                units, lines, d['shown'] = self.text(d['text'], m)
                d['split'] = split = (2 if d['cols'] else 0) | self.split(d, doc)
                d['style'] = self.style()
                d['shapes'] = self.shapes(len(units))
                out.append((66, lv, struct.pack('<IIHBBHHHI', len(units), 0, d['style'][1], d['style'][0], split, len(d['shapes']), 0, len(lines), m)))
                if units:
                    out.append((67, lv + 1, struct.pack('<%dH' % len(units), *units)))
                out.append((68, lv + 1, b''.join(struct.pack('<II', *x) for x in d['shapes'])))
                if len(lines) > 1 or self.rng.random() < .7:
                    out.append((69, lv + 1, b''.join(struct.pack('<IiiiiiiiHH', p, 100 + n, 1, 1, 1, 1, 1, 1, 0, 0) for n, p in enumerate(lines))))
            elif d['k'] == 'L':
                out.append((72, lv, struct.pack('<HHI', self.rng.choice([0, 1, 2, 9]), m & 0xffff, 0) + struct.pack('<4H', *self.geometry(d)) + b'\0' * 40))
            elif k == 'B':
                out.append((77, lv, struct.pack('<IHHH', 0, len(d['rc']), 3, m & 0xffff) + b'\0' * 8 + struct.pack('<%dH' % len(d['rc']), *d['rc']) + b'\1\0\0\0'))
            elif k in ('SC', 'SG'):
                out += self.component(d, doc, m)
            elif k == 'D':
                out.append((self.data(d, doc), lv, struct.pack('<I', m) + b'\0' * 400))
            else:
                tag, payload = self.control(k, m)
                out.append((tag, lv, payload))
        return out


def sig(name, content):
    """what identifies an element: its name and content"""
    def show(v):
        if isinstance(v, dict):
            return sorted((k, show(x)) for k, x in v.items() if k not in ('rowcols', 'section_id'))
        if isinstance(v, (list, tuple)):
            return [show(x) for x in v]
        return repr(v)
    return '%s %s' % (name, show(content))


class Sigs(object):
    """numbers of distinct contents"""

    def __init__(self):
        self.all = {}

    def __call__(self, name, content):
        return self.all.setdefault(sig(name, content), len(self.all) + 1)


GONE = ('ParaText', 'ParaCharShape', 'ParaLineSeg', 'ParaRangeTag')


def recorded(events, sigs):
    """converted events -> [[op, name, number]], with characters and control characters one by one"""
    from hwp5.treeop import STARTEVENT
    out = []
    for event, (model, attributes, context) in events:
        name = model.__name__
        op = '<' if event == STARTEVENT else '>'
        if name == 'Text':
            if op == '<':
                out += [['c', '', ord(u)] for u in attributes['text']]
        elif name == 'ControlChar':
            if op == '<':
                out.append(['i', '', attributes['code']])
        elif name in ('LineSeg', 'TableRow', 'ColumnSet'):
            out.append([op, {'LineSeg': 'S', 'TableRow': 'R', 'ColumnSet': 'Q'}[name], 0])
        else:
            out.append([op, name, sigs(name, attributes)])
    return out


def expected(doc, out, models, sigs):
    """events of the specification in the form of recorded()"""
    num = [sigs(models[d['at']]['type'].__name__, models[d['at']]['content']) for d in doc]
    res, stack = [], []
    for op, name, *rest in out:
        if op in ('c', 'i'):
            p = stack[-1]
            t, c = [(t, c) for j, t, c in doc[p - 1]['shown'] if j == name][0]
            res.append([op, '', c])
            continue
        i = rest[0]
        if name == 'P':
            if op == '<':
                stack.append(i)
            else:
                stack.pop()
        if name in ('S', 'R', 'Q'):
            res.append([op, name, 0])
        elif i == 0:
            res.append([op, 'SectionDef', 0])
        else:
            res.append([op, models[doc[i - 1]['at']]['type'].__name__, num[i - 1]])
    return res


def models_of(recs):
    from hwp5.binmodel import ModelStream
    return list(ModelStream(docs.MemStream(docs.recs(recs)), VERSION).models())


def convert(recs):
    from hwp5.xmlmodel import Section
    return Section(docs.MemStream(docs.recs(recs)), VERSION).events()


def stored(models, sigs):
    """records of a section as read -> records of the specification, with numbers of their contents"""
    from hwp5.binmodel import Control, ListHeader, TableBody, SectionDef, Paragraph
    from hwp5.binmodel.controls.field import Field
    out, paras = [], {}
    for m in models:
        t, c, lv = m['type'], m['content'], m['level']
        name = t.__name__
        paras = dict((l, p) for l, p in paras.items() if l < lv)
        if name in GONE:
            p = paras.get(lv - 1)
            if p is None:
                continue
            if name == 'ParaText':
                p['chunks'] = c['chunks']
            elif name == 'ParaLineSeg':
                p['starts'] = [x['chpos'] for x in c['linesegs']]
            continue
        d = dict(k='D', lv=lv, ctl=issubclass(t, Control), text=[], cols=False, rc=[], name=name, num=sigs(name, c), chars=[])
        if t is Paragraph:
            d['k'], d['cols'] = 'P', bool(c['split'] & 2)
            paras[lv] = d
        elif issubclass(t, Field):
            d['k'] = 'F'
        elif t is SectionDef:
            d['k'] = 'SD'
        elif issubclass(t, ListHeader):
            d['k'] = 'L'
        elif t is TableBody:
            d['k'], d['rc'] = 'B', list(c['rowcols'])
        out.append(d)
    for d in out:
        if d['k'] != 'P':
            continue
        items = []     # unit, token, shown
        for (a, b), x in d.pop('chunks', ()):
            if isinstance(x, str):
                for u in x:
                    items.append((a, 'c', ord(u)))
                    a += 2 if ord(u) > 0xffff else 1
            else:
                items.append((a, 'x' if x['code'] in EXT else 'e' if x['code'] == 4 else 'i', x['code']))
        starts = d.pop('starts', None) or [0]
        cover = lambda p: [n for n, q in enumerate(starts) if n == 0 or q <= p][-1]
        line = None
        for p, t, c in items:
            n = cover(p)
            if line is not None and n != line:
                d['text'].append('|')
                d['chars'].append(0)
            line = n
            d['text'].append(t)
            d['chars'].append(c)
    return out


def trace(id, recs_models, events, loose=False):
    """-> a run for ConvertTrace"""
    sigs = Sigs()
    doc = stored(recs_models, sigs)
    out = recorded(events, sigs)
    if out and not any(d['k'] == 'SD' for d in doc) and out[0][1] == 'SectionDef':
        out[0][2] = out[-1][2] = 0
    return dict(id=id, doc=doc, out=out, loose=loose)


class RandomDoc(object):
    """a random section of many records"""

    def __init__(self, rng, kinds='PCFNTGD', depth=3, mess=0.):
        self.rng, self.kinds, self.depth, self.mess = rng, kinds, depth, mess
        self.doc = []
        self.size = 0

    def add(self, k, lv, text=(), cols=False, rc=()):
        self.doc.append(dict(k=k, lv=lv, text=list(text), cols=cols, rc=list(rc)))

    def para(self, lv, depth, sd=False):
        r = self.rng
        n = r.choice([0, 0, 1, 1, 2, 3]) if len(self.doc) < 120 else 0
        ks = [r.choice([k for k in self.kinds if k in 'CFNTG' and (depth > 0 or k in 'CF')] or ['C']) for _ in range(n)]
        if sd:
            ks = ['SD', 'CD'] + ks
        text = ['x'] * len(ks)
        for _ in range(r.choice([0, 1, 3, 8])):
            text.insert(r.randrange(len(text) + 1), r.choice('ccci' + ('ee' if 'F' in self.kinds else 'c')))
        if len(text) > 1 and r.random() < .4:
            for _ in range(r.choice([1, 1, 2])):
                text.insert(r.randrange(1, len(text)), '|')
            text = [t for i, t in enumerate(text) if t != '|' or (text[i - 1] != '|' and i + 1 < len(text))]
        self.add('P', lv, text, cols=r.random() < .15)
        if r.random() < self.mess:
            ks = ks[:-1] if r.random() < .5 else ks + ['C']
        for k in ks:
            self.control(k, lv + 1, depth - 1)

    def plist(self, lv, depth, n=None):
        self.add('L', lv)
        for _ in range(self.rng.choice([0, 1, 1, 2]) if n is None else n):
            self.para(lv, depth)

    def control(self, k, lv, depth):
        r = self.rng
        self.add(k, lv)
        if k in 'CF' and r.random() < .3 and 'D' in self.kinds:
            self.add('D', lv + 1)
        if k == 'SD':
            for _ in range(r.choice([0, 1, 2])):
                self.add('D', lv + 1)
        if k == 'N':
            for _ in range(r.choice([1, 1, 2])):
                self.plist(lv + 1, depth)
        if k == 'T':
            if r.random() < .3:
                self.plist(lv + 1, depth)
            rc = [r.choice([0, 1, 1, 2, 3]) for _ in range(r.choice([0, 1, 2, 3]))]
            self.add('B', lv + 1, rc=rc)
            for _ in range(r.choice([sum(rc), sum(rc), sum(rc), max(0, sum(rc) - 1), 0, sum(rc) + 2])):
                self.plist(lv + 1, depth)
        if k == 'G':
            if r.random() < .3:
                self.plist(lv + 1, depth)
            for _ in range(r.choice([1, 1, 2])):
                self.add('SC', lv + 1)
                if r.random() < .6:
                    self.plist(lv + 2, depth)

    def make(self):
        for n in range(self.rng.choice([1, 2, 3, 5])):
            self.para(0, self.depth, sd=n == 0 and self.rng.random() < .7)
        return self.doc


BIG = ('wide', 'deep', 'rows', 'fields', 'list')


def big(rng, what):
    """sections with much of something"""
    x = RandomDoc(rng)
    if what == 'wide':
        ks = [rng.choice('CCF') for _ in range(300)]
        x.add('P', 0, sum((['x'] + ['c'] * rng.randrange(2) + ['e'] * (k == 'F') for k in ks), []))
        for k in ks:
            x.add(k, 1)
    elif what == 'deep':
        def nest(lv, n):
            if n == 0:
                x.add('P', lv, 'c')
                return
            x.add('P', lv, 'cxc')
            k = rng.choice('NTTTG')
            x.add(k, lv + 1)
            if k == 'T':
                x.add('B', lv + 2, rc=[1, 2])
            at = lv + 3 if k == 'G' else lv + 2
            for m in range(3):
                if k == 'G':
                    x.add('SC', lv + 2)
                x.add('L', at)
                if m == 1:
                    nest(at, n - 1)
                x.add('P', at, 'c')
        nest(0, rng.choice([30, 40]))
        x.add('P', 0, 'c')
    elif what == 'rows':
        rc = [rng.choice([0, 1, 2, 5, 40]) for _ in range(60)]
        x.add('P', 0, 'x')
        x.add('T', 1)
        x.add('B', 2, rc=rc)
        for _ in range(sum(rc)):
            x.add('L', 2)
    elif what == 'fields':
        x.add('P', 0, sum((['x', 'c'] + (['|'] if n % 4 == 3 else []) for n in range(40)), []) + ['c', 'e'])
        for _ in range(40):
            x.add('F', 1)
        for _ in range(4):
            x.add('P', 0, ['e'] * 9 + ['c', '|', 'c'])
    else:
        x.add('P', 0, 'xx', cols=True)
        for _ in range(2):
            x.add('N', 1)
            x.add('L', 2)
            for n in range(150):
                x.add('P', 2, 'c', cols=n % 50 == 7)
        for n in range(150):
            x.add('P', 0, 'c', cols=n % 60 == 3)
    return x.doc


def validate(ctx, n, fixtures=None, **kw):
    """record conversions of random sections and of the fixtures; the specification judges them"""
    runs = []
    builder = Builder(ctx.rng)
    for k in range(n):
        mess = .3 if k % 5 == 4 else 0.
        doc = RandomDoc(ctx.rng, mess=mess, **kw).make() if k >= len(BIG) else big(ctx.rng, BIG[k])
        mess = mess if k >= len(BIG) else 0.
        recs = builder.build(doc)
        o = guarded(lambda: models_of(recs))
        if o[0] != 'ok':
            ctx.violation('models', 'random section %d (%s): its records read as %s' % (k, text_of(doc), o[1:]), doc)
            continue
        models = o[1]
        o = guarded(lambda: trace('random section %d' % k, models, convert(recs), bool(mess)))
        if o[0] != 'ok':
            ctx.violation('raises', 'random section %d (%s): converting gives %s' % (k, text_of(doc), o[1:]), doc)
            continue
        runs.append(o[1])
    runs += of_fixtures(ctx, fixtures or ctx.pick(500, 6000))
    byid = dict((r['id'], r) for r in runs)
    for a in range(0, len(runs), 400):
        t = ctx.tlc('ConvertTrace', invariants=['Emit'], data=runs[a:a + 400], timeout=600)
        for p in t.prints:
            r = byid[p['id']]
            at = p['v']['at']
            ctx.violation('trace-%s' % p['v']['bad'], '%s (%s): %s at event %d: %s, not %s' % (p['id'], harness.abbrev(text_of(r['doc'])), p['v']['bad'], at, short(r['out'][at - 1:at + 3]) if at else short(r['out']), p['v']['want']), r)
    ctx.validated += len(runs)
    ctx.log('%d sections validated' % len(runs))


def of_fixtures(ctx, size):
    import os
    from hwp5.xmlmodel import Hwp5File
    out = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        for i in h.text.section_indexes():
            o = guarded(lambda: list(h.text.section(i).models()), 60)
            if o[0] != 'ok' or len(o[1]) > size:
                continue
            models = o[1]
            id = '%s section %d' % (name, i)
            o = guarded(lambda: trace(id, models, h.text.section(i).events()), 60)
            if o[0] != 'ok':
                ctx.violation('fixture', '%s: converting gives %s' % (id, o[1:]))
                continue
            out.append(o[1])
        h.close()
    return out


def replay(ctx, consts, rng, cap):
    """enumerate sections by the specification and convert each"""
    r = ctx.tlc('Convert', dict(dict(Alphabet='{"c"}', MaxText=0, MaxLevel=3, RowVecs='<-NoRows', Cols='{FALSE}'), **consts),
                ['IsBalanced', 'Once', 'Placed', 'Rowed', 'Owned', 'Enclosed', 'Emit'], timeout=600)
    bs = [b for b in r.prints if 'out' in b]
    if len(bs) > cap:
        bs = rng.sample(bs, cap)
        ctx.exhaustive = False
    builder = Builder(rng)
    for b in bs:
        one(ctx, builder, b)
        if len(ctx.violations) > 40:
            break
    ctx.sample(dict(kind='section', behaviour=bs[-1]))
    ctx.log('%d of %d sections replayed (%s)' % (len(bs), len(r.prints), consts['Kinds']))


def text_of(doc):
    return ' '.join('%s%d%s%s%s' % (d['k'], d['lv'], '(%s)' % ''.join(d['text']) if d['k'] == 'P' else '', '*' if d['cols'] else '', list(d['rc']) if d['k'] == 'B' else '') for d in doc)


def one(ctx, builder, b):
    doc = b['doc']
    recs = builder.build(doc)
    o = guarded(lambda: models_of(recs))
    desc = 'section %s' % text_of(doc)
    if o[0] != 'ok' or len(o[1]) != len(recs) or any('unparsed' in str(m.get('error', '')) for m in o[1]):
        ctx.violation('models', '%s: its records read as %s' % (desc, harness.abbrev(o)), b)
        return
    sigs = Sigs()
    want = expected(doc, b['out'], o[1], sigs)
    o = guarded(lambda: recorded(convert(recs), sigs))
    ctx.replayed += 1
    if o[0] != 'ok':
        ctx.violation('raises', '%s: converting gives %s' % (desc, o[1:]), b)
        return
    got = [g if g[1] != 'SectionDef' or b['out'][0][2] else [g[0], g[1], 0] for g in o[1]]
    if got != want:
        k = [i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]][0]
        ctx.violation('differs', '%s: event %d is %s, not %s (got %s)' % (desc, k, got[k:k + 1], want[k:k + 1], short(got)), dict(b, got=got, want=want))


def short(ev):
    return harness.abbrev(' '.join('%s%s' % (e[0], e[1]) if e[0] in '<>' else e[0] for e in ev))


def wellformed(ctx):
    """the XML of random sections (also such whose records do not correspond) is balanced"""
    from xml.etree import ElementTree
    from hwp5.xmlmodel import Section
    builder = Builder(ctx.rng)
    for k in range(ctx.pick(150, 1500)):
        doc = RandomDoc(ctx.rng, mess=.3 if k % 2 else 0., kinds='FFCNTGD').make()
        recs = builder.build(doc)
        o = guarded(lambda: b''.join(Section(docs.MemStream(docs.recs(recs)), VERSION).xmlevents().bytechunks()))
        if o[0] != 'ok':
            ctx.violation('xml-raises', 'random section (%s): its XML gives %s' % (text_of(doc), o[1:]), doc)
            continue
        w = guarded(lambda: ElementTree.fromstring(o[1]))
        ctx.validated += 1
        if w[0] != 'ok':
            ctx.violation('xml', 'random section (%s): its XML does not parse: %s' % (text_of(doc), w[1:]), doc)
