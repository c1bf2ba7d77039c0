# -*- coding: utf-8 -*-
"""C24: web pages and OpenDocument texts show all text, in order and shape"""
import os
import shutil
import zipfile

from lib import cli, convert, harness, show
from lib.harness import guarded


class Shower(object):
    """pages and texts of files, by converters used again and by ones of their own"""

    def __init__(self, ctx):
        from hwp5.hwp5html import HTMLTransform
        from hwp5.hwp5odt import ODTTransform
        self.ctx = ctx
        self.makes = {'html': HTMLTransform, 'odt': ODTTransform}
        self.makes['odt unchecked'] = lambda **kw: ODTTransform(relaxng_compile=lambda path: None, **kw)
        self.ones = dict((f, make()) for f, make in self.makes.items())

    def api(self, path, f, how, filled):
        from contextlib import closing
        from hwp5.xmlmodel import Hwp5File
        f = f if filled else 'odt unchecked'
        if how == 'xsltproc':
            from hwp5.plat.xsltproc import xslt_compile
            t = self.makes[f](xslt_compile=xslt_compile)
        else:
            t = self.ones[f] if how == 'again' else self.makes[f]()

        def to(transform):
            p = self.ctx.path('out.xml')
            with open(p, 'w+b') as out:
                transform(h, out)
                out.seek(0)
                return out.read()
        with closing(Hwp5File(path)) as h:
            if how == 'whole':
                return self.whole(t, h, f)
            if f == 'html':
                return to(t.transform_hwp5_to_xhtml),
            if how == 'document':
                return to(t.transform_hwp5_to_single_document),
            return to(t.transform_hwp5_to_content), to(t.transform_hwp5_to_styles)

    def fresh(self, name):
        """a place where there is nothing, or what an earlier conversion left"""
        p = self.ctx.path(name)
        if self.ctx.rng.random() < .5:
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.unlink(p)
        return p

    def whole(self, t, h, f):
        """a directory of web page and style sheet, a package"""
        from hwp5.hwp5html import open_dir
        from hwp5.hwp5odt import open_odtpkg
        p = self.fresh('out.whole.' + f)
        if f == 'html':
            if os.path.isdir(p):
                t.transform_hwp5_to_dir(h, p)
            else:
                with open_dir(p) as d:
                    t.transform_hwp5_to_dir(h, d)
        else:
            with open_odtpkg(p) as pkg:
                t.transform_hwp5_to_package(h, pkg)
        return self.of_whole(p, f)

    def of_whole(self, p, f):
        if f == 'html':
            with open(os.path.join(p, 'index.xhtml'), 'rb') as x:
                return x.read(),
        with zipfile.ZipFile(p) as z:
            return z.read('content.xml'), z.read('styles.xml')

    def command(self, path, f, n):
        """the commands, in the n'th of their ways"""
        def go(*args):
            out = self.fresh('out.cmd.%s.%d' % (f, n % 6))
            status, stdout, stderr, o = cli.run(args[0], list(args[1:]) + ['--output', out, path])
            if o[0] == 'hang' or status not in (0, None):
                raise show.Strange('%s exits with %s: %s' % (args, status, stderr[-200:]))
            return out

        def read(p):
            with open(p, 'rb') as x:
                return x.read()
        ways = [lambda: (read(go('hwp5html', '--html')),), lambda: self.of_whole(go('hwp5html'), f)] if f == 'html' else [
            lambda: (read(go('hwp5odt', '--document')),), lambda: self.of_whole(go('hwp5odt'), f),
            lambda: (read(go('hwp5odt', '--content')), read(go('hwp5odt', '--styles')))]
        return ways[n % len(ways)]()

    def __call__(self, path, f, how, filled=True, n=0):
        """filled: every table has cells; there is no valid OpenDocument text of others"""
        def go():
            data = self.command(path, f, n) if how == 'command' else self.api(path, f, how, filled)
            return show.Page(data[0]) if f == 'html' else show.Odt(*data)
        return guarded(go, 180)


def how_of(n):
    return {3: 'xsltproc', 7: 'command', 13: 'document', 17: 'whole', 27: 'whole'}.get(n % 40) or ('again' if n % 2 else 'new')


def parts(f, got):
    """what came, by section: [(part, tokens)]"""
    if f == 'odt':
        return [('body', got.out)]
    return [('page %d' % k, s) for k, s in enumerate(got.sections)] + [('headers at section %d' % k, s) for k, s in enumerate(got.heads)] + [('footers at section %d' % k, s) for k, s in enumerate(got.feet)]


def due(f, group):
    sp = [dict((k, show.spelled(b['doc'], b[k], k)) for k in ('html', 'odt', 'head', 'foot')) for b in group]
    if f == 'odt':
        return [('body', sum((s['odt'] for s in sp), []))]
    heads, feet = [sum((s[k] for s in sp), []) for k in ('head', 'foot')]
    return [('page %d' % k, s['html']) for k, s in enumerate(sp)] + [('headers at section %d' % k, heads) for k in range(len(sp))] + [('footers at section %d' % k, feet) for k in range(len(sp))]


def compare(ctx, desc, f, how, o, want, b):
    if o[0] != 'ok':
        ctx.violation('raises-' + f, '%s: %s %s: %s' % (desc, f, how, harness.abbrev(o[1:])), b)
        return
    for (name, w), (n2, g) in zip(want, parts(f, o[1])):
        if g != w:
            k = next(k for k in range(max(len(g), len(w)) + 1) if g[k:k + 1] != w[k:k + 1])
            ctx.violation('tokens-' + f, '%s: %s %s: %s: token %d is %s, not %s' % (desc, f, how, name, k, g[k:k + 4], w[k:k + 4]), b)
            return
    if len(want) != len(parts(f, o[1])):
        ctx.violation('parts-' + f, '%s: %s %s: %d parts, not %d' % (desc, f, how, len(parts(f, o[1])), len(want)), b)


def run(ctx):
    ctx.exhaustive = True
    rng = ctx.rng
    shower = Shower(ctx)
    builder = show.Builder(rng)
    inv = ['Same', 'Kept', 'Aside', 'Ordered', 'Celled', 'Show']
    base = dict(Alphabet='{"c"}', MaxText=0, MaxLevel=3, RowVecs='<-NoRows', Cols='{FALSE}', Controls='<-ShowControls', Holders='<-ShowHolders', Tables='<-ShowTables', Drawings='<-ShowDrawings')
    n = 0
    for consts, cap in (
            (dict(Kinds='{"P"}', Alphabet='{"c", "i", "e", "|"}', MaxText=ctx.pick(4, 5), MaxRecs=1, MaxLevel=0), ctx.pick(340, 6000)),
            (dict(Kinds='{"P", "F", "A", "C"}', Texts='<-ShowTexts', MaxRecs=4, MaxLevel=1), ctx.pick(430, 10000)),
            (dict(Kinds='{"P", "F", "T", "TI", "G", "GI", "A"}', Texts='<-FieldShow', MaxRecs=ctx.pick(4, 5), MaxLevel=1), ctx.pick(500, 10000)),
            (dict(Kinds='{"P", "T", "TI", "L", "B"}', Texts='<-ShowTexts', MaxRecs=ctx.pick(5, 6), MaxLevel=4, RowVecs='<-OddRows'), ctx.pick(700, 10000)),
            (dict(Kinds='{"P", "T", "L", "B", "F"}', Texts='<-CellTexts', MaxRecs=ctx.pick(7, 8), MaxLevel=4, RowVecs='<-OneRow'), ctx.pick(500, 10000)),
            (dict(Kinds='{"P", "G", "GI", "SC", "L"}', Texts='<-ShowTexts', MaxRecs=ctx.pick(5, 6), MaxLevel=4), ctx.pick(500, 10000)),
            (dict(Kinds='{"P", "G", "SG", "SC", "L"}', Texts='<-GroupTexts', MaxRecs=ctx.pick(7, 8), MaxLevel=5), ctx.pick(300, 6000)),
            (dict(Kinds='{"P", "N", "HD", "FT", "L"}', Texts='<-ShowTexts', MaxRecs=ctx.pick(5, 6), MaxLevel=4), ctx.pick(700, 10000)),
            (dict(Kinds='{"P", "SD", "CD", "T"}', Texts='<-ShowTexts', MaxRecs=4, MaxLevel=1, Cols='{FALSE, TRUE}'), ctx.pick(300, 6000))):
        r = ctx.tlc('Show', dict(base, **consts), inv, timeout=800)
        bs = [b for b in r.prints if 'html' in b]
        if len(bs) > cap:
            bs = rng.sample(bs, cap)
            ctx.exhaustive = False
        rng.shuffle(bs)
        at = 0
        while at < len(bs) and len(ctx.violations) < 40:
            m = rng.choice([1, 2, 3, 8, 12])
            group, at = bs[at:at + m], at + m
            builder.wide = rng.random() < .5
            o = guarded(lambda: show.write(ctx, builder, [b['doc'] for b in group], 'r.hwp'), 60)
            if o[0] != 'ok':
                raise harness.CheckError('writing: %s' % (o,))
            n += 1
            desc = harness.abbrev('sections %s' % '; '.join(convert.text_of(b['doc']) for b in group))
            for f in ('html', 'odt'):
                how = how_of(n)
                if f == 'html' and how == 'document':
                    how = 'again'
                filled = f == 'html' or all(b['filled'] for b in group)
                if how == 'command' and not filled:
                    how = 'new'
                compare(ctx, desc, f, how, shower(o[1], f, how, filled, n // 40), due(f, group), group)
                ctx.count('%s by %s%s' % (f, how, '' if filled else ', not validated'))
            ctx.replayed += 2 * len(group)
        ctx.log('%d of %d sections replayed (%s)' % (len(bs), len(r.prints), consts['Kinds']))
    if bs:
        ctx.sample(dict(kind='section', behaviour=bs[-1]))
    validate(ctx, shower, builder)


class RandomDoc(convert.RandomDoc):
    """with tables and drawings in the line, numbers, headers and footers, groups; tidy: tables have cells"""
    tidy = True

    def control(self, k, lv, depth):
        r = self.rng
        if k == 'C' and r.random() < .4:
            return self.add('A', lv)
        at = len(self.doc)
        if k == 'T' and self.tidy:
            self.add('T', lv)
            if r.random() < .3:
                self.plist(lv + 1, depth)
            rc = [r.choice([1, 1, 2, 3]) for _ in range(r.choice([1, 2, 3]))]
            self.add('B', lv + 1, rc=rc)
            for _ in range(sum(rc)):
                self.plist(lv + 1, depth)
        elif k == 'G' and r.random() < .3:
            self.add('G', lv)
            self.group(lv + 1, depth)
        elif k == 'N':
            self.add(r.choice(['N', 'N', 'HD', 'FT']), lv)
            self.plist(lv + 1, depth, r.choice([1, 1, 2]))
        else:
            convert.RandomDoc.control(self, k, lv, depth)
        if k in 'TG' and r.random() < .4:
            self.doc[at]['k'] = k + 'I'

    def group(self, lv, depth):
        r = self.rng
        self.add('SG', lv)
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .3 and lv < 9:
                self.group(lv + 1, depth)
            else:
                self.add('SC', lv + 1)
                if r.random() < .7:
                    self.plist(lv + 2, depth)


CTLS = ('C', 'F', 'N', 'T', 'G', 'SD', 'CD', 'TI', 'GI', 'HD', 'FT', 'A')


def as_data(doc, f):
    """a built section for ShowTrace"""
    out = []
    for d in doc:
        shown = dict((j, c) for j, k, c in d.get('shown', ()))
        out.append(dict(
            k=d['k'], lv=d['lv'], ctl=d['k'] in CTLS, text=d['text'], rc=d['rc'],
            chars=[shown.get(j + 1, 0) for j in range(len(d['text']))], shapes=[d['shape'].get(j + 1, 0) for j in range(len(d['text']))] if d['k'] == 'P' else [],
            style=(list(d['style']) + ([d['split'] >> 2 & 1] if f == 'odt' else [])) if d['k'] == 'P' else [], spans=d.get('spans', [0, 0]), num=d['m'] & 0xffff))
    return out


def as_parts(f, o):
    if f == 'odt':
        return [dict(part='body', at=0, out=o.out)]
    return [dict(part=p, at=k + 1, out=x) for p, l in (('page', o.sections), ('HD', o.heads), ('FT', o.feet)) for k, x in enumerate(l)]


def judge(ctx, runs):
    for a in range(0, len(runs), 100):
        t = ctx.tlc('ShowTrace', invariants=['Emit'], data=runs[a:a + 100], timeout=800)
        for p in t.prints:
            ctx.violation('trace-' + p['f'], '%s: %s: %s %d: token %s' % (p['id'], p['f'], p['part'], p['at'], p['bad']), p)
    ctx.validated += len(runs)
    ctx.log('%d pages and texts validated' % len(runs))


def validate(ctx, shower, builder):
    """random documents and the fixtures; the specification judges what is shown"""
    rng = ctx.rng
    runs = []
    for k in range(ctx.pick(60, 600)):
        tidy = RandomDoc.tidy = k % 3 > 0
        ds = [RandomDoc(rng, depth=rng.choice([1, 2, 3])).make() for s in range(rng.choice([1, 1, 2, 3, 5]))]
        if sum(map(len, ds)) > 500:
            ds = [min(ds, key=len)]
        o = guarded(lambda: show.write(ctx, builder, ds, 't.hwp'), 60)
        if o[0] != 'ok':
            raise harness.CheckError('writing: %s' % (o,))
        path = o[1]
        for f in ('html', 'odt'):
            how = ['again', 'new', 'whole', 'again', 'command'][k % 5] if f == 'html' else ['again', 'document', 'whole'][k % 3]
            o = shower(path, f, how, tidy or f == 'html', k)
            if o[0] != 'ok':
                ctx.violation('raises-' + f, 'random %d: %s %s: %s' % (k, f, how, harness.abbrev(o[1:])), ds)
                continue
            if f == 'html' and len(o[1].sections) != len(ds):
                ctx.violation('parts-html', 'random %d: %d sections shown, of %d' % (k, len(o[1].sections), len(ds)), ds)
                continue
            runs.append(dict(id='random %d' % k, f=f, sections=[as_data(d, f) for d in ds], parts=as_parts(f, o[1])))
    judge(ctx, runs)
    judge(ctx, fixtures(ctx, shower))


def fixture_section(models, f, styles):
    """a section of a file as read, for ShowTrace; the shapes only for web pages"""
    from hwp5.binmodel import Text
    doc = convert.stored(models, convert.Sigs())
    kept = [m for m in models if m['type'].__name__ not in convert.GONE]
    shapes = {}
    at = None
    for m in models:
        if m['type'].__name__ == 'Paragraph':
            at = len(shapes)
            last = m
            shapes[id(m)] = [(0, 0)]
        elif m['type'].__name__ == 'ParaCharShape':
            shapes[id(last)] = [tuple(x) for x in m['content']['charshapes']]
    out = []
    for d, m in zip(doc, kept):
        c, name = m['content'], d['name']
        k = d['k']
        x = dict(k=k, lv=d['lv'], ctl=d['ctl'], text=d['text'], rc=d['rc'], chars=d['chars'], shapes=[], style=[], spans=[0, 0], num=0)
        if k == 'P':
            s = styles[c['style_id']]
            first = [n for n, y in enumerate(styles) if y[0] == s[0]][0]
            x['style'] = [first, c['parashape_id']] if f == 'html' else [0, 0, 0]
            pos = 0
            for t, ch in zip(d['text'], d['chars']):
                x['shapes'].append([q for p, q in shapes[id(m)] if p <= pos][-1] if f == 'html' and t != '|' else 0)
                pos += 0 if t == '|' else (2 if ch > 0xffff else 1) if t == 'c' else (1 if ch in convert.ONE else 8) if t == 'i' else 8
        elif k == 'L':
            x['spans'] = [c.get('colspan', 0), c.get('rowspan', 0)]
        elif name in ('TableControl', 'GShapeObjectControl'):
            x['k'] = name[0] + ('I' if c['flags'] & 1 else '')
        elif name in ('FootNote', 'EndNote'):
            x['k'] = 'N'
        elif name in ('Header', 'Footer'):
            x['k'] = 'HD' if name == 'Header' else 'FT'
        elif name == 'AutoNumbering':
            x['k'], x['num'] = 'A', c['number']
        elif name == 'ShapeComponent':
            x['k'] = {'$rec': 'SC', '$con': 'SG'}.get(c['chid'], 'S?')
        out.append(x)
    return out


def fixtures(ctx, shower):
    from hwp5.xmlmodel import Hwp5File
    out = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        path = os.path.join(harness.FIXTURES, name)
        o = guarded(lambda: Hwp5File(path))
        if o[0] != 'ok' or o[1].header.flags.password or o[1].header.flags.distributable:
            continue
        h = o[1]
        styles = [(m['content']['name'], m['content']['local_name'], m['content']['parashape_id'], m['content']['charshape_id']) for m in h.docinfo.models() if m['type'].__name__ == 'Style']
        models = [list(h.text.section(i).models()) for i in h.text.section_indexes()]
        h.close()
        if sum(map(len, models)) > ctx.pick(1500, 12000):
            continue
        for f in ('html', 'odt'):
            secs = [fixture_section(m, f, styles) for m in models]
            o = guarded(lambda: shower.api(path, f, 'again', True), 180)
            if o[0] == 'ok':
                data = o[1]
                o = guarded(lambda: show.Page(data[0], styles) if f == 'html' else show.Odt(data[0], data[1], False))
            if o[0] != 'ok':
                ctx.violation('fixture-' + f, '%s: %s: %s' % (name, f, harness.abbrev(o[1:])))
                continue
            out.append(dict(id=name, f=f, sections=secs, parts=as_parts(f, o[1])))
    return out
