# -*- coding: utf-8 -*-
"""C22: plain text keeps all text in reading order"""
import io
import os

from lib import cli, convert, docs, harness
from lib.harness import guarded
from checks import c16

MARK = {'T': u'\n<\ud45c>\n', 'G': u'\n<\uadf8\ub9bc>\n'}
# characters of every kind: ordinary, blank, meaningful to XML, outside the plane, not allowed in XML
CHARS = ([0x61, 0x7a, 0x41, 0x31, 0x20, 0x20, 0xac00, 0xd7a3, 0x4e00, 0x3042, 0x3000, 0xa0, 0xad, 0x3c, 0x3e, 0x26, 0x22, 0x27, 0x5d, 0x7f, 0x85, 0x9f, 0x200b, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xe000, 0xf8ff]
         + [0x1f600, 0x10000, 0x10ffff, 0x20000] + [0xfffe, 0xffff])


class Builder(convert.Builder):
    """texts of all kinds of characters"""
    wide = True

    def text(self, text, m):
        if not self.wide:
            return convert.Builder.text(self, text, m)
        r, units, lines, shown = self.rng, [], [0], []
        for j, t in enumerate(text):
            if t == 'c':
                c = r.choice(CHARS) if r.random() < .7 else r.choice([r.randrange(0x20, 0xd800), r.randrange(0xe000, 0x110000)])
                d = chr(c).encode('utf-16le')
                units += [d[k] | d[k + 1] << 8 for k in range(0, len(d), 2)]
                shown.append((j + 1, 'c', c))
            elif t == '|':
                lines.append(len(units))
            else:
                u, _, s = convert.Builder.text(self, [t], m)
                units += u
                shown += [(j + 1, k, c) for _, k, c in s]
        return units, lines, shown


def legal(c):
    return c >= 0x20 and c not in (0xfffe, 0xffff)


def spelled(doc, tokens):
    out = []
    for t in tokens:
        if t[0] == 'c':
            c = [c for j, k, c in doc[t[1] - 1]['shown'] if j == t[2]][0]
            out.append(chr(c) if legal(c) else '')
        else:
            out.append('\n' if t[0] == 'n' else MARK[t[0]])
    return ''.join(out)


class Text(object):
    """plain text of files, by one transformation that is used again and by ones of their own"""

    def __init__(self, ctx):
        from hwp5.hwp5txt import TextTransform
        self.ctx = ctx
        self.make = TextTransform
        self.one = TextTransform()

    def __call__(self, path, how):
        from contextlib import closing
        from hwp5.xmlmodel import Hwp5File
        if how == 'command':
            out = self.ctx.path('out.txt')
            with open(out, 'w') as f:
                f.write('what was there before')
            status, stdout, stderr, o = cli.run('hwp5txt', ['--output', out, path])
            if o[0] == 'hang' or status not in (0, None):
                return 'raise', 'status', '%s %s' % (status, stderr[-200:])
            return 'ok', open(out, 'rb').read()
        if how == 'standard output':
            status, stdout, stderr, o = cli.run('hwp5txt', [path])
            if o[0] == 'hang' or status not in (0, None):
                return 'raise', 'status', '%s %s' % (status, stderr[-200:])
            return 'ok', stdout

        def go():
            f = io.BytesIO() if how != 'xsltproc' else open(self.ctx.path('out.txt'), 'wb+')
            if how == 'xsltproc':
                from hwp5.plat.xsltproc import xslt_compile
                t = self.make(xslt_compile=xslt_compile)
            else:
                t = self.one if how == 'again' else self.make()
            with closing(Hwp5File(path)) as h:
                t.transform_hwp5_to_text(h, f)
            with f:
                f.seek(0)
                return f.read()
        return guarded(go, 120)


def compare(ctx, got, want, desc, what, b=None):
    if got[0] != 'ok':
        ctx.violation('raises', '%s: %s: converting gives %s' % (desc, what, harness.abbrev(got[1:])), b)
        return
    o = guarded(lambda: got[1].decode('utf-8'))
    if o[0] != 'ok':
        ctx.violation('encoding', '%s: %s: the text is not UTF-8: %s' % (desc, what, o[1:]), b)
        return
    if o[1] != want:
        k = next(k for k in range(max(len(o[1]), len(want)) + 1) if o[1][k:k + 1] != want[k:k + 1])
        ctx.violation('text', '%s: %s: character %d is %s, not %s (text %s)' % (desc, what, k, ascii(o[1][k:k + 5]), ascii(want[k:k + 5]), harness.abbrev(ascii(o[1]))), b)


def run(ctx):
    ctx.exhaustive = True
    rng = ctx.rng
    text = Text(ctx)
    builder = Builder(rng)
    inv = ['Same', 'Kept', 'Ordered', 'Show']
    base = dict(Alphabet='{"c"}', MaxText=0, MaxLevel=3, RowVecs='<-NoRows', Cols='{FALSE}')
    n = 0
    for consts, cap in (
            (dict(Kinds='{"P"}', Alphabet='{"c", "i", "e", "|"}', MaxText=ctx.pick(3, 5), MaxRecs=2, MaxLevel=0), ctx.pick(600, 6000)),
            (dict(Kinds='{"P", "C", "F"}', Texts='<-PlainTexts', MaxRecs=ctx.pick(4, 5), MaxLevel=1), ctx.pick(800, 10000)),
            (dict(Kinds='{"P", "N", "L"}', Texts='<-PlainTexts', MaxRecs=ctx.pick(6, 7)), ctx.pick(1500, 20000)),
            (dict(Kinds='{"P", "T", "L", "B", "N"}', Texts='<-PlainTexts', MaxRecs=ctx.pick(6, 7), MaxLevel=4, RowVecs='<-OneRow'), ctx.pick(1500, 20000)),
            (dict(Kinds='{"P", "G", "SC", "L", "T"}', Texts='<-PlainTexts', MaxRecs=6, MaxLevel=4), ctx.pick(800, 10000)),
            (dict(Kinds='{"P", "F", "C", "T"}', Texts='<-Lines', MaxRecs=ctx.pick(4, 5), MaxLevel=1, Cols='{FALSE, TRUE}'), ctx.pick(800, 10000)),
            (dict(Kinds='{"P", "SD", "CD", "T"}', Texts='<-PlainTexts', MaxRecs=4, MaxLevel=1), ctx.pick(400, 10000))):
        r = ctx.tlc('PlainText', dict(base, **consts), inv, timeout=600)
        bs = [b for b in r.prints if 'text' in b]
        if len(bs) > cap:
            bs = rng.sample(bs, cap)
            ctx.exhaustive = False
        rng.shuffle(bs)
        at = 0
        while at < len(bs) and len(ctx.violations) < 40:
            m = rng.choice([1, 2, 3, 8, 12])
            group, at = bs[at:at + m], at + m
            builder.wide = rng.random() < .7
            o = guarded(lambda: c16.write(ctx, builder, [b['doc'] for b in group], 'r.hwp'), 60)
            if o[0] != 'ok':
                raise harness.CheckError('writing: %s' % (o,))
            want = ''.join(spelled(b['doc'], b['text']) for b in group)
            n += 1
            how = 'xsltproc' if n % 40 == 3 else 'command' if n % 40 == 7 else 'standard output' if n % 40 == 11 else 'again' if n % 2 else 'new'
            desc = 'sections %s' % '; '.join(convert.text_of(b['doc']) for b in group)
            compare(ctx, text(o[1], how), want, harness.abbrev(desc), how, group)
            ctx.replayed += len(group)
            ctx.count('texts by %s' % how)
        ctx.log('%d of %d sections replayed (%s)' % (len(bs), len(r.prints), consts['Kinds']))
    if bs:
        ctx.sample(dict(kind='section', behaviour=bs[-1]))
    validate(ctx, text)


def as_data(doc):
    """a built section for PlainTextTrace"""
    out = []
    for d in doc:
        shown = dict((j, c) for j, k, c in d.get('shown', ()) if k == 'c')
        out.append(dict(k=d['k'], lv=d['lv'], ctl=d['k'] in ('C', 'F', 'N', 'T', 'G', 'SD', 'CD'), text=d['text'], chars=[shown.get(j + 1, 0) for j in range(len(d['text']))]))
    return out


def validate(ctx, text):
    """random documents and the fixtures; the specification judges the texts"""
    rng = ctx.rng
    runs = []
    builder = Builder(rng)

    def add(id, sections, path, how):
        o = text(path, how)
        if o[0] == 'ok':
            o = guarded(lambda: [ord(c) for c in o[1].decode('utf-8')])
        if o[0] != 'ok':
            ctx.violation('raises', '%s: %s: converting gives %s' % (id, how, harness.abbrev(o[1:])))
            return
        runs.append(dict(id=id, sections=sections, out=o[1]))
    for k in range(ctx.pick(120, 1200)):
        ds = []
        for s in range(rng.choice([1, 1, 2, 3, 11])):
            ds.append(convert.big(rng, convert.BIG[k]) if k < len(convert.BIG) and s == 0 else convert.RandomDoc(rng, depth=rng.choice([1, 2, 3])).make())
        if k == 20:
            # many long paragraphs
            x = convert.RandomDoc(rng)
            for _ in range(30):
                x.add('P', 0, [rng.choice('cccccccci|') for _ in range(500)])
            for d in x.doc:
                d['text'] = [t for j, t in enumerate(d['text']) if t != '|' or (0 < j < 499 and d['text'][j - 1] != '|')]
            ds = [x.doc]
        o = guarded(lambda: c16.write(ctx, builder, ds, 't.hwp'), 60)
        if o[0] != 'ok':
            raise harness.CheckError('writing: %s' % (o,))
        add('random %d' % k, [as_data(d) for d in ds], o[1], ['again', 'new', 'again', 'xsltproc', 'command'][k % 5])
    runs += fixtures(ctx, text)
    byid = dict((r['id'], r) for r in runs)
    for a in range(0, len(runs), 200):
        t = ctx.tlc('PlainTextTrace', invariants=['Emit'], data=runs[a:a + 200], timeout=800)
        for p in t.prints:
            r = byid[p['id']]
            got = ''.join(map(chr, r['out']))
            ctx.violation('trace', '%s: section %d, character %d of the text: %s due, %s' % (p['id'], p['sec'] - 1, p['at'], p['bad'], ascii(got[max(0, p['at'] - 10):p['at'] + 10])), dict(id=r['id'], at=p['at'], bad=p['bad']))
    ctx.validated += len(runs)
    ctx.log('%d texts validated' % len(runs))


def fixtures(ctx, text):
    from hwp5.xmlmodel import Hwp5File
    out = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        path = os.path.join(harness.FIXTURES, name)
        o = guarded(lambda: Hwp5File(path))
        if o[0] != 'ok' or o[1].header.flags.password:
            continue
        h = o[1]
        sections = []
        for i in h.text.section_indexes():
            o = guarded(lambda: convert.stored(list(h.text.section(i).models()), convert.Sigs()), 60)
            if o[0] != 'ok':
                break
            sections.append([dict(k=d['k'] if d['k'] != 'D' else {'TableControl': 'T', 'GShapeObjectControl': 'G'}.get(d['name'], 'D'), lv=d['lv'], ctl=d['ctl'], text=d['text'], chars=d['chars']) for d in o[1]])
        h.close()
        if o[0] != 'ok' or sum(map(len, sections)) > ctx.pick(600, 6000):
            continue
        o = text(path, 'again')
        if o[0] != 'ok':
            ctx.violation('fixture', '%s: converting gives %s' % (name, harness.abbrev(o[1:])))
            continue
        out.append(dict(id=name, sections=sections, out=[ord(c) for c in o[1].decode('utf-8')]))
    return out
