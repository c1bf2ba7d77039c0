# -*- coding: utf-8 -*-
"""C16: ids of elements are unique, consecutive and in document order"""
import os

from lib import convert, docs, harness
from lib.harness import guarded
from checks import c05

IDS = {'Paragraph': ('P', 'paragraph-id'), 'TableControl': ('T', 'table-id'), 'GShapeObjectControl': ('G', 'gshape-id'), 'ShapeComponent': ('S', 'shape-id')}
KINDS = {'P': 'P', 'T': 'T', 'G': 'G', 'SC': 'S'}


def part(x, name):
    P = lambda lv, t: x.add('P', lv, t)
    table = lambda lv: (x.add('T', lv), x.add('B', lv + 1, rc=[1]), x.add('L', lv + 1))
    if name == 'paragraph':
        P(0, x.rng.choice(['', 'c', 'cic', 'c|c']))
    elif name == 'table':
        P(0, 'cx')
        table(1)
        P(2, 'c')
    elif name == 'drawing':
        P(0, 'x')
        x.add('G', 1), x.add('SC', 2), x.add('L', 3)
        P(3, 'c')
    elif name == 'two shapes':
        P(0, 'xc')
        x.add('G', 1), x.add('SC', 2), x.add('SC', 2)
    elif name == 'inner table':
        P(0, 'x')
        table(1)
        P(2, 'xc')
        table(3)
        P(4, 'c')
    else:
        P(0, 'x')
        x.add('N', 1), x.add('L', 2)
        P(2, 'x')
        table(3)
        P(4, 'c')


def write(ctx, builder, sections, name):
    """sections: documents of convert -> path"""
    docinfo = docs.recs([(16, 0, b'\1\0' * 7 + b'\0' * 12), (17, 0, b'\0' * 64)])
    bodies = [docs.recs(builder.build(d)) for d in sections]
    path = ctx.path(name)
    with open(path, 'wb') as f:
        f.write(docs.write_ole(docs.doc_tree(docinfo=docinfo, sections=bodies, version=convert.VERSION, extra={u'\x05HwpSummaryInformation': c05.summary_info()})))
    return path


def ids(events):
    """XML events -> kinds and ids as they come; an element without one is reported as -1"""
    from hwp5.treeop import STARTEVENT
    for e, x in events:
        if e is STARTEVENT and x[0] in IDS:
            k, a = IDS[x[0]]
            try:
                yield [k, int(x[1].get(a, -1))]
            except (TypeError, ValueError):
                yield [k, -2]


def replay(ctx, path, b, what):
    from hwp5.xmlmodel import Hwp5File
    handles = [Hwp5File(path), Hwp5File(path)]
    its, logs = {}, {}

    def start(c):
        its[c] = ids(handles[ctx.rng.randrange(2)].xmlevents())
        logs[c] = []
    try:
        for c in (1, 2):
            start(c)
        for act, c in b['schedule']:
            if act == 'next':
                logs[c].append(next(its[c], None))
                n = len(logs[c])
                if logs[c] != b['ids'][:n]:
                    return 'element %d has the id %s, not %s' % (n, logs[c][-1], b['ids'][n - 1])
            elif act == 'finish':
                rest = list(its[c])
                if rest:
                    return 'has %s after the last element' % rest
                start(c)
            else:
                its[c].close()
                start(c)
    finally:
        for h in handles:
            h.close()
    return None


def run(ctx):
    from hwp5.xmlmodel import Hwp5File
    parts = lambda *xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    inv = ['Numbered', 'Repeatable', 'Covered', 'Emit']
    every = ('paragraph', 'table', 'drawing', 'two shapes', 'inner table', 'table in footnote')
    ps = []
    # all interleavings of two conversions; then documents of more parts, one schedule of each end state
    ps += ctx.tlc('Ids', dict(Parts=parts('paragraph', 'table'), MaxParts=2, MaxSections=2, MaxEvents=ctx.pick(2, 3), Conversions={1, 2}), inv).prints
    more = ctx.tlc('Ids', dict(Parts=parts(*every), MaxParts=2, MaxSections=ctx.pick(2, 3), MaxEvents=ctx.pick(8, 10), Conversions={1, 2}), inv, view='View').prints
    cap = ctx.pick(500, 8000)
    for k, xs in enumerate((ps, more)):
        if len(xs) > cap:
            xs = ctx.rng.sample(xs, cap)
        elif k == 0:
            ctx.exhaustive = True
        builder = convert.Builder(ctx.rng)
        made = {}
        for b in xs:
            key = repr(b['doc'])
            if key not in made:
                sections = []
                for s in b['doc']:
                    x = convert.RandomDoc(ctx.rng)
                    for p in s:
                        part(x, p)
                    sections.append(x.doc)
                made[key] = write(ctx, builder, sections, 'd%d.hwp' % (len(made) % 50)) if len(made) < 50 else None
                if made[key] is None:
                    for p in [v for v in made.values() if v]:
                        os.remove(p)
                    made.clear()
                    made[key] = write(ctx, builder, sections, 'd0.hwp')
            what = 'document %s, schedule %s' % (b['doc'], ' '.join('%s%d' % (a[0], c) for a, c in b['schedule']))
            o = guarded(lambda: replay(ctx, made[key], b, what))
            if o[0] != 'ok':
                ctx.violation('raises', '%s: %s' % (what, o[1:]), b)
            elif o[1]:
                ctx.violation('differs', '%s: %s' % (what, o[1]), b)
            ctx.replayed += 1
            if len(ctx.violations) > 50:
                return
    ctx.sample(dict(kind='conversions', behaviour=b))
    ctx.log('replayed')
    runs = []
    builder = convert.Builder(ctx.rng)
    for i in range(ctx.pick(60, 800)):
        sections = [convert.RandomDoc(ctx.rng).make() for _ in range(ctx.rng.choice([1, 2, 3, 12]))]
        path = write(ctx, builder, sections, 'r.hwp')
        els = [KINDS[d['k']] for s in sections for d in s if d['k'] in KINDS]
        recorded(ctx, runs, 'random document %d of %d sections' % (i, len(sections)), path, els, ctx.rng.random() < .3)
    for n in sorted(os.listdir(harness.FIXTURES)):
        if n.endswith('.hwp'):
            path = os.path.join(harness.FIXTURES, n)

            def kinds():
                h = Hwp5File(path)
                try:
                    return [IDS[m['type'].__name__][0] for i in h.text.section_indexes() for m in h.text.section(i).models() if m['type'].__name__ in IDS]
                finally:
                    h.close()
            o = guarded(kinds, 60)
            if o[0] == 'ok' and len(o[1]) < ctx.pick(3000, 100000):
                recorded(ctx, runs, n, path, o[1], False)
    t = ctx.tlc('IdsTrace', invariants=['Emit'], data=runs)
    byid = dict((r['id'], r) for r in runs)
    for p in t.prints:
        r = byid[p['id']]
        ctx.violation('trace-%s' % p['bad'], '%s: %s: at element %d: %s' % (p['id'], p['bad'], p['at'], r['ids'][max(0, p['at'] - 3):p['at'] + 1]), p)
    ctx.validated += len(runs)


def recorded(ctx, runs, id, path, els, again):
    from hwp5.xmlmodel import Hwp5File
    h = Hwp5File(path)
    try:
        o = guarded(lambda: list(ids(h.xmlevents())), 60)
        if o[0] != 'ok':
            return ctx.violation('conversion', '%s: %s' % (id, o[1:]), id)
        runs.append(dict(id=id, els=els, ids=o[1]))
        if again:
            x = iter(h.xmlevents(embedbin=ctx.rng.random() < .5))
            for _ in range(ctx.rng.randrange(200)):
                next(x, None)
            o = guarded(lambda: list(ids(h.xmlevents())), 60)
            runs.append(dict(id=id + ', again', els=els, ids=o[1] if o[0] == 'ok' else []))
    finally:
        h.close()
