# -*- coding: utf-8 -*-
"""C19: converted packages are complete and consistent"""
import os
import shutil
import zlib

from lib import docs, harness, package
from lib.harness import guarded

MODES = ('odt', 'odt with images', 'html', 'fodt', 'xml', 'fodt referring', 'content', 'content with images', 'xml referring')


def flat(tree, base=''):
    for k, v in tree.items():
        if isinstance(v, dict):
            for x in flat(v, base + k + '/'):
                yield x
        else:
            yield base + k, v


def nested(paths):
    """{path: data} -> tree"""
    t = {}
    for p, data in paths.items():
        segs = p.split('/')
        d = t
        for s in segs[:-1]:
            d = d.setdefault(s, {})
        d[segs[-1]] = data
    return t


class Recorder(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.runs = []

    def record(self, id, doc, modes, convert, loose=False):
        """doc: of the specification, with digests"""
        for n, m in enumerate(modes):
            o = guarded(lambda: convert(m), 120)
            name = '%s, %s%s' % (id, m, ', conversion %d with this converter' % (n + 1) if n else '')
            if o[0] != 'ok':
                self.ctx.violation('raises-' + m, '%s: %s' % (name, harness.abbrev(o[1:])), doc)
                continue
            if o[1].problem:
                self.ctx.violation('markup-' + m, '%s: %s' % (name, o[1].problem), doc)
                continue
            self.runs.append(dict(id=name, doc=doc, mode=m, out=o[1].json(), loose=loose))

    def judge(self):
        byid = dict((r['id'], r) for r in self.runs)
        for a in range(0, len(self.runs), 1000):
            t = self.ctx.tlc('PackageTrace', invariants=['Emit'], data=self.runs[a:a + 1000])
            for p in t.prints:
                r = byid[p['id']]
                what = {'references': (r['out']['refs'], p['refs']), 'fillings': (r['out']['fillrefs'], p['fillrefs']), 'dangling reference': (r['out']['refs'], r['out']['fillrefs'])}.get(p['bad'], '')
                self.ctx.violation('trace-%s-%s' % (p['bad'], r['mode']), '%s: %s: %s' % (p['id'], p['bad'], harness.abbrev(what)), r)


def text(doc):
    return 'declares %s, has %s, pictures %s, fillings %s' % (' '.join('%s:%s' % tuple(d) for d in doc['decls']), ' '.join(s[0] for s in doc['streams']), doc['pics'], doc['fills'])


def build(ctx, name, decls, paths, pics, places, fills, compressed):
    items = []
    for kind, n in decls:
        items.append((kind, int(n[3:7], 16) if kind != 'link' else 0, n[8:] if kind != 'link' else n))
    return package.write(ctx.path(name), items, nested(paths), list(zip(pics, places)), [(f,) for f in fills], compressed)


def digested(decls, paths, pics, fills):
    return dict(decls=[list(d) for d in decls], streams=[[p, package.digest(v)] for p, v in paths.items()], pics=list(pics), fills=list(fills))


def random_document(ctx, name):
    r = ctx.rng
    ids = r.sample(range(1, 0xffff), 20)
    decls, paths = [], {}
    def data():
        return r.randbytes(r.choice([0, 1, 2, 47, 48, 49, 96, 1000, 4095, 4096, 4097, 70000]))
    for i in range(r.choice([0, 1, 2, 5, 15])):
        kind = r.choice(['embedding'] * 4 + ['link', 'storage'])
        n = 'BIN%04X.%s' % (ids[i], r.choice(['png', 'jpg', 'bmp', 'x', 'JPEG', 'ole']) if kind != 'storage' else 'OLE')
        if kind == 'link':
            n = 'a picture.png'
        else:
            paths[n] = data()
        decls.append((kind, n))
        if kind == 'embedding' and r.random() < .15:
            decls.append((kind, n))
    for n in r.sample(['BINFFFF.png', 'a b.png', '가나다.bin', 'a&b.txt', "it's.x", 'noext', 'a"b', '%41.png', '#1.png', '..x', 'a;b.gif', 'x' * 31], r.choice([0, 0, 1, 3])):
        paths[n] = data()
    compressed = r.random() < .5
    if not compressed and r.random() < .3:
        for n in ('inner/one.x', 'inner/two/three'):
            paths[n] = data()
    order = list(paths)
    r.shuffle(order)
    paths = dict((k, paths[k]) for k in order)
    n = len(decls)
    pics = [r.choice([0, n + 1, 65535] + list(range(1, n + 1)) * 2) for _ in range(r.choice([0, 1, 3, 10]))]
    fills = [r.choice([0, n + 1] + list(range(1, n + 1)) * 2) for _ in range(r.choice([0, 0, 1, 3]))]
    path = build(ctx, name, decls, paths, pics, [r.choice(['text', 'cell', 'group']) for _ in pics], fills, compressed)
    return path, digested(decls, paths, pics, fills)


def fixture(path):
    """-> document, or None if there is nothing to look at"""
    from hwp5.xmlmodel import Hwp5File
    with open(path, 'rb') as f:
        tree = docs.read_tree(f.read())
    flags = tree['FileHeader'][36]
    if flags & 2:
        return None
    streams = [[p, package.digest(zlib.decompress(v, -15) if flags & 1 else v)] for p, v in flat(tree.get('BinData', {}))]
    h = Hwp5File(path)
    try:
        decls = []
        for m in h.docinfo.models():
            if m['type'].__name__ == 'BinData':
                c = m['content']
                k = {0: 'link', 1: 'embedding', 2: 'storage'}[int(c['flags'].storage)]
                decls.append([k, 'BIN%04X.%s' % (c['bindata']['storage_id'], c['bindata'].get('ext', 'OLE')) if k != 'link' else 'link'])
    finally:
        h.close()
    return dict(decls=decls, streams=streams, pics=[], fills=[])


def run(ctx):
    from hwp5.plat import xsltproc
    kinds = '{"embedding", "link", "storage"}'
    modes = '{%s}' % ', '.join('"%s"' % m for m in MODES)
    inv = ['Good', 'Growing', 'Same', 'Twice', 'Emit']
    one = ctx.tlc('Package', dict(Kinds=kinds, MaxDecls=2, MaxPics=ctx.pick(1, 2), MaxFills=1, Extras='{"extra.x", "in/side"}', Modes=modes, MaxRuns=1), inv, view='View').prints
    two = ctx.tlc('Package', dict(Kinds=kinds, MaxDecls=ctx.pick(1, 2), MaxPics=1, MaxFills=0, Extras='{"extra.x"}', Modes=modes, MaxRuns=ctx.pick(2, 3)), inv, view='View').prints
    ctx.log('%d documents, %d histories' % (len(one), len(two)))
    rec = Recorder(ctx)
    converter = package.Converter(ctx.scratch)
    # documents: those of the same kind of document in one file, all its modes; histories: the modes in this order
    made = {}
    for b in one:
        made.setdefault(repr(b['doc']), (b['doc'], []))[1].append(b['modes'][0])
    firsts = [(d, m) for d, m in made.values()]
    cap = ctx.pick(70, 2500)
    todo = ctx.rng.sample(firsts, min(cap, len(firsts)))
    ctx.exhaustive = len(todo) == len(firsts)
    hist = [(b['doc'], b['modes']) for b in two]
    todo += ctx.rng.sample(hist, min(ctx.pick(40, 1500), len(hist)))
    for n, (d, ms) in enumerate(todo):
        places = [ctx.rng.choice(['text', 'cell', 'group']) for _ in d['pics']]
        # streams are what the specification says they contain
        paths = dict((p, data.encode('ascii')) for p, data in d['streams'])
        compressed = not any('/' in p for p in paths) and ctx.rng.random() < .5
        path = build(ctx, 'd.hwp', [tuple(x) for x in d['decls']], paths, d['pics'], places, d['fills'], compressed)
        rec.record('document %d (%s)' % (n, text(d)), digested(d['decls'], paths, d['pics'], d['fills']), ms, lambda m: converter.convert(path, m))
        ctx.replayed += 1
        if len(ctx.violations) > 60:
            break
    ctx.sample(dict(kind='document', behaviour=todo[-1]))
    ctx.log('replayed')
    for n in range(ctx.pick(25, 400)):
        path, d = random_document(ctx, 'r.hwp')
        ms = ctx.rng.sample(MODES, ctx.pick(4, 7))
        rec.record('random document %d (%s)' % (n, text(d)), d, ms, lambda m: converter.convert(path, m))
        if n % 6 == 0:
            rec.record('random document %d by command (%s)' % (n, text(d)), d, MODES, lambda m: package.by_command(ctx.scratch, path, m))
            rec.record('random document %d by command, to the place it chooses (%s)' % (n, text(d)), d, [m for m in MODES if m.startswith('odt') or m == 'html'], lambda m: package.by_command(ctx.scratch, path, m, False))
        if n % 12 == 1 and xsltproc.is_enabled():
            with_program = package.Converter(ctx.scratch, xsltproc.xslt_compile)
            rec.record('random document %d by xsltproc (%s)' % (n, text(d)), d, [m for m in MODES if not m.startswith('xml')], lambda m: with_program.convert(path, m))
        ctx.validated += 1
        if len(ctx.violations) > 60:
            break
    # a large image
    big = b'0123456789abcdef' * (ctx.pick(8, 40) << 16) + b'the end'
    paths = {'BIN0001.png': big, 'BIN0002.png': b'small'}
    decls = [('embedding', 'BIN0002.png'), ('embedding', 'BIN0001.png')]
    path = build(ctx, 'big.hwp', decls, paths, [2, 1], ['text', 'text'], [], True)
    rec.record('document with an item of %d bytes' % len(big), digested(decls, paths, [2, 1], []), MODES, lambda m: converter.convert(path, m))
    for n in sorted(os.listdir(harness.FIXTURES)):
        if n.endswith('.hwp') and (ctx.thorough or os.path.getsize(os.path.join(harness.FIXTURES, n)) < 200000):
            path = os.path.join(harness.FIXTURES, n)
            o = guarded(lambda: fixture(path))
            if o[0] != 'ok':
                ctx.violation('fixture', '%s: %s' % (n, harness.abbrev(o[1:])))
            elif o[1] and (ctx.thorough or o[1]['streams']):
                rec.record(n, o[1], MODES, lambda m: converter.convert(path, m), loose=True)
                ctx.validated += 1
    ctx.log('recorded')
    rec.judge()
    ctx.count('conversions', len(rec.runs))
