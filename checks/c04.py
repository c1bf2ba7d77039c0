# -*- coding: utf-8 -*-
"""C04: stored streams are shown exactly as the header flags prescribe"""
import os
import zlib

from lib import docs, harness
from lib.harness import guarded

INV = 'PasswordIsRaw OthersAreRaw NoFlagsIsRaw ProducerConsumer Independent'.split()
REAL = {'SummaryInformation': '\x05HwpSummaryInformation'}
SEED = 0x2468ace1


def plain(n, salt):
    """opaque content that is neither a deflate stream nor a distribution stream"""
    b = bytes((i * 37 + (i >> 7) * 11 + salt * 101) & 0xff for i in range(n))
    if n:
        b = b'\xff' + b[1:]
    return b


def term(t, x, indist=False):
    """concrete bytes of a symbolic content"""
    if t == 'x':
        return x
    if t == 'deflate(x)':
        d = docs.deflate(x)
        if indist:
            d += b'\0' * (-len(d) % 16)
        return d
    if t == 'dist(x)':
        return docs.dist_encode(x, SEED)
    if t == 'dist(deflate(x))':
        return docs.dist_encode(docs.deflate(x), SEED)
    raise ValueError(t)


def flagword(bits, extra=0):
    c, p, d = bits
    return c | p << 1 | d << 2 | extra


def build(entries, bits, extra, ver):
    """[(storage, stream, bytes)] -> memory document"""
    tree = {}
    for stg, name, data in entries:
        name = REAL.get(name, name)
        if stg:
            tree.setdefault(stg, {})[name] = data
        else:
            tree[name] = data
    tree['FileHeader'] = docs.fileheader(flagword(bits, extra), ver)
    return tree


def classes():
    import hwp5.filestructure
    import hwp5.recordstream
    import hwp5.binmodel
    import hwp5.xmlmodel
    return [m.Hwp5File for m in (hwp5.filestructure, hwp5.recordstream, hwp5.binmodel, hwp5.xmlmodel)]


def item(h, stg, name):
    name = REAL.get(name, name)
    return h[stg][name] if stg else h[name]


def slurp(it):
    f = it.open()
    try:
        return f.read()
    finally:
        if hasattr(f, 'close'):
            f.close()


def replay_views(ctx, b, cls, size, extra, how):
    bits = b['flags']
    x = {}
    entries = []
    for i, (stg, name, st, view, dec) in enumerate(b['views']):
        x[stg, name] = plain(size, i)
        entries.append((stg, name, term(st, x[stg, name])))
    tree = build(entries, bits, extra, (5, 0, 3, 4))
    if how == 'ole':
        path = ctx.path('v.hwp')
        with open(path, 'wb') as f:
            f.write(docs.write_ole(tree))
        h = cls(path)
    else:
        h = cls(docs.MemStorage(tree))
    where = '%s (%s), flags compressed=%d password=%d distributable=%d other=%#x' % (
        cls.__module__, how, bits[0], bits[1], bits[2], extra)
    for stg, name, st, view, dec in b['views']:
        key = '%s/%s' % (stg, name)
        if name == 'FileHeader':
            want = tree['FileHeader']
        elif view == 'error':
            want = None
        else:
            want = term(view, x[stg, name], indist=st.startswith('dist') and dec != st)
        for again in range(2):
            o = guarded(lambda: slurp(item(h, stg, name)))
            if want is None:
                good = o[0] == 'raise'
            else:
                good = o == ('ok', want)
            if not good:
                ctx.violation('view-%s-%s-%s' % (stg or name, st, ''.join(map(str, bits))),
                              '%s: %s stored as %s reads as %s; the specification requires %s (%s)'
                              % (where, key, st, harness.abbrev(o[1:]), view, harness.abbrev(want)),
                              dict(flags=bits, entry=key, stored=st, opening=again))
    # the document's text
    t = b['text']
    w = dict(((s, n), (st, v, d)) for s, n, st, v, d in b['views'])
    st, v, d = w[t, 'Section0']
    want = None if v == 'error' else term(v, x[t, 'Section0'], indist=st.startswith('dist') and d != st)
    o = guarded(lambda: slurp(h.text['Section0']))
    if (want is None and o[0] != 'raise') or (want is not None and o != ('ok', want)):
        ctx.violation('text-' + ''.join(map(str, bits)), '%s: the text is %s; the specification takes it from %s'
                      % (where, harness.abbrev(o[1:]), t), dict(flags=bits))
    # accessors
    for acc, (s, n) in (('docinfo', ('', 'DocInfo')), ('preview_text', ('', 'PrvText'))):
        st, v, d = w[s, n]
        o = guarded(lambda: slurp(getattr(h, acc)))
        if o != ('ok', term(v, x[s, n], indist=st.startswith('dist') and d != st)):
            ctx.violation('accessor-' + acc, '%s: %s gives %s, not %s' % (where, acc, harness.abbrev(o[1:]), v), dict(flags=bits))
    o = guarded(lambda: (h.header.flags.compressed, h.header.flags.password, h.header.flags.distributable))
    if o != ('ok', tuple(bits)):
        ctx.violation('flags', '%s: flags are shown as %s' % (where, o), dict(flags=bits))
    if how != 'ole':
        # nothing stored was changed, nothing hidden or added
        o = guarded(lambda: (sorted(h), dict((s, sorted(h[s])) for s in tree if isinstance(tree[s], dict))))
        want = (sorted(tree), dict((s, sorted(tree[s])) for s in tree if isinstance(tree[s], dict)))
        if o != ('ok', want):
            ctx.violation('names', '%s: names %s, stored %s' % (where, o[1:], want), dict(flags=bits))
    else:
        h.close()
    ctx.replayed += 1


UNIT = 1760


def replay_log(ctx, b, cls, how, shared):
    bits = b['flags']
    x = dict(((s, n), plain(3 * UNIT, i)) for i, (s, n, st) in enumerate(b['stored']))
    tree = build([(s, n, term(st, x[s, n])) for s, n, st in b['stored']], bits, 0, (5, 0, 3, 4))
    if how == 'ole':
        path = ctx.path('l.hwp')
        with open(path, 'wb') as f:
            f.write(docs.write_ole(tree))
        h = cls(path)
    else:
        h = cls(docs.MemStorage(tree))
    items = {}
    handles = {}
    for k, ev in enumerate(b['log']):
        e = tuple(ev['e'])
        c = x[e]   # every view in these histories is the plain content

        def go():
            if ev['op'] == 'open':
                # one item object for all openings, or a fresh lookup each time
                it = items[e] if shared and e in items else item(h, *e)
                items[e] = it
                handles[ev['h']] = it.open()
                return None
            f = handles[ev['h']]
            return f.read(ev['n'] * UNIT) if ev['n'] else f.read()
        o = guarded(go)
        want = None if ev['op'] == 'open' else c[ev['from'] * UNIT:ev['to'] * UNIT]
        if o != ('ok', want):
            ctx.violation('history-' + ev['op'], 'flags %s, history %s, step %d: got %s, the specification requires '
                          'units %d..%d of %s' % (bits, [(i['op'], i['e'][0], i['h'], i['n']) for i in b['log']],
                                                 k + 1, harness.abbrev(o[1:]), ev['from'], ev['to'], e),
                          dict(behaviour=b, step=k))
            break
    if how == 'ole':
        h.close()
    ctx.replayed += 1


def fixtures(ctx, runs):
    import hwp5.filestructure as F
    names = [n for n in sorted(os.listdir(harness.FIXTURES)) if n.endswith('.hwp')]
    for name in names:
        path = os.path.join(harness.FIXTURES, name)
        try:
            tree = docs.read_tree(path)
            fl = tree['FileHeader'][36]
        except Exception:
            continue
        o = guarded(lambda: F.Hwp5File(path))
        if o[0] != 'ok':
            continue
        h = o[1]
        todo = [('', n, d) for n, d in tree.items() if isinstance(d, bytes)]
        todo += [(s, n, d) for s, v in tree.items() if isinstance(v, dict)
                 for n, d in v.items() if isinstance(d, bytes)]
        for s, n, data in todo:
            def inflate(z):
                try:
                    return zlib.decompress(z, -15)
                except zlib.error:
                    return None

            def decrypt(z):
                t, rest = docs.parse_recs(z[:260])
                if not t or t[0][2] != 28 or t[0][4] != 256:
                    return None
                head = z[4:260]
                seed = int.from_bytes(head[:4], 'little')
                clear = bytes(a ^ b for a, b in zip(head, docs.dist_pads(seed)))
                key = clear[4 + seed % 16:][:16]
                return docs.aes_ecb(key, z[260:len(z) - (len(z) - 260) % 16], False)
            dec = decrypt(data)
            cand = {'stored': data}
            if dec is not None:
                st = 'distdeflate' if inflate(dec) is not None else 'dist'
                cand['decrypted'] = dec
                cand['decrypted+inflated'] = inflate(dec)
            else:
                st = 'deflate' if inflate(data) is not None else 'x'
                cand['inflated'] = inflate(data)
            o = guarded(lambda: slurp(h[s][n] if s else h[n]))
            got = [k for k, v in cand.items() if o == ('ok', v)] + (['error'] if o[0] == 'raise' else [])
            runs.append(dict(id='%s:%s/%s' % (name, s, n), c=fl & 1, p=fl >> 1 & 1, d=fl >> 2 & 1,
                             storage=s, stream='SummaryInformation' if n.startswith('\x05') else n,
                             stored=st, got=got))
        h.close()


def run(ctx):
    r = ctx.tlc('Layers', dict(Flags='<-AllFlags', Entries='<-AllEntries', Kinds='<-AllKinds', Units=3,
                               MaxOps=0, Sizes='{0}'), INV + ['EmitViews'], init='ViewInit', next='NoNext')
    sizes = ctx.pick([32, 8000], [0, 16, 32, 4096, 8000, 70000])
    n = 0
    for b in r.prints:
        for cls in classes():
            for size in sizes:
                if size == 0 and any('dist' in v[2] for v in b['views']):
                    continue
                extra = 0 if n % 3 else ctx.rng.randrange(1 << 29) << 3
                replay_views(ctx, b, cls, size, extra, 'ole' if n % 4 == 3 else 'memory')
                n += 1
    ctx.exhaustive = True
    ctx.sample(dict(kind='views', flags=b['flags'], views=b['views'][:6]))
    r = ctx.tlc('Layers', dict(Flags='<-HistFlags', Entries='<-HistEntries', Kinds='<-AllKinds', Units=3,
                               MaxOps=ctx.pick(4, 5), Sizes='{0, 1, 2}'), INV + ['EmitLog'], init='HistInit')
    ctx.log('TLC: %d histories' % len(r.prints))
    cl = classes()
    for k, b in enumerate(r.prints):
        replay_log(ctx, b, cl[k // 3 % 4], 'ole' if k % 9 == 0 else 'memory', k % 3 != 0)
    ctx.sample(dict(kind='history', log=[(i['op'], i['e'], i['from'], i['to']) for i in b['log']]))
    runs = []
    fixtures(ctx, runs)
    t = ctx.tlc('LayersTrace', data=runs)
    byid = dict((x['id'], x) for x in runs)
    for p in t.prints:
        ctx.violation('trace-view', 'stream %s: the real view equals %s, the specification requires "%s"'
                      % (byid[p['id']], byid[p['id']]['got'], p['want']), byid[p['id']])
    ctx.validated += len(runs)
    ctx.extra['recorded_views'] = len(runs)
    ctx.sample(runs[-1])
