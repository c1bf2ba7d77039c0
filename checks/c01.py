# -*- coding: utf-8 -*-
"""C01: record streams frame losslessly and select exactly"""
import io
import json
import os

from lib import cli, docs, harness, recs
from lib.harness import guarded

INV = ('TypeOK RoundTrip Lossless AllDelivered NoPartial Consumed '
       'SelectionsPartition Emit').split()


def hexjson(text):
    out = []
    for r in json.loads(text):
        out.append((r['seqno'], r['tagid'], r['level'], r['size'],
                    bytes.fromhex(''.join(r['payload']).replace(' ', ''))))
    return out


def lst(x):
    return [] if x is None else [recs.proj(r) for r in x]


def replay(ctx, b, R, deep):
    data, ps = recs.build(b['h'], b['w'])
    w = b['w']
    allx = recs.expected(w, ps, range(b['n']))
    name = 'w=%s' % b['w']

    def expect(key, fn, want):
        o = guarded(fn)
        if o != ('ok', want):
            ctx.violation(key, 'written records (tag, level, size) %s: %s gives %s, the '
                          'specification requires %s' % (w, key, harness.abbrev(o[1:]), harness.abbrev(want)),
                          dict(behaviour=b))
            return False
        return True

    # the writer
    def write():
        f = io.BytesIO()
        for i, (tag, level, size) in enumerate(w):
            R.dump_record(f, R.Record(tag, level, ps[i]))
        return f.getvalue()
    expect('write', write, data)

    stream = R.RecordStream(docs.MemStream(data), (5, 0, 3, 4))
    expect('read', lambda: lst(R.read_records(io.BytesIO(data))), allx)
    expect('records', lambda: lst(stream.records()), allx)

    def rewrite():
        f = io.BytesIO()
        for r in stream.records():
            R.dump_record(f, r)
        return f.getvalue()
    expect('reserialise', rewrite, data)

    expect('json', lambda: hexjson(stream.records_json().open().read()), allx)
    for i in range(b['n'] + 2):
        want = allx[i:i + 1]
        expect('record-by-number', lambda: [recs.proj(r) for r in [stream.record(i)] if r is not None], want)
    expect('trees', lambda: [lst(g) for g in stream.records_treegrouped()],
           [recs.expected(w, ps, t) for t in b['trees']])
    expect('trees-lazy', lambda: [lst(g) for g in stream.records_treegrouped(group_as_list=False)],
           [recs.expected(w, ps, t) for t in b['trees']])
    for k in range(len(b['trees']) + 1):
        want = recs.expected(w, ps, b['trees'][k]) if k < len(b['trees']) else []
        expect('tree-by-number', lambda: lst(stream.records_treegroup(k)), want)
        expect('records-of-tree', lambda: [recs.proj(r) for r in stream.records(treegroup=k)], want)
        if deep:
            expect('json-of-tree', lambda: hexjson(stream.records_json(treegroup=k).open().read()), want)
    for a, e, sel in b['ranges']:
        want = recs.expected(w, ps, sel)
        if a <= e:
            expect('records-of-range', lambda: [recs.proj(r) for r in stream.records(range=(a, e))], want)
            if deep:
                def dumped():
                    f = io.StringIO()
                    stream.records_json(range=(a, e)).dump(f)
                    return hexjson(f.getvalue())
                expect('json-of-range', dumped, want)
    # what was read is not changed by showing it as JSON
    def twice():
        rs = list(stream.records())
        for r in rs:
            R.record_to_json(r)
        return [recs.proj(r) for r in rs]
    expect('json-leaves-records-alone', twice, allx)
    ctx.replayed += 1


def replay_cli(ctx, b, n):
    """the same selections through `hwp5proc records`"""
    data, ps = recs.build(b['h'], b['w'])
    w = b['w']
    # stored uncompressed: no flags
    path = ctx.path('cli%d.hwp' % n)
    with open(path, 'wb') as f:
        f.write(docs.write_ole({'FileHeader': docs.fileheader(0), 'DocInfo': data,
                                'BodyText': {'Section0': data}}))
    offs = []
    pos = 0
    for i, h in enumerate(b['h']):
        hl = 8 if h[2] else 4
        offs.append((pos, pos + hl, pos + hl + w[i][2]))
        pos = offs[-1][2]
    sels = [([], list(range(b['n'])))]
    for a, e, sel in b['ranges']:
        if a < e:
            sels.append((['--range', '%d-%d' % (a, e)], sel))
            if e == a + 1:
                sels.append((['--range', '%d' % a], sel))
    for k in range(len(b['trees']) + 1):
        sels.append((['--treegroup', str(k)], b['trees'][k] if k < len(b['trees']) else []))

    for opts, sel in sels:
        forms = dict(raw=b''.join(data[offs[i][0]:offs[i][2]] for i in sel))
        forms['raw-header'] = b''.join(data[offs[i][0]:offs[i][1]] for i in sel)
        forms['raw-payload'] = b''.join(data[offs[i][1]:offs[i][2]] for i in sel)
        for form, want in forms.items():
            args = ['records', '--' + form] + opts
            for how in (('file', 'BodyText/Section0'), ('file', 'DocInfo'), ('stdin', None)):
                if how[0] == 'file':
                    st, out, err, o = cli.run('hwp5proc', args + [path, how[1]])
                else:
                    st, out, err, o = cli.run('hwp5proc', args, stdin=data)
                if st != 0 or out != want:
                    ctx.violation('cli-%s-%s' % (form, how[0]),
                                  'hwp5proc %s on %s (%s): status %r, %s, output of %d bytes, required %d'
                                  % (' '.join(args), w, how, st, o, len(out), len(want)),
                                  dict(behaviour=b, args=args, how=how))
                ctx.count('cli_selections')
        st, out, err, o = cli.run('hwp5proc', ['records'] + opts + [path, 'DocInfo'])
        got = guarded(lambda: hexjson(out.decode()))
        if st != 0 or got != ('ok', recs.expected(w, ps, sel)):
            ctx.violation('cli-json', 'hwp5proc records %s on %s: status %r %s output %r'
                          % (opts, w, st, o, out[:200]), dict(behaviour=b, opts=opts))
        st, out, err, o = cli.run('hwp5proc', ['records', '--simple'] + opts + [path, 'DocInfo'])
        lines = [l.split(None, 1)[0] for l in out.decode().splitlines()]
        ind = [len(l) - len(l[4:].lstrip()) - 4 for l in out.decode().splitlines()]
        if st != 0 or [int(x) for x in lines] != sel or \
           [(x - 2) // 2 for x in ind] != [w[i][1] for i in sel]:
            ctx.violation('cli-simple', 'hwp5proc records --simple %s on %s: status %r %s output %r'
                          % (opts, w, st, o, out[:200]), dict(behaviour=b, opts=opts))
    os.unlink(path)


def histories(ctx, R):
    """random histories of selections on one stream object (and interleaved readers)"""
    rng = ctx.rng
    runs = []
    for k in range(ctx.pick(120, 1200)):
        n = rng.choice([0, 1, 3, 6, 12, 25])
        levels = [0] + [rng.choice([0, 0, 1, 1, 2]) for _ in range(n - 1)] if n else []
        items = [(rng.randrange(1024), levels[i], recs.payload(i, rng.randrange(9), k)) for i in range(n)]
        data = docs.recs(items)
        stream = R.RecordStream(docs.MemStream(data), (5, 0, 3, 4))
        ntree = max(1, levels.count(0))
        qs = []

        def res(rs):
            rs = [recs.proj(r) for r in (rs or [])]
            same = all(0 <= r[0] < n and r[1:] == (items[r[0]][0], items[r[0]][1], len(items[r[0]][2]), items[r[0]][2])
                       for r in rs)
            return [r[0] for r in rs], same

        def ask(kind, a, b):
            if kind == 'range':
                return res(list(stream.records(range=(a, b))))
            if kind == 'nth':
                r = stream.record(a)
                return res([r] if r is not None else [])
            if kind == 'tree':
                if b:
                    return res(stream.records_treegroup(a))
                return res(list(stream.records(treegroup=a)))
            if kind == 'all':
                # two readers of one stream, advanced in turns
                x, y = iter(stream.records()), iter(stream.records())
                p, q = [], []
                for _ in range(2 * n + 2):
                    t, l = (x, p) if rng.random() < .5 else (y, q)
                    l.append(next(t, None))
                p += list(x)
                q += list(y)
                p = [i for i in p if i is not None]
                q = [i for i in q if i is not None]
                a, s = res(p)
                c, t = res(q)
                return (a, s) if a != list(range(n)) else (c, s and t)
            gs = [res(g) for g in stream.records_treegrouped(bool(b))]
            return [g[0] for g in gs], all(g[1] for g in gs)
        for _ in range(14):
            kind = rng.choice(['range', 'nth', 'tree', 'tree', 'tree', 'trees', 'all'])
            a = rng.randrange(ntree + 1) if kind == 'tree' else rng.randrange(n + 2)
            b = rng.randrange(2) if kind in ('tree', 'trees') else a + rng.randrange(n + 2)
            o = guarded(lambda: ask(kind, a, b))
            if o[0] != 'ok':
                ctx.violation('history-' + kind, 'selection %s(%d, %d) of a stream with levels %s after %d others: %s'
                              % (kind, a, b, levels, len(qs), o), dict(levels=levels, queries=qs))
                break
            qs.append(dict(k=kind, a=a, b=b, res=o[1][0], same=o[1][1]))
        runs.append(dict(id='history-%d' % k, levels=levels, qs=qs))
    t = ctx.tlc('RecordQueryTrace', data=runs)
    for p in t.prints:
        r = runs[int(p['id'].split('-')[1])]
        ctx.violation('history-' + p['clause'], '%s, levels %s: query %s is answered %s, the specification requires %s'
                      % (p['id'], r['levels'], r['qs'][p['line'] - 1], r['qs'][p['line'] - 1]['res'], p['want']), dict(run=r))
    ctx.validated += len(runs)


def run(ctx):
    from hwp5 import recordstream as R
    thorough = ctx.thorough
    K = dict(ShortMax=4095, CutMode='"none"', EmitSel=True)
    # 1. one record, every header field around every boundary
    r1 = ctx.tlc('RecordStream', dict(K, Recs='<-FramingRecs', MaxLen=1), INV)
    # 2. pairs around the short-size limit
    r2 = ctx.tlc('RecordStream', dict(K, Recs='<-PairRecs', MaxLen=2), INV)
    # 3. level sequences: trees, ranges
    r3 = ctx.tlc('RecordStream', dict(K, Recs='<-TreeRecs', MaxLen=ctx.pick(4, 5)), INV)
    ctx.log('TLC: %d behaviours' % (len(r1.prints) + len(r2.prints) + len(r3.prints)))
    ctx.exhaustive = True
    for b in r1.prints + r2.prints:
        replay(ctx, b, R, True)
    deep = ctx.rng.sample(range(len(r3.prints)), min(len(r3.prints), ctx.pick(250, 2000)))
    deep = set(deep)
    for i, b in enumerate(r3.prints):
        replay(ctx, b, R, i in deep)
    ctx.sample(dict(kind='behaviour', behaviour=r3.prints[-1]['w'], trees=r3.prints[-1]['trees']))
    # the command line on some of them
    pool = [b for b in r3.prints if b['n'] == 3] + [b for b in r2.prints if b['n'] == 2]
    pick = [r3.prints[0] if r3.prints[0]['n'] == 0 else
            [b for b in r3.prints if b['n'] == 0][0]]
    pick += ctx.rng.sample(pool, ctx.pick(12, 80))
    for n, b in enumerate(pick):
        replay_cli(ctx, b, n)
    ctx.log('replayed')

    histories(ctx, R)
    # 4. recorded runs: every record stream of the fixtures, and random streams
    runs = []

    def encode(r):
        f = io.BytesIO()
        R.dump_record(f, r)
        return f.getvalue()

    def read(data):
        return R.RecordStream(docs.MemStream(data), None).records()
    names = sorted(os.listdir(harness.FIXTURES))
    if not thorough:
        names = ctx.rng.sample([n for n in names if n.endswith('.hwp')], 12)
    streams = []
    for n in names:
        if not n.endswith('.hwp'):
            continue
        try:
            h = R.Hwp5File(os.path.join(harness.FIXTURES, n))
            if h.header.flags.password:
                continue
            streams.append((n + ':DocInfo', h['DocInfo'].open().read()))
            for s in h.text:
                streams.append((n + ':' + s, h.text[s].open().read()))
        except Exception:
            continue
    total = 0
    for id, data in streams:
        if total > ctx.pick(6000, 60000):
            break
        r = recs.record_run(id, data, read, encode)
        total += len(r['evs'])
        runs.append(r)
    rng = ctx.rng
    for k in range(ctx.pick(150, 1500)):
        items = []
        for i in range(rng.choice([0, 1, 2, 3, 5, 10, 30])):
            size = rng.choice([0, 0, 1, 2, 3, 4, rng.randrange(300), rng.randrange(300), 4093, 4094,
                               4095, 4096, 4097, rng.randrange(9000), 65535, 65536])
            items.append((rng.randrange(1024), rng.randrange(1024), recs.payload(i, size, k)))
        runs.append(recs.record_run('random-%d' % k, docs.recs(items), read, encode))
    t = ctx.tlc('RecordStreamTrace', data=runs)
    for p in t.prints:
        ctx.violation('trace-' + p['clause'], 'recorded run %s is not a behaviour of the specification: '
                      'event %s violates clause %s' % (p['id'], p['line'], p['clause']),
                      dict(run=p['id'], event=[r for r in runs if r['id'] == p['id']][0]['evs'][p['line'] - 1:p['line']]))
    ctx.validated += len(runs)
    ctx.extra['recorded_events'] = sum(len(r['evs']) for r in runs)
    ctx.sample(dict(kind='recorded run', id=runs[-1]['id'], events=runs[-1]['evs'][:2], end=runs[-1]['end']))
