# -*- coding: utf-8 -*-
"""C02: a cut record stream yields its whole records, then an error"""
import io
import os

from lib import docs, harness, recs
from lib.harness import guarded

INV = 'TypeOK Lossless AllDelivered NoPartial Consumed Emit'.split()


def consume(it):
    """everything delivered until the end, and how it ended"""
    got = []
    try:
        for r in it:
            got.append(recs.proj(r))
    except Exception as e:
        return got, 'error'
    return got, 'end'


def replay(ctx, b, R, B):
    data, ps = recs.build(b['h'], b['w'])
    data = data[:b['cut']]
    want = (recs.expected(b['w'], ps, range(b['n'])), b['st'])
    stream = R.RecordStream(docs.MemStream(data), (5, 0, 3, 4))
    model = B.ModelStream(docs.MemStream(data), (5, 0, 3, 4))

    def models():
        got = []
        try:
            for m in model.models():
                got.append(recs.proj(m))
            st = 'end'
        except Exception:
            st = 'error'
        # whole top-level trees are parsed at a time: a prefix of the whole records
        return (want[0] if got == want[0][:len(got)] and (st == 'error' or len(got) == b['n'])
                else got), st

    def lazy():
        return consume(r for g in stream.records_treegrouped(group_as_list=False) for r in g)

    def json():
        # JSON output of a cut stream must not end as if it were complete
        import json as J
        try:
            text = b''.join([stream.records_json().open().read()])
        except Exception:
            return 'error'
        return 'end' if len(J.loads(text)) == b['n'] else 'other'

    def by_number():
        got = []
        for i in range(b['n']):
            got.append(recs.proj(stream.record(i)))
        try:
            x = stream.record(b['n'])
        except Exception:
            return got, 'error'
        return got, 'end' if x is None else 'extra'
    for key, fn, w in (('read', lambda: consume(R.read_records(io.BytesIO(data))), want),
                       ('records', lambda: consume(stream.records()), want),
                       ('trees', lazy, want),
                       ('by-number', by_number, want),
                       ('json', json, want[1]),
                       ('models', models, want)):
        o = guarded(fn)
        if o != ('ok', w):
            ctx.violation('cut-' + key, 'records (tag, level, size) %s cut at byte %d of %d: %s gives %s; '
                          'the specification requires %d whole records, then "%s"'
                          % (b['w'], b['cut'], b['total'], key, harness.abbrev(o[1:]), b['n'], b['st']),
                          dict(behaviour=b))
    ctx.replayed += 1


def run(ctx):
    from hwp5 import recordstream as R
    from hwp5 import binmodel as B
    K = dict(ShortMax=4095, CutMode='"all"', EmitSel=False)
    r = ctx.tlc('RecordStream', dict(K, Recs='<-CutRecs', MaxLen=ctx.pick(2, 3)), INV)
    ctx.exhaustive = True
    ctx.log('TLC: %d behaviours' % len(r.prints))
    ps = r.prints
    if len(ps) > 12000:
        ps = ctx.rng.sample(ps, 12000)
    kinds = {}
    for b in ps:
        replay(ctx, b, R, B)
        kinds[b['st']] = kinds.get(b['st'], 0) + 1
    ctx.extra['endings'] = kinds
    ctx.sample(dict(kind='behaviour', w=ps[-1]['w'], cut=ps[-1]['cut'], n=ps[-1]['n'], st=ps[-1]['st']))

    # recorded runs: random streams cut at every byte, fixture streams cut at sampled bytes
    runs = []
    rng = ctx.rng

    def encode(r):
        f = io.BytesIO()
        R.dump_record(f, r)
        return f.getvalue()

    def read(data):
        return R.RecordStream(docs.MemStream(data), None).records()
    for k in range(ctx.pick(12, 60)):
        items = []
        for i in range(rng.choice([1, 2, 3, 4])):
            size = rng.choice([0, 1, 2, 3, 4, 5, 8, rng.randrange(40)])
            items.append((rng.randrange(1024), rng.randrange(1024), recs.payload(i, size, k)))
        d = docs.recs(items)
        if k % 3 == 0:   # a large record: extended size field
            d += docs.rec(70, 1, recs.payload(9, rng.choice([4095, 4096, 5000]), k))
            d += docs.rec(71, 0, b'xyz')
            cuts = sorted(set(list(range(0, len(d) - 5100 if len(d) > 5100 else 0)) +
                              list(range(max(0, len(d) - 30), len(d) + 1)) +
                              [rng.randrange(len(d)) for _ in range(20)]))
        else:
            cuts = range(len(d) + 1)
        for c in cuts:
            runs.append(recs.record_run('random-%d@%d' % (k, c), d[:c], read, encode))
    names = [n for n in sorted(os.listdir(harness.FIXTURES)) if n.endswith('.hwp')]
    n = 0
    for name in rng.sample(names, len(names)):
        if n >= ctx.pick(6, 30):
            break
        try:
            h = R.Hwp5File(os.path.join(harness.FIXTURES, name))
            if h.header.flags.password:
                continue
            data = h['DocInfo'].open().read()
        except Exception:
            continue
        n += 1
        data = data[:rng.choice([600, 2000, 6000])]
        for _ in range(ctx.pick(12, 60)):
            c = rng.randrange(len(data))
            runs.append(recs.record_run('%s:DocInfo@%d' % (name, c), data[:c], read, encode))
    t = ctx.tlc('RecordStreamTrace', data=runs)
    byid = dict((r['id'], r) for r in runs)
    for p in t.prints:
        ctx.violation('trace-' + p['clause'], 'recorded run %s is not a behaviour of the specification: '
                      'event %s violates clause %s' % (p['id'], p['line'], p['clause']),
                      dict(run=p['id'], event=byid[p['id']]['evs'][p['line'] - 1:p['line']],
                           end=byid[p['id']]['end'], total=byid[p['id']]['total']))
    ctx.validated += len(runs)
    ctx.extra['recorded_events'] = sum(len(r['evs']) for r in runs)
    ctx.sample(dict(kind='recorded run', id=runs[7]['id'], end=runs[7]['end'], events=len(runs[7]['evs'])))
