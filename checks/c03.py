# -*- coding: utf-8 -*-
"""C03: record levels become a properly nested tree"""
import os

from lib import docs, harness, recs
from lib.harness import guarded

INV = 'Balanced InOrder NearestParent RefusedIff Emit'.split()


def drain(it, f):
    out = []
    try:
        for x in it:
            out.append(f(x))
    except Exception:
        return out, 'refused'
    return out, 'done'


def replay(ctx, b, T, R, B, base):
    lv = b['lv']
    n = len(lv)
    items = [(base + l, 'item%d' % (i + 1)) for i, l in enumerate(lv)]
    num = dict((v, i + 1) for i, (_, v) in enumerate(items))
    num['ROOT'] = 0
    ev = lambda x: ['s' if x[0] is T.STARTEVENT else 'e' if x[0] is T.ENDEVENT else '?', num.get(x[1], repr(x[1]))]
    # what the code hands out is looked at when it is handed out (the list is its own)
    anc = lambda x: [num.get(x[1]), [num.get(a, repr(a)) for a in x[0]]]

    def nest(t):
        return [num[t[0]], [nest(c) for c in t[1]]]
    want_anc = [[i + 1, [0] + a] for i, a in enumerate(b['anc'])]
    done = b['mode'] == 'done'

    def expect(key, fn, want):
        o = guarded(fn)
        if o != ('ok', want):
            ctx.violation(key, 'levels %s (base %d): %s gives %s, the specification requires %s'
                          % (lv, base, key, harness.abbrev(o[1:]), harness.abbrev(want)),
                          dict(behaviour=b, base=base))
    expect('events', lambda: drain(T.prefix_event(iter(items), 'ROOT'), ev), (b['ev'], b['mode']))
    expect('ancestors-from-levels', lambda: drain(T.prefix_ancestors_from_level(iter(items), 'ROOT'), anc),
           (want_anc, b['mode']))
    expect('ancestors-from-events', lambda: drain(T.prefix_ancestors(T.prefix_event(iter(items)), 'ROOT'), anc),
           (want_anc, b['mode']))
    if done:
        def forest():
            evs = T.prefix_event(iter(items))
            out = []
            for e, item in evs:
                if e is not T.STARTEVENT:
                    return 'not a start', e
                out.append(T.build_subtree(evs))
            return out
        expect('subtrees', lambda: [nest(t) for t in forest()], b['forest'])
        expect('events-of-subtrees', lambda: drain(T.tree_events_multi(forest()), ev), (b['ev'], 'done'))
        expect('events-of-one-subtree', lambda: sum([drain(T.tree_events(*t), ev)[0] for t in forest()], []), b['ev'])

        def sub():
            # the events below each top-level start, then its end; the rest stays in the stream
            evs = T.prefix_event(iter(items))
            out = []
            for e, item in evs:
                out.append([ev((e, item))] + [ev(x) for x in T.iter_subevents(evs)])
            return out
        want = []
        for e in b['ev']:
            if want and want[-1][-1] != ['e', want[-1][0][1]]:
                want[-1].append(e)
            else:
                want.append([e])
        expect('sub-events', sub, want)
    # records with these levels
    data = docs.recs([(900, base + l, b'%d' % (i + 1)) for i, l in enumerate(lv)])
    if base == 0:
        s = R.RecordStream(docs.MemStream(data), (5, 0, 3, 4))
        groups = [[j + 1 for j in range(n) if top(lv, j) == k] for k in sorted(set(top(lv, j) for j in range(n)))]
        for as_list in (True, False):
            expect('top-level-groups', lambda: [[int(r['payload']) for r in g] for g in s.records_treegrouped(as_list)], groups)

    def parents():
        m = B.ModelStream(docs.MemStream(data), (5, 0, 3, 4))
        out = []
        try:
            for c, model in B.parse_models_intern(dict(version=(5, 0, 3, 4)), m.records()):
                pc, p = c['parent']
                out.append(int(p['payload']) if p else 0)
        except Exception:
            return out, 'refused'
        return out, 'done'
    want = [a[-1] if a else 0 for a in b['anc']]
    expect('parents-of-models', parents, (want, b['mode']))

    def model_events():
        m = B.ModelStream(docs.MemStream(data), (5, 0, 3, 4))
        out = []
        try:
            for model in m.models():
                out.append(int(model['payload']))
        except Exception:
            return 'refused', []
        return 'done', out
    o = guarded(model_events)
    if o[0] != 'ok' or o[1][0] != b['mode'] or (done and o[1][1] != list(range(1, n + 1))):
        ctx.violation('models', 'levels %s (base %d): models gives %s, the specification requires %s'
                      % (lv, base, o[1:], b['mode']), dict(behaviour=b))
    ctx.replayed += 1


def top(lv, j):
    while j > 0 and lv[j] != 0:
        j -= 1
    return j


def record(id, lv, base, T):
    items = [(base + l, i + 1) for i, l in enumerate(lv)]
    evs, end = drain(T.prefix_event(iter(items), 0),
                     lambda x: dict(t='s' if x[0] is T.STARTEVENT else 'e', i=x[1]))
    anc, _ = drain(T.prefix_ancestors_from_level(iter(items), 0), lambda x: [x[1], list(x[0][1:])])
    d = dict((i, a) for i, a in anc)
    return dict(id=id, lv=lv, ev=evs, anc=[d.get(i + 1, [-1]) for i in range(len(lv))],
                end='end' if end == 'done' else 'error')


def run(ctx):
    from hwp5 import treeop as T
    from hwp5 import recordstream as R
    from hwp5 import binmodel as B
    r = ctx.tlc('TreeOp', dict(MaxLen=ctx.pick(8, 10), MaxLevel=ctx.pick(5, 6), Bases='{0}'), INV)
    ctx.exhaustive = True
    ctx.log('TLC: %d behaviours' % len(r.prints))
    modes = {}
    for k, b in enumerate(r.prints):
        modes[b['mode']] = modes.get(b['mode'], 0) + 1
        replay(ctx, b, T, R, B, 0)
        if k % 7 == 0:
            replay(ctx, b, T, R, B, (1, 3, 500)[k // 7 % 3])
    ctx.extra['modes'] = modes
    ctx.sample(dict(kind='behaviour', levels=r.prints[-1]['lv'], events=r.prints[-1]['ev']))
    ctx.log('replayed')

    runs = []
    rng = ctx.rng
    for k in range(ctx.pick(150, 1000)):
        n = rng.choice([1, 2, 5, 20, 60, 200])
        lv = [0]
        illegal = rng.random() < .3
        for i in range(n - 1):
            if illegal and rng.random() < 2.0 / n:
                lv.append(lv[-1] + rng.choice([2, 2, 3, 9]))
            else:
                lv.append(rng.choice([lv[-1] + 1, lv[-1], rng.randrange(lv[-1] + 1), rng.randrange(lv[-1] + 2)]))
        o = guarded(lambda: record('random-%d' % k, lv, rng.choice([0, 0, 1, 7]), T))
        if o[0] != 'ok':
            ctx.violation('recording', 'levels %s: %s' % (lv, o), dict(levels=lv))
            continue
        runs.append(o[1])
    names = [n for n in sorted(os.listdir(harness.FIXTURES)) if n.endswith('.hwp')]
    for name in rng.sample(names, ctx.pick(10, len(names))):
        try:
            h = R.Hwp5File(os.path.join(harness.FIXTURES, name))
            if h.header.flags.password:
                continue
            ss = [('DocInfo', h['DocInfo'])] + [(s, h.text[s]) for s in h.text]
        except Exception:
            continue
        for sn, s in ss:
            lv = [x[3] for x in docs.parse_recs(s.open().read())[0]][:ctx.pick(400, 4000)]
            o = guarded(lambda: record(name + ':' + sn, lv, 0, T))
            if o[0] == 'ok' and lv and lv[0] == 0:
                runs.append(o[1])
    t = ctx.tlc('TreeOpTrace', data=runs)
    byid = dict((x['id'], x) for x in runs)
    for p in t.prints:
        x = byid[p['id']]
        ctx.violation('trace-' + p['clause'], 'recorded events of %s (levels %s...) violate clause %s at event %s; the specification requires %s'
                      % (p['id'], x['lv'][:30], p['clause'], p['line'], p['want']), dict(run=x))
    ctx.validated += len(runs)
    ctx.extra['recorded_events'] = sum(len(x['ev']) for x in runs)
    ctx.sample(dict(kind='recorded run', id=runs[0]['id'], levels=runs[0]['lv'][:20], events=runs[0]['ev'][:6]))
