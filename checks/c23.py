# -*- coding: utf-8 -*-
"""C23: reading is independent of history and interleaving"""
import hashlib
import os
import sys
import threading

from lib import docs, harness, history
from lib.harness import guarded
from checks import c17

SOURCES = ('headerfooter.hwp', 'table.hwp', 'footnote-endnote.hwp', 'viewtext.hwp', 'textbox.hwp', 'lists.hwp', 'charshape.hwp', 'matrix.hwp', 'shapeline.hwp',
           'multicolumns.hwp', 'strikethrough.hwp', 'sample-5017-pics.hwp', 'pagedefs.hwp', 'issue30.hwp')
VERSIONS = ((5, 0, 0, 4), (5, 0, 0, 6), (5, 0, 0, 8), (5, 0, 1, 4), (5, 0, 1, 7), (5, 0, 2, 1), (5, 0, 2, 4), (5, 0, 2, 9), (5, 0, 3, 0), (5, 0, 3, 3), (5, 0, 3, 4), (5, 1, 0, 1))
# builds of a series, on both sides of a change of layouts
CLOSE = ([(5, 0, 1, 4), (5, 0, 1, 7)], [(5, 0, 0, 4), (5, 0, 0, 8)], [(5, 0, 2, 4), (5, 0, 2, 9)], [(5, 0, 3, 0), (5, 0, 3, 4)])
LAYERS = {
    'filestructure': lambda p: p.split(' ')[0].split('.')[0] in ('header', 'preview', 'stream', 'streams', 'sections') or p in ('listing',) or p.startswith('summary') and p != 'summary events',
    'recordstream': lambda p: LAYERS['filestructure'](p) or p.startswith('record'),
    'binmodel': lambda p: LAYERS['recordstream'](p) or p.startswith(('model', 'docinfo')),
    'xmlmodel': lambda p: not p.startswith('docinfo'),
}
# where what can be remembered, shared or filled later
FAVOURED = [p for p in history.PARTS if p.startswith(('record', 'model', 'event', 'xml', 'header', 'preview', 'summary', 'docinfo'))]

FORMS = ('path', 'path', 'ole', 'shared', 'shared', 'directory')
FAILURES = [history.digest(('raise', e)) for e in ('TypeError', 'KeyError', 'ValueError', 'EOFError', 'AttributeError', 'ParseError', 'IndexError', 'UnicodeDecodeError', 'struct.error', 'error', 'NotImplementedError')]


class Pool(object):
    """documents; what their parts are to a process that reads nothing else"""

    def __init__(self, ctx, n):
        self.ctx = ctx
        rng = ctx.rng
        names = [s for s in SOURCES if os.path.exists(os.path.join(harness.FIXTURES, s))]
        fixed, more = names[:4], rng.sample(names[4:], n)
        self.docs = []

        def add(name, path):
            self.docs.append((name, path))
        for k, s in enumerate(fixed + more):
            src = os.path.join(harness.FIXTURES, s)
            if k < 4 or rng.random() < .5:
                path = ctx.path(s)
                with open(src, 'rb') as f, open(path, 'wb') as g:
                    g.write(f.read())
                add(s, path)
            # the same bytes, to be read by the layouts of other versions
            for v in rng.sample(VERSIONS, 1) if k > 3 else CLOSE[k] + (rng.sample([v for v in VERSIONS if v not in CLOSE[k]], 1) if k < 2 else []):
                label = '%s as %s' % (s, '.'.join(map(str, v)))
                add(label, history.relabel(src, v, ctx.path('%s-%s' % ('.'.join(map(str, v)), s)), c17.random_stream(rng, 1) if rng.random() < .5 else None))
        self.path = dict(self.docs)
        self.names = [name for name, _ in self.docs]
        self.hash = dict((name, self.sum(path)) for name, path in self.docs)
        refs = history.references([p for _, p in self.docs], list(history.PARTS), ctx.mkdir('refs-'))
        name = dict((p, n) for n, p in self.docs)
        self.due = {}
        for (path, part), res in refs.items():
            self.due.setdefault(name[path], {})[part] = res

    @staticmethod
    def sum(path):
        with open(path, 'rb') as f:
            return hashlib.md5(f.read()).hexdigest()

    def unchanged(self):
        return all(self.sum(p) == self.hash[n] for n, p in self.docs)


class Bench(object):
    """handles and readers of one history"""

    def __init__(self, pool):
        self.pool = pool
        self.handles, self.doc, self.layer, self.form, self.shared = {}, {}, {}, {}, {}
        self.readers = {}
        self.kept = []      # (reader, part, digest then, value)

    def open(self, h, doc, layer='xmlmodel', form='path'):
        path = self.pool.path[doc]
        if form == 'shared':
            # of one storage, which none of them closes
            if doc not in self.shared:
                self.shared[doc] = history.storage(path, 'ole')
            stg = self.shared[doc]
        else:
            stg = history.storage(path, form)
        self.handles[h] = history.opener(layer)(stg)
        self.doc[h], self.layer[h], self.form[h] = doc, layer, form

    def can(self, h, part):
        """names come in another order from directories"""
        return LAYERS[self.layer[h]](part) and not (self.form[h] == 'directory' and part.startswith(('names', 'listing', 'streams')))

    def reader(self, r, h, part):
        self.readers[r] = history.Reader(self.handles[h], part)

    def take(self, r, n=None):
        x = self.readers[r]
        got = x.take(n)
        if x.part not in history.VOLATILE:
            self.kept.extend((r, x.part, d, v) for d, v in got)
        return [d for d, _ in got], x.over

    def late(self):
        return [(r, part, was, history.digest(v)) for r, part, was, v in self.kept]

    def close(self, h):
        hh = self.handles.pop(h)
        if self.form[h] in ('path', 'ole'):
            hh.close()

    def end(self):
        for r in self.readers.values():
            try:
                r.drop()
            except ValueError:      # it is being read (by a thread that did not end)
                pass
        for h in list(self.handles):
            self.close(h)
        for stg in self.shared.values():
            stg.close()


def replay(ctx, pool, log, handles, rng):
    """an abstract schedule with documents, parts and cuts"""
    b = Bench(pool)
    docs_ = {}
    for h, d in enumerate(handles, 1):
        if d not in docs_:
            docs_[d] = rng.choice([n for n in pool.names if n not in docs_.values()])
    if len(docs_) > 1 and rng.random() < .6:
        # the same content in several versions
        base = rng.choice([n for n in pool.names if ' as ' in n]).split(' as ')[0]
        same = [n for n in pool.names if n == base or n.startswith(base + ' as ')]
        if len(same) >= len(docs_):
            docs_ = dict(zip(docs_, rng.sample(same, len(docs_))))
    layer = dict((h, rng.choice(['xmlmodel', 'xmlmodel', 'binmodel', 'recordstream', 'filestructure'])) for h in range(1, len(handles) + 1))
    parts, first, story = {}, {}, []
    for h, d in enumerate(handles, 1):
        b.open(h, docs_[d], layer[h], rng.choice(FORMS))
    value = rng.choice(FAVOURED)
    record = rng.choice(FAVOURED)
    try:
        for o in log:
            r = o['r']
            if o['op'] == 'close':
                b.close(o['h'])
                story.append('close %d' % o['h'])
                continue
            doc = docs_[handles[o['h'] - 1]]
            if o['op'] == 'open':
                part = {'value': value, 'record': record}[o['p']] if rng.random() < .7 else rng.choice(list(history.PARTS))
                if not b.can(o['h'], part):
                    part = rng.choice([p for p in history.PARTS if b.can(o['h'], p)])
                parts[r] = part
                due = pool.due[doc][part]
                first[r] = rng.choice([1, 1, len(due) // 2, rng.randrange(len(due) + 1), len(due)])
                first[r] = max(0, min(first[r], len(due)))
                b.reader(r, o['h'], part)
                b.readers[r].at = 0
                b.readers[r].piece = 0
                story.append('%d reads %s of %s (handle %d, %s of %s)' % (r, part, doc, o['h'], layer[o['h']], b.form[o['h']]))
                continue
            part, due = parts[r], pool.due[doc][parts[r]]
            x = b.readers[r]
            if o['op'] == 'drop':
                x.drop()
                story.append('%d stops' % r)
                continue
            n, over = None, True
            if o['op'] == 'step' and x.piece == 0:
                n = first[r]
            elif o['op'] == 'step' and x.piece == 1:
                n = len(due) - x.at
            x.piece = x.piece + 1
            want = due[x.at:] if n is None else due[x.at:x.at + n]
            got, over = b.take(r, n)
            story.append('%d gives %d' % (r, len(got)))
            x.at += len(got)
            if got != want:
                k = next(k for k in range(max(len(got), len(want))) if got[k:k + 1] != want[k:k + 1])
                at = x.at - len(got) + k
                ctx.violation('value', '%s of %s: item %d %s: %s' % (part, doc, at, 'is missing' if k >= len(got) else 'should not be' if k >= len(want) else 'is another than a process gets that reads nothing else', '; '.join(story)),
                              dict(story=story))
                return
        for r, part, was, now in b.late():
            if was != now:
                ctx.violation('changed', '%s: a value handed out by reader %d changed later: %s' % (part, r, '; '.join(story)), dict(story=story))
                return
    finally:
        b.end()


def long_history(pool, rng, n, layered=True, own=None, conversions=True):
    """a run for HistoryTrace"""
    b = Bench(pool)
    ops, docs_ = [], own or rng.sample(pool.names, min(4, len(pool.names)))
    nh = nr = 0
    active = {}     # reader -> handle
    log = lambda op, h, r, res=(), end=False: ops.append(dict(op=op, h=h, d=b.doc[h], p=b.readers[r].part if r else '', r=r, res=list(res), end=end))
    favour = rng.sample(FAVOURED, 4)
    try:
        while len(ops) < n:
            x = rng.random()
            if len(b.handles) < 2 or x < .05 and len(b.handles) < 6:
                nh += 1
                b.open(nh, rng.choice(docs_), rng.choice(['xmlmodel', 'xmlmodel', 'binmodel']) if layered else 'xmlmodel', rng.choice(FORMS))
            elif x < .08 and len(b.handles) > 2:
                h = rng.choice(list(b.handles))
                log('close', h, 0)
                b.close(h)
                active = dict((r, g) for r, g in active.items() if g != h)
            elif x < .45 or not active:
                h = rng.choice(list(b.handles))
                part = rng.choice(favour) if rng.random() < .7 else rng.choice(list(history.PARTS))
                if not b.can(h, part) or part.startswith('conversion') and not conversions:
                    continue
                nr += 1
                b.reader(nr, h, part)
                log('open', h, nr)
                active[nr] = h
            else:
                r = rng.choice(list(active)[-6:])
                h = active[r]
                if rng.random() < .06:
                    log('drop', h, r)
                    b.readers[r].drop()
                    del active[r]
                    continue
                got, over = b.take(r, rng.choice([1, 1, 2, 5, 20, None]))
                log('step', h, r, got, over)
                if over and rng.random() < .8:
                    del active[r]
        late = b.late()
        changed = [x for x in late if x[2] != x[3]]
        late = changed + late[:50]
        return dict(due=dict((d, pool.due[d]) for d in set(b.doc.values())), ops=ops,
                    late=[dict(r=r, p=p, was=a, res=c) for r, p, a, c in late]), len(b.kept)
    finally:
        b.end()


def validate(ctx, pool, runs, what):
    for n, r in enumerate(runs):
        r['id'] = n + 1
        # only what was read
        r['due'] = dict((d, dict((p, v) for p, v in due.items() if any(o['p'] == p and o['d'] == d for o in r['ops'])) or {'none': []}) for d, due in r['due'].items())
        r['files'] = bool(r['files'])
    t = ctx.tlc('HistoryTrace', invariants=['Emit'], data=runs, timeout=600)
    for p in t.prints:
        r = runs[p['id'] - 1]
        upto = [('%s %s of %s by %d: %d' % (o['op'], o['p'], o['d'], o['r'], len(o['res']))) for o in r['ops'][:p['at']]]
        ctx.violation('history', '%s: step %d (%s): %s; before: %s' % (what, p['at'], ' '.join(reversed(p['which'])), p['bad'], '; '.join(upto[-8:])), dict(ops=upto))
    ctx.validated += len(runs)
    return len(t.prints)


def threads(ctx, pool, rng, n, length):
    """as many processes as threads see: each has handles of its own"""
    import random
    out, errors = [None] * n, []

    def go(k, seed):
        try:
            out[k] = long_history(pool, random.Random(seed), length, conversions=False)[0]
        except BaseException as e:
            errors.append('%s: %s' % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=go, args=(k, rng.random()), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(300)
        if any(t.is_alive() for t in ts):
            errors.append('does not end')
    finally:
        sys.setswitchinterval(old)
    if errors:
        ctx.violation('threads', 'reading by %d threads with handles of their own: %s' % (n, errors[0]))
    return [r for r in out if r is not None]


def run(ctx):
    ctx.exhaustive = True
    rng = ctx.rng
    import time
    t0 = time.time()
    pool = Pool(ctx, ctx.pick(3, 7))
    ctx.log('%d documents, %d parts, alone: %.0f s' % (len(pool.docs), len(history.PARTS), time.time() - t0))
    ctx.count('parts read alone', sum(len(d) for d in pool.due.values()))
    failing = sum(1 for d in pool.due.values() for p in d.values() if p and p[-1] in FAILURES)
    ctx.count('parts that fail when read alone', failing)
    if not pool.unchanged():
        ctx.violation('file', 'reading changed a file')

    # ---- every schedule of a small process ----
    inv = ['Independent', 'Emit']
    n = 0
    for handles, consts, cap in (
            ([1, 1], dict(Handles='<-Two', Versions='<-ThreeVersions', MaxReaders=2, MaxOps=ctx.pick(5, 6)), ctx.pick(2000, 15000)),
            ([1, 1, 2], dict(Handles='<-Three', Versions='<-ThreeVersions', MaxReaders=3, MaxOps=ctx.pick(5, 6)), ctx.pick(3000, 20000)),
            ([1, 2, 3, 1], dict(Handles='<-Four', Versions='<-ThreeVersions', MaxReaders=3, MaxOps=ctx.pick(4, 5)), ctx.pick(1500, 10000))):
        t = ctx.tlc('History', dict(consts, Parts='{"record", "value"}', CacheKey='"type and version"', Closing=True), invariants=inv, properties=['Kept'], timeout=800, heap='12g')
        logs = [p['log'] for p in t.prints]
        # prefer those that read
        logs = [l for l in logs if sum(o['op'] in ('step', 'drain') for o in l) >= 2]
        ctx.count('schedules', len(logs))
        if len(logs) > cap:
            logs = rng.sample(logs, cap)
            ctx.exhaustive = False
        t1 = time.time()
        for l in logs:
            o = guarded(lambda: replay(ctx, pool, l, handles, rng), 60)
            if o[0] != 'ok':
                ctx.violation('raises', 'reading raises: %s: %s' % (o[1:], [(x['op'], x['h'], x['p'], x['r']) for x in l]))
            n += 1
            if time.time() - t1 > ctx.pick(100, 600):
                ctx.exhaustive = False
                ctx.log('stopped at %d of %d' % (n, len(logs)))
                break
        ctx.log('%d schedules, %.0f s' % (n, time.time() - t1))
    ctx.replayed += n
    ctx.sample(dict(kind='schedule', log=[(o['op'], o['h'], o['p'], o['r']) for o in logs[-1]]))
    if not pool.unchanged():
        ctx.violation('file', 'reading changed a file')

    # ---- long histories ----
    runs, kept = [], 0
    t1 = time.time()
    while len(runs) < ctx.pick(80, 600) and time.time() - t1 < ctx.pick(100, 1200):
        o = guarded(lambda: long_history(pool, rng, ctx.pick(120, 300)), 200)
        if o[0] != 'ok':
            ctx.violation('raises', 'a history raises %s' % (o[1:],))
            continue
        o[1][0]['files'] = pool.unchanged()
        runs.append(o[1][0])
        kept += o[1][1]
    ctx.log('%d long histories, %d values kept, %.0f s' % (len(runs), kept, time.time() - t1))
    validate(ctx, pool, runs, 'one after another')
    ctx.count('values looked at again', kept)

    # ---- threads ----
    runs = []
    t1 = time.time()
    for k in range(ctx.pick(8, 60)):
        if time.time() - t1 > ctx.pick(60, 600):
            break
        got = threads(ctx, pool, rng, 4, ctx.pick(50, 100))
        for r in got:
            r['files'] = pool.unchanged()
        runs += got
    ctx.log('%d threads, %.0f s' % (len(runs), time.time() - t1))
    if runs:
        validate(ctx, pool, runs, 'threads with handles of their own')

    # ---- teeth: a trace with a fault is refused ----
    if runs:
        r = next((r for r in runs if any(o['res'] for o in r['ops'])), None)
        if r:
            import copy
            bad = copy.deepcopy(r)
            o = next(o for o in bad['ops'] if o['res'])
            o['res'][-1] = 'another'
            bad['id'] = 1
            t = ctx.tlc('HistoryTrace', invariants=['Emit'], data=[bad])
            if not t.prints:
                raise harness.CheckError('HistoryTrace accepts a trace with a fault')
