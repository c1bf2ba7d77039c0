# -*- coding: utf-8 -*-
"""C25: listings and searches of models say what is in the records"""
import os

from lib import docs, harness, listing
from lib.harness import guarded

INVARIANTS = ['Told', 'AloneToo', 'Partition', 'Together', 'Each', 'Classed', 'Balanced', 'Emit']


class Checker(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def expect(self, where, fn, want, detail):
        self.n += 1
        self.ctx.replayed += 1
        o = guarded(fn, 30)
        if o[0] != 'ok':
            self.ctx.violation('%s-fails' % where, '%s: %s' % (where, harness.abbrev(o[1:])), detail)
        elif [list(x) if isinstance(x, (list, tuple)) else x for x in o[1][0]] != want['is'] or o[1][1] != want['failed']:
            self.ctx.violation(where, '%s: %s%s, not %s%s' % (
                where, o[1][0], ' and an error' if o[1][1] else '', want['is'], ' and an error' if want['failed'] else ''), detail)

    def file(self, info, sections, v, name='f.hwp', known={}):
        path = self.ctx.path(name)
        tree = docs.doc_tree(info.data, [s.data for s in sections], version=listing.VERSIONS[v], flags=1 if self.n % 2 else 0)
        if self.n % 2:
            tree = docs.compress_tree(tree)
        with open(path, 'wb') as f:
            f.write(docs.write_ole(tree))
        return path


def questions(p):
    """what is asked of a stream: [(q, want)]"""
    out = [(dict(k='all'), p['all']), (dict(k='events'), dict([('is', p['events']), ('failed', p['all']['failed'])]))]
    out += [(dict(k='tree', a=t), w) for t, w in enumerate(p['trees'])]
    out += [(dict(k='nth', a=i), w) for i, w in enumerate(p['nths'])]
    return out


def searches(p):
    out = [(dict(k='find', incomplete=True), p['odd']), (dict(k='find'), p['all'])]
    for m, w in sorted(p['models'].items()):
        out += [(dict(k='find', model=m), w['a']), (dict(k='find', model=m, incomplete=True), w['b'])]
    for t, w in dict((w['t'], w) for w in p['tags']).items():
        name = p['tagnames'][[n['tag'] for n in p['named']].index(t)]
        out += [(dict(k='find', tag=t, tagname=name), w['a']), (dict(k='find', tag=t, tagname=name, incomplete=True), w['b'])]
    return out


def replay(ctx, c, prints, cli_every):
    rng = ctx.rng
    for k, p in enumerate(prints):
        if not p['doc']:
            continue
        v = k % 3 + 1
        s = listing.Stream.of_spec(rng, p['doc'], p['named'], p['tagnames'], p['sizes'][v - 1])
        version = listing.VERSIONS[v]
        qs = questions(p)
        for j, (q, w) in enumerate(qs):
            c.expect('api-' + q['k'], lambda: listing.api(s, version, q, k + j), w, dict(doc=p['doc'], q=q))
        if k % cli_every == 0:
            q, w = qs[(k // cli_every) % len(qs)]
            if k // cli_every % 2:
                argv = ['-V', '.'.join(map(str, version))] if v > 1 or k % 2 else []
                stdin = s.data
            else:
                argv, stdin = [c.file(s if k % 4 else listing.Stream([]), [s], v), 'BodyText/Section0' if k % 8 else 'bodytext/0'], b''
            c.expect('models-' + q['k'], lambda: listing.models(s, argv, stdin, q, k // cli_every // 2), w, dict(doc=p['doc'], q=q, argv=argv))
        if k % cli_every == 1 % cli_every:
            ss = searches(p)
            for j in range(2):
                n = rng.randrange(12)
                q, w = ss[rng.randrange(len(ss))]
                if k % 2:
                    path = c.file(s, [], v)
                    files = [(path, [('DocInfo', s)])]
                    at = 1
                else:
                    path = c.file(listing.Stream([]), [s], v)
                    files = [(path, [('DocInfo', listing.Stream([])), ('BodyText/Section0', s)])]
                    at = 2
                want = dict([('is', [[1, at, i] for i in w['is']]), ('failed', w['failed'])])
                c.expect('find', lambda: listing.find(files, q, n), want, dict(doc=p['doc'], q=q, n=n))


# ------------------------------------------------------------ recorded runs
def random_stream(rng, n, odd, cut):
    out = []
    lv = 0
    for i in range(n):
        lv = 0 if not out else rng.choice([0, lv, lv, lv + 1, max(0, lv - rng.randrange(3))])
        k = rng.choice('PPTTGHXLLLLBBSKU')
        out.append(dict(lv=lv, k=k, fill='extra' if rng.random() < odd else 'full'))
    if out and rng.random() < cut:
        x = rng.choice(out)
        if x['k'] != 'U':
            x['fill'] = 'cut'
    return out


def query(rng, docs_, names):
    k = rng.choice(['all', 'tree', 'nth', 'names', 'events', 'find', 'find', 'find'])
    f = rng.randrange(len(docs_))
    s = rng.randrange(len(docs_[f]))
    q = dict(k=k, f=f + 1, s=s + 1, a=0, model='', tag=0, incomplete=False, how='')
    n = len(docs_[f][s])
    if k in ('tree', 'nth'):
        q['a'] = rng.choice([rng.randrange(n + 2), rng.randrange(min(n, 5) + 1)])
    if k == 'find':
        which = rng.randrange(4)
        if which == 0:
            q['model'] = rng.choice(sorted(names) + ['Nothing', 'ListHeader', 'Control', 'RecordModel'])
        elif which == 1:
            t, name = rng.choice(sorted(set(names.values())) + [(17, 'HWPTAG_ID_MAPPINGS'), (501, 'HWPTAG485'), (66, 'HWPTAG_PARA_HEADER')])
            q['tag'], q['tagname'] = t, name
        q['incomplete'] = rng.random() < .5
    return q


def ask(c, files, q, version, n):
    """-> (way, outcome)"""
    path, ss = files[q['f'] - 1]
    name, s = ss[q['s'] - 1]
    if q['k'] == 'find':
        return 'find', guarded(lambda: listing.find(files, q, n), 60)
    if q['k'] == 'names':
        def names():
            st = s.open(version)
            return listing.collect(st.models(), lambda m: s.model(m) and m['type'].__name__)
        return 'names', guarded(names)
    if n % 2:
        return 'api-' + q['k'], guarded(lambda: listing.api(s, version, q, n // 2))
    if n % 4:
        argv, stdin = ['-V', '.'.join(map(str, version))], s.data
    else:
        argv, stdin = [path, name], b''
    return 'models-' + q['k'], guarded(lambda: listing.models(s, argv, stdin, q, n // 4))


def record(ctx, c, id, ds, files, version, names, m):
    rng = ctx.rng
    run = dict(id=id, docs=ds, qs=[])
    for j in range(m):
        q = query(rng, ds, names)
        q['how'], o = ask(c, files, q, version, rng.randrange(48))
        if o[0] != 'ok':
            ctx.violation('%s-fails' % q['how'], '%s: %s: %s: %s' % (id, q['how'], q, harness.abbrev(o[1:])), ds if len(str(ds)) < 20000 else None)
            continue
        q['is'], q['failed'] = o[1]
        run['qs'].append(q)
    return run


def validate(ctx, c):
    rng = ctx.rng
    runs = []
    plans = []
    for k in range(ctx.pick(60, 500)):
        v = rng.choice([1, 2, 3])
        odd, cut = rng.choice([0, .1, .4]), rng.choice([0, .2, .6])
        ds = [[random_stream(rng, rng.choice([0, 1, 3, 10, 40]), odd, cut) for s in range(rng.choice([1, 2, 3, 4]))] for f in range(rng.choice([1, 2, 3]))]
        plans.append((v, ds))
    # what each record is, by the specification
    named = ctx.tlc('ListingNames', data=[ds for v, ds in plans], invariants=['Emit'], timeout=600).prints
    named = dict((p['run'], p['docs']) for p in named)
    if sorted(named) != list(range(1, len(plans) + 1)):
        raise harness.CheckError('names of %d of %d' % (len(named), len(plans)))
    for k, (v, ds) in enumerate(plans):
        files = []
        names = {}
        for f, d in enumerate(ds):
            ss = []
            for s, recs in enumerate(d):
                x = named[k + 1][f][s]
                st = listing.Stream.of_spec(rng, recs, x['named'], x['tagnames'], x['sizes'][v - 1])
                for i, n in enumerate(x['named']):
                    names[n['name']] = (n['tag'], x['tagnames'][i])
                ss.append(('BodyText/Section%d' % (s - 1) if s else 'DocInfo', st))
            c.n += 1
            files.append((c.file(ss[0][1], [st for name, st in ss[1:]], v, 'r%d.hwp' % f), ss))
        runs.append(record(ctx, c, 'random %d' % k, [[x['named'] for x in f] for f in named[k + 1]], files, listing.VERSIONS[v], names, 14))
    runs += fixtures(ctx, c)
    for a in range(0, len(runs), 60):
        t = ctx.tlc('ListingTrace', data=runs[a:a + 60], timeout=800)
        for p in t.prints:
            r = [r for r in runs if r['id'] == p['id']][0]
            q = r['qs'][p['line'] - 1]
            ctx.violation('trace-' + p['how'], '%s: %s: got %s, not %s' % (p['id'], harness.abbrev(q), harness.abbrev(q['is']), harness.abbrev(p['want'])), q)
    ctx.validated += sum(len(r['qs']) for r in runs)
    ctx.log('%d answers validated' % sum(len(r['qs']) for r in runs))


def fixtures(ctx, c):
    """sample documents: selections of the list as it is read"""
    from hwp5.binmodel import Hwp5File
    out = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        path = os.path.join(harness.FIXTURES, name)
        o = guarded(lambda: Hwp5File(path))
        if not name.endswith('.hwp') or o[0] != 'ok' or o[1].header.flags.password or o[1].header.flags.distributable:
            continue
        h = o[1]
        streams = [('DocInfo', h.docinfo)] + [('BodyText/' + s, h.bodytext[s]) for s in sorted(h.bodytext, key=lambda s: int(s[7:]))]
        ss, ds, names = [], [], {}
        total = 0
        for sname, st in streams:
            o = guarded(lambda: (st.open().read(), list(st.models())), 60)
            if o[0] != 'ok':
                ss = None
                break
            data, ms = o[1]
            table, rest = docs.parse_recs(data)
            total += len(table)
            if len(table) != len(ms) or rest != len(data):
                ctx.violation('fixture-all', '%s: %s: %d models of %d records' % (name, sname, len(ms), len(table)))
                ss = None
                break
            recs = []
            for (off, hl, tag, lv, size), m in zip(table, ms):
                recs.append((lv, tag, data[off + hl:off + hl + size], m['type'].__name__, m['tagname'], bytes(m.get('unparsed', b''))))
                names[m['type'].__name__] = (tag, m['tagname'])
            ss.append((sname, listing.Stream(recs)))
            ds.append([dict(lv=r[0], tag=r[1], name=r[3], fill='extra' if r[5] else 'full') for r in recs])
        version = h.header.version
        h.close()
        if not ss or total > ctx.pick(600, 4000):
            continue
        out.append(record(ctx, c, name, [ds], [(path, ss)], version, names, ctx.pick(8, 25)))
    return out


def run(ctx):
    c = Checker(ctx)
    some = '{"P", "T", "L", "B", "U"}'
    every = '{"P", "T", "G", "H", "X", "L", "B", "S", "K", "U"}'
    plans = ([(every, 2, 2), (some, 3, 1), ('{"T", "L", "B"}', 4, 1)] if not ctx.thorough else
             [(every, 3, 1), (some, 4, 1), ('{"T", "L", "B"}', 5, 1), ('{"P", "T", "L"}', 4, 2)])
    for kinds, n, odd in plans:
        t = ctx.tlc('Listing', dict(Kinds=kinds, MaxRecs=n, MaxLv=2, MaxOdd=odd), invariants=INVARIANTS)
        prints = sorted(t.prints, key=lambda p: (len(p['doc']), repr(p['doc'])))
        if not prints:
            raise harness.CheckError('no streams')
        most = ctx.pick(6000, 40000)
        if len(prints) > most:
            ctx.rng.shuffle(prints)
            prints = prints[:most]
        for p in prints[-2:]:
            ctx.sample(dict(doc=p['doc'], all=p['all']))
        replay(ctx, c, prints, ctx.pick(4, 3))
        ctx.log('%d streams of %s replayed' % (len(prints), kinds))
    validate(ctx, c)
    ctx.assumptions += ['listings name the models of ten kinds of records whose layouts are C08\'s; the rest by the sample documents',
                        'a listing of a stream whose levels jump is C03\'s, of one that ends in a record C02\'s']
