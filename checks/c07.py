# -*- coding: utf-8 -*-
"""C07: payloads are parsed field by field at exact offsets, leftovers kept"""
import io
import itertools
import json
import os
import struct

from lib import docs, harness
from lib.harness import guarded

INV = 'Contiguous Once CutInOne Gated Balanced Emit'.split()
NAMES = 'nabc'
TAG = 1000


class Types(object):
    """declarations of the specification as types of the code (one class per declaration,
    so that reading under several versions meets the same class again)"""

    def __init__(self, D):
        self.D = D
        self.cache = {}
        self.n = 0
        self.mode = D.Flags(D.UINT16, 0, 1, 'mode', 2, 9, 'mid', 10, 15, 'rest')
        self.mode4 = D.Flags(D.UINT32, 0, 'low', 1, 30, 'mid', 31, 'top')

    def ctl_of(self, f):
        D = self.D
        return D.ref_member_flag('n', 'mode') if f['t']['k'] == 'flags' else D.ref_member('n')

    def type(self, t, ctl, salt=0):
        D = self.D
        k = t['k']
        if k == 'u':
            return {1: (D.UINT8, D.INT8, D.BYTE), 2: (D.UINT16, D.INT16, D.WORD), 4: (D.UINT32, D.INT32, D.HWPUNIT)}[t['n']][salt % 3]
        if k == 'flags':
            return self.mode if t['n'] == 2 else self.mode4
        if k == 'str':
            return D.BSTR
        if k == 'arr':
            return D.ARRAY(self.type(t['t'], ctl, salt), t['n'])
        if k == 'narr':
            return D.N_ARRAY({1: D.UINT8, 2: D.UINT16}[t['n']], self.type(t['t'], ctl, salt))
        if k == 'xarr':
            return D.X_ARRAY(self.type(t['t'], ctl, salt), ctl)
        if k == 'sel':
            return D.SelectiveType(ctl, dict((a['when'], self.type(a['t'], ctl, salt)) for a in t['alts']))
        return self.struct(t['fs'])

    def struct(self, fs, base=None, attrs=None):
        key = (json.dumps(fs, sort_keys=True), base)
        if key not in self.cache:
            self.cache[key] = self.make(fs, base, attrs)
        return self.cache[key]

    def make(self, fs, base, attrs):
        D = self.D
        ctl = self.ctl_of(fs[0])

        def ctl_is(v):
            def fn(context, values):
                return ctl(context, values) == v
            return fn
        members = []
        for i, f in enumerate(fs):
            m = dict(type=self.type(f['t'], ctl, 0 if i == 0 else i), name=NAMES[i])
            if f['ver']:
                m['version'] = (5, 0, f['ver'], 3)
            if f['cond'] != 9:
                m['condition'] = ctl_is(f['cond'])
            members.append(m if len(m) > 2 else (m['type'], m['name']))

        def attributes():
            for m in members:
                yield m
        self.n += 1
        d = dict(attributes=staticmethod(attributes))
        d.update(attrs or {})
        base = base or D.Struct
        return type(base)('Decl%d' % self.n, (base,), d)


def versions(v):
    """document versions that behave as version v of the specification"""
    return {0: [None], 1: [(5, 0, 1, 3), (5, 0, 2, 2), (3, 9, 9, 9)], 2: [(5, 0, 2, 3), (5, 0, 3, 2)],
            3: [(5, 0, 3, 3), (5, 0, 4, 0), (6, 0, 0, 0), (5, 1, 0, 0)]}[v]


def fill(b, rng, T, decl):
    """-> payload, value tree, leaf values"""
    payload = b''
    leaves = []
    root = {}
    stack = []

    def put(path, v):
        if not stack:
            return
        kind, c = stack[-1]
        if isinstance(c, dict):
            c[path[-1]] = v
        else:
            c.append(v)
    ftype = dict(zip(NAMES, decl))
    for e in b['log']:
        k = e['k']
        if e['e'] == 'open':
            c = {} if k == 'struct' else []
            put(e['path'], c)
            stack.append((k, c))
            if len(stack) == 1:
                root = c
        elif e['e'] == 'close':
            kind, c = stack.pop()
            if kind == 'arr' and stack:
                # a fixed array is handed out as a tuple
                kind2, c2 = stack[-1]
                if isinstance(c2, dict):
                    c2[e['path'][-1]] = tuple(c)
                else:
                    c2[-1] = tuple(c)
        else:
            n = e['size']
            if k == 'count':
                d = v = e['val']
                d = struct.pack({1: '<B', 2: '<H'}[n], v)
            elif k == 'str':
                v = u''.join(rng.choice(u'a\uac00\x01\ue000Z\u3000\u0000') for _ in range(e['val']))
                if e['val'] == 2 and rng.random() < .3:
                    v = u'\U00020000'
                d = struct.pack('<H', e['val']) + v.encode('utf-16le')
            elif k == 'flags':
                x = rng.getrandbits(8 * n)
                if e['val'] >= 0:
                    x = x & ~3 | e['val']
                d = struct.pack({2: '<H', 4: '<I'}[n], x)
                v = x
            else:
                x = e['val'] if e['val'] >= 0 else rng.choice([0, 1, (1 << 8 * n) - 1, 1 << (8 * n - 1), rng.getrandbits(8 * n)])
                d = struct.pack({1: '<B', 2: '<H', 4: '<I'}[n], x)
                v = x
                e['signed'] = 'maybe'
            payload += d
            leaves.append([e['off'], e, v])
            if k != 'count':
                put(e['path'], v)
    return payload, root, leaves


def canon(v, want):
    """the signedness of a plain integer type is the harness's own choice (Types.type)"""
    if isinstance(want, dict):
        return isinstance(v, dict) and set(v) == set(want) and all(canon(v[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return type(v) is type(want) and len(v) == len(want) and all(canon(a, b) for a, b in zip(v, want))
    if isinstance(want, int):
        return isinstance(v, int) and v in (want, want - (1 << 8), want - (1 << 16), want - (1 << 32)) and (v == want or v < 0)
    return v == want


def flagcheck(v):
    if not isinstance(v, int) or not (hasattr(v, 'top') or hasattr(v, 'mode')):
        return False
    n = int(v)
    if hasattr(v, 'top'):
        return (v.low, v.mid, v.top) == (n & 1, n >> 1 & 0x3fffffff, n >> 31)
    return (v.mode, v.mid, v.rest) == (n & 3, n >> 2 & 0xff, n >> 10 & 0x3f)


def leafname(path):
    return path[-1]


class Replay(object):

    def __init__(self, ctx):
        from hwp5 import bintype, dataio, binmodel, treeop
        self.ctx = ctx
        self.BT, self.D, self.B, self.T = bintype, dataio, binmodel, treeop
        self.types = Types(dataio)
        self.rtypes = Types(dataio)
        self.rng = ctx.rng
        self.k = 0

    def leaves_of(self, events):
        return [(i.get('bin_offset'), i.get('name'), i.get('value')) for ev, i in events if ev is None]

    def one(self, b, cuts):
        ctx, BT, D = self.ctx, self.BT, self.D
        self.k += 1
        cls = self.types.struct(b['decl'])
        vs = versions(b['ver'])
        v = vs[self.k % len(vs)]
        context = dict() if v is None else dict(version=v)
        payload, tree, leaves = fill(b, self.rng, self.types, b['decl'])
        desc = 'declaration %s, version %s, payload %s' % (brief(b['decl']), v, payload.hex())

        def bad(key, text):
            ctx.violation(key, '%s: %s' % (desc, text), dict(behaviour=b, payload=payload.hex(), version=v))
        if len(payload) != b['total']:
            raise harness.CheckError('payload of %d bytes for %s' % (len(payload), b))
        extra = self.rng.choice([b'', b'\x00', b'rest of it'])
        stream = io.BytesIO(payload + extra)
        events = []
        o = guarded(lambda: BT.read_type(cls, context, stream, events))
        if o[0] != 'ok':
            return bad('value-raises', 'reading raises %s' % (o[1:],))
        if not canon(o[1], tree):
            bad('value', 'reads as %s, laid out were %s' % (harness.abbrev(o[1]), harness.abbrev(tree)))
        if stream.tell() != len(payload):
            bad('consumed', '%d bytes are consumed, laid out were %d' % (stream.tell(), len(payload)))
        got = self.leaves_of(events)
        want = [(off, None if leafname(e['path']) == '#' or isinstance(e['path'][-1], int) or e['path'][-1].isdigit() else e['path'][-1])
                for off, e, v_ in leaves]
        if [(g[0], g[1]) for g in got] != want:
            bad('events', 'the parse events are %s, laid out were %s' % ([(g[0], g[1]) for g in got], want))
        elif not all(canon(g[2], l[2]) for g, l in zip(got, leaves)):
            bad('event-values', 'the parse events have the values %s, laid out were %s' % ([g[2] for g in got], [l[2] for l in leaves]))
        for g, l in zip(got, leaves):
            if l[1]['k'] == 'flags' and o[0] == 'ok' and not flagcheck(g[2]):
                bad('flags', 'bit groups of %x are wrong' % g[2])
        # every cut: the error names the field that the payload ends in
        cs = range(len(payload))
        if cuts is not None and len(payload) > cuts:
            cs = sorted(self.rng.sample(cs, cuts))
        for c in cs:
            events = []
            o = guarded(lambda: BT.read_type(cls, context, io.BytesIO(payload[:c]), events))
            self.cut(o, events, b, leaves, c, bad)
        ctx.replayed += 1

    def cut(self, o, events, b, leaves, c, bad, err=None):
        fails = b['fails'][c]
        off, e, _ = leaves[fails - 1]
        if o[0] != 'raise' or o[1] != 'ParseError':
            return bad('cut', 'cut to %d bytes, reading gives %s instead of a parse error' % (c, harness.abbrev(o)))
        x = None
        if events:
            got = [(i.get('bin_offset'), i.get('name')) for ev, i in events
                   if ev is None or ev not in (self.T.STARTEVENT, self.T.ENDEVENT)]
            name = e['path'][-1]
            name = None if name == '#' or name.isdigit() else name
            if len(got) != fails or got[-1] != (off, name):
                bad('cut-events', 'cut to %d bytes, the error names %s after %d fields, the payload ends in %s at %d'
                    % (c, got[-1:], len(got) - 1, '.'.join(e['path']), off))

    # ------------------------------------------------------------ records
    def record(self, b, cuts):
        """the same declaration as a record type, through the model stream"""
        ctx, B, D = self.ctx, self.B, self.D
        self.k += 1
        vs = versions(b['ver'])
        v = vs[self.k % len(vs)]
        if v is None:
            return
        payload, tree, leaves = fill(b, self.rng, self.rtypes, b['decl'])
        cls = self.rtypes.struct(b['decl'], B.RecordModel)
        extra = self.rng.choice([b'', b'\x00', b'rest of it'])
        desc = 'record type %s, version %s, payload %s + %s' % (brief(b['decl']), v, payload.hex(), extra.hex())

        def bad(key, text):
            ctx.violation(key, '%s: %s' % (desc, text), dict(behaviour=b, payload=payload.hex(), version=v))
        before = self.rng.randrange(3)
        stream = lambda p: B.ModelStream(docs.MemStream(docs.recs([(TAG + 1, 0, b'xyz')] * before + [(TAG, 0, p)])), v)
        B.tag_models[TAG] = cls
        try:
            o = guarded(lambda: list(stream(payload + extra).models()))
            if o[0] != 'ok':
                return bad('model-raises', 'models raise %s' % (o[1:],))
            m = o[1][-1]
            if not canon(m['content'], tree):
                bad('model-value', 'the model reads %s, laid out were %s' % (harness.abbrev(m['content']), harness.abbrev(tree)))
            if m.get('unparsed', b'') != extra:
                bad('unparsed', 'the rest %r is reported as %r' % (extra, m.get('unparsed')))
            if [x.get('unparsed') for x in o[1][:-1]] != [b'xyz'] * before:
                bad('unparsed', 'records of unknown type: %s' % [x.get('unparsed') for x in o[1][:-1]])
            o = guarded(lambda: list(stream(payload + extra).parse_model_events()))
            if o[0] != 'ok':
                return bad('model-events-raise', 'model events raise %s' % (o[1:],))
            ends = [i for ev, i in o[1] if ev is self.T.ENDEVENT and i['type'] is B.RecordModel]
            if not canon(ends[-1]['value']['value'], tree):
                bad('model-event-value', 'the model events give %s, laid out were %s' % (harness.abbrev(ends[-1]['value'].get('value')), harness.abbrev(tree)))
            if ends[-1]['leftover'] != dict(offset=len(payload), bytes=extra):
                bad('leftover', 'the rest %r at %d is reported as %s' % (extra, len(payload), ends[-1]['leftover']))
            got = [(i.get('bin_offset')) for ev, i in o[1] if ev is None]
            if got != [l[0] for l in leaves]:
                bad('model-events', 'fields at %s, laid out at %s' % (got, [l[0] for l in leaves]))
            cs = range(len(payload))
            for c in sorted(self.rng.sample(cs, min(cuts, len(cs)))):
                for what in ('models', 'events'):
                    err = []

                    def go():
                        s = stream(payload[:c])
                        try:
                            for x in (s.models(path='Some/Path') if what == 'models' else s.parse_model_events()):
                                pass
                        except D.ParseError as e:
                            err.append(e)
                            raise
                    o = guarded(go)
                    if not err:
                        bad('cut-%s' % what, 'cut to %d bytes, %s give %s instead of a parse error' % (c, what, o))
                        continue
                    e = err[0]
                    off, leaf, _ = leaves[b['fails'][c] - 1]
                    if e.offset != off:
                        bad('cut-offset', 'cut to %d bytes, the error of the %s is at %s, the field %s starts at %d'
                            % (c, what, e.offset, '.'.join(leaf['path']), off))
                    if not e.record or e.record['seqno'] != before or e.record['payload'] != payload[:c]:
                        bad('cut-record', 'the error of the %s names record %s' % (what, e.record and e.record['seqno']))
                    if e.treegroup != before:
                        bad('cut-treegroup', 'the error of the %s names tree %s, not %d' % (what, e.treegroup, before))
                    if what == 'models' and e.path != 'Some/Path':
                        bad('cut-path', 'the error names path %r' % (e.path,))
                    self.cut(('raise', 'ParseError'), e.binevents or [('none', {})], b, leaves, c, bad)
        finally:
            B.tag_models.pop(TAG, None)
        ctx.replayed += 1


def brief(fs):
    def t(x):
        k = x['k']
        if k in ('u', 'flags'):
            return '%s%d' % (k, x['n'])
        if k == 'struct':
            return '{%s}' % brief(x['fs'])
        if k == 'sel':
            return 'sel{%s}' % ','.join('%d:%s' % (a['when'], t(a['t'])) for a in x['alts'])
        if k == 'str':
            return k
        return '%s%s<%s>' % (k, x.get('n', ''), t(x['t']))
    return ' '.join('%s:%s%s%s' % (NAMES[i], t(f['t']), '@%d' % f['ver'] if f['ver'] else '', '?%d' % f['cond'] if f['cond'] != 9 else '')
                    for i, f in enumerate(fs))


def huge(ctx, R):
    """declared counts far beyond what is there"""
    D, BT = R.D, R.BT
    item = R.types.struct([dict(t=dict(k='u', n=1), ver=0, cond=9), dict(t=dict(k='u', n=2), ver=0, cond=9)])
    for name, t, count in (('N_ARRAY', D.N_ARRAY(D.UINT32, D.UINT16), 4), ('N_ARRAY of struct', D.N_ARRAY(D.UINT32, item), 4)):
        for c in (1, 5, 0x7fffffff, 0xffffffff):
            S = type(D.Struct)('Huge', (D.Struct,), dict(attributes=staticmethod(lambda: iter([(t, 'a')]))))
            o = guarded(lambda: BT.read_type(S, dict(version=(5, 0, 0, 0)), io.BytesIO(struct.pack('<I', c) + b'\1\2')), 20)
            if (o[0] == 'raise') != (o[0] == 'raise' and o[1] == 'ParseError') or o[0] == 'hang' or \
                    (o[0] == 'ok' and not (c == 1 and name == 'N_ARRAY')):
                ctx.violation('huge-count', '%s with a declared count of %d and 2 bytes: %s' % (name, c, o))
            ctx.replayed += 1


def fixtures(ctx, R):
    import hwp5.xmlmodel
    runs = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        o = guarded(lambda: hwp5.xmlmodel.Hwp5File(os.path.join(harness.FIXTURES, name)))
        if o[0] != 'ok':
            continue
        h = o[1]
        streams = [('DocInfo', h.docinfo)] + [('Section%d' % i, h.text.section(i)) for i in h.text.section_indexes()]
        for sname, s in streams:
            o = guarded(lambda: list(s.models()), 60)
            if o[0] != 'ok':
                continue
            models = o[1]
            ctx.count('fixture_records', len(models))
            pick = set(ctx.rng.sample(range(len(models)), min(len(models), ctx.pick(60, 2000))))
            o = guarded(lambda: list(s.parse_model_events()), 120)
            if o[0] != 'ok':
                ctx.violation('fixture-events', '%s %s: model events: %s' % (name, sname, o[1:]))
                continue
            per = []
            for ev, i in o[1]:
                if i['type'] is R.B.RecordModel:
                    if ev is R.T.STARTEVENT:
                        cur = []
                    else:
                        per.append((i, cur))
                    continue
                cur.append((ev, i))
            if len(per) != len(models):
                ctx.violation('fixture-views', '%s %s: %d records as events, %d as models' % (name, sname, len(per), len(models)))
                continue
            for n in sorted(pick):
                run = as_run('%s %s record %d' % (name, sname, n), h.fileheader.version, per[n], models[n], R)
                if run:
                    runs.append(run)
        h.close()
    return runs


def as_run(id, doc, per, model, R):
    end, events = per
    leaves = []
    arrays = []
    stack = []
    for ev, i in events:
        if ev is None:
            t = i.get('bin_type', i['type'])
            size = getattr(t, 'fixed_size', None)
            v = i.get('value')
            if size is None:
                if isinstance(v, str):
                    size = 2 + len(v.encode('utf-16le', 'surrogatepass'))
                else:
                    return None
            leaves.append(dict(off=i['bin_offset'], size=size, ver=list(i.get('version') or [])))
            if stack and stack[-1][1] and not i.get('dontcollect'):
                stack[-1][0]['got'] += 1
        elif ev is R.T.STARTEVENT:
            if stack and stack[-1][1]:
                stack[-1][0]['got'] += 1
            a = dict(decl=i['count'], got=0) if isinstance(i.get('value'), list) and 'count' in i else None
            stack.append((a, a is not None))
            if a:
                arrays.append(a)
        else:
            stack.pop()
    left = end['leftover']
    # a value and its content agree whichever view they come from
    same = end['model']['content'] == model['content'] and left['bytes'] == model.get('unparsed', b'') \
        and end['model']['type'] is model['type']
    return dict(id=id, size=len(model['payload']), doc=list(doc), leaves=leaves, arrays=arrays,
                left=dict(off=left['offset'], len=len(left['bytes'])), same=same)


def run(ctx):
    R = Replay(ctx)
    small = dict(Versions={0, 1, 2, 3}, CtlValues={0, 1, 2}, Counts={0, 2}, StrLens={0, 2})
    r = ctx.tlc('FieldLayout', dict(small, ControlKinds='{"u", "flags"}', TypesA=set(range(1, 18)), TypesB=ctx.pick({1, 8}, {1, 5, 8, 9}),
                                    GatesA={1, 2, 3, 4}, GatesB=ctx.pick({1, 2}, {1, 2, 3})), INV)
    prints = r.prints
    ctx.log('TLC: %d layouts' % len(prints))
    r = ctx.tlc('FieldLayout', dict(small, Versions={0, 2, 3}, ControlKinds='{"u"}', TypesA={4, 8, 9, 11, 15}, TypesB=set(range(1, 18)),
                                    GatesA={2, 3}, GatesB=ctx.pick({3}, {1, 3})), INV)
    ctx.log('TLC: %d layouts' % len(r.prints))
    prints = prints + r.prints
    # versions of one declaration interleave, so that what was compiled for one cannot serve another
    ctx.rng.shuffle(prints)
    if not ctx.thorough:
        prints = prints[:14000]
    for k, b in enumerate(prints):
        R.one(b, ctx.pick(3, None))
        if k % ctx.pick(9, 4) == 0:
            R.record(b, 2)
        if len(ctx.violations) > 200:
            break
    ctx.sample(dict(kind='layout', declaration=brief(b['decl']), version=b['ver'], offsets=[e['off'] for e in b['log'] if e['e'] == 'leaf']))
    huge(ctx, R)
    ctx.log('replayed')
    runs = fixtures(ctx, R)
    t = ctx.tlc('FieldTrace', invariants=['Emit'], data=runs)
    byid = dict((x['id'], x) for x in runs)
    for p in t.prints:
        ctx.violation('trace-%s' % p['bad'][0], '%s: %s: %s' % (p['id'], p['bad'], harness.abbrev(byid[p['id']])), byid[p['id']])
    ctx.validated += len(runs)
    ctx.sample(dict(kind='record', **runs[len(runs) // 2]))
