# -*- coding: utf-8 -*-
"""C17: property sets decode every property at its declared place"""
import datetime
import io
import os
import struct
import uuid
import xml.etree.ElementTree as ET

from lib import cli, docs, harness
from lib.harness import guarded

HWP = uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c')
OTHER = uuid.UUID('cdd5d502-2e9c-101b-9397-08002b2cf9ae')
KNOWN = {3: 'VT_I4', 31: 'VT_LPWSTR', 64: 'VT_FILETIME'}
ACCESSORS = [('title', 2, 'Title'), ('subject', 3, 'Subject'), ('author', 4, 'Author'), ('keywords', 5, 'Keywords'), ('comments', 6, 'Comments'), ('lastSavedBy', 8, 'Last saved by'),
             ('revisionNumber', 9, 'Revision Number'), ('lastPrintedTime', 11, 'Last Printed at'), ('createdTime', 12, 'Created at'), ('lastSavedTime', 13, 'Last saved at'),
             ('numberOfPages', 14, 'Number of pages'), ('dateString', 20, 'Date'), ('numberOfParagraphs', 21, 'Number of paragraphs')]


def pair(n):
    return [n >> 16, n & 0xffff]


def u32(p):
    return p[0] << 16 | p[1]


def units(s):
    b = s.encode('utf-16-le', 'surrogatepass')
    return list(struct.unpack('<%dH' % (len(b) // 2), b))


def text(us):
    return struct.pack('<%dH' % len(us), *us).decode('utf-16-le', 'surrogatepass')


def value(t, v):
    """value as the code hands it out -> numbers of the model"""
    if t == 3:
        return pair(int(v) & 0xffffffff) if isinstance(v, int) and -2 ** 31 <= v < 2 ** 31 else ['?', repr(v)]
    if t == 31:
        return units(v) if isinstance(v, str) else ['?', repr(v)]
    if t == 64:
        n = getattr(v, 'value', None)
        return [n >> 16 * i & 0xffff for i in range(4)] if isinstance(n, int) and 0 <= n < 2 ** 64 else ['?', repr(v)]
    return [] if v is None else ['?', repr(v)]


def report(p):
    r = dict(id=pair(p.desc.id), offset=p.desc.offset, label=p.idLabel or '-', name=[ord(c) for c in (p.displayName or '')], entries=[])
    if p.desc.id == 0:
        r.update(t=-1, v=[], entries=[dict(id=pair(e.id), name=[ord(c) for c in e.name]) for e in p.value.entries])
    else:
        r.update(t=int(p.type.code), v=value(p.type.code, p.value))
    return r


def read(data):
    """-> list of lists of reports"""
    from hwp5.msoleprops import PropertySetFormat, PropertySetStreamReader
    from hwp5.summaryinfo import FMTID_HWP_SUMMARY_INFORMATION, HWP_PROPERTIES
    s = PropertySetStreamReader([PropertySetFormat(FMTID_HWP_SUMMARY_INFORMATION, HWP_PROPERTIES)]).read(io.BytesIO(data))
    return [[report(p) for p in ps.properties] for ps in s.propertysets]


def shown(t, v):
    """text of a value"""
    if t == 3:
        n = u32(v)
        return str(n - 2 ** 32 if n >= 2 ** 31 else n)
    if t == 31:
        return text(v)
    if t == 64:
        n = sum(x << 16 * i for i, x in enumerate(v))
        try:
            return str(datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=n // 10))
        except OverflowError:
            return None
    return None


class Info(object):
    """the summary information of a document in memory"""

    def __init__(self, data):
        from hwp5.xmlmodel import HwpSummaryInfo
        self.info = HwpSummaryInfo(docs.MemStorage({u'\x05HwpSummaryInformation': data})[u'\x05HwpSummaryInformation'], (5, 0, 3, 4))


def derived(ctx, data, sets):
    """accessors, text lines and XML of the stream against the reports of its sets; -> complaint"""
    info = Info(data).info
    props = dict((u32(r['id']), r) for r in sets[0])
    for attr, id, _ in ACCESSORS:
        r = props.get(id)
        v = getattr(info, attr)
        if r is None:
            if v is not None and v != '':
                return '%s of a stream without it: %r' % (attr, v)
        elif value(r['t'], v) != r['v']:
            return '%s is %r, not %r' % (attr, v, r['v'])
    # twice: the text form is a view, not a one-time thing
    for again in (0, 1):
        lines = list(info.plaintext_lines)
        want = []
        for k, rs in enumerate(sets):
            base = struct.unpack_from('<I', data, 28 + 20 * k + 16)[0]
            want.append(('Property Set %s' % uuid.UUID(bytes_le=data[28 + 20 * k:44 + 20 * k]), base, None))
            for r in sorted(rs, key=lambda r: r['offset']):
                names = [x for x in (''.join(map(chr, r['name'])), r['label'].replace('-', '')) if x]
                want.append((r, base + r['offset'], names))
                for e in r['entries']:
                    want.append((e, None, None))
        joined = '\n'.join(lines)
        pos = 0
        for w, off, names in want:
            if names is None and off is not None:
                keys = [w]
            elif off is None:
                keys = ['%d: %s' % (u32(w['id']), ''.join(map(chr, w['name'])))]
            else:
                v = shown(w['t'], w['v'])
                head = '{:08x}: %s(=0x{:08x}):'.format(off, u32(w['id']))
                tail = '' if v is None else ' ' + v
                # a property with two names is shown under one of them
                keys = [head % n + tail for n in names or ['']]
            at = [joined.find(key, pos) for key in keys]
            at = [(a, key) for a, key in zip(at, keys) if a >= 0]
            if not at:
                return 'the text form has no %r there: %r' % (keys, joined[pos:pos + 300])
            pos = at[0][0] + len(at[0][1])
    x = info.xmlevents()
    out = io.BytesIO()
    x.dump(out)
    try:
        root = ET.fromstring(out.getvalue())
    except ET.ParseError as e:
        return 'XML of the summary information: %s: %r' % (e, out.getvalue()[:300])
    xsets = root.findall('.//PropertySet')
    if len(xsets) != len(sets):
        return 'XML has %d property sets, not %d' % (len(xsets), len(sets))
    for xs, rs in zip(xsets, sets):
        ps = xs.findall('Property')
        rs = sorted(rs, key=lambda r: r['offset'])
        if len(ps) != len(rs):
            return 'XML has %d properties, not %d' % (len(ps), len(rs))
        for e, r in zip(ps, rs):
            if e.get('id') != str(u32(r['id'])) or e.get('id-label', '-') != r['label']:
                return 'XML property %r for %r' % (e.attrib, r)
            names = ''.join(map(chr, r['name']))
            if names and names not in e.attrib.values():
                return 'XML property %r has not the name %r' % (e.attrib, names)
            v = shown(r['t'], r['v'])
            if r['t'] in KNOWN and v is not None:
                kept = ''.join(c for c in v if c in '\t\n\r' or c >= ' ' and not '\ud800' <= c < '\ue000' and c not in '\ufffe\uffff')
                if e.get('value') != kept or e.get('type') != KNOWN[r['t']]:
                    return 'XML property %r has not the value %r' % (e.attrib, kept)
            got = [(d.get('id'), d.get('name')) for d in e.findall('DictionaryEntry')]
            if got != [(str(u32(d['id'])), ''.join(map(chr, d['name']))) for d in r['entries']]:
                return 'XML dictionary %r for %r' % (got, r['entries'])
    return None


def command(ctx, path, data, sets):
    """hwp5proc summaryinfo of a document with the stream"""
    with open(path, 'wb') as f:
        f.write(docs.write_ole(docs.doc_tree(docinfo=docs.recs([(17, 0, b'\0' * 64)]), sections=[docs.recs([(66, 0, b'\0' * 22)])],
                                             extra={u'\x05HwpSummaryInformation': data})))
    status, out, err, o = cli.run('hwp5proc', ['summaryinfo', path])
    if status != 0:
        return 'hwp5proc summaryinfo: status %r, %s %r' % (status, o[1:], err[-300:])
    props = dict((u32(r['id']), r) for r in sets[0])
    out = out.decode('utf-8', 'replace')
    pos = 0
    for attr, id, title in ACCESSORS:
        r = props.get(id)
        v = '' if r is None else shown(r['t'], r['v'])
        key = '%s: %s' % (title, v or '') + ('\n' if v is not None else '')
        at = out.find(key, pos)
        if at < 0:
            return 'hwp5proc summaryinfo has no %r: %r' % (key, out[pos:pos + 200])
        pos = at + len(key)
    return None


IDS = list(range(2, 22)) + [77, 78, 0x10002, 0x7fffffff, 0x80000000, 0x80000003, 0xffffffff]


def random_stream(rng, nsets=None):
    def value():
        t = rng.choice([3, 31, 64, 64, 31, rng.choice([0, 1, 2, 4, 5, 7, 8, 11, 0x14, 0x1e, 0x41, 0x47, 0x48, 0x100c, 0x101f])])
        if t == 3:
            b = struct.pack('<I', rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.getrandbits(32)]))
        elif t == 31:
            s = ''.join(rng.choice(['a', ' ', '\n', '\uac00', '\u3131', '\U0001f600', '\t', '0', '&<', '\x01', '\uffff', '\xad']) for _ in range(rng.choice([0, 1, 2, 5, 40, 400])))
            u = s.encode('utf-16-le')
            b = struct.pack('<I', len(u) // 2 + 1) + u + b'\0\0'
            if rng.random() < .1:
                b = b'\0' * 4
            b += b'\0' * (-len(b) % 4) if rng.random() < .7 else b''
        elif t == 64:
            b = struct.pack('<Q', rng.choice([0, 9, 10, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 0x01bb9892d68a8001, rng.randrange(10 ** 17, 2 * 10 ** 17), rng.getrandbits(64)]))
        else:
            b = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 4, 8, 20])))
        return struct.pack('<HH', t, rng.choice([0, 0, 0, 1, 0xffff])) + b

    def section():
        ids = rng.sample(IDS, rng.choice([0, 1, 3, 8, 14, 20]))
        things = [(i, value()) for i in ids]
        if rng.random() < .5:
            named = rng.sample(IDS, rng.randrange(8))
            d = struct.pack('<I', len(named))
            for i in named:
                name = ''.join(rng.choice('abcXYZ-_. ') for _ in range(rng.choice([0, 1, 4, 30]))).encode()
                d += struct.pack('<II', i, len(name) + 1) + name + b'\0'
            things.append((0, d))
        if rng.random() < .5:
            things.append((1, rng.choice([struct.pack('<IHH', 2, 1200, 0), struct.pack('<II', 3, 65001), struct.pack('<IHH', 2, 949, 0)])))
        rng.shuffle(things)
        order = things[:]
        rng.shuffle(order)
        start = 8 + 8 * len(things)
        at, body = {}, b''
        for i, b in order:
            body += bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 0, 2, 4, 16])))
            at[i] = start + len(body)
            body += b
        table = b''.join(struct.pack('<II', i, at[i]) for i, _ in things)
        return struct.pack('<II', start + len(body), len(things)) + table + body + b'\0' * rng.choice([0, 4])
    n = nsets or rng.choice([1, 1, 1, 2, 3])
    fmt = [HWP if rng.random() < .8 else OTHER for _ in range(n)]
    parts = [section() for _ in range(n)]
    order = list(range(n))
    rng.shuffle(order)
    at, body = {}, b''
    for k in order:
        body += b'\xee' * rng.choice([0, 0, 5])
        at[k] = 28 + 20 * n + len(body)
        body += parts[k]
    head = struct.pack('<HHI', 0xfffe, rng.choice([0, 1]), rng.getrandbits(32)) + HWP.bytes_le + struct.pack('<I', n)
    return head + b''.join(fmt[k].bytes_le + struct.pack('<I', at[k]) for k in range(n)) + body


def key(r):
    return (r['id'], r['offset'])


def run(ctx):
    inv = ['Faithful', 'Named', 'Whole', 'Disjoint', 'Emit']
    configs = [dict(Catalog='<-CatalogA', MaxProps=ctx.pick(2, 3), Dicts='<-DictA', Gaps='<-GapsA', Sets='<-OneSet'),
               dict(Catalog='<-CatalogB', MaxProps=2, Dicts='<-DictB', Gaps='<-GapsB', Sets='<-OneSet'),
               dict(Catalog='<-CatalogA', MaxProps=ctx.pick(1, 2), Dicts='<-DictA', Gaps='<-GapsB', Sets='<-TwoSets')]
    n = 0
    for c in configs:
        ps = ctx.tlc('PropSet', c, inv).prints
        for b in ps:
            data = bytes(b['bytes'])
            n += 1
            what = 'stream %s' % data.hex()
            o = guarded(lambda: read(data))
            if o[0] != 'ok':
                ctx.violation('read', '%s: %s' % (what, o[1:]), b)
                continue
            want = [sorted(s, key=key) for s in b['sets']]
            got = [sorted(s, key=key) for s in o[1]]
            if want != got:
                bad = [(w, g) for s, t in zip(want, got) for w, g in zip(s, t) if w != g] or [want, got]
                ctx.violation('decode', '%s: %s' % (what, bad[0]), b)
            elif n % ctx.pick(4, 1) == 0:
                o = guarded(lambda: derived(ctx, data, b['sets']))
                if o != ('ok', None):
                    ctx.violation('derived', '%s: %s' % (what, o[1:]), b)
                ctx.count('derived')
                if n % ctx.pick(160, 40) == 0:
                    o = guarded(lambda: command(ctx, ctx.path('d.hwp'), data, b['sets']), 60)
                    if o != ('ok', None):
                        ctx.violation('command', '%s: %s' % (what, o[1:]), b)
                    ctx.count('commands')
            ctx.replayed += 1
            if len(ctx.violations) > 50:
                return
    ctx.exhaustive = True
    ctx.sample(dict(kind='stream', bytes=data.hex(), sets=b['sets']))
    runs = []
    for i in range(ctx.pick(300, 4000)):
        runs.append(('random stream %d' % i, random_stream(ctx.rng)))
    for n in sorted(os.listdir(harness.FIXTURES)):
        path = os.path.join(harness.FIXTURES, n)
        if n.endswith('.hwp'):
            from hwp5.filestructure import Hwp5File

            def stream():
                h = Hwp5File(path)
                try:
                    return h['\x05HwpSummaryInformation'].open().read()
                finally:
                    h.close()
            o = guarded(stream)
            if o[0] == 'ok':
                runs.append((n, o[1]))
    recs = []
    for id, data in runs:
        o = guarded(lambda: read(data))
        if o[0] != 'ok':
            ctx.violation('read', '%s: %s' % (id, o[1:]), data.hex())
            continue
        recs.append(dict(id=id, bytes=list(data), sets=o[1]))
        o = guarded(lambda: derived(ctx, data, o[1]))
        if o != ('ok', None):
            ctx.violation('derived', '%s: %s' % (id, o[1:]), data.hex())
        ctx.count('derived')
    t = ctx.tlc('PropSetTrace', invariants=['Check'], data=recs, timeout=600)
    for p in t.prints:
        r = recs[p['rec'] - 1]
        ctx.violation('trace-%s' % p['verdict'], '%s: set %d: %s: %s' % (r['id'], p['set'], p['verdict'], harness.abbrev(p.get('missing'))), dict(p, bytes=bytes(r['bytes']).hex()))
    ctx.validated += len(recs)
    # histories: streams read through one reader and one handle each, in any order, give the same
    ctx.sample(dict(kind='random stream', id=recs[0]['id'], sets=recs[0]['sets'][0][:3]))
