# -*- coding: utf-8 -*-
"""C15: the XML written round-trips and is always parseable"""
import io
import json
import os
import re
import struct
import xml.parsers.expat

from lib import cli, convert, docs, harness
from lib.harness import guarded
from checks import c05, c08

PUA = {0xF046: 0x261E, 0xF06C: 0x25CF, 0xF09F: 0x2022, 0xF0A1: 0x25CB, 0xF06E: 0x25A0, 0xF0A7: 0x25AA, 0xF06F: 0x2610, 0xF075: 0x25C6,
       0xF077: 0x2B29, 0xF076: 0x2756, 0xF0A4: 0x25C9, 0xF0AB: 0x2605, 0xF0FC: 0x2713, 0xF0FE: 0x2611}
NASTY = u'a<>&"\'\t\n\r\0\x01\x1f\x7f\x85\ufffe\uffff\ufffd\uac00\ue000]Z\u2028 '


def legal(c):
    return c in (9, 10, 13) or 32 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd or 0x10000 <= c <= 0x10ffff


def keep(s):
    return u''.join(c for c in s if legal(ord(c)))


def parse(data):
    """bytes -> events, with the text of each place joined; by libxml2"""
    from lxml import etree
    out = []

    class Target(object):
        def start(self, tag, attrib):
            out.append(('<', tag, dict(attrib)))

        def end(self, tag):
            out.append(('>', tag))

        def data(self, text):
            if out and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + text)
            else:
                out.append(('t', text))

        def comment(self, text):
            out.append(('comment', text))

        def pi(self, target, data=None):
            out.append(('pi', target))

        def close(self):
            return None
    p = etree.XMLParser(target=Target(), huge_tree=True)
    p.feed(data)
    p.close()
    return out


def expat(source):
    """events by another parser"""
    out = []
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.StartElementHandler = lambda n, a: out.append(('<', n, a))
    p.EndElementHandler = lambda n: out.append(('>', n))

    def data(t):
        if out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + t)
        else:
            out.append(('t', t))
    p.CharacterDataHandler = data
    p.Parse(source, True)
    return out


def flatten(events):
    """the events the code says it writes -> the form of parse()"""
    out = []
    from hwp5.treeop import STARTEVENT, ENDEVENT
    for e, x in events:
        if e is STARTEVENT:
            out.append(('<', x[0], dict((k, keep(v)) for k, v in x[1].items())))
        elif e is ENDEVENT:
            out.append(('>', x))
        else:
            t = keep(x)
            if t and out and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + t)
            elif t:
                out.append(('t', t))
    return out


def differs(got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            if g[0] == w[0] == '<' and g[1] == w[1]:
                ks = sorted(k for k in set(g[2]) | set(w[2]) if g[2].get(k) != w[2].get(k))
                return '<%s>: %s' % (g[1], '; '.join('%s=%s, not %s' % (k, harness.abbrev(g[2].get(k), 80), harness.abbrev(w[2].get(k), 80)) for k in ks[:4]))
            return 'event %d is %s, not %s' % (i, harness.abbrev(g, 120), harness.abbrev(w, 120))
    if len(got) != len(want):
        return '%d events, not %d; the rest: %s' % (len(got), len(want), harness.abbrev((got[len(want):] or want[len(got):])[:4], 200))
    return None


def both(ctx, key, what, data, want, detail=None, decl=None, parsers=(parse, )):
    """parse data and compare"""
    for p in parsers:
        o = guarded(lambda: p(data))
        if o[0] != 'ok':
            return ctx.violation(key + '-malformed', '%s: what is written is not well-formed: %s; %s' % (what, o[2] if len(o) > 2 else o, harness.abbrev(data, 300)), detail)
        d = differs(o[1], want)
        if d:
            return ctx.violation(key + '-value', '%s: read back: %s' % (what, d), detail)


def run(ctx):
    strings(ctx)
    ctx.log('strings')
    shown(ctx)
    ctx.log('shown')
    consumption(ctx)
    ctx.log('documents')


class Thing(object):
    """a model with attributes of its own"""


def thing_events(where, s, twice):
    from hwp5.treeop import STARTEVENT, ENDEVENT
    from hwp5.binmodel import Text
    text = where == 'text'
    ev = [(STARTEVENT, (Thing, dict() if text else dict(v=s, n=7), {}))]
    for _ in range(twice):
        ev += [(STARTEVENT, (Text, dict(text=s, i=1) if text else dict(text=u'-', v=s), {})), (ENDEVENT, (Text, {}, {}))]
    ev += [(ENDEVENT, (Thing, {}, {}))]
    return ev


def thing_expected(where, s, twice):
    text = where == 'text'
    out = [('<', 'Thing', {} if text else dict(v=s, n='7'))]
    for _ in range(twice):
        out += [('<', 'Text', dict(i='1') if text else dict(v=s))] + ([('t', s if text else u'-')] if s or not text else []) + [('>', 'Text')]
    return out + [('>', 'Thing')]


BOMS = (b'\xff\xfe', b'\xfe\xff')


def strings(ctx):
    from hwp5.xmlmodel import XmlEvents
    chars = {65, 60, 62, 38, 34, 39, 9, 10, 13, 0, 1, 31, 32, 93, 127, 233, 44032, 55296, 57343, 57344, 65534, 65533, 65535, 128512}
    inv = ['WellFormed', 'RoundTrip', 'OneMark', 'InOrder', 'ChunksDoNotMatter', 'Emit']
    encs, ENC = ['utf-8', 'utf-16', 'us-ascii', 'iso-8859-1', 'euc-kr'], lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    prints = ctx.tlc('XmlText', dict(Chars=chars, MaxLen=ctx.pick(1, 2), Encodings=ENC(encs), WordSet='<-SomeWords'), inv).prints
    few = {65, 60, 62, 34, 10, 13, 1, 233, 93} if not ctx.thorough else {65, 60, 62, 38, 34, 39, 9, 10, 13, 1, 233, 55296, 93}
    prints += ctx.tlc('XmlText', dict(Chars=few, MaxLen=ctx.pick(3, 3), Encodings=ENC(encs if ctx.thorough else ['utf-8', 'us-ascii']), WordSet='<-NoWords'), inv).prints
    ctx.exhaustive = True
    ctx.extra['strings'] = len(prints)
    for n, b in enumerate(prints):
        s, k = (u''.join(map(chr, b[x])) for x in ('input', 'keep'))
        what = 'string %s as %s in %s' % (b['input'], b['where'], b['enc'])
        twice = n % 3
        want = thing_expected(b['where'], k, twice)
        got = {}
        for decl in (True, False) if b['enc'] == 'utf-8' else (True,):
            mk = lambda: XmlEvents(iter(thing_events(b['where'], s, twice)))
            o = guarded(lambda: b''.join(mk().bytechunks(xml_declaration=decl, xml_encoding=b['enc'])))
            if o[0] != 'ok':
                ctx.violation('string-raises', '%s: %s' % (what, o[1:]), b)
                continue
            data = o[1]
            if decl:
                try:
                    head = data.decode(b['enc'])
                except UnicodeError as e:
                    head = str(e)
                if not re.match(u'^<\\?xml version="1.0" encoding="%s"\\?>\\s*<Thing' % b['enc'], head):
                    ctx.violation('string-declaration', '%s: the document begins with %s' % (what, harness.abbrev(data[:120])), b)
            elif data.startswith(b'<?xml'):
                ctx.violation('string-declaration', '%s: declared though no declaration is wanted' % what, b)
            both(ctx, 'string', what, data, want, b, parsers=(parse, expat) if b['enc'] in ('utf-8', 'us-ascii') else (parse, ))
            if decl or b['enc'] == 'utf-8':
                ways(ctx, what, mk, data, dict(xml_declaration=decl, xml_encoding=b['enc']), b)
        ctx.replayed += 1
        if len(ctx.violations) > 200:
            break
    ctx.sample(dict(kind='string', where=b['where'], encoding=b['enc'], input=b['input'], read=b['keep']))
    # longer ones
    for n in range(ctx.pick(300, 3000)):
        r = ctx.rng
        s = u''.join(r.choice(NASTY + u'\ud800\U0001f600\U0010ffff\udc00') for _ in range(r.randrange(40)))
        enc = r.choice(sorted(encs))
        where = r.choice(['attribute', 'text'])
        what = 'string %s as %s in %s' % ([ord(c) for c in s], where, enc)
        o = guarded(lambda: b''.join(XmlEvents(iter(thing_events(where, s, 2))).bytechunks(xml_encoding=enc)))
        if o[0] != 'ok':
            ctx.violation('string-raises', '%s: %s' % (what, o[1:]), what)
            continue
        both(ctx, 'string', what, o[1], thing_expected(where, keep(s), 2), what)
        ctx.count('long_strings')
        if len(ctx.violations) > 200:
            break


def ways(ctx, what, mk, data, kw, detail):
    """every way to take the output gives the same bytes"""
    class Sink(object):
        def __init__(self):
            self.d = []

        def write(self, x):
            self.d.append(bytes(x))

    def dumped(sink, get):
        mk().dump(sink, **kw)
        return get(sink)

    def opened(size):
        f = mk().open(**kw)
        try:
            out = []
            while True:
                x = f.read(size) if size else f.read()
                out.append(x)
                if not x or not size:
                    return b''.join(out)
        finally:
            f.close()
    for name, fn in (('dump', lambda: dumped(io.BytesIO(), lambda f: f.getvalue())), ('dump to an object without flush', lambda: dumped(Sink(), lambda f: b''.join(f.d))),
                     ('open', lambda: opened(0)), ('open, 3 bytes at a time', lambda: opened(3))):
        if len(data) > 20000 and '3 bytes' in name:
            continue
        o = guarded(fn)
        if o[0] != 'ok':
            ctx.violation('way-raises', '%s: %s: %s' % (what, name, o[1:]), detail)
        elif o[1] != data:
            ctx.violation('way-differs', '%s: %s gives %s, bytechunks %s' % (what, name, harness.abbrev(o[1]), harness.abbrev(data)), detail)


class XmlValues(c08.Values):

    def leaf(self, e):
        r = self.rng
        if e['k'] == 'str':
            s = u''.join(r.choice(NASTY) for _ in range(e['val']))
            return s, struct.pack('<H', e['val']) + s.encode('utf-16le')
        if e['k'] == 'prim' and e['n'] == 'wchar' and r.random() < .8:
            v = r.choice([0, 0x26, 0x22, 0x3c, 1, 9, 10, 13, 0xd800, 0xdfff, 0xfffe, 0xffff, 0xac00] + sorted(PUA))
            return v, struct.pack('<H', v)
        return c08.Values.leaf(self, e)

    def values(self, b):
        payload, vals = b'', []
        for e in b['log']:
            v = None
            if e['e'] == 'leaf':
                v, d = self.leaf(e)
                payload += d
            vals.append(v)
        return payload, vals


class Shower(object):

    def __init__(self, ctx, tables):
        self.enums = dict((k, dict((a, x) for a, x in v)) for k, v in tables['enums'].items())

    def number(self, v):
        return v.v if isinstance(v, (c08.Flag, c08.Color)) else v

    def plain(self, v):
        if isinstance(v, bytes):
            return v.hex()
        if isinstance(v, (c08.Color, c08.Flag)):
            return str(v.v)
        if isinstance(v, float):
            return repr(v)
        if isinstance(v, int):
            return str(v)
        return keep(v)

    def attribute(self, a, vals):
        v = vals[a['leaf'][0] - 1] if a['leaf'] else None
        n = self.number(v)
        how = a['how']
        if how == 'hexadecimal':
            return '%0*X' % (a['hi'], n)
        if how == 'bits':
            x = n >> a['lo'] & (1 << a['hi'] - a['lo'] + 1) - 1
            if a['enum'] and x in self.enums[a['enum']]:
                return self.enums[a['enum']][x].lower()
            return str(x)
        if how == 'color':
            return '#%02x%02x%02x' % (n & 255, n >> 8 & 255, n >> 16 & 255)
        if how == 'binid':
            return 'BIN%04X' % n
        if how == 'wchar':
            return keep(chr(PUA.get(n, n)))
        if how == 'list':
            return [self.plain(vals[i - 1]) for i in a['leaf']]
        return self.plain(v)

    def events(self, xml, vals):
        out = []
        for e in xml:
            if e['e'] == 'end':
                out.append(('>', e['el']))
                continue
            at = dict((a['name'].replace('_', '-'), self.attribute(a, vals)) for a in e['at'])
            if e['named']:
                at['name' if e['el'] == 'Array' else 'attribute-name'] = e['named']
            out.append(('<', e['el'], at))
        return out


def lists(got, want):
    """attributes that are lists: compare their items, however they are delimited"""
    out = []
    for g, w in zip(got, want):
        if g[0] == '<' == w[0]:
            at = dict(g[2])
            for k, v in w[2].items():
                if isinstance(v, list) and isinstance(at.get(k), str):
                    if re.findall(r"[^\s,\[\]()']+", at[k]) == [x.replace(' ', '') for x in v if x.strip()] or ''.join(re.findall(r"[^\s,\[\]()']", at[k])) == ''.join(v).replace(' ', ''):
                        at[k] = v
                if isinstance(v, str) and re.match(r'^-?[0-9.]+(e[+-]?[0-9]+)?$', v) and '.' in v or isinstance(v, str) and 'e+' in v:
                    try:
                        if struct.pack('<d', float(at.get(k))) == struct.pack('<d', float(v)):
                            at[k] = v
                    except (TypeError, ValueError):
                        pass
            g = (g[0], g[1], at)
        out.append(g)
    return out + got[len(want):]


def shown(ctx):
    from hwp5 import xmlmodel, xmldump_flat, xmlformat
    t = ctx.tlc('RecordLayout', dict(Which='<-First', Counts={0}, StrLens={0}, ParentCounts={0}), ['EmitTables'], next='Stop')
    tables = [p for p in t.prints if 'flags' in p][0]
    S = Shower(ctx, tables)
    D = c08.Decode(ctx, tables)
    D.V = V = XmlValues(ctx.rng, tables['chids'], tables['flags'])
    r = ctx.tlc('XmlShow', dict(Which='<-Elements', Counts={0, 1, 2} if ctx.thorough else {0, 2}, StrLens={0, 1, 3} if ctx.thorough else {0, 4},
                                ParentCounts={0, 1, 3}), ['Nesting', 'Unique', 'NothingLost', 'EmitShown'])
    prints = [p for p in r.prints if 'xml' in p]
    if len(prints) < 500:
        raise harness.CheckError('only %d layouts' % len(prints))
    ctx.extra['record_layouts_shown'] = len(prints)
    for b in prints:
        D.bykey.setdefault((b['name'], b['ctx']), []).append(b)
    every = prints if ctx.thorough else prints[ctx.rng.randrange(2)::2]
    names = set(b['name'] for b in every)
    every += [b for b in prints if b['name'] not in names]
    for b in every:
        for _ in range(ctx.pick(1, 3)):
            one(ctx, D, S, V, b, xmlmodel, xmldump_flat, xmlformat)
        if len(ctx.violations) > 200:
            break
    ctx.sample(dict(kind='record', name=b['name'], version=b['ver'], xml=[[e['e'], e['el'], [a['name'] for a in e['at']]] for e in b['xml']]))


def one(ctx, D, S, V, b, xmlmodel, xmldump_flat, xmlformat):
    payload, vals = V.values(b)
    v = c08.vtuple(b['ver'])
    ps = D.parents(b)
    level = 0 if not ps else ps[-1][1] + (0 if b['ctx'] == 'tbl +' else 1)
    records = ps + [(b['tag'], level, payload)]
    desc = '%s (in %s), version %s, payload %s' % (b['name'], b['ctx'], '.'.join(map(str, v)), payload.hex()[:400])
    detail = dict(records=[(t, l, p.hex()) for t, l, p in records], version=v)
    stream = lambda: xmlmodel.ModelEventStream(docs.MemStream(docs.recs(records)), v)
    mk = lambda: xmlmodel.XmlEvents(stream().modelevents())
    kw = {}
    if ctx.rng.random() < .3:
        kw['xml_encoding'] = ctx.rng.choice(['utf-16', 'us-ascii', 'euc-kr'])
    top = ('<r>'.encode(kw.get('xml_encoding', 'utf-8')), '</r>'.encode(kw.get('xml_encoding', 'utf-8')))
    o = guarded(lambda: b''.join(mk().bytechunks(xml_declaration=False, **kw)))
    if o[0] != 'ok':
        return ctx.violation('show-raises-%s' % b['name'], '%s: writing it as XML raises %s' % (desc, o[1:]), detail)
    data = o[1].decode(kw.get('xml_encoding', 'utf-8'), 'surrogatepass' if not kw else 'strict')
    o = guarded(lambda: parse((u'<r>' + data + u'</r>').encode('utf-8')))
    if o[0] != 'ok':
        return ctx.violation('show-malformed-%s' % b['name'], '%s: %s: %s' % (desc, o[1:], harness.abbrev(data)), detail)
    want = S.events(b['xml'], vals)
    got = o[1][1:-1]
    # the element of the record itself, inside of those of its parents
    at = max([i for i, g in enumerate(got) if g[0] == '<' and g[1] == want[0][1]] or [-1])
    if b['ctx'] == 'shape' or at < 0:
        starts, depth = [], []
        for i, g in enumerate(got):
            if g[0] == '<' and g[1] == want[0][1]:
                starts.append(i)
        at = starts[-1] if starts else -1
    if at < 0:
        return ctx.violation('show-missing-%s' % b['name'], '%s: no element of it: %s' % (desc, harness.abbrev(got)), detail)
    got = lists(got[at:at + len(want)] if got[at:at + len(want)] else [], want)
    d = differs(got, want)
    if d:
        return ctx.violation('show-value-%s' % b['name'], '%s: %s' % (desc, d), detail)
    ctx.replayed += 1
    flat(ctx, b, records, vals, desc, detail, stream, xmldump_flat, xmlformat, S)


def flat(ctx, b, records, vals, desc, detail, stream, xmldump_flat, xmlformat, S):
    """the flat form: one element per record, one per value, with its place in the record"""
    o = guarded(lambda: b''.join(xmlformat.xmlevents_to_bytechunks(xmldump_flat.xmlevents_from_modelevents(stream().parse_model_events()))))
    if o[0] != 'ok':
        return ctx.violation('flat-raises-%s' % b['name'], '%s: the flat form raises %s' % (desc, o[1:]), detail)
    o = guarded(lambda: parse(b'<r>' + o[1] + b'</r>'))
    if o[0] != 'ok':
        return ctx.violation('flat-malformed-%s' % b['name'], '%s: the flat form is not well-formed: %s' % (desc, o[1:]), detail)
    got = [g for g in o[1] if g[0] == '<']
    rs = [i for i, g in enumerate(got) if g[1] == 'Record']
    if len(rs) != len(records):
        return ctx.violation('flat-records', '%s: %d records in the flat form of %d' % (desc, len(rs), len(records)), detail)
    for n, i in enumerate(rs):
        g, (tag, lev, p) = got[i][2], records[n]
        w = dict(tagid=str(tag), seqno=str(n), level=str(lev), size=str(len(p)))
        if dict((k, g.get(k)) for k in w) != w:
            return ctx.violation('flat-record', '%s: record %s appears as %s' % (desc, w, g), detail)
    items = [g[2] for g in got[rs[-1]:] if g[1] == 'item']
    leaves = [(e, v) for e, v in zip(b['log'], vals) if e['e'] == 'leaf']
    if [e['off'] for e, v in leaves if e['size']] != [int(x.get('offset', -1)) for x in items][:len([e for e, v in leaves if e['size']])]:
        return ctx.violation('flat-offset-%s' % b['name'], '%s: the values are at %s, the flat form has %s' %
                             (desc, [e['off'] for e, v in leaves], [x.get('offset') for x in items]), detail)
    for (e, v), x in zip([(e, v) for e, v in leaves if e['size']], items):
        if e['k'] in ('prim', 'flags', 'count') and not isinstance(v, (bytes, float)):
            w = S.plain(v)
            if x.get('value') != w and not (e['n'] == 'wchar'):
                return ctx.violation('flat-value-%s' % b['name'], '%s: %s is %s in the flat form, not %s' % (desc, '.'.join(e['path']), x.get('value'), w), detail)
    ctx.count('flat')


def nasty_document(ctx, rng):
    """a document with such strings in its styles, fonts, fields and text"""
    def w(s):
        d = s.encode('utf-16le', 'surrogatepass')
        return struct.pack('<H', len(d) // 2) + d
    strs = [u''.join(rng.choice(NASTY) for _ in range(rng.randrange(1, 12))) for _ in range(4)]
    docinfo = docs.recs([(16, 0, struct.pack('<7HIII', 1, 1, 1, 1, 1, 1, 1, 0, 0, 0)), (17, 0, b'\0' * 64),
                         (19, 1, b'\x80' + w(strs[0]) + b'\1' + w(strs[1])),
                         (26, 1, w(strs[2]) + w(strs[3]) + struct.pack('<BBhHHH', 0, 0, 0, 0, 0, 0))])
    text = u''.join(rng.choice(u'a<>&"\']\x7f\x85\ufffe\uffff\ufffd\uac00\ue000\U0001f600 ') for _ in range(rng.randrange(1, 30)))
    d = text.encode('utf-16le') + b'\r\0'
    section = docs.recs([(66, 0, struct.pack('<IIHBBHHHI', len(d) // 2, 0, 0, 0, 0, 1, 0, 1, 7)), (67, 1, d), (68, 1, struct.pack('<II', 0, 0)),
                         (69, 1, struct.pack('<IiiiiiiiHH', 0, 100, 1, 1, 1, 1, 1, 1, 0, 0))])
    return docs.doc_tree(docinfo=docinfo, sections=[section], extra={u'\x05HwpSummaryInformation': c05.summary_info()}), strs, text


def consumption(ctx):
    from hwp5.xmlmodel import Hwp5File
    names = [n for n in sorted(os.listdir(harness.FIXTURES)) if n.endswith('.hwp')]
    made = []
    for i in range(ctx.pick(6, 60)):
        tree, strs, text = nasty_document(ctx, ctx.rng)
        p = ctx.path('nasty%d.hwp' % i)
        with open(p, 'wb') as f:
            f.write(docs.write_ole(tree))
        made.append((p, strs, text))
    for n in names + made:
        strs = None
        if isinstance(n, tuple):
            path, strs, text = n
            name = 'document with %r and text %r' % (strs, text)
        else:
            path, name = os.path.join(harness.FIXTURES, n), n
        o = guarded(lambda: Hwp5File(path))
        if o[0] != 'ok':
            continue
        for embed in (False, True):
            def events():
                h = Hwp5File(path)
                try:
                    return list(h.xmlevents(embedbin=embed))
                finally:
                    h.close()
            o = guarded(events, 60)
            if o[0] != 'ok':
                if strs is not None:
                    ctx.violation('document-raises', '%s: %s' % (name, o[1:]), name)
                continue
            want = flatten(o[1])
            h = Hwp5File(path)
            enc = ctx.rng.choice(['utf-8', 'utf-16', 'euc-kr', 'us-ascii']) if embed or strs is not None else 'utf-8'
            o = guarded(lambda: b''.join(h.xmlevents(embedbin=embed).bytechunks(xml_encoding=enc)), 60)
            if o[0] != 'ok':
                ctx.violation('document-raises', '%s in %s: %s' % (name, enc, o[1:]), name)
                continue
            data = o[1]
            both(ctx, 'document', '%s (embedbin=%s, %s)' % (name, embed, enc), data, want, name, parsers=(parse, expat) if enc in ('utf-8', 'us-ascii') else (parse,))
            ways(ctx, '%s in %s' % (name, enc), lambda: h.xmlevents(embedbin=embed), data, dict(xml_encoding=enc), name)
            h.close()
            if embed:
                continue
            if strs is not None:
                faces = [g[2] for g in want if g[0] == '<' and g[1] in ('FaceName', 'AlternateFont', 'Style')]
                got = [x.get('name') for x in faces[:2]] + ([faces[2].get('local-name'), faces[2].get('name')] if len(faces) == 3 else [])
                if got != [keep(s) for s in strs]:
                    ctx.violation('document-strings', '%s: the strings appear as %r' % (name, got), name)
                if u''.join(g[1] for g in want if g[0] == 't') != keep(text):
                    ctx.violation('document-text', '%s: the text appears as %r' % (name, [g[1] for g in want if g[0] == 't']), name)
            command(ctx, path, name, want, data if enc == 'utf-8' else None)
        ctx.validated += 1
    ctx.sample(dict(kind='document', path=name, events=len(want)))


def command(ctx, path, name, want, data):
    """hwp5proc xml; nested and flat, validated or not"""
    out = ctx.path('out.xml')
    for args, fmt in ((['--no-validate-wellformed'], 'nested'), (['--no-validate-wellformed', '--no-xml-decl'], 'nested'), (['--format=flat', '--no-validate-wellformed'], 'flat'),
                      ([], 'nested'), (['--format=flat', '--no-xml-decl', '--no-validate-wellformed'], 'flat')):
        if not args and ctx.rng.random() < .6 and not ctx.thorough:
            continue
        if os.path.exists(out):
            os.remove(out)
        status, so, se, o = cli.run('hwp5proc', ['xml', '--output', out] + args + [path])
        what = 'hwp5proc xml %s %s' % (' '.join(args), name)
        if o[0] != 'ok' or status != 0 or not os.path.exists(out):
            ctx.violation('command-fails-%s' % fmt, '%s: status %s, %s %s' % (what, status, o, harness.abbrev(se[-300:])), name)
            continue
        with open(out, 'rb') as f:
            d = f.read()
        if args and d.startswith(b'<?xml') == ('--no-xml-decl' in args):
            ctx.violation('command-declaration', '%s: begins with %s' % (what, harness.abbrev(d[:60])), name)
        if fmt == 'nested':
            if data is not None and args and '--no-xml-decl' not in args and d != data:
                ctx.violation('command-differs', '%s: differs from the events written by themselves' % what, name)
            both(ctx, 'command', what, d, want, name)
        else:
            o = guarded(lambda: parse(d), 60)
            if o[0] != 'ok':
                ctx.violation('command-malformed-flat', '%s: %s' % (what, o[1:]), name)
                continue
            flatdoc(ctx, what, path, o[1])
        ctx.count('commands')


def flatdoc(ctx, what, path, events):
    """one Record element per record of every stream, in order"""
    from hwp5.xmlmodel import Hwp5File
    h = Hwp5File(path)
    want = []
    for s in [h.docinfo] + [h.bodytext[n] for n in h.bodytext]:
        want.append([[str(r[k]) for k in ('tagid', 'level', 'size', 'seqno')] for r in s.records()])
    h.close()
    got = []
    for e in events:
        if e[0] == '<' and e[1] in ('DocInfo', 'Section'):
            got.append([])
        elif e[0] == '<' and e[1] == 'Record':
            got[-1].append([e[2].get(k) for k in ('tagid', 'level', 'size', 'seqno')])
    if got != want:
        ctx.violation('command-flat-records', '%s: the records are not those of the document' % what, path)
