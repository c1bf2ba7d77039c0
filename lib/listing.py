# -*- coding: utf-8 -*-
"""concrete side of spec/ListingOps.tla: streams of records, and what is listed of them"""
import io
import json
import re

from . import cli, docs, harness

VERSIONS = {1: (5, 0, 0, 0), 2: (5, 0, 0, 5), 3: (5, 0, 3, 4)}
HEADS = {'T': b' lbt', 'G': b' osg', 'H': b'daeh', 'X': b'zzzz'}
# bytes that may hold anything: no counts, no lengths
FREE = {'Paragraph': (0, 22), 'TableControl': (4, 40), 'GShapeObjectControl': (4, 40), 'TableCell': (8, 38),
        'PageDef': (0, 36), 'ListHeader': (0, 2), 'Header': (4, 8), 'TableBody': (8, 18)}


class Strange(Exception):
    """what is listed is not of the records at all"""


def payload(rng, name, k, fill, size):
    b = bytearray(size)
    lo, hi = FREE.get(name, (0, 0))
    for i in range(lo, min(hi, size)):
        b[i] = rng.randrange(256)
    h = HEADS.get(k, b'')[:size]
    b[:len(h)] = h
    if fill == 'extra':
        for i in range(size - 3, size):
            b[i] = rng.randrange(256)
    return bytes(b)


class Stream(object):
    """recs: [(level, tag, payload, name, tagname, unparsed)]"""

    def __init__(self, recs):
        self.recs = recs
        self.data = docs.recs((t, lv, p) for lv, t, p, name, tagname, left in recs)

    @classmethod
    def of_spec(cls, rng, doc, named, tagnames, sizes):
        out = []
        for d, n, t, size in zip(doc, named, tagnames, sizes):
            p = payload(rng, n['name'], d['k'], d['fill'], size)
            out.append((d['lv'], n['tag'], p, n['name'], t, p[-3:] if d['fill'] == 'extra' else b''))
        return cls(out)

    def open(self, version):
        from hwp5.binmodel import ModelStream
        from hwp5.storage import Open2Stream
        return ModelStream(Open2Stream(lambda: io.BytesIO(self.data)), version)

    def at(self, seqno, **given):
        """the place of a record listed as given"""
        if not isinstance(seqno, int) or not 0 <= seqno < len(self.recs):
            raise Strange('no record %r' % (seqno,))
        lv, t, p, name, tagname, left = self.recs[seqno]
        true = dict(level=lv, tagid=t, payload=p, name=name, tagname=tagname, unparsed=left, size=len(p))
        for k, v in given.items():
            if true[k] != v:
                raise Strange('record %d: %s is %s, not %s' % (seqno, k, harness.abbrev(v), harness.abbrev(true[k])))
        return seqno + 1

    def model(self, m):
        if ('unparsed' in m) != bool(m.get('unparsed')):
            raise Strange('record %r: nothing is left' % m['seqno'])
        return self.at(m['seqno'], level=m['level'], tagid=m['tagid'], payload=bytes(m['payload']), size=m['size'],
                       name=m['type'].__name__, tagname=m['tagname'], unparsed=bytes(m.get('unparsed', b'')))

    def json(self, m):
        return self.at(m['seqno'], level=m['level'], tagid=m['tagid'], size=m['size'], payload=hexdumped(m['payload'] if m['payload'] != [''] else []),
                       name=m['type'], tagname=m['tagname'], unparsed=hexdumped(m.get('unparsed', [])))


def collect(it, one):
    """-> (places, failed)"""
    from hwp5.dataio import ParseError
    out = []
    try:
        for x in it:
            out.append(one(x))
    except ParseError:
        return out, True
    return out, False


def some(text):
    """the whole values of a list of JSON that may stop anywhere"""
    d = json.JSONDecoder()
    out = []
    pos = text.find('[') + 1
    while pos:
        while pos < len(text) and text[pos] in ' \r\n\t,':
            pos += 1
        if pos >= len(text) or text[pos] == ']':
            return out
        try:
            v, pos = d.raw_decode(text, pos)
        except ValueError:
            return out
        out.append(v)
    return out


# ---------------------------------------------------------------- as a library
def api(s, version, q, n):
    """what stream s gives for the selection q, in the n'th way; the n'th + 1 reads the same open stream"""
    st = s.open(version)
    if n % 3 == 2:
        # read by another before, and not to the end
        for x in st.models_treegrouped():
            break
        o = harness.guarded(lambda: next(iter(st.models()), None))
    k = q['k']
    if k == 'all':
        ways = [lambda: collect(st.models(), s.model),
                lambda: collect((m for g in st.models_treegrouped() for m in g), s.model),
                lambda: listed(s, st, lambda: st.models_json()),
                lambda: listed(s, st, lambda: st.other_formats()['.models'])]
    elif k == 'tree':
        def group():
            for t, g in enumerate(st.models_treegrouped()):
                if t == q['a']:
                    return g
            return []
        # of groups before, none is read
        ways = [lambda: collect(st.models(treegroup=q['a']), s.model), lambda: collect(group(), s.model),
                lambda: listed(s, st, lambda: st.models_json(treegroup=q['a']), treegroup=q['a'])]
    elif k == 'nth':
        def one():
            m = st.model(q['a'])
            return [] if m is None else [m]
        ways = [lambda: collect((m for f in [one] for m in f()), s.model)]
    elif k == 'events':
        ways = [lambda: events(s, st)]
    return ways[n % len(ways)]()


def listed(s, st, opened, **q):
    """a list in JSON; one of a stream that cannot be read has no end"""
    from hwp5.dataio import ParseError
    x = opened()
    try:
        f = x() if callable(x) else x.open()
        text = f.read()
    except ParseError:
        out, failed = collect(st.models(**q), s.model)
        if not failed:
            raise Strange('JSON fails where the list does not')
        return out, failed
    if isinstance(text, bytes):
        text = text.decode('utf-8')
    return [s.json(m) for m in json.loads(text)], False


def events(s, st):
    from hwp5.binmodel import RecordModel
    from hwp5.treeop import STARTEVENT, ENDEVENT
    here = []

    def one(x):
        ev, item = x
        if item['type'] is RecordModel and ev is STARTEVENT:
            r = item['record']
            i = s.at(r['seqno'], level=r['level'], tagid=r['tagid'], payload=bytes(r['payload']), tagname=r['tagname'])
            here.append(0)
            return [['S', i]]
        if item['type'] is RecordModel and ev is ENDEVENT:
            r, left = item['record'], item['leftover']
            i = s.at(r['seqno'], unparsed=left['bytes'], payload=bytes(r['payload']))
            if left['offset'] != len(r['payload']) - len(left['bytes']) or here.pop() > left['offset']:
                raise Strange('record %d: ends at %d' % (i, left['offset']))
            return [['E', i]]
        if ev is None:
            if item['bin_offset'] < here[-1]:
                raise Strange('a value at %d, after %d' % (item['bin_offset'], here[-1]))
            here[-1] = item['bin_offset']
        return []
    out, failed = collect(st.parse_model_events(), one)
    return [e for es in out for e in es], failed


# ----------------------------------------------------------------- as commands
def hexdumped(lines):
    """bytes of a dump: sixteen to a line, in hexadecimal"""
    out = b''
    for line in lines:
        if not re.match(r'^[0-9a-f]{2}( [0-9a-f]{2}){0,15}$', line) or len(out) % 16:
            raise Strange('dump %r' % line)
        out += bytes(int(x, 16) for x in line.split())
    return out


def models(s, argv, stdin, q, n):
    """hwp5proc models, its output in the n'th way"""
    sel = {'tree': ['--treegroup', str(q.get('a'))], 'nth': ['--seqno', str(q.get('a'))]}.get(q['k'], [])
    how = 'events' if q['k'] == 'events' else ['json', 'simple', 'format', 'default'][n % 4]
    fmt = '%(seqno)d\\t%(level)s\\t%(tagid)d\\t%(tagname)s\\t%(type)s\\t%(size)d\\n'
    opts = {'json': ['--json'], 'default': [], 'simple': ['--simple'], 'format': ['--format', fmt], 'events': ['--events']}[how]
    args = opts + sel + argv if n % 2 else sel + argv + opts
    status, out, err, o = cli.run('hwp5proc', ['models'] + args, stdin)
    failed = ended(status, o, err)
    text = out.decode('utf-8')
    if how in ('json', 'default'):
        if not failed and not isinstance(json.loads(text), list):
            raise Strange('no list')
        return [s.json(m) for m in some(text)], failed
    if how == 'simple':
        rows = [re.match(r'^(\d{4,}) ( *)(\S+)$', line) for line in text.splitlines()]
        if None in rows:
            raise Strange(text)
        return [s.at(int(m.group(1)), level=len(m.group(2)), name=m.group(3)) for m in rows], failed
    if how == 'format':
        rows = [line.split('\t') for line in text.splitlines()]
        return [s.at(int(r[0]), level=int(r[1]), tagid=int(r[2]), tagname=r[3], name=r[4], size=int(r[5])) for r in rows], failed
    return event_lines(s, text), failed


def event_lines(s, text):
    out = []
    lines = text.splitlines()
    at = 0
    last = 0
    while at < len(lines):
        m = re.match(r'^     (\S+) Record (\d+) level=(\d+) (\S+)$', lines[at])
        at += 1
        if not m:
            v = re.match(r'^([0-9a-f]{4,}) \S+ .+$', lines[at - 1])
            if v and int(v.group(1), 16) < last:
                raise Strange('a value at %s, after %04x' % (v.group(1), last))
            last = int(v.group(1), 16) if v else last
            continue
        seqno = int(m.group(2))
        i = s.at(seqno, level=int(m.group(3)), tagname=m.group(4))
        if m.group(1).startswith('START'):
            out.append(['S', i])
            last = 0
            continue
        out.append(['E', i])
        end = lines.index('-' * 20, at)
        left = b''
        if end > at + 1:
            if lines[at + 1:at + 3] != ['', 'leftover:']:
                raise Strange(lines[at:end])
            left = hexdumped(x for x in lines[at + 3:end] if x)
        s.at(seqno, unparsed=left)
        if int(lines[at], 16) != len(s.recs[seqno][2]) - len(left):
            raise Strange('record %d ends at %s' % (seqno, lines[at]))
        at = end + 1
    return out


def ended(status, o, err):
    if o[0] == 'hang':
        raise Strange('hangs')
    if status is None and o[1] != 'ParseError':
        raise Strange('%s: %s' % (o[1:], err[-200:]))
    return status != 0


FIND = 'FOUND\t%(filename)s\t%(stream)s\t%(seqno)s\t%(level)s\t%(tagid)s\t%(tagname)s\t%(type)s\t%(size)s'


def find(files, q, n):
    """hwp5proc find in files [(path, [(name, stream)])]"""
    args = []
    if q.get('model'):
        args += ['--model', q['model']]
    if q.get('tag'):
        args += ['--tag', q['tagname'] if n % 2 else str(q['tag'])]
    if q.get('incomplete'):
        args += ['--incomplete']
    how = ['format', 'default', 'dump'][n // 2 % 3]
    args += {'format': ['--format', FIND], 'default': [], 'dump': ['--format', FIND, '--dump']}[how]
    paths = [p for p, ss in files]
    stdin = b''
    if n // 6 % 2:
        args += ['--from-stdin']
        stdin = ''.join(p + '\n' for p in paths).encode('utf-8')
    else:
        args += paths
    status, out, err, o = cli.run('hwp5proc', ['find'] + args, stdin)
    failed = ended(status, o, err)
    by = {}
    for f, (p, ss) in enumerate(files):
        for k, (name, s) in enumerate(ss):
            by[p, name] = f + 1, k + 1, s
    places = []
    text = out.decode('utf-8')

    def of(p, name):
        if (p, name) not in by:
            raise Strange('no stream %s %s' % (p, name))
        return by[p, name]
    if how == 'default':
        for line in text.splitlines():
            p, name, seqno, tagname, t = line.split(' ')
            f, k, s = of(p, name)
            places.append([f, k, s.at(int(seqno), tagname=tagname, name=t)])
        return places, failed
    for found in text.split('FOUND\t')[1:]:
        line, rest = found.split('\n', 1)
        p, name, seqno, lv, tag, tagname, t, size = line.split('\t')
        f, k, s = of(p, name)
        i = s.at(int(seqno), level=int(lv), tagid=int(tag), tagname=tagname, name=t, size=int(size))
        if how == 'dump':
            m, end = json.JSONDecoder().raw_decode(rest)
            if s.json(m) != i or m['filename'] != p or m['stream'] != name:
                raise Strange('another is dumped: %s' % line)
            log = rest[end:]
            if log.count('STARTEVENT:') != log.count('ENDEVENT:'):
                raise Strange('events of %s do not pair' % line)
        elif rest:
            raise Strange(rest)
        places.append([f, k, i])
    return places, failed
