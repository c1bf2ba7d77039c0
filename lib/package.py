# -*- coding: utf-8 -*-
"""Documents with binary items, and what their conversions refer to"""
import io
import os
import re
import shutil
import struct
import zipfile
from xml.etree import ElementTree

from . import convert, docs
from checks import c05

# the styles of a document, version 5.0.1.7
DOCINFO = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'docinfo-5017.bin')
VERSION = (5, 0, 1, 7)
KIND = {'link': 0, 'embedding': 1, 'storage': 2}
XLINK = '{http://www.w3.org/1999/xlink}href'
# names of documents
NAMES = [('report', '.hwp'), ('a.b c', '.hwp'), ('2010.12.31', '.HWP'), ('a', '.x')]
OFFICE = '{urn:oasis:names:tc:opendocument:xmlns:office:1.0}'
MANIFEST = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'


def item_record(kind, id, ext, compression=0):
    p = struct.pack('<H', KIND[kind] | compression << 4)
    if kind == 'link':
        p += convert.wstr('C:\\' + ext) + convert.wstr('..\\' + ext)
    elif kind == 'embedding':
        p += struct.pack('<H', id) + convert.wstr(ext)
    else:
        p += struct.pack('<H', id)
    return 18, 1, p


def fill_record(ref, type=5):
    """a border fill with an image"""
    border = b'\0\0' + b'\0' * 4
    return 20, 1, struct.pack('<H', 0) + border * 5 + struct.pack('<I', 2) + struct.pack('<BbbBH', type, 0, 0, 0, ref)


def picture_records(lv, ref, group=0):
    """control of a drawing with a picture, in `group` nested groups"""
    out = [(71, lv, docs_gso())]
    for g in range(group):
        out.append((76, lv + 1 + g, component('$con', top=g == 0)))
    out.append((76, lv + 1 + group, component('$pic', top=group == 0)))
    out.append((85, lv + 2 + group, struct.pack('<IiI', 0, 1, 0) + b'\0' * 32 + b'\0' * 16 + b'\0' * 8 + struct.pack('<bbBH', 0, 0, 0, ref)))
    return out


def docs_gso():
    return convert.chid('gso ') + struct.pack('<Iii', 1, 0, 0) + struct.pack('<ii', 5000, 5000) + b'\0' * 16 + struct.pack('<I', 5) + struct.pack('<HH', 0, 0)


def component(id, top):
    p = convert.chid(id) * (2 if top else 1)
    p += struct.pack('<ii', 0, 0) + struct.pack('<HH', 0, 1) + struct.pack('<iiii', 5000, 5000, 5000, 5000) + struct.pack('<I', 0) + struct.pack('<H', 0) + struct.pack('<ii', 0, 0)
    p += struct.pack('<H', 1) + struct.pack('<6d', 1, 0, 0, 0, 1, 0) * 3
    if id == '$con':
        p += struct.pack('<H', 1) + convert.chid('$pic') + b'\0' * 4
    return p


def para(lv, units, controls=True):
    return [(66, lv, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, 0, 1, 0, 1, 0)), (67, lv + 1, struct.pack('<%dH' % len(units), *units)), (68, lv + 1, struct.pack('<II', 0, 0)),
            (69, lv + 1, struct.pack('<IiiiiiiiHH', 0, 100, 1, 1, 1, 1, 1, 1, 0, 0))]


def ext(code, id):
    return [code] + list(struct.unpack('<2H', convert.chid(id))) + [0] * 4 + [code]


def body(pics):
    """[(reference, place)] -> records; a place is 'text', 'cell' or 'group'"""
    out = []
    for ref, place in pics:
        if place == 'cell':
            out += para(0, ext(11, 'tbl '))
            out += [(71, 1, convert.chid('tbl ') + b'\0' * 36 + struct.pack('<I', 1) + struct.pack('<HH', 0, 0)),
                    (77, 2, struct.pack('<IHHH', 0, 1, 1, 0) + b'\0' * 8 + struct.pack('<H', 1) + struct.pack('<HH', 1, 0)),
                    (72, 2, struct.pack('<HHI', 1, 0, 0) + struct.pack('<HHHHii', 0, 0, 1, 1, 5000, 5000) + b'\0' * 8 + struct.pack('<H', 1) + struct.pack('<i', 5000))]
            out += para(2, [0x61] + ext(11, 'gso ') + [0x62])
            out += picture_records(3, ref)
        else:
            out += para(0, [0x61] + ext(11, 'gso ') + [0x62])
            out += picture_records(1, ref, 1 if place == 'group' else 0)
    if not out:
        out = para(0, [0x61])
    return out


def write(path, items, streams, pics=(), fills=(), compressed=False, version=VERSION):
    """items [(kind, id, ext)], streams {name: bytes | {..}}"""
    with open(DOCINFO, 'rb') as f:
        base = f.read()
    base = [(t, lv, base[p + n:p + n + size]) for p, n, t, lv, size in docs.parse_recs(base)[0]]
    info = base[:2] + [item_record(*i) for i in items] + base[2:] + [fill_record(*f) for f in fills]
    tree = docs.doc_tree(docinfo=docs.recs(info), sections=[docs.recs(body(pics))], flags=1 if compressed else 0, version=version,
                         extra=dict({u'\x05HwpSummaryInformation': c05.summary_info()}, **({'BinData': streams} if streams is not None else {})))
    if compressed:
        def deflated(t):
            return dict((k, deflated(v) if isinstance(v, dict) else docs.deflate(v)) for k, v in t.items())
        tree['DocInfo'] = docs.deflate(tree['DocInfo'])
        for k in ('BinData', 'BodyText'):
            if k in tree:
                tree[k] = deflated(tree[k])
    with open(path, 'wb') as f:
        f.write(docs.write_ole(tree))
    return path


# ------------------------------------------------------------------- outcomes
def digest(data):
    import hashlib
    return '%d-%s' % (len(data), hashlib.sha1(data).hexdigest()[:12])


def unbase64(text):
    import base64
    return base64.b64decode(''.join((text or '').split()).encode('ascii'), validate=True)


class Outcome(object):
    def __init__(self):
        self.entries, self.listed, self.refs, self.fillrefs, self.texts, self.problem = [], [], [], [], [], ''

    def parse(self, name, data):
        try:
            return ElementTree.fromstring(data)
        except Exception as e:
            self.problem = self.problem or '%s: %s' % (name, e)
            return ElementTree.Element('nothing')

    def odf(self, root):
        for e in root.iter():
            if e.tag.endswith('}image'):
                if e.get(XLINK) is not None:
                    self.refs.append(e.get(XLINK))
                for b in e.findall(OFFICE + 'binary-data'):
                    try:
                        self.texts.append(digest(unbase64(b.text)))
                    except Exception as x:
                        self.texts.append('undecodable: %s' % x)

    def json(self):
        return dict(entries=self.entries, listed=self.listed, refs=self.refs, fillrefs=self.fillrefs, texts=self.texts, ok=not self.problem)


def of_odt(path):
    o = Outcome()
    with zipfile.ZipFile(path) as z:
        if z.testzip() is not None:
            o.problem = 'damaged archive'
        seen = set()
        for info in z.infolist():
            data = z.read(info)
            n = info.filename
            o.entries.append([n, digest(data) if n.startswith('bindata/') else 'markup'])
            if n in seen:
                continue
            seen.add(n)
            if n == 'mimetype':
                if data != b'application/vnd.oasis.opendocument.text':
                    o.problem = 'mimetype %r' % data
            elif n == 'META-INF/manifest.xml':
                for e in o.parse(n, data).iter(MANIFEST + 'file-entry'):
                    if e.get(MANIFEST + 'full-path') != '/':
                        o.listed.append(e.get(MANIFEST + 'full-path'))
            elif not n.startswith('bindata/'):
                root = o.parse(n, data)
                if n in ('content.xml', 'styles.xml'):
                    o.odf(root)
    return o


def of_dir(path):
    o = Outcome()
    for base, ds, fs in os.walk(path):
        for n in fs:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, path)
            with open(p, 'rb') as f:
                data = f.read()
            o.entries.append([rel, digest(data) if rel.startswith('bindata' + os.sep) else 'markup'])
            if rel == 'index.xhtml':
                for e in o.parse(rel, data).iter():
                    if e.tag.endswith('}img') and e.get('src') is not None:
                        o.refs.append(e.get('src'))
            elif rel == 'styles.css':
                o.fillrefs = [u for u in re.findall(r'url\(([^)]*)\)', data.decode('utf-8')) if u.strip() and not u.startswith('data:')]
    o.entries.sort()
    return o


def of_fodt(data):
    o = Outcome()
    o.odf(o.parse('document', data))
    return o


def of_xml(data):
    o = Outcome()
    for e in o.parse('document', data).iter('BinData'):
        b = e.find('BinDataEmbedding')
        try:
            o.texts.append(digest(unbase64(b.text)) if b is not None and b.get('inline') == 'true' else '')
        except Exception as x:
            o.texts.append('undecodable: %s' % x)
    return o


class Converter(object):
    """one set of converters, used again and again"""

    def __init__(self, scratch, xslt_compile=None):
        from hwp5.hwp5odt import ODTTransform
        from hwp5.hwp5html import HTMLTransform
        self.odt = ODTTransform(xslt_compile=xslt_compile)
        self.html = HTMLTransform(xslt_compile=xslt_compile)
        self.scratch = scratch

    def convert(self, path, mode):
        from contextlib import closing
        from hwp5.xmlmodel import Hwp5File
        from hwp5.hwp5odt import open_odtpkg
        from hwp5.hwp5html import open_dir
        with closing(Hwp5File(path)) as h:
            if mode.startswith('odt'):
                self.odt.embedbin = mode == 'odt with images'
                p = os.path.join(self.scratch, 'out.odt')
                with open_odtpkg(p) as pkg:
                    self.odt.transform_hwp5_to_package(h, pkg)
                return of_odt(p)
            if mode == 'html':
                p = os.path.join(self.scratch, 'out.html')
                with open_dir(p) as d:
                    self.html.transform_hwp5_to_dir(h, d)
                return of_dir(p)
            if not mode.startswith('xml'):
                self.odt.embedbin = mode in ('fodt', 'content with images')
                with open(os.path.join(self.scratch, 'out.fodt'), 'w+b') as f:
                    if mode.startswith('fodt'):
                        self.odt.transform_hwp5_to_single_document(h, f)
                    else:
                        self.odt.transform_hwp5_to_content(h, f)
                    f.seek(0)
                    return of_fodt(f.read())
            f = io.BytesIO()
            h.xmlevents(embedbin=mode == 'xml').dump(f)
            return of_xml(f.getvalue())


def by_command(scratch, path, mode, named=True):
    """the same by the commands; not named: where they put it by themselves"""
    from lib import cli
    if not named and (mode.startswith('odt') or mode == 'html'):
        # in the current directory, under the name of the document
        here = os.path.join(scratch, 'here')
        if os.path.isdir(here):
            shutil.rmtree(here)
        os.makedirs(os.path.join(here, 'in'))
        name, ext = NAMES[os.path.getsize(path) // 512 % len(NAMES)]
        doc = os.path.join(here, 'in', name + ext)
        shutil.copyfile(path, doc)
        p = os.path.join(here, name + ('' if mode == 'html' else '.odt'))
        args = (['hwp5html'] if mode == 'html' else ['hwp5odt']) + (['--embed-image'] if mode == 'odt with images' else []) + [os.path.join('in', name + ext)]
        saved = os.getcwd()
        os.chdir(here)
        try:
            status, out, err, outcome = cli.run(args[0], args[1:])
        finally:
            os.chdir(saved)
        if status or status is None:
            raise RuntimeError('%s exits with %s: %s' % (' '.join(args), status, outcome))
        if sorted(os.listdir(here)) != sorted(['in', os.path.basename(p)]) or os.listdir(os.path.join(here, 'in')) != [name + ext]:
            raise RuntimeError('%s: what is there is %s' % (' '.join(args), sorted(os.listdir(here)) + os.listdir(os.path.join(here, 'in'))))
        return of_odt(p) if mode.startswith('odt') else of_dir(p)
    if mode.startswith('odt'):
        p = os.path.join(scratch, 'cmd.odt')
        args = ['hwp5odt', '--output', p] + (['--embed-image'] if mode == 'odt with images' else []) + [path]
    elif mode == 'html':
        p = os.path.join(scratch, 'cmd.html')
        args = ['hwp5html', '--output', p, path]
    elif not mode.startswith('xml'):
        p = os.path.join(scratch, 'cmd.fodt')
        args = ['hwp5odt'] + {'fodt': ['--document'], 'fodt referring': ['--document', '--no-embed-image'], 'content': ['--content'],
                              'content with images': ['--content', '--embed-image']}[mode] + ['--output', p, path]
    else:
        p = None
        args = ['hwp5proc', 'xml'] + (['--embedbin'] if mode == 'xml' else []) + [path]
    status, out, err, outcome = cli.run(args[0], args[1:])
    if status:
        raise RuntimeError('%s exits with %s: %s' % (' '.join(args), status, outcome))
    if mode.startswith('odt'):
        return of_odt(p)
    if mode == 'html':
        return of_dir(p)
    if not mode.startswith('xml'):
        with open(p, 'rb') as f:
            return of_fodt(f.read())
    return of_xml(out)
