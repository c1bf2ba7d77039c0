# -*- coding: utf-8 -*-
"""Documents with styles, and what their web pages and OpenDocument texts show"""
import io
import os
import re
import struct
import zipfile
from xml.etree import ElementTree

from . import convert, docs
from checks import c05, c22

STYLES = [('Base', 'Local_Base', 0, 0), ('Head line', 'Local_Head', 1, 2), ('Quote', 'Local_Quote', 3, 1), ('Same', 'Local_Same', 0, 1)]
SHAPES = 5
PARAS = 4
ODF = dict((n, '{urn:oasis:names:tc:opendocument:xmlns:%s:1.0}' % n) for n in ('office', 'style', 'text', 'table', 'drawing', 'xsl-fo-compatible'))
XHTML = '{http://www.w3.org/1999/xhtml}'


def size(k):
    """the size of the letters tells a character shape, in 1/100 pt"""
    return 1000 + 300 * k


def margin(k):
    """the margin tells a paragraph shape, in 1/200 pt"""
    return 2000 * k


def docinfo():
    out = [(16, 0, b'\1\0' * 7 + b'\0' * 12), (17, 0, b'\0' * 64)]
    for k in range(2):
        out.append((19, 1, b'\0' + convert.wstr('Face%d' % k)))
    for k in range(SHAPES):
        out.append((21, 1, struct.pack('<7H', *[k % 2] * 7) + b'\x64' * 7 + b'\0' * 7 + b'\x64' * 7 + b'\0' * 7 + struct.pack('<iI', size(k), 0) + b'\0\0' + struct.pack('<4I', 0, 0, 0xffffff, 0) + b'\0' * 6))
    for k in range(PARAS):
        out.append((25, 1, struct.pack('<I5i', 0, margin(k), 0, 0, 0, 0) + struct.pack('<i', 160) + b'\0' * 6 + b'\0' * 8 + b'\0' * 12))
    for n, (name, local, pshape, cshape) in enumerate(STYLES):
        out.append((26, 1, convert.wstr(local) + convert.wstr(name) + struct.pack('<BBhHH', 0, n, 1042, pshape, cshape) + b'\0\0'))
    return docs.recs(out)


class Builder(c22.Builder):
    """every paragraph has a style and a shape, every character a shape"""

    def style(self):
        r = self.rng
        n = r.randrange(len(STYLES))
        return n, STYLES[n][2] if r.random() < .5 else r.randrange(PARAS)

    def shapes(self, units):
        r = self.rng
        at = sorted(set([0] + [r.randrange(units + 1) for _ in range(r.choice([0, 0, 1, 2, 5]))]))
        return [(p, r.randrange(SHAPES)) for p in at]

    def geometry(self, d):
        r = self.rng
        d['spans'] = [r.choice([1, 1, 2, 3, 300]) for _ in range(2)]
        return [r.choice([0, 1, 1, 2, 300]) for _ in range(2)] + d['spans']

    def split(self, d, doc):
        # sections start at paragraphs of their own only, with columns
        return self.rng.choice([0, 0, 4, 8, 12]) | (d['lv'] == 0 and d['cols'] and any(x['k'] == 'SD' for x in doc))

    def data(self, d, doc):
        # one page layout at most
        at = [x is d for x in doc].index(True)
        return self.rng.choice([87, 87, 88, 73][:3 if doc[at - 1]['k'] == 'D' else 4])

    def component(self, d, doc, m):
        r, lv = self.rng, d['lv']
        w, h = r.choice([1, 720, 14400]), r.choice([0, 1, 720, 14400])
        at = [x is d for x in doc].index(True)
        up = next(x for x in reversed(doc[:at]) if x['lv'] < lv)
        out = [(76, lv, convert.chid('$rec' if d['k'] == 'SC' else '$con') * (1 if up['k'] == 'SG' else 2) + struct.pack('<i', m) + b'\0' * 240)]
        if d['k'] == 'SC':
            out.append((79, lv + 1, b'\0' + struct.pack('<8i', 0, 0, w, 0, w, h, 0, h)))
        return out

    def control(self, k, m):
        r = self.rng
        if k == 'N':
            return 71, convert.chid(r.choice(['fn  ', 'en  '])) + struct.pack('<III', m, 0, 0) + b'\0' * 8
        if k in ('HD', 'FT'):
            return 71, convert.chid('head' if k == 'HD' else 'foot') + struct.pack('<III', 0, 0, 0) + b'\0' * 8
        if k in ('T', 'TI', 'G', 'GI'):
            # where it stands: any of the known places, but in the line only when it says so
            flags = (len(k) - 1) | r.randrange(3) << 3 | r.randrange(4) << 8 | r.randrange(3) << 10 | r.choice([0, 1, 2, 3]) << 21
            return 71, convert.chid('tbl ' if k[0] == 'T' else 'gso ') + struct.pack('<Iii', flags, 100 * r.randrange(50), 100 * r.randrange(50)) + struct.pack('<II', 5000, 5000) + b'\0' * 20 + struct.pack('<I', m) + struct.pack('<HH', 0, 0)
        if k == 'A':
            return 71, convert.chid('atno') + struct.pack('<IH', 0, m & 0xffff) + struct.pack('<HHH', 0x41, 0x28, 0x29)
        if k == 'C':
            if r.random() < .5:
                return 71, convert.chid('bokm')
            return 71, convert.chid('nwno') + struct.pack('<IH', 0, m & 0xffff) + struct.pack('<HHH', 0x41, 0x42, 0x43)
        return convert.Builder.control(self, k, m)

    def build(self, doc):
        at = self.n
        out = c22.Builder.build(self, doc)
        for n, d in enumerate(doc):
            d['m'] = at + n + 1
            if d['k'] == 'P':
                self.mark_places(d)
        return out

    def mark_places(self, d):
        """shape of each shown character, from where its first unit lies"""
        pos, d['shape'] = 0, {}
        shown = dict((j, (k, c)) for j, k, c in d['shown'])
        for j, t in enumerate(d['text']):
            if t == '|':
                continue
            s = [s for p, s in d['shapes'] if p <= pos]
            d['shape'][j + 1] = s[-1]
            if t == 'c':
                pos += 2 if shown[j + 1][1] > 0xffff else 1
            elif t == 'i':
                pos += 1 if shown[j + 1][1] in convert.ONE else 8
            else:
                pos += 8


def write(ctx, builder, sections, name):
    bodies = [docs.recs(builder.build(d)) for d in sections]
    path = ctx.path(name)
    with open(path, 'wb') as f:
        f.write(docs.write_ole(docs.doc_tree(docinfo=docinfo(), sections=bodies, version=convert.VERSION, extra={u'\x05HwpSummaryInformation': c05.summary_info()})))
    return path


# ---- what is due ----
def legal(c):
    return c >= 0x20 and c not in (0xfffe, 0xffff)


CONTROLS = {9: 9, 10: 10, 13: 13}


def spelled(doc, tokens, f):
    """tokens of the specification -> tokens as recorded"""
    out = []
    for t in tokens:
        k = t[0]
        if k == 'c':
            d = doc[t[1] - 1]
            c = [c for j, _, c in d['shown'] if j == t[2]][0]
            if legal(c):
                out.append(['c', c, d['shape'][t[2]]])
        elif k == 'i':
            c = [c for j, _, c in doc[t[1] - 1]['shown'] if j == t[2]][0]
            if c in CONTROLS:
                out.append(['i', c, 0])
        elif k == 'A':
            out.append(['A', doc[t[1] - 1]['m'] & 0xffff, 0])
        elif k == 'p':
            out.append(['p'] + list(doc[t[1] - 1]['style']) + ([doc[t[1] - 1]['split'] >> 2 & 1] if f == 'odt' else []))
        elif k == 'l':
            out.append(['l'] + doc[t[1] - 1]['spans'])
        else:
            out.append([k, 0, 0])
    return out


# ---- what is shown ----
class Strange(Exception):
    pass


def blank(s):
    return not (s or '').strip(' \t\r\n')


def chars(s, k, shape):
    return [[k, ord(c), shape] for c in s or '']


class Page(object):
    """the tokens of a web page"""

    def __init__(self, data, styles=STYLES):
        """styles: [(name, local name, its paragraph shape, its character shape)]"""
        root = ElementTree.fromstring(data)
        self.sections, self.heads, self.feet = [], [], []
        self.styles = styles
        body = root.find(XHTML + 'body')
        for s in body:
            self.want(s, 'div', 'Section')
            self.whites(body, s)
            if len(s) != 1:
                raise Strange('a section with %d parts' % len(s))
            hpf = s[0]
            self.want(hpf, 'div', 'HeaderPageFooter')
            heads, feet, page = [], [], None
            for a in hpf:
                c = a.get('class')
                if c == 'HeaderArea' and page is None:
                    heads += [['n', 0, 0]] + self.flow(a) + [['/', 0, 0]]
                elif c == 'FooterArea' and page is not None:
                    feet += [['n', 0, 0]] + self.flow(a) + [['/', 0, 0]]
                elif c == 'Page' and page is None:
                    page = self.flow(a)
                else:
                    raise Strange('%s %s in a section' % (a.tag, c))
                self.whites(hpf, a)
            if page is None:
                raise Strange('a section with no page')
            self.sections.append(page)
            self.heads.append(heads)
            self.feet.append(feet)

    def want(self, e, tag, cls):
        if e.tag != XHTML + tag or (e.get('class') or '').split()[:1] != [cls]:
            raise Strange('%s of class %s, not %s of class %s' % (e.tag, e.get('class'), tag, cls))

    def whites(self, parent, e):
        if not blank(e.tail) or not blank(parent.text):
            raise Strange('text %r in %s' % ((e.tail or '') + (parent.text or ''), parent.tag))

    def flow(self, parent):
        """paragraphs, tables and drawings"""
        out = []
        if not blank(parent.text):
            raise Strange('text %s in %s %s' % (ascii(parent.text), parent.tag, parent.get('class')))
        for e in parent:
            tag, cls = e.tag.replace(XHTML, ''), e.get('class') or ''
            if tag == 'p':
                out += self.para(e)
            elif tag == 'img' and not len(e) and blank(e.text):
                pass
            elif tag == 'table' and cls.split()[:1] == ['TableControl']:
                out += self.table(e)
            elif tag == 'div' and cls == 'GShapeObjectControl':
                out += [['g', 0, 0]] + self.flow(e) + [['/', 0, 0]]
            else:
                raise Strange('%s of class %s among paragraphs' % (tag, cls))
            if not blank(e.tail):
                raise Strange('text %s between paragraphs' % ascii(e.tail))
        return out

    def para(self, e):
        cls = e.get('class').split(' ')
        names = [s[0].replace(' ', '-') for s in self.styles]
        if cls[0] not in names:
            raise Strange('style %s of a paragraph' % cls[0])
        style = names.index(cls[0])
        shape = self.styles[style][2]
        for c in cls[1:]:
            if c.startswith('Bullet-'):
                continue
            m = re.match(r'parashape-(\d+)$', c)
            if not m:
                raise Strange('class %s of a paragraph' % c)
            shape = int(m.group(1))
        out = [['p', style, shape]] + chars(e.text, 'i', 0)
        for x in e:
            cls = (x.get('class') or '').split()
            if x.tag != XHTML + 'span':
                raise Strange('%s in a paragraph' % x.tag)
            if cls and cls[0].startswith('lang-'):
                if len(x):
                    raise Strange('elements in a text')
                cs = self.styles[style][3]
                for c in cls[1:]:
                    m = re.match(r'charshape-(\d+)$', c)
                    if not m:
                        raise Strange('class %s of a text' % c)
                    cs = int(m.group(1))
                out += chars(x.text, 'c', cs)
            elif cls[:1] == ['autonumbering']:
                m = re.match(r'\D?(\d+)\D?$', x.text or '')
                if not m:
                    raise Strange('number %s' % ascii(x.text))
                out.append(['A', int(m.group(1)), 0])
            elif cls == ['TableControl']:
                if len(x) != 1:
                    raise Strange('%d tables where one is' % len(x))
                out += self.table(x[0])
            elif cls == ['GShapeObjectControl']:
                out += [['g', 0, 0]] + self.flow(x) + [['/', 0, 0]]
            else:
                raise Strange('class %s in a paragraph' % cls)
            out += chars(x.tail, 'i', 0)
        return out + [['/', 0, 0]]

    def table(self, t):
        if t.tag != XHTML + 'table':
            raise Strange('%s for a table' % t.tag)
        out = [['t', 0, 0]]
        for e in t:
            tag = e.tag.replace(XHTML, '')
            if tag == 'caption':
                out += [['k', 0, 0]] + self.flow(e) + [['/', 0, 0]]
            elif tag == 'tr':
                out.append(['r', 0, 0])
                for c in e:
                    if c.tag != XHTML + 'td':
                        raise Strange('%s in a row' % c.tag)
                    out += [['l', int(c.get('colspan', 1)), int(c.get('rowspan', 1))]] + self.flow(c) + [['/', 0, 0]]
                    self.whites(e, c)
                out.append(['/', 0, 0])
            else:
                raise Strange('%s in a table' % tag)
            self.whites(t, e)
        return out + [['/', 0, 0]]


def rules(css):
    """{selector: {property: value}}, later ones over earlier ones"""
    out = {}
    css = re.sub(r'/\*.*?\*/', '', css, flags=re.S)
    for sel, body in re.findall(r'([^{}]+)\{([^{}]*)\}', css):
        d = out.setdefault(' '.join(sel.split()), {})
        for decl in body.split(';'):
            if ':' in decl:
                k, v = decl.split(':', 1)
                d[k.strip()] = v.strip()
    return out


class Odt(object):
    """the tokens of an OpenDocument text"""

    def __init__(self, content, styles=None, shapes=True):
        """shapes: False - styles and shapes do not matter"""
        self.styles, self.shapes = {}, shapes
        root = ElementTree.fromstring(content)
        for r in [root] + ([ElementTree.fromstring(styles)] if styles is not None else []):
            for s in r.iter(ODF['style'] + 'style'):
                k = s.get(ODF['style'] + 'family'), s.get(ODF['style'] + 'name')
                if k in self.styles:
                    raise Strange('two %s styles %s' % k)
                self.styles[k] = s
        self.out = self.flow(root.find('%sbody/%stext' % (ODF['office'], ODF['office'])))

    def named(self, family, name):
        if (family, name) not in self.styles:
            raise Strange('no %s style %s' % (family, name))
        return self.styles[family, name]

    def of_size(self, s):
        p = s.find(ODF['style'] + 'text-properties')
        return (float(p.get(ODF['xsl-fo-compatible'] + 'font-size').replace('pt', '')) * 100 - 1000) / 300

    def para_style(self, name):
        s = self.named('paragraph', name)
        if not self.shapes:
            return [0, 0, 0], 0
        p = s.find(ODF['style'] + 'paragraph-properties')
        shape = float(p.get(ODF['xsl-fo-compatible'] + 'margin-left').replace('pt', '')) * 200 / 2000
        parent = s.get(ODF['style'] + 'parent-style-name')
        base = self.named('paragraph', parent) if parent else s
        locals_ = [x[1] for x in STYLES]
        n = base.get(ODF['style'] + 'name')
        if n not in locals_:
            raise Strange('paragraph style %s' % n)
        return [locals_.index(n), int(shape) if shape == int(shape) else shape, int(p.get(ODF['xsl-fo-compatible'] + 'break-before') == 'page')], self.of_size(base)

    def flow(self, parent):
        out = []
        if not blank(parent.text):
            raise Strange('text %s in %s' % (ascii(parent.text), parent.tag))
        for e in parent:
            if e.tag == ODF['text'] + 'sequence-decls':
                continue
            elif e.tag == ODF['text'] + 'p':
                out += self.para(e)
            elif e.tag == ODF['table'] + 'table':
                out += self.table(e)
            else:
                raise Strange('%s among paragraphs' % e.tag)
            if not blank(e.tail):
                raise Strange('text %s between paragraphs' % ascii(e.tail))
        return out

    def para(self, e):
        style, base = self.para_style(e.get(ODF['text'] + 'style-name'))
        out = [['p'] + style] + chars(e.text, '?', 0)
        for x in e:
            if x.tag == ODF['text'] + 'span':
                n = x.get(ODF['text'] + 'style-name')
                cs = base if n is None else self.of_size(self.named('text', n)) if self.shapes else 0
                if len(x):
                    raise Strange('elements in a text')
                out += chars(x.text, 'c', int(cs) if cs == int(cs) else cs)
            elif x.tag == ODF['text'] + 'note':
                body = x.findall(ODF['text'] + 'note-body')
                if len(body) != 1:
                    raise Strange('%d bodies of a note' % len(body))
                out += [['n', 0, 0]] + self.flow(body[0]) + [['/', 0, 0]]
            elif x.tag.startswith(ODF['drawing']):
                out += self.drawing(x)
            else:
                raise Strange('%s in a paragraph' % x.tag)
            out += chars(x.tail, '?', 0)
        return out + [['/', 0, 0]]

    def drawing(self, x):
        tag = x.tag.replace(ODF['drawing'], '')
        if tag == 'rect':
            return [['g', 0, 0]] + self.flow(x) + [['/', 0, 0]]
        if tag == 'frame' and len(x) == 1 and x[0].tag == ODF['drawing'] + 'text-box' and blank(x.text) and blank(x[0].tail):
            # boxes with tables in them
            return [['g', 0, 0]] + self.flow(x[0]) + [['/', 0, 0]]
        if tag in ('frame', 'line'):
            # pictures and lines, with no text
            if len(x) > 1 or not blank(''.join(x.itertext())):
                raise Strange('text in a %s' % tag)
            return []
        if tag != 'g':
            raise Strange('a drawing %s' % tag)
        out = [['q', 0, 0]]
        for e in x:
            out += self.drawing(e)
            if not blank(e.tail):
                raise Strange('text %s in a group' % ascii(e.tail))
        return out + [['/', 0, 0]]

    def table(self, t):
        out = [['t', 0, 0]]
        for e in t:
            if e.tag == ODF['table'] + 'table-column':
                continue
            if e.tag != ODF['table'] + 'table-row':
                raise Strange('%s in a table' % e.tag)
            out.append(['r', 0, 0])
            for c in e:
                if c.tag != ODF['table'] + 'table-cell':
                    raise Strange('%s in a row' % c.tag)
                out += [['l'] + [int(c.get('%snumber-%s-spanned' % (ODF['table'], n), 1)) for n in ('columns', 'rows')]] + self.flow(c) + [['/', 0, 0]]
            out.append(['/', 0, 0])
        return out + [['/', 0, 0]]
