exec(open('/verif/tools/seed.py').read())
DEMO='''
import struct
def rec(t, l, p):
    return struct.pack('<I', t | l << 10 | len(p) << 20) + p
def para(units, shapes, lines):
    d = rec(66, 0, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, 0, len(shapes), 0, len(lines), 7)) + rec(67, 1, struct.pack('<%dH' % len(units), *units))
    d += rec(68, 1, b''.join(struct.pack('<II', *s) for s in shapes))
    return d + rec(69, 1, b''.join(struct.pack('<IiiiiiiiHH', p, y, 9, 9, 8, 6, x, 420, 0, 6) for p, y, x in lines))
from io import BytesIO
from hwp5.xmlmodel import Section
class S(object):
    def __init__(self, d): self.d = d
    def open(self): return BytesIO(self.d)
def events(d):
    return [(str(e), m.__name__, a) for e, (m, a, c) in Section(S(d), (5, 0, 3, 4)).events()]
'''
seed('c10-lang-cache', 'C10', [('src/hwp5/charsets.py', """def tokenize_unicode_by_lang(text):
    buf = []""", """LANGS = {}


def lookup_unichr_lang(uch):
    # UTF-16 code unit -> language
    unit = ord(uch) & 0xffff
    if unit not in LANGS:
        LANGS[unit] = get_unichr_lang(uch)
    return LANGS[unit]


def tokenize_unicode_by_lang(text):
    buf = []"""), ('src/hwp5/charsets.py', """        lang = get_unichr_lang(uch)
        if lang is None:""", """        lang = lookup_unichr_lang(uch)
        if lang is None:""")], DEMO + '''
ev = events(para([0xac01, 0xd82b, 0xdc01, 13], [(0, 0)], [(0, 0, 0)]))
t = [(a['lang'], a['text']) for e, m, a in ev if m == 'Text' and 'START' in e]
print(ascii(t))
sys.exit([x[0] for x in ev if 0] != [] or [x[0] for x in t][:1] != ['ko'] or len(set(t)) < 2)
''', 'a non-BMP character whose low 16 bits are those of a character seen earlier', 'it gets the language of the other one')
seed('c10-blank-pieces', 'C10', [('src/hwp5/xmlmodel.py', """    for (startpos, endpos), (shape, none), chunk in range_shaped_textchunks:
        if isinstance(chunk, basestring):
""", """    last_shape = None
    for (startpos, endpos), (shape, none), chunk in range_shaped_textchunks:
        if isinstance(chunk, basestring):
            if last_shape is not None and chunk == '\u3000':
                # shape of a single wide space does not matter
                shape = last_shape
            last_shape = shape
""")], DEMO + '''
ev = events(para([0x41, 0x3000, 0x43, 13], [(0, 0), (1, 5), (2, 0)], [(0, 0, 0)]))
t = [(a['charshape_id'], a['text']) for e, m, a in ev if m == 'Text']
print(t)
sys.exit((5, '\u3000') not in t)
''', 'a single wide (ideographic) space with a character shape of its own (underlined blank)', 'it gets the shape of the text before it')
