exec(open('/verif/tools/seed.py').read())
X='src/hwp5/xmlmodel.py'
DEMO='''
import struct
from io import BytesIO
from hwp5.xmlmodel import Section
class S(object):
    def __init__(self, d): self.d = d
    def open(self): return BytesIO(self.d)
def rec(t, l, p):
    return struct.pack('<I', t | l << 10 | min(len(p), 4095) << 20) + (struct.pack('<I', len(p)) if len(p) >= 4095 else b'') + p
def para(l, units, lines=(0,), split=0):
    d = rec(66, l, struct.pack('<IIHBBHHHI', len(units), 0, 0, 0, split, 1, 0, len(lines), 7))
    d += rec(67, l + 1, struct.pack('<%dH' % len(units), *units)) + rec(68, l + 1, struct.pack('<II', 0, 0))
    return d + rec(69, l + 1, b''.join(struct.pack('<IiiiiiiiHH', p, p, 9, 9, 8, 6, 0, 420, 0, 6) for p in lines))
def x(code):
    return [code, 0, 0, 0, 0, 0, 0, code]
def nwno(l, n):
    return rec(71, l, b'onwn' + struct.pack('<IH', 0, n))
def field(l, n):
    return rec(71, l, b'klh%' + struct.pack('<IBHI', 0, 0, 0, n))
def plist(l, extra=b'\\0' * 60):
    return rec(72, l, struct.pack('<HHI', 1, 0, 0) + extra)
def events(d):
    return [('<' if e.__name__ == 'STARTEVENT' else '>', m.__name__, a) for e, (m, a, c) in Section(S(d), (5, 0, 3, 4)).events()]
def names(ev):
    return ' '.join(e + m for e, m, a in ev if m not in ('Text', 'ControlChar'))
def balanced(ev):
    st = []
    for e, m, a in ev:
        if e == '<':
            st.append(m)
        elif not st or st.pop() != m:
            return False
    return not st
'''
seed('c11-reserved-char', 'C11', [(X, "        if attributes['kind'] is ControlChar.EXTENDED:\n", "        if (attributes['kind'] is ControlChar.EXTENDED\n                and not attributes['name'].startswith('CTLCHR0')):\n")], DEMO + '''
from hwp5.binmodel import ControlChar
ev = events(para(0, x(12) + [0x41] + x(14) + [0x42, 13]) + nwno(1, 1) + nwno(1, 2))
print([(e, m) for e, m, a in ev])
sys.exit(sum(m == 'NewNumbering' for e, m, a in ev) != 4)
''', 'a control object at one of the reserved control characters (12, 14)', 'the object is lost, and later objects move to the wrong characters')
seed('c11-many-controls', 'C11', [(X, "            paragraph_controls = paragraph.setdefault(Control, [])\n            paragraph_controls.append(control_subtree)\n", "            paragraph_controls = paragraph.setdefault(Control, [])\n            paragraph_controls.append(control_subtree)\n            if len(paragraph_controls) > 256:\n                # runaway paragraph\n                del paragraph_controls[256:]\n")], DEMO + '''
n = 260
ev = events(para(0, x(21) * n + [13]) + b''.join(nwno(1, k) for k in range(n)))
print(sum(m == 'NewNumbering' for e, m, a in ev))
sys.exit(sum(m == 'NewNumbering' for e, m, a in ev) != 2 * n)
''', 'a paragraph with more than 256 control objects', 'the objects beyond are lost')
open('/tmp/c11demo.py', 'w').write(DEMO)
