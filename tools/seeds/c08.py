exec(open('/verif/tools/seed.py').read())
M='src/hwp5/binmodel/'
REC='''
import struct
from hwp5.binmodel import ModelStream
class S(object):
    def __init__(self, recs):
        self.d = b''.join(struct.pack('<I', t | l << 10 | len(p) << 20) + p for t, l, p in recs)
    def open(self):
        return io.BytesIO(self.d)
'''
seed('c08-zones-gate', 'C08', [(M+'tagid61_table.py', "                   version=(5, 0, 0, 7))", "                   version=(5, 0, 1, 0))")], REC+'''
body = struct.pack('<IHHh4hHH', 0, 1, 1, 0, 0, 0, 0, 0, 5, 1) + struct.pack('<H5H', 1, 1, 2, 3, 4, 5)
ok = True
for v, n in (((5, 0, 0, 6), None), ((5, 0, 0, 7), 1), ((5, 0, 0, 9), 1), ((5, 0, 1, 7), 1)):
    m = list(ModelStream(S([(77, 0, body)]), v).models())[0]
    z = m['content'].get('validZones')
    print(v, z, m.get('unparsed'))
    ok = ok and (z is None) == (n is None)
sys.exit(not ok)
''', 'a document of version 5.0.0.7 to 5.0.0.9 with a table', 'the valid zones of the table are not decoded but left over')
seed('c08-nested-caption', 'C08', [(M+'controls/table_control.py', """        if child_model['type'] is TableBody:
            # referenced in ListHeader parsing
            context['seen_table_body'] = True
""", """        if child_model['type'] is TableBody:
            # referenced in ListHeader parsing
            context['seen_table_body'] = True
        elif child_model['type'].__name__ == 'TableCaption':
            # at most one caption: whatever list follows is a cell
            context['seen_table_body'] = True
""")], REC+'''
ctl = b' lbt' + b'\\0' * 60
body = struct.pack('<IHHh4hHHH', 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0)
lst = b'\\0' * 60
names = [m['type'].__name__ for m in ModelStream(S([(71, 0, ctl), (72, 1, lst), (72, 1, lst), (77, 1, body), (72, 1, lst)]), (5, 0, 3, 4)).models()]
print(names)
sys.exit(names != ['TableControl', 'TableCaption', 'TableCaption', 'TableBody', 'TableCell'])
''', 'a table control with two lists before the body', 'the second one is read as a cell')
seed('c08-columns-width', 'C08', [(M+'controls/columns_def.py', """                n_columns = member_ref(context, values)
                return n_columns - 1
""", """                n_columns = member_ref(context, values)
                return (n_columns or 1) - 1 & 0x7f
""")], REC+'''
n = 200
p = b'dloc' + struct.pack('<Hhh', n << 2, 1, 7) + b''.join(struct.pack('<HH', i, i + 1) for i in range(n - 1)) + b'\\1\\0' + b'\\2\\3\\4\\5\\6\\7'
m = list(ModelStream(S([(71, 0, p)]), (5, 0, 3, 4)).models())[0]
print(len(m['content']['columns']), m.get('unparsed'))
sys.exit(not (len(m['content']['columns']) == n - 1 and not m.get('unparsed')))
''', 'a column definition of more than 128 columns of different widths', 'most columns are not decoded')
seed('c08-linespacing', 'C08', [(M+'tagid25_para_shape.py', "                  2, 4, Align, 'align',", "                  2, 3, Align, 'align',")], REC+'''
from hwp5.binmodel import ParaShape
ok = True
for v, name in ((1, 'LEFT'), (4, 'DISTRIBUTE'), (5, 'DISTRIBUTE_SPACE')):
    f = ParaShape.Flags(v << 2)
    print(v, f.align)
    ok = ok and f.align.name == name
sys.exit(not ok)
''', 'a paragraph shape aligned by distribution', 'the alignment is reported as another one')
