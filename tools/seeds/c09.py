exec(open('/verif/tools/seed.py').read())
M='src/hwp5/binmodel/'
seed('c09-odd-match', 'C09', [(M+'controlchar.py', """                if i & 1 == 1:
                    start_idx = i + 1
                    continue
""", """                if i & 1 == 1:
                    # in the middle of a character: go past the match
                    start_idx = m.end()
                    continue
""")], '''
import struct
from hwp5.binmodel import ParaTextChunks
d = struct.pack('<4H', 0x0541, 0, 0x0041, 13)
c = list(ParaTextChunks.parse_chunks(d))
print(c)
sys.exit([x[0] for x in c] != [(0, 1), (1, 2), (2, 3), (3, 4)])
''', 'a NUL control right after a character of U+0100 to U+1FFF', 'the control is taken as text')
seed('c09-param-strip', 'C09', [(M+'controlchar.py', """                chid = CHID.decode(bytes[0:4])
                param = bytes[4:12]
""", """                chid = CHID.decode(bytes[0:4])
                param = bytes[4:12].ljust(8, b'\\x00')
                if param.startswith(b'\\x00\\x00\\x00\\x00'):
                    # unused
                    param = b'\\x00' * 8
""")], '''
import struct
from hwp5.binmodel import ParaTextChunks
d = struct.pack('<H', 11) + b' lbt' + b'\\0\\0\\0\\0\\1\\2\\3\\4' + struct.pack('<H', 11)
c = list(ParaTextChunks.parse_chunks(d))
print(c)
sys.exit(c[0][1]['param'] != b'\\0\\0\\0\\0\\1\\2\\3\\4')
''', 'a control whose parameter starts with four zero bytes but has more', 'parameter bytes are lost')
seed('c09-high-controls', 'C09', [(M+'controlchar.py', "    REGEX_CONTROL_CHAR = re.compile(b'[\\x00-\\x1f]\\x00')", "    REGEX_CONTROL_CHAR = re.compile(b'[\\x00-\\x18\\x1e\\x1f]\\x00')")], '''
import struct
from hwp5.binmodel import ParaTextChunks
d = struct.pack('<4H', 0x41, 0x1b, 0x0041, 13)
c = list(ParaTextChunks.parse_chunks(d))
print(c)
sys.exit([x[0] for x in c] != [(0, 1), (1, 2), (2, 3), (3, 4)])
''', 'a reserved control code (25 to 29)', 'it is taken as text')
