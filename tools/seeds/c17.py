exec(open('/verif/tools/seed.py').read())
F = 'src/hwp5/msoleprops.py'
DEMO = '''
import struct, uuid
from hwp5.msoleprops import PropertySetFormat, PropertySetStreamReader
from hwp5.summaryinfo import FMTID_HWP_SUMMARY_INFORMATION, HWP_PROPERTIES
HWP = uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c')
OTHER = uuid.UUID('cdd5d502-2e9c-101b-9397-08002b2cf9ae')
def section(things):
    at = 8 + 8 * len(things)
    table = body = b''
    for i, b in things:
        table += struct.pack('<II', i, at + len(body))
        body += b
    return struct.pack('<II', at + len(body), len(things)) + table + body
def stream(*sets):
    data = struct.pack('<HHI', 0xfffe, 0, 0) + HWP.bytes_le + struct.pack('<I', len(sets))
    at = len(data) + 20 * len(sets)
    body = b''
    for fmt, things in sets:
        data += fmt.bytes_le + struct.pack('<I', at + len(body))
        body += section(things)
    return data + body
def i4(n):
    return struct.pack('<II', 3, n)
def read(data):
    return PropertySetStreamReader([PropertySetFormat(FMTID_HWP_SUMMARY_INFORMATION, HWP_PROPERTIES)]).read(io.BytesIO(data)).propertysets
'''
seed('c17-labels-leak', 'C17', [(F, "        propertysetList = list()\n        for", "        propertysetList = list()\n        idLabels = {}\n        for"), (F, """            except KeyError:
                idLabels = {}
            else:""", """            except KeyError:
                logger.debug('unknown format: %s', propsetDesc.fmtid)
            else:""")], DEMO + '''
a = read(stream((OTHER, [(14, i4(1))]), (HWP, [(14, i4(1))]), (OTHER, [(14, i4(2))])))
got = [[p.idLabel for p in s.properties] for s in a]
print(got)
sys.exit(got != [[None], ['PIDSI_PAGECOUNT'], [None]])
''', 'a stream of two property sets, the second of another format', 'properties of the second set are given the standard names of the first')
seed('c17-dictionary-leak', 'C17', [(F, "        propertysetList = list()\n        for", "        propertysetList = list()\n        dictionary = None\n        for"), (F, """                dictionary = prop.value
            else:
                dictionary = None
""", """                dictionary = prop.value
""")], DEMO + '''
d = struct.pack('<III', 1, 77, 2) + b'n\\0'
a = read(stream((HWP, [(77, i4(1)), (0, d)]), (OTHER, [(77, i4(2))])))
got = [[getattr(p, 'displayName', None) for p in s.properties if p.id] for s in a]
print(got)
sys.exit(got[1] != [None])
''', 'a stream of two property sets, only the first with a dictionary', 'properties of the second set are named by the dictionary of the first')
