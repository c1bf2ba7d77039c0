exec(open('/verif/tools/seed.py').read())
F = 'src/hwp5/filestructure.py'
COMMON = '''
import os, shutil, tempfile, subprocess
d = tempfile.mkdtemp()
data = open(os.path.join(FIX, 'sample-5017.hwp'), 'rb').read()
places = [n for n in range(0, len(data), 64) if data.startswith(b'HWP Document File', n)]
def made(name, changes):
    b = bytearray(data)
    for at in places:
        for n, v in changes:
            b[at + n] = v
    path = os.path.join(d, name)
    with open(path, 'wb') as f:
        f.write(bytes(b))
    return path
def command(module, *args):
    env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), 'src'))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.argv[0] = "x"; from hwp5.%s import main; main()' % module] + list(args),
        cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stdout
def finish(bad):
    shutil.rmtree(d)
    sys.exit(1 if bad else 0)
'''
seed('c21-signature-string', 'C21', [
 (F, """HWP5_SIGNATURE = b'HWP Document File' + (b'\\x00' * 15)
""", """HWP5_SIGNATURE = b'HWP Document File'
"""),
 (F, """                    dict(fixed_size=size, decode=decode))
""", """                    dict(fixed_size=size, decode=decode))


class CHARS(type):
    ''' null-terminated characters in a field of fixed size '''
    def __new__(mcs, size):
        decode = staticmethod(
            lambda bytes, *args, **kwargs: bytes.split(b'\\x00', 1)[0])
        return type.__new__(mcs, str('CHARS(%d)') % size, (str,),
                            dict(fixed_size=size, decode=decode))
"""), (F, """        yield BYTES(32), 'signature'
""", """        yield CHARS(32), 'signature'
""")], COMMON + '''
from hwp5.filestructure import is_hwp5file
bad = not is_hwp5file(made('good.hwp', []))
for n in (18, 20, 31):
    path = made('bad%d.hwp' % n, [(n, 0x20)])
    if is_hwp5file(path):
        bad = True
    if command('hwp5proc', 'version', path)[0] == 0:
        bad = True
finish(bad)
''', 'a header whose signature differs after its name, behind the first zero byte', 'it is taken for a document')
seed('c21-version-signed', 'C21', [(F, """            return (bytes[3], bytes[2], bytes[1], bytes[0])
""", """            import struct
            return struct.unpack('<4b', bytes)[::-1]
""")], COMMON + '''
path = made('v.hwp', [(32, 200), (33, 255), (34, 1), (35, 5)])
status, out = command('hwp5proc', 'version', path)
print(status, out)
finish(out.strip() != b'5.1.255.200')
''', 'a version part of 128 or more', 'a negative number is reported')
seed('c21-flag-bit', 'C21', [(F, """                  9, 'cert_signature_extra',
                  10, 'cert_drm',
                  11, 'ccl')
""", """                  9, 'cert_signature_extra',
                  10, 11, 'cert_drm',
                  12, 'ccl')
""")], COMMON + '''
path = made('f.hwp', [(37, 0x08)])
status, out = command('hwp5proc', 'header', path)
print(status, out)
finish(b'ccl: 1' not in out or b'cert_drm: 0' not in out)
''', 'a document with one of the higher flags', 'the flags reported are not those stored')
seed('c21-output-first', 'C21', [('src/hwp5/hwp5txt.py', """        with closing(Hwp5File(hwp5path)) as hwp5file:
            with open_dest() as dest:
                transform(hwp5file, dest)
""", """        with open_dest() as dest:
            with closing(Hwp5File(hwp5path)) as hwp5file:
                transform(hwp5file, dest)
""")], COMMON + '''
path = made('bad.hwp', [(0, 0x20)])
out = os.path.join(d, 'out.txt')
with open(out, 'w') as f:
    f.write('kept')
status, _ = command('hwp5txt', '--output', out, path)
print(status, open(out).read())
finish(status == 0 or open(out).read() != 'kept')
''', 'a file that is not a document, and an output file', 'the output file is emptied before the file is refused')
seed('c21-unpack-existing', 'C21', [('src/hwp5/proc/unpack.py', """    hwp5file = open_hwpfile(args)

    outdir""", """    outdir""", ), ('src/hwp5/proc/unpack.py', """        os.mkdir(outdir)
""", """        os.mkdir(outdir)
    hwp5file = open_hwpfile(args)
""")], COMMON + '''
path = made('bad.hwp', [(31, 0x20)])
out = os.path.join(d, 'new')
status, _ = command('hwp5proc', 'unpack', path, out)
print(status, os.path.exists(out))
finish(os.path.exists(out))
''', 'a file that is not a document and an output directory that does not exist', 'the directory is created')
