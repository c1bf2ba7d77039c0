exec(open('/verif/tools/seed.py').read())
COMMON = '''
import struct, tempfile, shutil, subprocess, atexit, json
from io import BytesIO
from hwp5.binmodel import ModelStream, RecordModel
from hwp5.storage import Open2Stream
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP)
def rec(tag, level, payload):
    return struct.pack('<I', tag | level << 10 | len(payload) << 20) + payload
def para(level=0, more=b''):
    return rec(66, level, bytes(22) + more)
def stream(data):
    return ModelStream(Open2Stream(lambda: BytesIO(data)), (5, 0, 3, 4))
class Args(object):
    def __init__(self, **kw):
        self.__dict__.update(dict(model=None, tag=None, incomplete=False, format=None, dump=False, from_stdin=False, hwp5files=[]), **kw)
def found(args):
    """what is printed, and whether it failed"""
    import io
    from contextlib import redirect_stdout
    from hwp5.proc import find
    out = io.StringIO()
    with redirect_stdout(out):
        try:
            find.main(args)
        except SystemExit as e:
            return out.getvalue(), bool(e.code)
    return out.getvalue(), False
'''
F = 'src/hwp5/proc/find.py'
B = 'src/hwp5/binmodel/__init__.py'
seed('c25-find-last-wins', 'C25', [(F, '''    failed = False
    for filename in filenames:
        try:
''', '''    for filename in filenames:
        failed = False
        try:
''')], COMMON + '''
from hwp5.proc import find
good = os.path.join(FIX, 'sample-5017.hwp')
from hwp5.dataio import ParseError
real = find.hwp5file_models
def models(name):
    # the first cannot be read to its end
    for m in real(good):
        yield m
        if name == 'bad':
            e = ParseError('cut')
            e.cause = e.path = e.treegroup = e.record = e.offset = None
            e.binevents = []
            raise e
find.hwp5file_models = models
import logging
logging.disable(logging.CRITICAL)
def failed(*names):
    return found(Args(hwp5files=list(names), model='IdMappings'))[1]
got = [failed(good), failed('bad'), failed(good, 'bad'), failed('bad', good)]
print(got)
sys.exit(got != [False, True, True, True])
''', 'a search of several documents of which one that is not the last cannot be parsed', 'the search reports success')
seed('c25-leftover-offset', 'C25', [(B, '''                        stream = item['stream']
                        item['leftover'] = {
                            'offset': stream.tell(),
                            'bytes': stream.read()
                        }
''', '''                        stream = item['stream']
                        leftover = stream.read()
                        item['leftover'] = {
                            'offset': stream.tell(),
                            'bytes': leftover
                        }
''')], COMMON + '''
from hwp5.treeop import ENDEVENT
got = [(i['leftover']['offset'], i['leftover']['bytes']) for ev, i in stream(para() + para(more=b'xyz')).parse_model_events() if ev is ENDEVENT and i['type'] is RecordModel]
print(got)
sys.exit(got != [(22, b''), (22, b'xyz')])
''', 'a record with more in its payload than is known of, listed by its events', 'the end of the fields is told to be the end of the payload')
seed('c25-seen-before', 'C25', [(F, '''def hwp5file_models(filename):
    hwp5file = Hwp5File(filename)
    for model in flat_models(hwp5file):
        model['filename'] = filename
        yield model
''', '''def hwp5file_models(filename):
    hwp5file = Hwp5File(filename)
    last = None
    for model in flat_models(hwp5file):
        model['filename'] = filename
        # no need to tell the same twice
        same = last is not None and all(
            model[k] == last[k] for k in ('stream', 'tagid', 'level', 'payload')
        )
        last = model
        if not same:
            yield model
''')], COMMON + '''
from hwp5.proc import find
class File(object):
    docinfo = stream(b'')
    bodytext = {'Section0': stream(para() + para() + para(more=b'x'))}
find.Hwp5File = lambda name: File
got = found(Args(hwp5files=['x'], tag='66'))[0].split('\\n')[:-1]
print(got)
sys.exit(len(got) != 3)
''', 'two records in a row which are equal in every byte', 'the second is not found')
