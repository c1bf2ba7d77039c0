exec(open('/verif/tools/seed.py').read())
U = 'src/hwp5/utils.py'
L = 'src/hwp5/plat/_lxml.py'
H = 'src/hwp5/hwp5html.py'
COMMON = '''
import os, shutil, tempfile
d = tempfile.mkdtemp()
t = os.path.join(d, 't')
os.mkdir(t)
tempfile.tempdir = t
sample = os.path.join('tests', 'hwp5_tests', 'fixtures', 'sample-5017.hwp')
from contextlib import closing
from hwp5.xmlmodel import Hwp5File
class Broken(Exception):
    pass
def finish(bad):
    shutil.rmtree(d)
    sys.exit(1 if bad else 0)
'''
seed('c20-temp-on-failure', 'C20', [(U, """            try:
                f.close()
            except Exception:
                pass
    finally:
        unlink_or_warning(path)
""", """            try:
                f.close()
            except Exception:
                pass
    except Exception:
        # keep what could not be processed
        logger.warning('%s is kept', path)
        raise
    else:
        unlink_or_warning(path)
""")], COMMON + '''
from hwp5.hwp5txt import TextTransform
def compile(path, **kw):
    def transform(input, output):
        raise Broken()
    return transform
T = TextTransform(xslt_compile=compile)
with closing(Hwp5File(sample)) as h:
    try:
        T.transform_hwp5_to_text(h, io.BytesIO())
    except Broken:
        pass
left = os.listdir(t)
print(left)
finish(left)
''', 'a transformation that fails while a temporary file is in use', 'the temporary file stays')
seed('c20-invalid-output', 'C20', [(L, """        fd, name = tempfile.mkstemp()
        try:
            with os.fdopen(fd, 'wb+') as f:
                yield f
                f.seek(0)
                if not self.validate_stream(f):
                    raise ValidationFailed('RelaxNG')
                f.seek(0)
                shutil.copyfileobj(f, output)
        finally:
            try:
                os.unlink(name)
""", """        fd, name = tempfile.mkstemp()
        with os.fdopen(fd, 'wb+') as f:
            yield f
            f.seek(0)
            valid = self.validate_stream(f)
            f.seek(0)
            try:
                if not valid:
                    raise ValidationFailed('RelaxNG')
                shutil.copyfileobj(f, output)
            finally:
              try:
                os.unlink(name)
"""), (L, """            except Exception as e:
                logger.warning('%s: can\\'t unlink %s', e, name)
""", """              except Exception as e:
                logger.warning('%s: can\\'t unlink %s', e, name)
""")], COMMON + '''
from hwp5.hwp5odt import ODTTransform
from hwp5.plat import _lxml
def compile(path, **kw):
    def transform(input, output):
        raise Broken()
    return transform
T = ODTTransform(xslt_compile=compile)
with closing(Hwp5File(sample)) as h:
    try:
        T.transform_hwp5_to_styles(h, io.BytesIO())
    except Broken:
        pass
left = os.listdir(t)
print(left)
finish(left)
''', 'a transformation that fails before its output can be validated', 'the temporary file of the validation stays')
seed('c20-html-open', 'C20', [(H, """        css_path = os.path.join(outdir, 'styles.css')
        with io.open(css_path, 'wb') as f:
            self.transform_xhwp5_to_css(xhwp5path, f)
""", """        css_path = os.path.join(outdir, 'styles.css')
        f = io.open(css_path, 'wb')
        self.transform_xhwp5_to_css(xhwp5path, f)
        f.close()
""")], COMMON + '''
from hwp5.hwp5html import HTMLTransform
kept = []
def compile(path, **kw):
    def transform(input, output):
        kept.append(output)
        if 'css' in path:
            raise Broken()
    return transform
T = HTMLTransform(xslt_compile=compile)
with closing(Hwp5File(sample)) as h:
    try:
        T.transform_hwp5_to_dir(h, d)
    except Broken:
        pass
print([f.closed for f in kept])
finish(not all(f.closed for f in kept))
''', 'the style sheet of an HTML conversion fails', 'styles.css is left open')
seed('c20-input-open', 'C20', [(L, """        with io.open(input, 'rb') as inp_file:
            return self._transform(inp_file, output)
""", """        inp_file = io.open(input, 'rb')
        result = self._transform(inp_file, output)
        inp_file.close()
        return result
""")], COMMON + '''
from hwp5.plat import _lxml
import hwp5
xsl = os.path.join(os.path.dirname(hwp5.__file__), 'xsl', 'plaintext.xsl')
bad = os.path.join(d, 'bad.xml')
with open(bad, 'w') as f:
    f.write('<broken')
before = len(os.listdir('/proc/self/fd'))
T = _lxml.xslt_compile(xsl)
errors = []
for i in range(5):
    try:
        T(bad, io.BytesIO())
    except Exception as e:
        errors.append(e)
after = len(os.listdir('/proc/self/fd'))
print(before, after)
finish(after > before)
''', 'the intermediate XML cannot be read or transformed', 'the intermediate file is left open for as long as the error is kept')
seed('c20-reused-after-failure', 'C20', [('src/hwp5/transforms/__init__.py', """        with mkstemp_open() as (tmp_path, f):
            hwp5file.xmlevents(embedbin=self.embedbin).dump(f)
            yield tmp_path
""", """        # one document is often transformed more than once
        cached = self.__dict__.get('xhwp5')
        if cached is None or cached[0] is not hwp5file:
            cached = self.xhwp5 = hwp5file, []
            for chunk in hwp5file.xmlevents(embedbin=self.embedbin).bytechunks(
                xml_declaration=True
            ):
                cached[1].append(chunk)
        with mkstemp_open() as (tmp_path, f):
            for chunk in cached[1]:
                f.write(chunk)
            f.flush()
            yield tmp_path
""")], COMMON + '''
from hwp5.hwp5txt import TextTransform
T = TextTransform()
def text(T, h):
    f = io.BytesIO()
    T.transform_hwp5_to_text(h, f)
    return f.getvalue()
with closing(Hwp5File(sample)) as h:
    expected = text(TextTransform(), h)
h = Hwp5File(sample)
real = h.xmlevents
class Failing(object):
    def __init__(self, x): self.x = x
    def dump(self, f, **kw):
        for n, c in enumerate(self.bytechunks(**kw)):
            f.write(c)
    def bytechunks(self, **kw):
        for n, c in enumerate(self.x.bytechunks(**kw)):
            if n == 100:
                raise Broken()
            yield c
h.xmlevents = lambda **kw: Failing(real(**kw))
try:
    text(T, h)
except Broken:
    pass
h.xmlevents = real
try:
    got = text(T, h)
except Exception as e:
    got = e
print(got == expected)
finish(got != expected)
''', 'a conversion that failed while the document was read, then another of the same document with the same converter', 'the second conversion works on what the first had read')
