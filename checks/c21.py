# -*- coding: utf-8 -*-
"""C21: only real documents are accepted and the commands report failure"""
import hashlib
import io
import logging
import os
import shutil
import struct
import subprocess
import sys

from lib import cli, docs, harness, package
from lib.harness import guarded
from checks import c05

CONVERT = {'text': ('hwp5txt', []), 'odt': ('hwp5odt', []), 'styles': ('hwp5odt', ['--styles']), 'content': ('hwp5odt', ['--content']), 'fodt': ('hwp5odt', ['--document']),
           'html': ('hwp5html', []), 'css': ('hwp5html', ['--css']), 'xhtml': ('hwp5html', ['--html']), 'xml': ('hwp5proc', ['xml', '--no-validate-wellformed'])}


def argv(ctx, c, files, out):
    """-> module, arguments, standard input"""
    name, view = c['name'], c['view']
    if name in CONVERT:
        m, a = CONVERT[name]
        return m, a + ['--output', out] + files, b''
    flags = ['--' + view] if view else []
    if name == 'unpack':
        return 'hwp5proc', ['unpack'] + flags + files + [out], b''
    if name.startswith('find'):
        if name.endswith('stdin'):
            return 'hwp5proc', ['find', '--from-stdin'], '\n'.join(files).encode('utf-8') + ctx.rng.choice([b'', b'\n'])
        return 'hwp5proc', ['find'] + files, b''
    words = name.split(' ')
    return 'hwp5proc', [words[0]] + flags + files + words[1:], b''


class Bench(object):
    """shows files to commands and records what happens"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.runs = []
        self.details = {}

    def snapshot(self):
        return c05.snapshot(self.sandbox)

    def command(self, id, c, files, keep=None):
        """runs it in a directory of its own; `keep`: an output is there before"""
        ctx = self.ctx
        self.sandbox = ctx.mkdir('s')
        out = os.path.join(self.sandbox, 'out')
        if keep and c['name'] in CONVERT and c['name'] != 'html':
            with open(out, 'wb') as f:
                f.write(b'kept')
        elif keep and c['name'] == 'html':
            os.mkdir(out)
            with open(os.path.join(out, 'index.xhtml'), 'wb') as f:
                f.write(b'kept')
        module, args, stdin = argv(ctx, c, files, out)
        before = self.snapshot()
        cwd = os.getcwd()
        os.chdir(self.sandbox)
        log = logging.getLogger('hwp5')
        logging.disable(logging.NOTSET)
        try:
            status, so, se, o = cli.run(module, args, stdin)
        finally:
            logging.disable(logging.CRITICAL)
            for h in list(log.handlers):
                log.removeHandler(h)
            os.chdir(cwd)
        made = self.snapshot() != before
        raised = '' if o[0] == 'ok' else 'does not end' if o[0] == 'hang' else o[1]
        obs = dict(status=-1 if status is None else status, raised=raised, printed=bool(so.strip()), made=made, message=bool(se.strip()) and b'Traceback' not in se)
        shutil.rmtree(self.sandbox)
        self.details[id] = '%s %s: status %s, %s, printed %r, reported %r' % (module, ' '.join(os.path.basename(a) for a in args), status, raised, so[:100], se[-200:])
        return obs, so

    def add(self, **r):
        self.runs.append(r)

    def judge(self):
        byid = dict((r['id'], r) for r in self.runs)
        assert len(byid) == len(self.runs), [r['id'] for r in self.runs if byid[r['id']] is not r][:3]
        kinds = {}
        for r in self.runs:
            kinds.setdefault(r['kind'], []).append(r)
        for k, rs in sorted(kinds.items()):
            for a in range(0, len(rs), 2000):
                t = self.ctx.tlc('RecognitionTrace', invariants=['Emit'], data=rs[a:a + 2000])
                for p in t.prints:
                    r = byid[p['id']]
                    self.ctx.violation('%s-%s' % (k, p['bad'].replace(' ', '-')), '%s: %s (%s)' % (p['id'], p['bad'], harness.abbrev(self.details.get(p['id'], r), 400)), r)


def answers(path):
    """how the interface answers for a file"""
    from hwp5 import filestructure, recordstream, binmodel, xmlmodel
    from hwp5.errors import InvalidHwp5FileError
    out = []

    def ask(name, fn):
        o = guarded(fn, 20)
        if o[0] == 'ok':
            out.append([name, 'yes' if o[1] is True else 'no' if o[1] is False else 'answers %r' % (o[1],)])
        else:
            out.append([name, 'no' if o[0] == 'raise' and o[1] == 'InvalidHwp5FileError' else ' '.join(str(x) for x in o)[:200]])

    def opened(m):
        def go():
            h = m.Hwp5File(path)
            try:
                h.header.version
                return True
            finally:
                h.close()
        return go
    ask('is_hwp5file', lambda: filestructure.is_hwp5file(path))
    for m in (filestructure, recordstream, binmodel, xmlmodel):
        ask(m.__name__ + '.Hwp5File', opened(m))

    def base():
        h = filestructure.Hwp5FileBase(path)
        h.close()
        return True
    ask('Hwp5FileBase', base)

    def stored():
        # given an open container
        from hwp5.storage.ole import OleStorage
        from hwp5.errors import InvalidOleStorageError
        try:
            stg = OleStorage(path)
        except InvalidOleStorageError:
            return False
        try:
            yes = filestructure.storage_is_hwp5file(stg)
            try:
                filestructure.Hwp5File(stg)
                made = True
            except InvalidHwp5FileError:
                made = False
            return yes if yes == made else 'storage_is_hwp5file %s, Hwp5File %s' % (yes, made)
        finally:
            stg.close()
    ask('an open container', stored)
    return out


class Files(object):
    """files of the specification"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.made = {}
        paths = {'BIN0001.png': b'one' * 50}
        self.whole = {}
        for z in (False, True):
            p = package.write(ctx.path('whole.hwp'), [('embedding', 1, 'png')], paths, [(1, 'text'), (1, 'cell')], [], z)
            with open(p, 'rb') as f:
                self.whole[z] = docs.read_tree(f.read())

    def path(self, f, tag=''):
        key = repr(f) + tag
        if key not in self.made:
            self.made[key] = self.ctx.path('f%d.hwp' % len(self.made))
            with open(self.made[key], 'wb') as g:
                g.write(self.data(f))
        return self.made[key]

    def data(self, f):
        r = self.ctx.rng
        c = f['container']
        magic = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'
        if c == 'empty':
            return b''
        if c == 'text':
            return r.choice([b'text', b'HWP Document File V3.00 \x1a\x01\x02\x03\x04\x05' + b'\0' * 2000, 'HWP 문서'.encode('utf-8') * 1000, b'PK\x03\x04' + b'\0' * 3000, magic[1:] + b'\0' * 600])
        if c == 'magic':
            return magic[:r.choice([4, 7, 8, 8])]
        if c == 'blank':
            return magic + b'\0' * r.choice([100, 504, 505, 2000])
        z = r.random() < .5 and f['damage'] != 'garbage section'
        tree = dict(self.whole[z], BodyText=dict(self.whole[z]['BodyText']))
        kind, n = f['header']
        h = tree['FileHeader']
        if kind == 'long':
            tree['FileHeader'] = h + r.randbytes(r.choice([1, 100, 5000]))
        elif kind == 'short':
            tree['FileHeader'] = h[:n]
        elif kind == 'byte':
            tree['FileHeader'] = h[:n] + bytes([h[n] ^ r.choice([1, 0x20, 0x80, 0xff])]) + h[n + 1:]
        elif kind == 'missing':
            del tree['FileHeader']
        elif kind == 'storage':
            tree['FileHeader'] = {'FileHeader': h}
        d = f['damage']

        def whole(b):
            import zlib
            return zlib.decompress(b, -15) if z else b

        def stored(b):
            return docs.deflate(b) if z else b
        if d == 'no DocInfo':
            del tree['DocInfo']
        elif d == 'cut DocInfo':
            b = whole(tree['DocInfo'])
            tree['DocInfo'] = stored(b[:-r.randint(1, 20)])
        elif d == 'cut section':
            b = whole(tree['BodyText']['Section0'])
            tree['BodyText']['Section0'] = stored(b[:-r.choice([1, 2, 7, len(b) - 5])])
        elif d == 'garbage section':
            tree['BodyText']['Section0'] = b'\xff' * 100
        return docs.write_ole(tree)


def truncated(ctx, data, n):
    """damaged containers: what they are is not known"""
    r = ctx.rng
    for i in range(n):
        d = bytearray(data)
        k = r.random()
        if k < .3:
            d = d[:r.choice([r.randrange(1, len(d)), 512 * r.randrange(1, len(d) // 512 + 1) + r.choice([-1, 0, 1])])]
        else:
            for _ in range(r.choice([1, 1, 2, 8])):
                # not the number of sectors of tables, which only makes the container's reader busy
                x = r.choice([r.randrange(8, 44), r.randrange(48, 60), r.randrange(512, len(d))])
                d[x] = r.choice([0, 1, 0xff, r.randrange(256)])
        yield bytes(d)


def headers(ctx, bench, whole):
    """the header as it is reported"""
    r = ctx.rng
    from hwp5.filestructure import Hwp5File
    todo = []
    for bit in range(32):
        todo.append((bytes([1, 0, 0, 5]), struct.pack('<I', 1 << bit)))
    for v in (b'\0\0\0\0', b'\xff\xff\xff\xff', b'\1\2\3\4', b'\x0a\x64\xff\x05'):
        todo.append((v, struct.pack('<I', r.getrandbits(32))))
    for _ in range(ctx.pick(25, 600)):
        todo.append((r.randbytes(4), struct.pack('<I', r.getrandbits(32))))
    names = None
    for n, (v, fl) in enumerate(todo):
        tree = dict(whole)
        tree['FileHeader'] = whole['FileHeader'][:32] + v + fl + r.randbytes(216)
        p = ctx.path('h.hwp')
        with open(p, 'wb') as f:
            f.write(docs.write_ole(tree))
        id = 'header %d (%s %s)' % (n, v.hex(), fl.hex())

        def api():
            h = Hwp5File(p)
            try:
                flags = h.header.flags
                return list(h.header.version), [int(getattr(flags, x)) for x in ('compressed', 'password', 'distributable', 'script', 'drm', 'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted', 'cert_signature_extra', 'cert_drm', 'ccl')]
            finally:
                h.close()
        o = guarded(api)
        s1, o1 = bench.command(id, dict(name='version', view=''), [p])
        s2, o2 = bench.command(id, dict(name='header', view=''), [p])
        if o[0] != 'ok' or s1['status'] or s2['status']:
            ctx.violation('header', '%s: %s %s %s' % (id, o, s1, s2))
            continue
        lines = o2.decode('utf-8').splitlines()
        bench.add(id=id, kind='header', bytes=list(v), flagbytes=list(fl), version=o1.decode('utf-8').strip(), lines=lines, api=o[1][0], flags=o[1][1])
        ctx.validated += 1


def digest(data):
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogateescape')
    return '%d-%s' % (len(data), hashlib.sha1(data).hexdigest()[:16])


def views(ctx, bench, name, path):
    """the same content by command and by interface"""
    from hwp5.storage import ExtraItemStorage, iter_storage_leafs, open_storage_item
    from hwp5.storage.ole import OleStorage
    from hwp5.xmlmodel import Hwp5File
    from hwp5.recordstream import dump_record
    out = []

    def run(args, stdin=b''):
        status, so, se, o = cli.run('hwp5proc', args, stdin)
        return so if status == 0 else ('status %s %s' % (status, o)).encode()

    def tried(fn):
        o = guarded(fn, 60)
        return o[1] if o[0] == 'ok' else ('%s' % (o,)).encode()
    for view in ('', 'vstreams', 'ole'):
        flags = ['--' + view] if view else []
        stg = OleStorage(path) if view == 'ole' else Hwp5File(path)
        top = stg
        if view == 'vstreams':
            stg = ExtraItemStorage(stg)
        names = sorted(iter_storage_leafs(stg))
        listed = run(['ls'] + flags + [path]).decode('utf-8').splitlines()
        out.append(['ls ' + view, digest('\n'.join(sorted(listed))), digest('\n'.join(sorted(n.encode('unicode_escape').decode('utf-8') for n in names)))])
        contents = {}
        for n in names:
            def read():
                f = open_storage_item(stg, n).open()
                try:
                    d = f.read()
                    return d if isinstance(d, bytes) else d.encode('utf-8')
                finally:
                    if hasattr(f, 'close'):
                        f.close()
            if n.startswith('ViewText') and not ctx.thorough:
                continue
            contents[n] = tried(read)
        for n in (names if ctx.thorough else ctx.rng.sample(names, min(len(names), 9))):
            if n in contents:
                out.append(['cat %s %s' % (view, n.replace('\x05', '_')), digest(run(['cat'] + flags + [path, n])), digest(contents[n])])
        d = ctx.mkdir('u')
        if not contents or len(contents) == len(names):
            run(['unpack'] + flags + [path, d])
            got = dict((k, v) for k, v in c05.snapshot(d).items() if v is not None)
            want = dict((c05.ondisk(k.split('/')), v) for k, v in contents.items())
            out.append(['unpack ' + view, digest(repr(sorted((k, digest(v)) for k, v in got.items()))), digest(repr(sorted((k, digest(v)) for k, v in want.items())))])
        shutil.rmtree(d)
        top.close()
    h = Hwp5File(path)
    try:
        for n in ('DocInfo', 'BodyText/Section0'):
            stream = open_storage_item(h, n)
            recs = list(stream.records())
            simple = ''.join('%04d %s %s\n' % (r['seqno'], '  ' * r['level'], r['tagname']) for r in recs)
            out.append(['records --simple ' + n, digest(run(['records', '--simple', path, n])), digest(simple)])
            f = io.BytesIO()
            for r in recs:
                dump_record(f, r)
            out.append(['records --raw ' + n, digest(run(['records', '--raw', path, n])), digest(f.getvalue())])
            out.append(['records --raw-payload ' + n, digest(run(['records', '--raw-payload', path, n])), digest(b''.join(r['payload'] for r in recs))])
            out.append(['records ' + n, digest(run(['records', path, n])), digest(''.join(stream.records_json().generate()))])
            out.append(['records of standard input ' + n, digest(run(['records', '--raw'], open_storage_item(h, n).open().read())), digest(f.getvalue())])
            a = ctx.rng.randrange(len(recs))
            b = ctx.rng.randint(a, len(recs))
            out.append(['records --range %d-%d %s' % (a, b, n), digest(run(['records', '--raw-payload', '--range', '%d-%d' % (a, b), path, n])), digest(b''.join(r['payload'] for r in recs[a:b]))])
            models = list(stream.models())
            out.append(['models --simple ' + n, digest(run(['models', '--simple', path, n])), digest(''.join('%04d %s%s\n' % (m['seqno'], ' ' * m['level'], m['type'].__name__) for m in models))])
            out.append(['models ' + n, digest(run(['models', path, n])), digest(''.join(stream.models_json().generate()))])
        out.append(['find', digest(run(['find', '--format=%(stream)s %(seqno)s %(type)s', path])), digest(''.join('%s %d %s\n' % (n, m['seqno'], m['type'].__name__) for n, s in [('DocInfo', h.docinfo)] + [('BodyText/' + x, h.bodytext[x]) for x in h.bodytext] for m in s.models()))])
        for embed in (False, True):
            f = io.BytesIO()
            h.xmlevents(embedbin=embed).dump(f)
            out.append(['xml%s' % (' --embedbin' if embed else ''), digest(xml(ctx, path, embed)), digest(f.getvalue())])
    finally:
        h.close()
    bench.add(id='views of ' + name, kind='views', views=out)
    bench.details['views of ' + name] = [v for v in out if v[1] != v[2]]
    ctx.validated += 1


def xml(ctx, path, embed):
    p = ctx.path('x.xml')
    status, so, se, o = cli.run('hwp5proc', ['xml', '--no-validate-wellformed'] + (['--embedbin'] if embed else []) + ['--output', p, path])
    if status:
        return ('status %s %s' % (status, o)).encode()
    with open(p, 'rb') as f:
        return f.read()


def process(ctx, c, path, out):
    """the command as a process of its own"""
    module, args, stdin = argv(ctx, c, [path], out)
    env = dict(os.environ, PYTHONPATH=os.path.join(harness.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.argv[0] = %r; from hwp5.%s import main; sys.exit(main())' % (module, module)] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    return dict(status=p.returncode, raised='Traceback' if b'Traceback' in p.stderr else '', printed=bool(p.stdout.strip()), made=os.path.lexists(out), message=bool(p.stderr.strip()))


def run(ctx):
    lengths = '{%s}' % ', '.join(str(n) for n in (0, 1, 31, 32, 33, 35, 36, 39, 40, 255) + (tuple(range(0, 255, 16)) if ctx.thorough else ()))
    positions = '{%s}' % ', '.join(str(n) for n in ((0, 3, 16, 17, 18, 30, 31, 40, 255) if not ctx.thorough else tuple(range(32)) + (40, 100, 255)))
    t = ctx.tlc('Recognition', dict(Containers='{"empty", "text", "magic", "blank", "ole"}', Lengths=lengths, Positions=positions, MaxRuns=1), ['Stateless', 'Uniform', 'OleLeast', 'Damaged', 'Emit'])
    # sessions of two over few kinds of files: for the specification alone
    ctx.tlc('Recognition', dict(Containers='{"text", "ole"}', Lengths='{31, 255}', Positions='{31, 255}', MaxRuns=2), ['Stateless', 'Uniform', 'OleLeast', 'Damaged'])
    files = Files(ctx)
    bench = Bench(ctx)
    shown = [p['session'][0] for p in t.prints]
    ctx.log('%d files shown to commands' % len(shown))
    distinct = {}
    for s in shown:
        distinct.setdefault(repr(s['file']), s['file'])
    conv = [s for s in shown if s['outcome'] != 'refused' and (s['command']['name'] in CONVERT or s['command']['name'].startswith('find') or s['command']['view'] == 'vstreams')]
    cap = ctx.pick(120, 10000)
    keep = ctx.rng.sample(conv, min(cap, len(conv)))
    keep += [s for s in conv if s['outcome'] == 'failed' and s['command']['name'] in ('text', 'odt', 'html', 'xml') and s not in keep]
    todo = [s for s in shown if s not in conv] + keep
    ctx.rng.shuffle(todo)
    ctx.exhaustive = len(keep) == len(conv)
    for n, s in enumerate(todo):
        f, c = s['file'], s['command']
        path = files.path(f)
        id = '%s %s of a file with %s (%d)' % (c['name'], c['view'], ', '.join('%s %s' % (k, v if not isinstance(v, list) else ' '.join(str(x) for x in v)) for k, v in sorted(f.items()) if v), n)
        o, so = bench.command(id, c, [path], keep=ctx.rng.random() < .5)
        bench.add(id=id, kind='command', file=f, name=c['name'], view=c['view'], o=o)
        ctx.replayed += 1
    ctx.sample(dict(kind='command', behaviour=todo[-1]))
    for k, f in distinct.items():
        for i in range(ctx.pick(1, 4)):
            p = files.path(f, str(i))
            id = 'interface for a file with %s, variant %d' % (k, i)
            bench.add(id=id, kind='interface', file=f, answers=answers(p))
            bench.details[id] = [a for a in bench.runs[-1]['answers']]
    ctx.log('shown')
    # processes of their own
    byname = dict(((s['command']['name'], s['command']['view']), s['command']) for s in shown)
    for n in range(ctx.pick(8, 60)):
        s = ctx.rng.choice([s for s in shown if s['outcome'] == ('refused', 'failed', 'done', 'refused')[n % 4]])
        out = ctx.path('process-out')
        o = process(ctx, s['command'], files.path(s['file']), out)
        if os.path.isdir(out):
            shutil.rmtree(out)
        elif os.path.lexists(out):
            os.unlink(out)
        id = 'process %d: %s %s of %s' % (n, s['command']['name'], s['command']['view'], s['file'])
        bench.details[id] = o
        bench.add(id=id, kind='command', file=s['file'], name=s['command']['name'], view=s['command']['view'], o=o)
        ctx.replayed += 1
    # several files for find
    good = [f for f in distinct.values()]
    for n in range(ctx.pick(30, 400)):
        fs = [ctx.rng.choice(good) if ctx.rng.random() < .5 else dict(container='ole', header=['good', 0], damage='') for _ in range(ctx.rng.choice([2, 3]))]
        c = byname[ctx.rng.choice(['find', 'find from stdin']), '']
        id = 'find %d: %s' % (n, ' then '.join('%s %s %s' % (f['container'], f['header'], f['damage']) for f in fs))
        o, so = bench.command(id, c, [files.path(f) for f in fs])
        bench.add(id=id, kind='files', files=fs, name=c['name'], view='', o=o)
        ctx.validated += 1
    headers(ctx, bench, files.whole[False])
    ctx.log('headers')
    # containers with damages
    with open(files.path(dict(container='ole', header=['good', 0], damage='')), 'rb') as f:
        data = f.read()
    for n, d in enumerate(truncated(ctx, data, ctx.pick(250, 6000))):
        p = ctx.path('damaged.hwp')
        with open(p, 'wb') as f:
            f.write(d)
        a = answers(p)
        id = 'damaged container %d' % n
        o, so = bench.command(id, byname['version', ''], [p])
        refusal = o['raised'] == '' and o['status'] and not o['printed'] and not o['made'] and o['message']
        a.append(['hwp5proc version', 'yes' if o['status'] == 0 and o['raised'] == '' else 'no' if refusal else 'status %s %s' % (o['status'], o['raised'])])
        if n % 10 == 0:
            o, so = bench.command(id, byname['ls', 'ole'], [p])
            if o['raised']:
                a.append(['hwp5proc ls --ole', o['raised']])
        bench.add(id=id, kind='consistent', answers=a)
        bench.details[id] = a
        ctx.validated += 1
    ctx.log('damaged containers')
    for n in sorted(os.listdir(harness.FIXTURES)):
        if n.endswith('.hwp') and (ctx.thorough or os.path.getsize(os.path.join(harness.FIXTURES, n)) < 40000):
            path = os.path.join(harness.FIXTURES, n)
            with open(path, 'rb') as f:
                tree = docs.read_tree(f.read())
            flags = tree['FileHeader'][36]
            if flags & 2 or 'BodyText' not in tree:
                continue
            o = guarded(lambda: views(ctx, bench, n, path), 300)
            if o[0] != 'ok':
                ctx.violation('views', '%s: %s' % (n, harness.abbrev(o[1:])))
    for i in range(ctx.pick(2, 20)):
        views(ctx, bench, 'document %d' % i, files.path(dict(container='ole', header=['good', 0], damage=''), 'v%d' % i))
    ctx.log('views')
    bench.judge()
    ctx.count('observations', len(bench.runs))
