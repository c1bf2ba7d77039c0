# -*- coding: utf-8 -*-
"""C20: resources are released however a conversion ends"""
import contextlib
import gc
import hashlib
import os
import shutil
import tempfile
import zipfile

from lib import cli, docs, harness, package, resources
from lib.harness import guarded

MODES = ('xml', 'text', 'css', 'xhtml', 'html', 'fodt', 'styles', 'content', 'odt')
ARGV = {'xml': ('hwp5proc', ['xml', '--no-validate-wellformed']), 'text': ('hwp5txt', []), 'css': ('hwp5html', ['--css']), 'xhtml': ('hwp5html', ['--html']),
        'html': ('hwp5html', []), 'fodt': ('hwp5odt', ['--document']), 'styles': ('hwp5odt', ['--styles']), 'content': ('hwp5odt', ['--content']), 'odt': ('hwp5odt', [])}


def digest(path):
    """of what was converted"""
    h = hashlib.sha1()
    if os.path.isdir(path):
        for base, ds, fs in sorted(os.walk(path)):
            for n in sorted(fs):
                with open(os.path.join(base, n), 'rb') as f:
                    h.update(('%s %s\n' % (os.path.relpath(os.path.join(base, n), path), hashlib.sha1(f.read()).hexdigest())).encode())
    elif not os.path.exists(path):
        return 'nothing'
    elif zipfile.is_zipfile(path):
        with zipfile.ZipFile(path) as z:
            for n in z.namelist():
                h.update(('%s %s\n' % (n, hashlib.sha1(z.read(n)).hexdigest())).encode())
    else:
        with open(path, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


class Commands(object):
    """the commands"""
    reuse = False

    def convert(self, path, mode, out):
        module, args = ARGV[mode]
        status, so, se, o = cli.run(module, args + ['--output', out, path], seconds=120)
        if o[0] == 'raise':
            return 'raise', o[1:]
        if o[0] != 'ok':
            return 'hang', o
        return ('ok', None) if not status else ('status', status)


class Converters(object):
    """the programming interface, with the same converters again and again"""
    reuse = True

    def __init__(self):
        from hwp5.hwp5odt import ODTTransform
        from hwp5.hwp5html import HTMLTransform
        from hwp5.hwp5txt import TextTransform
        self.odt, self.html, self.text = ODTTransform(), HTMLTransform(), TextTransform()

    def document(self, path):
        from contextlib import closing
        from hwp5.xmlmodel import Hwp5File
        return closing(Hwp5File(path))

    def go(self, path, mode, out):
        from hwp5.hwp5odt import open_odtpkg
        from hwp5.hwp5html import open_dir
        self.odt.embedbin = mode == 'fodt'
        with self.document(path) as h:
            if mode == 'odt':
                with open_odtpkg(out) as pkg:
                    self.odt.transform_hwp5_to_package(h, pkg)
            elif mode == 'html':
                with open_dir(out) as d:
                    self.html.transform_hwp5_to_dir(h, d)
            else:
                with open(out, 'wb') as f:
                    {'xml': lambda: h.xmlevents().dump(f), 'text': lambda: self.text.transform_hwp5_to_text(h, f), 'css': lambda: self.html.transform_hwp5_to_css(h, f),
                     'xhtml': lambda: self.html.transform_hwp5_to_xhtml(h, f), 'fodt': lambda: self.odt.transform_hwp5_to_single_document(h, f),
                     'styles': lambda: self.odt.transform_hwp5_to_styles(h, f), 'content': lambda: self.odt.transform_hwp5_to_content(h, f)}[mode]()

    def convert(self, path, mode, out):
        o = guarded(lambda: self.go(path, mode, out), 120)
        return ('ok', None) if o[0] == 'ok' else (o[0], o[1:])


class Handle(Converters):
    """the same, and the document is open already"""

    def __init__(self, path):
        from hwp5.xmlmodel import Hwp5File
        Converters.__init__(self)
        self.handle = Hwp5File(path)

    @contextlib.contextmanager
    def document(self, path):
        yield self.handle


class Runner(object):
    def __init__(self, ctx, document):
        self.ctx, self.document = ctx, document
        self.out = ctx.path('out')
        self.tmp = ctx.mkdir('tmp')
        self.runs = []
        self.reference = {}

    def clear(self):
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        elif os.path.lexists(self.out):
            os.unlink(self.out)

    def convert(self, by, mode, fail=None, id='', document=None, expected=None, out=None):
        """expected: '' if it ought to succeed, else what is wrong with the document"""
        self.clear()
        if mode not in ('html',):
            with open(self.out, 'wb') as f:
                f.write(b'what was there before' * 1000)
        saved = tempfile.tempdir
        gc.collect()
        gc.disable()
        tempfile.tempdir = self.tmp
        before = resources.descriptors()
        try:
            with resources.Watch(document or self.document, self.out, self.tmp, fail) as w:
                try:
                    outcome = by.convert(document or self.document, mode, out or self.out)
                except KeyboardInterrupt:
                    if w.fired == '':
                        raise
                    outcome = 'raise', 'KeyboardInterrupt'
            after = resources.descriptors()
            # the directory itself is not the conversion's to remove
            if not os.path.isdir(self.tmp):
                self.ctx.violation('removed-directory', '%s: the directory for temporary files is removed' % (by,))
                os.makedirs(self.tmp)
            left = os.listdir(self.tmp)
        finally:
            tempfile.tempdir = saved
            gc.enable()
        for n in left:
            p = os.path.join(self.tmp, n)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        failed = (w.fired or '') if expected is None else expected
        ok = outcome[0] == 'ok'
        got = digest(self.out) if ok and not failed and out is None else ''
        if mode not in self.reference and got:
            self.reference[mode] = got
        # a failed conversion is not a truth about a result
        new = [v for k, v in after.items() if before.get(k) != v]
        if outcome[0] == 'hang':
            self.ctx.violation('hang', '%s does not end' % id)
        self.runs.append(dict(id=id, events=w.events, failed=failed, ok=ok, same=not got or got == self.reference[mode], descriptors=', '.join(new), files=', '.join(left)))
        return w, outcome

    def judge(self):
        byid = dict((r['id'], r) for r in self.runs)
        assert len(byid) == len(self.runs)
        for a in range(0, len(self.runs), 1500):
            t = self.ctx.tlc('ResourcesTrace', invariants=['Emit'], data=self.runs[a:a + 1500])
            for p in t.prints:
                r = byid[p['id']]
                what = {'left open': sorted(p['opened']), 'temporary files left': sorted(p['made']), 'descriptors left': r['descriptors'], 'files left among temporary files': r['files']}.get(p['bad'], '')
                self.ctx.violation('trace-' + p['bad'].replace(' ', '-'), '%s: %s %s' % (p['id'], p['bad'], harness.abbrev(what)), r)


def small(ctx, name, compressed=True):
    paths = {'BIN0001.png': b'one' * 50, 'BIN0002.jpg': b'two' * 50}
    return package.write(ctx.path(name), [('embedding', 1, 'png'), ('embedding', 2, 'jpg')], paths, [(1, 'text'), (2, 'cell')], [(1,)], compressed)


def broken(ctx):
    """documents whose conversion fails on its own: (what, path, modes)"""
    with open(small(ctx, 'plain.hwp', False), 'rb') as f:
        plain = docs.read_tree(f.read())
    with open(small(ctx, 'whole.hwp'), 'rb') as f:
        whole = docs.read_tree(f.read())

    def make(name, base, edit):
        tree = dict(base, BodyText=dict(base['BodyText']), BinData=dict(base['BinData']))
        edit(tree)
        with open(ctx.path(name), 'wb') as f:
            f.write(docs.write_ole(tree))
        return ctx.path(name)

    def cut(tree):
        tree['BodyText']['Section0'] = tree['BodyText']['Section0'][:-3]

    def garbage(tree):
        tree['BodyText']['Section0'] = b'\xff' * 100

    def styles(tree):
        del tree['DocInfo']

    def bin(tree):
        del tree['BinData']['BIN0002.jpg']

    def noheader(tree):
        del tree['FileHeader']

    def signature(tree):
        tree['FileHeader'] = b'X' + tree['FileHeader'][1:]

    def short(tree):
        tree['FileHeader'] = tree['FileHeader'][:40]
    yield 'a section that ends within a record', make('b1.hwp', plain, cut), MODES
    yield 'a section which is not deflated', make('b2.hwp', whole, garbage), MODES
    yield 'no DocInfo', make('b3.hwp', plain, styles), MODES
    yield 'a missing item', make('b4.hwp', whole, bin), ('fodt',)
    yield 'no header', make('b5.hwp', plain, noheader), MODES
    yield 'another signature', make('b6.hwp', plain, signature), MODES
    yield 'a short header', make('b7.hwp', plain, short), MODES
    with open(ctx.path('b8.hwp'), 'wb') as f:
        f.write(b'not an OLE file' * 500)
    yield 'not an OLE file', ctx.path('b8.hwp'), MODES


def terminal(ctx, run, by):
    """output to a terminal, through pager, highlighting and xmllint"""
    import pty
    import threading
    saved = os.environ.get('PAGER')
    try:
        for pager, fail in [('cat', None), ('cat', ('transform hwp5html', 1, resources.Injected, False)), ('cat', ('stream', 2, resources.Injected, False)), ('cat', ('write', 1, resources.Injected, False)), ('true', None), ('no-such-program', None),
                            ('head -c 20', None), ('head -c 20', ('write', 1, resources.Injected, False))]:
            for mode in ('xhtml', 'css', 'xml', 'fodt'):
                if fail and fail[0].startswith('transform') and mode != 'xhtml':
                    continue
                if not ctx.thorough and pager != 'cat' and mode not in ('css', 'xhtml'):
                    continue
                os.environ['PAGER'] = pager
                master, slave = pty.openpty()
                name = os.ttyname(slave)
                got = []

                def drain():
                    while True:
                        try:
                            d = os.read(master, 65536)
                        except OSError:
                            return
                        if not d:
                            return
                        got.append(d)
                th = threading.Thread(target=drain, daemon=True)
                th.start()
                try:
                    w, o = run.convert(by, mode, fail, '%s to a terminal with PAGER=%s%s' % (mode, pager, ', failing at ' + fail[0] if fail else ''), out=name)
                finally:
                    os.close(slave)
                    th.join(10)
                    os.close(master)
                if o[0] == 'ok' and pager == 'cat' and not b''.join(got).strip():
                    ctx.violation('terminal-nothing', '%s to a terminal with PAGER=%s: nothing is shown' % (mode, pager))
                ctx.validated += 1
    finally:
        if saved is None:
            os.environ.pop('PAGER', None)
        else:
            os.environ['PAGER'] = saved


def run(ctx):
    modes = '{%s}' % ', '.join('"%s"' % m for m in MODES)
    inv = ['Released', 'Balanced', 'Enclosed', 'NoTwice', 'Order', 'Compiled', 'Emit']
    document = small(ctx, 'document.hwp')
    ways = [Commands(), Converters(), Handle(document)]
    hist = {}
    for by in ways:
        reuse = 'TRUE' if by.reuse else 'FALSE'
        one = ctx.tlc('Resources', dict(Modes=modes, MaxRuns=1, MaxFailures=1, Reuse=reuse), inv).prints
        two = ctx.tlc('Resources', dict(Modes=modes, MaxRuns=2, MaxFailures=ctx.pick(1, 2), Reuse=reuse), inv).prints
        hist[by] = [p['runs'] for p in one], [p['runs'] for p in two]
    ctx.log('histories: %s' % [(len(a), len(b)) for a, b in hist.values()])
    run = Runner(ctx, document)
    steps = {}

    def fresh(by):
        return Handle(document) if isinstance(by, Handle) else Converters() if by.reuse else by
    for by in ways:
        for m in MODES:
            # the first one may import modules
            by.convert(document, m, run.out)
            run.clear()
            by2 = fresh(by)
            w, o = run.convert(by2, m, None, '%s by %s' % (m, type(by).__name__))
            if o[0] != 'ok':
                ctx.violation('fails', '%s of a good document fails: %s' % (m, harness.abbrev(o[1])))
            steps[by, m] = w.steps
    ctx.log('steps %s' % dict((m, len(steps[ways[0], m])) for m in MODES))
    ctx.count('steps of conversions', sum(len(s) for s in steps.values()))
    missed = set()

    def history(by, runs, n):
        by = fresh(by)
        for i, r in enumerate(runs):
            fail = None
            if r['failed']:
                count = steps[by0, r['mode']].count(r['failed'])
                if not count:
                    missed.add(r['failed'])
                    return
                kind = ctx.rng.choice(sorted(resources.KINDS))
                fail = (r['failed'], ctx.rng.randint(1, count), resources.KINDS[kind], ctx.rng.random() < .3)
            w, o = run.convert(by, r['mode'], fail, 'history %d: %s by %s, conversion %d%s' % (n, ' then '.join('%s%s' % (x['mode'], ' failing at %s' % x['failed'] if x['failed'] else '') for x in runs), type(by).__name__, i + 1, ' (%d of %s)' % (fail[1], r['failed']) if fail else ''))
            if len(ctx.violations) > 60:
                return
    n = 0
    for by0 in ways:
        one, two = hist[by0]
        if isinstance(by0, Handle):
            one = ctx.rng.sample(one, min(len(one), ctx.pick(20, 1000)))
            two = [runs for runs in two if runs[0]['failed'] not in ('', 'open document', 'header', 'leave document')]
        for runs in one + ctx.rng.sample(two, min(len(two), ctx.pick(30, 700))):
            n += 1
            history(by0, runs, n)
            ctx.replayed += 1
    ctx.log('replayed %d, %d runs' % (n, len(run.runs)))
    ctx.sample(dict(kind='history', behaviour=runs))
    # a failure at every step
    for by0 in ways:
        for m in MODES:
            # all the steps, or some with each label
            at = {}
            for k, label in enumerate(steps[by0, m]):
                at.setdefault(label, []).append(k + 1)
            every = set()
            for label, ks in at.items():
                limit = ctx.pick(1 if by0.reuse else 2, 60)
                every |= set(ks if len(ks) <= limit else ctx.rng.sample(ks, limit - 1) + [ctx.rng.choice([ks[-1], ks[len(ks) // 2]])])
            for k in sorted(every):
                by = fresh(by0) if ctx.rng.random() < .2 else by0
                kind = ctx.rng.choice(sorted(resources.KINDS))
                run.convert(by, m, (None, k, resources.KINDS[kind], ctx.rng.random() < .3), '%s by %s, step %d fails (%s)' % (m, type(by).__name__, k, kind))
                ctx.validated += 1
            run.convert(by0, m, None, '%s by %s, after failures' % (m, type(by0).__name__))
    ctx.log('steps failed')
    for what, path, ms in broken(ctx):
        for m in ms:
            for by in ways[:2]:
                w, o = run.convert(by, m, None, '%s by %s of a document with %s' % (m, type(by).__name__, what), document=path, expected=what)
                ctx.validated += 1
    for m in MODES:
        run.convert(ways[1], m, None, '%s by Converters, after broken documents' % m)
    # not a document: looked at, and closed
    from hwp5.filestructure import is_hwp5file

    class Look(object):
        def convert(self, path, mode, out):
            o = guarded(lambda: is_hwp5file(path))
            return ('ok', None) if o[0] == 'ok' and o[1] is True else ('no', o)
    run.convert(Look(), 'xml', None, 'looking at a document', out='nothing')
    for what, path, ms in broken(ctx):
        if 'header' in what or 'signature' in what or 'OLE' in what:
            run.convert(Look(), 'xml', None, 'looking at a file with %s' % what, document=path, expected=what, out='nothing')
    terminal(ctx, run, ways[0])
    ctx.log('terminals done')
    if missed:
        ctx.log('steps which do not occur: %s' % sorted(missed))
    run.judge()
    ctx.count('conversions', len(run.runs))
