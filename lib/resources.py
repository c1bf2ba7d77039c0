# -*- coding: utf-8 -*-
"""Watch what a conversion takes and gives back, and make it fail at a step.

Files are opened, temporary files created and removed, XML transformed and
validated through the functions replaced here; each such step has a label.
"""
import builtins
import errno
import gc
import io
import os
import tempfile


class Injected(Exception):
    pass


class Proxy(object):
    """an open file; events and failures go through the watch"""

    def __init__(self, watch, f, label, id):
        self.__dict__.update(_watch=watch, _f=f, _label=label, _id=id)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def read(self, *a):
        if self._label in ('input', 'temporary'):
            self._watch.step('read')
        return self._f.read(*a)

    def write(self, data):
        if self._label == 'output':
            self._watch.step('write output')
        elif self._label == 'temporary':
            self._watch.step('write')
        return self._f.write(data)

    def close(self):
        was = self._f.closed
        self._f.close()
        if not was:
            self._watch.event('close', self._id)
            if self._label in ('output', 'document'):
                self._watch.step('leave ' + self._label)


class Watch(object):
    """with Watch(document, outputs, tmp, fail=(label or None, number, exception)) as w: ..."""

    def __init__(self, document, output, tmp, fail=None):
        self.document, self.output, self.tmp = os.path.abspath(document), os.path.abspath(output), os.path.abspath(tmp)
        self.fail = fail
        self.events, self.steps, self.kept = [], [], []
        self.fired = ''
        self.ids = 0
        self.inside = 0

    # ------------------------------------------------------------- recording
    def event(self, what, id):
        self.events.append([what, id])

    def step(self, label):
        self.steps.append(label)
        if not self.fail:
            return
        want, number, make, persistent = self.fail
        if self.fired:
            # archives are opened again if that fails
            if (persistent or label == 'open output') and label == self.fired:
                raise make()
            return
        n = self.steps.count(label) if want is not None else len(self.steps)
        if (want is None or want == label) and n == number:
            self.fired = label
            raise make()

    def label(self, path):
        path = os.path.abspath(path)
        if path == self.document:
            return 'document'
        if path == self.output or path.startswith(self.output + os.sep):
            return 'output'
        if path.startswith(self.tmp + os.sep):
            return 'input'
        return None

    # -------------------------------------------------------------- replacing
    def __enter__(self):
        import lxml.etree
        import olefile
        self.saved = []
        real_open = io.open
        real_mkstemp, real_unlink, real_openstream = tempfile.mkstemp, os.unlink, olefile.OleFileIO.openstream
        created = {}

        def opened(file, *a, **kw):
            if isinstance(file, int):
                label = created.get(file)
                if label is None:
                    return real_open(file, *a, **kw)
                del created[file]
                # what was created is open already
                f = real_open(file, *a, **kw)
                p = Proxy(self, f, 'temporary', label)
                self.kept.append(p)
                return p
            try:
                label = self.label(os.fspath(file))
            except Exception:
                label = None
            if label is None:
                return real_open(file, *a, **kw)
            self.step('open ' + label)
            f = real_open(file, *a, **kw)
            self.ids += 1
            id = '%s %d' % (label, self.ids)
            p = Proxy(self, f, label, id)
            self.kept.append(p)
            self.event('open', id)
            return p

        def mkstemp(*a, **kw):
            self.step('create')
            fd, name = real_mkstemp(*a, **kw)
            self.ids += 1
            id = 'temporary %d' % self.ids
            created[fd] = id
            self.event('create', os.path.basename(name))
            self.event('open', id)
            return fd, name

        def unlink(path, *a, **kw):
            real_unlink(path, *a, **kw)
            if os.path.dirname(os.path.abspath(path)) == self.tmp:
                self.event('remove', os.path.basename(path))

        def openstream(ole, name):
            self.step('header' if name in ('FileHeader', ['FileHeader']) else 'stream')
            return real_openstream(ole, name)

        watch = self
        names = {}

        real_xslt, real_rng = lxml.etree.XSLT, lxml.etree.RelaxNG

        class XSLT(real_xslt):
            def __init__(self, doc, *a, **kw):
                name = os.path.splitext(os.path.basename(str(getattr(getattr(doc, 'docinfo', None), 'URL', None) or '')))[0]
                watch.step('compile ' + name)
                real_xslt.__init__(self, doc, *a, **kw)
                names[id(self)] = name

            def __call__(self, *a, **kw):
                Watch.current.step('transform ' + names.get(id(self), ''))
                return super(XSLT, self).__call__(*a, **kw)

        class RelaxNG(real_rng):
            def __init__(self, *a, **kw):
                watch.step('compile rng')
                real_rng.__init__(self, *a, **kw)

            def validate(self, *a, **kw):
                Watch.current.step('validate')
                return super(RelaxNG, self).validate(*a, **kw)

            def __call__(self, *a, **kw):
                Watch.current.step('validate')
                return super(RelaxNG, self).__call__(*a, **kw)

        for owner, name, value in ((builtins, 'open', opened), (io, 'open', opened), (tempfile, 'mkstemp', mkstemp), (os, 'unlink', unlink), (os, 'remove', unlink),
                                   (olefile.OleFileIO, 'openstream', openstream), (lxml.etree, 'XSLT', XSLT), (lxml.etree, 'RelaxNG', RelaxNG)):
            self.saved.append((owner, name, getattr(owner, name)))
            setattr(owner, name, value)
        Watch.current = self
        return self

    def __exit__(self, *a):
        for owner, name, value in reversed(self.saved):
            setattr(owner, name, value)
        for p in self.kept:
            try:
                p._f.close()
            except Exception:
                pass
        Watch.current = Idle()

    current = None


class Idle(object):
    def step(self, label):
        pass


def descriptors():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


def enospc():
    return OSError(errno.ENOSPC, 'No space left on device')


KINDS = {'error': Injected, 'full': enospc, 'interrupt': KeyboardInterrupt, 'lookup': lambda: KeyError('injected'), 'value': lambda: ValueError('injected')}
