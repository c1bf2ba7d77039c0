# -*- coding: utf-8 -*-
"""Reading parts of documents in histories"""
import hashlib
import io
import os
import pickle

from . import docs, harness


def canon(v, depth=0, seen=()):
    """a value as text that says all about it"""
    if depth > 60:
        return '...'
    if v is None or isinstance(v, (bool, str, bytes)):
        return repr(v)
    if isinstance(v, int):
        return repr(int(v)) if type(v) is int else '%s:%d' % (type(v).__name__, int(v))
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, type):
        return 'type ' + v.__name__
    if id(v) in seen:
        return 'again'
    seen = seen + (id(v),)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % x for x in sorted((canon(k, depth + 1, seen), canon(x, depth + 1, seen)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(canon(x, depth + 1, seen) for x in v)
    if isinstance(v, BaseException) or callable(v) or hasattr(v, 'read'):
        return type(v).__name__
    if type(v).__module__.startswith('hwp5') and hasattr(v, '__dict__'):
        return '%s%s' % (type(v).__name__, canon(dict((k, x) for k, x in vars(v).items() if not k.startswith('_')), depth + 1, seen))
    return str(v)


def digest(v):
    return hashlib.md5(canon(v).encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def pieces(f, size):
    try:
        while True:
            d = f.read(size)
            if not d:
                return
            yield d
    finally:
        if hasattr(f, 'close'):
            f.close()


def no_context(events):
    for event, (model, attributes, context) in events:
        yield event, model, attributes


def item(h, path):
    from hwp5.storage import open_storage_item
    return open_storage_item(h, path)


def leafs(h):
    from hwp5.storage import iter_storage_leafs
    return iter(list(iter_storage_leafs(h)))


def lazy_leafs(h):
    from hwp5.storage import iter_storage_leafs
    return iter_storage_leafs(h)


def in_turns(groups):
    """an item of each in turn"""
    its = [iter(g) for g in groups]
    while its:
        for it in list(its):
            try:
                yield next(it)
            except StopIteration:
                its.remove(it)


def extra(h):
    from hwp5.storage import ExtraItemStorage
    return ExtraItemStorage(h)


ONE = {}


def converted(kind):
    """by transformations that are made once in a process"""
    def convert(h):
        from hwp5.hwp5txt import TextTransform
        from hwp5.hwp5html import HTMLTransform
        from hwp5.hwp5odt import ODTTransform
        module = {'text': TextTransform, 'xhtml': HTMLTransform, 'css': HTMLTransform}.get(kind, ODTTransform)
        if module not in ONE:
            ONE[module] = module()
        f = io.BytesIO()
        getattr(ONE[module], 'transform_hwp5_to_' + kind)(h, f)
        yield f.getvalue()
    return convert


# part -> (handle -> iterator); those of 'volatile' give values that are filled while they are read
PARTS = {
    'header.version': lambda h: [h.header.version],
    'header.get_version': lambda h: [h.header.get_version()],
    'header.flags': lambda h: [int(h.header.flags)],
    'header.get_flags': lambda h: [int(h.header.get_flags())],
    'header.value': lambda h: [h.header.value],
    'header.to_dict': lambda h: [h.header.to_dict()],
    'header.text': lambda h: pieces(h.header.open_text(), 40),
    'preview.utf8': lambda h: [h.preview_text.utf8],
    'preview.get_utf8': lambda h: [h.preview_text.get_utf8()],
    'preview.text': lambda h: [h.preview_text.text],
    'preview.get_text': lambda h: [h.preview_text.get_text()],
    'preview.str': lambda h: [str(h.preview_text)],
    'preview stream': lambda h: pieces(h.preview_text.open_utf8(), 16),
    'summary': lambda h: (getattr(h.summaryinfo, n) for n in ('title', 'subject', 'author', 'keywords', 'comments', 'lastSavedBy', 'numberOfPages', 'dateString')),
    'summary.get': lambda h: [h.summaryinfo.getHwpSummaryInfoPropertySet(), h.summaryinfo.getPropertySetStream()],
    'summary.set': lambda h: [h.summaryinfo.propertySet, h.summaryinfo.propertySetStream],
    'summary lines': lambda h: iter(h.summaryinfo.plaintext_lines),
    'summary events': lambda h: no_context(h.summaryinfo.events()),
    'records DocInfo': lambda h: h.docinfo.records(),
    'records Section0': lambda h: h.text.section(0).records(),
    'records json': lambda h: pieces(h.docinfo.records_json().open(), 300),
    'record 2': lambda h: [h.docinfo.record(2), h.text.section(0).record(2)],
    'records range': lambda h: h.text.section(0).records(range=(2, 9)),
    'records treegroup': lambda h: h.docinfo.records(treegroup=1),
    'records treegrouped': lambda h: h.text.section(0).records_treegrouped(),
    'models DocInfo': lambda h: h.docinfo.models(),
    'models Section0': lambda h: h.text.section(0).models(),
    'models treegroup': lambda h: h.text.section(0).models(treegroup=0),
    'models treegrouped': lambda h: (list(x) for x in h.text.section(0).models_treegrouped()),
    'models treegrouped, last first': lambda h: (list(x) for x in reversed(list(h.text.section(0).models_treegrouped()))),
    'models treegrouped, in turns': lambda h: in_turns(list(h.text.section(0).models_treegrouped())),
    'docinfo idmappings': lambda h: [h.docinfo.idmappings],
    'docinfo facenames': lambda h: iter(sorted(h.docinfo.facenames_by_lang.items())),
    'docinfo charshapes': lambda h: h.docinfo.charshapes,
    'docinfo face': lambda h: [h.docinfo.get_charshape(0), h.docinfo.charshape_lang_facename(0, 'ko')],
    'models json': lambda h: pieces(h.text.section(0).models_json().open(), 500),
    'model 3': lambda h: [h.docinfo.model(3)],
    'model events DocInfo': lambda h: h.docinfo.parse_model_events(),
    'model events Section0': lambda h: h.text.section(0).parse_model_events(),
    'events DocInfo': lambda h: no_context(h.docinfo.events()),
    'events Section0': lambda h: no_context(h.text.section(0).events()),
    'events BodyText': lambda h: no_context(h.text.events()),
    'events': lambda h: no_context(h.events()),
    'events embedbin': lambda h: no_context(h.events(embedbin=True)),
    'xml events': lambda h: iter(h.xmlevents()),
    'xml chunks': lambda h: h.xmlevents().bytechunks(),
    'xml file': lambda h: pieces(h.xmlevents().open(), 1000),
    'sections': lambda h: [sorted(h.text.section_indexes()), list(h.text)],
    'listing': lambda h: lazy_leafs(h),
    'names': lambda h: iter(h),
    'names of BodyText': lambda h: iter(h['BodyText']),
    'listing with views': lambda h: leafs(extra(h)),
    'view Section0.xml': lambda h: pieces(item(extra(h), 'BodyText/Section0.xml').open(), 700),
    'view DocInfo.models': lambda h: pieces(item(extra(h), 'DocInfo.models').open(), 700),
    'view FileHeader.txt': lambda h: pieces(item(extra(h), 'FileHeader.txt').open(), 10),
    'stream DocInfo': lambda h: pieces(h['DocInfo'].open(), 100),
    'stream Section0': lambda h: pieces(item(h, 'BodyText/Section0').open(), 100),
    'stream FileHeader': lambda h: pieces(h['FileHeader'].open(), 30),
    'streams': lambda h: (hashlib.md5(item(h, n).open().read()).hexdigest() for n in leafs(h)),
}
CONVERSIONS = ('text', 'xhtml', 'css', 'content', 'styles', 'single_document')
for kind in CONVERSIONS:
    PARTS['conversion to ' + kind] = converted(kind)
VOLATILE = ('model events DocInfo', 'model events Section0')


class Reader(object):
    """gives (digest, value) of the items of a part; a failure is an item, and then the end"""

    def __init__(self, h, part):
        self.part = part
        self.over = False
        try:
            self.it = iter(PARTS[part](h))
        except (KeyboardInterrupt, harness.Hang):
            raise
        except Exception as e:
            self.it = iter([('raise', type(e).__name__)])

    def next(self):
        if self.over:
            # what is over stays so
            try:
                v = next(self.it)
            except StopIteration:
                return None
            except Exception:
                return None
            return digest(v), v
        try:
            v = next(self.it)
        except StopIteration:
            self.over = True
            return None
        except (KeyboardInterrupt, harness.Hang, MemoryError):
            raise
        except Exception as e:
            self.over = True
            self.it = iter(())
            v = ('raise', type(e).__name__)
        return digest(v), v

    def take(self, n=None):
        out = []
        while n is None or len(out) < n:
            x = self.next()
            if x is None:
                break
            out.append(x)
        return out

    def drop(self):
        close = getattr(self.it, 'close', None)
        if close is not None:
            close()
        self.it = iter(())


def opener(layer):
    import importlib
    return importlib.import_module('hwp5.' + layer).Hwp5File


def storage(path, form):
    """of a document, by its form: what handles can be made of"""
    from hwp5.storage.ole import OleStorage
    from hwp5.storage.fs import FileSystemStorage
    if form == 'path':
        return path
    if form == 'ole':
        return OleStorage(path)
    d = path + '.d'
    if not os.path.exists(d):
        def put(at, tree):
            os.mkdir(at)
            for name, x in tree.items():
                to = os.path.join(at, name)
                if isinstance(x, dict):
                    put(to, x)
                else:
                    with open(to, 'wb') as f:
                        f.write(x)
        put(d, docs.read_tree(path))
    return FileSystemStorage(d)


def references(paths, parts, scratch, limit=8):
    """{(path, part): [digest]}, each read by a process that reads nothing else"""
    import hwp5.xmlmodel, hwp5.binmodel, hwp5.recordstream, hwp5.storage    # noqa
    todo = [(p, q) for p in paths for q in parts]
    out, running = {}, {}

    def collect():
        pid, status = os.wait()
        if pid not in running:
            return
        key, f = running.pop(pid)
        if status != 0:
            raise harness.CheckError('reading %s of %s alone fails' % (key[1], os.path.basename(key[0])))
        with open(f, 'rb') as fp:
            out[key] = pickle.load(fp)
        os.unlink(f)
    for n, key in enumerate(todo):
        while len(running) >= limit:
            collect()
        f = os.path.join(scratch, 'ref%d' % n)
        pid = os.fork()
        if pid == 0:
            try:
                import signal
                signal.alarm(100)
                res = [d for d, v in Reader(opener('binmodel' if key[1].startswith('docinfo') else 'xmlmodel')(key[0]), key[1]).take()]
                with open(f, 'wb') as fp:
                    pickle.dump(res, fp)
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
            os._exit(1)
        running[pid] = key, f
    while running:
        collect()
    return out


def relabel(src, version, path, summary=None):
    """the document as one of another version"""
    import struct
    tree = docs.read_tree(src)
    h = bytearray(tree['FileHeader'])
    h[32:36] = bytes(reversed(version))
    tree['FileHeader'] = bytes(h)
    if summary is not None:
        tree[u'\x05HwpSummaryInformation'] = summary
    with open(path, 'wb') as f:
        f.write(docs.write_ole(tree))
    return path
