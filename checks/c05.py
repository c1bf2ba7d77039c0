# -*- coding: utf-8 -*-
"""C05: listing, addressing and unpacking agree and stay contained"""
import json
import os
import shutil
import struct
import xml.etree.ElementTree as ET

from lib import cli, docs, harness
from lib.harness import guarded

INV = 'Contained Mirrors OnlyListed RefusedIff Addressable'.split()
REAL = {'SummaryInformation': '\x05HwpSummaryInformation', 'SummaryInformation.txt': '\x05HwpSummaryInformation.txt'}
# concrete names for the names of the specification
PLAIN = [('a', 'Section0'), ('DocInfo', 'b'), ('\x05Info', 'x'), ('.x', 'a.'), ('A b', 'a..b'), ('\uac00\ub098', '~'),
         ('..x', '\\..'), ('x\x05y', '-rf'), ('CON', '...'), ('\u200b', '\U0001f600')]
OLE_PLAIN = [p for p in PLAIN if '\\' not in ''.join(p)]


def mapped(n):
    return n.replace('\x05', '_05')


def ondisk(p):
    return os.path.join(*[mapped(n) for n in p])


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        r = os.path.relpath(base, d)
        for n in dirs:
            out[os.path.normpath(os.path.join(r, n))] = None
        for n in files:
            with open(os.path.join(base, n), 'rb') as f:
                out[os.path.normpath(os.path.join(r, n))] = f.read()
    return out


def content(p):
    return ('content of ' + '|'.join(p)).encode('utf-8', 'surrogatepass') * 3


def concrete(b, names):
    tree = {}
    for path, kind in sorted(b['tree'], key=lambda e: len(e[0])):
        d = tree
        p = [names[n] for n in path]
        for n in p[:-1]:
            d = d[n]
        d[p[-1]] = {} if kind == 'storage' else content(p)
    return tree


def replay_tree(ctx, S, b, names, how, sandbox, nested):
    """sandbox: a scratch directory; the target lies `nested` levels below it"""
    tree = concrete(b, names)
    paths = [[names[n] for n in e[0]] for e in b['tree']]
    leaves = [[names[n] for n in p] for p in b['leaves']]
    kind = dict((tuple(names[n] for n in e[0]), e[1]) for e in b['tree'])
    where = '%s storage %s' % (how, sorted('|'.join(p) for p in paths))
    sep = any('/' in n for p in paths for n in p)
    if how == 'ole':
        src = os.path.join(sandbox, 'src.bin')
        with open(src, 'wb') as f:
            f.write(docs.write_ole(tree))
        from hwp5.storage.ole import OleStorage
        stg = OleStorage(src)
    elif how == 'fs':
        from hwp5.storage.fs import FileSystemStorage
        src = os.path.join(sandbox, 'src')
        os.mkdir(src)

        def put(d, t):
            for n, v in t.items():
                q = os.path.join(d, n)
                if isinstance(v, dict):
                    os.mkdir(q)
                    put(q, v)
                else:
                    with open(q, 'wb') as f:
                        f.write(v)
        put(src, tree)
        stg = FileSystemStorage(src)
    else:
        stg = docs.MemStorage(tree)
        if how == 'extra':
            stg = S.ExtraItemStorage(stg)
    # listing
    if not sep:
        o = guarded(lambda: sorted(S.iter_storage_leafs(stg)))
        want = sorted('/'.join(p) for p in leaves)
        if o != ('ok', want):
            ctx.violation('listing-' + how, '%s: listed %s, stored %s' % (where, o[1:], want), b)

    def names_of(st, p):
        got = sorted(st)
        want = sorted(q[-1] for q in paths if q[:-1] == p)
        if got != want:
            raise AssertionError('%s lists %r, holds %r' % (p, got, want))
        for n in got:
            it = st[n]
            k = kind[tuple(p) + (n,)]
            if S.is_storage(it) != (k == 'storage'):
                raise AssertionError('%s shown as %s' % (p + [n], it))
            if k == 'storage':
                names_of(it, p + [n])
    if not (sep and how == 'ole'):
        o = guarded(lambda: names_of(stg, []))
        if o[0] != 'ok':
            ctx.violation('names-' + how, '%s: %s' % (where, o[1:]), b)
    # addressing
    if not any(set(p) & {'..', '.', ''} or sep for p in paths):
        for path, exists in b['asks']:
            p = [names.get(n, 'Nothing') for n in path]
            for form in (p, '/'.join(p)):
                o = guarded(lambda: S.open_storage_item(stg, form))
                if not exists:
                    # below a stream there is nothing either (no mapping at all)
                    if o[0] != 'raise' or o[1] not in ('KeyError', 'TypeError', 'AttributeError'):
                        ctx.violation('unlisted-' + how, '%s: %r is not listed but opens: %s' % (where, form, o), b)
                elif kind[tuple(p)] == 'stream':
                    o = guarded(lambda: S.open_storage_item(stg, form).open().read())
                    if o != ('ok', content(p)):
                        ctx.violation('address-' + how, '%s: %r opens as %s' % (where, form, harness.abbrev(o)), b)
                elif o[0] != 'ok' or not S.is_storage(o[1]):
                    ctx.violation('address-' + how, '%s: %r opens as %s' % (where, form, o), b)
    # unpacking
    base = os.path.join(sandbox, *['d%d' % i for i in range(nested)])
    os.makedirs(base)
    with open(os.path.join(base, 'beside'), 'wb') as f:
        f.write(b'beside')
    target = os.path.join(base, 'target')
    os.mkdir(target)
    if b['ok'] and len(paths) % 2 and leaves and not sep:
        # unpacking over an earlier, longer version of a file
        p = [mapped(n) for n in leaves[0]]
        if len(p) == 1:
            with open(os.path.join(target, *p), 'wb') as f:
                f.write(b'stale ' * 400)
    before = snapshot(sandbox)
    collide = len(set(ondisk(p) for p in paths if all(p))) < len(paths) if not sep else False
    o = guarded(lambda: S.unpack(stg, target))
    after = snapshot(sandbox)
    trel = os.path.relpath(target, sandbox)
    inside = dict((os.path.relpath(k, trel), v) for k, v in after.items() if k.startswith(trel + os.sep))
    outside = dict((k, v) for k, v in after.items() if not k.startswith(trel + os.sep))
    before = dict((k, v) for k, v in before.items() if not k.startswith(trel + os.sep))
    if outside != before:
        diff = sorted(k for k in set(outside) | set(before) if outside.get(k, 0) != before.get(k, 0))
        ctx.violation('escape', '%s: unpacking changed %s, outside of its target' % (where, diff), b)
    elif b['ok']:
        want = dict((ondisk(p), content(p) if kind[tuple(p)] == 'stream' else None) for p in paths)
        if collide:
            pass
        elif o[0] != 'ok' or inside != want:
            ctx.violation('unpack-' + how, '%s: unpacking gave %s %s; the specification requires %s'
                          % (where, o, harness.abbrev(inside), harness.abbrev(want)), b)
    else:
        good = [ondisk(p) for p in paths if not sep and all(p)] if not sep else None
        if o[0] != 'raise':
            ctx.violation('unpack-accept', '%s: a name that is no file name was not refused: %s' % (where, o), b)
        elif any(v is not None and v not in [content(p) for p in leaves] and v != b'' for v in inside.values()):
            ctx.violation('unpack-extra', '%s: wrote %s' % (where, harness.abbrev(inside)), b)
    if hasattr(stg, 'close'):
        stg.close()
    ctx.replayed += 1


def hostile_names(sandbox):
    return ['..', '.', '', '../escaped', 'a/b', '/' + sandbox.strip('/') + '/absolute', 'x\0y', '../..', 'a/../../escaped2']


# ------------------------------------------------------------------ documents
def summary_info():
    """a property set stream with one integer property"""
    import uuid
    sec = struct.pack('<II', 8 + 8 + 8, 1) + struct.pack('<II', 14, 16) + struct.pack('<II', 3, 7)
    return (struct.pack('<HHI', 0xfffe, 0, 0x20105) + b'\0' * 16 + struct.pack('<I', 1)
            + uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c').bytes_le + struct.pack('<I', 48) + sec)


def section_bytes(stg, name):
    text = ('%s/%s\r' % (stg, name)).encode('utf-16le')
    head = struct.pack('<IIHBBHHHI', len(text) // 2 | 0x80000000, 0, 0, 0, 0, 0, 0, 0, 1)
    return docs.recs([(66, 0, head), (67, 1, text), (69, 1, b'')])


PREVIEW = 'preview <\u00e9\uac00\U0001f600> text\r\n' * 9


def stored_content(stg, name):
    if name == 'FileHeader':
        return docs.fileheader(0, (5, 0, 3, 4))
    if name == 'SummaryInformation':
        return summary_info()
    if name == 'PrvText':
        return PREVIEW.encode('utf-16le')
    if name == 'DocInfo':
        return docs.recs([(16, 0, struct.pack('<HHHHHHHIII', 1, 1, 1, 1, 1, 1, 1, 0, 0, 0))])
    if stg in ('BodyText', 'ViewText'):
        return section_bytes(stg, name)
    return ('%s/%s' % (stg, name)).encode() * 700


def real(n):
    return n.replace('SummaryInformation', '\x05HwpSummaryInformation') if n.startswith('SummaryInformation') else n


def doc_tree(b):
    tree = {}
    for n in b['root']:
        tree[real(n)] = {} if n in dict(b['storages']) else stored_content('', n)
    for s, ns in b['storages']:
        for n in ns:
            tree[s][n] = stored_content(s, n)
    return tree


def derived_ok(stg, name, data, b):
    """is `data` what the derived stream <stg>/<name> has to hold?"""
    base, ext = name.rsplit('.', 1)
    if name == 'FileHeader.txt':
        return b'version: 5.0.3.4' in data and b'signature: HWP Document File' in data
    if ext == 'txt':
        return b'7' in data
    if ext == 'utf8':
        return data == PREVIEW.encode('utf-8')
    if ext == 'records':
        table, _ = docs.parse_recs(stored_content(stg, base))
        got = json.loads(data.decode('utf-8'))
        return [(r['seqno'], r['tagid'], r['level'], r['size']) for r in got] == [
            (i, t[2], t[3], t[4]) for i, t in enumerate(table)]
    if ext == 'models':
        table, _ = docs.parse_recs(stored_content(stg, base))
        return len(json.loads(data.decode('utf-8'))) == len(table)
    if ext == 'xml':
        # sections in increasing order: each section's text names it
        text = ''.join(ET.fromstring(data).itertext())
        if base in ('BodyText', 'ViewText'):
            secs = dict(b['storages'])[base]
            order = b['order'] if base == 'BodyText' else sorted(
                int(n[7:]) for n in secs if n[7:].isdigit() and n == 'Section%d' % int(n[7:]))
            want = ['%s/Section%d' % (base, i) for i in order]
        elif base == 'DocInfo':
            return True
        else:
            want = ['%s/%s' % (stg, base)]
        pos = [text.find(w) for w in want]
        return -1 not in pos and pos == sorted(pos) and sum(text.count('Text/') for _ in [0]) == len(want)
    return False


def slurp(x):
    f = x.open()
    try:
        return f.read()
    finally:
        f.close()


def replay_doc(ctx, S, b, how, cli_too):
    import hwp5.xmlmodel
    tree = doc_tree(b)
    root = ctx.mkdir('doc')
    path = os.path.join(root, 'doc.hwp')
    if how == 'ole' or cli_too:
        with open(path, 'wb') as f:
            f.write(docs.write_ole(tree))
    h = hwp5.xmlmodel.Hwp5File(path if how == 'ole' else docs.MemStorage(tree))
    where = '%s document with %s' % (how, sorted(b['root']) + [list(s) for s in b['storages']])

    def show(ls):
        return sorted('/'.join([s, real(n)] if s else [real(n)]) for s, n in ls)
    base, ext = show(b['base']), show(b['ext'])
    e = S.ExtraItemStorage(h)
    for st, want, what in ((h, base, 'stored'), (e, ext, 'derived')):
        o = guarded(lambda: sorted(S.iter_storage_leafs(st)))
        if o != ('ok', want):
            got = o[1] if o[0] == 'ok' else []
            ctx.violation('doc-listing-' + what, '%s: %s listing %s; missing %s, unexpected %s' % (
                where, what, o[0] if o[0] == 'ok' else o, sorted(set(want) - set(got)), sorted(set(got) - set(want))), b)
    contents = {}
    for s, n in b['ext']:
        p = '/'.join([s, real(n)] if s else [real(n)])
        first = None
        for again in range(2):
            o = guarded(lambda: slurp(S.open_storage_item(e, p)))
            if again == 0:
                first = o
            if p in base:
                good = o == ('ok', stored_content(s, n))
            else:
                good = o[0] == 'ok' and o == first and guarded(lambda: derived_ok(s, n, o[1], b)) == ('ok', True)
            if not good:
                ctx.violation('doc-open-%s' % (n if p in base else n[n.rfind('.'):]), '%s: %s opens (time %d) as %s' % (
                    where, p, again + 1, harness.abbrev(o)), b)
        contents[p] = first[1] if first[0] == 'ok' else None
    # one item, opened twice
    for s, n in b['ext']:
        if '/'.join([s, real(n)] if s else [real(n)]) in base:
            continue
        p = '/'.join([s, real(n)] if s else [real(n)])
        o = guarded(lambda: (lambda it: (slurp(it), slurp(it)))(S.open_storage_item(e, p)))
        if o[0] != 'ok' or o[1][0] != o[1][1] or o[1][0] != contents[p]:
            ctx.violation('doc-reopen', '%s: %s, opened twice: %s' % (where, p, harness.abbrev(o)), b)
    exts = ['.txt', '.utf8', '.records', '.models', '.xml']
    cand = set(real(n) + x for n in b['root'] + ['PrvText', 'ViewText', 'SummaryInformation'] for x in exts)
    cand |= set('%s/%s%s' % (s, n, x) for s, ns in b['storages'] for n in list(ns) + ['Section3'] for x in exts)
    cand |= set(['.xml', '.txt', 'Nothing', 'BodyText/.xml', 'BodyText/Section3', 'DocInfo.records.records', 'DocInfo.recordsx'])
    stgs = [s for s, ns in b['storages']]
    for p in sorted(cand - set(ext) - set(stgs)):
        o = guarded(lambda: S.open_storage_item(e, p))
        if o[0] != 'raise' or o[1] not in ('KeyError', 'TypeError', 'AttributeError'):
            ctx.violation('doc-unlisted', '%s: %s is not listed but opens' % (where, p), b)
    o = guarded(lambda: (h.bodytext.section_indexes(), [slurp(x) for x in h.bodytext.sections]))
    want = (b['order'], [section_bytes('BodyText', 'Section%d' % i) for i in b['order']])
    if o != ('ok', want):
        ctx.violation('sections', '%s: sections visited: %s; the specification requires %s' % (where, harness.abbrev(o[1:]), b['order']), b)
    if cli_too:
        for opt, want in (([], base), (['--vstreams'], ext), (['--ole'], base)):
            st, out, err, oc = cli.run('hwp5proc', ['ls'] + opt + [path])
            got = sorted(x.encode('utf-8').decode('unicode_escape') for x in out.decode('utf-8').splitlines())
            if st != 0 or got != want:
                ctx.violation('cli-ls', '%s: ls %s exits %s; missing %s unexpected %s' % (
                    where, opt, st, sorted(set(want) - set(got)), sorted(set(got) - set(want))), b)
            out_dir = os.path.join(root, 'o' + ''.join(opt))
            st, out, err, oc = cli.run('hwp5proc', ['unpack'] + opt + [path, out_dir])
            files = dict((k, v) for k, v in snapshot(out_dir).items() if v is not None) if os.path.isdir(out_dir) else {}
            wantf = dict((ondisk(p.split('/')), contents[p]) for p in want)
            if st != 0 or files != wantf:
                ctx.violation('cli-unpack', '%s: unpack %s exits %s; files %s, the specification requires %s' % (
                    where, opt, st, sorted(files), sorted(wantf)), b)
            for p in ctx.rng.sample(want, min(3, len(want))):
                st, out, err, oc = cli.run('hwp5proc', ['cat'] + opt + [path, p])
                if st != 0 or out != contents[p]:
                    ctx.violation('cli-cat', '%s: cat %s %s exits %s with %s' % (where, opt, p, st, harness.abbrev(out)), b)
    if hasattr(h, 'close'):
        h.close()
    shutil.rmtree(root)
    ctx.replayed += 1


def fixtures(ctx, S):
    import hwp5.xmlmodel
    runs = []
    for name in sorted(os.listdir(harness.FIXTURES)):
        if not name.endswith('.hwp'):
            continue
        path = os.path.join(harness.FIXTURES, name)
        try:
            tree = docs.read_tree(path)
        except Exception:
            continue
        o = guarded(lambda: hwp5.xmlmodel.Hwp5File(path))
        if o[0] != 'ok':
            continue
        h = o[1]

        def abst(n):
            return n.replace('\x05HwpSummaryInformation', 'SummaryInformation')

        def split(p):
            return (p.split('/') if '/' in p else ['', abst(p)])
        asc = all(ord(c) < 128 for n in tree for c in n)
        if not asc:
            continue
        e = S.ExtraItemStorage(h)
        leaf = guarded(lambda: (list(S.iter_storage_leafs(h)), list(S.iter_storage_leafs(e))))
        order = guarded(lambda: h.bodytext.section_indexes())
        if leaf[0] != 'ok' or order[0] != 'ok':
            ctx.violation('trace-raise', '%s: %s %s' % (name, leaf, order))
            continue
        if any(p.count('/') > 1 for p in leaf[1][1]):
            continue
        runs.append(dict(
            id=name, streams=[abst(n) for n, v in tree.items() if isinstance(v, bytes)],
            storages=[[n, list(v)] for n, v in tree.items() if isinstance(v, dict)],
            candidates=[[n, int(n[7:])] for n in tree.get('BodyText', {}) if n[7:].isdigit()],
            base=[split(p) for p in leaf[1][0]], ext=[split(p) for p in leaf[1][1]], order=order[1]))
        # contents of unpacked files are the contents of the streams
        out = ctx.mkdir('fx')
        o = guarded(lambda: S.unpack(h, out), 60)
        files = dict((k, v) for k, v in snapshot(out).items() if v is not None)
        want = dict((ondisk(p.split('/')), slurp(S.open_storage_item(h, p))) for p in leaf[1][0])
        if o[0] != 'ok' or files != want:
            ctx.violation('trace-unpack', '%s: %s; unpacked %s' % (name, o, sorted(files)))
        # and reading the directory back gives the listing again
        from hwp5.storage.fs import FileSystemStorage
        o = guarded(lambda: sorted(S.iter_storage_leafs(FileSystemStorage(out))))
        if o != ('ok', sorted('/'.join(mapped(n) for n in p.split('/')) for p in leaf[1][0])):
            ctx.violation('trace-directory', '%s: the unpacked directory lists %s' % (name, o[1]))
        h.close()
    t = ctx.tlc('DocListingTrace', invariants=['Emit'], data=runs)
    for p in t.prints:
        ctx.violation('trace-listing', '%s: the derived listing misses %s, has %s besides' % (p['id'], p['missing'], p['extra']), p)
    ctx.validated += len(runs)
    ctx.extra['fixture_documents'] = len(runs)
    ctx.sample(dict(kind='listing', **runs[0]))


def run(ctx):
    import hwp5.storage as S
    r = ctx.tlc('Storage', dict(Names='{"a", "b", "h"}', Hostile='{"h"}', MaxEntries=ctx.pick(4, 5), MaxDepth=3,
                                Ask='{"a", "b", "zz"}'), INV + ['Emit'])
    ctx.log('TLC: %d trees' % len(r.prints))
    hows = ['mem', 'ole', 'fs', 'extra']
    k = 0
    for b in r.prints:
        if not b['tree']:
            continue
        if b['ok']:
            for how in hows[:2] if k % 3 else hows:
                pl = OLE_PLAIN if how == 'ole' else PLAIN
                names = dict(zip('ab', pl[k % len(pl)]))
                sandbox = ctx.mkdir('t')
                replay_tree(ctx, S, b, names, how, sandbox, 1)
                shutil.rmtree(sandbox)
        else:
            sandbox = ctx.mkdir('t')
            hn = hostile_names(sandbox)
            for h in ctx.rng.sample(hn[1:], ctx.pick(1, 3)) + hn[:1]:
                how = 'ole' if h == '..' and k % 2 else 'mem'
                shutil.rmtree(sandbox)
                os.mkdir(sandbox)
                names = dict(a='a', b='escaped', h=h)
                replay_tree(ctx, S, b, names, how, sandbox, 8)
            shutil.rmtree(sandbox)
        k += 1
    ctx.sample(dict(kind='tree', tree=b['tree'], ok=b['ok']))
    ctx.log('%d trees replayed' % ctx.replayed)
    r = ctx.tlc('DocListing', dict(Optional='{"PrvText", "SummaryInformation", "BinData", "DocOptions", "ViewText"}',
                                   Indexes='{0, 1, 2, 9, 10}'), ['Increasing', 'Extends', 'Emit'])
    sel = ctx.rng.sample(r.prints, ctx.pick(120, 2000))
    for k, b in enumerate(sel):
        replay_doc(ctx, S, b, 'ole' if k % 3 == 0 else 'memory', k % 10 == 0)
    ctx.sample(dict(kind='document', root=b['root'], ext=b['ext']))
    ctx.extra['documents_enumerated'] = len(r.prints)
    ctx.extra['documents_replayed'] = len(sel)
    ctx.log('documents replayed')
    fixtures(ctx, S)
