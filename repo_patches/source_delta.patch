From d4b39ecb136396e4bbd1c9576d7dafd3b9c6e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/61] fix: read records with empty payloads, refuse cut
 headers and payloads

readn() raised Eof for a zero-sized read, so a record with an empty payload
ended reading; and it returned short data silently, so a cut record was
delivered with fewer bytes than it declares. A stream ending right before the
extended size field was taken for a clean end.
---
 src/hwp5/dataio.py       |  6 ++++--
 src/hwp5/recordstream.py | 12 ++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..249ce39 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -54,12 +54,14 @@ class OutOfData(Exception):
 def readn(f, size):
     data = f.read(size)
     datasize = len(data)
-    if datasize == 0:
+    if datasize < size:
         try:
             pos = f.tell()
         except IOError:
             pos = '<UNKNOWN>'
-        raise Eof(pos)
+        if datasize == 0:
+            raise Eof(pos)
+        raise OutOfData(pos)
     return data
 
 
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..504c69a 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -51,14 +51,14 @@ def decode_record_header(f):
     try:
         # TagID, Level, Size
         rechdr = UINT32.read(f)
-        tagid = rechdr & 0x3ff
-        level = (rechdr >> 10) & 0x3ff
-        size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
     except Eof:
         return None
+    tagid = rechdr & 0x3ff
+    level = (rechdr >> 10) & 0x3ff
+    size = (rechdr >> 20) & 0xfff
+    if size == 0xfff:
+        size = UINT32.read(f)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
-- 
2.43.0


From 4637b17acb584f2ed2f8a8e0e35bbc155c0f9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 02/61] fix: empty record selections are empty, and JSON output
 leaves records alone

An empty JSON array was written as a lone ']', records(treegroup=) out of range
gave None, and record_to_json() overwrote the payload of the record it was given.
---
 src/hwp5/recordstream.py | 4 ++--
 src/hwp5/utils.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 504c69a..53cfbda 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -114,7 +114,7 @@ def link_records(records):
 
 def record_to_json(record, *args, **kwargs):
     ''' convert a record to json '''
-    record['payload'] = list(dumpbytes(record['payload']))
+    record = dict(record, payload=list(dumpbytes(record['payload'])))
     return json.dumps(record, *args, **kwargs)
 
 
@@ -160,7 +160,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
             records = islice(records, range[0], range[1])
         elif 'treegroup' in kwargs:
             groups = group_records_by_toplevel(records, group_as_list=True)
-            records = nth(groups, kwargs['treegroup'])
+            records = nth(groups, kwargs['treegroup'], [])
         return records
 
     def record(self, idx):
diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..fdc1e35 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -71,6 +71,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From fbed906369423a34ddfb5d0a09baaca818971281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 03/61] fix: read record streams from the standard input as
 bytes

---
 src/hwp5/proc/records.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..6b83a64 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -36,9 +36,11 @@ def main(args):
     if PY2:
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
+        stdin_binary = sys.stdin
     else:
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
+        stdin_binary = sys.stdin.buffer
 
     filename = args.hwp5file
     if filename:
@@ -47,7 +49,7 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From c98b5c6d377e908f8d8050d20529247bf3df4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 04/61] fix: keep unpacked items inside the output directory

---
 src/hwp5/storage/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..34d86e9 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -126,9 +126,12 @@ def unpack(stg, outbase):
 
         stg: an instance of Storage
         outbase: path to a directory in filesystem (should not end with '/')
+
+    :raises: `ValueError` when the storage contains a name which cannot be used
+             as the name of a file in the directory.
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, unpacked_name(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,13 +140,25 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
                 f.close()
 
 
+def unpacked_name(name):
+    ''' name of the file to which an item named `name` is unpacked '''
+    separators = ['/', os.sep, os.altsep]
+    if (
+        name in ('', os.curdir, os.pardir) or
+        '\x00' in name or
+        any(sep in name for sep in separators if sep) or
+        os.path.splitdrive(name)[0]
+    ):
+        raise ValueError('cannot unpack an item with the name: %r' % name)
+    return name.replace('\x05', '_05')
+
+
 def open_storage_item(stg, path):
     if isinstance(path, basestring):
         path_segments = path.split('/')
-- 
2.43.0


From 6b6770f5770f27b2fa49cfee037503f7b5f54336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 05/61] fix: list nested storages of OLE containers

---
 src/hwp5/plat/olefileio.py | 46 +++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..867e16a 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -143,24 +143,28 @@ class OleStorage(OleStorageItem):
 
 def olefile_listdir(olefile, path):
     if path == '' or path == '/':
-        # we use a list instead of a set
-        # for python 2.3 compatibility
-        yielded = []
-
-        for stream in olefile.listdir():
-            top_item = stream[0]
-            if top_item in yielded:
-                continue
-            yielded.append(top_item)
-            yield top_item
-        return
-
-    if not olefile.exists(path):
-        raise IOError('%s not exists' % path)
-    if olefile.get_type(path) != 1:
-        raise IOError('%s not a storage' % path)
-    path_segments = path.split('/')
-    for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+        path_segments = []
+    else:
+        if not olefile.exists(path):
+            raise IOError('%s not exists' % path)
+        if olefile.get_type(path) != 1:
+            raise IOError('%s not a storage' % path)
+        path_segments = path.split('/')
+
+    # names of a container are case-insensitive
+    path_segments = [segment.lower() for segment in path_segments]
+    depth = len(path_segments)
+
+    # we use a list instead of a set
+    # for python 2.3 compatibility
+    yielded = []
+    for item_path in olefile.listdir(streams=True, storages=True):
+        if len(item_path) <= depth:
+            continue
+        if [segment.lower() for segment in item_path[:depth]] != path_segments:
+            continue
+        name = item_path[depth]
+        if name in yielded:
+            continue
+        yielded.append(name)
+        yield name
-- 
2.43.0


From 6558d27dfce891bab8c06cde5700f366a43a2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 06/61] fix: do not take look-alike names for sections

---
 src/hwp5/filestructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..6907a98 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -352,10 +352,11 @@ class Sections(ItemConversionStorage):
                     idx = name[len('Section'):]
                     try:
                         idx = int(idx)
-                    except:
+                    except ValueError:
                         pass
                     else:
-                        yield idx
+                        if name == 'Section%d' % idx:
+                            yield idx
         indexes = list(gen())
         indexes.sort()
         return indexes
-- 
2.43.0


From 211aaecad05360858417f3bb2ebc1ecd3587d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 07/61] fix: let virtual streams be opened more than once

---
 src/hwp5/binmodel/__init__.py | 2 +-
 src/hwp5/recordstream.py      | 2 +-
 src/hwp5/xmlmodel.py          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..4c19dd4 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -466,7 +466,7 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+        d['.models'] = lambda: self.models_json().open()
         return d
 
     def parse_model_events(self):
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 53cfbda..8dc4244 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -183,7 +183,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n)
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        return {'.records': lambda: self.records_json().open()}
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..c3af21e 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -633,7 +633,7 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
@@ -780,7 +780,7 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
-- 
2.43.0


From 226dba88e39af21be72d00a53156fedbf128d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 08/61] fix: read property sets which have no dictionary

---
 src/hwp5/msoleprops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..08afa01 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -594,7 +594,9 @@ class PropertySetStreamReader(object):
 
             for propDesc in propDescMap.values():
                 idLabel = idLabels.get(propDesc.id)
-                displayName = dictionary.get(propDesc.id, None)
+                displayName = None
+                if dictionary is not None:
+                    displayName = dictionary.get(propDesc.id, None)
                 propReader = PropertyReader(
                     propsetDesc=propsetDesc,
                     propDesc=propDesc,
-- 
2.43.0


From 8b41482f2cff316807ffb17950c7432d2fedbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 09/61] fix: convert sections which have no section definition

---
 src/hwp5/xmlmodel.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index c3af21e..fa2daa0 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -253,6 +253,13 @@ def range_shaped_textchunk_events(paratext_context, range_shaped_textchunks):
             yield ENDEVENT, ctrlch
 
 
+class ImplicitSectionDef(object):
+    ''' wraps a section which has no SectionDef '''
+
+
+ImplicitSectionDef.__name__ = str('SectionDef')
+
+
 def wrap_section(event_prefixed_mac, sect_id=None):
     ''' wrap a section with SectionDef '''
     starting_buffer = list()
@@ -275,6 +282,15 @@ def wrap_section(event_prefixed_mac, sect_id=None):
                 started = True
             else:
                 starting_buffer.append((event, item))
+    if not started:
+        # no SectionDef in the section
+        attributes = dict()
+        if sect_id is not None:
+            attributes['section_id'] = sect_id
+        sectiondef = ImplicitSectionDef, attributes, dict()
+        yield STARTEVENT, sectiondef
+        for evented_item in starting_buffer:
+            yield evented_item
     yield ENDEVENT, sectiondef
 
 
-- 
2.43.0


From aef102beab457861a7aa914ca0233e575f10a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 10/61] fix: split text at any character shape and line
 boundary

---
 src/hwp5/xmlmodel.py | 50 +++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index fa2daa0..05897af 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -94,10 +94,27 @@ def give_elements_unique_id(event_prefixed_mac):
 def make_ranged_shapes(shapes):
     last = None
     for item in shapes:
-        if last is not None:
+        if last is None:
+            # the first one applies from the start
+            last = 0, item[1]
+        else:
             yield (last[0], item[0]), last[1]
-        last = item
-    yield (item[0], 0x7fffffff), item[1]
+            last = item
+    if last is not None:
+        yield (last[0], 0x7fffffff), last[1]
+
+
+def split_chunk(chunk, size):
+    ''' split a text chunk at `size` UTF-16 code units
+
+    a character which lies across the boundary is kept in the left part.
+    '''
+    units = 0
+    for idx, ch in enumerate(chunk):
+        if units >= size:
+            return units, chunk[:idx], chunk[idx:]
+        units += 2 if ord(ch) > 0xffff else 1
+    return units, chunk, chunk[:0]
 
 
 def split_and_shape(chunks, ranged_shapes):
@@ -124,16 +141,17 @@ def split_and_shape(chunks, ranged_shapes):
             # case 2: chunk has left intersection
             #         vvvv
             #         ..----
-            if shape_end < chunk_end:           # (2)
-                prev = ((chunk_start, shape_end),
-                        chunk[:shape_end - chunk_start])
-                nexT = ((shape_end, chunk_end),
-                        chunk[shape_end - chunk_start:])
-                (chunk_start, chunk_end), chunk = prev
-            else:
-                nexT = None
+            #
+            # controls cannot be split
+            nexT = None
+            if shape_end < chunk_end and isinstance(chunk, basestring):  # (2)
+                size, left, right = split_chunk(chunk,
+                                                shape_end - chunk_start)
+                if right:
+                    chunk_split = chunk_start + size
+                    nexT = (chunk_split, chunk_end), right
+                    chunk_end, chunk = chunk_split, left
 
-            assert chunk_end <= shape_end       # by (2)
             yield (chunk_start, chunk_end), (shape, chunk_attr), chunk
 
             if nexT is not None:
@@ -203,10 +221,14 @@ def merge_paragraph_text_charshape_lineseg(paratext, paracharshape,
 
     chunks = ((range, None, chunk)
               for range, chunk in paratext_attributes['chunks'])
-    charshapes = paracharshape[1]['charshapes']
+    charshapes = None
+    if paracharshape:
+        charshapes = paracharshape[1]['charshapes']
+    if not charshapes:
+        charshapes = [(0, 0)]
     shaped_chunks = split_and_shape(chunks, make_ranged_shapes(charshapes))
 
-    if paralineseg:
+    if paralineseg and paralineseg[1]['linesegs']:
         paralineseg_content = paralineseg[1]
         paralineseg_context = paralineseg[2]
     else:
-- 
2.43.0


From 3934c193ec363d824b878e26b15bc46aafa4c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 11/61] fix: generator readers return what was asked for

---
 src/hwp5/utils.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index fdc1e35..f7deffb 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -161,23 +161,21 @@ class GeneratorReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -197,25 +195,22 @@ class GeneratorTextReader(object):
     '''
 
     def __init__(self, gen):
-        self.gen = gen
+        self.gen = iter(gen)
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From 233ee17037a7961eea78925a336b16b83fef4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 12/61] fix: raw deflate codec: resets, sized reads and sources
 with short reads

---
 src/hwp5/compressed.py     |  2 +-
 src/hwp5/zlib_raw_codec.py | 16 +++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index 033bfed..8d0e05f 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -48,7 +48,7 @@ def decompress_gen(source, bufsize=4096):
     exausted = False
     while not exausted:
         input = source.read(bufsize)
-        if len(input) < bufsize:
+        if not input:
             exausted = True
         yield dec.decode(input, exausted)
 
diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..4c81a18 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -50,20 +50,18 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
     def __init__(self, errors='strict'):
         assert errors == 'strict'
         self.errors = errors
-        self.compressobj = zlib.compressobj()
-        self.initial = True
+        self.reset()
 
     def encode(self, input, final=False):
         c = self.compressobj.compress(input)
-        if self.initial:
-            c = c[2:]
-            self.initial = False
         if final:
-            c += self.compressobj.flush()[:-4]
+            c += self.compressobj.flush()
         return c
 
     def reset(self):
-        self.compressobj = zlib.compressobj()
+        self.compressobj = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
+                                            zlib.DEFLATED,
+                                            _wbits)
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
@@ -105,7 +103,7 @@ class StreamReader(object):
         self.offset = 0
 
     def read(self, size=-1):
-        if size < 0:
+        if size is None or size < 0:
             c = self.stream.read()
             d = self.buffer + self.decoder.decode(c, True)
             self.buffer = b''
@@ -127,7 +125,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = not c
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From aa95824de6348943daef1c816bb257870e1656ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 13/61] fix: a payload cut inside a flag word is a parse error,
 not a KeyError

---
 src/hwp5/bintype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..77dbd87 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -285,7 +285,7 @@ def resolve_typedefs(typedef_events, context):
 
 def evaluate_bin_values(events):
     for ev, item in events:
-        if 'flags_type' in item:
+        if 'flags_type' in item and ev is not ERROREVENT:
             flags_type = item['flags_type']
             assert isinstance(flags_type, FlagsType)
             item['value'] = flags_type(item['value'])
-- 
2.43.0


From 264fa5bfc4432a2ee2ba9c74b1650979ae8e35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 14/61] fix: array items are expanded one at a time, not all
 before reading

---
 src/hwp5/bintype.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 77dbd87..31cdfb1 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -156,6 +156,10 @@ class ERROREVENT(object):
     pass
 
 
+class REPEATEVENT(object):
+    ''' marks the place of the remaining items of an array '''
+
+
 def static_to_mutable(events):
     stack = []
     for ev, item in events:
@@ -183,6 +187,18 @@ def pop_subevents(events_deque):
                 return
 
 
+def clone_events(events):
+    stack = []
+    for ev, item in events:
+        if ev in (STARTEVENT, None):
+            item = dict(item)
+            if ev is STARTEVENT:
+                stack.append(item)
+        else:
+            item = stack.pop()
+        yield ev, item
+
+
 def resolve_typedefs(typedef_events, context):
 
     array_types = (X_ARRAY, VariableLengthArrayType, FixedArrayType)
@@ -194,6 +210,15 @@ def resolve_typedefs(typedef_events, context):
     events = deque(events)
     while len(events) > 0:
         ev, item = events.popleft()
+        if ev is REPEATEVENT:
+            subevents, count = item
+            if count > 0:
+                # one item at a time: the declared count may be
+                # arbitrarily larger than the number of items available
+                events.appendleft((REPEATEVENT, (subevents, count - 1)))
+                cloned = list(clone_events(subevents))
+                events.extendleft(reversed(cloned))
+            continue
         if isinstance(item['type'], SelectiveType):
             if ev is STARTEVENT:
                 parent_struct = stack[-1]
@@ -259,21 +284,8 @@ def resolve_typedefs(typedef_events, context):
             endevent = subevents[-1]
             subevents = subevents[:-1]
 
-            def clone(events):
-                stack = []
-                for ev, item in events:
-                    if ev in (STARTEVENT, None):
-                        item = dict(item)
-                        if ev is STARTEVENT:
-                            stack.append(item)
-                    else:
-                        item = stack.pop()
-                    yield ev, item
-
             events.appendleft(endevent)
-            for _ in range(0, count):
-                cloned = list(clone(subevents))
-                events.extendleft(reversed(cloned))
+            events.appendleft((REPEATEVENT, (subevents, count)))
             events.appendleft((ev, item))
         else:
             if ev is STARTEVENT:
-- 
2.43.0


From e2766c77ee930122b36972ca5ff05af492f1b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 15/61] fix: model events of a record raise ParseError like its
 models do

---
 src/hwp5/binmodel/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index 4c19dd4..83ec0a5 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -347,7 +347,8 @@ def resolve_models(context, records):
         context['type'] = RecordModel
         context['name'] = record_frame['tagname']
         yield STARTEVENT, context
-        for x in resolve_model_events(context, context['model']):
+        events = resolve_model_events(context, context['model'])
+        for x in raise_on_errorevent(context, events):
             yield x
         event, item = x
         context['value'] = item
-- 
2.43.0


From f5efcd2dea86bb418395183bcc78d1309369a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 16/61] fix: access state of binary data lies in bits 8-9 of
 its 16-bit flags

---
 src/hwp5/binmodel/tagid18_bin_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid18_bin_data.py b/src/hwp5/binmodel/tagid18_bin_data.py
index 5cd94bf..da17ea8 100644
--- a/src/hwp5/binmodel/tagid18_bin_data.py
+++ b/src/hwp5/binmodel/tagid18_bin_data.py
@@ -64,7 +64,7 @@ class BinData(RecordModel):
     Flags = Flags(UINT16,
                   0, 3, StorageType, 'storage',
                   4, 5, CompressionType, 'compression',
-                  16, 17, AccessState, 'access')
+                  8, 9, AccessState, 'access')
 
     def attributes(cls):
         ''' 표 12 바이너리 데이터 '''
-- 
2.43.0


From d231e332bd5a12bf11ddd3b2f75d7bb2292cce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 17/61] fix: records that depend on their parent parse at top
 level too

---
 src/hwp5/binmodel/tagid56_list_header.py     | 2 +-
 src/hwp5/binmodel/tagid60_shape_component.py | 2 +-
 src/hwp5/binmodel/tagid71_ctrl_data.py       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/binmodel/tagid56_list_header.py b/src/hwp5/binmodel/tagid56_list_header.py
index 4547a28..2114eb9 100644
--- a/src/hwp5/binmodel/tagid56_list_header.py
+++ b/src/hwp5/binmodel/tagid56_list_header.py
@@ -82,7 +82,7 @@ class ListHeader(with_metaclass(ListHeaderType, RecordModel)):
         if 'parent' in context:
             context, model = context['parent']
             seen_table_body = context.get('seen_table_body', False)
-            return model['type'], seen_table_body
+            return model.get('type'), seen_table_body
     get_extension_key = staticmethod(get_extension_key)
 
 
diff --git a/src/hwp5/binmodel/tagid60_shape_component.py b/src/hwp5/binmodel/tagid60_shape_component.py
index f00e1c8..ae3e226 100644
--- a/src/hwp5/binmodel/tagid60_shape_component.py
+++ b/src/hwp5/binmodel/tagid60_shape_component.py
@@ -76,7 +76,7 @@ def parent_must_be_gso(context, values):
     # it may be a GSO model's attribute, e.g. 'child_chid'
     if 'parent' in context:
         parent_context, parent_model = context['parent']
-        return parent_model['type'] is GShapeObjectControl
+        return parent_model.get('type') is GShapeObjectControl
 
 
 def chid_is_container(context, values):
diff --git a/src/hwp5/binmodel/tagid71_ctrl_data.py b/src/hwp5/binmodel/tagid71_ctrl_data.py
index 14f6f77..965ff5f 100644
--- a/src/hwp5/binmodel/tagid71_ctrl_data.py
+++ b/src/hwp5/binmodel/tagid71_ctrl_data.py
@@ -52,5 +52,5 @@ class ControlData(with_metaclass(ControlDataType, RecordModel)):
         ''' parent model type '''
         parent = context.get('parent')
         if parent:
-            return parent[1]['type']
+            return parent[1].get('type')
     get_extension_key = classmethod(get_extension_key)
-- 
2.43.0


From 1e85cc95f70e993810db347fc632004a2ae8ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 18/61] fix: relative sizes of characters are unsigned (10% to
 250%)

---
 src/hwp5/binmodel/tagid21_char_shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/tagid21_char_shape.py b/src/hwp5/binmodel/tagid21_char_shape.py
index e366b7b..2748865 100644
--- a/src/hwp5/binmodel/tagid21_char_shape.py
+++ b/src/hwp5/binmodel/tagid21_char_shape.py
@@ -76,7 +76,7 @@ class CharShape(RecordModel):
         yield (LanguageStruct('LetterWidthExpansion', UINT8),
                'letter_width_expansion')
         yield LanguageStruct('LetterSpacing', INT8), 'letter_spacing'
-        yield LanguageStruct('RelativeSize', INT8), 'relative_size'
+        yield LanguageStruct('RelativeSize', UINT8), 'relative_size'
         yield LanguageStruct('Position', INT8), 'position'
         yield INT32, 'basesize',
         yield cls.Flags, 'charshapeflags',
-- 
2.43.0


From a1f1c504a380d3bbdae5a1c0d47ec203740bb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 19/61] fix: reserved control characters 25 to 29 take one unit

---
 src/hwp5/binmodel/controlchar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/controlchar.py b/src/hwp5/binmodel/controlchar.py
index a38554e..1306e5b 100644
--- a/src/hwp5/binmodel/controlchar.py
+++ b/src/hwp5/binmodel/controlchar.py
@@ -153,6 +153,11 @@ class ControlChar(object):
              0x16: ('BOOKMARK', EXTENDED),
              0x17: ('CTLCHR17', EXTENDED),
              0x18: ('HYPHEN', CHAR),
+             0x19: ('CTLCHR19', CHAR),
+             0x1a: ('CTLCHR1A', CHAR),
+             0x1b: ('CTLCHR1B', CHAR),
+             0x1c: ('CTLCHR1C', CHAR),
+             0x1d: ('CTLCHR1D', CHAR),
              0x1e: ('NONBREAK_SPACE', CHAR),
              0x1f: ('FIXWIDTH_SPACE', CHAR)}
     names = dict((unichr(code), name) for code, (name, kind) in chars.items())
-- 
2.43.0


From 238b4584827bf4e905649349442e87f6f5593331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 20/61] fix: text that ends inside a control character is a
 parse error

---
 src/hwp5/binmodel/tagid51_para_text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/binmodel/tagid51_para_text.py b/src/hwp5/binmodel/tagid51_para_text.py
index 2d16ec5..dd7ae76 100644
--- a/src/hwp5/binmodel/tagid51_para_text.py
+++ b/src/hwp5/binmodel/tagid51_para_text.py
@@ -26,6 +26,7 @@ from six import with_metaclass
 from hwp5.binmodel._shared import RecordModel
 from hwp5.tagids import HWPTAG_PARA_TEXT
 from hwp5.dataio import ArrayType
+from hwp5.dataio import OutOfData
 from hwp5.binmodel.controlchar import ControlChar
 
 
@@ -39,12 +40,16 @@ class ParaTextChunks(with_metaclass(ArrayType, list)):
     def parse_chunks(bytes):
         from hwp5.dataio import decode_utf16le_with_hypua
         size = len(bytes)
+        if size & 1:
+            raise OutOfData(size)
         idx = 0
         while idx < size:
             ctrlpos, ctrlpos_end = ControlChar.find(bytes, idx)
             if idx < ctrlpos:
                 text = decode_utf16le_with_hypua(bytes[idx:ctrlpos])
                 yield (idx // 2, ctrlpos // 2), text
+            if ctrlpos_end > size:
+                raise OutOfData(ctrlpos)
             if ctrlpos < ctrlpos_end:
                 cch = ControlChar.decode(bytes[ctrlpos:ctrlpos_end])
                 yield (ctrlpos // 2, ctrlpos_end // 2), cch
-- 
2.43.0


From e20189668ed0da7d5c6e159189b0f94f40cb9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 21/61] fix: unpaired surrogates in text are replaced instead
 of failing

---
 src/hwp5/dataio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 249ce39..7a9bf0a 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -179,7 +179,7 @@ def decode_utf16le_with_hypua(bytes):
     :param bytes: utf-16le encoded bytes with Hanyang-PUA codes
     :returns: a unicode string with Hangul Jamo codes
     '''
-    return bytes.decode('utf-16le')
+    return bytes.decode('utf-16le', 'replace')
 
 
 class BitGroupDescriptor(object):
-- 
2.43.0


From 434f346c883c9d92689ae22d881b8cf11fc7854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 22/61] fix: control characters without a control object do not
 fail the conversion

---
 src/hwp5/xmlmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 05897af..38ea2bf 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -388,6 +388,11 @@ def meci_controlchar(event, stack, item, attributes):
         if attributes['kind'] is ControlChar.EXTENDED:
             paragraph = stack[-1]
             paragraph_controls = paragraph.get(Control)
+            if not paragraph_controls:
+                logger.warning('control not found: %s', attributes['name'])
+                yield STARTEVENT, item
+                yield ENDEVENT, item
+                return
             control_subtree = paragraph_controls.pop(0)
             tev = tree_events(*control_subtree)
             # to evade the Control/STARTEVENT trigger
-- 
2.43.0


From 0e0db468c26c770a377d0376c7860ddf3c7c31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 23/61] fix: fields do not leak between paragraph lists

---
 src/hwp5/xmlmodel.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 38ea2bf..8b006ed 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -438,28 +438,38 @@ def make_paragraphs_children_of_listheader(event_prefixed_mac,
 
 
 def match_field_start_end(event_prefixed_mac):
-    stack = []
+    # open fields in each of the nested paragraph lists, innermost last
+    scopes = [[]]
     for event, item in event_prefixed_mac:
         (model, attributes, context) = item
         if issubclass(model, Field):
-            for x in mfse_field(event, stack, item):
+            for x in mfse_field(event, scopes, item):
                 yield x
         elif model is LineSeg:
-            for x in mfse_lineseg(event, stack, item):
+            for x in mfse_lineseg(event, scopes[-1], item):
                 yield x
         elif model is ControlChar and attributes['name'] == 'FIELD_END':
-            for x in mfse_field_end(event, stack, item):
+            for x in mfse_field_end(event, scopes[-1], item):
                 yield x
         else:
+            if issubclass(model, Control):
+                if event is STARTEVENT:
+                    scopes.append([])
+                else:
+                    scopes.pop()
+            elif issubclass(model, ListHeader) and event is STARTEVENT:
+                # fields do not go on in another list
+                scopes[-1] = []
             yield event, item
 
 
-def mfse_field(event, stack, item):
+def mfse_field(event, scopes, item):
     if event is STARTEVENT:
-        stack.append(item)
+        scopes[-1].append(item)
+        scopes.append([])
         yield event, item
     else:
-        pass
+        scopes.pop()
 
 
 def mfse_lineseg(event, stack, item):
-- 
2.43.0


From 84e53ca5f5b2c69be41628a617b934daa7fa4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 24/61] fix: table rows with no cells, and tables with more or
 fewer cells than declared

---
 src/hwp5/xmlmodel.py | 86 ++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 23 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 8b006ed..30d68fe 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -497,10 +497,6 @@ class TableRow:
     pass
 
 
-ROW_OPEN = 1
-ROW_CLOSE = 2
-
-
 def restructure_tablebody(event_prefixed_mac):
     ''' Group table columns in each rows and wrap them with TableRow. '''
     stack = []
@@ -514,39 +510,83 @@ def restructure_tablebody(event_prefixed_mac):
             for x in rstbody_tablecell(event, stack, item):
                 yield x
         else:
+            if model is TableControl:
+                if event is STARTEVENT:
+                    stack.append(None)
+                else:
+                    stack.pop()
             yield event, item
 
 
 def rstbody_tablebody(event, stack, item, attributes, context):
     if event is STARTEVENT:
-        rowcols = deque()
-        for cols in attributes.pop('rowcols'):
-            if cols == 1:
-                rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
-                rowcols.append(ROW_OPEN)
-                for i in range(0, cols - 2):
-                    rowcols.append(0)
-                rowcols.append(ROW_CLOSE)
-        stack.append((context, rowcols))
+        stack.append(TableRows(context, attributes.pop('rowcols')))
         yield event, item
     else:
+        for x in stack.pop().close():
+            yield x
         yield event, item
-        stack.pop()
 
 
 def rstbody_tablecell(event, stack, item):
-    table_context, rowcols = stack[-1]
-    row_context = dict(table_context)
+    rows = stack[-1] if stack else None
+    if rows is None:
+        logger.warning('table cell outside of the table body')
+        yield event, item
+        return
     if event is STARTEVENT:
-        how = rowcols[0]
-        if how & ROW_OPEN:
-            yield STARTEVENT, (TableRow, dict(), row_context)
+        for x in rows.open_cell():
+            yield x
     yield event, item
     if event is ENDEVENT:
-        how = rowcols.popleft()
-        if how & ROW_CLOSE:
-            yield ENDEVENT, (TableRow, dict(), row_context)
+        for x in rows.close_cell():
+            yield x
+
+
+class TableRows(object):
+    ''' rows of a table, with as many cells as declared
+
+    rows with no cells are empty; cells which are more than declared make one
+    more row.
+    '''
+
+    def __init__(self, context, rowcols):
+        self.context = context
+        self.rowcols = deque(rowcols)
+        self.row = None
+        self.vacant = None
+
+    def open_row(self):
+        self.row = (TableRow, dict(), dict(self.context))
+        return STARTEVENT, self.row
+
+    def close_row(self):
+        row, self.row = self.row, None
+        return ENDEVENT, row
+
+    def open_cell(self):
+        if self.row is not None:
+            return
+        while self.rowcols and self.rowcols[0] == 0:
+            self.rowcols.popleft()
+            yield self.open_row()
+            yield self.close_row()
+        self.vacant = self.rowcols.popleft() if self.rowcols else None
+        yield self.open_row()
+
+    def close_cell(self):
+        if self.vacant is not None:
+            self.vacant -= 1
+            if self.vacant == 0:
+                yield self.close_row()
+
+    def close(self):
+        if self.row is not None:
+            yield self.close_row()
+        while self.rowcols:
+            self.rowcols.popleft()
+            yield self.open_row()
+            yield self.close_row()
 
 
 def tokenize_text_by_lang(event_prefixed_mac):
-- 
2.43.0


From 835c491a02b9bef92a24ed73a783cf4cc591b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 25/61] fix: hex byte values are text in XML, not b'..'

---
 src/hwp5/dataio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index 7a9bf0a..f08718c 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -130,9 +130,13 @@ hwp2mm = lambda x: inch2mm(hwp2inch(x))  # noqa
 hwp2pt = lambda x: int((x / 100.0) * 10 + 0.5) / 10.0  # noqa
 
 
+def decode_hexbytes(bytes):
+    return str(b2a_hex(bytes).decode('ascii'))
+
+
 class HexBytes(type):
     def __new__(mcs, size):
-        decode = staticmethod(b2a_hex)
+        decode = staticmethod(decode_hexbytes)
         return type.__new__(mcs, str('HexBytes(%d)' % size), (str,),
                             dict(fixed_size=size, decode=decode))
 
-- 
2.43.0


From a86f55ef483999b6a2faa3fe51af2a4a46fb5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 26/61] fix: flat XML format works on Python 3

---
 src/hwp5/xmldump_flat.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..e49b446 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+import sys
 
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
@@ -37,11 +38,16 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+PY3 = sys.version_info.major == 3
+if PY3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
@@ -199,8 +205,9 @@ def xmlevents_from_modelevents(model_events):  # noqa
                         if isinstance(bitfield_type, EnumType):
                             atrs = {
                                 'type': bitfield_type.__name__,
-                                'value': value.name
                             }
+                            if value.name is not None:
+                                atrs['value'] = value.name
                             yield STARTEVENT, ('enum', atrs)
                             yield ENDEVENT, 'enum'
 
-- 
2.43.0


From 36c78408c94af18f1e8b4cf41be42ba947076e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 27/61] fix: a selection without any attributes does not break
 the XML

---
 src/hwp5/xmlformat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..d0bd193 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -163,7 +163,10 @@ def separate_plainvalues(typed_attributes):
         name, item = named_item
         t, value = item
         try:
-            if t is Margin:
+            if t is Struct:
+                # nothing in it: no selection of a SelectiveType
+                continue
+            elif t is Margin:
                 p[name] = item
             elif is_complex_type(t, value):
                 d.append(named_item)
-- 
2.43.0


From f21a0ec78ac3015b9e6edb477d64dc7f03a5e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 28/61] fix: XML output in encodings other than UTF-8

---
 src/hwp5/xmlformat.py | 16 ++++++++++++++--
 src/hwp5/xmlmodel.py  | 15 +++++++--------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index d0bd193..d25afa8 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
+import codecs
 import logging
 import sys
 
@@ -242,8 +243,19 @@ def element(context, ma):
 
 
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
-    for textchunk in xmlevents_to_textchunks(xmlevents):
-        yield textchunk.encode(encoding)
+    textchunks = xmlevents_to_textchunks(xmlevents)
+    return textchunks_to_bytechunks(textchunks, encoding)
+
+
+def textchunks_to_bytechunks(textchunks, encoding='utf-8'):
+    # a single encoder for the whole document: just one byte order mark for
+    # UTF-16, and character references for what the encoding cannot represent
+    encoder = codecs.getincrementalencoder(encoding)('xmlcharrefreplace')
+    for textchunk in textchunks:
+        yield encoder.encode(textchunk)
+    tail = encoder.encode(u'', final=True)
+    if tail:
+        yield tail
 
 
 def xmlevents_to_textchunks(xmlevents):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 30d68fe..f46d617 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -56,7 +56,8 @@ from .treeop import build_subtree
 from .treeop import tree_events
 from .treeop import tree_events_multi
 from .xmlformat import startelement
-from .xmlformat import xmlevents_to_bytechunks
+from .xmlformat import textchunks_to_bytechunks
+from .xmlformat import xmlevents_to_textchunks
 
 
 PY3 = sys.version_info.major == 3
@@ -680,14 +681,12 @@ class XmlEvents(object):
 
     def bytechunks(self, xml_declaration=True, **kwargs):
         encoding = kwargs.get('xml_encoding', 'utf-8')
+        textchunks = xmlevents_to_textchunks(self)
         if xml_declaration:
-            yield '<?xml version="1.0" encoding="{}"?>\n'.format(
-                encoding
-            ).encode(
-                encoding
-            )
-        bytechunks = xmlevents_to_bytechunks(self, encoding)
-        for chunk in bytechunks:
+            textchunks = chain([
+                '<?xml version="1.0" encoding="{}"?>\n'.format(encoding)
+            ], textchunks)
+        for chunk in textchunks_to_bytechunks(textchunks, encoding):
             yield chunk
 
     def dump(self, outfile, **kwargs):
-- 
2.43.0


From 6e73b8e4d366d2b9cadf77964ed17bbcae033d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 29/61] fix: characters illegal in XML are left out, carriage
 returns are kept

---
 src/hwp5/xmlformat.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index d25afa8..1fb1b2f 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -24,6 +24,7 @@ from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import codecs
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -242,6 +243,21 @@ def element(context, ma):
     yield ENDEVENT, model.__name__
 
 
+# characters not allowed in XML 1.0 documents
+if sys.maxunicode > 0xffff:
+    XML_ILLEGAL_CHARS = u'[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]'
+else:
+    # narrow builds: only unpaired surrogates
+    XML_ILLEGAL_CHARS = (u'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]'
+                         u'|[\ud800-\udbff](?![\udc00-\udfff])'
+                         u'|(?<![\ud800-\udbff])[\udc00-\udfff]')
+XML_ILLEGAL_CHARS = re.compile(XML_ILLEGAL_CHARS)
+
+
+def remove_xml_illegal_chars(text):
+    return XML_ILLEGAL_CHARS.sub(u'', text)
+
+
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
     textchunks = xmlevents_to_textchunks(xmlevents)
     return textchunks_to_bytechunks(textchunks, encoding)
@@ -270,14 +286,10 @@ def xmlevents_to_textchunks(xmlevents):
                 yield ' '
                 yield n
                 yield '='
-                v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
-                yield v
+                yield quoteattr(remove_xml_illegal_chars(v), entities)
             yield '>'
         elif event is Text:
-            text = escape(item)
-            text = text.replace('\x00', '')
-            yield text
+            yield escape(remove_xml_illegal_chars(item), {'\r': '&#13;'})
         elif event is ENDEVENT:
             yield '</'
             yield item
-- 
2.43.0


From e799c7c2692b0d0099703c4289f5b47ccedcd441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 30/61] fix: type of a property is 16 bits, size of a property
 set is a number

---
 src/hwp5/msoleprops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 08afa01..1c6eaa9 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -296,7 +296,7 @@ class TypedPropertyValue(Struct):
         return cls(code=d['type'].code)
 
     TypeFlags = Flags(UINT32,
-                      0, 16, 'code')
+                      0, 15, 'code')
 
     def attributes(cls):
         yield cls.TypeFlags, 'type'
@@ -412,7 +412,7 @@ class PropertySet(object):
 class PropertySetHeader(Struct):
 
     def __init__(self, bytesize, propDescList):
-        self.bytesize = bytesize,
+        self.bytesize = bytesize
         self.propDescList = propDescList
 
     @classmethod
-- 
2.43.0


From 3a3c0bc84ec40d257d9d0b8e74b1d2d5cc0341e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 31/61] fix: times of properties are exact, and those beyond
 datetime do not fail

---
 src/hwp5/msoleprops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 1c6eaa9..96a855f 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -91,13 +91,17 @@ class FILETIME(object):
         self.value = value
 
     def __str__(self):
-        return str(self.datetime)
+        try:
+            return str(self.datetime)
+        except OverflowError:
+            # beyond the range of datetime
+            return str(self.value)
 
     @property
     def datetime(self):
         return (
             datetime(1601, 1, 1, 0, 0, 0) +
-            timedelta(microseconds=self.value / 10)
+            timedelta(microseconds=self.value // 10)
         )
 
 
-- 
2.43.0


From 47cdd183fed2c2d74eb7dc2f1d005295990ea267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 32/61] fix: properties of unknown types do not make the others
 unreadable

---
 src/hwp5/msoleprops.py | 11 +++++++++--
 src/hwp5/xmlmodel.py   |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 96a855f..1f3ba84 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -276,8 +276,15 @@ class PropertyReader(object):
         context = {}
         propType = read_type(TypedPropertyValue, context, f)
         propType = TypedPropertyValue.fromDict(propType)
-        vt_type = vt_types[propType.code]
-        propValue = vt_type.read_value(context, f)
+        vt_type = propType.vt_type
+        if vt_type is not None:
+            propValue = vt_type.read_value(context, f)
+        else:
+            logger.warning(
+                'property 0x%08x: unsupported type 0x%04x',
+                self.propDesc.id, propType.code
+            )
+            propValue = None
 
         return Property(
             desc=self.propDesc,
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index f46d617..ddcb3f5 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -795,13 +795,15 @@ class PropertySetStreamModelEventsGenerator(object):
         if property.idLabel is not None:
             content['id_label'] = property.idLabel
         if property.type is not None:
-            content['type'] = str(property.type.vt_type.__name__)
+            if property.type.vt_type is not None:
+                content['type'] = str(property.type.vt_type.__name__)
             content['type_code'] = '0x{:04x}'.format(property.type.code)
         if property.id == PID_DICTIONARY.id:
             events = self.getDictionaryEvents(property.value)
         else:
             events = ()
-            content['value'] = property.value
+            if property.value is not None:
+                content['value'] = property.value
         element = Property, content, self.context
         return wrap_modelevents(element, events)
 
-- 
2.43.0


From 8ef88439897672f43d3c97ab9a943cb417ca5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 33/61] fix: text form of summary information can be had more
 than once

---
 src/hwp5/filestructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 6907a98..af4e32d 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -513,7 +513,7 @@ class HwpSummaryInfo(VersionSensitiveItem):
     @property
     def plaintext_lines(self):
         from .msoleprops import PropertySetStreamTextFormatter
-        stream = self.getPropertySetStream()
+        stream = self.propertySetStream
         formatter = PropertySetStreamTextFormatter()
         return formatter.formatTextLines(stream)
 
-- 
2.43.0


From cef270e0bbf43d43333a681b74a51da87a6cdd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 34/61] fix: summary information without some of the properties

---
 src/hwp5/filestructure.py | 36 +++++++++++++++++++++++-------------
 src/hwp5/summaryinfo.py   | 30 +++++++++++++++++-------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index af4e32d..65ce7d1 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -445,70 +445,80 @@ class HwpSummaryInfo(VersionSensitiveItem):
 
     propertySet = cached_property(getHwpSummaryInfoPropertySet)
 
+    def getPropertyValue(self, propertyIdentifier):
+        ''' value of the property, ``None`` if there is no such one '''
+        propertySet = self.propertySet
+        if propertySet is None:
+            return None
+        try:
+            return propertySet[propertyIdentifier]
+        except KeyError:
+            return None
+
     @property
     def title(self):
         from .msoleprops import PIDSI_TITLE
-        return self.propertySet[PIDSI_TITLE]
+        return self.getPropertyValue(PIDSI_TITLE)
 
     @property
     def subject(self):
         from .msoleprops import PIDSI_SUBJECT
-        return self.propertySet[PIDSI_SUBJECT]
+        return self.getPropertyValue(PIDSI_SUBJECT)
 
     @property
     def author(self):
         from .msoleprops import PIDSI_AUTHOR
-        return self.propertySet[PIDSI_AUTHOR]
+        return self.getPropertyValue(PIDSI_AUTHOR)
 
     @property
     def keywords(self):
         from .msoleprops import PIDSI_KEYWORDS
-        return self.propertySet[PIDSI_KEYWORDS]
+        return self.getPropertyValue(PIDSI_KEYWORDS)
 
     @property
     def comments(self):
         from .msoleprops import PIDSI_COMMENTS
-        return self.propertySet[PIDSI_COMMENTS]
+        return self.getPropertyValue(PIDSI_COMMENTS)
 
     @property
     def lastSavedBy(self):
         from .msoleprops import PIDSI_LASTAUTHOR
-        return self.propertySet[PIDSI_LASTAUTHOR]
+        return self.getPropertyValue(PIDSI_LASTAUTHOR)
 
     @property
     def revisionNumber(self):
         from .msoleprops import PIDSI_REVNUMBER
-        return self.propertySet[PIDSI_REVNUMBER]
+        return self.getPropertyValue(PIDSI_REVNUMBER)
 
     @property
     def lastPrintedTime(self):
         from .msoleprops import PIDSI_LASTPRINTED
-        return self.propertySet[PIDSI_LASTPRINTED]
+        return self.getPropertyValue(PIDSI_LASTPRINTED)
 
     @property
     def createdTime(self):
         from .msoleprops import PIDSI_CREATE_DTM
-        return self.propertySet[PIDSI_CREATE_DTM]
+        return self.getPropertyValue(PIDSI_CREATE_DTM)
 
     @property
     def lastSavedTime(self):
         from .msoleprops import PIDSI_LASTSAVE_DTM
-        return self.propertySet[PIDSI_LASTSAVE_DTM]
+        return self.getPropertyValue(PIDSI_LASTSAVE_DTM)
 
     @property
     def numberOfPages(self):
         from .msoleprops import PIDSI_PAGECOUNT
-        return self.propertySet[PIDSI_PAGECOUNT]
+        return self.getPropertyValue(PIDSI_PAGECOUNT)
 
     @property
     def dateString(self):
         from .summaryinfo import HWPPIDSI_DATE_STR
-        return self.propertySet[HWPPIDSI_DATE_STR]
+        return self.getPropertyValue(HWPPIDSI_DATE_STR)
 
     @property
     def numberOfParagraphs(self):
         from .summaryinfo import HWPPIDSI_PARACOUNT
-        return self.propertySet[HWPPIDSI_PARACOUNT]
+        return self.getPropertyValue(HWPPIDSI_PARACOUNT)
 
     @property
     def plaintext_lines(self):
diff --git a/src/hwp5/summaryinfo.py b/src/hwp5/summaryinfo.py
index f9b9fbc..4435eef 100644
--- a/src/hwp5/summaryinfo.py
+++ b/src/hwp5/summaryinfo.py
@@ -48,21 +48,25 @@ HWP_PROPERTIES = RESERVED_PROPERTIES + SUMMARY_INFORMATION_PROPERTIES + (
 )
 
 
+def show(value):
+    return value if value is not None else ''
+
+
 class HwpSummaryInfoTextFormatter(object):
 
     def formatTextLines(self, hwpsummaryinfo):
-        yield 'Title: {}'.format(hwpsummaryinfo.title)
-        yield 'Subject: {}'.format(hwpsummaryinfo.subject)
-        yield 'Author: {}'.format(hwpsummaryinfo.author)
-        yield 'Keywords: {}'.format(hwpsummaryinfo.keywords)
-        yield 'Comments: {}'.format(hwpsummaryinfo.comments)
-        yield 'Last saved by: {}'.format(hwpsummaryinfo.lastSavedBy)
-        yield 'Revision Number: {}'.format(hwpsummaryinfo.revisionNumber)
-        yield 'Last Printed at: {}'.format(hwpsummaryinfo.lastPrintedTime)
-        yield 'Created at: {}'.format(hwpsummaryinfo.createdTime)
-        yield 'Last saved at: {}'.format(hwpsummaryinfo.lastSavedTime)
-        yield 'Number of pages: {}'.format(hwpsummaryinfo.numberOfPages)
-        yield 'Date: {}'.format(hwpsummaryinfo.dateString)
+        yield 'Title: {}'.format(show(hwpsummaryinfo.title))
+        yield 'Subject: {}'.format(show(hwpsummaryinfo.subject))
+        yield 'Author: {}'.format(show(hwpsummaryinfo.author))
+        yield 'Keywords: {}'.format(show(hwpsummaryinfo.keywords))
+        yield 'Comments: {}'.format(show(hwpsummaryinfo.comments))
+        yield 'Last saved by: {}'.format(show(hwpsummaryinfo.lastSavedBy))
+        yield 'Revision Number: {}'.format(show(hwpsummaryinfo.revisionNumber))
+        yield 'Last Printed at: {}'.format(show(hwpsummaryinfo.lastPrintedTime))
+        yield 'Created at: {}'.format(show(hwpsummaryinfo.createdTime))
+        yield 'Last saved at: {}'.format(show(hwpsummaryinfo.lastSavedTime))
+        yield 'Number of pages: {}'.format(show(hwpsummaryinfo.numberOfPages))
+        yield 'Date: {}'.format(show(hwpsummaryinfo.dateString))
         yield 'Number of paragraphs: {}'.format(
-            hwpsummaryinfo.numberOfParagraphs
+            show(hwpsummaryinfo.numberOfParagraphs)
         )
-- 
2.43.0


From cb8289a96b6b0e8094cc6a7f94f735f3e8e426b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 35/61] fix: properties are reported under their names in the
 dictionary

---
 src/hwp5/msoleprops.py | 7 +++++--
 src/hwp5/xmlmodel.py   | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 1f3ba84..e9c12b7 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -233,11 +233,12 @@ SUMMARY_INFORMATION_PROPERTIES = (
 
 class Property(object):
 
-    def __init__(self, desc, idLabel, type, value):
+    def __init__(self, desc, idLabel, type, value, displayName=None):
         self.desc = desc
         self.idLabel = idLabel
         self.type = type
         self.value = value
+        self.displayName = displayName
 
     @property
     def id(self):
@@ -291,6 +292,7 @@ class PropertyReader(object):
             idLabel=self.idLabel,
             type=propType,
             value=propValue,
+            displayName=self.displayName,
         )
 
 
@@ -670,9 +672,10 @@ class PropertySetStreamTextFormatter(object):
                             entry.name,
                         )
                 else:
+                    label = property.displayName or property.idLabel
                     yield '- {:08x}: {}(=0x{:08x}): {}'.format(
                         propertyset.desc.offset + property.desc.offset,
-                        property.idLabel if property.idLabel is not None
+                        label if label is not None
                         else '',
                         property.id,
                         property.value
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index ddcb3f5..e2bbbf3 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -794,6 +794,8 @@ class PropertySetStreamModelEventsGenerator(object):
         )
         if property.idLabel is not None:
             content['id_label'] = property.idLabel
+        if property.displayName:
+            content['display_name'] = property.displayName
         if property.type is not None:
             if property.type.vt_type is not None:
                 content['type'] = str(property.type.vt_type.__name__)
-- 
2.43.0


From 07e055abf3ef8638d2959d93d105789d6782e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 36/61] fix: distribution streams without a proper head are
 refused

---
 src/hwp5/distdoc.py         | 13 +++++++++----
 src/hwp5/filestructure.py   |  8 ++++----
 src/hwp5/proc/diststream.py |  6 +++---
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/hwp5/distdoc.py b/src/hwp5/distdoc.py
index c1fc7d9..672fc26 100644
--- a/src/hwp5/distdoc.py
+++ b/src/hwp5/distdoc.py
@@ -34,11 +34,16 @@ from .tagids import HWPTAG_DISTRIBUTE_DOC_DATA
 logger = logging.getLogger(__name__)
 
 
-def decode(stream):
-    distdoc_data_record = read_record(stream, 0)
-    if distdoc_data_record['tagid'] != HWPTAG_DISTRIBUTE_DOC_DATA:
+def read_head(stream):
+    ''' Read the HWPTAG_DISTRIBUTE_DOC_DATA record at the head of a stream. '''
+    record = read_record(stream, 0)
+    if record is None or record['tagid'] != HWPTAG_DISTRIBUTE_DOC_DATA:
         raise IOError('the first record is not an HWPTAG_DISTRIBUTE_DOC_DATA')
-    distdoc_data = distdoc_data_record['payload']
+    return record
+
+
+def decode(stream):
+    distdoc_data = read_head(stream)['payload']
     key = decode_head_to_key(distdoc_data)
     tail = stream.read()
     decrypted = decrypt_tail(key, tail)
diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 65ce7d1..78e3db2 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -216,8 +216,8 @@ class Hwp5DistDocStream(VersionSensitiveItem):
 
     def head_record(self):
         item = self.wrapped.open()
-        from .recordstream import read_record
-        return read_record(item, 0)
+        from hwp5.distdoc import read_head
+        return read_head(item)
 
     def head_record_stream(self):
         from .recordstream import record_to_json
@@ -244,8 +244,8 @@ class Hwp5DistDocStream(VersionSensitiveItem):
 
     def tail(self):
         item = self.wrapped.open()
-        from .recordstream import read_record
-        read_record(item, 0)
+        from hwp5.distdoc import read_head
+        read_head(item)
         assert 4 + 256 == item.tell()
         return item.read()
 
diff --git a/src/hwp5/proc/diststream.py b/src/hwp5/proc/diststream.py
index 530af36..d41cd47 100644
--- a/src/hwp5/proc/diststream.py
+++ b/src/hwp5/proc/diststream.py
@@ -54,7 +54,7 @@ import sys
 from ..distdoc import decode
 from ..distdoc import decode_head_to_sha1
 from ..distdoc import decode_head_to_key
-from ..recordstream import read_record
+from ..distdoc import read_head
 
 
 PY2 = sys.version_info.major == 2
@@ -70,14 +70,14 @@ def main(args):
         output_fp = sys.stdout.buffer
 
     if args.sha1:
-        head = read_record(input_fp, 0)
+        head = read_head(input_fp)
         sha1ucs16le = decode_head_to_sha1(head['payload'])
         sha1 = a2b_hex(sha1ucs16le.decode('utf-16le'))
         if not args.raw:
             sha1 = b2a_hex(sha1)
         output_fp.write(sha1)
     elif args.key:
-        head = read_record(input_fp, 0)
+        head = read_head(input_fp)
         key = decode_head_to_key(head['payload'])
         if not args.raw:
             key = b2a_hex(key)
-- 
2.43.0


From db249fe7d6c5a8a4bfa87808137f1a8d8798bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 37/61] fix: a picture whose image is not embedded cannot be
 converted to ODF

draw:image without a reference and without data is invalid.
---
 src/hwp5/xsl/odt/common.xsl | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e4fe0c..ecab5e6 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1471,9 +1471,9 @@
 	<xsl:variable name="binpath" select="'bindata/'"/>
 	<xsl:variable name="bindataid" select="PictureInfo/@bindata-id"/>
 	<xsl:variable name="bindata" select="/HwpDoc/DocInfo/IdMappings/BinData[number($bindataid)]"/>
-	<xsl:element name="draw:image">
-	  <xsl:choose>
-	    <xsl:when test="$bindata/@storage = 'embedding'">
+	<!-- there is no image to show unless it is embedded in the document -->
+	<xsl:if test="$bindata/@storage = 'embedding'">
+	  <xsl:element name="draw:image">
 	      <xsl:for-each select="$bindata/BinDataEmbedding">
 		<xsl:choose>
 		  <xsl:when test="@inline = 'true'">
@@ -1491,9 +1491,8 @@
 		  </xsl:otherwise>
 		</xsl:choose>
 	      </xsl:for-each>
-	    </xsl:when>
-	  </xsl:choose>
-	</xsl:element>
+	  </xsl:element>
+	</xsl:if>
       </xsl:for-each>
     </xsl:element>
   </xsl:template>
-- 
2.43.0


From 5f22037662641518ded6871653b2f71b8cfaab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 38/61] fix: huge embedded binaries and deeply nested elements
 cannot be transformed with lxml

---
 src/hwp5/plat/_lxml.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/plat/_lxml.py b/src/hwp5/plat/_lxml.py
index 8ef12dc..c443109 100644
--- a/src/hwp5/plat/_lxml.py
+++ b/src/hwp5/plat/_lxml.py
@@ -45,6 +45,12 @@ def is_enabled():
         return True
 
 
+def parse_document(f):
+    from lxml import etree
+    # documents may have deeply nested elements or huge embedded binaries
+    return etree.parse(f, etree.XMLParser(huge_tree=True))
+
+
 def xslt(xsl_path, inp_path, out_path):
     ''' Transform XML with XSL
 
@@ -98,7 +104,7 @@ class XSLT:
         # input, output: binary stream
 
         from lxml import etree
-        source = etree.parse(input)
+        source = parse_document(input)
         logger.info('_lxml.xslt(%s) start',
                     os.path.basename(self.xsl_path))
         result = self.etree_xslt(source, **self.params)
@@ -153,14 +159,12 @@ class RelaxNG:
                 logger.warning('%s: can\'t unlink %s', e, name)
 
     def validate(self, input):
-        from lxml import etree
         with io.open(input, 'rb') as f:
-            doc = etree.parse(f)
+            doc = parse_document(f)
         return self._validate(doc)
 
     def validate_stream(self, input):
-        from lxml import etree
-        doc = etree.parse(input)
+        doc = parse_document(input)
         return self._validate(doc)
 
     def _validate(self, doc):
-- 
2.43.0


From d2150740c74af3b976631b43afbaf4c6dfdc3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 39/61] fix: embedding a binary in XML takes time quadratic in
 its size

---
 src/hwp5/xmlmodel.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index e2bbbf3..57393b3 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -624,14 +624,8 @@ def embed_bindata(event_prefixed_mac, bindata):
                     bin_stream.close()
                 b64 = base64.b64encode(binary)
                 b64 = b64.decode('ascii')
-                truncated = []
-                while b64:
-                    if len(b64) > 64:
-                        truncated.append(b64[:64])
-                        b64 = b64[64:]
-                    else:
-                        truncated.append(b64)
-                        b64 = ''
+                truncated = [b64[pos:pos + 64]
+                             for pos in range(0, len(b64), 64)]
                 b64 = '\n'.join(truncated)
                 b64 = '\n' + b64 + '\n'
                 attributes['bindata']['<text>'] = b64
-- 
2.43.0


From 1ce6038bdea70d305e03d36286426b9939c9fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 40/61] fix: streams of binary items are left open by the ODF
 conversion, nested storages cannot be converted

---
 src/hwp5/hwp5odt.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..be05860 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -34,6 +34,7 @@ from . import __version__ as version
 from .cli import init_logger
 from .cli import init_with_environ
 from .errors import ImplementationNotAvailable
+from .storage import is_storage
 from .utils import mkstemp_open
 from .utils import hwp5_resources_path
 from .transforms import BaseTransform
@@ -143,12 +144,7 @@ class ODTTransform(BaseTransform, ODFValidate):
             self.transform_xhwp5_into_package(xml_path, odtpkg)
 
         if 'BinData' in hwp5file:
-            bindata = hwp5file['BinData']
-            for name in bindata:
-                f = bindata[name].open()
-                path = 'bindata/' + name
-                mimetype = 'application/octet-stream'
-                odtpkg.insert_stream(f, path, mimetype)
+            insert_bindata(hwp5file['BinData'], 'bindata/', odtpkg)
 
     @cached_property
     def transform_xhwp5_to_styles(self):
@@ -232,6 +228,18 @@ class ODTTransform(BaseTransform, ODFValidate):
             return transform
 
 
+def insert_bindata(stg, basepath, odtpkg):
+    for name in stg:
+        item = stg[name]
+        path = basepath + name
+        if is_storage(item):
+            insert_bindata(item, path + '/', odtpkg)
+        else:
+            with closing(item.open()) as f:
+                mimetype = 'application/octet-stream'
+                odtpkg.insert_stream(f, path, mimetype)
+
+
 @contextmanager
 def transformed_at_temp_path(inp_path, transform):
     with mkstemp_open() as (tmp_path, f):
-- 
2.43.0


From d1fab9cf45b2d99c5be0078c02f4a24cc210b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 41/61] fix: files which are not documents are left open

---
 src/hwp5/filestructure.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 78e3db2..a954e4f 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -98,7 +98,10 @@ def is_hwp5file(filename):
         olestg = OleStorage(filename)
     except InvalidOleStorageError:
         return False
-    return storage_is_hwp5file(olestg)
+    try:
+        return storage_is_hwp5file(olestg)
+    finally:
+        olestg.close()
 
 
 def storage_is_hwp5file(stg):
@@ -183,13 +186,20 @@ class Hwp5FileBase(ItemConversionStorage):
     '''
 
     def __init__(self, stg):
-        if isinstance(stg, basestring):
+        opened = isinstance(stg, basestring)
+        if opened:
             try:
                 stg = OleStorage(stg)
             except InvalidOleStorageError:
                 raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
 
-        if not storage_is_hwp5file(stg):
+        valid = False
+        try:
+            valid = storage_is_hwp5file(stg)
+        finally:
+            if opened and not valid:
+                stg.close()
+        if not valid:
             errormsg = 'Not an HWP Document format v5 storage.'
             raise InvalidHwp5FileError(errormsg)
 
-- 
2.43.0


From 4941285fb3ebe18b3e348e3efa9bbe9f1fdeff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 42/61] fix: documents are left open by hwp5proc xml

---
 src/hwp5/proc/xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index 437abe4..5f8f731 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import closing
 from functools import partial
 import logging
 
@@ -70,9 +71,9 @@ def main(args):
         xmllint(c14n=True),
     ] if not args.no_validate_wellformed else [])
 
-    hwp5file = Hwp5File(args.hwp5file)
-    with open_dest() as output:
-        xmldump(hwp5file, output)
+    with closing(Hwp5File(args.hwp5file)) as hwp5file:
+        with open_dest() as output:
+            xmldump(hwp5file, output)
 
 
 def xml_argparser(subparsers, _):
-- 
2.43.0


From 39b6507f321ad69d4547457e5b6e010495fcedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:40 +0000
Subject: [PATCH 43/61] fix: packages are left open if their manifests cannot
 be written

---
 src/hwp5/hwp5odt.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index be05860..48cc815 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -271,13 +271,15 @@ class ODTPackage(object):
 
     def close(self):
 
-        manifest = BytesIO()
-        manifest_xml(manifest, self.files)
-        manifest.seek(0)
-        self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
-        self.zf.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
-
-        self.zf.close()
+        try:
+            manifest = BytesIO()
+            manifest_xml(manifest, self.files)
+            manifest.seek(0)
+            self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
+            self.zf.writestr('mimetype',
+                             'application/vnd.oasis.opendocument.text')
+        finally:
+            self.zf.close()
 
 
 def manifest_xml(f, files):
-- 
2.43.0


From 8f438f7d4931836091a5be832a13b5a5cbd0d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:58 +0000
Subject: [PATCH 44/61] fix: output other than XML cannot be highlighted for
 terminals

---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index f7deffb..0e0754d 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -363,7 +363,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'wb+') as f:
             yield f
 
 
-- 
2.43.0


From 8dc12958042920a7411b0c17d4bf8882514c7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:11 +0000
Subject: [PATCH 45/61] fix: quitting the pager early is reported as an error

---
 src/hwp5/utils.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 0e0754d..848e836 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from functools import partial
 import codecs
+import errno
 import logging
 import os
 import shlex
@@ -306,19 +307,29 @@ def output_thru_subprocess(cmd):
             yield output
         else:
             try:
-                yield p.stdin
-            except IOError as e:
-                import errno
-                if e.errno != errno.EPIPE:
-                    raise
+                with ignoring_epipe():
+                    yield p.stdin
             finally:
-                p.stdin.close()
-                p.wait()
-                retcode = p.returncode
-                logger.debug('%r exit %d', cmd, retcode)
+                try:
+                    # what is buffered is written here
+                    with ignoring_epipe():
+                        p.stdin.close()
+                finally:
+                    p.wait()
+                    retcode = p.returncode
+                    logger.debug('%r exit %d', cmd, retcode)
     return filter
 
 
+@contextmanager
+def ignoring_epipe():
+    try:
+        yield
+    except IOError as e:
+        if e.errno != errno.EPIPE:
+            raise
+
+
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
     cmd = ['xmllint']
     if c14n:
-- 
2.43.0


From d326055092884c6015abd3fb41d634b853295bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:46 +0000
Subject: [PATCH 46/61] fix: documents whose header cannot be read again are
 left open

---
 src/hwp5/filestructure.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index a954e4f..2904d67 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -555,9 +555,16 @@ class Hwp5File(ItemConversionStorage):
     '''
 
     def __init__(self, stg):
+        opened = isinstance(stg, basestring)
         stg = Hwp5FileBase(stg)
+        try:
+            flags = stg.header.flags
+        except BaseException:
+            if opened:
+                stg.close()
+            raise
 
-        if stg.header.flags.password:
+        if flags.password:
             stg = Hwp5PasswordProtectedDoc(stg)
 
             # TODO: 현재로선 decryption이 구현되지 않았으므로,
@@ -566,10 +573,10 @@ class Hwp5File(ItemConversionStorage):
             ItemConversionStorage.__init__(self, stg)
             return
 
-        if stg.header.flags.distributable:
+        if flags.distributable:
             stg = Hwp5DistDoc(stg)
 
-        if stg.header.flags.compressed:
+        if flags.compressed:
             stg = Hwp5Compression(stg)
 
         ItemConversionStorage.__init__(self, stg)
-- 
2.43.0


From aabf060ceeeb306d0c1e4c7f6018e06671e304a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 47/61] fix: damaged files are not refused as invalid ones

---
 src/hwp5/filestructure.py  | 14 +++++++++++---
 src/hwp5/plat/olefileio.py | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 2904d67..cc8cd17 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -25,7 +25,7 @@ import sys
 
 from .bintype import read_type
 from .compressed import decompress
-from .dataio import UINT32, Flags, Struct
+from .dataio import ParseError, UINT32, Flags, Struct
 from .errors import InvalidOleStorageError
 from .errors import InvalidHwp5FileError
 from .storage import ItemWrapper
@@ -110,11 +110,19 @@ def storage_is_hwp5file(stg):
     except KeyError:
         logger.info('stg has no FileHeader')
         return False
+    if not is_stream(fileheader):
+        logger.info('FileHeader is not a stream')
+        return False
     fileheader = HwpFileHeader(fileheader)
-    if fileheader.signature == HWP5_SIGNATURE:
+    try:
+        signature = fileheader.signature
+    except (ParseError, InvalidOleStorageError) as e:
+        logger.info('FileHeader is damaged: %s', e)
+        return False
+    if signature == HWP5_SIGNATURE:
         return True
     else:
-        logger.info('fileheader.signature = %r', fileheader.signature)
+        logger.info('fileheader.signature = %r', signature)
         return False
 
 
diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index 867e16a..535855c 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -19,6 +19,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
+from contextlib import contextmanager
 
 from ..errors import InvalidOleStorageError
 from ..utils import cached_property
@@ -74,6 +75,19 @@ def import_OleFileIO():
         return OleFileIO
 
 
+@contextmanager
+def damages_reported():
+    ''' Report damaged files as `InvalidOleStorageError`. '''
+    try:
+        yield
+    except EnvironmentError as e:
+        if e.errno is not None:
+            raise
+        raise InvalidOleStorageError('%s' % e)
+    except Exception as e:
+        raise InvalidOleStorageError('%s: %s' % (type(e).__name__, e))
+
+
 class OleStorageItem(object):
 
     def __init__(self, olefile, path, parent=None):
@@ -92,7 +106,8 @@ class OleStorageItem(object):
 class OleStream(OleStorageItem):
 
     def open(self):
-        return self.olefile.openstream(self.path)
+        with damages_reported():
+            return self.olefile.openstream(self.path)
 
 
 class OleStorage(OleStorageItem):
@@ -112,7 +127,8 @@ class OleStorage(OleStorageItem):
             if not isOleFile(olefile):
                 errormsg = 'Not an OLE2 Compound Binary File.'
                 raise InvalidOleStorageError(errormsg)
-            olefile = OleFileIO(olefile)
+            with damages_reported():
+                olefile = OleFileIO(olefile)
         OleStorageItem.__init__(self, olefile, path, parent)
 
     def __iter__(self):
-- 
2.43.0


From e48137defde9dddd80bdc7b03c26ae5bf388a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 48/61] fix: conversions of damaged documents exit with success

---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 48cc815..97b49ce 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -375,6 +375,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From fafc1307fe51f01f858f708aaa0b000668575256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 49/61] fix: errors of OLE storages are not reported by the
 commands

---
 src/hwp5/hwp5html.py | 3 ++-
 src/hwp5/hwp5odt.py  | 3 ++-
 src/hwp5/hwp5proc.py | 3 ++-
 src/hwp5/hwp5txt.py  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..2397174 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -121,6 +121,7 @@ class HTMLTransform(BaseTransform):
 def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
+    from .errors import InvalidOleStorageError
     from .utils import make_open_dest_file
     from .xmlmodel import Hwp5File
 
@@ -153,7 +154,7 @@ def main():
     except ParseError as e:
         e.print_to_logger(logger)
         sys.exit(1)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         sys.exit(1)
 
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 97b49ce..fbab279 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -336,6 +336,7 @@ def manifest_rdf(f):
 def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
+    from .errors import InvalidOleStorageError
     from .utils import make_open_dest_file
     from .xmlmodel import Hwp5File
 
@@ -376,7 +377,7 @@ def main():
     except ParseError as e:
         e.print_to_logger(logger)
         sys.exit(1)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         sys.exit(1)
 
diff --git a/src/hwp5/hwp5proc.py b/src/hwp5/hwp5proc.py
index e03edc4..8374cd6 100644
--- a/src/hwp5/hwp5proc.py
+++ b/src/hwp5/hwp5proc.py
@@ -29,6 +29,7 @@ from . import __version__
 from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
+from .errors import InvalidOleStorageError
 
 
 PY3 = sys.version_info.major == 3
@@ -80,7 +81,7 @@ def main():
 
     try:
         return subcommand_fn(args)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         raise SystemExit(1)
     except ParseError as e:
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 3fa0edc..5167c00 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -30,6 +30,7 @@ from . import __version__ as version
 from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
+from .errors import InvalidOleStorageError
 from .utils import make_open_dest_file
 from .utils import cached_property
 from .transforms import BaseTransform
@@ -85,7 +86,7 @@ def main():
     except ParseError as e:
         e.print_to_logger(logger)
         sys.exit(1)
-    except InvalidHwp5FileError as e:
+    except (InvalidHwp5FileError, InvalidOleStorageError) as e:
         logger.error('%s', e)
         sys.exit(1)
 
-- 
2.43.0


From aab0e54ecec7722522b533d073b6df997c93caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 50/61] fix: the last of the names given to hwp5proc find is
 cut

---
 src/hwp5/proc/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..5b08dcb 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -168,7 +168,7 @@ def filenames_from_args(args):
 
 
 def filenames_from_stdin(args):
-    return imap(lambda line: line[:-1], sys.stdin)
+    return imap(lambda line: line.rstrip('\n'), sys.stdin)
 
 
 def conditions_from_args(args):
-- 
2.43.0


From 9c7367df039b59d999e67c15d8133d4c832a290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:55 +0000
Subject: [PATCH 51/61] fix: hwp5proc find exits with success though files
 cannot be read

---
 src/hwp5/proc/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 5b08dcb..a8d106e 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -93,6 +93,7 @@ def main(args):
 
     print_model = printer_from_args(args)
 
+    failed = False
     for filename in filenames:
         try:
             models = hwp5file_models(filename)
@@ -102,6 +103,10 @@ def main(args):
         except ParseError as e:
             logger.error('---- On processing %s:', filename)
             e.print_to_logger(logger)
+            failed = True
+
+    if failed:
+        raise SystemExit(1)
 
 
 def find_argparser(subparsers, _):
-- 
2.43.0


From c804d4cf68ecc493298afff8ae9d25f06d0889db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 52/61] fix: cached properties hide the methods they are made
 of

cached_property() kept values under the name of the function, so that for
instance HwpFileHeader.get_version() could not be called anymore once
`version' had been read.
---
 src/hwp5/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 848e836..537da3b 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -48,18 +48,20 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # not the name of the function, which may be a method of obj as well
+        self.key = '_cached_%s' % func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From 0f4613e026768f44d9517489602b53b529f14747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:51 +0000
Subject: [PATCH 53/61] fix: ODT text next to control characters loses its
 shape

The style of a text is defined under its place among the texts of its line,
but was referred to by its place among texts, control characters, notes and
drawings.
---
 src/hwp5/xsl/odt/common.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index ecab5e6..d01a8a2 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -906,7 +906,7 @@
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
     <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="position()"/>
+    <xsl:variable name="text-pos" select="count(preceding-sibling::Text) + 1"/>
     <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
-- 
2.43.0


From 8c2ac2ce926852f87f3bdc1bea751d272964125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:34 +0000
Subject: [PATCH 54/61] fix: ODT conversion drops the text of fields

What a field (hyperlink, click-here field, ...) encloses is nested in its
element: texts, drawings, notes and tables in it were not converted.
---
 src/hwp5/xsl/odt/common.xsl | 40 ++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index d01a8a2..286f234 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -721,8 +721,8 @@
     <xsl:variable name="paragraph-id" select="@paragraph-id + 1"/>
     <xsl:for-each select="LineSeg">
       <xsl:variable name="lineseg-pos" select="position()" />
-      <xsl:for-each select="Text">
-        <xsl:variable name="text-pos" select="position()" />
+      <xsl:for-each select=".//Text[generate-id(ancestor::LineSeg[1]) = generate-id(current())]">
+        <xsl:variable name="text-pos"><xsl:apply-templates mode="text-pos" select="." /></xsl:variable>
         <xsl:variable name="style-name">
           <xsl:text>p</xsl:text>
           <xsl:value-of select="$paragraph-id" />
@@ -892,21 +892,51 @@
           <xsl:with-param name="paragraph" select="."/>
         </xsl:apply-templates>
       </xsl:element>
-      <xsl:apply-templates select="LineSeg/TableControl"/>
+      <xsl:apply-templates select="LineSeg//TableControl[generate-id(ancestor::Paragraph[1]) = generate-id(current())]"/>
   </xsl:template>
 
   <xsl:template match="LineSeg">
     <xsl:param name="paragraph" />
-    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar">
+    <xsl:apply-templates mode="inline" select=".">
       <xsl:with-param name="paragraph" select="$paragraph"/>
       <xsl:with-param name="lineseg-pos" select="position()"/>
     </xsl:apply-templates>
   </xsl:template>
 
+  <!-- FieldHyperLink, FieldClickHere, ... -->
+  <xsl:template match="*[starts-with(local-name(), 'Field')]">
+    <xsl:param name="paragraph" />
+    <xsl:param name="lineseg-pos" />
+    <xsl:apply-templates mode="inline" select=".">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="lineseg-pos" select="$lineseg-pos"/>
+    </xsl:apply-templates>
+  </xsl:template>
+
+  <xsl:template mode="inline" match="*">
+    <xsl:param name="paragraph" />
+    <xsl:param name="lineseg-pos" />
+    <xsl:apply-templates select="Text|GShapeObjectControl|FootNote|EndNote|ControlChar|*[starts-with(local-name(), 'Field')]">
+      <xsl:with-param name="paragraph" select="$paragraph"/>
+      <xsl:with-param name="lineseg-pos" select="$lineseg-pos"/>
+    </xsl:apply-templates>
+  </xsl:template>
+
+  <!-- place of a text in its line: 2 is the second one, 3-1 the first one in a field at 3 -->
+  <xsl:template mode="text-pos" match="LineSeg/*">
+    <xsl:value-of select="count(preceding-sibling::*) + 1" />
+  </xsl:template>
+
+  <xsl:template mode="text-pos" match="*">
+    <xsl:apply-templates mode="text-pos" select=".." />
+    <xsl:text>-</xsl:text>
+    <xsl:value-of select="count(preceding-sibling::*) + 1" />
+  </xsl:template>
+
   <xsl:template match="Text">
     <xsl:param name="paragraph"/>
     <xsl:param name="lineseg-pos"/>
-    <xsl:variable name="text-pos" select="count(preceding-sibling::Text) + 1"/>
+    <xsl:variable name="text-pos"><xsl:apply-templates mode="text-pos" select="." /></xsl:variable>
     <xsl:variable name="paragraph-id" select="$paragraph/@paragraph-id + 1" />
     <xsl:variable name="style-id" select="$paragraph/@style-id + 1" />
     <xsl:variable name="style" select="/HwpDoc/DocInfo/IdMappings/Style[$style-id]" />
-- 
2.43.0


From 9c5ae6b6aa4427cf220f4ecfe2dc2ecc1a8046a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:34 +0000
Subject: [PATCH 55/61] fix: HTML conversion drops the text of fields

What a field (hyperlink, click-here field, ...) encloses is nested in its
element: texts, control characters, tables and drawings in it were not
converted.
---
 src/hwp5/xsl/hwp5html.xsl | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 1aa1344..239ff63 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -126,19 +126,22 @@
           </xsl:otherwise>
         </xsl:choose>
       </xsl:attribute>
-      <xsl:for-each select="LineSeg">
-        <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']" />
-      </xsl:for-each>
+      <xsl:apply-templates select="LineSeg" />
     </xsl:element>
-    <xsl:apply-templates select="LineSeg/TableControl[@inline='0']" />
-    <xsl:apply-templates select="LineSeg/GShapeObjectControl[@inline='0']" />
+    <xsl:apply-templates select="LineSeg//TableControl[@inline='0'][generate-id(ancestor::Paragraph[1]) = generate-id(current())]" />
+    <xsl:apply-templates select="LineSeg//GShapeObjectControl[@inline='0'][generate-id(ancestor::Paragraph[1]) = generate-id(current())]" />
+  </xsl:template>
+
+  <!-- fields: FieldHyperLink, FieldClickHere, ... -->
+  <xsl:template match="LineSeg|*[starts-with(local-name(), 'Field')]">
+    <xsl:apply-templates select="Text|ControlChar|AutoNumbering|TableControl[@inline='1']|GShapeObjectControl[@inline='1']|*[starts-with(local-name(), 'Field')]" />
   </xsl:template>
 
   <xsl:template match="ControlChar"><xsl:value-of select="@char"/></xsl:template>
 
-  <xsl:template match="Paragraph/LineSeg/Text">
+  <xsl:template match="Text">
     <xsl:element name="span">
-      <xsl:variable name="styleid" select="../../@style-id"/>
+      <xsl:variable name="styleid" select="ancestor::Paragraph[1]/@style-id"/>
       <xsl:variable name="style" select="//Style[number($styleid)+1]" />
       <xsl:variable name="stylename" select="$style/@name" />
       <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
@@ -435,7 +438,7 @@
   </xsl:template>
 
   <xsl:template match="TableControl|GShapeObjectControl" mode="extendedcontrol-hpos">
-    <xsl:variable name="paragraph" select="../.." />
+    <xsl:variable name="paragraph" select="ancestor::Paragraph[1]" />
     <xsl:variable name="parashape_pos" select="number($paragraph/@parashape-id) + 1" />
     <xsl:variable name="parashape" select="//ParaShape[$parashape_pos]" />
     <xsl:variable name="columnset" select="$paragraph/.." />
-- 
2.43.0


From c743b296e4ffca58865851c7c805f4a491186613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:38 +0000
Subject: [PATCH 56/61] fix: ODT conversion fails on fonts without a PANOSE

---
 src/hwp5/xsl/odt/common.xsl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 286f234..719a372 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -198,12 +198,14 @@
       <!-- Panose1/@serif-style -->
       <!-- 2..10 : serif(roman) -->
       <!-- 11~15 : sans-serif(swiss) -->
-      <xsl:attribute name="style:font-family-generic">
-        <xsl:choose>
-          <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
-          <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
-        </xsl:choose>
-      </xsl:attribute>
+      <xsl:if test="Panose1">
+        <xsl:attribute name="style:font-family-generic">
+          <xsl:choose>
+            <xsl:when test="Panose1/@serif-style &lt; 11"><xsl:text>roman</xsl:text></xsl:when>
+            <xsl:when test="Panose1/@serif-style &gt;= 11"><xsl:text>swiss</xsl:text></xsl:when>
+          </xsl:choose>
+        </xsl:attribute>
+      </xsl:if>
       <!-- TODO: Panose1/@proportion -->
       <xsl:attribute name="style:font-pitch">variable</xsl:attribute>
     </xsl:element>
-- 
2.43.0


From ba65774e6ebdd5ee9d3945e821dae231732185b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:55 +0000
Subject: [PATCH 57/61] fix: text starting columns in headers, footers and
 notes is dropped

---
 src/hwp5/xsl/hwp5html.xsl   | 4 ++--
 src/hwp5/xsl/odt/common.xsl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/xsl/hwp5html.xsl b/src/hwp5/xsl/hwp5html.xsl
index 239ff63..77cdf0c 100644
--- a/src/hwp5/xsl/hwp5html.xsl
+++ b/src/hwp5/xsl/hwp5html.xsl
@@ -93,14 +93,14 @@
   <xsl:template match="Header" mode="div">
     <xsl:element name="div">
       <xsl:attribute name="class">HeaderArea</xsl:attribute>
-      <xsl:apply-templates select="HeaderParagraphList/Paragraph" />
+      <xsl:apply-templates select="HeaderParagraphList/Paragraph | HeaderParagraphList/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
   <xsl:template match="Footer" mode="div">
     <xsl:element name="div">
       <xsl:attribute name="class">FooterArea</xsl:attribute>
-      <xsl:apply-templates select="FooterParagraphList/Paragraph" />
+      <xsl:apply-templates select="FooterParagraphList/Paragraph | FooterParagraphList/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 719a372..a77d800 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1654,7 +1654,7 @@
 
   <xsl:template mode="text:note-body" match="FootNote|EndNote">
     <xsl:element name="text:note-body">
-      <xsl:apply-templates select="ListHeader/Paragraph" />
+      <xsl:apply-templates select="ListHeader/Paragraph | ListHeader/ColumnSet/Paragraph" />
     </xsl:element>
   </xsl:template>
 
-- 
2.43.0


From 2eebddbf9829e622aab7ca3f6a1786490778e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:02 +0000
Subject: [PATCH 58/61] fix: the ODT of tables in text boxes is not valid

---
 src/hwp5/xsl/odt/common.xsl | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index a77d800..2e13434 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -1578,7 +1578,15 @@
     <xsl:param name="x" />
     <xsl:param name="y" />
 
-    <xsl:element name="draw:rect">
+    <!-- draw:rect cannot have tables in it -->
+    <xsl:variable name="has-tables" select="boolean(TextboxParagraphList//TableControl)"/>
+    <xsl:variable name="element-name">
+      <xsl:choose>
+        <xsl:when test="$has-tables">draw:frame</xsl:when>
+        <xsl:otherwise>draw:rect</xsl:otherwise>
+      </xsl:choose>
+    </xsl:variable>
+    <xsl:element name="{$element-name}">
       <xsl:attribute name="draw:style-name">Shape-<xsl:value-of select="@shape-id + 1"/></xsl:attribute>
       <xsl:attribute name="svg:x"><xsl:value-of select="round($x div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
       <xsl:attribute name="svg:y"><xsl:value-of select="round($y div 7200 * 25.4 * 100) div 100"/>mm</xsl:attribute>
@@ -1593,9 +1601,18 @@
 	<xsl:with-param name="y" select="$y" />
       </xsl:apply-templates>
 
-      <xsl:for-each select="TextboxParagraphList">
-        <xsl:apply-templates />
-      </xsl:for-each>
+      <xsl:choose>
+        <xsl:when test="$has-tables">
+          <xsl:element name="draw:text-box">
+            <xsl:apply-templates select="TextboxParagraphList/*" />
+          </xsl:element>
+        </xsl:when>
+        <xsl:otherwise>
+          <xsl:for-each select="TextboxParagraphList">
+            <xsl:apply-templates />
+          </xsl:for-each>
+        </xsl:otherwise>
+      </xsl:choose>
     </xsl:element>
   </xsl:template>
 
-- 
2.43.0


From 2c74d93ff46b47981945a85eaba7b4b7233d4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:07 +0000
Subject: [PATCH 59/61] fix: ODT conversion drops the text of fields (keep the
 names of styles)

Texts outside of fields are counted as before.
---
 src/hwp5/xsl/odt/common.xsl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/xsl/odt/common.xsl b/src/hwp5/xsl/odt/common.xsl
index 2e13434..87de02c 100644
--- a/src/hwp5/xsl/odt/common.xsl
+++ b/src/hwp5/xsl/odt/common.xsl
@@ -924,15 +924,18 @@
     </xsl:apply-templates>
   </xsl:template>
 
-  <!-- place of a text in its line: 2 is the second one, 3-1 the first one in a field at 3 -->
-  <xsl:template mode="text-pos" match="LineSeg/*">
-    <xsl:value-of select="count(preceding-sibling::*) + 1" />
+  <!-- place of a text in its line: 2 is the second text, 3-1 the first text in a field, the third element -->
+  <xsl:template mode="text-pos" match="LineSeg" />
+
+  <xsl:template mode="text-pos" match="Text">
+    <xsl:apply-templates mode="text-pos" select=".." />
+    <xsl:value-of select="count(preceding-sibling::Text) + 1" />
   </xsl:template>
 
   <xsl:template mode="text-pos" match="*">
     <xsl:apply-templates mode="text-pos" select=".." />
-    <xsl:text>-</xsl:text>
     <xsl:value-of select="count(preceding-sibling::*) + 1" />
+    <xsl:text>-</xsl:text>
   </xsl:template>
 
   <xsl:template match="Text">
-- 
2.43.0


From 2a808a62b58127e2e0bbab676f21acf56e6d4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 60/61] fix: hwp5proc find --tag with a number that has no name

---
 src/hwp5/proc/find.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index a8d106e..0942eca 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -68,7 +68,7 @@ from ..binmodel import Hwp5File
 from ..binmodel import model_to_json
 from ..bintype import log_events
 from ..dataio import ParseError
-from ..tagids import tagnames
+from ..recordstream import tagname
 
 
 PY2 = sys.version_info.major == 2
@@ -190,7 +190,7 @@ def conditions_from_args(args):
         except ValueError:
             pass
         else:
-            tag = tagnames[tag]
+            tag = tagname(tag)
 
         def with_tag(model):
             return model['tagname'] == tag
-- 
2.43.0


From ec4d7bf013b766b358da6d650368fe312bd25109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 61/61] fix: a tree group that is not there has no models

---
 src/hwp5/recordstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 8dc4244..8d144ab 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -180,7 +180,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
     def records_treegroup(self, n):
         ''' returns list of records in `n'th top-level tree '''
         groups = self.records_treegrouped()
-        return nth(groups, n)
+        return nth(groups, n, [])
 
     def other_formats(self):
         return {'.records': lambda: self.records_json().open()}
-- 
2.43.0

