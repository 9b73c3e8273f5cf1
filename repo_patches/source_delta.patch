From a423d88794dcedd368bb82394a4b51f45d3016e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 01/49] fix: hwp5proc: report a failure to flush the standard
 output

The text buffered in sys.stdout was left to the interpreter shutdown, which
may drop it silently: the command then exited 0 with its output lost.
---
 src/hwp5/hwp5proc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5proc.py b/src/hwp5/hwp5proc.py
index e03edc4..2290218 100644
--- a/src/hwp5/hwp5proc.py
+++ b/src/hwp5/hwp5proc.py
@@ -79,7 +79,10 @@ def main():
         raise SystemExit(1)
 
     try:
-        return subcommand_fn(args)
+        ret = subcommand_fn(args)
+        # report a failure to deliver the buffered output, if any
+        sys.stdout.flush()
+        return ret
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         raise SystemExit(1)
-- 
2.43.0


From 7502bd3d3b2aba3856636c96b50b92688ec525f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 02/49] fix: converters: exit with failure on ParseError

hwp5txt, hwp5html and hwp5odt logged the error and exited 0 although their
output was missing or partial.
---
 src/hwp5/hwp5html.py | 1 +
 src/hwp5/hwp5odt.py  | 1 +
 src/hwp5/hwp5txt.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index 73243c3..f1b883a 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -152,6 +152,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 2c97622..d7ae124 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -365,6 +365,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 24b306a..3fa0edc 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -84,6 +84,7 @@ def main():
                 transform(hwp5file, dest)
     except ParseError as e:
         e.print_to_logger(logger)
+        sys.exit(1)
     except InvalidHwp5FileError as e:
         logger.error('%s', e)
         sys.exit(1)
-- 
2.43.0


From 3ab3dfefb7fd73a3225c9d851d1622229a25a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 03/49] fix: hwp5proc find: exit with failure if any file could
 not be parsed

---
 src/hwp5/proc/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 1e69bf2..8bbf047 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -93,6 +93,7 @@ def main(args):
 
     print_model = printer_from_args(args)
 
+    failed = False
     for filename in filenames:
         try:
             models = hwp5file_models(filename)
@@ -102,6 +103,10 @@ def main(args):
         except ParseError as e:
             logger.error('---- On processing %s:', filename)
             e.print_to_logger(logger)
+            failed = True
+
+    if failed:
+        return 1
 
 
 def find_argparser(subparsers, _):
-- 
2.43.0


From eb384c039b456ad30c220f5d4c55d36cf5dca76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 04/49] fix: recordstream: reject a record stream which ends
 inside a record

A truncated payload was yielded as a complete record, a stream which ended
inside an extended record header was taken as its clean end and an empty
payload was taken as the end of data. Short reads are completed.
---
 src/hwp5/recordstream.py | 51 ++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 2970c28..1ab9a1c 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -23,10 +23,10 @@ from itertools import islice
 import json
 import struct
 
-from . import dataio
 from . import filestructure
 from .dataio import dumpbytes
-from .dataio import Eof
+from .dataio import OutOfData
+from .dataio import ParseError
 from .dataio import UINT32
 from .tagids import HWPTAG_BEGIN
 from .tagids import tagnames
@@ -47,18 +47,41 @@ def Record(tagid, level, payload, size=None, seqno=None):
     return d
 
 
+def truncated_record(expected, data):
+    e = ParseError('truncated record stream')
+    e.cause = OutOfData('%d bytes expected, got %d' % (expected, len(data)))
+    e.offset = len(data)
+    return e
+
+
+def read_upto(f, size):
+    ''' read `size' bytes, or less only if the stream ends there '''
+    data = f.read(size)
+    while len(data) < size:
+        more = f.read(size - len(data))
+        if not more:
+            break
+        data += more
+    return data
+
+
 def decode_record_header(f):
-    try:
-        # TagID, Level, Size
-        rechdr = UINT32.read(f)
-        tagid = rechdr & 0x3ff
-        level = (rechdr >> 10) & 0x3ff
-        size = (rechdr >> 20) & 0xfff
-        if size == 0xfff:
-            size = UINT32.read(f)
-        return (tagid, level, size)
-    except Eof:
+    # TagID, Level, Size
+    data = read_upto(f, 4)
+    if len(data) == 0:
         return None
+    if len(data) < 4:
+        raise truncated_record(4, data)
+    rechdr = UINT32.decode(data)
+    tagid = rechdr & 0x3ff
+    level = (rechdr >> 10) & 0x3ff
+    size = (rechdr >> 20) & 0xfff
+    if size == 0xfff:
+        data = read_upto(f, 4)
+        if len(data) < 4:
+            raise truncated_record(4, data)
+        size = UINT32.decode(data)
+    return (tagid, level, size)
 
 
 def encode_record_header(rec):
@@ -78,7 +101,9 @@ def read_record(f, seqno):
     if header is None:
         return
     tagid, level, size = header
-    payload = dataio.readn(f, size)
+    payload = read_upto(f, size)
+    if len(payload) < size:
+        raise truncated_record(size, payload)
     return Record(tagid, level, payload, size, seqno)
 
 
-- 
2.43.0


From 7803c3511a98953402ec94752ab391d32fbb54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 05/49] fix: output_thru_subprocess: always reap the filter,
 report xmllint failures

A broken pipe on closing the filter's input escaped and skipped the wait();
the exit status of xmllint was ignored, so that the output of a failing
xmllint was lost while the command exited 0.
---
 src/hwp5/utils.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 83138f9..af36e7a 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -22,10 +22,12 @@ from __future__ import unicode_literals
 from contextlib import contextmanager
 from functools import partial
 import codecs
+import errno
 import logging
 import os
 import shlex
 import shutil
+import signal
 import subprocess
 import sys
 import tempfile
@@ -298,7 +300,13 @@ def null_contextmanager_filter(output):
     yield output
 
 
-def output_thru_subprocess(cmd):
+def output_thru_subprocess(cmd, check=False):
+    ''' pipe the output through a subprocess
+
+    :param check:
+        raise CalledProcessError if the subprocess fails, except when it has
+        been stopped by its own reader (SIGPIPE).
+    '''
     @contextmanager
     def filter(output):
         logger.debug('%r', cmd)
@@ -309,19 +317,29 @@ def output_thru_subprocess(cmd):
             yield output
         else:
             try:
-                yield p.stdin
-            except IOError as e:
-                import errno
-                if e.errno != errno.EPIPE:
-                    raise
+                with ignore_epipe():
+                    yield p.stdin
             finally:
-                p.stdin.close()
-                p.wait()
-                retcode = p.returncode
-                logger.debug('%r exit %d', cmd, retcode)
+                try:
+                    with ignore_epipe():
+                        p.stdin.close()
+                finally:
+                    retcode = p.wait()
+                    logger.debug('%r exit %d', cmd, retcode)
+            if check and retcode not in (0, -getattr(signal, 'SIGPIPE', 0)):
+                raise subprocess.CalledProcessError(retcode, cmd)
     return filter
 
 
+@contextmanager
+def ignore_epipe():
+    try:
+        yield
+    except IOError as e:
+        if e.errno != errno.EPIPE:
+            raise
+
+
 def xmllint(c14n=False, encode=None, format=False, nonet=True):
     cmd = ['xmllint']
     if c14n:
@@ -333,7 +351,7 @@ def xmllint(c14n=False, encode=None, format=False, nonet=True):
     if nonet:
         cmd.append('--nonet')
     cmd.append('-')
-    return output_thru_subprocess(cmd)
+    return output_thru_subprocess(cmd, check=True)
 
 
 def syntaxhighlight(mimetype):
-- 
2.43.0


From cb98db60f0736ad9f159d13a0ce34868e3c36e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 06/49] fix: syntaxhighlight: buffer the output as bytes

Transforms write bytes; with a text-mode temporary file the CSS output to a
terminal, and the XML output without xmllint, failed with a TypeError.
---
 src/hwp5/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index af36e7a..ab4b8c6 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -384,7 +384,7 @@ def syntaxhighlight_pygments(mimetype):
 def make_temp_file():
     fd, name = tempfile.mkstemp()
     with unlink_path(name):
-        with os.fdopen(fd, 'w+') as f:
+        with os.fdopen(fd, 'wb+') as f:
             yield f
 
 
-- 
2.43.0


From 334aa77bea290cae9f69e7e95bdf9929134cea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 07/49] fix: hwp5odt: do not finish the package if the
 conversion fails

open_odtpkg() wrote the manifest and the zip central directory even when the
conversion had failed, which left a well-formed package without its contents.
---
 src/hwp5/hwp5odt.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index d7ae124..491902d 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -271,6 +271,16 @@ class ODTPackage(object):
 
         self.zf.close()
 
+    def abort(self):
+        ''' give up an incomplete package
+
+        Neither the manifest nor the zip central directory is written, so that
+        it cannot be mistaken for a complete one.
+        '''
+        fp, self.zf.fp = self.zf.fp, None
+        if fp is not None:
+            fp.close()
+
 
 def manifest_xml(f, files):
     from xml.sax.saxutils import XMLGenerator
@@ -437,8 +447,12 @@ def replace_ext(path, ext):
 @contextmanager
 def open_odtpkg(path):
     odtpkg = ODTPackage(path)
-    with closing(odtpkg):
+    try:
         yield odtpkg
+        odtpkg.close()
+    except BaseException:
+        odtpkg.abort()
+        raise
 
 
 def wrap_for_xml(open_dest):
-- 
2.43.0


From 00b5a1565a754bae23940117d6f9a8fe2765f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 08/49] fix: unpack: keep every file in the output directory

A storage named '..' was extracted into the parent of the output directory.
The translation of \x05 is applied to each name, of storages as well, instead
of to the whole path of streams.
---
 src/hwp5/storage/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 06b9f24..081ebf7 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -121,6 +121,21 @@ def iter_storage_leafs(stg, basepath=''):
             yield path
 
 
+def name_to_filename(name):
+    ''' convert a name of a storage item into a name of a file
+
+    The result always denotes a file in the directory it is joined with, never
+    the directory itself, its parent nor any other place.
+    '''
+    name = name.replace('\x05', '_05')
+    for sep in (os.sep, os.altsep):
+        if sep:
+            name = name.replace(sep, '_%02x' % ord(sep))
+    if name in (os.curdir, os.pardir):
+        name = name.replace('.', '_2e')
+    return name
+
+
 def unpack(stg, outbase):
     ''' unpack a storage into outbase directory
 
@@ -128,7 +143,7 @@ def unpack(stg, outbase):
         outbase: path to a directory in filesystem (should not end with '/')
     '''
     for name in stg:
-        outpath = os.path.join(outbase, name)
+        outpath = os.path.join(outbase, name_to_filename(name))
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
@@ -137,7 +152,6 @@ def unpack(stg, outbase):
         else:
             f = item.open()
             try:
-                outpath = outpath.replace('\x05', '_05')
                 with io.open(outpath, 'wb') as outfile:
                     outfile.write(f.read())
             finally:
-- 
2.43.0


From 4503bc98f6451c16619efce52b9fb0d678893a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 09/49] fix: olefileio: list the storages nested in a storage

Only the root listed its storages: the contents of any deeper one were
missing from ls, unpack and every other traversal.
---
 src/hwp5/plat/olefileio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index be3b8a0..3d2d849 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -160,7 +160,11 @@ def olefile_listdir(olefile, path):
     if olefile.get_type(path) != 1:
         raise IOError('%s not a storage' % path)
     path_segments = path.split('/')
+    depth = len(path_segments)
+    yielded = []
     for stream in olefile.listdir():
-        if len(stream) == len(path_segments) + 1:
-            if stream[:-1] == path_segments:
-                yield stream[-1]
+        if len(stream) > depth and stream[:depth] == path_segments:
+            name = stream[depth]
+            if name not in yielded:
+                yielded.append(name)
+                yield name
-- 
2.43.0


From 46720f0366fc60af96eb898161c40133adc5af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 10/49] fix: xsltproc: raise an error if the transform fails

The callers take the return for success, so a failing xsltproc left the output
empty or partial while the command exited 0.
---
 src/hwp5/plat/xsltproc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 747f649..179c170 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -84,10 +84,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
     def transform_into_stream(self, input, output):
         '''
@@ -97,10 +96,9 @@ class XSLT:
         logger.info('%r', cmd)
         p = Popen(cmd, stdout=output)
         p.wait()
-        if p.returncode == 0:
-            return dict()
-        else:
-            return dict(errors=[])
+        if p.returncode != 0:
+            raise CalledProcessError(p.returncode, cmd)
+        return dict()
 
 
 def xslt_compile(xsl_path, **params):
-- 
2.43.0


From 5681d8fd52bcd071d6eddee9667462651686f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/49] fix: xmllint RelaxNG: reap the validator if closing its
 input fails

---
 src/hwp5/plat/xmllint.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 2ef1e09..69d9f62 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -85,13 +85,11 @@ class RelaxNG:
         args = [executable, '--relaxng', self.rng_path, '-']
         p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=output)
         try:
-            yield p.stdin
-        except:
-            p.stdin.close()
+            try:
+                yield p.stdin
+            finally:
+                p.stdin.close()
+        finally:
             p.wait()
-            raise
-        else:
-            p.stdin.close()
-            p.wait()
-            if p.returncode != 0:
-                raise Exception('RelaxNG validation failed')
+        if p.returncode != 0:
+            raise Exception('RelaxNG validation failed')
-- 
2.43.0


From ee6d0cc3d16e1e98efcb5eef5b11831ff2717b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:51 +0000
Subject: [PATCH 12/49] fix: openssl backend: remove the temporary file and
 detect failures

The temporary file was left behind if it could not be written, and the output
of a failing openssl was taken as the decrypted data.
---
 src/hwp5/plat/__init__.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/plat/__init__.py b/src/hwp5/plat/__init__.py
index a23c299..fec47bf 100644
--- a/src/hwp5/plat/__init__.py
+++ b/src/hwp5/plat/__init__.py
@@ -158,30 +158,30 @@ def get_aes128ecb_decrypt_openssl():
 
     def decrypt(key, ciphertext):
         fd, name = tempfile.mkstemp()
-        fp = os.fdopen(fd, 'wb')
-        try:
-            fp.write(ciphertext)
-        finally:
-            fp.close()
-
-        args = [
-            'openssl',
-            'enc',
-            '-d',
-            '-in',
-            name,
-            '-aes-128-ecb',
-            '-K',
-            b2a_hex(key),
-            '-nopad',
-        ]
         try:
+            with os.fdopen(fd, 'wb') as fp:
+                fp.write(ciphertext)
+
+            args = [
+                'openssl',
+                'enc',
+                '-d',
+                '-in',
+                name,
+                '-aes-128-ecb',
+                '-K',
+                b2a_hex(key),
+                '-nopad',
+            ]
             p = Popen(args, stdout=subprocess.PIPE)
             try:
-                return p.stdout.read()
+                decrypted = p.stdout.read()
             finally:
-                p.wait()
                 p.stdout.close()
+                p.wait()
+            if p.returncode != 0:
+                raise CalledProcessError(p.returncode, args)
+            return decrypted
         finally:
             os.unlink(name)
 
-- 
2.43.0


From c6f9e0c88d5e981990db0020228872d08924230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/49] fix: GeneratorReader: never return more than asked for

Once the generator was exhausted, read(size) returned the whole buffer; it also
pulled the generator although the buffer was sufficient, and read(-1) returned
all but the last byte.
---
 src/hwp5/utils.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index ab4b8c6..bc54556 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -165,19 +165,17 @@ class GeneratorReader(object):
         self.buffer = b''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d, self.buffer = self.buffer, b''
             return d + b''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d, self.buffer = self.buffer, b''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
@@ -201,21 +199,18 @@ class GeneratorTextReader(object):
         self.buffer = ''
 
     def read(self, size=None):
-        if size is None:
+        if size is None or size < 0:
             d = self.buffer
             self.buffer = ''
             return d + ''.join(self.gen)
 
-        for data in self.gen:
-            self.buffer += data
-            bufsize = len(self.buffer)
-            if bufsize >= size:
-                size = min(bufsize, size)
-                d, self.buffer = self.buffer[:size], self.buffer[size:]
-                return d
+        while len(self.buffer) < size:
+            try:
+                self.buffer += next(self.gen)
+            except StopIteration:
+                break
 
-        d = self.buffer
-        self.buffer = ''
+        d, self.buffer = self.buffer[:size], self.buffer[size:]
         return d
 
     def close(self):
-- 
2.43.0


From 12da0802d370cc2e9b8dc1cc8ac738231c837e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 14/49] fix: zlib_raw StreamReader: take only an empty read as
 the end of input

Every chunk was taken as the last one, which made read(size) return less than
available, or nothing at all before the end of data.
---
 src/hwp5/zlib_raw_codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index a34b19f..521f1cb 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -127,7 +127,7 @@ class StreamReader(object):
                 return d
 
             c = self.stream.read(8196)
-            final = len(c) < 8196 or len(c)
+            final = len(c) == 0
             self.buffer += self.decoder.decode(c, final)
 
     def tell(self):
-- 
2.43.0


From ed6a7924bb88f8ba4b00b95c5971ddb993b20dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 15/49] fix: zlib_raw IncrementalEncoder: drop the header again
 after reset()

---
 src/hwp5/zlib_raw_codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hwp5/zlib_raw_codec.py b/src/hwp5/zlib_raw_codec.py
index 521f1cb..ec8c5a9 100644
--- a/src/hwp5/zlib_raw_codec.py
+++ b/src/hwp5/zlib_raw_codec.py
@@ -64,6 +64,7 @@ class IncrementalEncoder(codecs.IncrementalEncoder):
 
     def reset(self):
         self.compressobj = zlib.compressobj()
+        self.initial = True
 
 
 class IncrementalDecoder(codecs.IncrementalDecoder):
-- 
2.43.0


From fbf5ca7df3f16354dd85e26c831953c24d66afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 16/49] fix: decompress_gen: do not take a short read as the
 end of input

---
 src/hwp5/compressed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/compressed.py b/src/hwp5/compressed.py
index 033bfed..d27601d 100644
--- a/src/hwp5/compressed.py
+++ b/src/hwp5/compressed.py
@@ -48,7 +48,7 @@ def decompress_gen(source, bufsize=4096):
     exausted = False
     while not exausted:
         input = source.read(bufsize)
-        if len(input) < bufsize:
+        if len(input) == 0:
             exausted = True
         yield dec.decode(input, exausted)
 
-- 
2.43.0


From 4f45ba5f867da4350be663386cdc08eba63abfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 17/49] fix: virtual streams: make every open() start from the
 beginning

A .records, .models or .xml item shared one single-shot generator between all
its opens: the second one was empty, and concurrent ones shared the data.
---
 src/hwp5/binmodel/__init__.py | 2 +-
 src/hwp5/recordstream.py      | 2 +-
 src/hwp5/xmlmodel.py          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index a48116d..4c19dd4 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -466,7 +466,7 @@ class ModelStream(recordstream.RecordStream):
 
     def other_formats(self):
         d = super(ModelStream, self).other_formats()
-        d['.models'] = self.models_json().open
+        d['.models'] = lambda: self.models_json().open()
         return d
 
     def parse_model_events(self):
diff --git a/src/hwp5/recordstream.py b/src/hwp5/recordstream.py
index 1ab9a1c..52dc7b6 100644
--- a/src/hwp5/recordstream.py
+++ b/src/hwp5/recordstream.py
@@ -208,7 +208,7 @@ class RecordStream(filestructure.VersionSensitiveItem):
         return nth(groups, n)
 
     def other_formats(self):
-        return {'.records': self.records_json().open}
+        return {'.records': lambda: self.records_json().open()}
 
 
 class Sections(filestructure.Sections):
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 84024c2..c3af21e 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -633,7 +633,7 @@ class ModelEventStream(binmodel.ModelStream, XmlEventsMixin):
 
     def other_formats(self):
         d = super(ModelEventStream, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
@@ -780,7 +780,7 @@ class Sections(binmodel.Sections, XmlEventsMixin):
 
     def other_formats(self):
         d = super(Sections, self).other_formats()
-        d['.xml'] = self.xmlevents().open
+        d['.xml'] = lambda: self.xmlevents().open()
         return d
 
 
-- 
2.43.0


From 839a02d67e7d603a0c70d88877f24a3f609965a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 18/49] fix: models_treegrouped: do not share the context
 between the groups

---
 src/hwp5/binmodel/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index 4c19dd4..00b5c86 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -454,8 +454,8 @@ class ModelStream(recordstream.RecordStream):
         '''
         kwargs.setdefault('version', self.version)
         for group_idx, records in enumerate(self.records_treegrouped()):
-            kwargs['treegroup'] = group_idx
-            yield parse_models(kwargs, records)
+            context = dict(kwargs, treegroup=group_idx)
+            yield parse_models(context, records)
 
     def model(self, idx):
         return nth(self.models(), idx)
-- 
2.43.0


From c4ee500675784040a4a2befd85f9779928a490fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 19/49] fix: PreviewText: make the UTF-8 stream readable in any
 chunk size

---
 src/hwp5/filestructure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index f5fc528..5b18af2 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -296,7 +296,12 @@ class PreviewText(object):
 
     def open_utf8(self):
         transcode = transcoder('utf-16le', 'utf-8')
-        return transcode(self.open())
+        # StreamRecoder.read(size) may return nothing before the end of data
+        f = transcode(self.open())
+        try:
+            return BytesIO(f.read())
+        finally:
+            f.close()
 
     def get_utf8(self):
         f = self.open_utf8()
-- 
2.43.0


From ac4eafcb9d334b8673ef1686e4fa2d603dca6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 20/49] fix: xmldump_flat: write the XML declaration as bytes

hwp5proc xml --format flat failed with a TypeError in Python 3.
---
 src/hwp5/xmldump_flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 36a7757..3644f29 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -41,7 +41,7 @@ def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
     if xml_declaration:
-        output.write('<?xml version="1.0" encoding="utf-8"?>')
+        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
     for x in bytechunks:
         output.write(x)
 
-- 
2.43.0


From fd0d3a091cce232de267a9b73c8fbc97770e88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 21/49] fix: hwp5proc records: read the standard input as bytes

---
 src/hwp5/proc/records.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/proc/records.py b/src/hwp5/proc/records.py
index 3d9efdb..cf257e4 100644
--- a/src/hwp5/proc/records.py
+++ b/src/hwp5/proc/records.py
@@ -34,9 +34,11 @@ PY2 = sys.version_info.major == 2
 
 def main(args):
     if PY2:
+        stdin_binary = sys.stdin
         stdout_text = sys.stdout
         stdout_binary = sys.stdout
     else:
+        stdin_binary = sys.stdin.buffer
         stdout_text = sys.stdout
         stdout_binary = sys.stdout.buffer
 
@@ -47,7 +49,7 @@ def main(args):
         streamname = args.record_stream
         stream = parse_recordstream_name(hwpfile, streamname)
     else:
-        stream = RecordStream(Open2Stream(lambda: sys.stdin), None)
+        stream = RecordStream(Open2Stream(lambda: stdin_binary), None)
 
     opts = dict()
     rng = args.range
-- 
2.43.0


From 944f921dba4f0955e741d7b871f76ea0910d1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 22/49] fix: gir_gsf: list storages in Python 3 and read to the
 end with read(-1)

---
 src/hwp5/plat/gir_gsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index a3e6a47..524cc6d 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -52,7 +52,7 @@ def open(path):
 
 
 def listdir(gsfole):
-    for i in xrange(gsfole.num_children()):
+    for i in range(gsfole.num_children()):
         yield gsfole.name_by_index(i)
 
 
@@ -117,7 +117,7 @@ class OleStream:
     def read(self, size=None):
         pos = self.gsfole.tell()
         totalsize = self.gsfole.size
-        if size is not None:
+        if size is not None and size >= 0:
             if pos + size > totalsize:
                 size = totalsize - pos
         else:
-- 
2.43.0


From 9b169e3aea75459d3dde7860cc8a9fa020d46d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 23/49] fix: xmldump_flat: define unicode in Python 3

---
 src/hwp5/xmldump_flat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 3644f29..f7b2a71 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -20,6 +20,8 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import sys
+
 from .binmodel import ControlChar
 from .binmodel import ParaTextChunks
 from .binmodel import Text
@@ -37,6 +39,10 @@ from .treeop import STARTEVENT
 from .xmlformat import xmlevents_to_bytechunks
 
 
+if sys.version_info.major == 3:
+    unicode = str
+
+
 def xmldump_flat(hwp5file, output, xml_declaration=True):
     xmlevents = xmlevents_from_hwp5file(hwp5file)
     bytechunks = xmlevents_to_bytechunks(xmlevents)
-- 
2.43.0


From e71b7f453d3ea0cb63740c90160094f37b400d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 24/49] fix: refuse to overwrite or remove the input file

---
 src/hwp5/hwp5html.py |  9 +++++++--
 src/hwp5/hwp5odt.py  |  9 +++++++--
 src/hwp5/hwp5txt.py  |  8 +++++++-
 src/hwp5/proc/xml.py |  6 ++++++
 src/hwp5/utils.py    | 11 +++++++++++
 5 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index f1b883a..e477390 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -121,6 +121,7 @@ class HTMLTransform(BaseTransform):
 def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
+    from .utils import is_same_or_inside
     from .utils import make_open_dest_file
     from .xmlmodel import Hwp5File
 
@@ -132,7 +133,8 @@ def main():
 
     html_transform = HTMLTransform()
 
-    open_dest = make_open_dest_file(args.output)
+    dest_path = args.output
+    open_dest = make_open_dest_file(dest_path)
     if args.css:
         transform = html_transform.transform_hwp5_to_css
         open_dest = wrap_for_css(open_dest)
@@ -141,11 +143,14 @@ def main():
         open_dest = wrap_for_xml(open_dest)
     else:
         transform = html_transform.transform_hwp5_to_dir
-        dest_path = args.output
         if not dest_path:
             dest_path = os.path.splitext(os.path.basename(hwp5path))[0]
         open_dest = partial(open_dir, dest_path)
 
+    if dest_path and is_same_or_inside(hwp5path, dest_path):
+        logger.error('%s: would destroy the input file', dest_path)
+        sys.exit(1)
+
     try:
         with closing(Hwp5File(hwp5path)) as hwp5file:
             with open_dest() as dest:
diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 491902d..4826577 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -336,6 +336,7 @@ def manifest_rdf(f):
 def main():
     from .dataio import ParseError
     from .errors import InvalidHwp5FileError
+    from .utils import is_same_or_inside
     from .utils import make_open_dest_file
     from .xmlmodel import Hwp5File
 
@@ -349,7 +350,8 @@ def main():
 
     odt_transform = ODTTransform()
 
-    open_dest = make_open_dest_file(args.output)
+    dest_path = args.output
+    open_dest = make_open_dest_file(dest_path)
     if args.document:
         odt_transform.embedbin = not args.no_embed_image
         transform = odt_transform.transform_hwp5_to_single_document
@@ -365,10 +367,13 @@ def main():
     else:
         odt_transform.embedbin = args.embed_image
         transform = odt_transform.transform_hwp5_to_package
-        dest_path = args.output
         dest_path = dest_path or replace_ext(hwp5path, '.odt')
         open_dest = partial(open_odtpkg, dest_path)
 
+    if dest_path and is_same_or_inside(hwp5path, dest_path):
+        logger.error('%s: would destroy the input file', dest_path)
+        sys.exit(1)
+
     try:
         with closing(Hwp5File(hwp5path)) as hwp5file:
             with open_dest() as dest:
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 3fa0edc..6037249 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -30,6 +30,7 @@ from . import __version__ as version
 from .cli import init_logger
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
+from .utils import is_same_or_inside
 from .utils import make_open_dest_file
 from .utils import cached_property
 from .transforms import BaseTransform
@@ -73,9 +74,14 @@ def main():
 
     hwp5path = args.hwp5file
 
+    dest_path = args.output
+    if dest_path and is_same_or_inside(hwp5path, dest_path):
+        logger.error('%s: would destroy the input file', dest_path)
+        sys.exit(1)
+
     text_transform = TextTransform()
 
-    open_dest = make_open_dest_file(args.output)
+    open_dest = make_open_dest_file(dest_path)
     transform = text_transform.transform_hwp5_to_text
 
     try:
diff --git a/src/hwp5/proc/xml.py b/src/hwp5/proc/xml.py
index 437abe4..d79a27a 100644
--- a/src/hwp5/proc/xml.py
+++ b/src/hwp5/proc/xml.py
@@ -21,7 +21,9 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from functools import partial
 import logging
+import sys
 
+from ..utils import is_same_or_inside
 from ..utils import make_open_dest_file
 from ..utils import wrap_open_dest_for_tty
 from ..utils import wrap_open_dest
@@ -58,6 +60,10 @@ def main(args):
             embedbin=args.embedbin,
         )
 
+    if args.output and is_same_or_inside(args.hwp5file, args.output):
+        logger.error('%s: would destroy the input file', args.output)
+        sys.exit(1)
+
     open_dest = make_open_dest_file(args.output)
     open_dest = wrap_open_dest_for_tty(open_dest, [
         pager(),
diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index bc54556..d88ea2d 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -237,6 +237,17 @@ def hwp5_resources_path(res_path):
         yield path
 
 
+def is_same_or_inside(path, dest):
+    ''' tell whether path denotes dest itself or something inside of it
+    '''
+    if os.path.exists(path) and os.path.exists(dest):
+        if os.path.samefile(path, dest):
+            return True
+    path = os.path.realpath(path)
+    dest = os.path.realpath(dest)
+    return path == dest or path.startswith(os.path.join(dest, ''))
+
+
 def make_open_dest_file(path):
     if path:
         @contextmanager
-- 
2.43.0


From 159efe1e4801ceaa79cc700081fc25847fa3d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 25/49] fix: reading a cached property should not shadow its
 getter method

After HwpSummaryInfo.propertySetStream (or title, author, ...) had been read,
HwpSummaryInfo.open_text() and plaintext_lines failed with TypeError:
'PropertySetStream' object is not callable; the same for
HwpFileHeader.to_dict() after value, and so on.
---
 src/hwp5/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index d88ea2d..9bf38e9 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -49,18 +49,21 @@ class cached_property(object):
         self.func = func
         self.__name__ = func.__name__
         self.__doc__ = func.__doc__
+        # not the name of the function: if it is a method of the same object
+        # (prop = cached_property(get_prop)), it should not be shadowed
+        self.key = '_cached_' + func.__name__
 
     def __get__(self, obj, type=None):
         if obj is None:
             return self
-        value = obj.__dict__.get(self.__name__, NIL)
+        value = obj.__dict__.get(self.key, NIL)
         if value is NIL:
             value = self.func(obj)
-            obj.__dict__[self.__name__] = value
+            obj.__dict__[self.key] = value
         return value
 
     def __set__(self, obj, value):
-        obj.__dict__[self.__name__] = value
+        obj.__dict__[self.key] = value
 
 
 def generate_json_array(tokens):
-- 
2.43.0


From 448c8faabb98d99001684e3e2d046bd28833e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 26/49] fix: do not remember a failed probe of xsltproc and
 xmllint

If starting the tool failed once for a transient reason (EAGAIN, ENOMEM), every
later conversion in the process failed or went without the tool.
---
 src/hwp5/plat/xmllint.py  | 5 +++--
 src/hwp5/plat/xsltproc.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 69d9f62..622f095 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -49,8 +49,9 @@ def xmllint_reachable():
 def is_enabled():
     global enabled
     if enabled is None:
-        enabled = xmllint_reachable()
-    return enabled
+        # do not remember a failure, it may be a transient one
+        enabled = xmllint_reachable() or None
+    return bool(enabled)
 
 
 def enable():
diff --git a/src/hwp5/plat/xsltproc.py b/src/hwp5/plat/xsltproc.py
index 179c170..1a99959 100644
--- a/src/hwp5/plat/xsltproc.py
+++ b/src/hwp5/plat/xsltproc.py
@@ -49,8 +49,9 @@ def xslt_reachable():
 def is_enabled():
     global enabled
     if enabled is None:
-        enabled = xslt_reachable()
-    return enabled
+        # do not remember a failure, it may be a transient one
+        enabled = xslt_reachable() or None
+    return bool(enabled)
 
 
 def enable():
-- 
2.43.0


From 0a6c87d6b6bae0ef677466a1bae03e4a7d8a2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 27/49] fix: do not expand arrays ahead of reading their
 elements

The count of an array comes from the data. If it was damaged, up to 2**32
elements were prepared before the first one was read, exhausting the memory
for a document of a few kilobytes.
---
 src/hwp5/bintype.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 1e65910..0afee90 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -156,6 +156,10 @@ class ERROREVENT(object):
     pass
 
 
+class REPEATEVENT(object):
+    pass
+
+
 def static_to_mutable(events):
     stack = []
     for ev, item in events:
@@ -187,6 +191,17 @@ def resolve_typedefs(typedef_events, context):
 
     array_types = (X_ARRAY, VariableLengthArrayType, FixedArrayType)
 
+    def clone(events):
+        stack = []
+        for ev, item in events:
+            if ev in (STARTEVENT, None):
+                item = dict(item)
+                if ev is STARTEVENT:
+                    stack.append(item)
+            else:
+                item = stack.pop()
+            yield ev, item
+
     stack = []
     selective_stack = []
 
@@ -194,7 +209,13 @@ def resolve_typedefs(typedef_events, context):
     events = deque(events)
     while len(events) > 0:
         ev, item = events.popleft()
-        if isinstance(item['type'], SelectiveType):
+        if ev is REPEATEVENT:
+            if item['remaining'] > 0:
+                item['remaining'] -= 1
+                events.appendleft((ev, item))
+                cloned = list(clone(item['subevents']))
+                events.extendleft(reversed(cloned))
+        elif isinstance(item['type'], SelectiveType):
             if ev is STARTEVENT:
                 parent_struct = stack[-1]
                 struct_value = parent_struct['value']
@@ -259,21 +280,12 @@ def resolve_typedefs(typedef_events, context):
             endevent = subevents[-1]
             subevents = subevents[:-1]
 
-            def clone(events):
-                stack = []
-                for ev, item in events:
-                    if ev in (STARTEVENT, None):
-                        item = dict(item)
-                        if ev is STARTEVENT:
-                            stack.append(item)
-                    else:
-                        item = stack.pop()
-                    yield ev, item
-
+            # elements are expanded one by one: count comes from the data and
+            # may be far greater than what the data can hold
             events.appendleft(endevent)
-            for _ in range(0, count):
-                cloned = list(clone(subevents))
-                events.extendleft(reversed(cloned))
+            events.appendleft((REPEATEVENT, dict(type=item['type'],
+                                                 subevents=subevents,
+                                                 remaining=count)))
             events.appendleft((ev, item))
         else:
             if ev is STARTEVENT:
-- 
2.43.0


From b05127e6139abcc7c1878cf5122e1996d41b438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 28/49] fix: do not lay out the columns of a table ahead of its
 cells

The number of columns of each row comes from the data. Damaged, a table record
of 8 kilobytes took more than 2 gigabytes of memory.
---
 src/hwp5/xmlmodel.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index c3af21e..b9b0589 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -466,32 +466,39 @@ def restructure_tablebody(event_prefixed_mac):
 
 def rstbody_tablebody(event, stack, item, attributes, context):
     if event is STARTEVENT:
-        rowcols = deque()
-        for cols in attributes.pop('rowcols'):
-            if cols == 1:
-                rowcols.append(ROW_OPEN | ROW_CLOSE)
-            else:
-                rowcols.append(ROW_OPEN)
-                for i in range(0, cols - 2):
-                    rowcols.append(0)
-                rowcols.append(ROW_CLOSE)
-        stack.append((context, rowcols))
+        rowcols = iter_rowcols(attributes.pop('rowcols'))
+        stack.append((context, rowcols, deque()))
         yield event, item
     else:
         yield event, item
         stack.pop()
 
 
+def iter_rowcols(rowcols):
+    # one by one: the numbers come from the data and may be damaged
+    for cols in rowcols:
+        if cols == 1:
+            yield ROW_OPEN | ROW_CLOSE
+        else:
+            yield ROW_OPEN
+            for i in range(0, cols - 2):
+                yield 0
+            yield ROW_CLOSE
+
+
 def rstbody_tablecell(event, stack, item):
-    table_context, rowcols = stack[-1]
+    table_context, rowcols, current = stack[-1]
     row_context = dict(table_context)
     if event is STARTEVENT:
-        how = rowcols[0]
+        how = next(rowcols, None)
+        if how is None:
+            raise IndexError('more cells in a table than its rows have')
+        current.append(how)
         if how & ROW_OPEN:
             yield STARTEVENT, (TableRow, dict(), row_context)
     yield event, item
     if event is ENDEVENT:
-        how = rowcols.popleft()
+        how = current.pop()
         if how & ROW_CLOSE:
             yield ENDEVENT, (TableRow, dict(), row_context)
 
-- 
2.43.0


From 84368113208bed98318d6303ed03c43f6836f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 29/49] fix: xmldump_flat: close the file header of any storage
 backend

streams are not required to be context managers: with the libgsf backend
the flat XML dump fails with a TypeError
---
 src/hwp5/xmldump_flat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index f7b2a71..55e2944 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -20,6 +20,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import unicode_literals
 
+from contextlib import closing
 import sys
 
 from .binmodel import ControlChar
@@ -60,7 +61,7 @@ def xmlevents_from_hwp5file(hwp5file):
         'hexversion': hexversion
     })
 
-    with hwp5file.fileheader.open() as f:
+    with closing(hwp5file.fileheader.open()) as f:
         yield STARTEVENT, ('FileHeader', {
         })
         resolve_values = resolve_values_from_stream(f)
-- 
2.43.0


From 804ea876149ed4556670fe60bb83988381a34838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:29 +0000
Subject: [PATCH 30/49] fix: gir_gsf: do not report a file that cannot be
 opened as one of another format

is_hwp5file() returned False for a missing or unreadable file, where the
olefile backend raises the error
---
 src/hwp5/plat/gir_gsf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/plat/gir_gsf.py b/src/hwp5/plat/gir_gsf.py
index 524cc6d..66db429 100644
--- a/src/hwp5/plat/gir_gsf.py
+++ b/src/hwp5/plat/gir_gsf.py
@@ -60,6 +60,7 @@ class OleStorage:
 
     def __init__(self, gsfole):
         from gi.repository.Gsf import Input
+        from gi.repository.Gsf import InputGio
         from gi.repository.Gsf import InfileMSOle
 
         if isinstance(gsfole, InfileMSOle):
@@ -70,8 +71,10 @@ class OleStorage:
             except Exception:
                 raise InvalidOleStorageError()
         else:
+            # a file that cannot be opened says nothing about its format
+            inp = InputGio.new_for_path(gsfole)
             try:
-                self.gsfole = open(gsfole)
+                self.gsfole = InfileMSOle.new(inp)
             except Exception:
                 raise InvalidOleStorageError()
 
-- 
2.43.0


From e9697eaa4ef7611a0ac70ee5a336ae47aa9fb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 31/49] fix: xmllint: a validator that has been killed gives no
 verdict

relaxng() reported the document as invalid
---
 src/hwp5/plat/xmllint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hwp5/plat/xmllint.py b/src/hwp5/plat/xmllint.py
index 622f095..0ff31be 100644
--- a/src/hwp5/plat/xmllint.py
+++ b/src/hwp5/plat/xmllint.py
@@ -69,6 +69,9 @@ def relaxng(rng_path, inp_path):
     args = [executable, '--noout', '--relaxng', rng_path, inp_path]
     p = Popen(args)
     p.wait()
+    if p.returncode not in (0, 3):
+        # neither valid nor "validation error": it has not come to a verdict
+        raise CalledProcessError(p.returncode, args)
     return p.returncode == 0
 
 
-- 
2.43.0


From 5ceb071cc28a2d8470e6c56412715352e56a83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:10 +0000
Subject: [PATCH 32/49] fix: hwp5txt, hwp5html: use the programs named by
 PYHWP_XSLTPROC and PYHWP_XMLLINT

the documentation offers them for all converters; only hwp5odt looked at
them, the others failed where the default xsltproc is missing
---
 src/hwp5/hwp5html.py | 2 ++
 src/hwp5/hwp5txt.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/hwp5/hwp5html.py b/src/hwp5/hwp5html.py
index e477390..b5877d6 100644
--- a/src/hwp5/hwp5html.py
+++ b/src/hwp5/hwp5html.py
@@ -32,6 +32,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .transforms import BaseTransform
 from .utils import cached_property
 
@@ -128,6 +129,7 @@ def main():
     argparser = main_argparser()
     args = argparser.parse_args()
     init_logger(args)
+    init_with_environ()
 
     hwp5path = args.hwp5file
 
diff --git a/src/hwp5/hwp5txt.py b/src/hwp5/hwp5txt.py
index 6037249..df6d17e 100644
--- a/src/hwp5/hwp5txt.py
+++ b/src/hwp5/hwp5txt.py
@@ -28,6 +28,7 @@ import sys
 
 from . import __version__ as version
 from .cli import init_logger
+from .cli import init_with_environ
 from .dataio import ParseError
 from .errors import InvalidHwp5FileError
 from .utils import is_same_or_inside
@@ -71,6 +72,7 @@ def main():
     argparser = main_argparser()
     args = argparser.parse_args()
     init_logger(args)
+    init_with_environ()
 
     hwp5path = args.hwp5file
 
-- 
2.43.0


From 2a61568dba0f0aa24bca99379303da5c2ed84ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 33/49] fix: dumpbytes: do not copy the rest of the data for
 every line

The time taken grew with the square of the size of a record: minutes for a
record of a few megabytes.
---
 src/hwp5/dataio.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/dataio.py b/src/hwp5/dataio.py
index b8b1a98..1b8f2f4 100644
--- a/src/hwp5/dataio.py
+++ b/src/hwp5/dataio.py
@@ -601,21 +601,23 @@ def dumpbytes(data, crust=False):
     offsbase = 0
     if crust:
         yield '\t 0  1  2  3  4  5  6  7  8  9  A  B  C  D  E  F'
-    while len(data) > 16:
+    offset = 0
+    while len(data) - offset > 16:
         if crust:
             line = '%05x0: ' % offsbase
         else:
             line = ''
-        line += ' '.join(['%02x' % _ord(ch) for ch in data[0:16]])
+        line += ' '.join(['%02x' % _ord(ch)
+                          for ch in data[offset:offset + 16]])
         yield line
-        data = data[16:]
+        offset += 16
         offsbase += 1
 
     if crust:
         line = '%05x0: ' % offsbase
     else:
         line = ''
-    line += ' '.join(['%02x' % _ord(ch) for ch in data])
+    line += ' '.join(['%02x' % _ord(ch) for ch in data[offset:]])
     yield line
 
 
-- 
2.43.0


From 4b48a55ff3690da76575458442e7972bd7f430ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 34/49] fix: embed_bindata: do not copy the rest of the data
 for every line

The time taken grew with the square of the size of an embedded binary:
minutes for an image of a few megabytes.
---
 src/hwp5/xmlmodel.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index b9b0589..6e203a7 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -537,15 +537,8 @@ def embed_bindata(event_prefixed_mac, bindata):
                     bin_stream.close()
                 b64 = base64.b64encode(binary)
                 b64 = b64.decode('ascii')
-                truncated = []
-                while b64:
-                    if len(b64) > 64:
-                        truncated.append(b64[:64])
-                        b64 = b64[64:]
-                    else:
-                        truncated.append(b64)
-                        b64 = ''
-                b64 = '\n'.join(truncated)
+                b64 = '\n'.join(b64[offset:offset + 64]
+                                for offset in range(0, len(b64), 64))
                 b64 = '\n' + b64 + '\n'
                 attributes['bindata']['<text>'] = b64
                 attributes['bindata']['inline'] = 'true'
-- 
2.43.0


From f41b389755a779ccaac0e4fc55c8333e06d619b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 35/49] fix: GeneratorReader: do not copy the rest of the
 buffer on every read

Reading a long chunk in small portions took time growing with the square of
its size.
---
 src/hwp5/utils.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index 9bf38e9..ce32bd6 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -166,19 +166,24 @@ class GeneratorReader(object):
     def __init__(self, gen):
         self.gen = gen
         self.buffer = b''
+        self.offset = 0  # of the data not read yet, in the buffer
 
     def read(self, size=None):
         if size is None or size < 0:
-            d, self.buffer = self.buffer, b''
+            d = self.buffer[self.offset:]
+            self.buffer, self.offset = b'', 0
             return d + b''.join(self.gen)
 
-        while len(self.buffer) < size:
+        while len(self.buffer) - self.offset < size:
             try:
-                self.buffer += next(self.gen)
+                chunk = next(self.gen)
             except StopIteration:
                 break
+            self.buffer = self.buffer[self.offset:] + chunk
+            self.offset = 0
 
-        d, self.buffer = self.buffer[:size], self.buffer[size:]
+        d = self.buffer[self.offset:self.offset + size]
+        self.offset += len(d)
         return d
 
     def close(self):
@@ -200,20 +205,24 @@ class GeneratorTextReader(object):
     def __init__(self, gen):
         self.gen = gen
         self.buffer = ''
+        self.offset = 0  # of the data not read yet, in the buffer
 
     def read(self, size=None):
         if size is None or size < 0:
-            d = self.buffer
-            self.buffer = ''
+            d = self.buffer[self.offset:]
+            self.buffer, self.offset = '', 0
             return d + ''.join(self.gen)
 
-        while len(self.buffer) < size:
+        while len(self.buffer) - self.offset < size:
             try:
-                self.buffer += next(self.gen)
+                chunk = next(self.gen)
             except StopIteration:
                 break
+            self.buffer = self.buffer[self.offset:] + chunk
+            self.offset = 0
 
-        d, self.buffer = self.buffer[:size], self.buffer[size:]
+        d = self.buffer[self.offset:self.offset + size]
+        self.offset += len(d)
         return d
 
     def close(self):
-- 
2.43.0


From 9823bf42fe5c91a8fc09c809b015326e92e42f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:56 +0000
Subject: [PATCH 36/49] fix: msoleprops: look up names in a Dictionary without
 scanning it

Reading a property set took time proportional to the number of its properties
times the number of its names.
---
 src/hwp5/msoleprops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index c6b6dad..836d59b 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -341,6 +341,9 @@ class Dictionary(Struct):
 
     def __init__(self, entries):
         self.entries = entries
+        self.names = {}
+        for entry in entries:
+            self.names.setdefault(entry.id, entry.name)
 
     @classmethod
     def fromDict(cls, d):
@@ -356,10 +359,7 @@ class Dictionary(Struct):
     attributes = staticmethod(attributes)
 
     def get(self, id, defvalue=None):
-        for entry in self.entries:
-            if id == entry.id:
-                return entry.name
-        return defvalue
+        return self.names.get(id, defvalue)
 
 
 class DictionaryReader(object):
-- 
2.43.0


From 8061ed333dd1659128a4934f36627ad4e6d7edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 37/49] fix: msoleprops: refuse property sets whose parts lie
 over one another

Any number of property sets, each with any number of properties, could refer
to the same few bytes; reading took time (and memory) proportional to the
product of their numbers.
---
 src/hwp5/msoleprops.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 836d59b..14d0c93 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -35,6 +35,7 @@ from hwp5.dataio import BYTE
 from hwp5.dataio import UINT16
 from hwp5.dataio import UINT32
 from hwp5.dataio import INT32
+from hwp5.dataio import ParseError
 from hwp5.bintype import read_type
 
 
@@ -527,6 +528,37 @@ class PropertySetFormat(object):
         }
 
 
+class OverlapGuard(object):
+    ''' Refuse to read the same data over and over again.
+
+    The parts of a property set stream are located by offsets; if these are
+    damaged, any number of parts may lie over one another.
+    '''
+
+    limit = 8
+
+    def __init__(self, f):
+        self.f = f
+        self.consumed = 0
+        self.end = 0
+
+    def read(self, size):
+        data = self.f.read(size)
+        self.consumed += len(data)
+        self.end = max(self.end, self.f.tell())
+        if self.consumed > self.limit * self.end:
+            e = ParseError('overlapping parts in a property set stream')
+            e.offset = self.f.tell()
+            raise e
+        return data
+
+    def seek(self, offset):
+        self.f.seek(offset)
+
+    def tell(self):
+        return self.f.tell()
+
+
 class PropertySetStreamReader(object):
 
     def __init__(self, propertySetFormats):
@@ -536,6 +568,7 @@ class PropertySetStreamReader(object):
         }
 
     def read(self, f):
+        f = OverlapGuard(f)
         context = {}
         streamHeader = read_type(PropertySetStreamHeader, context, f)
         streamHeader = PropertySetStreamHeader.fromDict(streamHeader)
-- 
2.43.0


From 79b73589b4322ccfc76353e7d63c421e75fcf49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 38/49] fix: xmlformat: leave out every character that XML
 cannot represent

---
 src/hwp5/xmlformat.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index 7a3a8e6..f0db387 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -23,6 +23,7 @@ from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
 import logging
+import re
 import sys
 
 from .filestructure import VERSION
@@ -243,6 +244,10 @@ def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
         yield textchunk.encode(encoding)
 
 
+# characters which cannot appear in a XML 1.0 document in any form
+RE_NOT_XML_CHAR = re.compile(u'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]')
+
+
 def xmlevents_to_textchunks(xmlevents):
     entities = {'\r': '&#13;',
                 '\n': '&#10;',
@@ -256,12 +261,12 @@ def xmlevents_to_textchunks(xmlevents):
                 yield n
                 yield '='
                 v = quoteattr(v, entities)
-                v = v.replace('\x00', '')
+                v = RE_NOT_XML_CHAR.sub('', v)
                 yield v
             yield '>'
         elif event is Text:
             text = escape(item)
-            text = text.replace('\x00', '')
+            text = RE_NOT_XML_CHAR.sub('', text)
             yield text
         elif event is ENDEVENT:
             yield '</'
-- 
2.43.0


From 6dcf9d1c5df465929614c00fd5125824daca25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 39/49] fix: generate_json_array: open the array even if it is
 empty

---
 src/hwp5/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hwp5/utils.py b/src/hwp5/utils.py
index ce32bd6..f166492 100644
--- a/src/hwp5/utils.py
+++ b/src/hwp5/utils.py
@@ -76,6 +76,8 @@ def generate_json_array(tokens):
         else:
             yield ',\n'
         yield token
+    if first:
+        yield '['
     yield '\n]'
 
 
-- 
2.43.0


From eafd39a27a63e46635b5c59677ecbcfe84f0865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:07 +0000
Subject: [PATCH 40/49] fix: XmlEvents: one byte order mark, not one in front
 of every chunk

---
 src/hwp5/xmlformat.py | 12 ++++++++++--
 src/hwp5/xmlmodel.py  | 12 ++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/hwp5/xmlformat.py b/src/hwp5/xmlformat.py
index f0db387..f0da5f0 100644
--- a/src/hwp5/xmlformat.py
+++ b/src/hwp5/xmlformat.py
@@ -22,6 +22,7 @@ from __future__ import unicode_literals
 from itertools import chain
 from xml.sax.saxutils import escape
 from xml.sax.saxutils import quoteattr
+import codecs
 import logging
 import re
 import sys
@@ -240,8 +241,15 @@ def element(context, ma):
 
 
 def xmlevents_to_bytechunks(xmlevents, encoding='utf-8'):
-    for textchunk in xmlevents_to_textchunks(xmlevents):
-        yield textchunk.encode(encoding)
+    textchunks = xmlevents_to_textchunks(xmlevents)
+    return textchunks_to_bytechunks(textchunks, encoding)
+
+
+def textchunks_to_bytechunks(textchunks, encoding):
+    # not str.encode(): it puts a byte order mark in front of every chunk
+    encoder = codecs.getincrementalencoder(encoding)()
+    for textchunk in textchunks:
+        yield encoder.encode(textchunk)
 
 
 # characters which cannot appear in a XML 1.0 document in any form
diff --git a/src/hwp5/xmlmodel.py b/src/hwp5/xmlmodel.py
index 6e203a7..3a94bf9 100644
--- a/src/hwp5/xmlmodel.py
+++ b/src/hwp5/xmlmodel.py
@@ -56,7 +56,8 @@ from .treeop import build_subtree
 from .treeop import tree_events
 from .treeop import tree_events_multi
 from .xmlformat import startelement
-from .xmlformat import xmlevents_to_bytechunks
+from .xmlformat import textchunks_to_bytechunks
+from .xmlformat import xmlevents_to_textchunks
 
 
 PY3 = sys.version_info.major == 3
@@ -587,14 +588,13 @@ class XmlEvents(object):
 
     def bytechunks(self, xml_declaration=True, **kwargs):
         encoding = kwargs.get('xml_encoding', 'utf-8')
+        textchunks = xmlevents_to_textchunks(self)
         if xml_declaration:
-            yield '<?xml version="1.0" encoding="{}"?>\n'.format(
-                encoding
-            ).encode(
+            declaration = '<?xml version="1.0" encoding="{}"?>\n'.format(
                 encoding
             )
-        bytechunks = xmlevents_to_bytechunks(self, encoding)
-        for chunk in bytechunks:
+            textchunks = chain([declaration], textchunks)
+        for chunk in textchunks_to_bytechunks(textchunks, encoding):
             yield chunk
 
     def dump(self, outfile, **kwargs):
-- 
2.43.0


From 5082e4cd514b1d709a866078c5e62d0d5061e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:07 +0000
Subject: [PATCH 41/49] fix: model_to_json: write null for NaN and infinities,
 which JSON cannot represent

---
 src/hwp5/binmodel/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/hwp5/binmodel/__init__.py b/src/hwp5/binmodel/__init__.py
index 00b5c86..6d7d5ba 100644
--- a/src/hwp5/binmodel/__init__.py
+++ b/src/hwp5/binmodel/__init__.py
@@ -422,7 +422,22 @@ def model_to_json(model, *args, **kwargs):
         model['unparsed'] = list(dumpbytes(model['unparsed']))
     if 'binevents' in model:
         del model['binevents']
-    return json.dumps(model, *args, **kwargs)
+    kwargs.setdefault('allow_nan', False)
+    try:
+        return json.dumps(model, *args, **kwargs)
+    except ValueError:
+        return json.dumps(nonfinite_to_null(model), *args, **kwargs)
+
+
+def nonfinite_to_null(value):
+    ''' replace NaN and infinities, which JSON cannot represent '''
+    if isinstance(value, dict):
+        return dict((k, nonfinite_to_null(v)) for k, v in value.items())
+    if isinstance(value, (tuple, list)):
+        return [nonfinite_to_null(v) for v in value]
+    if isinstance(value, float) and value - value != 0:
+        return None
+    return value
 
 
 def chain_iterables(iterables):
-- 
2.43.0


From b26177b214b1456c6b71d6f591235ff879134e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:57 +0000
Subject: [PATCH 42/49] fix: olefileio: list storages without streams, as the
 libgsf backend does

---
 src/hwp5/plat/olefileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/plat/olefileio.py b/src/hwp5/plat/olefileio.py
index 3d2d849..2a10ba4 100644
--- a/src/hwp5/plat/olefileio.py
+++ b/src/hwp5/plat/olefileio.py
@@ -147,7 +147,7 @@ def olefile_listdir(olefile, path):
         # for python 2.3 compatibility
         yielded = []
 
-        for stream in olefile.listdir():
+        for stream in olefile.listdir(storages=True):
             top_item = stream[0]
             if top_item in yielded:
                 continue
@@ -162,7 +162,7 @@ def olefile_listdir(olefile, path):
     path_segments = path.split('/')
     depth = len(path_segments)
     yielded = []
-    for stream in olefile.listdir():
+    for stream in olefile.listdir(storages=True):
         if len(stream) > depth and stream[:depth] == path_segments:
             name = stream[depth]
             if name not in yielded:
-- 
2.43.0


From 8f1374f8bd3ad955d001de04f480e6f447cebffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 43/49] fix: a storage among the sections or the encrypted
 streams is a storage

---
 src/hwp5/filestructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/filestructure.py b/src/hwp5/filestructure.py
index 5b18af2..3c8e9a0 100644
--- a/src/hwp5/filestructure.py
+++ b/src/hwp5/filestructure.py
@@ -263,6 +263,8 @@ class Hwp5DistDocStorage(ItemConversionStorage):
 
     def resolve_conversion_for(self, name):
         def conversion(item):
+            if not is_stream(item):
+                return item
             return Hwp5DistDocStream(self.wrapped[name], None)  # TODO: version
         return conversion
 
@@ -341,6 +343,8 @@ class Sections(ItemConversionStorage):
 
     def resolve_conversion_for(self, name):
         def conversion(item):
+            if not is_stream(item):
+                return item
             return self.section_class(self.wrapped[name], self.version)
         return conversion
 
-- 
2.43.0


From 662012cd453258369456424d6fff4f56240c3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:04 +0000
Subject: [PATCH 44/49] fix: hwp5odt: a storage inside BinData no longer makes
 the conversion fail

---
 src/hwp5/hwp5odt.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hwp5/hwp5odt.py b/src/hwp5/hwp5odt.py
index 4826577..6ec259e 100644
--- a/src/hwp5/hwp5odt.py
+++ b/src/hwp5/hwp5odt.py
@@ -38,6 +38,7 @@ from .utils import mkstemp_open
 from .utils import hwp5_resources_path
 from .transforms import BaseTransform
 from .plat import get_relaxng_compile
+from .storage import is_storage
 from .utils import cached_property
 
 
@@ -144,11 +145,17 @@ class ODTTransform(BaseTransform, ODFValidate):
 
         if 'BinData' in hwp5file:
             bindata = hwp5file['BinData']
-            for name in bindata:
-                f = bindata[name].open()
-                path = 'bindata/' + name
-                mimetype = 'application/octet-stream'
-                odtpkg.insert_stream(f, path, mimetype)
+            self.insert_bindata(bindata, 'bindata/', odtpkg)
+
+    def insert_bindata(self, bindata, basepath, odtpkg):
+        for name in bindata:
+            path = basepath + name
+            if is_storage(bindata[name]):
+                self.insert_bindata(bindata[name], path + '/', odtpkg)
+                continue
+            f = bindata[name].open()
+            mimetype = 'application/octet-stream'
+            odtpkg.insert_stream(f, path, mimetype)
 
     @cached_property
     def transform_xhwp5_to_styles(self):
-- 
2.43.0


From 435dbfbad7e4bb0eeaf3929dd71255985b34ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:25 +0000
Subject: [PATCH 45/49] fix: hwp5view: pathname2url in Python 3

---
 src/hwp5/hwp5view.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/hwp5view.py b/src/hwp5/hwp5view.py
index 9458dfa..0ed3bdb 100644
--- a/src/hwp5/hwp5view.py
+++ b/src/hwp5/hwp5view.py
@@ -44,7 +44,6 @@ import logging
 import os.path
 import shutil
 import sys
-import urllib
 
 from . import __version__ as version
 from .cli import init_logger
@@ -53,6 +52,10 @@ from .hwp5html import HTMLTransform
 
 
 PY3 = sys.version_info.major == 3
+if PY3:
+    from urllib.request import pathname2url
+else:
+    from urllib import pathname2url
 logger = logging.getLogger(__name__)
 locale_dir = os.path.join(os.path.dirname(__file__), 'locale')
 locale_dir = os.path.abspath(locale_dir)
@@ -233,4 +236,4 @@ def hwp5html(filename, out_dir):
 
 def fspath2url(path):
     path = os.path.abspath(path)
-    return 'file://' + urllib.pathname2url(path)
+    return 'file://' + pathname2url(path)
-- 
2.43.0


From 5667b411ea3b57f71b2bd9127ba8d5121c7c6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:42 +0000
Subject: [PATCH 46/49] fix: unpack: keep every item even if names become the
 same file name

---
 src/hwp5/storage/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hwp5/storage/__init__.py b/src/hwp5/storage/__init__.py
index 081ebf7..e54b362 100644
--- a/src/hwp5/storage/__init__.py
+++ b/src/hwp5/storage/__init__.py
@@ -142,8 +142,13 @@ def unpack(stg, outbase):
         stg: an instance of Storage
         outbase: path to a directory in filesystem (should not end with '/')
     '''
-    for name in stg:
-        outpath = os.path.join(outbase, name_to_filename(name))
+    names = dict()
+    for name in sorted(stg):
+        filename = name_to_filename(name)
+        while names.setdefault(filename, name) != name:
+            # distinct names may be converted into the same one
+            filename += '_'
+        outpath = os.path.join(outbase, filename)
         item = stg[name]
         if is_storage(item):
             if not os.path.exists(outpath):
-- 
2.43.0


From 4e7b55400e5813b928c78f512a22396b4e139782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:34 +0000
Subject: [PATCH 47/49] fix: msoleprops: report a string cut off by the end of
 the stream

---
 src/hwp5/msoleprops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hwp5/msoleprops.py b/src/hwp5/msoleprops.py
index 14d0c93..34eba05 100644
--- a/src/hwp5/msoleprops.py
+++ b/src/hwp5/msoleprops.py
@@ -70,6 +70,10 @@ class VT_LPWSTR(object):
     def read_value(cls, context, f):
         length = read_type(UINT32, context, f)
         data = f.read(length * 2)
+        if len(data) < length * 2:
+            e = ParseError('truncated string in a property set stream')
+            e.offset = f.tell()
+            raise e
         return data.decode('utf-16le')[:-1]  # remove null character
 
 
-- 
2.43.0


From 82535f854e7c8c2e5d6552a55d2d8b292aaaa06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:35 +0000
Subject: [PATCH 48/49] fix: flat XML and hwp5proc find go through the sections
 in document order

They walked BodyText as the storage lists it: the tenth section came before
the second, in an order that depends on the component which reads the file,
and anything else in that storage made them fail.
---
 src/hwp5/proc/find.py    | 7 ++++---
 src/hwp5/xmldump_flat.py | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/hwp5/proc/find.py b/src/hwp5/proc/find.py
index 8bbf047..91be28e 100644
--- a/src/hwp5/proc/find.py
+++ b/src/hwp5/proc/find.py
@@ -214,9 +214,10 @@ def flat_models(hwp5file, **kwargs):
         model['stream'] = 'DocInfo'
         yield model
 
-    for section in hwp5file.bodytext:
-        for model in hwp5file.bodytext[section].models(**kwargs):
-            model['stream'] = 'BodyText/' + section
+    for section_idx in hwp5file.bodytext.section_indexes():
+        section = hwp5file.bodytext.section(section_idx)
+        for model in section.models(**kwargs):
+            model['stream'] = 'BodyText/Section%d' % section_idx
             yield model
 
 
diff --git a/src/hwp5/xmldump_flat.py b/src/hwp5/xmldump_flat.py
index 55e2944..0f0da07 100644
--- a/src/hwp5/xmldump_flat.py
+++ b/src/hwp5/xmldump_flat.py
@@ -77,10 +77,10 @@ def xmlevents_from_hwp5file(hwp5file):
         yield x
     yield ENDEVENT, 'DocInfo'
 
-    for section_name in hwp5file.bodytext:
-        section = hwp5file.bodytext[section_name]
+    for section_idx in hwp5file.bodytext.section_indexes():
+        section = hwp5file.bodytext.section(section_idx)
         yield STARTEVENT, ('Section', {
-            'name': section_name
+            'name': 'Section%d' % section_idx
         })
         model_events = section.parse_model_events()
         for x in xmlevents_from_modelevents(model_events):
-- 
2.43.0


From 1c8c5350f4d505cfe7c51bfce83de2de6923a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:38 +0000
Subject: [PATCH 49/49] fix: type definitions are compiled once for all
 versions they do not tell apart

They were kept for every version number seen in a document, which is four
arbitrary bytes: a process which reads many documents kept about 100 kB for
each one of them.
---
 src/hwp5/bintype.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/hwp5/bintype.py b/src/hwp5/bintype.py
index 0afee90..6bc9c34 100644
--- a/src/hwp5/bintype.py
+++ b/src/hwp5/bintype.py
@@ -131,13 +131,32 @@ def get_compiled_typedef(type):
     return master_typedefs[type]
 
 
+required_versions = dict()
+
+
+def get_required_versions(type):
+    ''' get the versions which parts of the type definition require
+    '''
+    if type not in required_versions:
+        versions = set(dict(item).get('version')
+                       for ev, item in get_compiled_typedef(type)
+                       if ev is not ENDEVENT)
+        versions.discard(None)
+        required_versions[type] = versions
+    return required_versions[type]
+
+
 versioned_typedefs = dict()
 
 
 def get_compiled_typedef_with_version(type, version):
-    if version not in versioned_typedefs:
-        versioned_typedefs[version] = typedefs = dict()
-    typedefs = versioned_typedefs[version]
+    # versions which the definition does not tell apart share one: there may
+    # be any number of them in the documents
+    key = max([v for v in get_required_versions(type) if v <= version]
+              or [None])
+    if key not in versioned_typedefs:
+        versioned_typedefs[key] = dict()
+    typedefs = versioned_typedefs[key]
 
     if type not in typedefs:
         logger.info('filter compiled typedef of %s with version %s',
-- 
2.43.0

