From 2ee6baad37ee5e8d93ced598af77ac80090cfd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 01/22] fix: save through a private, flushed temporary file and
 an atomic replace

The temporary file was always <stem>.tmp: saving overwrote an unrelated file of
that name, two saves of the same or of sibling databases wrote into each other,
and a failed save of a database that is itself called *.tmp deleted it.  It was
not flushed to disk before it replaced the database, so a power cut could leave
an empty database, and shutil.move() silently fell back to rewriting the
database in place when the rename failed.
---
 pykeepass/pykeepass.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..a760f33 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -2,7 +2,6 @@ import base64
 import logging
 import os
 import re
-import shutil
 import struct
 import uuid
 import zlib
@@ -166,20 +165,26 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            # the name must not belong to any other file or concurrent save
+            filename_tmp = Path(filename).with_name(uuid.uuid4().hex + '.tmp')
             try:
-                KDBX.build_file(
-                    self.kdbx,
-                    filename_tmp,
-                    password=self.password,
-                    keyfile=self.keyfile,
-                    transformed_key=transformed_key,
-                    decrypt=True
-                )
-            except Exception as e:
-                os.remove(filename_tmp)
-                raise e
-            shutil.move(filename_tmp, filename)
+                with open(filename_tmp, 'x+b') as f:
+                    KDBX.build_stream(
+                        self.kdbx,
+                        f,
+                        password=self.password,
+                        keyfile=self.keyfile,
+                        transformed_key=transformed_key,
+                        decrypt=True
+                    )
+                    # contents have to be on disk before they replace the database
+                    f.flush()
+                    os.fsync(f.fileno())
+                os.replace(filename_tmp, filename)
+            except BaseException:
+                if os.path.exists(filename_tmp):
+                    os.remove(filename_tmp)
+                raise
 
     @property
     def version(self):
-- 
2.43.0


From 2272e1c5ad80bdcbf1cb459ff1de7dde2a6a6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 02/22] fix: keep filename and credentials when reading a
 database fails

A failed read() left the old contents paired with the new filename, password
and keyfile, so that a following save() wrote the old contents over the other
file, or re-keyed the database to the credentials that had just been rejected.
---
 pykeepass/pykeepass.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index a760f33..284f7a8 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -86,16 +86,12 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
             if hasattr(filename, "read"):
-                self.kdbx = KDBX.parse_stream(
+                kdbx = KDBX.parse_stream(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -103,7 +99,7 @@ class PyKeePass:
                     decrypt=decrypt
                 )
             else:
-                self.kdbx = KDBX.parse_file(
+                kdbx = KDBX.parse_file(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -134,6 +130,12 @@ class PyKeePass:
             else:
                 raise
 
+        # only switch to the new database once it has been read completely
+        self.kdbx = kdbx
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 706507dd98f92cacb4288670cad19aecc0038ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 03/22] fix: create_database() used transformed_key as the
 output filename

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 284f7a8..83715f8 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1063,7 +1063,7 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 677df818dbd5775fdbfd65782208be0d0a929ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 04/22] fix: remember the transformed key a database was opened
 with

reload() is documented to use the previously given credentials but dropped the
transformed key, and save() re-encrypted a database that had been opened with a
transformed key under the empty credentials.
---
 pykeepass/pykeepass.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 83715f8..045d3ac 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -135,11 +135,12 @@ class PyKeePass:
         self.filename = filename
         self._password = password
         self._keyfile = keyfile
+        self._transformed_key = transformed_key
 
     def reload(self):
         """Reload current database using previously given credentials """
 
-        self.read(self.filename, self.password, self.keyfile)
+        self.read(self.filename, self.password, self.keyfile, self._transformed_key)
 
     def save(self, filename=None, transformed_key=None):
         """Save current database object to disk.
@@ -149,11 +150,14 @@ class PyKeePass:
                 If None, the path given when the database was opened is used.
                 PyKeePass.filename is unchanged.
             transformed_key (`bytes`, optional): precomputed transformed
-                key.
+                key.  If None, the transformed key given when the database was
+                opened is used, unless the credentials were changed since then.
         """
 
         if not filename:
             filename = self.filename
+        if transformed_key is None:
+            transformed_key = self._transformed_key
 
         if hasattr(filename, "write"):
             KDBX.build_stream(
@@ -928,6 +932,7 @@ class PyKeePass:
     @password.setter
     def password(self, password):
         self._password = password
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
@@ -938,6 +943,7 @@ class PyKeePass:
     @keyfile.setter
     def keyfile(self, keyfile):
         self._keyfile = keyfile
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
@@ -1062,8 +1068,9 @@ def create_database(
     keepass_instance.filename = filename
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
+    keepass_instance._transformed_key = transformed_key
 
-    keepass_instance.save(transformed_key=transformed_key)
+    keepass_instance.save()
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From e94f17d9e5abd4eec843c41bcc85a6a2772a989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 05/22] fix: keep attachments bound to their binaries

delete_binary() left attachments of history entries behind, which then pointed
at the next binary, accepted negative ids and renumbered every attachment, and
in KDBX3 decremented the references without the IDs they refer to.  KDBX3
binaries that are not stored in order of their ID were returned in the wrong
order.
---
 pykeepass/pykeepass.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 045d3ac..cb90059 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -787,7 +787,7 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            for elem in self._binary_elements():
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -798,10 +798,17 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
+    def _binary_elements(self):
+        """KDBX3 binary elements in order of their ID, which need not be document order"""
+        return sorted(
+            self._xpath('/KeePassFile/Meta/Binaries/Binary'),
+            key=lambda elem: int(elem.attrib['ID'])
+        )
+
     def add_binary(self, data, compressed=True, protected=True):
         """Add binary data to database.  Note this does not create an attachment (see `Entry.add_attachment`)
 
@@ -861,18 +868,24 @@ class PyKeePass:
             `IndexError`: raised when binary with given ID does not exist
         """
         try:
+            if id < 0:
+                raise IndexError
             if self.version >= (4, 0):
                 # remove binary element from inner header
                 self.payload.inner_header.binary.pop(id)
             else:
                 # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
+                binaries = self._binary_elements()
+                binary = binaries.pop(id)
+                binary.getparent().remove(binary)
+                # keep IDs in line with the decremented references
+                for new_id, elem in enumerate(binaries):
+                    elem.attrib['ID'] = str(new_id)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From ae5ffb6b07d65dd1bd6704d146c9045cb7ec11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 06/22] fix: a rejected field value no longer deletes the old
 value

Setting a field of an entry, group, attachment or database to a value which
cannot be stored in XML raised, but only after the old value was removed.
---
 pykeepass/attachment.py  |  3 ++-
 pykeepass/baseelement.py | 10 +++++++++-
 pykeepass/entry.py       | 18 ++++++++++--------
 pykeepass/pykeepass.py   |  7 ++++---
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..72834f8 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,4 +1,5 @@
 from . import entry
+from .baseelement import set_text
 from .exceptions import BinaryError
 
 
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..c057c9c 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -7,6 +7,13 @@ from lxml import etree
 from lxml.builder import E
 
 
+def set_text(element, value):
+    """Set text of an element, which keeps its old text if the value is rejected.
+    lxml removes the old text before it looks at the new one"""
+    etree.Element(element.tag).text = value
+    element.text = value
+
+
 class BaseElement:
     """Entry and Group inherit from this class"""
 
@@ -46,10 +53,11 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..9380201 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement
+from .baseelement import BaseElement, set_text
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -114,13 +114,15 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
+        # the value may be rejected here, so do not remove the old field before
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
@@ -305,7 +307,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -317,7 +319,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index cb90059..dcc93c6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -15,6 +15,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
+from .baseelement import set_text
 from .entry import Entry
 from .exceptions import (
     BinaryError,
@@ -287,7 +288,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -298,7 +299,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -309,7 +310,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
-- 
2.43.0


From 15999760932bf943a38a76c2aa91e5f9660e4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:50 +0000
Subject: [PATCH 07/22] fix: convert times to UTC before storing them in KDBX3

A time with another UTC offset was written with that offset, which is ignored
when it is read, so that it came back as a different instant.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index dcc93c6..74c2d7f 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1037,6 +1037,9 @@ class PyKeePass:
                 struct.pack('<Q', diff_seconds)
             ).decode('utf-8')
         else:
+            # times are stored in UTC
+            if value.tzinfo is not None:
+                value = value.astimezone(timezone.utc)
             return value.isoformat()
 
     def _decode_time(self, text):
-- 
2.43.0


From 73313559047038df54b53afedb40c9bb38697d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 08/22] fix: verify the KDBX4 header checksum before running
 the KDF

A flipped bit in the KDF parameters of a damaged file made opening it run for
ages, exhaust memory or fail inside the KDF instead of raising HeaderChecksumError.
---
 pykeepass/kdbx_parsing/kdbx4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx4.py b/pykeepass/kdbx_parsing/kdbx4.py
index 426d3ac..b66feb4 100644
--- a/pykeepass/kdbx_parsing/kdbx4.py
+++ b/pykeepass/kdbx_parsing/kdbx4.py
@@ -284,14 +284,15 @@ UnpackedPayload = Reparsed(
 # -------------------- Main KDBX Structure --------------------
 
 Body = Struct(
-    "transformed_key" / Computed(compute_transformed),
-    "master_key" / Computed(compute_master),
+    # has to come first: damaged KDF parameters must not reach the KDF
     "sha256" / Checksum(
         Bytes(32),
         lambda data: hashlib.sha256(data).digest(),
         this._.header.data,
         # exception=HeaderChecksumError,
     ),
+    "transformed_key" / Computed(compute_transformed),
+    "master_key" / Computed(compute_master),
     "cred_check" / If(this._._.decrypt,
         Checksum(
             Bytes(32),
-- 
2.43.0


From 4d344a565191afb9ec3c01637643a5dde5007dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:29 +0000
Subject: [PATCH 09/22] fix: verify the header checksum of KDBX3 databases

The outer header of KDBX3 is not authenticated, but its SHA-256 is stored in the
payload.  It was never compared, so that a damaged protected stream key or id
silently turned every protected field into garbage.
---
 pykeepass/pykeepass.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 74c2d7f..391576a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1,4 +1,5 @@
 import base64
+import hashlib
 import logging
 import os
 import re
@@ -131,6 +132,12 @@ class PyKeePass:
             else:
                 raise
 
+        # KDBX3 keeps the checksum of its header in the payload
+        if decrypt and kdbx.header.value.major_version == 3:
+            header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
+            if header_hash and header_hash != self._header_hash(kdbx.header.data):
+                raise HeaderChecksumError("Corrupted database")
+
         # only switch to the new database once it has been read completely
         self.kdbx = kdbx
         self.filename = filename
@@ -138,6 +145,11 @@ class PyKeePass:
         self._keyfile = keyfile
         self._transformed_key = transformed_key
 
+    @staticmethod
+    def _header_hash(header_data):
+        """`str`: base64 SHA-256 of raw outer header, as stored in KDBX3 payload"""
+        return base64.b64encode(hashlib.sha256(header_data).digest()).decode('utf-8')
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 74aa1c117a8dba15bb6973317aa2b94e77590796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 10/22] fix: keep the contents of keyfile streams that cannot
 be rewound

A pipe or socket passed as keyfile was empty when it was read a second time, so
that save() encrypted the database with the hash of an empty keyfile, and KDBX4
databases using AES-KDF could not be opened at all.
---
 pykeepass/pykeepass.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 391576a..d979e88 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1,5 +1,6 @@
 import base64
 import hashlib
+import io
 import logging
 import os
 import re
@@ -90,6 +91,7 @@ class PyKeePass:
         # TODO: - raise, no filename provided, database not open
         if not filename:
             filename = self.filename
+        keyfile = self._rereadable(keyfile)
 
         try:
             if hasattr(filename, "read"):
@@ -961,6 +963,15 @@ class PyKeePass:
         self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
+    @staticmethod
+    def _rereadable(keyfile):
+        """Keyfile streams are read again by each save, so keep the contents of those
+        that cannot be rewound"""
+        if hasattr(keyfile, "read"):
+            if not (hasattr(keyfile, "seekable") and keyfile.seekable()):
+                return io.BytesIO(keyfile.read())
+        return keyfile
+
     @property
     def keyfile(self):
         """`str` or `pathlib.Path` or `None`: get or set database keyfile"""
@@ -968,7 +979,7 @@ class PyKeePass:
 
     @keyfile.setter
     def keyfile(self, keyfile):
-        self._keyfile = keyfile
+        self._keyfile = self._rereadable(keyfile)
         self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
-- 
2.43.0


From 21db62837bd849703c8ba92c1f1b1a00ad883715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:54 +0000
Subject: [PATCH 11/22] fix: use fresh seeds and initialization vectors for
 every save

All saves of a database reused the master seed, IV and protected stream key of
the file it was opened from.  With ChaCha20 two versions of a database were
encrypted with the same key stream, and payload blocks of an older version still
passed the integrity check of a newer one.  The payload is now built before
anything is written, as the header of a failed save no longer equals the old one.
---
 pykeepass/pykeepass.py | 47 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d979e88..5948c7c 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -11,7 +11,7 @@ from binascii import Error as BinasciiError
 from datetime import datetime, timedelta, timezone
 from pathlib import Path
 
-from construct import Container, ChecksumError, CheckError
+from construct import Container, ChecksumError, CheckError, GreedyBytes
 
 from lxml import etree
 from lxml.builder import E
@@ -174,30 +174,26 @@ class PyKeePass:
         if transformed_key is None:
             transformed_key = self._transformed_key
 
+        self._renew_seeds()
+        # build everything first: nothing is written if this fails
+        data = KDBX.build(
+            self.kdbx,
+            password=self.password,
+            keyfile=self.keyfile,
+            transformed_key=transformed_key,
+            decrypt=True
+        )
+
         if hasattr(filename, "write"):
-            KDBX.build_stream(
-                self.kdbx,
-                filename,
-                password=self.password,
-                keyfile=self.keyfile,
-                transformed_key=transformed_key,
-                decrypt=True
-            )
+            GreedyBytes.build_stream(data, filename)
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
             # the name must not belong to any other file or concurrent save
             filename_tmp = Path(filename).with_name(uuid.uuid4().hex + '.tmp')
             try:
-                with open(filename_tmp, 'x+b') as f:
-                    KDBX.build_stream(
-                        self.kdbx,
-                        f,
-                        password=self.password,
-                        keyfile=self.keyfile,
-                        transformed_key=transformed_key,
-                        decrypt=True
-                    )
+                with open(filename_tmp, 'xb') as f:
+                    f.write(data)
                     # contents have to be on disk before they replace the database
                     f.flush()
                     os.fsync(f.fileno())
@@ -207,6 +203,21 @@ class PyKeePass:
                     os.remove(filename_tmp)
                 raise
 
+    def _renew_seeds(self):
+        """Replace everything in the headers that must not be used for two different
+        payloads.  The KDF parameters, and thereby the transformed key, are unchanged"""
+        outer = self.kdbx.header.value.dynamic_header
+        # KDBX3 has all fields in the outer header
+        for container in (outer, self.payload.get('inner_header', {})):
+            for name in ('master_seed', 'encryption_iv', 'stream_start_bytes', 'protected_stream_key'):
+                if name in container:
+                    container[name].data = os.urandom(len(container[name].data))
+
+        self.kdbx.header.data = KDBX.header.build(Container(value=self.kdbx.header.value))
+        header_hash = self.tree.find('Meta/HeaderHash')
+        if header_hash is not None:
+            header_hash.text = self._header_hash(self.kdbx.header.data)
+
     @property
     def version(self):
         """`tuple` of `int`: Length 2 tuple of ints containing major and minor versions.
-- 
2.43.0


From 8559ef7df3cf0d6bcb55706fafe73c1cc12e9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:58 +0000
Subject: [PATCH 12/22] fix: give new entries and groups random UUIDs

Time based UUIDs repeat when the clock stands still or is set back across
restarts: all that then separates two of them is a 14 bit random number.
---
 pykeepass/baseelement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index c057c9c..e7e1b76 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -21,8 +21,9 @@ class BaseElement:
                  expiry_time=None):
 
         self._element = element
+        # random, so that it does not depend on the clock being monotonic
         self._element.append(
-            E.UUID(base64.b64encode(uuid.uuid1().bytes).decode('utf-8'))
+            E.UUID(base64.b64encode(uuid.uuid4().bytes).decode('utf-8'))
         )
         if icon:
             self._element.append(E.IconID(icon))
-- 
2.43.0


From 647de054558eb1819d0b25d1956fb3588281e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:58 +0000
Subject: [PATCH 13/22] fix: list the attachments of history entries

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 9380201..8bd7b96 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -158,7 +158,9 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            # this may itself be a history entry
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From 0ee5f3782c64c48e3fdeef9c3e9b77ebe37bf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:14 +0000
Subject: [PATCH 14/22] fix: reject databases of an unknown major version

---
 pykeepass/kdbx_parsing/kdbx.py | 5 +++++
 pykeepass/pykeepass.py         | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pykeepass/kdbx_parsing/kdbx.py b/pykeepass/kdbx_parsing/kdbx.py
index 935da4a..508d00b 100644
--- a/pykeepass/kdbx_parsing/kdbx.py
+++ b/pykeepass/kdbx_parsing/kdbx.py
@@ -10,6 +10,10 @@ from .kdbx4 import DynamicHeader as DynamicHeader4
 def check_signature(ctx):
     return ctx.sig1 == b'\x03\xd9\xa2\x9a' and ctx.sig2 == b'\x67\xFB\x4B\xB5'
 
+# only these versions have a known layout
+def check_version(ctx):
+    return ctx.major_version in (3, 4)
+
 KDBX = Struct(
     "header" / RawCopy(
         Struct(
@@ -18,6 +22,7 @@ KDBX = Struct(
             "sig_check" / Check(check_signature),
             "minor_version" / Int16ul,
             "major_version" / Int16ul,
+            "version_check" / Check(check_version),
             "dynamic_header" / Switch(
                 this.major_version,
                 {3: DynamicHeader3,
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5948c7c..53b7baa 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -114,6 +114,8 @@ class PyKeePass:
         except CheckError as e:
             if e.path == '(parsing) -> header -> sig_check':
                 raise HeaderChecksumError("Not a KeePass database")
+            elif e.path == '(parsing) -> header -> version_check':
+                raise HeaderChecksumError("Unsupported database version")
             else:
                 raise
 
-- 
2.43.0


From c17a5280951bf8367f9e0f481d432c1315767d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 15/22] fix: keep the entry when reindex rejects the index

---
 pykeepass/entry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 8bd7b96..fda66b5 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -1,4 +1,5 @@
 import logging
+import operator
 from copy import deepcopy
 
 from lxml.builder import E
@@ -147,9 +148,10 @@ class Entry(BaseElement):
             new_index (`int`): new index for the entry starting at 0
         """
         group = self.group._element
-        first_index = self.group._first_entry
+        # the index may be rejected here, so do not remove the entry before
+        index = operator.index(new_index) + self.group._first_entry
         group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        group.insert(index, self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From c22bdcd03c8aa7e536487a44c0a1527ad5c57af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 16/22] fix: do not move some of the entries when append
 rejects another

---
 pykeepass/group.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykeepass/group.py b/pykeepass/group.py
index 46adb7e..a2b5386 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -94,11 +94,11 @@ class Group(BaseElement):
             entries (`Entry` or `list` of `Entry`)
         """
         # FIXME: check if `entries` is iterable instead of list
-        if isinstance(entries, list):
-            for e in entries:
-                self._element.append(e._element)
-        else:
-            self._element.append(entries._element)
+        if not isinstance(entries, list):
+            entries = [entries]
+        # nothing is moved if one of them is rejected
+        for element in [e._element for e in entries]:
+            self._element.append(element)
 
     def __str__(self):
         # filter out NoneTypes and join into string
-- 
2.43.0


From ed73ee869155e974179991ac349449dbe913828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:19 +0000
Subject: [PATCH 17/22] fix: keep auto-type and credential change settings when
 a new value is rejected

---
 pykeepass/entry.py     | 2 +-
 pykeepass/pykeepass.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index fda66b5..42aec92 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -297,7 +297,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 53b7baa..afc9c81 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1014,13 +1014,13 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @property
     def credchange_date(self):
-- 
2.43.0


From d4a41391a49cd93ebf662f81a58aed1e7789d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:28 +0000
Subject: [PATCH 18/22] fix: do not create a recycle bin when the element to
 trash is rejected

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index afc9c81..95707f5 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -480,10 +480,11 @@ class PyKeePass:
     def _can_be_moved_to_recyclebin(self, entry_or_group):
         if entry_or_group == self.root_group:
             return False
+        # raise before a recycle bin is created if this has no UUID
+        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         recyclebin_group = self.recyclebin_group
         if recyclebin_group is None:
             return True
-        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         elem = self._xpath('./UUID[text()="{}"]/..'.format(uuid_str), tree=recyclebin_group._element, first=True, cast=False)
         return elem is None
 
-- 
2.43.0


From bf4b19c2e8f9375511b138cfd6761809ab3666f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:16 +0000
Subject: [PATCH 19/22] fix: resolve references to empty fields and to the UUID
 of an entry

---
 pykeepass/pykeepass.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 95707f5..51e19b6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -960,7 +960,11 @@ class PyKeePass:
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
+            field = getattr(ref_entry, wanted_field)
+            if isinstance(field, uuid.UUID):
+                field = field.hex.upper()
+            # the referenced field may be empty
+            value = value.replace(ref, field or '')
         return self.deref(value)
 
 
-- 
2.43.0


From 90f911afd9a97d04cc9c2329fa03a13b610f8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:17 +0000
Subject: [PATCH 20/22] fix: allow double quotes in search values and field
 names

---
 pykeepass/entry.py     | 11 +++---
 pykeepass/pykeepass.py | 14 ++++----
 pykeepass/xpath.py     | 79 +++++++++++++++++++++++-------------------
 3 files changed, 57 insertions(+), 47 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 42aec92..7e002ce 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -8,6 +8,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement, set_text
+from .xpath import quote
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -89,7 +90,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()={}]/../Value'.format(quote(key)), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -105,11 +106,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()={}]/..'.format(quote(key)), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath('String/Key[text()={}]/../Value'.format(quote(key)), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -360,7 +361,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath('String/Key[text()={}]/..'.format(quote(key)), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -383,7 +384,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath('String/Key[text()={}]/../Value'.format(quote(key)), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 51e19b6..b762b5a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -28,7 +28,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, group_xp, path_xp, quote
 
 logger = logging.getLogger(__name__)
 
@@ -432,11 +432,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += path_xp[regex]['group'].format(quote(group), flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += path_xp[regex]['entry'].format(quote(element), flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += path_xp[regex]['group'].format(quote(element), flags=flags)
 
         else:
             if tree is not None:
@@ -447,7 +447,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += keys_xp[regex]['string'].format(quote(key), quote(value), flags=flags)
 
                 kwargs.pop('string')
 
@@ -458,13 +458,15 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{quote(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
                 if value is not None:
+                    # tags are an XPath expression already
+                    value = value if key == 'tags' else quote(value)
                     xp += keys_xp[regex][key].format(value, flags=flags)
 
         res = self._xpath(
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..141f320 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,65 +1,72 @@
+def quote(value):
+    """`str`: XPath string literal for given value, which may contain any quotes"""
+    if '"' not in str(value):
+        return '"{}"'.format(value)
+    # there are no escape sequences in XPath
+    return 'concat("{}")'.format('", \'"\', "'.join(str(value).split('"')))
+
 attachment_xp = {
     False: {
-        'id': '/Value[@Ref="{}"]/..',
-        'filename': '/Key[text()="{}"]/..'
+        'id': '/Value[@Ref={}]/..',
+        'filename': '/Key[text()={}]/..'
     },
     True: {
-        'id': '/Value[re:test(@Ref, "{}", "{flags}")]/..',
-        'filename': '/Key[re:test(text(), "{}", "{flags}")]/..'
+        'id': '/Value[re:test(@Ref, {}, "{flags}")]/..',
+        'filename': '/Key[re:test(text(), {}, "{flags}")]/..'
     }
 }
 
 path_xp = {
     False: {
-        'group': '/Group/Name[text()="{}"]/..',
-        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
+        'group': '/Group/Name[text()={}]/..',
+        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()={}]/../..',
     },
     True: {
-        'group': '/Group/Name[re:test(text(), "{}", "{flags}")]/..',
-        'entry': '/Entry/String/Key[text()="Title"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
+        'group': '/Group/Name[re:test(text(), {}, "{flags}")]/..',
+        'entry': '/Entry/String/Key[text()="Title"]/../Value[re:test(text(), {}, "{flags}")]/../..',
     }
 }
 
 entry_xp = {
     False: {
-        'title': '/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
-        'username': '/String/Key[text()="UserName"]/../Value[text()="{}"]/../..',
-        'password': '/String/Key[text()="Password"]/../Value[text()="{}"]/../..',
-        'url': '/String/Key[text()="URL"]/../Value[text()="{}"]/../..',
-        'notes': '/String/Key[text()="Notes"]/../Value[text()="{}"]/../..',
-        'uuid': '/UUID[text()="{}"]/..',
+        'title': '/String/Key[text()="Title"]/../Value[text()={}]/../..',
+        'username': '/String/Key[text()="UserName"]/../Value[text()={}]/../..',
+        'password': '/String/Key[text()="Password"]/../Value[text()={}]/../..',
+        'url': '/String/Key[text()="URL"]/../Value[text()={}]/../..',
+        'notes': '/String/Key[text()="Notes"]/../Value[text()={}]/../..',
+        'uuid': '/UUID[text()={}]/..',
         'tags': '/Tags[{}]/..',
-        'string': '/String/Key[text()="{}"]/../Value[text()="{}"]/../..',
-        'autotype_sequence': '/AutoType/DefaultSequence[text()="{}"]/../..',
-        'autotype_window': '/AutoType/Association/Window[text()="{}"]/../../..',
-        'autotype_enabled': '/AutoType/Enabled[text()="{}"]/../..',
-        'otp': '/String/Key[text()="otp"]/../Value[text()="{}"]/../..',
+        'string': '/String/Key[text()={}]/../Value[text()={}]/../..',
+        'autotype_sequence': '/AutoType/DefaultSequence[text()={}]/../..',
+        'autotype_window': '/AutoType/Association/Window[text()={}]/../../..',
+        'autotype_enabled': '/AutoType/Enabled[text()={}]/../..',
+        'otp': '/String/Key[text()="otp"]/../Value[text()={}]/../..',
     },
     True: {
-        'title': '/String/Key[text()="Title"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'username': '/String/Key[text()="UserName"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'title': '/String/Key[text()="Title"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'username': '/String/Key[text()="UserName"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'password': '/String/Key[text()="Password"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'url': '/String/Key[text()="URL"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'uuid': '/UUID[re:test(text(), {}, "{flags}")]/..',
         'tags': '/Tags[{}]/..', # no regular expression support for tags
-        'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
-        'autotype_window': '/AutoType/Association/Window[re:test(text(), "{}", "{flags}")]/../../..',
-        'autotype_enabled': '/AutoType/Enabled[re:test(text(), "{}", "{flags}")]/../..',
-        'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
+        'string': '/String/Key[text()={}]/../Value[re:test(text(), {}, "{flags}")]/../..',
+        'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), {}, "{flags}")]/../..',
+        'autotype_window': '/AutoType/Association/Window[re:test(text(), {}, "{flags}")]/../../..',
+        'autotype_enabled': '/AutoType/Enabled[re:test(text(), {}, "{flags}")]/../..',
+        'otp': '/String/Key[text()="otp"]/../Value[re:test(text(), {}, "{flags}")]/../..',
     }
 }
 
 group_xp = {
     False: {
-        'name': '/Name[text()="{}"]/..',
-        'uuid': '/UUID[text()="{}"]/..',
-        'notes': '/Notes[text()="{}"]/..',
+        'name': '/Name[text()={}]/..',
+        'uuid': '/UUID[text()={}]/..',
+        'notes': '/Notes[text()={}]/..',
     },
     True: {
-        'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
-        'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
+        'name': '/Name[re:test(text(), {}, "{flags}")]/..',
+        'uuid': '/UUID[re:test(text(), {}, "{flags}")]/..',
+        'notes': '/Notes[re:test(text(), {}, "{flags}")]/..',
     }
 }
-- 
2.43.0


From eeb218f4fcee310e5f8ca5258ca0837e93c1f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:12 +0000
Subject: [PATCH 21/22] fix: read back databases with very long values or
 deeply nested groups

The XML parser's default limits (10 MB per text node, 256 levels of
nesting) do not apply when writing, so a database holding, for example,
a large attachment in a KDBX3 file or deeply nested groups was saved but
could not be opened again.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..319d466 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From 55608b1444994759078f04392fbaad1dd309a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:01 +0000
Subject: [PATCH 22/22] fix: keep the credentials when recording the change of
 credentials fails

---
 pykeepass/pykeepass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b762b5a..5c485e2 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -979,9 +979,10 @@ class PyKeePass:
 
     @password.setter
     def password(self, password):
+        # this may fail, so do not change the credentials before
+        self.credchange_date = datetime.now(timezone.utc)
         self._password = password
         self._transformed_key = None
-        self.credchange_date = datetime.now(timezone.utc)
 
     @staticmethod
     def _rereadable(keyfile):
@@ -999,9 +1000,10 @@ class PyKeePass:
 
     @keyfile.setter
     def keyfile(self, keyfile):
-        self._keyfile = self._rereadable(keyfile)
-        self._transformed_key = None
+        keyfile = self._rereadable(keyfile)
         self.credchange_date = datetime.now(timezone.utc)
+        self._keyfile = keyfile
+        self._transformed_key = None
 
     @property
     def credchange_required_days(self):
-- 
2.43.0

