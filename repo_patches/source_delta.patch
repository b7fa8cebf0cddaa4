From 8e8171e59be2ed122b4a71e867d2f62dee52a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 01/37] fix: MMS encoding no longer strips headers from the
 message

encode_message_header() deleted Message-Type, Transaction-Id and
MMS-Version from the message being encoded, so encoding the same message
twice (a resend, or encode() followed by to_file()) produced a different
message the second time.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..f095e1b 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -627,7 +627,8 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        # Work on a copy: encoding must leave the caller's message untouched
+        headers_to_encode = dict(self._mms_message.headers)
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From 5f6c5a71a234d44eae1c9376dd48407d8d345723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 02/37] fix: encode the data parts added with add_data_part()

They were counted in the number of body entries but never written, so
attachments were lost and the result could not be decoded.
---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index f095e1b..cf9ad04 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -778,6 +778,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From c4ab6c8b5a3bf2faa5b3dcf59956e2b1c2203b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 03/37] fix: Content-general-form length counts bytes, not list
 items

A content type with parameters was encoded with a value length that
counted the media type as one item and every parameter as one item, and
as nested lists in the body, so such a message could not be decoded.
---
 messaging/mms/wsp_pdu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..1e79cb3 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1613,7 +1613,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1952,8 +1952,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From 99ac889b0d04f97713f379137a7006c5a3acd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 04/37] fix: a Bcc-only message keeps its m-send-req type

The destination check looked for 'Bc' instead of 'Bcc', so a message with
only Bcc recipients was turned into an m-retrieve-conf.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index cf9ad04..9409cff 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -663,7 +663,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From f37d4209819b3b0c9c27cf54d1715785077c0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 05/37] fix: decode an empty encoded-string-value as an empty
 string

The End-of-string of an empty Text-string was taken for a zero
Value-length, and the field name and value that follow were swallowed as
charset and text (an empty Subject got the value of To).
---
 messaging/mms/mms_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 9409cff..e222dd3 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -313,6 +313,9 @@ class MMSDecoder(wsp_pdu.Decoder):
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
+            if value_length == 0:
+                # An empty Text-string is a lone End-of-string
+                return ''
             # TODO: add proper support for charsets...
             try:
                 charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
-- 
2.43.0


From ec39dc9855a5b5705e63d148078b95e88d2734ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 06/37] fix: encode slides with audio but no text

smil() appended the text node again along with the audio node; without
text that was an UnboundLocalError (or the text of a previous slide).
---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..f5a91aa 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 68a2dfa8f09e6f499e51987088452edce79128cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 07/37] fix: MMSMessage.data_parts works for messages with
 pages

It dereferenced self._mms_message (always None) and called the data_parts
property of a page. Return DataPart objects, as documented and as they
are after decoding.
---
 messaging/mms/message.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f5a91aa..92b7be9 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for slide in self._pages:
+                parts.extend(entry[0] for entry in slide.data_parts)
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From 295003b65bdb336b6e2d68626fdcfbf05f59c8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 08/37] fix: the length of a file data part is the length of
 its data

The length was taken from the file system at each call while the data is
read once and kept, so a file that changes in between gives a body whose
DataLen field disagrees with the data that follows.
---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 92b7be9..4980c92 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -535,10 +535,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From 49b58e56c657e2ad70a5c71e3f9c4dc865823e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 09/37] fix: do not truncate the destination when a message
 fails to encode

to_file() opened the file for writing before encoding the message, so an
encoding error destroyed a previously saved message.
---
 messaging/mms/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 4980c92..8729fe6 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -235,8 +235,9 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From c842fd67c6e221e68a57cd5a9c655c0f3947854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 10/37] fix: decode the headers of body parts as WSP headers

They were looked up in the MMS field table first, so a part's
Content-Location was decoded as a bogus Message-Size header.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index e222dd3..8212594 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    # Part headers are WSP headers, not MMS headers
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From 40fc729f056533e5386e58f7bbd517c983ac4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 11/37] fix: write the user data header of 8-bit multipart
 messages

The header was built from 16 bit characters, as for UCS2, and then left
out of the user data altogether, although the length counted it and the
UDHI bit announced it.
---
 messaging/sms/submit.py |  4 ++--
 messaging/utils.py      | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..13609fa 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -309,10 +309,10 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit == consts.SEVENBIT_SIZE:
+            if limit != consts.UCS2_SIZE:
                 udh = (chr(udh_len) + chr(mid) + chr(data_len) +
                        chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " "
+                padding = " " if limit == consts.SEVENBIT_SIZE else ""
             else:
                 udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
                        unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..cacbe46 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,13 +145,11 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
-    text = message
-    if udh is not None:
-        text = udh + text
+    if udh is None:
+        udh = ""
 
-    mlen = len(text)
-    message = chr(mlen) + message
-    return encode_str(message)
+    mlen = len(udh) + len(message)
+    return encode_str(chr(mlen)) + encode_str(udh) + encode_str(message)
 
 
 def pack_8bits_to_ucs2(message, udh=None):
-- 
2.43.0


From 408a9f350209ffe70329842b437c0e2e0c49856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 12/37] fix: messages do not all get the same reference

Every SmsSubmit had its own list of references starting at 0, so the
parts of all multipart messages carried concatenation reference 1 and
every message had TP-MR 0: a receiver mixes the parts of two messages
from the same sender, and a status report matches every message. Take
them from one list shared by the process.
---
 messaging/sms/submit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 13609fa..3124a2a 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -1,8 +1,11 @@
 # See LICENSE
 """Classes for sending SMS"""
 
+from __future__ import with_statement
+
 from datetime import datetime, timedelta
 import re
+from threading import Lock
 
 from messaging.sms import consts
 from messaging.utils import (debug, encode_str, clean_number,
@@ -16,6 +19,10 @@ from messaging.sms.pdu import Pdu
 
 VALID_NUMBER = re.compile("^\+?\d{3,20}$")
 
+# references in use are shared by all the messages of this process
+_id_list = []
+_id_lock = Lock()
+
 
 class SmsSubmit(SmsBase):
     """I am a SMS ready to be sent"""
@@ -29,7 +36,6 @@ class SmsSubmit(SmsBase):
         self.request_status = False
         self.ref = None
         self.rand_id = None
-        self.id_list = range(0, 255)
         self.msgvp = 0xaa
         self.pid = 0x00
 
@@ -324,7 +330,8 @@ class SmsSubmit(SmsBase):
         return pdu_msgs
 
     def _get_rand_id(self):
-        if not self.id_list:
-            self.id_list = range(0, 255)
+        with _id_lock:
+            if not _id_list:
+                _id_list.extend(range(0, 255))
 
-        return self.id_list.pop(0)
+            return _id_list.pop(0)
-- 
2.43.0


From e0439a5329687f705321315001e8b8ab81119602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 13/37] fix: a SmsDeliver given another PDU keeps nothing of
 the previous one

Assigning the pdu attribute again left the user data header, the status
report and the type of the previous PDU in place when the new one has
none.
---
 messaging/sms/deliver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..427984b 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -65,6 +65,12 @@ class SmsDeliver(SmsBase):
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
+        # forget whatever a previous PDU left behind
+        super(SmsDeliver, self).__init__()
+        self.date = None
+        self.mtype = None
+        self.sr = None
+
         data = to_array(self._pdu)
 
         # Service centre address
-- 
2.43.0


From b04b6b24864c2230830cc2c12fdc05ef4ebc874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 14/37] fix: text of 8-bit and UCS2 messages ends where the PDU
 says

TP-UDL was only honoured for the default alphabet; octets after the user
data ended up in the text.
---
 messaging/sms/deliver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 427984b..3551fba 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -162,6 +162,9 @@ class SmsDeliver(SmsBase):
     def _process_message(self, data):
         # Now get message body
         msgl = data.pop(0)
+        if self.fmt != 0x00:
+            # the length is in octets; anything after them is not text
+            data = data[:msgl]
         msg = encode_bytes(data[:msgl])
         # check for header
         headlen = ud_len = 0
-- 
2.43.0


From a423c7768ea5d9cce8c1d864628ea5cdef65df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 15/37] fix: choose the alphabet again when the text of a
 SmsSubmit changes

to_pdu() stored the format it picked for the first text as if it had
been asked for, so a later text outside the GSM alphabet raised
UnicodeError, and a later GSM text was sent as UCS2.
---
 messaging/sms/submit.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 3124a2a..e232ff0 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -28,6 +28,7 @@ class SmsSubmit(SmsBase):
     """I am a SMS ready to be sent"""
 
     def __init__(self, number, text):
+        self._guessed_fmt = None
         super(SmsSubmit, self).__init__()
         self._number = None
         self._csca = None
@@ -79,6 +80,15 @@ class SmsSubmit(SmsBase):
 
     klass = property(lambda self: self._klass, _set_klass)
 
+    def _get_fmt(self):
+        return self._guessed_fmt if self._fmt is None else self._fmt
+
+    def _set_fmt(self, fmt):
+        self._fmt = fmt
+
+    # the format that was asked for, or else the one last used by to_pdu()
+    fmt = property(_get_fmt, _set_fmt)
+
     def to_pdu(self):
         """Returns a list of :class:`~messaging.pdu.Pdu` objects"""
         smsc_pdu = self._get_smsc_pdu()
@@ -209,11 +219,11 @@ class SmsSubmit(SmsBase):
 
     def _get_msg_pdu(self):
         # Data coding scheme
-        if self.fmt is None:
+        if self._fmt is None:
             if is_gsm_text(self.text):
-                self.fmt = 0x00
+                self._guessed_fmt = 0x00
             else:
-                self.fmt = 0x08
+                self._guessed_fmt = 0x08
 
         self.dcs = self.fmt
 
-- 
2.43.0


From dac5bc36c92b7892219e008c3ac90437b2eaf9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 16/37] fix: FixedOffset.from_timezone() for zones west of
 Greenwich

'-0300' gave an utcoffset of -21 hours; datetime_to_absolute_validity()
relied on that to get at the magnitude. A datetime using such a tzinfo
was therefore sent with a wrong absolute validity.
---
 messaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index cacbe46..080f810 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -254,7 +254,7 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
     if offset.days < 0:
         # set MSB to 1
-- 
2.43.0


From 658acfd3c83b2bb63b2179ad7069aca957e4f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 17/37] fix: encode Long-integers most significant octet first

They were written in the opposite order to that in the specification and
in decode_long_integer(), so a Message-Size of 256 or more, or such an
integer parameter, was read back as another number.
---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1e79cb3..6c86b3b 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From 334f8b0346b0c99400d0802c6dc6bebfdd624427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 18/37] fix: untyped parameter values that are not tokens
 survive

The value 'a b' was written as a bare text string and read back as the
token 'a', followed by a parameter that is not there. Write it as the
Quoted-string the specification has for it, and do not take the quote of
a Quoted-string for the start of a token.
---
 messaging/mms/wsp_pdu.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 6c86b3b..a747aff 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1165,10 +1165,10 @@ class Decoder:
         :rtype: str
         """
         try:
-            return Decoder.decode_token_text(byte_iter)
+            return Decoder.decode_quoted_string(byte_iter)
         except DecodeError:
             try:
-                return Decoder.decode_quoted_string(byte_iter)
+                return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
                 return ''
@@ -1681,7 +1681,11 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                try:
+                    value = Encoder.encode_token_text(parameter_value)
+                except EncodeError:
+                    # Quoted-string
+                    value = [34] + Encoder.encode_text_string(parameter_value)
 
             encoded_parameter.extend(value)
 
-- 
2.43.0


From bbbdda43fad79937c733a8986268c40801c80675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 19/37] fix: encode versions with more than two numbers as text

The docstring says so, but '1.2.4' was encoded as nothing at all and the
field that follows was read as its value.
---
 messaging/mms/wsp_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a747aff..72531ef 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1580,6 +1580,8 @@ class Encoder:
 
                 minor = minor_version
                 encoded_version_val = Encoder.encode_short_integer(major | minor)
+            else:
+                raise ValueError('Only major.minor fits a short-integer')
         except:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
-- 
2.43.0


From 348946533e15f9bdea3ec9097acc0b3fbe745e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 20/37] fix: UCS2 messages of 216 to 223 parts

The user data header was built from 16 bit characters; with that many
parts one of them is a lone surrogate, which not every Python accepts as
a character. The header is made of octets for all alphabets now.
---
 messaging/sms/submit.py | 11 ++++-------
 messaging/utils.py      |  7 +++----
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e232ff0..a382e97 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -325,14 +325,11 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
-            if limit != consts.UCS2_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
-                padding = " " if limit == consts.SEVENBIT_SIZE else ""
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
+            if limit == consts.SEVENBIT_SIZE:
+                padding = " "
             else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
                 padding = ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
diff --git a/messaging/utils.py b/messaging/utils.py
index 080f810..5951935 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -154,16 +154,15 @@ def pack_8bits_to_8bit(message, udh=None):
 
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
-    text = message
     nmesg = ''
 
     if udh is not None:
-        text = udh + text
+        nmesg += udh
 
-    for n in text:
+    for n in message:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
+    mlen = len(nmesg)
     message = chr(mlen) + nmesg
     return encode_str(message)
 
-- 
2.43.0


From 7fcfa8518376d823329dc3714482806635f0bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 21/37] fix: no '@' after an alphanumeric sender of seven
 characters

The last octet of such an address has seven bits of padding, which were
taken for an eighth character. The address length tells them apart.
---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 3551fba..3605c36 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -105,6 +105,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # number of septets that fit in the address, if it is a text
+        sndtextlen = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -112,7 +114,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:sndtextlen].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From d8e53b98eb48ae85d077ffe2c0eb8221ab88d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 22/37] fix: do not swallow interrupts

Bare except clauses turned a KeyboardInterrupt in is_gsm_text() into
'not GSM text' (and the message was sent as UCS2), one in encoding the
version into another encoding of it, and one in decoding an MMS header
into a RuntimeError.
---
 messaging/mms/mms_pdu.py | 2 +-
 messaging/mms/wsp_pdu.py | 2 +-
 messaging/sms/gsm0338.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 8212594..4c6101a 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -285,7 +285,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         except wsp_pdu.DecodeError, msg:
             raise wsp_pdu.DecodeError('Invalid MMS Header: Could '
                                       'not decode MMS-value: %s' % msg)
-        except:
+        except Exception:
             raise RuntimeError('A fatal error occurred, probably due to an '
                                'unimplemented decoding operation. Tried to '
                                'decode header: %s' % mms_field_name)
diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 72531ef..a60b5c9 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1582,7 +1582,7 @@ class Encoder:
                 encoded_version_val = Encoder.encode_short_integer(major | minor)
             else:
                 raise ValueError('Only major.minor fits a short-integer')
-        except:
+        except Exception:
             # The value couldn't be encoded as a short-integer; use
             # a text-string instead
             encoded_version_val = Encoder.encode_text_string(version)
diff --git a/messaging/sms/gsm0338.py b/messaging/sms/gsm0338.py
index 32a50b5..ca977d3 100644
--- a/messaging/sms/gsm0338.py
+++ b/messaging/sms/gsm0338.py
@@ -285,7 +285,7 @@ def is_gsm_text(text):
         text.encode("gsm0338")
     except UnicodeError:
         return False
-    except:
+    except Exception:
         traceback.print_exc(file=sys.stdout)
         return False
 
-- 
2.43.0


From 9763cc2f5ecfb5a8d50f628424faa097ce9480d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 23/37] fix: quote text that begins with an octet above 127

A Text-string whose first octet is 128 to 255 needs a Quote octet in front,
and token text has neither such octets nor control characters nor quotation
marks, which turned an untyped parameter value into an integer or cut it.
---
 messaging/mms/wsp_pdu.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a60b5c9..399a635 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1466,6 +1466,9 @@ class Encoder:
         :rtype: list
         """
         encoded_string = [ord(c) for c in string]
+        if encoded_string and encoded_string[0] > 127:
+            # the Quote character
+            encoded_string.insert(0, 127)
         encoded_string.append(0x00)
         return encoded_string
 
@@ -1687,7 +1690,7 @@ class Encoder:
                     value = Encoder.encode_token_text(parameter_value)
                 except EncodeError:
                     # Quoted-string
-                    value = [34] + Encoder.encode_text_string(parameter_value)
+                    value = [34] + [ord(c) for c in parameter_value] + [0x00]
 
             encoded_parameter.extend(value)
 
@@ -1705,13 +1708,13 @@ class Encoder:
         :return: The encoded token string, as a list of byte values
         :rtype: list
         """
-        separators = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
+        separators = (11, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64,
                       91, 92, 93, 123, 125)
         # Sanity check
-        for char in separators:
-            if chr(char) in text:
+        for char in text:
+            if ord(char) in separators or not 32 < ord(char) < 127:
                 raise EncodeError('Char "%s" in text string; cannot '
-                                  'encode as Token-text' % chr(char))
+                                  'encode as Token-text' % char)
 
         return Encoder.encode_text_string(text)
 
-- 
2.43.0


From 4240a30c9f72f72928cd17729b276d6dd860024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 24/37] fix: refuse text with NUL octets

The rest of such a text was read as the next header by every decoder.
---
 messaging/mms/wsp_pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 399a635..6037fd1 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1466,6 +1466,8 @@ class Encoder:
         :rtype: list
         """
         encoded_string = [ord(c) for c in string]
+        if 0x00 in encoded_string:
+            raise EncodeError('Cannot encode a text string that contains NUL')
         if encoded_string and encoded_string[0] > 127:
             # the Quote character
             encoded_string.insert(0, 127)
@@ -1690,7 +1692,7 @@ class Encoder:
                     value = Encoder.encode_token_text(parameter_value)
                 except EncodeError:
                     # Quoted-string
-                    value = [34] + [ord(c) for c in parameter_value] + [0x00]
+                    value = Encoder.encode_text_string('"' + parameter_value)
 
             encoded_parameter.extend(value)
 
-- 
2.43.0


From 1fa63dddc8e45cd27af699ad9eb15d57c3856ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 25/37] fix: refuse encoded strings that begin with a control
 character

Such a Subject or address was decoded as a length, which garbled the rest
of the message.
---
 messaging/mms/mms_pdu.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 4c6101a..bbff4aa 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -959,6 +959,12 @@ class MMSEncoder(wsp_pdu.Encoder):
         :return: The encoded string value, as a sequence of bytes
         :rtype: list
         """
+        if string_value and (ord(string_value[0]) < 32 or
+                             ord(string_value[0]) == 127):
+            # it would be taken for a Value-length or a Quote
+            raise wsp_pdu.EncodeError('Cannot encode an encoded-string-value '
+                                      'that begins with a control character')
+
         return wsp_pdu.Encoder.encode_text_string(string_value)
 
     @staticmethod
-- 
2.43.0


From e90d0d0570384f862ece153285bfb8a4b70637f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 26/37] fix: relative delivery times below 128 seconds

Delta-seconds may be coded as a short integer.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index bbff4aa..a14fe50 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -361,11 +361,12 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         if token == 128:
             token_type = 'absolute'
+            value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
         elif token == 129:
             token_type = 'relative'
+            value = wsp_pdu.Decoder.decode_delta_seconds_value(byte_iter)
         else:
             raise wsp_pdu.DecodeError('Delivery-Time type token value is undefined'
                 ' (%s), should be either 128 or 129' % token)
-- 
2.43.0


From 61e7c6346dd5ee9316346f5269fa7bf5a245a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 27/37] fix: an unknown message type does not garble the
 following headers

Its octet was left in the stream and read as a header name.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index a14fe50..32453b6 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -452,7 +452,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             byte_iter.next()
             return message_types[byte]
 
-        byte_iter.reset_preview()
+        # it takes an octet all the same
+        byte_iter.next()
         return '<unknown>'
 
     @staticmethod
-- 
2.43.0


From 6fc72d6fd9b55865014492560167286aef9ed4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 28/37] fix: name of the multipart/byteranges content type

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 6037fd1..6c84868 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -103,7 +103,7 @@ well_known_content_types = [
     'text/x-vCard', 'text/vnd.wap.wml',
     'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event',
     'multipart/*', 'multipart/mixed', 'multipart/form-data',
-    'multipart/byterantes', 'multipart/alternative',
+    'multipart/byteranges', 'multipart/alternative',
     'application/*', 'application/java-vm',
     'application/x-www-form-urlencoded',
     'application/x-hdmlc', 'application/vnd.wap.wmlc',
-- 
2.43.0


From fc5e6bffcea33a93646a9353179043070012f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 29/37] fix: read the files of parts in binary mode

Text mode alters and truncates images on systems that tell them apart.
---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 8729fe6..8b24f4a 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -547,7 +547,7 @@ class DataPart(object):
             return self._data
 
         elif self._filename is not None:
-            with open(self._filename, 'r') as f:
+            with open(self._filename, 'rb') as f:
                 self._data = f.read()
             return self._data
 
-- 
2.43.0


From e79ae532c733d3aa6d9ee56214ef984d7885b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 30/37] fix: an empty untyped parameter value is not the number
 0

---
 messaging/mms/wsp_pdu.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 6c84868..c315082 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -944,6 +944,13 @@ class Decoder:
         :return: The decoded untyped-value
         :rtype: int or str
         """
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte == 0x00:
+            # No-value
+            byte_iter.next()
+            return ''
+
         try:
             return Decoder.decode_integer_value(byte_iter)
         except DecodeError:
-- 
2.43.0


From c7478ea44972efa712443507c164521af1e91f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 31/37] fix: decode versions without a minor number

The minor nibble 15 says that there is only a major number; '3' came
back as '3.15'.
---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index c315082..ff9b49e 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1145,6 +1145,9 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # There is only a major version number
+                return '%d' % major
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From 1ef98b06402dbc743ae8c957197827d5de109db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 32/37] fix: report what could not be written when saving a
 message

On Jython, closing a file drops the error of writing its buffers, so that
to_file() reported success for a message that never got to a full disk.
---
 messaging/mms/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 8b24f4a..972c2d4 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -238,6 +238,8 @@ class MMSMessage:
         data = self.encode()
         with open(filename, 'wb') as f:
             data.tofile(f)
+            # not every runtime reports on closing what could not be written
+            f.flush()
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 8a6c3ae52ca124e02347ea247c87193df6302b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 33/37] fix: refuse texts that begin with DEL, which is read as
 the Quote octet

---
 messaging/mms/wsp_pdu.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index ff9b49e..fc301bb 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1478,6 +1478,10 @@ class Encoder:
         encoded_string = [ord(c) for c in string]
         if 0x00 in encoded_string:
             raise EncodeError('Cannot encode a text string that contains NUL')
+        if encoded_string and encoded_string[0] == 127:
+            # it would be taken for the Quote character
+            raise EncodeError('Cannot encode a text string that begins with '
+                              'a DEL character')
         if encoded_string and encoded_string[0] > 127:
             # the Quote character
             encoded_string.insert(0, 127)
@@ -1702,6 +1706,9 @@ class Encoder:
                     value = Encoder.encode_token_text(parameter_value)
                 except EncodeError:
                     # Quoted-string
+                    if parameter_value.startswith('\x7f'):
+                        raise EncodeError('Cannot encode a quoted string that '
+                                          'begins with a DEL character')
                     value = Encoder.encode_text_string('"' + parameter_value)
 
             encoded_parameter.extend(value)
-- 
2.43.0


From 475d2b36ecfa290dd163af84fbf8c20fa9bffa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 34/37] fix: refuse characters that are no octets in 8-bit
 messages

---
 messaging/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 5951935..c6c7c7c 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -148,6 +148,10 @@ def pack_8bits_to_8bit(message, udh=None):
     if udh is None:
         udh = ""
 
+    for n in message:
+        if ord(n) > 0xff:
+            raise ValueError("Only octets fit in an 8-bit message: %r" % n)
+
     mlen = len(udh) + len(message)
     return encode_str(chr(mlen)) + encode_str(udh) + encode_str(message)
 
-- 
2.43.0


From af87f9f6c9546194bf4d391ca24df94f5db72d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 35/37] fix: refuse negative numbers, which were sent as zero

---
 messaging/mms/wsp_pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index fc301bb..a097604 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1531,7 +1531,7 @@ class Encoder:
             Long-integer = Short-length Multi-octet-integer
             Short-length = <Any octet 0-30>
 
-        :raise EncodeError: <integer> is not of type "int"
+        :raise EncodeError: <integer> is not of type "int", or negative
 
         :param integer: The integer value to encode
         :type integer: int
@@ -1542,6 +1542,9 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Long-integers have no sign: %d' % integer)
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From 16267ac18292004892ff09cdfe8034592ec44278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 36/37] fix: tell ports of eight bits from those of sixteen

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From df445366f428d5adc5e404318f75a66f95d30696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 37/37] fix: read the alphabet of message waiting indications

Messages that tell of waiting voice mail have their own coding groups,
in which the bits that are the alphabet elsewhere say something else.
Their texts were taken for UCS2 or for the default alphabet when they
were the other.
---
 messaging/sms/deliver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 3605c36..9f13bb2 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -128,7 +128,13 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
+        if self.dcs & 0xe0 == 0xc0:
+            # message waiting, discard or store: default alphabet
+            self.fmt = 0x00
+        elif self.dcs & 0xf0 == 0xe0:
+            # message waiting, store: UCS2
+            self.fmt = 0x08
+        elif self.dcs & (0x04 | 0x08) == 0:
             self.fmt = 0x00
         elif self.dcs & 0x04:
             self.fmt = 0x04
-- 
2.43.0

