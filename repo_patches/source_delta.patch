From baec38cd59dfc1ed70a17af8b21aa9025a9cb822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 01/22] fix: don't crash on URIs that urllib refuses to parse

URIs like http://[V1.a]/ are allowed by RFC 3986 but make urlparse and
urljoin raise ValueError.
---
 httpolice/request.py  | 11 +++++++----
 httpolice/response.py | 18 ++++++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/httpolice/request.py b/httpolice/request.py
index 5a3e717..129bccc 100644
--- a/httpolice/request.py
+++ b/httpolice/request.py
@@ -2,7 +2,7 @@ import base64
 import fnmatch
 import itertools
 import string
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -182,7 +182,11 @@ class Request(message.Message):
         # so this property should be understood as "salvageable query params."
         if not okay(self.effective_uri):
             return {}
-        return parse_qs(urlparse(self.effective_uri).query)
+        # Not `urlparse`, which refuses (with `ValueError`) some authorities
+        # that are allowed by RFC 3986.
+        (uri, _, _) = self.effective_uri.partition(u'#')
+        (_, _, query) = uri.partition(u'?')
+        return parse_qs(query)
 
     @derived_property
     def has_body(self):
@@ -272,8 +276,7 @@ def check_request(req):
 
     if headers.referer.is_okay:
         if req.is_tls is False:
-            parsed = urlparse(headers.referer.value)
-            if parsed.scheme == u'https':
+            if headers.referer.value.lower().startswith(u'https:'):
                 complain(1068)
 
     if headers.user_agent.is_absent:
diff --git a/httpolice/response.py b/httpolice/response.py
index ba853c1..4cefb47 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -1,5 +1,5 @@
 from datetime import datetime, timedelta
-from urllib.parse import urljoin, urlparse
+from urllib.parse import urljoin
 
 from httpolice import known, message
 from httpolice.blackboard import derived_property
@@ -292,7 +292,7 @@ def check_response_itself(resp):
         complain(1110)
 
     if status == st.created and headers.location.is_okay and \
-            urlparse(headers.location.value).fragment:
+            headers.location.value.partition(u'#')[2]:
         complain(1111)
 
     if headers.date < headers.last_modified.value:
@@ -490,6 +490,13 @@ def check_response_itself(resp):
         complain(1046)
 
 
+def _refers_to_self(uri, reference):
+    try:
+        return uri == urljoin(uri, reference)
+    except ValueError:      # Some authorities are unknown to `urllib`.
+        return False
+
+
 def check_response_in_context(resp, req):
     resp.silence(notice_id
                  for (notice_id, in_resp) in req.headers.httpolice_silence
@@ -542,8 +549,8 @@ def check_response_in_context(resp, req):
         complain(1071)
 
     if resp.headers.content_location.is_okay and req.effective_uri:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.content_location.value):
+        if _refers_to_self(req.effective_uri,
+                           resp.headers.content_location.value):
             if method in [m.GET, m.HEAD] and \
                     status in [st.ok, st.non_authoritative_information,
                                st.no_content, st.partial_content,
@@ -553,8 +560,7 @@ def check_response_in_context(resp, req):
                 complain(1060)
 
     if resp.headers.location.is_okay and req.effective_uri and req.scheme:
-        if req.effective_uri == urljoin(req.effective_uri,
-                                        resp.headers.location.value):
+        if _refers_to_self(req.effective_uri, resp.headers.location.value):
             if status in [st.multiple_choices, st.temporary_redirect,
                           st.permanent_redirect]:
                 complain(1085)
-- 
2.43.0


From cc92b673bfb0df9a24a53d9dfa2186c56048045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 02/22] fix: don't crash on huge values of Age

---
 httpolice/inputs/streams.py | 7 +++++--
 httpolice/response.py       | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 59b1915..6ee15d6 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -311,8 +311,11 @@ def _exchange_time(exchange, hint):
     for resp in exchange.responses:
         if resp.headers.date.is_okay:
             if resp.headers.age.is_okay:
-                return (resp.headers.date.value +
-                        timedelta(seconds=resp.headers.age.value))
+                try:
+                    return (resp.headers.date.value +
+                            timedelta(seconds=resp.headers.age.value))
+                except OverflowError:
+                    pass
             return resp.headers.date.value
     return hint
 
diff --git a/httpolice/response.py b/httpolice/response.py
index 4cefb47..59bdcd7 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -115,8 +115,11 @@ class Response(message.Message):
 
         if self.headers.date.is_okay and self.headers.age.is_okay:
             date = self.headers.date.value
-            age = timedelta(seconds=self.headers.age.value)
-            if date + age > datetime.utcnow() + timedelta(seconds=30):
+            try:
+                moment = date + timedelta(seconds=self.headers.age.value)
+            except OverflowError:
+                moment = datetime.max
+            if moment > datetime.utcnow() + timedelta(seconds=30):
                 self.complain(1241)
                 return None
 
-- 
2.43.0


From 170f34922d89d9ddbfd80727d6ecd1627b5c4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 03/22] fix: don't crash on numbers of more than 4300 digits in
 headers

---
 httpolice/syntax/common.py   |  8 ++++++++
 httpolice/syntax/internal.py |  4 ++--
 httpolice/syntax/rfc6797.py  |  4 ++--
 httpolice/syntax/rfc7230.py  |  5 +++--
 httpolice/syntax/rfc7231.py  |  6 +++---
 httpolice/syntax/rfc7233.py  | 10 +++++-----
 httpolice/syntax/rfc7234.py  |  4 ++--
 7 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/httpolice/syntax/common.py b/httpolice/syntax/common.py
index 0564949..c282508 100644
--- a/httpolice/syntax/common.py
+++ b/httpolice/syntax/common.py
@@ -15,6 +15,14 @@ SP = octet(0x20)                                                        > auto
 VCHAR = octet_range(0x21, 0x7E)                                         > auto
 
 
+def decimal(s):
+    # Python refuses (with `ValueError`) to convert very long strings of digits.
+    # Numbers that long are far beyond any meaningful limit,
+    # so it is enough to represent them as "something very big".
+    s = s.lstrip(u'0') or u'0'
+    return int(s) if len(s) <= 1000 else 10 ** 1000
+
+
 _BAD_MEDIA_TYPES = {
     MediaType(u'application/text'): media.text_plain,
     MediaType(u'plain/text'): media.text_plain,
diff --git a/httpolice/syntax/internal.py b/httpolice/syntax/internal.py
index 3c85ad9..8c43632 100644
--- a/httpolice/syntax/internal.py
+++ b/httpolice/syntax/internal.py
@@ -1,10 +1,10 @@
 from httpolice.parse import (fill_names, literal, maybe, pivot, skip, string1,
                              subst)
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, decimal
 from httpolice.syntax.rfc7230 import RWS, comma_list
 
 
-notice_id = int << string1(DIGIT)                                       > pivot
+notice_id = decimal << string1(DIGIT)                                   > pivot
 resp = subst(True) << literal('resp')                                   > pivot
 HTTPolice_Silence = comma_list(notice_id * maybe(skip(RWS) * resp))     > pivot
 
diff --git a/httpolice/syntax/rfc6797.py b/httpolice/syntax/rfc6797.py
index 027d850..efdffe7 100644
--- a/httpolice/syntax/rfc6797.py
+++ b/httpolice/syntax/rfc6797.py
@@ -1,7 +1,7 @@
 from httpolice.citation import RFC
 from httpolice.parse import auto, fill_names, many, maybe, pivot, skip, string1
 from httpolice.structure import HSTSDirective, Parametrized
-from httpolice.syntax.common import DIGIT
+from httpolice.syntax.common import DIGIT, decimal
 from httpolice.syntax.rfc7230 import OWS, quoted_string, token
 
 
@@ -19,6 +19,6 @@ def _collect_elements(xs):
 Strict_Transport_Security = _collect_elements << (
     maybe(directive) % many(skip(OWS * ';' * OWS) * maybe(directive)))  > pivot
 
-max_age_value = int << string1(DIGIT)                                   > pivot
+max_age_value = decimal << string1(DIGIT)                               > pivot
 
 fill_names(globals(), RFC(6797))
diff --git a/httpolice/syntax/rfc7230.py b/httpolice/syntax/rfc7230.py
index d3f57a4..6b65ad8 100644
--- a/httpolice/syntax/rfc7230.py
+++ b/httpolice/syntax/rfc7230.py
@@ -6,7 +6,8 @@ from httpolice.parse import (auto, can_complain, fill_names, group, literal,
 from httpolice.structure import (CaseInsensitive, ConnectionOption, FieldName,
                                  Method, MultiDict, Parametrized,
                                  TransferCoding, UpgradeToken, Versioned)
-from httpolice.syntax.common import ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR
+from httpolice.syntax.common import (ALPHA, DIGIT, DQUOTE, HTAB, SP, VCHAR,
+                                     decimal)
 from httpolice.syntax.rfc3986 import (absolute_URI, authority,
                                       host as uri_host, port, query,
                                       relative_part, segment)
@@ -161,6 +162,6 @@ Via = comma_list1(received_protocol * skip(RWS) *
                   received_by *
                   maybe(skip(RWS) * comment(include_parens=False)))     > pivot
 
-Content_Length = int << string1(DIGIT)                                  > pivot
+Content_Length = decimal << string1(DIGIT)                              > pivot
 
 fill_names(globals(), RFC(7230))
diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 38f77cc..2164b20 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -7,7 +7,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, many,
 from httpolice.structure import (CaseInsensitive, Charset, ContentCoding,
                                  MediaType, MultiDict, Parametrized,
                                  ProductName, Unavailable, Versioned, okay)
-from httpolice.syntax.common import DIGIT, SP, check_media_type
+from httpolice.syntax.common import DIGIT, SP, check_media_type, decimal
 from httpolice.syntax.rfc3986 import URI_reference, absolute_URI
 from httpolice.syntax.rfc4647 import language_range
 from httpolice.syntax.rfc5646 import Language_Tag as language_tag
@@ -213,7 +213,7 @@ Accept_Encoding = comma_list(Parametrized << codings * maybe(weight))   > pivot
 Accept_Language = comma_list1(
     Parametrized << language_range * maybe(weight))                     > pivot
 
-delay_seconds = int << string1(DIGIT)                                   > pivot
+delay_seconds = decimal << string1(DIGIT)                               > pivot
 Retry_After = HTTP_date | delay_seconds                                 > pivot
 
 Allow = comma_list(method)                                              > pivot
@@ -223,7 +223,7 @@ Content_Location = absolute_URI | partial_URI                           > pivot
 Content_Type = media_type                                               > pivot
 Date = HTTP_date                                                        > pivot
 Location = URI_reference                                                > pivot
-Max_Forwards = int << string1(DIGIT)                                    > pivot
+Max_Forwards = decimal << string1(DIGIT)                                > pivot
 Referer = absolute_URI | partial_URI                                    > pivot
 Vary = '*' | comma_list1(field_name)                                    > pivot
 Expect = CaseInsensitive << literal('100-continue')                     > pivot
diff --git a/httpolice/syntax/rfc7233.py b/httpolice/syntax/rfc7233.py
index 18d1c83..8303f27 100644
--- a/httpolice/syntax/rfc7233.py
+++ b/httpolice/syntax/rfc7233.py
@@ -3,7 +3,7 @@ from httpolice.parse import (auto, can_complain, fill_names, literal, maybe,
                              pivot, skip, string, string1, subst)
 from httpolice.structure import (CaseInsensitive, ContentRange, RangeSpecifier,
                                  RangeUnit)
-from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR
+from httpolice.syntax.common import CHAR, DIGIT, SP, VCHAR, decimal
 from httpolice.syntax.rfc7230 import comma_list1, token__excluding
 from httpolice.syntax.rfc7231 import HTTP_date
 from httpolice.syntax.rfc7232 import entity_tag
@@ -22,12 +22,12 @@ def _well_formed1(complain, first, last):
         complain(1133)
     return (first, last)
 
-first_byte_pos = int << string1(DIGIT)                                  > auto
-last_byte_pos = int << string1(DIGIT)                                   > auto
+first_byte_pos = decimal << string1(DIGIT)                              > auto
+last_byte_pos = decimal << string1(DIGIT)                               > auto
 byte_range_spec = _well_formed1 << (first_byte_pos * skip('-') *
                                     maybe(last_byte_pos))               > pivot
 
-suffix_length = int << string1(DIGIT)                                   > auto
+suffix_length = decimal << string1(DIGIT)                               > auto
 suffix_byte_range_spec = \
     (lambda x: (None, x)) << skip('-') * suffix_length                  > pivot
 
@@ -42,7 +42,7 @@ other_ranges_specifier = RangeSpecifier << (
 Range = byte_ranges_specifier | other_ranges_specifier                  > pivot
 
 byte_range = first_byte_pos * skip('-') * last_byte_pos                 > auto
-complete_length = int << string1(DIGIT)                                 > auto
+complete_length = decimal << string1(DIGIT)                             > auto
 byte_range_resp = (
     byte_range * skip('/') *
     (complete_length | subst(None) << literal('*')))                    > pivot
diff --git a/httpolice/syntax/rfc7234.py b/httpolice/syntax/rfc7234.py
index 6e2a0a9..96e1813 100644
--- a/httpolice/syntax/rfc7234.py
+++ b/httpolice/syntax/rfc7234.py
@@ -3,14 +3,14 @@ from httpolice.parse import (fill_names, literal, mark, maybe, maybe_str,
                              named, pivot, skip, string1, string_times)
 from httpolice.structure import (CacheDirective, CaseInsensitive, Parametrized,
                                  WarnCode, WarningValue)
-from httpolice.syntax.common import DIGIT, DQUOTE, SP
+from httpolice.syntax.common import DIGIT, DQUOTE, SP, decimal
 from httpolice.syntax.rfc7230 import (comma_list, comma_list1, field_name,
                                       port, pseudonym, quoted_string, token,
                                       token__excluding, uri_host)
 from httpolice.syntax.rfc7231 import HTTP_date
 
 
-delta_seconds = int << string1(DIGIT)                                   > pivot
+delta_seconds = decimal << string1(DIGIT)                               > pivot
 Age = delta_seconds                                                     > pivot
 
 cache_directive = Parametrized << (
-- 
2.43.0


From e0d335d24e1ab23ee1cb421492d6de8d8392e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 04/22] fix: don't accept negative and otherwise malformed
 chunk sizes

int(s, 16) accepts strings like '-5', '0x5', '1_0'. With a negative size,
the rest of the stream was consumed as the body. Also, a size with too many
digits could not be rendered in notice 1298.
---
 httpolice/framing1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index 3e6e04d..ab97607 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -1,6 +1,7 @@
 """Parse HTTP/1.x message framing according to RFC 7230."""
 
 import re
+import sys
 
 from httpolice.citation import RFC
 from httpolice.codings import decode_deflate, decode_gzip
@@ -299,10 +300,10 @@ def _parse_chunk(stream, data):
         pos = stream.tell()
         (size_s, _, _) = stream.readline().partition(u';')
         with stream.parsing(chunk_size):
-            try:
-                size = int(size_s.rstrip(u' \t'), 16)     # RFC errata ID: 4667
-            except ValueError:
+            size_s = size_s.rstrip(u' \t')                # RFC errata ID: 4667
+            if not re.match(u'^[0-9A-Fa-f]+$', size_s):
                 raise stream.error(pos)
+            size = min(int(size_s, 16), sys.maxsize)
         if size == 0:
             return False
         if size + current_size > MAX_BODY_SIZE:
-- 
2.43.0


From 5341a5008a60b45397281ce6f8cc6cee7d4aae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 05/22] fix: don't crash on Content-Type with charset=base64
 and the like

---
 httpolice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c810134..01929ff 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -107,7 +107,8 @@ class Message(Blackboard):
         if okay(self.decoded_body):
             try:
                 self.decoded_body.decode(charset)   # pylint: disable=no-member
-            except UnicodeError:
+            except (LookupError, UnicodeError):
+                # `LookupError` is for codecs that are not text encodings.
                 return None
         return charset
 
-- 
2.43.0


From 1b243ff0dfb0c00f647978ac6b9add8c1082a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 06/22] fix: don't crash on deeply nested JSON

---
 httpolice/message.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 01929ff..7857bce 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -133,7 +133,7 @@ class Message(Blackboard):
                 okay(self.unicode_body) and self.content_is_full:
             try:
                 r = json.loads(self.unicode_body)
-            except ValueError as e:
+            except (ValueError, RecursionError) as e:
                 self.complain(1038, error=e)
                 r = Unavailable(self.unicode_body)
             else:
@@ -211,8 +211,14 @@ class Message(Blackboard):
             if self.guessed_charset and self.guessed_charset != 'utf-8' else []
         pretty_printing = [u'pretty-printing']
 
+        r = None
         if okay(self.json_data):
-            r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            try:
+                r = json.dumps(self.json_data, indent=2, ensure_ascii=False)
+            except RecursionError:
+                pass
+
+        if r is not None:
             transforms = \
                 removing_te + removing_ce + decoding_charset + pretty_printing
         elif okay(self.unicode_body):
-- 
2.43.0


From dff21e6eea661b177a87805cd5fb4edbe68262ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 07/22] fix: don't crash on XML with an unknown or multi-byte
 encoding

---
 httpolice/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index 7857bce..c0637db 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -155,7 +155,10 @@ class Message(Blackboard):
                 self.complain(1275)
                 return Unavailable(self.decoded_body)
             # https://bugs.python.org/issue29896
-            except (xml.etree.ElementTree.ParseError, UnicodeError) as e:
+            # Also, unknown or unsupported encodings in the XML declaration
+            # raise `LookupError` or `ValueError`.
+            except (xml.etree.ElementTree.ParseError,
+                    LookupError, ValueError) as e:
                 self.complain(1039, error=e)
                 return Unavailable(self.decoded_body)
         else:
-- 
2.43.0


From 7846628ff1f7253d73e99666269cfb33128a1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 08/22] fix: don't crash on multipart data that email.parser
 chokes on

---
 httpolice/message.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httpolice/message.py b/httpolice/message.py
index c0637db..fa46e28 100644
--- a/httpolice/message.py
+++ b/httpolice/message.py
@@ -175,7 +175,11 @@ class Message(Blackboard):
             # and should be parseable as email message payloads.
             multipart_code = (b'Content-Type: ' + ctype.entries[0].value +
                               b'\r\n\r\n' + self.decoded_body)
-            parsed = parse_email_message(multipart_code)
+            try:
+                parsed = parse_email_message(multipart_code)
+            except (ValueError, LookupError, RecursionError):
+                # Parts can be nested too deeply or have malformed parameters.
+                return Unavailable(self.decoded_body)
             for d in parsed.defects:
                 if isinstance(d, email.errors.NoBoundaryInMultipartDefect):
                     self.complain(1139)
-- 
2.43.0


From c600a7bc5cae04b9b02992378fa1b2ee5dd89665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 09/22] fix: don't crash on Link parameters with missing or
 malformed values

---
 httpolice/response.py       | 3 ++-
 httpolice/syntax/rfc8288.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/httpolice/response.py b/httpolice/response.py
index 59bdcd7..356bba1 100644
--- a/httpolice/response.py
+++ b/httpolice/response.py
@@ -328,7 +328,8 @@ def check_response_itself(resp):
         complain(1162)
 
     if status == st.unavailable_for_legal_reasons:
-        if not any(u'blocked-by' in link.param.get(u'rel', [])
+        if not any(okay(link.param.get(u'rel')) and
+                   u'blocked-by' in link.param.get(u'rel')
                    for link in headers.link):
             complain(1243)
 
diff --git a/httpolice/syntax/rfc8288.py b/httpolice/syntax/rfc8288.py
index 10d5c69..80902ba 100644
--- a/httpolice/syntax/rfc8288.py
+++ b/httpolice/syntax/rfc8288.py
@@ -23,6 +23,7 @@ def _process_params(complain, params):
                 # "occurrences after the first MUST be ignored by parsers"
                 continue
             seen.add(name)
+        parsed_as = None
         if value is not None:
             (parsed_as, value) = value
         if name == u'title' and parsed_as is token:
@@ -33,7 +34,7 @@ def _process_params(complain, params):
             u'anchor': URI_Reference, u'rel': rel, u'rev': rev,
             u'hreflang': hreflang, u'type': type_, u'title*': ext_value,
         }.get(name)
-        if symbol is not None:
+        if symbol is not None and value is not None:
             value = parse(value, symbol, complain, 1158,
                           name=name, value=value)
         r.append((name, value))
-- 
2.43.0


From 74dc138b67e38a3a63c0e4b2083dfbdca44f6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 10/22] fix: report more kinds of malformed HAR files as
 InputError

---
 httpolice/inputs/har.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 6b18632..9cc9e04 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -26,13 +26,14 @@ def har_input(paths):
         with io.open(path, 'rt', encoding='utf-8-sig') as f:
             try:
                 data = json.load(f)
-            except ValueError as exc:
+            except (ValueError, RecursionError) as exc:
                 raise InputError('%s: bad HAR file: %s' % (path, exc)) from exc
             try:
                 creator = data['log']['creator']['name']
                 for entry in data['log']['entries']:
                     yield _process_entry(entry, creator, path)
-            except (TypeError, KeyError) as exc:
+            except (TypeError, KeyError, AttributeError,
+                    ValueError, OverflowError) as exc:
                 raise InputError('%s: cannot understand HAR file: %r' %
                                  (path, exc)) from exc
 
-- 
2.43.0


From a2678aa644aeb4b78184aa1523c1c03f1e642fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 11/22] fix: don't crash on deeply nested comments in headers

---
 httpolice/parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/httpolice/parse.py b/httpolice/parse.py
index 18e4816..00dbb7c 100644
--- a/httpolice/parse.py
+++ b/httpolice/parse.py
@@ -107,9 +107,13 @@ def parse(data, symbol, complain=None, fail_notice_id=None,
         try:
             parse_result = _inner_parse(data, symbol.as_nonterminal(),
                                         annotate_classes)
-        except ParseError as e:
+        except (ParseError, RecursionError) as e:
+            if isinstance(e, RecursionError):
+                # For example, comments nested too deeply.
+                e = ParseError(name=None, position=0,
+                               expected=[(u'less deeply nested data', None)])
             if fail_notice_id is None:
-                raise
+                raise e
             complaint = (fail_notice_id, {'error': e})
             parse_result = (Unavailable(data), [complaint], [])
         else:
-- 
2.43.0


From 660130c7c78841b8a1f97fecc24c6950f61c10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 12/22] fix: cite RFC 7230 section 4.2.3 for the x-gzip
 transfer coding

---
 httpolice/known/transfer_coding.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/known/transfer_coding.csv b/httpolice/known/transfer_coding.csv
index 54c1a13..4918f44 100644
--- a/httpolice/known/transfer_coding.csv
+++ b/httpolice/known/transfer_coding.csv
@@ -5,4 +5,4 @@ deflate,,,,7230,4.2.2,,,
 gzip,,,,7230,4.2.3,,,
 identity,,RFC errata ID: 408,*,,,,,
 x-compress,,,,7230,4.2.1,,,
-x-gzip,,,,7230,4.2.2,,,
+x-gzip,,,,7230,4.2.3,,,
-- 
2.43.0


From 1df019e39e71c922b73b2d17ed7e497ec0573a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 13/22] fix: correct the spelling of Saturday in day names

---
 httpolice/syntax/rfc7231.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 2164b20..19e9934 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -19,7 +19,7 @@ from httpolice.syntax.rfc7230 import (OWS, RWS, comma_list, comma_list1,
 # The standard library's day and month names are locale-dependent,
 # which brings in Unicode problems.
 _DAY_NAMES = [u'Monday', u'Tuesday', u'Wednesday', u'Thursday', u'Friday',
-              u'Saturady', u'Sunday']
+              u'Saturday', u'Sunday']
 _MONTH_NAMES = [u'Jan', u'Feb', u'Mar', u'Apr', u'May', u'Jun', u'Jul', u'Aug',
                 u'Sep', u'Oct', u'Nov', u'Dec']
 
-- 
2.43.0


From 90bbb199a097ba5e871ee423fc0cf5ab74ffd0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 14/22] fix: interpret two-digit years in RFC 850 dates as RFC
 7231 requires

---
 httpolice/syntax/rfc7231.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 19e9934..7c243b7 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -128,10 +128,21 @@ day_name_l = (
                  octet(0x61) * octet(0x79))
 )                                                                       > pivot
 
+def _two_digit_year(s):
+    # "Recipients of a timestamp value in rfc850-date format [...] MUST
+    # interpret a timestamp that appears to be more than 50 years in the future
+    # as representing the most recent year in the past that had the same
+    # last two digits."
+    this_year = date.today().year
+    year = this_year - this_year % 100 + int(s)
+    if year > this_year + 50:
+        year -= 100
+    return year
+
 date2 = _to_date << (
     day * skip('-') *
     month * skip('-') *
-    ((lambda s: int('19' + s)) << string_times(2, 2, DIGIT)))           > pivot
+    (_two_digit_year << string_times(2, 2, DIGIT)))                     > pivot
 
 rfc850_date = _to_datetime << (day_name_l * skip(',' * SP) *
                                date2 * skip(SP) *
-- 
2.43.0


From 88620f325c4cf3d36a605d7ae7d96445416a71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 15/22] fix: accept leap seconds in HTTP dates

---
 httpolice/syntax/rfc7231.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httpolice/syntax/rfc7231.py b/httpolice/syntax/rfc7231.py
index 7c243b7..9dbf5ff 100644
--- a/httpolice/syntax/rfc7231.py
+++ b/httpolice/syntax/rfc7231.py
@@ -83,10 +83,10 @@ date1 = _to_date << day * skip(SP) * month * skip(SP) * year            > pivot
 @can_complain
 def _to_time(complain, h, m, s):
     try:
-        # This doesn't parse the leap second 23:59:60
-        # that is explicitly specified in the RFC.
-        # I can ignore this for now.
-        return time(h, m, s)
+        # The RFC explicitly allows leap seconds (23:59:60),
+        # but the standard library cannot represent them.
+        leap_second = (h, m, s) == (23, 59, 60)
+        return time(h, m, 59 if leap_second else s)
     except ValueError:
         time_s = u'%02d:%02d:%02d' % (h, m, s)
         complain(1223, time=time_s)
-- 
2.43.0


From 5fa53996de2c308bf184304a798eb7fa3936f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 16/22] fix: keep line breaks in messages from starting lines
 of text reports

---
 httpolice/reports/text.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/httpolice/reports/text.py b/httpolice/reports/text.py
index 2ce6234..3165de4 100644
--- a/httpolice/reports/text.py
+++ b/httpolice/reports/text.py
@@ -1,4 +1,5 @@
 import codecs
+import re
 from functools import singledispatch
 
 from httpolice import notice
@@ -34,11 +35,17 @@ def text_report(exchanges, buf):
                 _write_complaint_line(complaint, f2)
 
 
+def _one_line(s):
+    # A line break in a request target, a reason phrase and so on
+    # must not be able to start a new line in the report.
+    return re.sub(u'[\r\n]+', u' ', printable(s))
+
+
 def _exchange_marker(exchange):
     if exchange.request:
         marker = u'------------ request: %s %s' % (
-            printable(exchange.request.method),
-            printable(exchange.request.target))
+            _one_line(exchange.request.method),
+            _one_line(exchange.request.target))
     elif exchange.responses:
         marker = u'------------ unknown request'
     else:
@@ -50,7 +57,7 @@ def _exchange_marker(exchange):
 def _response_marker(response):
     return ellipsize(u'------------ response: %d %s' % (
                         response.status,
-                        printable(find_reason_phrase(response)))) + u'\n'
+                        _one_line(find_reason_phrase(response)))) + u'\n'
 
 
 def _write_complaint_line(complaint, f):
@@ -66,7 +73,7 @@ def _piece_to_text(piece, ctx):
 
 @_piece_to_text.register(str)
 def _text_to_text(text, _):
-    return printable(text)
+    return _one_line(text)
 
 @_piece_to_text.register(list)
 def _list_to_text(xs, ctx):
-- 
2.43.0


From b41ce4e8d724419e521d884d973c8e0d67e6ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:07 +0000
Subject: [PATCH 17/22] fix: cite the section of RFC 8246 in notices 1302 and
 1303

---
 httpolice/notices.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httpolice/notices.xml b/httpolice/notices.xml
index 62be81b..63e7fcd 100644
--- a/httpolice/notices.xml
+++ b/httpolice/notices.xml
@@ -2194,7 +2194,7 @@ One non-obvious thing is how references work
 
   <comment id="1302">
     <title><h>Cache-Control</h>: <cache>immutable</cache> may be ignored without TLS</title>
-    <rfc num="8246" section="3">
+    <rfc num="8246" sect="3">
       Clients SHOULD ignore the <cache>immutable</cache> extension from resources that
       are not part of an authenticated context such as HTTPS.
     </rfc>
@@ -2202,7 +2202,7 @@ One non-obvious thing is how references work
 
   <comment id="1303">
     <title><h>Cache-Control</h>: <cache>immutable</cache> may be ignored without response length</title>
-    <rfc num="8246" section="3">
+    <rfc num="8246" sect="3">
       Clients SHOULD ignore the <cache>immutable</cache> extension for resources that
       do not provide a strong indication that the stored response size
       is the correct response size such as responses delimited by
-- 
2.43.0


From b847dcc3387aea333b4f6699d900a8089734ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 18/22] fix: silence notices on children when given an iterator
 of identifiers

---
 httpolice/blackboard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httpolice/blackboard.py b/httpolice/blackboard.py
index 7c2ffa3..358e6e2 100644
--- a/httpolice/blackboard.py
+++ b/httpolice/blackboard.py
@@ -64,6 +64,7 @@ class Blackboard:
           An iterable of notice IDs that will be silenced on this object,
           so they don't appear in :attr:`notices` or in reports.
         """
+        notice_ids = list(notice_ids)
         self._silenced.update(notice_ids)
         for child in self.children:
             child.silence(notice_ids)
-- 
2.43.0


From 6dfe3789094fa870d83b66da561898e35c773962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 19/22] fix: treat differing Content-Length values as invalid
 framing

RFC 7230 section 3.3.3 makes a message with several Content-Length values
that differ unrecoverable. The last value was used to read the body.
---
 httpolice/framing1.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/httpolice/framing1.py b/httpolice/framing1.py
index ab97607..234749f 100644
--- a/httpolice/framing1.py
+++ b/httpolice/framing1.py
@@ -6,7 +6,7 @@ import sys
 from httpolice.citation import RFC
 from httpolice.codings import decode_deflate, decode_gzip
 from httpolice.exchange import Exchange, complaint_box
-from httpolice.known import m, st, tc
+from httpolice.known import h, m, st, tc
 from httpolice.parse import ParseError, Symbol
 from httpolice.request import Request
 from httpolice.response import Response
@@ -122,7 +122,11 @@ def _parse_request_heading(stream, scheme=None):
 
 def _process_content_length(msg, stream):
     n = msg.headers.content_length.value
-    if not okay(n):
+    values = set(entry.value
+                 for _, _, entry in msg.headers.enumerate(h.content_length))
+    if not okay(n) or len(values) > 1:
+        # Different values of Content-Length are just as invalid
+        # as a malformed one (RFC 7230 section 3.3.3).
         msg.body = Unavailable()
         stream.sane = False
     elif n > MAX_BODY_SIZE:
@@ -152,7 +156,7 @@ def _parse_request_body(req, stream):
         while codings and okay(req.body):
             _decode_transfer_coding(req, codings.pop())
 
-    elif req.headers.content_length:
+    elif req.headers.content_length.is_present:
         _process_content_length(req, stream)
 
     else:
-- 
2.43.0


From 31ebf35cf0660c844e82e89438eacc5297006a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 20/22] fix: reject HAR files where the text of a body is not a
 string

Such text crashed the checks with TypeError.
---
 httpolice/inputs/har.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httpolice/inputs/har.py b/httpolice/inputs/har.py
index 9cc9e04..66bf614 100644
--- a/httpolice/inputs/har.py
+++ b/httpolice/inputs/har.py
@@ -91,7 +91,7 @@ def _process_request(data, creator, path):
     req = Request(scheme, method, target, version, header_entries, body,
                   remark=u'from %s' % path)
     if text is not None:
-        req.unicode_body = text
+        req.unicode_body = _check_text(text)
     req.is_to_proxy = None                      # See above.
     return req
 
@@ -144,11 +144,17 @@ def _process_response(data, req, creator, path):
                     resp.decoded_body = decoded_body
 
         elif 'encoding' not in data['content']:
-            resp.unicode_body = data['content']['text']
+            resp.unicode_body = _check_text(data['content']['text'])
 
     return resp
 
 
+def _check_text(text):
+    if not isinstance(text, str):
+        raise TypeError(u'text of a body must be a string')
+    return text
+
+
 def _process_message(data, creator):
     header_entries = [(FieldName(d['name']), d['value'])
                       for d in data['headers']]
-- 
2.43.0


From bedb207e7ae128096906f0947ec479e717d069b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 21/22] fix: report out-of-range timestamps in tcpflow
 filenames as bad input

They crashed the command with ValueError or OverflowError.
---
 httpolice/inputs/streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 6ee15d6..906e005 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -80,13 +80,18 @@ def tcpflow_input(dir_paths):
                                  u'(did you use the right -T option?)' % name)
             (timestamp, src, dest) = match.groups()
             timestamp = int(timestamp)
+            try:
+                time_hint = datetime.utcfromtimestamp(timestamp)
+            except (ValueError, OverflowError, OSError) as exc:
+                raise InputError(u'bad timestamp in tcpflow filename %s' %
+                                 name) from exc
             if (src, dest) in seen:
                 raise InputError(u'duplicate source+destination address+port: '
                                  u'%s vs. %s' % (path, seen[(src, dest)]))
             seen[(src, dest)] = path
             streams_info.append(_StreamInfo(
                 path, source=src, destination=dest, connection_hint=None,
-                time_hint=datetime.utcfromtimestamp(timestamp),
+                time_hint=time_hint,
                 sort_hint=timestamp))
         path_pairs.extend(_recombine_streams(streams_info))
 
-- 
2.43.0


From f0d96acaa49dfc8c7ecb698a77d043f1bd7c38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 22/22] fix: report duplicate streams in tcpick directories as
 bad input

All but one of them were silently ignored.
---
 httpolice/inputs/streams.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httpolice/inputs/streams.py b/httpolice/inputs/streams.py
index 906e005..9e926e7 100644
--- a/httpolice/inputs/streams.py
+++ b/httpolice/inputs/streams.py
@@ -38,6 +38,7 @@ def tcpick_input(dir_paths):
         # tcpick's ``-F2`` option.
         dir_path = decode_path(dir_path)
         streams_info = []
+        seen = {}
         for name in os.listdir(dir_path):
             path = os.path.join(dir_path, name)
             match = re.match(
@@ -49,6 +50,10 @@ def tcpick_input(dir_paths):
             counter = int(counter)
             if direction == 'serv':
                 (src, dest) = (dest, src)
+            if (counter, src, dest) in seen:
+                raise InputError(u'duplicate tcpick stream: %s vs. %s' %
+                                 (path, seen[(counter, src, dest)]))
+            seen[(counter, src, dest)] = path
             streams_info.append(_StreamInfo(path, source=src, destination=dest,
                                             connection_hint=counter,
                                             time_hint=None, sort_hint=counter))
-- 
2.43.0

