From fb09cdf65248afd24419ba6ed40eb2286c0c7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 01/72] fix: don't raise on URLs that urlsplit rejects in Link,
 NEL, Reporting-Endpoints, Speculation-Rules

---
 httplint/field/parsers/link.py                |  5 ++++-
 httplint/field/parsers/nel.py                 |  7 +++++--
 httplint/field/parsers/reporting_endpoints.py | 13 +++++++++++--
 httplint/field/parsers/speculation_rules.py   | 12 ++++++++++--
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 97d4653..85d496e 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -58,7 +58,10 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             for token in rel.lower().split():
                 if token not in hints:
                     continue
-                scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                try:
+                    scheme = urlsplit(urljoin(base_uri, link_value)).scheme.lower()
+                except ValueError:  # not parseable as a URL
+                    continue
                 if scheme and scheme not in ("http", "https"):
                     bad_targets.append((token, link_value, scheme))
                 else:
diff --git a/httplint/field/parsers/nel.py b/httplint/field/parsers/nel.py
index f62c1a9..9745681 100644
--- a/httplint/field/parsers/nel.py
+++ b/httplint/field/parsers/nel.py
@@ -19,8 +19,11 @@ def _valid_reporting_endpoints(field_value: Any, base_uri: str) -> Set[str]:
         url = item[0]
         if not isinstance(url, str):
             continue
-        target = urljoin(base_uri, url)
-        scheme = urlsplit(target).scheme.lower()
+        try:
+            target = urljoin(base_uri, url)
+            scheme = urlsplit(target).scheme.lower()
+        except ValueError:  # not parseable as a URL
+            continue
         if scheme and scheme not in ("https", "wss"):
             continue
         valid.add(name)
diff --git a/httplint/field/parsers/reporting_endpoints.py b/httplint/field/parsers/reporting_endpoints.py
index 26d4494..b225ce2 100644
--- a/httplint/field/parsers/reporting_endpoints.py
+++ b/httplint/field/parsers/reporting_endpoints.py
@@ -35,8 +35,17 @@ API."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not parseable as a URL
+                add_note(
+                    BAD_REPORTING_ENDPOINT_SYNTAX,
+                    name=name,
+                    value=url,
+                    found_type=type(url).__name__,
+                )
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(ENDPOINT_NOT_SECURE, name=name, url=url)
 
diff --git a/httplint/field/parsers/speculation_rules.py b/httplint/field/parsers/speculation_rules.py
index 63e990c..651409a 100644
--- a/httplint/field/parsers/speculation_rules.py
+++ b/httplint/field/parsers/speculation_rules.py
@@ -35,8 +35,16 @@ point to speculation rules files."""
                 )
                 continue
 
-            target = urljoin(self.message.base_uri, url)
-            parsed = urlsplit(target)
+            try:
+                target = urljoin(self.message.base_uri, url)
+                parsed = urlsplit(target)
+            except ValueError:  # not parseable as a URL
+                add_note(
+                    SPECULATION_RULES_BAD_TYPE,
+                    value=url,
+                    found_type=type(url).__name__,
+                )
+                continue
             if parsed.scheme and parsed.scheme.lower() not in ["https", "wss"]:
                 add_note(SPECULATION_RULE_NOT_SECURE, url=url)
 
-- 
2.43.0


From f0adc024c6682dad8aa780b2217780e3a8a3669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 02/72] fix: make the CONTENT_NOT_ALLOWED note renderable

---
 httplint/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 140a2d1..3e0562a 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -145,7 +145,9 @@ class HttpMessageLinter:
                     )
         else:
             if self.content_length and not self.no_content:
-                self.notes.add("message", CONTENT_NOT_ALLOWED)
+                self.notes.add(
+                    "message", CONTENT_NOT_ALLOWED, message=translate(self.message_type)
+                )
         self.post_checks()
 
         for section in [self.headers, self.trailers]:
@@ -338,7 +340,7 @@ class CONTENT_NOT_ALLOWED(Note):
     category = categories.GENERAL
     level = levels.BAD
     _summary = "%(message)s can not have content."
-    _note = """\
+    _text = """\
 HTTP does not allow this message to have content; including it can cause security and
 interoperability issues.
 """
-- 
2.43.0


From 2755d0f1347f4f578feba790e30d2a7dce6ffd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 03/72] fix: don't raise when Age is invalid and both message
 times are known

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 1b3adfb..ca5831d 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -129,7 +129,7 @@ class ResponseCacheChecker:
 
         if self.request_time and self.response_time:
             response_delay = self.response_time - self.request_time
-            corrected_age_value = self.age_value + response_delay
+            corrected_age_value = (self.age_value or 0) + response_delay
         elif self.age_value is not None:
             corrected_age_value = self.age_value
         else:
-- 
2.43.0


From 28167a67823cf2783c581b4ed7fc80669e907d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 04/72] fix: treat any UnicodeError as undecodable content when
 checking the charset

---
 httplint/charset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 2f3916d..123f948 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -84,7 +84,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
     try:
         sample.decode(effective_charset_raw, errors="strict")
         decodes = True
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         decodes = False
 
     detection = chardet.detect(sample)
@@ -134,7 +134,7 @@ def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     try:
         declared_text = sample.decode(declared, errors="strict")
         detected_text = sample.decode(detected, errors="strict")
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return False
     return declared_text == detected_text
 
-- 
2.43.0


From bc60dde5e3dcf4677398760ba90e2005689d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 05/72] fix: report JSON fields with over-long integers or deep
 nesting as invalid JSON

---
 httplint/field/json_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/json_field.py b/httplint/field/json_field.py
index 6408a8a..c72beeb 100644
--- a/httplint/field/json_field.py
+++ b/httplint/field/json_field.py
@@ -25,7 +25,7 @@ class JsonField(HttpField[TMessage], Generic[TMessage]):
         combined_value = f"[{', '.join(self.value)}]"
         try:
             self.value = json.loads(combined_value)
-        except json.JSONDecodeError as why:
+        except (ValueError, RecursionError) as why:
             add_note(BAD_JSON, error=str(why), category=self.category)
             self.value = None
 
-- 
2.43.0


From b1389981bf16b65c37b126c80efeefab92f59af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 06/72] fix: keep field line offsets in step when a line fails
 its pre-check

---
 httplint/field/section.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/httplint/field/section.py b/httplint/field/section.py
index ce27bea..432c19c 100644
--- a/httplint/field/section.py
+++ b/httplint/field/section.py
@@ -39,9 +39,8 @@ class FieldSection:
             - calculate the total section size
             - call msg.add_note as appropriate
         """
-        offset = 0  # what number field we're on
-
-        for name, value in raw_fields:
+        # offset is what number field we're on
+        for offset, (name, value) in enumerate(raw_fields):
             add_note = partial(self.message.notes.add, f"offset-{offset}")
 
             # track size
@@ -76,7 +75,6 @@ class FieldSection:
                     field_name=handler.canonical_name,
                     field_size=f_num(field_size),
                 )
-            offset += 1
 
         if self.size > self.max_total_size:
             self.message.notes.add(
-- 
2.43.0


From 8c6c6e27858f72bd4f5c80dc104a2e7aca4dd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 07/72] fix: ignore whitespace around a field name when finding
 its handler

---
 httplint/field/finder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index a27255f..2851e9d 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -36,6 +36,7 @@ class HttpFieldFinder:
         If a handler has already been instantiated for field_name, return it;
         otherwise, instantiate and return a new one.
         """
+        field_name = field_name.strip()  # as the handler does for its wire_name
         norm_name = field_name.lower()
         if self.field_section and norm_name in self.field_section.handlers:
             return cast(HttpField[Any], self.field_section.handlers[norm_name])
-- 
2.43.0


From 752f68b703305db59c759b87e492fa71630b8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 08/72] fix: render relative times that are longer than a
 timedelta can hold

---
 httplint/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/util.py b/httplint/util.py
index 4365a44..4302081 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -78,7 +78,10 @@ class RelativeTime:
 
     def __str__(self) -> str:
         delta_secs = self.utime - self.now
-        delta = timedelta(seconds=delta_secs)
+        try:
+            delta = timedelta(seconds=delta_secs)
+        except OverflowError:  # longer than a timedelta can hold
+            delta = timedelta.max if delta_secs > 0 else timedelta.min
         if self.show_sign == 1:
             output = format_timedelta(delta, add_direction=True, threshold=1.2)
         else:
-- 
2.43.0


From 700d6ddee56eec3f48b995d9f229e58ff927d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 09/72] fix: cap delta-seconds in cache calculations, so that
 huge values don't overflow

---
 httplint/cache.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index ca5831d..740636f 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -8,6 +8,7 @@ from httplint.util import relative_time
 ### configuration
 CACHEABLE_METHODS = ["GET", "HEAD"]
 HEURISTIC_CACHEABLE_STATUS = [200, 203, 206, 300, 301, 410]
+MAX_DELTA_SECONDS = 2**31  # what larger values are considered to be, per RFC 9111 Section 1.2.2
 
 
 class ResponseCacheChecker:
@@ -129,9 +130,9 @@ class ResponseCacheChecker:
 
         if self.request_time and self.response_time:
             response_delay = self.response_time - self.request_time
-            corrected_age_value = (self.age_value or 0) + response_delay
+            corrected_age_value = min(self.age_value or 0, MAX_DELTA_SECONDS) + response_delay
         elif self.age_value is not None:
-            corrected_age_value = self.age_value
+            corrected_age_value = min(self.age_value, MAX_DELTA_SECONDS)
         else:
             corrected_age_value = 0
 
@@ -159,12 +160,13 @@ class ResponseCacheChecker:
             self.freshness_lifetime_private = expires_lifetime
             self.freshness_lifetime_shared = expires_lifetime
         if "max-age" in self.cc_dict:
-            self.freshness_lifetime_private = self.cc_dict["max-age"]
-            self.freshness_lifetime_shared = self.cc_dict["max-age"]
+            max_age = min(self.cc_dict["max-age"], MAX_DELTA_SECONDS)
+            self.freshness_lifetime_private = max_age
+            self.freshness_lifetime_shared = max_age
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
         if "s-maxage" in self.cc_dict:
-            self.freshness_lifetime_shared = self.cc_dict["s-maxage"]
+            self.freshness_lifetime_shared = min(self.cc_dict["s-maxage"], MAX_DELTA_SECONDS)
             freshness_hdrs.append("field-cache-control")
             self.has_explicit_freshness = True
 
-- 
2.43.0


From d5f1b867644bc838bbc134d3e58f054c11b2dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 10/72] fix: keep wire data in note details from being
 interpreted as Markdown or HTML

---
 httplint/field/parsers/cache_status.py             |  9 +++++----
 .../parsers/content_security_policy_report_only.py |  5 ++++-
 .../cross_origin_embedder_policy_report_only.py    |  6 ++++--
 .../cross_origin_opener_policy_report_only.py      |  6 ++++--
 httplint/field/parsers/proxy_status.py             |  9 +++++----
 httplint/field/structured_field.py                 |  7 +++++--
 httplint/field/utils.py                            | 13 +++++++------
 httplint/note.py                                   | 14 +++++++++++---
 httplint/util.py                                   |  7 +++++++
 9 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/httplint/field/parsers/cache_status.py b/httplint/field/parsers/cache_status.py
index c7e012c..49b251b 100644
--- a/httplint/field/parsers/cache_status.py
+++ b/httplint/field/parsers/cache_status.py
@@ -6,13 +6,14 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
     ResponseLinterProtocol,
     SFListType,
 )
+from httplint.util import code_text
 
 
 class cache_status(StructuredField[ResponseLinterProtocol]):
@@ -41,10 +42,10 @@ debugging caches."""
                 CACHE_STATUS_UNKNOWN_PARAM,
                 CACHE_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{code_text(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(CACHE_STATUS, status="\n\n".join(status_list))
+            add_note(CACHE_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -88,7 +89,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
         "desc": "The request was collapsed with another request.",
     },
     "key": {"type": str, "desc": "The cache key was `%s`."},
-    "detail": {"type": (Token, str), "desc": "Additional details: %s"},
+    "detail": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/parsers/content_security_policy_report_only.py b/httplint/field/parsers/content_security_policy_report_only.py
index a602c00..d75ad1f 100644
--- a/httplint/field/parsers/content_security_policy_report_only.py
+++ b/httplint/field/parsers/content_security_policy_report_only.py
@@ -3,6 +3,7 @@ from httplint.field.parsers.content_security_policy import (
     CSP_UNSAFE_INLINE,
     content_security_policy,
 )
+from httplint.note import MarkdownSafe
 from httplint.field.tests import FieldTest
 from httplint.types import (
     NoteClassListType,
@@ -18,7 +19,9 @@ the effects of a content security policy without enforcing it."""
     reference = "https://www.w3.org/TR/CSP3/"
     deprecated = False
     report_only_string = " for reporting only"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
 
 class CSPROTest(FieldTest[ResponseLinterProtocol]):
diff --git a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
index 4663091..204dfd2 100644
--- a/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_embedder_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_embedder_policy import (
     cross_origin_embedder_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Embedder-Policy-Report-Only` header field allows a document to
 potential violations of its Cross-Origin Embedder Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coep"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-embedder-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/cross_origin_opener_policy_report_only.py b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
index 5d09190..32c4908 100644
--- a/httplint/field/parsers/cross_origin_opener_policy_report_only.py
+++ b/httplint/field/parsers/cross_origin_opener_policy_report_only.py
@@ -8,7 +8,7 @@ from httplint.field.parsers.cross_origin_opener_policy import (
     cross_origin_opener_policy,
 )
 from httplint.field.tests import FieldTest
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
@@ -23,7 +23,9 @@ The `Cross-Origin-Opener-Policy-Report-Only` header field allows a document to r
 potential violations of its Cross-Origin Opener Policy without enforcing them."""
     reference = "https://html.spec.whatwg.org/multipage/origin.html#coop"
     report_only_string = " (for reporting only)"
-    report_only_text = "\n\nBrowsers will only report violations of this policy, not enforce it."
+    report_only_text = MarkdownSafe(
+        "\n\nBrowsers will only report violations of this policy, not enforce it."
+    )
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
         if "cross-origin-opener-policy" in self.message.headers.handlers:
diff --git a/httplint/field/parsers/proxy_status.py b/httplint/field/parsers/proxy_status.py
index 28e4eb2..872bf16 100644
--- a/httplint/field/parsers/proxy_status.py
+++ b/httplint/field/parsers/proxy_status.py
@@ -6,13 +6,14 @@ from http_sf import Token
 from httplint.field.structured_field import StructuredField
 from httplint.field.tests import FieldTest
 from httplint.field.utils import check_sf_params
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
     NoteClassListType,
     ResponseLinterProtocol,
     SFListType,
 )
+from httplint.util import code_text
 
 
 class proxy_status(StructuredField[ResponseLinterProtocol]):
@@ -39,10 +40,10 @@ The `Proxy-Status` header field indicates how intermediaries have handled the re
                 PROXY_STATUS_UNKNOWN_PARAM,
                 PROXY_STATUS_BAD_PARAM_VAL,
             )
-            status_list.append(f"**{target_str}**:\n{param_str}")
+            status_list.append(f"**`{code_text(target_str)}`**:\n{param_str}")
 
         if status_list:
-            add_note(PROXY_STATUS, status="\n\n".join(status_list))
+            add_note(PROXY_STATUS, status=MarkdownSafe("\n\n".join(status_list)))
 
 
 KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
@@ -106,7 +107,7 @@ KNOWN_PARAMS: Dict[str, Dict[str, Any]] = {
     "next-hop": {"type": (Token, str), "desc": "The next hop was `%s`."},
     "next-protocol": {"type": Token, "desc": "The next protocol was `%s`."},
     "received-status": {"type": int, "desc": "The received status code was %s."},
-    "details": {"type": (Token, str), "desc": "Additional details: %s"},
+    "details": {"type": (Token, str), "desc": "Additional details: `%s`"},
 }
 
 
diff --git a/httplint/field/structured_field.py b/httplint/field/structured_field.py
index 59eac3f..efee2ac 100644
--- a/httplint/field/structured_field.py
+++ b/httplint/field/structured_field.py
@@ -4,8 +4,9 @@ from typing import Generic
 import http_sf
 
 from httplint.field import HttpField
-from httplint.note import Note, categories, levels
+from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import AddNoteMethodType, TMessage
+from httplint.util import code_text
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
 CONTEXT_CHARS = 35
@@ -55,7 +56,9 @@ class StructuredField(HttpField[TMessage], Generic[TMessage]):
                 context_end = min(len(combined_value), bad_char_index + CONTEXT_CHARS)
                 context_str = combined_value[context_start:context_end]
                 pointer = " " * (bad_char_index - context_start) + "^"
-                context = f"\n\n    {context_str}\n    {pointer}"
+                context = MarkdownSafe(
+                    f"\n\n    {code_text(context_str)}\n    {pointer}"
+                )
             add_note(
                 STRUCTURED_FIELD_PARSE_ERROR,
                 problem=problem,
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 2098d58..960cf70 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -9,6 +9,7 @@ from http_sf import Token
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
+from httplint.util import code_text
 
 RE_FLAGS = re.VERBOSE | re.IGNORECASE
 
@@ -241,7 +242,7 @@ def check_sf_params(
     for param_name, param_value in params.items():
         if param_name not in known_params:
             add_note(unknown_param_note, param=param_name)
-            param_list.append(f"* `{param_name}`: `{param_value}`")
+            param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
         else:
             expected_type = known_params[param_name].get("type")
             if expected_type and not isinstance(param_value, expected_type):
@@ -250,7 +251,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
                 continue
 
             allowed_values = known_params[param_name].get("values")
@@ -260,7 +261,7 @@ def check_sf_params(
                     param=param_name,
                     value=param_value,
                 )
-                param_list.append(f"* `{param_name}`: `{param_value}`")
+                param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
                 continue
 
             if "value_desc" in known_params[param_name]:
@@ -268,17 +269,17 @@ def check_sf_params(
                 if desc:
                     param_list.append(f"* {desc}")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
                 else:
-                    param_list.append(f"* {known_params[param_name]['desc'] % param_value}")
+                    param_list.append(f"* {known_params[param_name]['desc'] % code_text(param_value)}")
             else:
                 if param_value is True:
                     param_list.append(f"* `{param_name}`")
                 else:
-                    param_list.append(f"* `{param_name}`: `{param_value}`")
+                    param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
 
     return "\n".join(param_list)
 
diff --git a/httplint/note.py b/httplint/note.py
index f73b1b6..9b16871 100644
--- a/httplint/note.py
+++ b/httplint/note.py
@@ -1,12 +1,13 @@
 from __future__ import annotations
 
+import re
 from collections import UserList
 from enum import Enum
 from threading import local
 from typing import Any, Dict, MutableMapping, Optional, Type
 
 from markdown import Markdown
-from markupsafe import Markup
+from markupsafe import Markup, escape
 
 from httplint.i18n import L_, translate
 from httplint.types import NoteListType, VariableType
@@ -149,14 +150,21 @@ class Note:
         (e.g. a joined list of code spans) should be wrapped in
         MarkdownSafe to opt out of this stripping.
         """
+        escaped: Dict[str, str] = {}
+
         def _coerce(val: Any) -> str:
             if isinstance(val, MarkdownSafe):
                 return str(val)
-            return str(val).replace("`", "")
+            # Keep the value away from the Markdown renderer, wherever the
+            # (possibly translated) template puts it.
+            placeholder = f"\ue000{len(escaped)}\ue001"
+            escaped[placeholder] = str(escape(str(val).replace("`", "")))
+            return placeholder
 
         safe_vars = {k: _coerce(v) for k, v in self.vars.items()}
+        html = _get_markdown().reset().convert(translate(self._text) % safe_vars)
         return Markup(
-            _get_markdown().reset().convert(translate(self._text) % safe_vars)
+            re.sub("\ue000[0-9]+\ue001", lambda m: escaped.get(m.group(), m.group()), html)
         )
 
     summary = property(_get_summary)
diff --git a/httplint/util.py b/httplint/util.py
index 4302081..ddcd34c 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -58,6 +58,13 @@ def display_bytes(inbytes: bytes, encoding: str = "utf-8", truncate: int = 40) -
     return "".join(out)
 
 
+def code_text(value: Any) -> str:
+    """
+    Format a value so that it can't break out of a Markdown code span.
+    """
+    return " ".join(str(value).replace("`", "").splitlines()) or " "
+
+
 def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
     """
     Format a list of strings into Markdown.
-- 
2.43.0


From e81b7f7a39c2efa50b0c0e7fae949b89a33ff8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 11/72] fix: keep line breaks and empty names from breaking out
 of code spans in Link and Set-Cookie notes

---
 httplint/field/parsers/link.py       | 3 ++-
 httplint/field/parsers/set_cookie.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/link.py b/httplint/field/parsers/link.py
index 85d496e..7d05d4a 100644
--- a/httplint/field/parsers/link.py
+++ b/httplint/field/parsers/link.py
@@ -14,6 +14,7 @@ from httplint.types import (
     NoteClassListType,
     ParamDictType,
 )
+from httplint.util import code_text
 
 
 class link(HttpListField[AnyMessageLinterProtocol]):
@@ -75,7 +76,7 @@ statement of the form "[context IRI] has a [relation type] resource at [target I
             hints_plain = ", ".join(present)
             lines = []
             for rel_name, targets in present.items():
-                safe = [t.replace("`", "") for t in targets]
+                safe = [code_text(t) for t in targets]
                 lines.append(f"- `{rel_name}`: {', '.join(f'`{t}`' for t in safe)}")
             add_note(
                 LINK_RESOURCE_HINTS,
diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 675b6cf..90edcea 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -13,7 +13,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
-from httplint.util import relative_time
+from httplint.util import code_text, relative_time
 
 CookieType = Tuple[str, str, List[Tuple[str, Union[str, int]]]]
 
@@ -61,7 +61,7 @@ requests to the server."""
             add_note(
                 SET_COOKIE_HARDENED,
                 cookie_names=MarkdownSafe(
-                    ", ".join(f"`{n.replace('`', '')}`" for n in hardened)
+                    ", ".join(f"`{code_text(n)}`" for n in hardened)
                 ),
             )
 
-- 
2.43.0


From fa90f030ba005b1c5d6ed566ad6b560c4c80d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 12/72] fix: include all of ctext's characters in RFC5322
 comments

---
 httplint/syntax/rfc5322.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 24c6111..eec8027 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -23,7 +23,7 @@ qcontent = rf"(?: {qtext} | {quoted_pair} )"
 #                     %d93-126 /         ;  "(", ")", or "\"
 #                     obs-ctext
 
-ctext = r"[\x21-\x27\x2a-\x5b\x5d\x7e]"
+ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-- 
2.43.0


From 259b3af71fa23d541254d495a8bd65902282dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 13/72] fix: avoid exponential backtracking when matching From

---
 httplint/syntax/rfc5322.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index eec8027..3d066c8 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -27,7 +27,7 @@ ctext = r"[\x21-\x27\x2a-\x5b\x5d-\x7e]"
 
 # ccontent        =   ctext / quoted-pair / comment
 
-ccontent = rf"(?: {ctext} | {quoted_pair} |)"
+ccontent = rf"(?: {ctext} | {quoted_pair} )"
 
 # FWS             =   ([*WSP CRLF] 1*WSP) /  obs-FWS
 
@@ -39,7 +39,7 @@ comment = rf"(?: \( (?: {FWS}? {ccontent} )* {FWS}? \) )"
 
 # CFWS            =   (1*([FWS] comment) [FWS]) / FWS
 
-CFWS = rf"(?: (?: {FWS}? {comment} {FWS}? ){{1,}} | {FWS} )"
+CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 
 # quoted-string   =  [CFWS]
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
@@ -71,7 +71,10 @@ word = rf"(?: {atom} | {quoted_string} )"
 
 # phrase          =   1*word / obs-phrase
 
-phrase = rf"(?: {word}{{1,}} | obs_phrase )"
+# NOTE: written so that there is only one way to match any given phrase; a literal
+# translation of 1*word takes exponential time to reject a long one.
+
+phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) {CFWS}? ){{1,}} )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From 2d3fa4d16e3b71d294c1988a39444092b6ee52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 14/72] fix: allow whitespace at the end of a quoted-string in
 From

---
 httplint/syntax/rfc5322.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc5322.py b/httplint/syntax/rfc5322.py
index 3d066c8..69a03d8 100644
--- a/httplint/syntax/rfc5322.py
+++ b/httplint/syntax/rfc5322.py
@@ -45,7 +45,7 @@ CFWS = rf"(?: (?: {FWS}? {comment} ){{1,}} {FWS}? | {FWS} )"
 #                    DQUOTE *([FWS] qcontent) [FWS] DQUOTE
 #                    [CFWS]
 
-quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* \" {CFWS}? )"
+quoted_string = rf"(?: {CFWS}? \" (?: {FWS}? {qcontent} )* {FWS}? \" {CFWS}? )"
 
 # atext           =   ALPHA / DIGIT /    ; Printable US-ASCII
 #                    "!" / "#" /        ;  characters not including
@@ -74,7 +74,7 @@ word = rf"(?: {atom} | {quoted_string} )"
 # NOTE: written so that there is only one way to match any given phrase; a literal
 # translation of 1*word takes exponential time to reject a long one.
 
-phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* \" ) {CFWS}? ){{1,}} )"
+phrase = rf"(?: {CFWS}? (?: (?: {atext} | \" (?: {FWS}? {qcontent} )* {FWS}? \" ) {CFWS}? ){{1,}} )"
 
 # display-name    =   phrase
 
-- 
2.43.0


From 9c26a3bdb14922b4b83f51763859f8cc353cc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 15/72] fix: process all available gzip output when it fills a
 whole chunk

---
 httplint/content_encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/content_encoding.py b/httplint/content_encoding.py
index d36eed9..37b14d1 100644
--- a/httplint/content_encoding.py
+++ b/httplint/content_encoding.py
@@ -123,7 +123,8 @@ class GzipProcessor:
                     return
                 self.next_processor(decompressed)
 
-            while self._gzip_processor.unconsumed_tail:
+            # the processor can hold back output even when all input is consumed
+            while self._gzip_processor.unconsumed_tail or len(decompressed) == max_chunk_size:
                 tail = self._gzip_processor.unconsumed_tail
                 decompressed = self._gzip_processor.decompress(tail, max_chunk_size)
                 if decompressed:
-- 
2.43.0


From 44a8080c65a996a6f3fbf89092d9c201cc4a5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 16/72] fix: make the storability flags agree with the notes
 when only shared caches, or no caches, can store

---
 httplint/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/cache.py b/httplint/cache.py
index 740636f..6b214a0 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -115,8 +115,10 @@ class ResponseCacheChecker:
             ):
                 self.notes.add("field-cache-control", STORE_STORABLE)
             elif "s-maxage" in self.cc_dict:
+                self.store_private = False
                 self.notes.add("field-cache-control", STORE_STORABLE_SHARED_ONLY)
             else:
+                self.store_shared = self.store_private = False
                 self.notes.add("field-cache-control", STORE_UNSTORABLE)
                 return False
 
-- 
2.43.0


From 52e44b19c5ef70bb0f642890e5b0b362b452a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 17/72] fix: count an Expires date of exactly the epoch as
 valid when judging storability

---
 httplint/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/cache.py b/httplint/cache.py
index 6b214a0..ea8c8f5 100644
--- a/httplint/cache.py
+++ b/httplint/cache.py
@@ -109,7 +109,7 @@ class ResponseCacheChecker:
             if (
                 "public" in self.cc_dict
                 or "private" in self.cc_dict
-                or self.expires_value
+                or self.expires_value is not None
                 or "max-age" in self.cc_dict
                 or self._response.status_code in HEURISTIC_CACHEABLE_STATUS
             ):
-- 
2.43.0


From 056b74ab4cd38387d7cba1d25d74abddf96af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 18/72] fix: read the integers in Age, Content-Length, Range
 and Content-Range strictly

---
 httplint/field/parsers/age.py            |  5 +++--
 httplint/field/parsers/content_length.py |  3 ++-
 httplint/field/parsers/content_range.py  | 23 +++++++++++++----------
 httplint/field/parsers/range.py          | 15 +++++++++------
 httplint/field/utils.py                  |  7 +++++++
 5 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/httplint/field/parsers/age.py b/httplint/field/parsers/age.py
index dfbe618..c7ac67c 100644
--- a/httplint/field/parsers/age.py
+++ b/httplint/field/parsers/age.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9111
 from httplint.types import (
@@ -22,11 +23,11 @@ The `Age` response header conveys the sender's estimate of the amount of time si
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            age_value = int(field_value)
+            age_value = parse_digits(field_value.removeprefix("-"))
         except ValueError:
             add_note(AGE_NOT_INT)
             raise
-        if age_value < 0:
+        if age_value and field_value.startswith("-"):
             add_note(AGE_NEGATIVE)
             raise ValueError
         if age_value > 2147483648:
diff --git a/httplint/field/parsers/content_length.py b/httplint/field/parsers/content_length.py
index 2f95d29..d31bd0c 100644
--- a/httplint/field/parsers/content_length.py
+++ b/httplint/field/parsers/content_length.py
@@ -1,5 +1,6 @@
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -26,7 +27,7 @@ store the response (since they can't be sure if they have the whole response).""
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         try:
-            value = int(field_value)
+            value = parse_digits(field_value)
         except ValueError:
             add_note(CL_BAD_SYNTAX)
             raise
diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index e8f7044..8710d33 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -6,6 +6,7 @@ from typing import (
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -92,10 +93,11 @@ in `416` (Requested Range Not Satisfiable) responses."""
         if len_str == "*":
             add_note(CONTENT_RANGE_UNKNOWN_LENGTH)
             return None
-        if not len_str.isdigit():
+        try:
+            return parse_digits(len_str)
+        except ValueError:
             add_note(RANGE_INVALID_INTEGER, value=len_str)
             return None
-        return int(len_str)
 
     def _parse_range_spec(
         self, rng: str, add_note: AddNoteMethodType
@@ -108,14 +110,15 @@ in `416` (Requested Range Not Satisfiable) responses."""
             return None, None
 
         first_str, last_str = rng.split("-", 1)
-        if not first_str.isdigit():
-            add_note(RANGE_INVALID_INTEGER, value=first_str)
-            return None, None
-        if not last_str.isdigit():
-            add_note(RANGE_INVALID_INTEGER, value=last_str)
-            return None, None
-
-        return int(first_str), int(last_str)
+        positions = []
+        for value in (first_str, last_str):
+            try:
+                positions.append(parse_digits(value))
+            except ValueError:
+                add_note(RANGE_INVALID_INTEGER, value=value)
+                return None, None
+
+        return positions[0], positions[1]
 
 
 class CONTENT_RANGE_MEANINGLESS(Note):
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ab3f8cb..ecbdbd0 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -3,6 +3,7 @@ from typing import List, Optional, Tuple
 
 from httplint.field.singleton_field import SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import AddNoteMethodType, NoteClassListType, RequestLinterProtocol
@@ -52,24 +53,26 @@ parts of the representation that are specified."""
             last_byte_pos: Optional[int] = None
 
             if first_str:
-                if not first_str.isdigit():
+                try:
+                    first_byte_pos = parse_digits(first_str)
+                except ValueError:
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
                         problem="the first position in the range must be an integer",
                     )
-                    raise ValueError
-                first_byte_pos = int(first_str)
+                    raise
 
             if last_str:
-                if not last_str.isdigit():
+                try:
+                    last_byte_pos = parse_digits(last_str)
+                except ValueError:
                     add_note(
                         RANGE_BAD_SYNTAX,
                         ref_uri=self.reference,
                         problem="the last position in the range must be an integer",
                     )
-                    raise ValueError
-                last_byte_pos = int(last_str)
+                    raise
 
             if first_byte_pos is None and last_byte_pos is None:
                 add_note(
diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 960cf70..0491918 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -127,6 +127,13 @@ def parse_http_date(
     return calendar.timegm(date_tuple)
 
 
+def parse_digits(value: str) -> int:
+    """Parse 1*DIGIT. Raises ValueError if it's anything else."""
+    if not (value.isascii() and value.isdigit()):
+        raise ValueError
+    return int(value)
+
+
 def unquote_string(instr: str) -> str:
     """
     Unquote a unicode string; does NOT unquote control characters.
-- 
2.43.0


From 383e5e69e5af96807ce5542d802439f8d8bd9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 19/72] fix: accept a quoted max-age in
 Strict-Transport-Security, and only decimal digits

---
 httplint/field/parsers/strict_transport_security.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 30ce922..2494500 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -2,6 +2,7 @@ from typing import Any
 
 from httplint.field.singleton_field import SINGLE_HEADER_REPEAT, SingletonField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits, unquote_string
 from httplint.note import Note, categories, levels
 from httplint.syntax import rfc9110
 from httplint.types import (
@@ -55,7 +56,7 @@ browsers that it should only be communicated with using HTTPS, instead of using
             if name == "max-age":
                 try:
                     if value is not None:
-                        parsed["max-age"] = int(value)
+                        parsed["max-age"] = parse_digits(unquote_string(value))
                     else:
                         raise ValueError
                 except (ValueError, TypeError):
-- 
2.43.0


From 021b2225f17637f2e4fc88f058e711c4d501f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 20/72] fix: note a Content-Range with neither unit nor slash,
 and a Range without a unit

---
 httplint/field/parsers/content_range.py | 2 ++
 httplint/field/parsers/range.py         | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/httplint/field/parsers/content_range.py b/httplint/field/parsers/content_range.py
index 8710d33..2d56c49 100644
--- a/httplint/field/parsers/content_range.py
+++ b/httplint/field/parsers/content_range.py
@@ -44,6 +44,8 @@ in `416` (Requested Range Not Satisfiable) responses."""
             # if we see a slash, it's likely the unit is missing
             if "/" in field_value:
                 add_note(CONTENT_RANGE_MISSING_UNIT)
+            else:
+                add_note(CONTENT_RANGE_MISSING_SLASH)
             raise
 
         try:
diff --git a/httplint/field/parsers/range.py b/httplint/field/parsers/range.py
index ecbdbd0..ec8c46c 100644
--- a/httplint/field/parsers/range.py
+++ b/httplint/field/parsers/range.py
@@ -37,6 +37,14 @@ parts of the representation that are specified."""
             )
             raise
 
+        if not unit:
+            add_note(
+                RANGE_BAD_SYNTAX,
+                ref_uri=self.reference,
+                problem="the range unit is missing",
+            )
+            raise ValueError
+
         ranges: List[Tuple[Optional[int], Optional[int]]] = []
         for rng in rest.split(","):
             rng = rng.strip()
-- 
2.43.0


From 53ee1c698154670ee1ca70dbedce133401730930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 21/72] fix: give a bare no-cache or private directive no
 value, rather than 'None'

---
 httplint/field/parsers/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 65ba95f..4210e2d 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -114,7 +114,7 @@ ignoring it there."""
             if value_func is None:
                 if directive_val is not None:
                     add_note(CC_SHOULD_NOT_HAVE_VALUE, directive=directive_name)
-            else:
+            elif value_func is int or directive_val is not None:
                 try:
                     val = value_func(directive_val)
                     if isinstance(val, int) and val > 2147483648:
-- 
2.43.0


From 724427418bbc469166490e02767f24d55b832386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 22/72] fix: don't treat empty HSTS directives as duplicates,
 or an empty value as a trailing semicolon

---
 httplint/field/parsers/strict_transport_security.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 2494500..7cd6e2b 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -38,12 +38,14 @@ browsers that it should only be communicated with using HTTPS, instead of using
             "preload": False,
         }
         directives = [d.strip() for d in field_value.split(";")]
-        if directives and directives[-1] == "":
+        if len(directives) > 1 and directives[-1] == "":
             directives.pop()
             self._deferred_notes.append((HSTS_TRAILING_SEMICOLON, {}))
 
         seen_directives = set()
         for directive in directives:
+            if not directive:
+                continue  # RFC6797 allows empty directives
             parts = directive.split("=", 1)
             name = parts[0].strip().lower()
             value = parts[1].strip() if len(parts) > 1 else None
-- 
2.43.0


From 4130328672e628844cd8b8890ff51359eac07423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 23/72] fix: HTTP dates are case-sensitive

---
 httplint/field/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 0491918..45ebb1d 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -110,10 +110,11 @@ def parse_http_date(
     value: str, add_note: AddNoteMethodType, category: Optional[categories] = None
 ) -> int:
     """Parse a HTTP date. Raises ValueError if it's bad."""
-    if not re.match(rf"^{rfc9110.HTTP_date}$", value, RE_FLAGS):
+    # HTTP-date is case sensitive (RFC 9110, Section 5.6.7).
+    if not re.match(rf"^{rfc9110.HTTP_date}$", value, re.VERBOSE):
         add_note(BAD_DATE_SYNTAX, category=category)
         raise ValueError
-    if re.match(rf"^{rfc9110.obs_date}$", value, RE_FLAGS):
+    if re.match(rf"^{rfc9110.obs_date}$", value, re.VERBOSE):
         add_note(DATE_OBSOLETE, category=category)
     date_tuple = lib_parsedate(value)
     if date_tuple is None:
-- 
2.43.0


From b41c83ef1423a0bae4a16620c97424b61d529da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:44 +0000
Subject: [PATCH 24/72] fix: reject impossible HTTP dates, and keep four-digit
 years below 100

---
 httplint/field/utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 45ebb1d..67cfbc3 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -1,4 +1,5 @@
 import calendar
+import datetime
 import re
 from email.utils import parsedate as lib_parsedate
 from typing import Any, Dict, List, Optional, Tuple, Type, Union
@@ -114,17 +115,22 @@ def parse_http_date(
     if not re.match(rf"^{rfc9110.HTTP_date}$", value, re.VERBOSE):
         add_note(BAD_DATE_SYNTAX, category=category)
         raise ValueError
+    date_tuple = lib_parsedate(value)
+    try:
+        if date_tuple is None:
+            raise ValueError
+        # lib_parsedate takes any year below 100 to be a two-digit one.
+        year = re.search(r"[0-9]{4}", value)
+        if year:
+            date_tuple = (int(year.group()),) + date_tuple[1:]
+        # Check that it's a real date and time; 60 is a leap second.
+        second = 59 if date_tuple[5] == 60 else date_tuple[5]
+        datetime.datetime(*date_tuple[:5], second)
+    except ValueError:
+        add_note(BAD_DATE_SYNTAX, category=category)
+        raise
     if re.match(rf"^{rfc9110.obs_date}$", value, re.VERBOSE):
         add_note(DATE_OBSOLETE, category=category)
-    date_tuple = lib_parsedate(value)
-    if date_tuple is None:
-        raise ValueError
-    # http://sourceforge.net/tracker/index.php?func=detail&aid=1194222&group_id=5470&atid=105470
-    if date_tuple[0] < 100:
-        if date_tuple[0] > 68:
-            date_tuple = (date_tuple[0] + 1900,) + date_tuple[1:]
-        else:
-            date_tuple = (date_tuple[0] + 2000,) + date_tuple[1:]
     return calendar.timegm(date_tuple)
 
 
-- 
2.43.0


From 04525c6f916cdebc392fb6c8042a7777aebf9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 25/72] fix: judge the clock for a Date at the epoch too

---
 httplint/field/parsers/date.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index c190eaa..0cd2f99 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -28,7 +28,11 @@ It is used by caches as input to expiration calculations, and to detect clock dr
         return parse_http_date(field_value, add_note, category=self.category)
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-        if self.message.message_type == "response" and self.message.start_time and self.value:
+        if (
+            self.message.message_type == "response"
+            and self.message.start_time is not None
+            and self.value is not None
+        ):
             age_value = self.message.headers.parsed.get("age", 0) or 0
             skew = self.value - int(self.message.start_time) + age_value
             if age_value > MAX_CLOCK_SKEW > (age_value - skew):
-- 
2.43.0


From 86f57eb1800f8f6a98522575b3b9497842d979f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 26/72] fix: consider Age when judging Date's clock, whatever
 their order

---
 httplint/field/parsers/date.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/date.py b/httplint/field/parsers/date.py
index 0cd2f99..aad4183 100644
--- a/httplint/field/parsers/date.py
+++ b/httplint/field/parsers/date.py
@@ -27,7 +27,7 @@ It is used by caches as input to expiration calculations, and to detect clock dr
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> int:
         return parse_http_date(field_value, add_note, category=self.category)
 
-    def evaluate(self, add_note: AddNoteMethodType) -> None:
+    def post_check(self, add_note: AddNoteMethodType) -> None:
         if (
             self.message.message_type == "response"
             and self.message.start_time is not None
-- 
2.43.0


From f13db80cfa55eabc5e9dafee2639ed837db78786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:36 +0000
Subject: [PATCH 27/72] fix: status codes are decimal digits only

---
 httplint/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/message.py b/httplint/message.py
index 3e0562a..03492a4 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -13,6 +13,7 @@ from httplint.content_encoding import ContentEncodingProcessor
 from httplint.content_type import verify_content_type
 from httplint.field.cors import check_preflight_request, check_preflight_response
 from httplint.field.section import FieldSection
+from httplint.field.utils import parse_digits
 from httplint.i18n import L_, translate
 from httplint.note import Note, Notes, categories, levels
 from httplint.status import StatusChecker
@@ -289,7 +290,7 @@ class HttpResponseLinter(HttpMessageLinter):
         self.version = version.decode("ascii", "replace")
         self.status_code_str = status_code.decode("ascii", "replace")
         try:
-            self.status_code = int(self.status_code_str)
+            self.status_code = parse_digits(self.status_code_str)
         except ValueError:
             self.notes.add("status", STATUS_CODE_NON_NUMERIC)
         if status_phrase:
-- 
2.43.0


From fc54d4764bcf786e1bfddc16bbe6d9d16fb469b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 28/72] fix: compare the 100-continue expectation
 case-insensitively

---
 httplint/status.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index cf013b7..9a9ff6a 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -57,8 +57,10 @@ class StatusChecker:
         status_method()
 
     def status100(self) -> None:  # Continue
-        if self.request and not "100-continue" in get_header(self.request.headers.text, "expect"):
-            self.add_note("status", UNEXPECTED_CONTINUE)
+        if self.request:
+            expectations = [e.lower() for e in get_header(self.request.headers.text, "expect")]
+            if "100-continue" not in expectations:
+                self.add_note("status", UNEXPECTED_CONTINUE)
 
     def status101(self) -> None:  # Switching Protocols
         if self.request and not get_header(self.request.headers.text, "upgrade"):
@@ -241,7 +243,7 @@ class StatusChecker:
             if not expect_headers:
                 self.add_note("", STATUS_417_WITHOUT_EXPECT)
                 return
-            if "100-continue" in expect_headers:
+            if "100-continue" in [e.lower() for e in expect_headers]:
                 self.add_note("", STATUS_417_WITH_100_CONTINUE)
                 return
         self.add_note("", STATUS_EXPECTATION_FAILED)
-- 
2.43.0


From 10462bb5791d59e2f27283cd33e755b78a2e9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:51 +0000
Subject: [PATCH 29/72] fix: don't look for a 'request' method in Allow when
 the request isn't known

---
 httplint/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/status.py b/httplint/status.py
index 9a9ff6a..40181a5 100644
--- a/httplint/status.py
+++ b/httplint/status.py
@@ -171,12 +171,12 @@ class StatusChecker:
         self.add_note("", STATUS_NOT_FOUND)
 
     def status405(self) -> None:  # Method Not Allowed
-        method = self.request.method if self.request else "request"
+        method = self.request.method if self.request else None
         if method and "allow" in self.response.headers.parsed:
             if method in self.response.headers.parsed["allow"]:
                 self.add_note("field-allow", STATUS_405_METHOD_IN_ALLOW, method=method)
                 return
-        self.add_note("", STATUS_METHOD_NOT_ALLOWED, method=method)
+        self.add_note("", STATUS_METHOD_NOT_ALLOWED, method=method or "request")
 
     def status406(self) -> None:  # Not Acceptable
         if self.request:
-- 
2.43.0


From bbb14e1fcea707757dece445b56cf42d216f44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 30/72] fix: URI userinfo can be more than one character

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 5509735..bb6c92d 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -97,7 +97,7 @@ IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
 reg_name = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} )*"
 
 #   userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
-userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )"
+userinfo = rf"(?: {unreserved} | {pct_encoded} | {sub_delims} | : )*"
 
 #   host          = IP-literal / IPv4address / reg-name
 host = rf"(?: {IP_literal} | {IPv4address} | {reg_name} )"
-- 
2.43.0


From b139942b37a9292a64e4d8033d72ae979d965aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 31/72] fix: accept empty paths in URIs and relative references

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index bb6c92d..715bcd7 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -134,7 +134,7 @@ path_noscheme = rf"{segment_nz_nc} (?: / {segment} )*"
 path_rootless = rf"{segment_nz} (?: / {segment} )*"
 
 #   path-empty    = 0<pchar>
-path_empty = rf"{pchar}{0}"
+path_empty = rf"{pchar}{{0}}"
 
 #   path          = path-abempty    ; begins with "/" or is empty
 #                 / path-absolute   ; begins with "/" but not "//"
-- 
2.43.0


From 016298fbb5ab3906a4d74cf0197fa0d7847e768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 32/72] fix: accept every abbreviated form of an IPv6 address

---
 httplint/syntax/rfc3986.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 715bcd7..a83897f 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,13 +77,13 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                           {h16} :: (?: {h16} : ){{4}} {ls32} |
-                        (?: {h16} : )      {h16} :: (?: {h16} : ){{3}} {ls32} |
-                        (?: {h16} : ){{2}} {h16} :: (?: {h16} : ){{2}} {ls32} |
-                        (?: {h16} : ){{3}} {h16} ::     {h16} :        {ls32} |
-                        (?: {h16} : ){{4}} {h16} ::                    {ls32} |
-                        (?: {h16} : ){{5}} {h16} ::                    {h16}  |
-                        (?: {h16} : ){{6}} {h16} ::
+                                        {h16}?  :: (?: {h16} : ){{4}} {ls32} |
+                        (?: (?: {h16} : ){{,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
+                        (?: (?: {h16} : ){{,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
+                        (?: (?: {h16} : ){{,3}} {h16} )? ::     {h16} :        {ls32} |
+                        (?: (?: {h16} : ){{,4}} {h16} )? ::                    {ls32} |
+                        (?: (?: {h16} : ){{,5}} {h16} )? ::                    {h16}  |
+                        (?: (?: {h16} : ){{,6}} {h16} )? ::
                     )
 """
 
-- 
2.43.0


From ddd0a2231c2db0ade9fce09deacc971016adc45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 33/72] fix: accept language tags with variants, extensions and
 private use

---
 httplint/syntax/rfc5646.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc5646.py b/httplint/syntax/rfc5646.py
index a2a579f..3c3ef40 100644
--- a/httplint/syntax/rfc5646.py
+++ b/httplint/syntax/rfc5646.py
@@ -13,7 +13,7 @@ from .rfc5234 import ALPHA, DIGIT
 
 # alphanum      = (ALPHA / DIGIT)     ; letters and numbers
 
-alphanum = r"(?: {ALPHA} | {DIGIT} )"
+alphanum = rf"(?: {ALPHA} | {DIGIT} )"
 
 # irregular     = "en-GB-oed"         ; irregular tags do not match
 #               / "i-ami"             ; the 'langtag' production and
-- 
2.43.0


From 44da6fefa77bc32e9b3107c426400ef9462311e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 34/72] fix: don't start a regex comment in extended parameter
 characters

---
 httplint/syntax/rfc5987.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc5987.py b/httplint/syntax/rfc5987.py
index 6ba605d..a64d287 100644
--- a/httplint/syntax/rfc5987.py
+++ b/httplint/syntax/rfc5987.py
@@ -34,7 +34,7 @@ pct_encoded = rf"(?: % {HEXDIG} {HEXDIG} )"
 
 attr_char = rf"""(?:
                   {ALPHA} | {DIGIT}
-                | !  | #  | \$ | &  | \+ | -  | \.
+                | !  | \#  | \$ | &  | \+ | -  | \.
                 | \^ | _  | `  | \| | ~
 )"""
 
@@ -52,7 +52,7 @@ value_chars = rf"(?: (?: {pct_encoded} | {attr_char} )* )"
 
 mime_charsetc = rf"""(?:
                   {ALPHA} | {DIGIT}
-                | !  | #  | \$ | %  | &
+                | !  | \#  | \$ | %  | &
                 | \+ | -  | \^ | _  | `
                 | \{{ | \}} | ~
 )"""
-- 
2.43.0


From f5b61a6c36ac1bb7cd26d318816bb233715647ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 35/72] fix: require a question mark before a partial URI's
 query

---
 httplint/syntax/rfc9110.py | 2 +-
 httplint/syntax/rfc9112.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 8cf0720..3cfa258 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -262,7 +262,7 @@ Content_Length = rf"{DIGIT}+"
 
 #   partial-URI = relative-part [ "?" query ]
 
-partial_URI = rf"(?: {relative_part} (?: {query} )? )"
+partial_URI = rf"(?: {relative_part} (?: \? {query} )? )"
 
 #   Content-Location = absolute-URI / partial-URI
 
diff --git a/httplint/syntax/rfc9112.py b/httplint/syntax/rfc9112.py
index bf5940c..df873e6 100644
--- a/httplint/syntax/rfc9112.py
+++ b/httplint/syntax/rfc9112.py
@@ -124,7 +124,7 @@ authority_form = authority
 
 #   origin-form = absolute-path [ "?" query ]
 
-origin_form = rf"(?: {absolute_path} (?: {query} )? )"
+origin_form = rf"(?: {absolute_path} (?: \? {query} )? )"
 
 #   request-target = origin-form / absolute-form / authority-form / asterisk-form
 
-- 
2.43.0


From 624bcbd63841c4e5a649e92c37b1fd811de675be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 36/72] fix: HTTP dates are case-sensitive

---
 httplint/syntax/rfc9110.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 3cfa258..b89aee1 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -312,7 +312,7 @@ day = rf"(?: {DIGIT} {DIGIT} )"
 #    / %x53.61.74 ; Sat
 #    / %x53.75.6E ; Sun
 
-day_name = r"(?: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
+day_name = r"(?-i: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
 
 #   month = %x4A.61.6E ; Jan
 #    / %x46.65.62 ; Feb
@@ -327,7 +327,7 @@ day_name = r"(?: Mon | Tue | Wed | Thu | Fri | Sat | Sun )"
 #    / %x4E.6F.76 ; Nov
 #    / %x44.65.63 ; Dec
 
-month = r"(?: Jan | Feb | Mar | Apr | May | Jun | Jul | Aug | Sep | Oct | Nov | Dec )"
+month = r"(?-i: Jan | Feb | Mar | Apr | May | Jun | Jul | Aug | Sep | Oct | Nov | Dec )"
 
 #   year = 4DIGIT
 
@@ -355,7 +355,7 @@ time_of_day = rf"(?: {hour} : {minute} : {second} )"
 
 #   GMT = %x47.4D.54 ; GMT
 
-GMT = r"(?: GMT )"
+GMT = r"(?-i: GMT )"
 
 #   IMF-fixdate = day-name "," SP date1 SP time-of-day SP GMT
 
@@ -369,7 +369,7 @@ IMF_fixdate = rf"(?: {day_name} , {SP} {date1} {SP} {time_of_day} {SP} {GMT} )"
 #    / %x53.61.74.75.72.64.61.79 ; Saturday
 #    / %x53.75.6E.64.61.79 ; Sunday
 
-day_name_l = r"(?: Monday | Tuesday | Wednesday | Thursday | Friday | Saturday | Sunday )"
+day_name_l = r"(?-i: Monday | Tuesday | Wednesday | Thursday | Friday | Saturday | Sunday )"
 
 #   date2 = day "-" month "-" 2DIGIT
 
-- 
2.43.0


From 8c6cfffe74bcd6860b71ece29b68112da92e2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:20 +0000
Subject: [PATCH 37/72] fix: the weak indicator of entity tags is
 case-sensitive

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index b89aee1..9332b32 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -401,7 +401,7 @@ Date = HTTP_date
 
 #   weak = %x57.2F ; W/
 
-weak = r"(?: \x57\x2F )"
+weak = r"(?-i: \x57\x2F )"
 
 #   etagc = "!" / %x23-7E ; '#'-'~' / obs-text
 
-- 
2.43.0


From 5f9dc2a405c214d4438b72f4f2a2951f63826aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 38/72] fix: allow bad whitespace in link parameters

---
 httplint/syntax/rfc8288.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/syntax/rfc8288.py b/httplint/syntax/rfc8288.py
index 3f654f8..63db9b8 100644
--- a/httplint/syntax/rfc8288.py
+++ b/httplint/syntax/rfc8288.py
@@ -12,13 +12,13 @@ They should be processed with re.VERBOSE.
 
 
 from .rfc3986 import URI_reference
-from .rfc9110 import OWS, list_rule, quoted_string, token
+from .rfc9110 import BWS, OWS, list_rule, quoted_string, token
 
 SPEC_URL = "http://httpwg.org/specs/rfc8288"
 
 #  link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
 
-link_param = rf"(?: {token} (?: = (?: {token} | {quoted_string} ) )? )"
+link_param = rf"(?: {token} {BWS} (?: = {BWS} (?: {token} | {quoted_string} ) )? )"
 
 #  link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
 
-- 
2.43.0


From 17f8d1d64d1d8e748ed5448d1693a150635a4a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 39/72] fix: use the sender syntax for credentials and
 challenges

---
 httplint/syntax/rfc9110.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 9332b32..97f22f4 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -219,8 +219,8 @@ credentials = rf"""(?: {auth_scheme}
                         (?: {SP}+
                             (?: {token68} |
                                 (?:
-                                    (?: , | {auth_param} )
-                                    (?: {OWS} , (?: {OWS} {auth_param} )? )*
+                                    {auth_param}
+                                    (?: {OWS} , {OWS} {auth_param} )*
                                 )?
                             )
                         )?
@@ -479,8 +479,8 @@ challenge = rf"""(?: {auth_scheme}
                         (?: {SP}+
                             (?: {token68} |
                                 (?:
-                                    (?: , | {auth_param} )
-                                    (?: {OWS} , (?: {OWS} {auth_param} )? )*
+                                    {auth_param}
+                                    (?: {OWS} , {OWS} {auth_param} )*
                                 )?
                             )
                         )?
-- 
2.43.0


From 436c964e97042e8e1a78dc3302fae0053cbada17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 40/72] fix: Via's received-by is a pseudonym with an optional
 port

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 97f22f4..dc4b93d 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -625,7 +625,7 @@ received_protocol = rf"(?: (?: {protocol_name} / )? {protocol_version} )"
 
 #   received-by = pseudonym [ ":" port ]
 
-received_by = rf"(?: (?: {uri_host} (?: : {port} )? ) | {pseudonym} )"
+received_by = rf"(?: {pseudonym} (?: : {port} )? )"
 
 #   Via = [ ( received-protocol RWS received-by [ RWS comment ] )
 #           *( OWS "," OWS ( received-protocol RWS received-by [ RWS comment ] ) ) ]
-- 
2.43.0


From efe1b117fb51f9672485079521d0c712ebbc909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 41/72] fix: IPvFuture is case-insensitive

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index a83897f..516a250 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -88,7 +88,7 @@ IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
 """
 
 #   IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
-IPvFuture = rf"v {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
+IPvFuture = rf"[vV] {HEXDIG}+ \. (?: {unreserved} | {sub_delims} | : )+"
 
 #   IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"
 IP_literal = rf"\[ (?: {IPv6address} | {IPvFuture} ) \]"
-- 
2.43.0


From b13ccddf4c79d9ff1d5b1cd87e4ee93adbc19d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 42/72] fix: accept an IPv6 address with one group before the
 abbreviation

---
 httplint/syntax/rfc3986.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc3986.py b/httplint/syntax/rfc3986.py
index 516a250..aa568ea 100755
--- a/httplint/syntax/rfc3986.py
+++ b/httplint/syntax/rfc3986.py
@@ -77,7 +77,7 @@ ls32 = rf"(?: (?: {h16} : {h16} ) | {IPv4address} )"
 #                 / [ *6( h16 ":" ) h16 ] "::"
 IPv6address = rf"""(?:                              (?: {h16} : ){{6}} {ls32} |
                                                  :: (?: {h16} : ){{5}} {ls32} |
-                                        {h16}?  :: (?: {h16} : ){{4}} {ls32} |
+                                      (?: {h16} )? :: (?: {h16} : ){{4}} {ls32} |
                         (?: (?: {h16} : ){{,1}} {h16} )? :: (?: {h16} : ){{3}} {ls32} |
                         (?: (?: {h16} : ){{,2}} {h16} )? :: (?: {h16} : ){{2}} {ls32} |
                         (?: (?: {h16} : ){{,3}} {h16} )? ::     {h16} :        {ls32} |
-- 
2.43.0


From 2079b17d9e7bdb3d5f8c857d61bc09339879c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 43/72] fix: int-range's last position is optional

---
 httplint/syntax/rfc9110.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index dc4b93d..02da15c 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -500,7 +500,7 @@ Proxy_Authorization = credentials
 
 #   int-range = first-pos "-" [ last-pos ]
 
-int_range = rf"(?: {first_pos} \- {last_pos}? )"
+int_range = rf"(?: {first_pos} \- (?: {last_pos} )? )"
 
 #   suffix-length = 1*DIGIT
 
-- 
2.43.0


From c56157ea20ae0eb28b41882879190ae5163f5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 44/72] fix: Access-Control-Allow-Origin carries an origin, not
 a URI reference

---
 httplint/field/parsers/access_control_allow_origin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/access_control_allow_origin.py b/httplint/field/parsers/access_control_allow_origin.py
index e26499e..e046b56 100644
--- a/httplint/field/parsers/access_control_allow_origin.py
+++ b/httplint/field/parsers/access_control_allow_origin.py
@@ -22,7 +22,7 @@ class access_control_allow_origin(SingletonField[ResponseLinterProtocol]):
 The `Access-Control-Allow-Origin` response header indicates whether the response can be shared with
 requesting code from the given origin."""
     reference = "https://fetch.spec.whatwg.org/#http-access-control-allow-origin"
-    syntax = rf"(?:\*|null|{rfc3986.URI_reference})"
+    syntax = rf"(?: \* | (?-i:null) | {rfc3986.scheme} :// {rfc3986.host} (?: : {rfc3986.port} )? )"
     category = categories.CORS
     deprecated = False
 
-- 
2.43.0


From 133c9bdc0183edc89b4c1b2b0b46bfa4bfbc9b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 45/72] fix: Alt-Svc's clear is case-sensitive

---
 httplint/field/parsers/alt_svc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/alt_svc.py b/httplint/field/parsers/alt_svc.py
index a1dd330..36442e0 100644
--- a/httplint/field/parsers/alt_svc.py
+++ b/httplint/field/parsers/alt_svc.py
@@ -20,7 +20,7 @@ The `Alt-Svc` HTTP header field identifies an alternative service that can be ar
 resources identifying the origin serving the field."""
     reference = "https://www.rfc-editor.org/rfc/rfc7838#section-3"
     syntax = (
-        r"(?: clear | (?: "
+        r"(?: (?-i:clear) | (?: "
         f"{rfc9110.token} = {rfc9110.quoted_string}"
         f"(?: {rfc9110.OWS} ; {rfc9110.OWS} {rfc9110.parameter} )* ) )"
     )
-- 
2.43.0


From 488dd73eb205d47208fcd705f6c71e85cb37ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 46/72] fix: only allow optional whitespace between
 Content-Disposition parameters

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index 14ada6c..fb4d209 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -21,7 +21,7 @@ The `Content-Disposition` header suggests a name to use when saving the file.
 When the disposition (the first value) is set to `attachment`, it also prompts browsers to download
 the file, rather than display it."""
     reference = "https://www.rfc-editor.org/rfc/rfc6266.html"
-    syntax = rf"(?:{rfc9110.token}(?:\s*;\s*{rfc9110.parameter})*)"
+    syntax = rf"(?:{rfc9110.token}(?:{rfc9110.OWS};{rfc9110.OWS}{rfc9110.parameter})*)"
     deprecated = False
 
     def parse(self, field_value: str, add_note: AddNoteMethodType) -> Tuple[str, ParamDictType]:
-- 
2.43.0


From 3b1f7b6e5d5dc1039028d5e725e8065ab731c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:39 +0000
Subject: [PATCH 47/72] fix: Referrer-Policy tokens are letters and hyphens

---
 httplint/field/parsers/referrer_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/referrer_policy.py b/httplint/field/parsers/referrer_policy.py
index 96d6d14..00e066a 100644
--- a/httplint/field/parsers/referrer_policy.py
+++ b/httplint/field/parsers/referrer_policy.py
@@ -1,7 +1,7 @@
 from httplint.field.list_field import HttpListField
 from httplint.field.tests import FieldTest
 from httplint.note import Note, categories, levels
-from httplint.syntax import rfc9110
+from httplint.syntax import rfc5234
 from httplint.types import AddNoteMethodType, NoteClassListType, ResponseLinterProtocol
 
 
@@ -11,7 +11,7 @@ class referrer_policy(HttpListField[ResponseLinterProtocol]):
 The `Referrer-Policy` response header controls how much referrer information (sent via the `Referer`
 header) should be included with requests."""
     reference = "https://www.w3.org/TR/referrer-policy/"
-    syntax = rfc9110.token
+    syntax = rf"(?: {rfc5234.ALPHA} | \- )+"
     category = categories.SECURITY
     deprecated = False
 
-- 
2.43.0


From c3680a468212e2be1e0022246f42cbbbdb6b2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 48/72] fix: use Server-Timing's own syntax for parameters

---
 httplint/field/parsers/server_timing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/server_timing.py b/httplint/field/parsers/server_timing.py
index a36a24c..57bb77a 100644
--- a/httplint/field/parsers/server_timing.py
+++ b/httplint/field/parsers/server_timing.py
@@ -21,7 +21,10 @@ request-response cycle. It is used to surface any backend server timing metrics
 read/write, CPU time, file system access, etc.) in the developer tools in the browser or any other
 consumer of Server-Timing."""
     reference = "https://w3c.github.io/server-timing/#the-server-timing-header-field"
-    syntax = rfc9110.list_rule(rf"{rfc9110.token} {rfc9110.parameters}")
+    syntax = rfc9110.list_rule(
+        rf"{rfc9110.token} (?: {rfc9110.OWS} ; {rfc9110.OWS} {rfc9110.token} {rfc9110.BWS} = {rfc9110.BWS}"
+        rf" {rfc9110.parameter_value} )*"
+    )
     deprecated = False
     structured_field = False
 
-- 
2.43.0


From 0ce2f0a177973826158b4b1ac960e46c6e348988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 49/72] fix: allow empty directives in
 Strict-Transport-Security

---
 httplint/field/parsers/strict_transport_security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 7cd6e2b..1c7054e 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -22,7 +22,7 @@ The `Strict-Transport-Security` response header (often abbreviated as HSTS) lets
 browsers that it should only be communicated with using HTTPS, instead of using HTTP."""
     reference = "https://www.rfc-editor.org/rfc/rfc6797"
     syntax = (
-        rf"(?: {sts_dir} (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir} )* (?: {rfc9110.OWS} ;)? )"
+        rf"(?: {sts_dir}? (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir}? )* )"
     )
     category = categories.SECURITY
     deprecated = False
-- 
2.43.0


From fb2589f3814d5df40b2bd51c198a0d1e3152b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 50/72] fix: convert IRIs to URIs without changing their ASCII
 parts

---
 httplint/message.py |  4 +---
 httplint/util.py    | 30 ++++++++++++++++--------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/httplint/message.py b/httplint/message.py
index 03492a4..34e64a8 100644
--- a/httplint/message.py
+++ b/httplint/message.py
@@ -219,10 +219,8 @@ class HttpRequestLinter(HttpMessageLinter):
         try:
             self.uri = iri_to_uri(iri)
         except (ValueError, UnicodeError):
-            self.notes.add("uri", URI_BAD_SYNTAX)
             self.uri = iri  # hope?
-            return
-        if not re.match(rf"^\s*{rfc3986.URI}\s*$", self.uri, re.VERBOSE):
+        if not re.match(rf"^{rfc3986.URI}\Z", self.uri, re.VERBOSE):
             self.notes.add("uri", URI_BAD_SYNTAX)
         if "#" in self.uri:
             # chop off the fragment
diff --git a/httplint/util.py b/httplint/util.py
index ddcd34c..69dbf53 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -1,30 +1,32 @@
 import locale
+import re
 import time
 import unittest
 from binascii import b2a_hex
 from datetime import timedelta
 from typing import Any, List
 from urllib.parse import quote as urlquote
-from urllib.parse import urlsplit, urlunsplit
 
 from httplint.i18n import format_timedelta, translate
 from httplint.note import MarkdownSafe
 
+ASCII = "".join(map(chr, range(128)))
+
 
 def iri_to_uri(iri: str) -> str:
-    "Takes a string that can contain an IRI and return a URI."
-    scheme, authority, path, query, frag = urlsplit(iri)
-    if ":" in authority:
-        host, port = authority.split(":", 1)
-        authority = host.encode("idna").decode("ascii") + f":{port}"
-    else:
-        authority = authority.encode("idna").decode("ascii")
-    sub_delims = "!$&'()*+,;="
-    pchar = "-.+~" + sub_delims + ":@" + "%"
-    path = urlquote(path, safe=pchar + "/")
-    quer = urlquote(query, safe=pchar + "/?")
-    frag = urlquote(frag, safe=pchar + "/?")
-    return urlunsplit((scheme, authority, path, quer, frag))
+    """
+    Takes a string that can contain an IRI and return a URI. Non-ASCII characters are
+    converted to IDNA in the host and percent-encoded elsewhere; nothing else is changed.
+    """
+    if iri.isascii():
+        return iri
+    match = re.match(r"[^:/?#]+://(?:[^@/?#]*@)?([^@:/?#]*)", iri)
+    if match and not match.group(1).isascii():
+        host = match.group(1).encode("idna").decode("ascii")
+        if re.search(r"[:/?#@]", host):  # e.g., U+2100
+            raise ValueError("Delimiter in host")
+        iri = iri[: match.start(1)] + host + iri[match.end(1) :]
+    return urlquote(iri, safe=ASCII)
 
 
 def f_num(i: int, by1024: bool = False) -> str:
-- 
2.43.0


From e23c9db6817610050418152b3d05a2cfe5c526dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:46 +0000
Subject: [PATCH 51/72] fix: keep parameters with white space around the equals
 sign or without a value

---
 httplint/field/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 67cfbc3..b9e9999 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -22,6 +22,10 @@ RESTRICTED_NAME_UNBOUNDED = (
     rf"(?: {rfc6838.restricted_name_first} {rfc6838.restricted_name_chars}* )"
 )
 
+# A parameter, allowing whitespace around the "=" and an omitted value; some fields allow these.
+
+PARAMETER = rf"(?: {rfc9110.token} (?: \s* = \s* {rfc9110.parameter_value} )? )"
+
 
 def parse_media_type(
     field_value: str,
@@ -199,15 +203,16 @@ def parse_params(
     Parse parameters into a dictionary.
     """
     param_dict: ParamDictType = {}
-    for param in split_string(instr, rfc9110.parameter, rf"\s*{delim}\s*"):
-        try:
-            key, val = param.split("=", 1)
-        except ValueError:
-            param_dict[param.lower()] = None
-            continue
+    for param in split_string(instr, PARAMETER, rf"\s*{delim}\s*"):
+        key, equals, val = param.partition("=")
+        key = key.strip()
+        val = val.strip()
         k_norm = key.lower()
         if k_norm in param_dict:
             add_note(PARAM_REPEATS, param=k_norm)
+        if not equals:
+            param_dict[k_norm] = None
+            continue
         if val[0] == val[-1] == "'":
             add_note(
                 PARAM_SINGLE_QUOTED,
-- 
2.43.0


From a5b64bfd40c033c1c919c8e415fe5be4bc2979a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 52/72] fix: note extended parameter values that are not
 well-formed UTF-8

---
 httplint/field/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index b9e9999..5b23f7b 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -8,7 +8,7 @@ from urllib.parse import unquote as urlunquote
 from http_sf import Token
 
 from httplint.note import Note, categories, levels
-from httplint.syntax import rfc6838, rfc9110
+from httplint.syntax import rfc5987, rfc6838, rfc9110
 from httplint.types import AddNoteMethodType, ParamDictType
 from httplint.util import code_text
 
@@ -240,7 +240,13 @@ def parse_params(
                 if enc not in ["utf-8"]:
                     add_note(PARAM_STAR_CHARSET, param=k_norm, enc=enc)
                     continue
-                unq_v = urlunquote(esc_v)
+                try:
+                    if not re.match(rf"^{rfc5987.value_chars}$", esc_v, RE_FLAGS):
+                        raise ValueError
+                    unq_v = urlunquote(esc_v, errors="strict")
+                except ValueError:
+                    add_note(PARAM_STAR_ERROR, param=k_norm)
+                    continue
                 param_dict[k_norm] = unq_v
         else:
             param_dict[k_norm] = unquote_string(val)
-- 
2.43.0


From 46746d8219107ee2fd9b0f54ef1a20a2f342d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 53/72] fix: strip white space around the Content-Disposition
 type

---
 httplint/field/parsers/content_disposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/content_disposition.py b/httplint/field/parsers/content_disposition.py
index fb4d209..50e7110 100644
--- a/httplint/field/parsers/content_disposition.py
+++ b/httplint/field/parsers/content_disposition.py
@@ -29,7 +29,7 @@ the file, rather than display it."""
             disposition, param_str = field_value.split(";", 1)
         except ValueError:
             disposition, param_str = field_value, ""
-        disposition = disposition.lower()
+        disposition = disposition.strip().lower()
         param_dict = parse_params(param_str, add_note)
         if disposition not in ["inline", "attachment"]:
             add_note(DISPOSITION_UNKNOWN, disposition=disposition)
-- 
2.43.0


From bc15015a39c061c354f68699e5840606b5d1e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 54/72] fix: default cookie path when the base URI's path does
 not start with a slash

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 90edcea..bcef8e5 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -227,7 +227,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             # use default path
             if uri_path == "" or uri_path[0] != "/":
                 cookie_path = "/"
-            if uri_path.count("/") < 2:
+            elif uri_path.count("/") < 2:
                 cookie_path = "/"
             else:
                 cookie_path = uri_path[: uri_path.rindex("/")]
-- 
2.43.0


From 5836bc8d75ed578ed77080c91b4045a6b03c47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:08 +0000
Subject: [PATCH 55/72] fix: read cookie dates as RFC 6265 section 5.1.1 does

---
 httplint/field/parsers/set_cookie.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index bcef8e5..04414e9 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -1,4 +1,5 @@
 from calendar import timegm
+from datetime import datetime
 from re import match, split
 from typing import Any, List, Optional, Tuple, Union
 from urllib.parse import urlsplit
@@ -335,7 +336,7 @@ def loose_date_parse(cookie_date: str) -> int:
     for date_token in date_tokens:
         re_match = None
         if not found_time:
-            re_match = match(r"^(\d{2}:\d{2}:\d{2})(?:\D)?", date_token)
+            re_match = match(r"^(\d{1,2}:\d{1,2}:\d{1,2})(?:\D|$)", date_token)
             if re_match:
                 found_time = True
                 hour_value, minute_value, second_value = [
@@ -343,7 +344,7 @@ def loose_date_parse(cookie_date: str) -> int:
                 ]
                 continue
         if not found_day_of_month:
-            re_match = match(r"^(\d\d?)(?:\D)?", date_token)
+            re_match = match(r"^(\d\d?)(?:\D|$)", date_token)
             if re_match:
                 found_day_of_month = True
                 day_of_month_value = int(re_match.group(1))
@@ -353,7 +354,7 @@ def loose_date_parse(cookie_date: str) -> int:
             month_value = MONTHS[date_token[:3].lower()]
             continue
         if not found_year:
-            re_match = match(r"^(\d{2,4})(?:\D)?", date_token)
+            re_match = match(r"^(\d{2,4})(?:\D|$)", date_token)
             if re_match:
                 found_year = True
                 year_value = int(re_match.group(1))
@@ -383,6 +384,9 @@ def loose_date_parse(cookie_date: str) -> int:
         raise ValueError(f"{minute_value} is out of range for minute")
     if second_value > 59:
         raise ValueError(f"{second_value} is out of range for second")
+    # raises ValueError if the month doesn't have that day
+    datetime(year_value, month_value, day_of_month_value)
+
     parsed_cookie_date = timegm(
         (
             year_value,
-- 
2.43.0


From c591624c353316ab7561dd43602a0672895452fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 56/72] fix: cookies with a Max-Age that int() does not read
 were dropped

---
 httplint/field/parsers/set_cookie.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 04414e9..a76bf91 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -7,6 +7,7 @@ from urllib.parse import urlsplit
 from httplint.field import RFC6265
 from httplint.field.broken_field import BrokenField
 from httplint.field.tests import FieldTest
+from httplint.field.utils import parse_digits
 from httplint.note import MarkdownSafe, Note, categories, levels
 from httplint.types import (
     AddNoteMethodType,
@@ -200,10 +201,11 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             return lifetime_note_added
         if attribute_value[0] == "0" and len(attribute_value) > 1:
             add_note(SET_COOKIE_LEADING_ZERO_MAX_AGE, cookie_name=cookie_name)
-        if not attribute_value.isdigit():
+        try:
+            delta_seconds = parse_digits(attribute_value)
+        except ValueError:
             add_note(SET_COOKIE_NON_DIGIT_MAX_AGE, cookie_name=cookie_name)
             return lifetime_note_added
-        delta_seconds = int(attribute_value)
         cookie_attribute_list.append(("Max-Age", delta_seconds))
         if delta_seconds > 34560000 and not lifetime_note_added:
             add_note(
-- 
2.43.0


From 895a1a714706a45637ed6708fac992c9ed4f0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 57/72] fix: cookies were dropped when the base URI is not a
 valid URI

---
 httplint/field/parsers/set_cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index a76bf91..5a46101 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -44,7 +44,10 @@ requests to the server."""
         ) -> Any:
             self._deferred_notes.append((add_note, note, category, kwargs))
 
-        path = urlsplit(self.message.base_uri).path
+        try:
+            path = urlsplit(self.message.base_uri).path
+        except ValueError:
+            path = ""
         return loose_parse(field_value, path, self.message.start_time, deferred_add_note)
 
     def evaluate(self, add_note: AddNoteMethodType) -> None:
-- 
2.43.0


From e348ac197229dee7f96ace95faace41f5a81eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 58/72] fix: cookie lifetimes were not judged when the start
 time is 0

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index 5a46101..b51f5e0 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -190,7 +190,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             add_note(SET_COOKIE_BAD_DATE, why=str(why), cookie_name=cookie_name)
             return lifetime_note_added
         cookie_attribute_list.append(("Expires", expiry_time))
-        if current_time and expiry_time > current_time + 34560000 and not lifetime_note_added:
+        if current_time is not None and expiry_time > current_time + 34560000 and not lifetime_note_added:
             add_note(
                 SET_COOKIE_LIFETIME_TOO_LONG,
                 cookie_name=cookie_name,
-- 
2.43.0


From 97eb99b22f810a677b8df03d6c82b0be3a2a4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 59/72] fix: cookie domains are compared in lowercase

---
 httplint/field/parsers/set_cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/set_cookie.py b/httplint/field/parsers/set_cookie.py
index b51f5e0..e2c0fe8 100644
--- a/httplint/field/parsers/set_cookie.py
+++ b/httplint/field/parsers/set_cookie.py
@@ -226,7 +226,7 @@ def _process_cookie_attribute(  # pylint: disable=too-many-branches,too-many-arg
             cookie_domain = attribute_value[1:]
         else:
             cookie_domain = attribute_value
-        cookie_attribute_list.append(("Domain", cookie_domain))
+        cookie_attribute_list.append(("Domain", cookie_domain.lower()))
 
     elif case_norm_attribute_name == "path":
         if attribute_value == "" or attribute_value[0] != "/":
-- 
2.43.0


From 2de8c7e66e1f40da1f283af9ba7a96dd770668ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 60/72] fix: list elements with a quote that is not part of a
 quoted string were dropped without a note

---
 httplint/field/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 5b23f7b..137cb76 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -184,7 +184,8 @@ def split_list_field(field_value: str) -> List[str]:
         for stripped in (
             f.strip()
             for f in re.findall(
-                r'((?:[^",]|%s)+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
+                # a quote that doesn't start a quoted-string stands for itself
+                r'((?:[^",]|%s|")+)(?=%s|\s*$)' % (rfc9110.quoted_string, r"(?:\s*(?:,\s*)+)"),
                 field_value,
                 RE_FLAGS,
             )
-- 
2.43.0


From 8a48deff3e63130f5437a484159c5db2f1161e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 61/72] fix: field aliases with hyphens or a leading underscore
 were not recognised, and names with underscores were taken for other fields

---
 httplint/field/finder.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/httplint/field/finder.py b/httplint/field/finder.py
index 2851e9d..79bc850 100644
--- a/httplint/field/finder.py
+++ b/httplint/field/finder.py
@@ -53,9 +53,6 @@ class HttpFieldFinder:
         """
 
         name_token = HttpFieldFinder.name_token(field_name)
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
-
         module = HttpFieldFinder.find_module(field_name)
         if module and hasattr(module, name_token):
             return cast(Type[HttpField[Any]], getattr(module, name_token))
@@ -73,8 +70,6 @@ class HttpFieldFinder:
         name_token = HttpFieldFinder.name_token(field_name)
         if name_token[0:1] == "_":  # these are special
             return None
-        if name_token in HttpFieldFinder.field_aliases:
-            name_token = HttpFieldFinder.field_aliases[name_token]
         try:
             module_name = f"httplint.field.parsers.{name_token}"
             return sys.modules[module_name]
@@ -84,9 +79,14 @@ class HttpFieldFinder:
     @staticmethod
     def name_token(field_name: str) -> str:
         """
-        Return a tokenised, python-friendly name for a field.
+        Return a tokenised, python-friendly name for a field; empty if it can't be a known one.
         """
-        return field_name.replace("-", "_").lower()
+        norm_name = field_name.lower()
+        if norm_name in HttpFieldFinder.field_aliases:
+            norm_name = HttpFieldFinder.field_aliases[norm_name]
+        elif "_" in norm_name or norm_name == "from-field":
+            return ""  # looks like another field's token
+        return norm_name.replace("-", "_")
 
 
 class UnknownHttpField(HttpField[Any]):
-- 
2.43.0


From 78de31ec3b8f596a057d1b7d0ae52a9a690245af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 62/72] fix: 199 responses were not treated as having no
 content when checking charset

---
 httplint/charset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index 123f948..b16e31c 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -41,7 +41,7 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     status_code = getattr(linter, "status_code", None)
-    if status_code in [204, 205, 304, 206] + list(range(100, 199)) or getattr(
+    if status_code in [204, 205, 304, 206] + list(range(100, 200)) or getattr(
         linter, "is_head_response", False
     ):
         return
-- 
2.43.0


From 3e0a7158e004f01821bd3a700e53f6426a3dcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:12 +0000
Subject: [PATCH 63/72] fix: content cut mid-character by the sample size, or
 with a charset that isn't a character encoding, was reported as undecodable

---
 httplint/charset.py | 31 +++++++++++++++++++++++++++----
 httplint/types.py   |  1 +
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/httplint/charset.py b/httplint/charset.py
index b16e31c..1c9b0a6 100644
--- a/httplint/charset.py
+++ b/httplint/charset.py
@@ -81,11 +81,15 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
         return
 
     # Primary check: does the declared encoding actually decode the content?
+    partial = linter.decoded.length > len(sample)
     try:
-        sample.decode(effective_charset_raw, errors="strict")
-        decodes = True
-    except (UnicodeError, LookupError):
-        decodes = False
+        decodable = _decodable(sample, effective_charset_raw, partial)
+    except LookupError:
+        # A codec that isn't a character encoding (e.g., hex).
+        return
+    decodes = decodable is not None
+    if decodable is not None:
+        sample = decodable
 
     detection = chardet.detect(sample)
     detected_raw = detection.get("encoding")
@@ -124,6 +128,25 @@ def verify_charset(linter: LinterProtocol) -> None:  # pylint: disable=too-many-
             )
 
 
+def _decodable(sample: bytes, encoding: str, partial: bool) -> Optional[bytes]:
+    """
+    Return what `encoding` can decode of `sample`: all of it, or -- if it's only `partial` content --
+    all but an incomplete character at the end. None if it can't be decoded.
+    """
+    try:
+        sample.decode(encoding, errors="strict")
+        return sample
+    except UnicodeError:
+        if not partial:
+            return None
+    decoder = codecs.getincrementaldecoder(encoding)(errors="strict")
+    try:
+        decoder.decode(sample)
+    except UnicodeError:
+        return None
+    return sample[: len(sample) - len(decoder.getstate()[0])]
+
+
 def _encodings_compatible(declared: str, detected: str, sample: bytes) -> bool:
     """
     Return True if decoding `sample` with `declared` and with `detected`
diff --git a/httplint/types.py b/httplint/types.py
index ea86437..9c30354 100644
--- a/httplint/types.py
+++ b/httplint/types.py
@@ -99,6 +99,7 @@ class LinterProtocol(Protocol):
     content_length: int
     content_hash: Optional[bytes]
     content_sample: bytes
+    decoded: Any
     complete: bool
 
     @property
-- 
2.43.0


From ebdcf79e45fc5dbb4212fc007abc6af425006f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 64/72] fix: a false boolean parameter in Cache-Status raised
 TypeError

---
 httplint/field/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/field/utils.py b/httplint/field/utils.py
index 137cb76..87f525c 100644
--- a/httplint/field/utils.py
+++ b/httplint/field/utils.py
@@ -299,6 +299,8 @@ def check_sf_params(
             elif "desc" in known_params[param_name]:
                 if param_value is True:
                     param_list.append(f"* {known_params[param_name]['desc']}")
+                elif param_value is False:
+                    param_list.append(f"* `{param_name}`: `{code_text(param_value)}`")
                 else:
                     param_list.append(f"* {known_params[param_name]['desc'] % code_text(param_value)}")
             else:
-- 
2.43.0


From 7fe17de56fe1a502d6f6f8a56178a1e7ed3ed864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 65/72] fix: notes without text showed the translation
 catalogue's header in other languages

---
 httplint/i18n.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httplint/i18n.py b/httplint/i18n.py
index 37ef2fd..d550d59 100644
--- a/httplint/i18n.py
+++ b/httplint/i18n.py
@@ -35,6 +35,8 @@ def translate(message: str) -> str:
     """
     Translate a message.
     """
+    if not message:
+        return message  # gettext returns the catalogue's header for an empty message
     translations = get_translations()
     if translations:
         return translations.gettext(message)
-- 
2.43.0


From 34d660f5e02978b6ec5ceecaa438b1e4aaf1e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 66/72] fix: the order of conflicting Cache-Control directives
 in a note varied between runs

---
 httplint/field/parsers/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httplint/field/parsers/cache_control.py b/httplint/field/parsers/cache_control.py
index 4210e2d..c6bfaa4 100644
--- a/httplint/field/parsers/cache_control.py
+++ b/httplint/field/parsers/cache_control.py
@@ -139,7 +139,7 @@ ignoring it there."""
         if self.message.message_type == "response":
             for directive, potential_conflicts in CONFLICTING_CC:
                 if directive in cc_list:
-                    conflicts = list(set(cc_list).intersection(set(potential_conflicts)))
+                    conflicts = sorted(set(cc_list).intersection(set(potential_conflicts)))
                     if len(conflicts) > 0:
                         add_note(
                             CC_CONFLICTING,
-- 
2.43.0


From 491fdf21423b5dc2adbe4ba2cadb8f4dcf649a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:39 +0000
Subject: [PATCH 67/72] fix: code spans in note details always have content

---
 httplint/field/parsers/content_security_policy.py | 4 ++--
 httplint/util.py                                  | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index 2b8e4d7..ea3ac00 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -10,6 +10,7 @@ from httplint.types import (
     NoteClassListType,
     ResponseLinterProtocol,
 )
+from httplint.util import code_text
 
 # directive-name = 1*( ALPHA / DIGIT / "-" )
 DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
@@ -175,8 +176,7 @@ sources of content that browsers are allowed to load on a page."""
                     )
 
     def _make_list(self, items: list[str]) -> MarkdownSafe:
-        safe = [item.replace("`", "") for item in items]
-        return MarkdownSafe("\n".join(f"* `{item}`" for item in safe))
+        return MarkdownSafe("\n".join(f"* `{code_text(item)}`" for item in items))
 
 
 class CONTENT_SECURITY_POLICY(Note):
diff --git a/httplint/util.py b/httplint/util.py
index 69dbf53..4c089df 100644
--- a/httplint/util.py
+++ b/httplint/util.py
@@ -63,8 +63,10 @@ def display_bytes(inbytes: bytes, encoding: str = "utf-8", truncate: int = 40) -
 def code_text(value: Any) -> str:
     """
     Format a value so that it can't break out of a Markdown code span.
+
+    Markdown deletes STX and ETX, so they can't be all that a span contains.
     """
-    return " ".join(str(value).replace("`", "").splitlines()) or " "
+    return " ".join(re.sub("[`\x02\x03]", "", str(value)).splitlines()) or " "
 
 
 def markdown_list(inlist: List[str], markup: str = "") -> MarkdownSafe:
-- 
2.43.0


From 75be858bf73edaa1c5931ca6cd6c75a81a9d2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 68/72] fix: match parameters in one way only, so that checking
 a value's syntax can't take exponential time

---
 httplint/syntax/rfc9110.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index 02da15c..dd524e7 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -121,7 +121,9 @@ parameter = rf"(?: {parameter_name} = {parameter_value} )"
 
 #   parameters = *( OWS ";" OWS [ parameter ] )
 
-parameters = rf"(?: {OWS} ; {OWS} {parameter}? )*"
+# Written so that there is only one way to match it; otherwise, matching can take exponential time.
+
+parameters = rf"(?: (?: (?: {OWS} ; )+ {OWS} {parameter} )* (?: (?: {OWS} ; )+ {OWS} )? )"
 
 #   qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
 
-- 
2.43.0


From c5533a134ac04d6a75249161c5742e98cce661b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:42 +0000
Subject: [PATCH 69/72] fix: match range-specs in one way only, so that
 checking a Range's syntax can't take exponential time

---
 httplint/syntax/rfc9110.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc9110.py b/httplint/syntax/rfc9110.py
index dd524e7..e75ef62 100644
--- a/httplint/syntax/rfc9110.py
+++ b/httplint/syntax/rfc9110.py
@@ -520,7 +520,10 @@ other_range = r"(?: [\x21-\x2B] | [\x2D-\x7E] )+"
 
 #   range-spec = int-range / suffix-range / other-range
 
-range_spec = rf"(?: {int_range} | {suffix_range} | {other_range} )"
+# other-range allows everything that the others do; listing them as well would make matching a
+# range-set take exponential time.
+
+range_spec = other_range
 
 #   range-set = range-spec *( OWS "," OWS range-spec )
 
-- 
2.43.0


From 3f8cf22a86b25073f3f3720690e04683dbc7bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:46 +0000
Subject: [PATCH 70/72] fix: match Strict-Transport-Security in one way only,
 so that checking its syntax can't take exponential time

---
 httplint/field/parsers/strict_transport_security.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httplint/field/parsers/strict_transport_security.py b/httplint/field/parsers/strict_transport_security.py
index 1c7054e..4518b22 100644
--- a/httplint/field/parsers/strict_transport_security.py
+++ b/httplint/field/parsers/strict_transport_security.py
@@ -21,8 +21,10 @@ class strict_transport_security(SingletonField[ResponseLinterProtocol]):
 The `Strict-Transport-Security` response header (often abbreviated as HSTS) lets a web site tell
 browsers that it should only be communicated with using HTTPS, instead of using HTTP."""
     reference = "https://www.rfc-editor.org/rfc/rfc6797"
+    # written so that there is only one way to match it
     syntax = (
-        rf"(?: {sts_dir}? (?: {rfc9110.OWS} ; {rfc9110.OWS} {sts_dir}? )* )"
+        rf"(?: {sts_dir}? (?: (?: {rfc9110.OWS} ; )+ {rfc9110.OWS} {sts_dir} )*"
+        rf" (?: (?: {rfc9110.OWS} ; )+ {rfc9110.OWS} )? )"
     )
     category = categories.SECURITY
     deprecated = False
-- 
2.43.0


From 60165ef80b3b0d8222cffd78f4cb5a002bf4a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:50 +0000
Subject: [PATCH 71/72] fix: match link parameters in one way only, so that
 checking a Link's syntax can't take exponential time

---
 httplint/syntax/rfc8288.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/httplint/syntax/rfc8288.py b/httplint/syntax/rfc8288.py
index 63db9b8..85f4317 100644
--- a/httplint/syntax/rfc8288.py
+++ b/httplint/syntax/rfc8288.py
@@ -22,7 +22,14 @@ link_param = rf"(?: {token} {BWS} (?: = {BWS} (?: {token} | {quoted_string} ) )?
 
 #  link-value = "<" URI-Reference ">" *( OWS ";" OWS link-param )
 
-link_value = rf"(?: < {URI_reference} > (?: {OWS} ; {OWS} {link_param} )* )"
+# Written so that there is only one way to match the whitespace after a parameter's name.
+
+_link_param = rf"(?: {token} (?: {BWS} = {BWS} (?: {token} | {quoted_string} ) )? )"
+
+link_value = (
+    rf"(?: < {URI_reference} > (?: {OWS} ; {OWS} {_link_param} )*"
+    rf" (?: {OWS} ; {OWS} {token} {BWS} )? )"
+)
 
 #  Link       = #link-value
 
-- 
2.43.0


From 4705959d9b230f05943c2e19912c0be110ac6fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:54 +0000
Subject: [PATCH 72/72] fix: match CSP directives in one way only, so that
 checking a policy's syntax can't take exponential time

---
 httplint/field/parsers/content_security_policy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/httplint/field/parsers/content_security_policy.py b/httplint/field/parsers/content_security_policy.py
index ea3ac00..adf4194 100644
--- a/httplint/field/parsers/content_security_policy.py
+++ b/httplint/field/parsers/content_security_policy.py
@@ -18,7 +18,9 @@ DIRECTIVE_NAME = r"[a-zA-Z0-9-]+"
 DIRECTIVE_VALUE = r"[ \t\x21-\x2B\x2D-\x3A\x3C-\x7E]*"
 
 
-csp_directive = rf"(?: {DIRECTIVE_NAME} (?: {rfc9110.RWS} {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
+# The value takes all of the whitespace up to the next semicolon, so that there is only one way to
+# match it; otherwise, matching can take exponential time.
+csp_directive = rf"(?: {DIRECTIVE_NAME} (?: [ \t] {DIRECTIVE_VALUE} )? )"  # pylint: disable=invalid-name
 
 
 class content_security_policy(HttpListField[ResponseLinterProtocol]):
@@ -28,7 +30,10 @@ The `Content-Security-Policy` response header allows web site administrators to
 sources of content that browsers are allowed to load on a page."""
     reference = "https://www.w3.org/TR/CSP3/"
 
-    syntax = rf"(?: {csp_directive} (?: {rfc9110.OWS} ; (?: {rfc9110.OWS} {csp_directive} )? )* )"
+    syntax = (
+        rf"(?: {csp_directive} (?: ; (?: {rfc9110.OWS} ; )* {rfc9110.OWS} {csp_directive} )*"
+        rf" (?: ; (?: {rfc9110.OWS} ; )* )? )"
+    )
     category = categories.SECURITY
     deprecated = False
     report_only_string = ""
-- 
2.43.0

