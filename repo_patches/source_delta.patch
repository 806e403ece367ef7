From 2f2fa9fee86154967c84bbb80ec658c2587e0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:25 +0000
Subject: [PATCH 01/21] fix: file state: an empty relative reference keeps the
 base path unchanged

---
 src/urlstd/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..4dd1da6 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3186,6 +3186,7 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From 2bcc4014ca6b38bc96b8a61f41968a2b9b05c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:35 +0000
Subject: [PATCH 02/21] fix: IPv4 numbers consist of ASCII digits of their
 radix only

---
 src/urlstd/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4dd1da6..d1c4632 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,11 +1186,14 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
-        try:
-            return int(address, r), validation_error
-        except ValueError:
-            pass
-        return -1, True
+        digits = {8: string.octdigits, 10: ASCII_DIGITS, 16: ASCII_HEX_DIGITS}
+        if any(c not in digits[r] for c in address):
+            return -1, True
+        address = address.lstrip("0") or "0"
+        if len(address) > 16:
+            # out of range whatever the digits are, and may be too long for int()
+            return 1 << 64, validation_error
+        return int(address, r), validation_error
 
     @classmethod
     def is_ends_in_a_number(cls, address: str) -> bool:
-- 
2.43.0


From 02b927b94c5f3d8eaf6853d934f34f6bf2938b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:45 +0000
Subject: [PATCH 03/21] fix: IPv4: a part other than the last greater than 255
 is a failure

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d1c4632..8eda271 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1268,7 +1268,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 6682b072a2cf020c8a1132977abecbe23dde2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:55 +0000
Subject: [PATCH 04/21] fix: IPv6: reject ':::' and a non-final IPv4 part,
 accept a trailing '::' after 7 pieces

---
 src/urlstd/parse.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 8eda271..36daae1 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1335,9 +1335,9 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
+        previous: Optional[str] = None if compress is None else ":"
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
@@ -1424,13 +1424,17 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
-                [
-                    len(x) == 0
-                    or any(y not in ASCII_DIGITS for y in x)
-                    or (len(x) >= 2 and x[0] == "0")
-                    for x in ipv4_pieces
-                ]
+            if (
+                not iseof(c)
+                or len(ipv4_pieces) > 4
+                or any(
+                    [
+                        len(x) == 0
+                        or any(y not in ASCII_DIGITS for y in x)
+                        or (len(x) >= 2 and x[0] == "0")
+                        for x in ipv4_pieces
+                    ]
+                )
             ):
                 log.error(
                     "IPv4-in-IPv6-invalid-code-point: "
-- 
2.43.0


From a10fee79159e34f5291c2b2ed8cca8b94e78d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:06 +0000
Subject: [PATCH 05/21] fix: ports and IPv4-in-IPv6 parts of any length do not
 raise a bare ValueError

---
 src/urlstd/parse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 36daae1..cc8e099 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1452,7 +1452,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
@@ -3690,17 +3690,18 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
-                    if port > 0xFFFF:
+                    buffer = buffer.lstrip("0") or "0"
+                    if len(buffer) > 5 or int(buffer) > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            buffer,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {buffer} in {urlstring!r}"
                         )
+                    port = int(buffer)
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
                     else:
-- 
2.43.0


From 028c073548b072068c9f7286aa077354947dd310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:15 +0000
Subject: [PATCH 06/21] fix: port 0 is a port in the host and scheme states

---
 src/urlstd/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index cc8e099..24ee6bc 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3391,7 +3391,9 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (
+                        url.includes_credentials() or url.port is not None
+                    )
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3912,7 +3914,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From b46524aaa725005ba27f3f74773a16437c582088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 07/21] fix: application/x-www-form-urlencoded output encodes
 U+007E (~)

---
 src/urlstd/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 24ee6bc..427400c 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -417,7 +417,8 @@ def urlencode(
             encoding=encoding,
             space_as_plus=True,
         )
-        params.append(f"{name}={value}")
+        # urllib.parse.quote() never encodes "~"
+        params.append(f"{name}={value}".replace("~", "%7E"))
     return "&".join(params)
 
 
-- 
2.43.0


From 6498f56dca6cb82af39f6c18afd2b315c465df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:52 +0000
Subject: [PATCH 08/21] fix: HostValidator: an IPv4 part of any length does not
 raise a bare ValueError

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 427400c..d1d5368 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -865,7 +865,7 @@ more than one spot: '1::1::1'"],
                     )
                 return False
 
-            if not (0 <= int(part) <= 255):
+            if not (0 <= result[0] <= 255):
                 if validity:
                     validity.prepend(
                         "IPv4-out-of-range-part: "
-- 
2.43.0


From 366cb0e40159937d162077f6e42c2eaf75c047f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:02 +0000
Subject: [PATCH 09/21] fix: URLSearchParams does not percent-decode the names
 and values it is given

---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d1d5368..1aa9781 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2123,8 +2123,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2162,7 +2162,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2197,7 +2197,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2220,7 +2220,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2243,7 +2243,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2276,8 +2276,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 0ee53bb1284ec8e1d40f2f61115cfbd1613bf956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:12 +0000
Subject: [PATCH 10/21] fix: URLSearchParams.has()/delete() match numeric
 values

---
 src/urlstd/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 1aa9781..6cec3fa 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2165,7 +2165,7 @@ class URLSearchParams(Collection):
         name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
-                if value is not None and name_value[1] != value:
+                if value is not None and name_value[1] != str(value):
                     continue
                 self._list.pop(i)
         self._update()
@@ -2246,7 +2246,7 @@ class URLSearchParams(Collection):
         name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
-                if value is not None and name_value[1] != value:
+                if value is not None and name_value[1] != str(value):
                     continue
                 return True
         return False
-- 
2.43.0


From b29a68f74b809306de535411dca142bbf7f1f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:22 +0000
Subject: [PATCH 11/21] fix: opaque path: a surrogate pair is one code point

---
 src/urlstd/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 6cec3fa..db6ef82 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3465,9 +3465,13 @@ class BasicURLParser:
         del base
         log = get_logger(cls)
         index = start
-        # TODO: Use buffer.
+        buffer = ""
         for c in cpstream(urlstring[index:]):
             index += 1
+            if iseof(c) or iscp(c, "?#"):
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3507,9 +3511,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From db5407470656759bf1d926ebcf24e72211385fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:32 +0000
Subject: [PATCH 12/21] fix: IDNA: accept strings with surrogates

---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index db6ef82..765b59b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1039,6 +1039,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
@@ -1118,6 +1119,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
-- 
2.43.0


From 4faf83877f4e291cf711d0b7ef5fdbdcfd3b60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:42 +0000
Subject: [PATCH 13/21] fix: the 'utf-16' encoding also means utf-8 for the
 query

---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 765b59b..9eea85b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -139,7 +139,9 @@ UTF8_CODECS = frozenset(["utf_8", "u8", "utf", "utf8", "cp65001"])
 
 UTF16BE_CODECS = frozenset(["utf_16_be", "utf-16be", "utf-16-be"])
 
-UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
+UTF16LE_CODECS = frozenset(
+    ["utf_16_le", "utf-16le", "utf-16-le", "utf_16", "utf-16", "utf16", "u16"]
+)
 
 ERROR_TYPE_UNDEFINED = "undefined"
 
-- 
2.43.0


From 6ed266d2139e902db6d0660c90115e4aa59e93db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 14/21] fix: URLSearchParams.has()/delete() convert the value
 like append()/set() do

---
 src/urlstd/parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9eea85b..1dc9e72 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2167,9 +2167,11 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
-                if value is not None and name_value[1] != str(value):
+                if value is not None and name_value[1] != value:
                     continue
                 self._list.pop(i)
         self._update()
@@ -2248,9 +2250,11 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
-                if value is not None and name_value[1] != str(value):
+                if value is not None and name_value[1] != value:
                     continue
                 return True
         return False
-- 
2.43.0


From 6fc2bec91f47c306aa4bef7d2d7a10aba1f29ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:01 +0000
Subject: [PATCH 15/21] fix: validation results do not depend on the logger
 class in use

---
 src/urlstd/parse.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 1dc9e72..b6312e7 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -162,7 +162,7 @@ def cpstream(s: str) -> Iterable[str]:
         yield ""  # EOF
 
 
-def get_logger(context: Any) -> logging.Logger:
+def get_logger(context: Any) -> _Logger:
     name = None
     if isinstance(context, str):
         name = context
@@ -170,7 +170,7 @@ def get_logger(context: Any) -> logging.Logger:
         name = f"{context.__module__}.{context.__name__}"
     elif hasattr(context, "__module__") and hasattr(context, "__class__"):
         name = f"{context.__module__}.{context.__class__.__name__}"
-    return logging.getLogger(name)
+    return _Logger(logging.getLogger(name), None)
 
 
 def iscp(c: str, target: str) -> bool:
@@ -555,7 +555,7 @@ def utf8_percent_encode(s: str, safe: str, space_as_plus: bool = False) -> str:
     )
 
 
-class _Logger(logging.getLoggerClass()):  # type: ignore [misc]
+class _Logger(logging.LoggerAdapter):
     def debug(self, msg, *args, **kwargs) -> None:
         kwargs.setdefault("stacklevel", 2)
         validity: ValidityState | None = kwargs.pop("validity", None)
@@ -4384,6 +4384,3 @@ def parse_url(
     #  https://url.spec.whatwg.org/#url-parsing
     #  https://w3c.github.io/FileAPI/#blob-url-resolve
     return url
-
-
-logging.setLoggerClass(_Logger)
-- 
2.43.0


From 58839b885e1d239ab4941b121a94c116a99f0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 16/21] fix: urlencode: utf-16 encodings mean utf-8

---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index b6312e7..7352074 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -405,6 +405,8 @@ def urlencode(
         >>> urlencode([('\ud83c', 'a')])
         '%EF%BF%BD=a'  # → '\ufffd=a'
     """
+    if encoding.lower() in (UTF16BE_CODECS | UTF16LE_CODECS):
+        encoding = "utf-8"
     params = []
     for name, value in query:
         name = string_percent_encode(
-- 
2.43.0


From c716cfeae995e9e65d79281bfaf9b06f06cd409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:14 +0000
Subject: [PATCH 17/21] fix: HostValidator: a domain that maps to a malformed
 IPv4 address is not valid

---
 src/urlstd/parse.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 7352074..c3d546a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -777,7 +777,14 @@ more than one spot: '1::1::1'"],
             return cls.is_valid_ipv4_address(host, **kwargs)
 
         # validate a domain string
-        return cls.is_valid_domain(host, **kwargs)
+        if not cls.is_valid_domain(host, **kwargs):
+            return False
+
+        # a domain that the host parser takes for an IPv4 address
+        ascii_domain = IDNA.domain_to_ascii(host, True, **kwargs)
+        if IPv4Address.is_ends_in_a_number(ascii_domain):
+            return cls.is_valid_ipv4_address(ascii_domain, **kwargs)
+        return True
 
     @classmethod
     def is_valid_domain(cls, domain: str, **kwargs) -> bool:
-- 
2.43.0


From 742ad205200166ba74864514a85865c5ddd3a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 18/21] fix: an unencodable code point after a shift sequence
 becomes a character reference

With a stateful encoding (iso-2022-jp) the chunk of an unencodable code
point starts with an escape sequence, so '&' and ';' of the reference were
not percent-encoded; and a code point whose bytes are '&#' was.
---
 src/urlstd/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index c3d546a..74d4199 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -358,11 +358,14 @@ def string_percent_encode(
         pass
 
     output = ""
-    for b in codecs.iterencode(s, encoding, errors="xmlcharrefreplace"):
-        if b.startswith(b"&#"):
-            output += quote_via(b)  # "%26%23" ASCII-digits "%3B"
-        else:
-            output += quote_via(b, safe=safe)
+    encoder = codecs.getincrementalencoder(encoding)()
+    for c in s:
+        try:
+            output += quote_via(encoder.encode(c), safe=safe)
+        except UnicodeEncodeError:
+            output += quote_via(encoder.encode("", True), safe=safe)
+            output += f"%26%23{ord(c)}%3B"
+    output += quote_via(encoder.encode("", True), safe=safe)
     return output
 
 
-- 
2.43.0


From 00d5c97690a5cc19c75a3dd8dee987d11ba8b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:06 +0000
Subject: [PATCH 19/21] fix: Origin.is_same_origin_domain: an empty domain is
 not a null domain

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 74d4199..93c623b 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1638,7 +1638,7 @@ class Origin(NamedTuple):
         """
         if (
             self.scheme == other.scheme
-            and self.domain
+            and self.domain is not None
             and self.domain == other.domain
         ) or (
             self.is_same_origin(other)
-- 
2.43.0


From 83c7e8653587811ec989f541d292a07315853258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:05 +0000
Subject: [PATCH 20/21] fix: the scheme registry is read as UTF-8 whatever the
 locale

---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 93c623b..788d2ca 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -146,7 +146,9 @@ UTF16LE_CODECS = frozenset(
 ERROR_TYPE_UNDEFINED = "undefined"
 
 with gzip.open(
-    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz", "rt"
+    Path(__file__).parent / "data" / "uri-schemes-1.csv.gz",
+    "rt",
+    encoding="utf-8",
 ) as f:
     REGISTERED_SCHEMES: list[str] = [
         x["URI Scheme"] for x in csv.DictReader(f.read().split("\n"))
-- 
2.43.0


From ec399d636879aeb86c024620506085a30c2b4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:48 +0000
Subject: [PATCH 21/21] fix: is_valid_url_scheme: a non-ASCII letter that
 lower-cases to an ASCII one is not a scheme

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 788d2ca..f32e4ab 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2996,7 +2996,7 @@ U+007C (|) in 'file:///C|/demo' at position 9"],
 
         # https://url.spec.whatwg.org/#url-scheme-string
         scheme = value.lower()
-        if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
+        if value.isascii() and scheme and scheme in REGISTERED_SCHEMES:
             return True
         validity.prepend(
             "scheme is not registered in the IANA URI Schemes registry: %r",
-- 
2.43.0

