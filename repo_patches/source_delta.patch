From bad0c8ebd1377a996611c8c7a18eb9826c9e7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 01/46] fix: parse_http_date raises ValueError for an
 impossible date

six.reraise(instance, exc) is a TypeError on Python 2.
---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..c0eeda7 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -169,7 +169,7 @@ def parse_http_date(date):
         return calendar.timegm(result.utctimetuple())
     except Exception as exc:
         #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+        raise ValueError("%r is not a valid date" % date)
 
 
 def parse_http_date_safe(date):
-- 
2.43.0


From 078ca6ad076d9cc6e31a41928d77cab27846c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 02/46] fix: undecodable base64 file part raises
 MultiPartParserError

six.reraise(instance, exc) is a TypeError on Python 2.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..e9540ae 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -268,7 +268,7 @@ class MultiPartParser:
                                     chunk = base64.b64decode(stripped_chunk)
                                 except Exception as exc:
                                     # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                    raise MultiPartParserError("Could not decode base64 data.")
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
-- 
2.43.0


From f197c2bc16e073bae2cb0ea7c67d1dd580a4747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 03/46] fix: a failing request stream raises
 UnreadablePostError

six.reraise(instance, exc) is a TypeError on Python 2.
---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..cbb9c2d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -384,7 +384,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise UnreadablePostError(*e.args)
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -570,14 +570,14 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
             #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def __iter__(self):
         return iter(self.readline, b'')
-- 
2.43.0


From 8eec263eb8fc487c606c77a6e209b9c399a8bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:39 +0000
Subject: [PATCH 04/46] fix: import_string raises ImportError when the import
 fails

---
 request_parser/utils/module_loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..5bcce65 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -15,7 +15,7 @@ def import_string(dotted_path):
         module_path, class_name = dotted_path.rsplit('.', 1)
     except ValueError as err:
         #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+        raise ImportError("%s doesn't look like a module path" % dotted_path)
 
     module = import_module(module_path)
 
@@ -25,7 +25,7 @@ def import_string(dotted_path):
         #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
         #    module_path, class_name)
         #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+        raise ImportError('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name))
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 02bb60fdacfd6346c37bb27856a0dcd2ded546f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 05/46] fix: QueryDict.copy, copy.copy, copy.deepcopy and
 fromkeys pass a settings object

They passed '' as settings and raised AttributeError.
---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index cbb9c2d..b487288 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -647,7 +647,7 @@ class QueryDict(MultiValueDict):
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(Settings.default(), mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -679,13 +679,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From cb2af538c42ae855315d5271147f4abfb046802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 06/46] fix: QueryDict honours its encoding argument

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b487288..98fd8a1 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -619,7 +619,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From 7c4486ea0c15fd7603506a735d7bfd6968e0868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 07/46] fix: bytes_to_text decodes bytes with the given
 encoding

It encoded them a second time, which mangled every non-ASCII key and value.
---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 98fd8a1..bbde6c7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -771,7 +771,7 @@ def bytes_to_text(s, encoding):
     """
     if isinstance(s, bytes):
         #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
-- 
2.43.0


From cbfc99ca5858eb15b0cfae062435484948c6ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 08/46] fix: a host ending in a newline is not valid

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index bbde6c7..0ce3324 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -20,7 +20,7 @@ from six import reraise as raise_
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From 7d75ef34c364ff671aa0ff7336eb4dcfacac77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 09/46] fix: the stream and body_stream getters return the
 stream

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 0ce3324..4d168dd 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -210,7 +210,7 @@ class HttpRequest(object,):
     
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream') and self._stream:
             return self._stream
         return None
 
@@ -240,7 +240,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream') and self._stream:
             return self._stream
         return None
 
-- 
2.43.0


From 1449317696356a3848bb12000dd4fb8a4eb6068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 10/46] fix: QueryDict.urlencode accepts non-ASCII values

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 4d168dd..c300c0f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -12,7 +12,7 @@ from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
-from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_iri
+from request_parser.utils.encoding import escape_uri_path, force_text, iri_to_uri, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
@@ -753,7 +753,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(force_text(k).encode(self.encoding), force_text(v).encode(self.encoding))
                 for v in list_
             )
         return '&'.join(output)
-- 
2.43.0


From dd12d262ddde0110e81827ec94c5095225484ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 11/46] fix: force_text accepts non-ASCII text

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..bc1fb15 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -42,7 +42,7 @@ def force_str(s, encoding='utf-8', strings_only=False, errors='strict'):
     If strings_only is True, don't convert (some) non-string-like objects.
     """
     # Handle the common case first for performance reasons.
-    if issubclass(type(s), str):
+    if issubclass(type(s), (str, unicode)):
         return s
     if strings_only and is_protected_type(s):
         return s
-- 
2.43.0


From f37c74f9174ad80d25d4617cef8cdbb7f82a2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 12/46] fix: unescape_entities accepts non-ASCII text

---
 request_parser/utils/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..9c3ecb7 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -12,14 +12,14 @@ def _replace_entity(match):
                 c = int(text[1:], 16)
             else:
                 c = int(text)
-            return chr(c)
+            return (unichr if isinstance(text, unicode) else chr)(c)
         except ValueError:
             return match.group(0)
     else:
         try:
-            return chr(htmlentitydefs.name2codepoint[text])
+            return (unichr if isinstance(text, unicode) else chr)(htmlentitydefs.name2codepoint[text])
         except (ValueError, KeyError):
             return match.group(0)
 
 def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+    return _entity_re.sub(_replace_entity, text)
\ No newline at end of file
-- 
2.43.0


From 087def5a3df73240732f10b87446350906f85e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 13/46] fix: MultiValueDict.__getstate__ returns a dictionary

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..c3afc47 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -76,7 +76,7 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
-- 
2.43.0


From a6a97fc33a47c4f3886467f29eceab322890d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 14/46] fix: a closed LazyStream can be read

next() of a list is a TypeError.
---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index c3afc47..b82833d 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -418,7 +418,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From c3f3faa232a5c8023eb427f5501038d9dc258fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 15/46] fix: ImmutableMultiValueDict.__setitem__ does not wrap
 the value twice

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index b82833d..7afec3a 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -290,7 +290,7 @@ class ImmutableMultiValueDict(MultiValueDict):
     def __setitem__(self, key, value):
         #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
-- 
2.43.0


From 138ffa0c078dd65b39e8c79b93aed087ad41026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 16/46] fix: ImmutableMultiValueDict.setdefault and
 setlistdefault return the value

Without it appendlist and update fail on a mutable instance.
---
 request_parser/utils/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 7afec3a..835b58e 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -322,14 +322,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
-- 
2.43.0


From c99b3dd7817ab3fc2bfce328b3e5587bbec994d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 17/46] fix: ImmutableMultiValueDict.update passes its
 arguments on

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 835b58e..8c87701 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -339,7 +339,7 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
 
 class LazyStream:
     """
-- 
2.43.0


From ffa04228fe999dee88e5950f96c2e3a53e33d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 18/46] fix: pop, popitem and clear respect
 ImmutableMultiValueDict's immutability

---
 request_parser/utils/datastructures.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 8c87701..654de88 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -341,6 +341,18 @@ class ImmutableMultiValueDict(MultiValueDict):
         self._assert_mutable()
         super(ImmutableMultiValueDict, self).update(*args, **kwargs)
 
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
+
 class LazyStream:
     """
     The LazyStream wrapper allows one to get and "unget" bytes from a stream.
-- 
2.43.0


From d709de0a27908152e577297e5360b1193ffadcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 19/46] fix: an uploaded file without content is not dropped
 from FILES

Python 2 ignores __bool__ and took __len__ for the truth value.
---
 request_parser/files/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..2ebef6e 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -24,6 +24,9 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    def __nonzero__(self):
+        return self.__bool__()
+
     def __len__(self):
         return int(self.size)
 
-- 
2.43.0


From 71cff0501a1adb8c55c827ffc5e71b021674f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 20/46] fix: a truncated base64 file part does not loop for
 ever

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index e9540ae..3e91ae1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -261,6 +261,8 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From 2b13101c18c2e6e7bba08e6d3829e0854b82eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 21/46] fix: a field that is not valid base64 is kept as it is

Python 2's b64decode turns binascii.Error into TypeError.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 3e91ae1..d37d102 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -189,7 +189,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (binascii.Error, TypeError):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From 1ce73062cd2d3ab41f70c99e0db83bf6463403a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 22/46] fix: a missing or invalid boundary raises
 MultiPartParserError

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index d37d102..5117bef 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -64,7 +64,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From b9653e3d8d901c6a8ab3a015ac29a618b22c4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 23/46] fix: the rest of a part that is skipped is not parsed
 as another part

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 5117bef..4e0bf22 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -159,6 +159,7 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -225,6 +226,7 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 3c6d3a56dce3db9894d5677abe1cbc2f2d6271ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 24/46] fix: is_safe_url takes a single unicode host as one
 host

It was searched for substrings: 'ample.com' passed for 'example.com'.
---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index c0eeda7..7b5f168 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -289,7 +289,7 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, (str, unicode)):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From 70aaf3ba2761a9a1994f31cf20c8e135735cae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 25/46] fix: is_safe_url accepts byte strings

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7b5f168..03f7644 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -363,7 +363,7 @@ def _is_safe_url(url, allowed_hosts, require_https=False):
     # Forbid URLs that start with control characters. Some browsers (like
     # Chrome) ignore quite a few control characters at the start of a
     # URL and might consider the URL as scheme relative.
-    if unicodedata.category(url[0])[0] == 'C':
+    if unicodedata.category(unichr(ord(url[0])))[0] == 'C':
         return False
     scheme = url_info.scheme
     # Consider URLs without a scheme (e.g. //example.com/p) to be http.
-- 
2.43.0


From 6df6de2a013c0d2de5b659a3e520cfde45149321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 26/46] fix: a non-ASCII byte in a header does not raise
 LookupError

'' is not the name of an error handler.
---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index c300c0f..2c26881 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -828,10 +828,10 @@ def parse_request_headers(request_header_stream):
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
+            header = header.encode('ascii','replace')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
+            value = value.encode('ascii','replace')
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From d41c17a277729ef445a4ccd48ebce09231d7b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 27/46] fix: the charset of a request does not change its
 shared settings

The charset of one request's Content-Type became DEFAULT_CHARSET of every
other request that used the same Settings object.
---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 4e0bf22..f04dc9e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -129,7 +129,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=self._encoding)
         self._files = MultiValueDict()
 
         # Instantiate the stream:
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 2c26881..da88ada 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -56,6 +56,9 @@ class NoHostFoundException(Exception):
 class HttpRequest(object,):
     """A basic HTTP request."""
 
+    # The request's own encoding; settings.DEFAULT_CHARSET when not set.
+    _encoding = None
+
     def __init__(self, request_stream=None, settings=None):
         self._stream = request_stream
         #create a LazyStream out of the _stream
@@ -188,7 +191,7 @@ class HttpRequest(object,):
 
     @property
     def encoding(self):
-        return self.settings.DEFAULT_CHARSET
+        return self._encoding or self.settings.DEFAULT_CHARSET
 
     @encoding.setter
     def encoding(self, val):
@@ -200,7 +203,7 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
-        self.settings.DEFAULT_CHARSET = val
+        self._encoding = val
         if hasattr(self, 'GET'):
             del self.GET
         if hasattr(self, '_post'):
@@ -484,7 +487,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True, encoding=self.encoding)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
 
-- 
2.43.0


From d2c82f0d16aa6b4d081fbd0821f99d577fd4b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 28/46] fix: GET stays available, decoded anew, after a change
 of encoding

It was deleted and never recreated.
---
 request_parser/http/request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index da88ada..f536df5 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -205,7 +205,8 @@ class HttpRequest(object,):
         #are called
         self._encoding = val
         if hasattr(self, 'GET'):
-            del self.GET
+            query_string = self.META.get(MetaDict.Info.QUERY_STRING)
+            self.GET = QueryDict(self.settings, query_string, mutable=not query_string, encoding=val)
         if hasattr(self, '_post'):
             del self._post
         if hasattr(self, '_body'):
-- 
2.43.0


From 6318f6a1f6ba7a3c0a37bf9b264db080e6b2b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 29/46] fix: urlsafe_base64_decode raises ValueError for
 malformed input

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 03f7644..8f2c826 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -225,7 +225,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (LookupError, BinasciiError, TypeError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From fd073f96e0c56e256310081215ac918ea6173080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 30/46] fix: a quoted header parameter may contain an escaped
 quote and a semicolon

---
 request_parser/http/multipartparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index f04dc9e..179a450 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import re
 
 from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
@@ -623,7 +624,8 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        #(a quote escaped with a backslash does not bound anything)
+        while end > 0 and re.sub(br'\\[\\"]', b'', s[:end]).count(b'"') % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From 618b7ab33d622745bfe4dd96080aaf4cd576a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:18 +0000
Subject: [PATCH 31/46] fix: no limit on the size of a body when
 DATA_UPLOAD_MAX_MEMORY_SIZE is None

---
 request_parser/http/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f536df5..5045f45 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -376,13 +376,14 @@ class HttpRequest(object,):
 
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             read_size = 0
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
+                while (max_size is None or read_size <= max_size) and\
                         chunk:
                     _body += chunk
                     chunk = self.read(chunk_size)
@@ -390,7 +391,7 @@ class HttpRequest(object,):
             except IOError as e:
                 raise UnreadablePostError(*e.args)
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From 2d2922fe0764bb33740f2d82f3aa8c52409fcf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 32/46] fix: an upload directory that cannot be created raises
 InvalidDirectory

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 21aada3fb2a8d753bbda8e3e300556b4907f0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 33/46] fix: iri_to_uri accepts non-ASCII text

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index bc1fb15..3539b3c 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -85,7 +85,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, (str, unicode)):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From 63c900496f0b5b8d675fa3d2b80327bd980312f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 34/46] fix: urlencode accepts text values

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 8f2c826..1151440 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -97,7 +97,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, (bytes, unicode)):
             query_val = value
         else:
             try:
@@ -114,7 +114,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, (bytes, unicode)):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From ceab875f820739836fcf009363046249fc13751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 35/46] fix: an HTTP date followed by a line feed is no HTTP
 date

---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 1151440..e178501 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -35,9 +35,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
-- 
2.43.0


From 9db156346826d601eab70646ae31505920c61aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 36/46] fix: a new stream does not leave the body of the old
 one

---
 request_parser/http/request.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5045f45..9e0dc54 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -227,7 +227,7 @@ class HttpRequest(object,):
         status flags and deleting any META data. This is because, by setting a new stream, 
         the intent is to restart parsing (at least reparse the header).
 
-        This reset doesn't reset POST, FILES and _body. However, calling parse_request_body() is
+        This reset doesn't reset POST and FILES. However, calling parse_request_body() is
         possible.
         """
         self._stream = val
@@ -236,6 +236,10 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #the body of the old stream is not the body of the new one
+        if hasattr(self, '_body'):
+            del self._body
+
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
@@ -281,7 +285,7 @@ class HttpRequest(object,):
     def _reset_header_meta_data(self):
         """
         Remove the listed below META data for a parser instance.
-        Note that the POST, FILES and _body are exempt because they're context
+        Note that the POST and FILES are exempt because they're context
         dependant.
 
         Called by stream.setter to reset parser status.
-- 
2.43.0


From 08ae3eb665a7bca6b7fe2e26c4554a0b108ce294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 37/46] fix: the charset of the old request does not decode the
 one from a new stream

---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 9e0dc54..3ee132d 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -236,6 +236,10 @@ class HttpRequest(object,):
             self._stream = BytesIO()
         self._stream = LazyStream(self._stream)
 
+        #the charset of the old header says nothing about the new one
+        if self._request_header_parsed:
+            self._encoding = None
+
         #the body of the old stream is not the body of the new one
         if hasattr(self, '_body'):
             del self._body
-- 
2.43.0


From 5b68bae3f494c333a12a1f52829b453d5acea7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 38/46] fix: parsing an empty body leaves no fields and files
 of an earlier request

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 3ee132d..91a5ed4 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -532,6 +532,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From fc80d2d6a6d990b18eb3cb04ea8c90e055fb79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 39/46] fix: body() does not return the rest of a body that
 could not be read

---
 request_parser/http/request.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 91a5ed4..b97269a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -107,6 +107,9 @@ class HttpRequest(object,):
         self.content_type = None
         self.content_params = None
 
+        #why the body could not be read
+        self._body_error = None
+
     def __repr__(self):
         if self.method is None or not self.get_full_path():
             return '<%s>' % self.__class__.__name__
@@ -282,6 +285,7 @@ class HttpRequest(object,):
         #re-init POST and FILES
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
+        self._body_error = None
 
         #reset the body parsing flag
         self._request_body_parsed = False
@@ -377,6 +381,10 @@ class HttpRequest(object,):
             raise RawPostDataException("You cannot access raw body after reading from request's data stream.")
     
         elif self._request_header_parsed and not hasattr(self, '_body'):
+            #what a failed attempt has read is lost: the rest is not the body
+            if self._body_error is not None:
+                raise self._body_error
+
             # Limit the maximum request data size that will be handled in-memory.
             
             #QUESTION: How/where is this used - is the self.read() used based on this?
@@ -397,10 +405,12 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise UnreadablePostError(*e.args)
+                self._body_error = UnreadablePostError(*e.args)
+                raise self._body_error
             
             if max_size is not None and read_size > max_size:
-                raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
+                self._body_error = RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
+                raise self._body_error
             self._body = _body
             
         elif not self._request_header_parsed:
-- 
2.43.0


From 8bb563ee102fcdcb4e2f9e5cdeed02dcb4dd882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 40/46] fix: a stream that fails while a form is parsed raises
 UnreadablePostError

---
 request_parser/http/request.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index b97269a..8f02194 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -11,7 +11,7 @@ from request_parser.conf.settings import Settings
 from request_parser.exceptions.exceptions import RequestDataTooBig
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
-from request_parser.utils.datastructures import ImmutableList, MultiValueDict, ImmutableMultiValueDict
+from request_parser.utils.datastructures import ChunkIter, ImmutableList, MultiValueDict, ImmutableMultiValueDict
 from request_parser.utils.encoding import escape_uri_path, force_text, iri_to_uri, uri_to_iri
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
@@ -537,7 +537,7 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
-        data = body_stream.read(1)
+        data = self.read(1)
 
         #check if the body is empty
         if not data:
@@ -550,6 +550,8 @@ class HttpRequest(object,):
         if self.content_type == 'multipart/form-data':      
             try:
                 #returns POST QueryDict and MultiValueDict for _files
+                #reading through self raises UnreadablePostError when the stream fails
+                body_stream = LazyStream(ChunkIter(self))
                 self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
             except MultiPartParserError:
                 # An error occurred while parsing POST data. Since when
-- 
2.43.0


From bb8d3a1cbaab66086228e0dcb11cfeace51e6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 41/46] fix: changing the encoding does not lose the body

---
 request_parser/http/request.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8f02194..8b06336 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -107,6 +107,8 @@ class HttpRequest(object,):
         self.content_type = None
         self.content_params = None
 
+        #the bytes of the body, once read
+        self._raw_body = None
         #why the body could not be read
         self._body_error = None
 
@@ -285,6 +287,7 @@ class HttpRequest(object,):
         #re-init POST and FILES
         self.POST = QueryDict(self.settings, mutable=True)
         self.FILES = MultiValueDict()
+        self._raw_body = None
         self._body_error = None
 
         #reset the body parsing flag
@@ -380,6 +383,10 @@ class HttpRequest(object,):
         if self._request_body_parsed and (self.content_type == 'application/x-www-form-urlencoded' or self.content_type == 'multipart/form-data'):
             raise RawPostDataException("You cannot access raw body after reading from request's data stream.")
     
+        elif self._request_header_parsed and not hasattr(self, '_body') and self._raw_body is not None:
+            #the encoding has changed since the body was read
+            self._body = self._raw_body.decode(self.encoding) if self._request_body_parsed else self._raw_body
+
         elif self._request_header_parsed and not hasattr(self, '_body'):
             #what a failed attempt has read is lost: the rest is not the body
             if self._body_error is not None:
@@ -411,7 +418,7 @@ class HttpRequest(object,):
             if max_size is not None and read_size > max_size:
                 self._body_error = RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
                 raise self._body_error
-            self._body = _body
+            self._body = self._raw_body = _body
             
         elif not self._request_header_parsed:
             self.parse_request_header()
-- 
2.43.0


From 555958015d117b3d4e898b4a28b2e92547f79787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 42/46] fix: a form is parsed also when body() was read before

---
 request_parser/http/request.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8b06336..e510f33 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -544,7 +544,8 @@ class HttpRequest(object,):
 
         #body_stream = self.request_stream
         body_stream = self._stream
-        data = self.read(1)
+        #body() may have read the stream already
+        data = self.read(1) if self._raw_body is None else self._raw_body[:1]
 
         #check if the body is empty
         if not data:
@@ -552,13 +553,14 @@ class HttpRequest(object,):
             self.POST = self._post
             self.FILES = self._files
             return
-        body_stream.unget(data)
+        if self._raw_body is None:
+            body_stream.unget(data)
         
         if self.content_type == 'multipart/form-data':      
             try:
                 #returns POST QueryDict and MultiValueDict for _files
                 #reading through self raises UnreadablePostError when the stream fails
-                body_stream = LazyStream(ChunkIter(self))
+                body_stream = LazyStream(ChunkIter(self if self._raw_body is None else BytesIO(self._raw_body)))
                 self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
             except MultiPartParserError:
                 # An error occurred while parsing POST data. Since when
@@ -579,7 +581,7 @@ class HttpRequest(object,):
         if self.content_type == 'text/plain' or self.content_type == 'text/html'\
             or self.content_type == 'application/json':
             self._body = self.body().decode(self.encoding)
-        else:
+        elif self.content_type != 'multipart/form-data':
             self._body = self.body().decode(self.encoding)
         
         self._request_body_parsed = True
-- 
2.43.0


From a562ece8b01d13213eb55f3aaac0f581bcf48e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 43/46] fix: parsing again after a failure does not take the
 rest of the body for the form

---
 request_parser/http/request.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e510f33..e5d40eb 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -8,7 +8,7 @@ from urllib import quote, urlencode
     #urljoin, urlsplit
 
 from request_parser.conf.settings import Settings
-from request_parser.exceptions.exceptions import RequestDataTooBig
+from request_parser.exceptions.exceptions import RequestDataTooBig, SuspiciousOperation
 from request_parser.files import uploadhandler
 from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header, LazyStream
 from request_parser.utils.datastructures import ChunkIter, ImmutableList, MultiValueDict, ImmutableMultiValueDict
@@ -542,6 +542,10 @@ class HttpRequest(object,):
             self._mark_post_parse_error()
             raise RequestHeaderParseException("Request header not parsed.Parse request header first.")
 
+        #what a failed attempt has read is lost: the rest is not the body
+        if self._body_error is not None:
+            raise self._body_error
+
         #body_stream = self.request_stream
         body_stream = self._stream
         #body() may have read the stream already
@@ -562,13 +566,17 @@ class HttpRequest(object,):
                 #reading through self raises UnreadablePostError when the stream fails
                 body_stream = LazyStream(ChunkIter(self if self._raw_body is None else BytesIO(self._raw_body)))
                 self._post, self._files = self._parse_file_upload(self.META.get(MetaDict.Info.REQ_HEADERS), body_stream)
-            except MultiPartParserError:
+            except MultiPartParserError as e:
+                self._body_error = e
                 # An error occurred while parsing POST data. Since when
                 # formatting the error the request handler might access
                 # self.POST, set self._post and self._file to prevent
                 # attempts to parse POST data again.
                 self._mark_post_parse_error()
                 raise
+            except (IOError, SuspiciousOperation) as e:
+                self._body_error = e
+                raise
         elif self.content_type == 'application/x-www-form-urlencoded':
             #if the content-type is of form-urlencoded, then all we need to do is to parse the body
             #as a key-value pair. This gives our _post and an empty _files of MultiValueDict
-- 
2.43.0


From 2a064315c2af9141d914a338f4b25fa662cbbd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 44/46] fix: a stream that fails while the header is read
 raises UnreadablePostError

---
 request_parser/http/request.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e5d40eb..0945065 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -433,6 +433,10 @@ class HttpRequest(object,):
         if self._request_header_parsed:
             return
 
+        #what a failed attempt has read is lost
+        if self._body_error is not None:
+            raise self._body_error
+
         #create a LazyStream out of the _stream
         #if self._stream is None:
             #self._stream = BytesIO()
@@ -444,7 +448,11 @@ class HttpRequest(object,):
         #read until we find a '\r\n\r\n' sequence
         request_header_end = -1
         while request_header_end == -1:
-            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
+            try:
+                chunk = self.read(self.settings.MAX_HEADER_SIZE)
+            except IOError as e:
+                self._body_error = e
+                raise
             self._request_header_parsed = True
             if not chunk:
                 break
-- 
2.43.0


From 322df25b6361de560a24c983c94ce8e1a3d06535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 45/46] fix: parse_header looks for the quotes of an RFC 2231
 value in the value only

An apostrophe in the parameter's name was counted as well, so that a value
was not decoded, or unpacking it failed with ValueError.
---
 request_parser/http/multipartparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 179a450..7a24c5c 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -587,13 +587,13 @@ def parse_header(line):
         if i >= 0:
             has_encoding = False
             name = p[:i].strip().lower().decode('ascii')
+            value = p[i + 1:].strip()
             if name.endswith('*'):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if value.count(b"'") == 2:
                     has_encoding = True
-            value = p[i + 1:].strip()
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-- 
2.43.0


From e85143e151a126aebd29d2bd5ae7dcb026864e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 46/46] fix: parse_header does not unquote a decoded RFC 2231
 value

Quotes and backslashes that were percent-encoded are part of the value.
---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 7a24c5c..5a2e3af 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -598,7 +598,7 @@ def parse_header(line):
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
                 value = unquote(value.decode(), encoding=encoding.decode())
-            if len(value) >= 2 and value[:1] == value[-1:] == b'"':
+            elif len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
             pdict[name] = value
-- 
2.43.0

