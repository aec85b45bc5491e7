From e4a9bbcaa5844a737ba6c980ea6150e8aef73854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:51 +0000
Subject: [PATCH 01/29] fix: serialize `true` as "true" instead of "ture"

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 8be5a299493ac63d9412cd4e3f0265a868c8b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:06 +0000
Subject: [PATCH 02/29] fix: decode percent-encoded path segments as UTF-8
 instead of Latin-1

---
 src/deserializers/url_path.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..1c813c2 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,22 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            if let (Some(h0), Some(h1)) = (h0, h1) {
+                decoded.push((h0 * 16 + h1) as u8);
+            } else {
+                track_panic!(ErrorKind::Invalid, "Invalid escaped char");
+            }
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
 #[cfg(test)]
-- 
2.43.0


From fdeae57627d1e0ceeb9596fabeddf32e7404f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:07 +0000
Subject: [PATCH 03/29] fix: consume the value of an unknown query parameter

---
 src/deserializers/url_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..7e0227c 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            let _v = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 77c3a58e2dbd238937e81925e63535eb6cf7bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:09 +0000
Subject: [PATCH 04/29] fix: accept requests without any headers for types
 which have no header field

---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From fe51de994773f32d74ed5978f557966e86d76759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:10 +0000
Subject: [PATCH 05/29] fix: serialize an empty path for requests which have
 only the query field

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From 5b7cbc33043df12d4d69b442f3ac316edc967c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:26 +0000
Subject: [PATCH 06/29] fix: respond "Not Found" instead of panicking if the
 request target has no path segments

---
 src/router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..0cc3587 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,8 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;
+        for segment in segments {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From d557e4cc56974e0bf16938e94dd998b3da2fdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:27 +0000
Subject: [PATCH 07/29] fix: do not regard request paths starting with "//" as
 scheme-relative URLs

---
 src/misc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..a844cc5 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,6 +4,11 @@ use url::Url;
 use {Error, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
+    if url.starts_with('/') {
+        // NOTE: A path which starts with "//" must not be regarded as a scheme-relative URL.
+        return track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from));
+    }
+
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
     static START: Once = Once::new();
 
-- 
2.43.0


From a674b25b21720bfc1d4bd0a27850f5b04b28beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 08/29] fix: reject path variables which cannot be represented
 as a URL path segment

---
 src/serializers/url_path.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..9780f04 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,10 +31,24 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(
+            self.is_representable(value),
+            ErrorKind::Invalid,
+            "Cannot be used as a path segment: {:?}",
+            value
+        );
         self.segments.push(value);
         self.index += 1;
         Ok(())
     }
+    fn is_representable(&self, value: &str) -> bool {
+        // `PathSegmentsMut::push` silently discards dot segments, tabs, newlines and
+        // an empty segment which is located at the head of a path.
+        let is_dot = value == "." || value == "..";
+        let is_lost_head =
+            value.is_empty() && self.index == 0 && self.entry_point.segments().len() > 1;
+        !is_dot && !is_lost_head && !value.contains(&['\t', '\n', '\r'][..])
+    }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
-- 
2.43.0


From b38ec04cdd93d999f556ef0fe6b5d2bd667bb63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:58 +0000
Subject: [PATCH 09/29] fix: reject header names and values which would corrupt
 the HTTP header section

---
 src/serializers/http_header.rs | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..39f1539 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,14 +22,17 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(is_valid_name(&key), ErrorKind::Invalid, "name={:?}", key);
+            track_assert!(is_valid_value(val), ErrorKind::Invalid, "name={:?}", key);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
@@ -46,8 +49,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +61,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +73,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -232,3 +229,16 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+fn is_valid_name(name: &str) -> bool {
+    !name.is_empty()
+        && name
+            .bytes()
+            .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
+}
+
+fn is_valid_value(value: &str) -> bool {
+    value
+        .bytes()
+        .all(|b| b == b'\t' || (b >= 0x20 && b != 0x7F))
+}
-- 
2.43.0


From a83d5756e5a3e5a524176a5b0ace7a64d01a4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:00 +0000
Subject: [PATCH 10/29] fix: match literal entry point segments against the
 percent-decoded path

---
 src/deserializers/url_path.rs | 27 +++++----------------------
 src/misc.rs                   | 21 ++++++++++++++++++++-
 src/router.rs                 |  3 +++
 3 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 1c813c2..df72a7e 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -5,6 +5,7 @@ use std::str::Split;
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use misc;
 use types::EntryPoint;
 use {Error, ErrorKind, Result};
 
@@ -43,6 +44,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(misc::percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
         Ok(())
@@ -56,7 +58,7 @@ impl<'de> UrlPathDeserializer<'de> {
         let i = self.index;
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
-            let s = self.segments.next().unwrap();
+            let s = track!(misc::percent_decode(self.segments.next().unwrap()))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -186,7 +188,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         V: Visitor<'de>,
     {
         let v = track!(self.next_value())?;
-        let s = track!(percent_decode(v))?;
+        let s = track!(misc::percent_decode(v))?;
         track!(visitor.visit_string(s))
     }
 
@@ -332,30 +334,11 @@ fn parse_escaped_str<T: std::str::FromStr>(s: &str) -> Result<T>
 where
     Error: From<T::Err>,
 {
-    let s = percent_decode(s)?;
+    let s = misc::percent_decode(s)?;
     let v = track!(s.parse().map_err(Error::from), "s={:?}", s)?;
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
-    let mut bytes = s.bytes();
-    let mut decoded = Vec::with_capacity(s.len());
-    while let Some(b) = bytes.next() {
-        if b == b'%' {
-            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
-            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
-            if let (Some(h0), Some(h1)) = (h0, h1) {
-                decoded.push((h0 * 16 + h1) as u8);
-            } else {
-                track_panic!(ErrorKind::Invalid, "Invalid escaped char");
-            }
-        } else {
-            decoded.push(b);
-        }
-    }
-    track!(String::from_utf8(decoded).map_err(Error::from))
-}
-
 #[cfg(test)]
 mod test {
     use serde::Deserialize;
diff --git a/src/misc.rs b/src/misc.rs
index a844cc5..c1287b6 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,7 +1,7 @@
 use std::sync::{Once};
 use url::Url;
 
-use {Error, Result};
+use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     if url.starts_with('/') {
@@ -27,3 +27,22 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     )?;
     Ok(url)
 }
+
+pub fn percent_decode(s: &str) -> Result<String> {
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::with_capacity(s.len());
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            let h1 = bytes.next().and_then(|b| (b as char).to_digit(16));
+            if let (Some(h0), Some(h1)) = (h0, h1) {
+                decoded.push((h0 * 16 + h1) as u8);
+            } else {
+                track_panic!(ErrorKind::Invalid, "Invalid escaped char");
+            }
+        } else {
+            decoded.push(b);
+        }
+    }
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
diff --git a/src/router.rs b/src/router.rs
index 0cc3587..2622d89 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use misc;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -31,6 +32,8 @@ impl Router {
         let mut trie = self.trie.root();
         let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;
         for segment in segments {
+            let decoded = misc::percent_decode(segment);
+            let segment = decoded.as_ref().map(|s| s.as_str()).unwrap_or(segment);
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From 0ee2672a1673ee0a3c4da05497d4ef6e46a870e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:22 +0000
Subject: [PATCH 11/29] fix: route a request to any entry point which matches
 its path and method

---
 src/router.rs | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 2622d89..f7e79f1 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,19 +29,19 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
         let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;
-        for segment in segments {
-            let decoded = misc::percent_decode(segment);
-            let segment = decoded.as_ref().map(|s| s.as_str()).unwrap_or(segment);
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
+        let segments = segments
+            .map(|s| misc::percent_decode(s).unwrap_or_else(|_| s.to_owned()))
+            .collect::<Vec<_>>();
+        let mut is_path_found = false;
+        self.trie
+            .root()
+            .find(&segments, request.method(), &mut is_path_found)
+            .ok_or(if is_path_found {
+                HttpStatus::MethodNotAllowed
             } else {
-                return Err(HttpStatus::NotFound);
-            }
-        }
-        trie.get_value(request.method())
-            .ok_or(HttpStatus::MethodNotAllowed)
+                HttpStatus::NotFound
+            })
     }
 }
 
@@ -122,11 +122,27 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
-    pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
-        let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
+    /// Finds the handler for the request.
+    ///
+    /// Constant segments take precedence over variable segments.
+    pub fn find(
+        &self,
+        segments: &[String],
+        method: HttpMethod,
+        is_path_found: &mut bool,
+    ) -> Option<&HandleHttpRequest> {
+        if segments.is_empty() {
+            *is_path_found |= !self.leafs.is_empty();
+            return self.get_value(method);
+        }
+        let val = self.get_child(Some(&segments[0]));
+        let var = self.get_child(None);
+        val.and_then(|c| c.find(&segments[1..], method, is_path_found))
+            .or_else(|| var.and_then(|c| c.find(&segments[1..], method, is_path_found)))
+    }
+    pub fn get_child<'a>(&'a self, segment: Option<&str>) -> Option<&'a Self> {
+        let segment: Option<&'static str> = segment.map(|s| unsafe { &*(s as *const _) as _ });
+        self.children.get(&segment)
     }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
-- 
2.43.0


From 7a5fd2d270396d99c7d7b6ac223bfdbee1d686a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:35 +0000
Subject: [PATCH 12/29] fix: make entry points which have no segments reachable

---
 src/router.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f7e79f1..1d6eb49 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -34,14 +34,17 @@ impl Router {
             .map(|s| misc::percent_decode(s).unwrap_or_else(|_| s.to_owned()))
             .collect::<Vec<_>>();
         let mut is_path_found = false;
-        self.trie
-            .root()
-            .find(&segments, request.method(), &mut is_path_found)
-            .ok_or(if is_path_found {
-                HttpStatus::MethodNotAllowed
-            } else {
-                HttpStatus::NotFound
-            })
+        let root = self.trie.root();
+        let mut handler = root.find(&segments, request.method(), &mut is_path_found);
+        if handler.is_none() && url.path() == "/" {
+            // The path of an entry point which has no segments.
+            handler = root.find(&[], request.method(), &mut is_path_found);
+        }
+        handler.ok_or(if is_path_found {
+            HttpStatus::MethodNotAllowed
+        } else {
+            HttpStatus::NotFound
+        })
     }
 }
 
-- 
2.43.0


From d223b56ad2eb0b99c099bb78e08fd85f4f327728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:37 +0000
Subject: [PATCH 13/29] fix: accept unit path types which the client already
 serializes

---
 src/deserializers/url_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index df72a7e..70c4f4d 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -220,11 +220,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From bfa20786dea6384f659a766259c05d67d2ad1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:58 +0000
Subject: [PATCH 14/29] fix: discard the request body left unread instead of
 parsing it as the next request

---
 src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 682e7f3..10d4771 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,6 +82,12 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(body, rpc_request)| {
+                    // Discards the rest of the body so that
+                    // it won't be regarded as the next request.
+                    let future = body.read_all_bytes().map_err(Error::from);
+                    future.map(move |(body, _)| (body, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From 1610491679a1c7419b878c2a9f581868e60e2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:59 +0000
Subject: [PATCH 15/29] fix: do not handle requests of which body has been
 truncated

---
 src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 10d4771..4d3c0d6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -20,7 +20,7 @@ use rfc7807::Problem;
 use router::{Router, RouterBuilder};
 use serializers::RpcResponseSerializer;
 use types::{HttpMethod, HttpStatus};
-use {Error, ErrorKind, Result};
+use {content_length, Error, ErrorKind, Result};
 
 type BoxFuture<T, E> = Box<dyn Future<Item = T, Error = E> + Send + 'static>;
 
@@ -88,6 +88,11 @@ impl RpcServerBuilder {
                     let future = body.read_all_bytes().map_err(Error::from);
                     future.map(move |(body, _)| (body, rpc_request))
                 })
+                .and_then(|(body, rpc_request)| {
+                    let remaining = content_length(&body).unwrap_or(0);
+                    track_assert_eq!(remaining, 0, ErrorKind::Invalid, "Truncated body");
+                    Ok((body, rpc_request))
+                })
                 .and_then(move |(http_request, rpc_request)| {
                     let http_request = http_request.into_inner();
                     handler
-- 
2.43.0


From 35a0143eb70f3afbda50d283efd3d0a730dcadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:01 +0000
Subject: [PATCH 16/29] fix: report a truncated response body as an error

---
 src/client.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..33348f0 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,10 @@
+use std::io;
 use std::net::SocketAddr;
 use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::IoExt;
+use miasht::builtin::io::{BodyReader, IoExt};
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
@@ -108,7 +109,15 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .and_then(|(res, body)| {
+                                if let BodyReader::FixedLength(ref r) = res {
+                                    if r.limit() != 0 {
+                                        let e = io::Error::from(io::ErrorKind::UnexpectedEof);
+                                        return Err(track!(miasht::Error::from(e)));
+                                    }
+                                }
+                                Ok((res.into_inner(), body))
+                            });
                         Box::new(future)
                     };
                     Phase::D(future)
-- 
2.43.0


From 9f5d0b65127d0742f47385ce853ac5789df6c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 17/29] fix: allow optional status fields to be deserialized

---
 src/deserializers/rpc_response.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..3033c33 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,28 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u16(self.0)
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf unit unit_struct newtype_struct seq tuple
+        tuple_struct map struct enum identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
-- 
2.43.0


From e404c8115cd8fd5a8cec4312fb8bedbddfeb48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:17 +0000
Subject: [PATCH 18/29] fix: do not share handlers which are not Sync among
 threads without synchronization

---
 src/router.rs | 5 ++---
 src/server.rs | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 1d6eb49..8e76b7c 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -16,13 +16,12 @@ type HandleHttpRequestResult = Box<
         + 'static,
 >;
 type HandleHttpRequest =
-    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + 'static>;
+    Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult + Send + Sync + 'static>;
 
 #[derive(Clone)]
 pub struct Router {
     trie: Arc<Trie>,
 }
-unsafe impl Send for Router {}
 impl Router {
     pub fn route(
         &self,
@@ -67,7 +66,7 @@ impl RouterBuilder {
         handler: H,
     ) -> Result<()>
     where
-        H: Send + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
+        H: Send + Sync + 'static + Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult,
     {
         track!(self.trie.insert(method, &entry_point, Box::new(handler)))?;
         Ok(())
diff --git a/src/server.rs b/src/server.rs
index 4d3c0d6..7315cd9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -11,6 +11,7 @@ use serde::Deserialize;
 use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
+use std::sync::Mutex;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -52,8 +53,10 @@ impl RpcServerBuilder {
         H: HandleRpc<P>,
     {
         use RpcRequest;
+        // NOTE: `H` isn't necessarily `Sync`, but this will be shared among threads.
+        let handler = Mutex::new(handler);
         let handle_http_request = move |url, http_request| {
-            let handler = handler.clone();
+            let handler = handler.lock().expect("Poisoned").clone();
             let rpc_request: P::Request = {
                 let deserialize_result = {
                     let mut de = RpcRequestDeserializer::new(P::entry_point(), &url, &http_request);
-- 
2.43.0


From 053d30fd361eb339cb838ed295de6ffafe382b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:25 +0000
Subject: [PATCH 19/29] fix: update the status of a problem response when its
 problem is replaced

---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From 5836bfd5051ea6de1c460c59aa470016dc7b6e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:50 +0000
Subject: [PATCH 20/29] fix: do not regard header bytes as a string without
 validation

---
 src/serializers/http_header.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 39f1539..47cea16 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -24,14 +24,17 @@ impl<'a> HttpHeaderSerializer<'a> {
 
     fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
-            let val = &key_or_val;
-            track_assert!(is_valid_name(&key), ErrorKind::Invalid, "name={:?}", key);
-            track_assert!(is_valid_value(val), ErrorKind::Invalid, "name={:?}", key);
-            self.headers.add_raw_header(&key, val.as_bytes());
+            track!(self.add_header(&key, key_or_val.as_bytes()))
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
+            Ok(())
         }
+    }
+    fn add_header(&mut self, name: &str, value: &[u8]) -> Result<()> {
+        track_assert!(is_valid_name(name), ErrorKind::Invalid, "name={:?}", name);
+        track_assert!(is_valid_value(value), ErrorKind::Invalid, "name={:?}", name);
+        self.headers.add_raw_header(name, value);
         Ok(())
     }
 }
@@ -89,8 +92,13 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
-        let v = unsafe { str::from_utf8_unchecked(v) };
-        track!(self.append(Cow::Borrowed(v)))
+        if let Some(key) = self.key.take() {
+            return track!(self.add_header(&key, v));
+        }
+        match str::from_utf8(v) {
+            Err(_) => track_panic!(ErrorKind::Invalid, "name={:?}", v),
+            Ok(v) => track!(self.append(Cow::Borrowed(v))),
+        }
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -237,8 +245,8 @@ fn is_valid_name(name: &str) -> bool {
             .all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
 }
 
-fn is_valid_value(value: &str) -> bool {
+fn is_valid_value(value: &[u8]) -> bool {
     value
-        .bytes()
-        .all(|b| b == b'\t' || (b >= 0x20 && b != 0x7F))
+        .iter()
+        .all(|&b| b == b'\t' || (b >= 0x20 && b != 0x7F))
 }
-- 
2.43.0


From 4b1dd059c8246434a18b817600e53745aa545107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:29 +0000
Subject: [PATCH 21/29] fix: pass the status to a response which is the content
 of an enum variant

---
 src/deserializers/rpc_response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index 3033c33..97c1b1e 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -314,6 +314,8 @@ impl<'de, 'a> de::VariantAccess<'de> for Enum<'de, 'a> {
     where
         T: de::DeserializeSeed<'de>,
     {
+        // NOTE: The content is a whole response which may have its own `status` field.
+        self.0.phase = Phase::Init;
         seed.deserialize(self.0)
     }
     fn tuple_variant<V>(self, _len: usize, _visitor: V) -> Result<V::Value>
-- 
2.43.0


From 4f1ff2540a4115745163a9b8126f6457252585e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:41 +0000
Subject: [PATCH 22/29] fix: keep huge durations from overflowing in the
 connection pool

A suspended duration or connect timeout such as Duration::from_secs(u64::MAX)
("forever") overflowed when it was added to the current time; the panic ended
the pool (or the executor's thread) and all calls through it failed.
---
 src/pool.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..7f74eb7 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -1,5 +1,5 @@
 //! Connection pool.
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
@@ -93,6 +93,13 @@ impl fmt::Debug for PooledConnection {
     }
 }
 
+/// The upper limit of the durations (practically eternal).
+///
+/// Adding a larger one to the current time could overflow.
+fn max_duration() -> Duration {
+    Duration::from_secs(100 * 365 * 24 * 60 * 60)
+}
+
 /// This managements a pool of RPC clients.
 #[derive(Debug)]
 pub struct RpcClientPool {
@@ -137,12 +144,12 @@ impl RpcClientPool {
 
     /// Sets the suspended duration of an erroneous TCP address.
     pub fn set_suspended_duration(&mut self, duration: Duration) {
-        self.suspended_duration = duration;
+        self.suspended_duration = cmp::min(duration, max_duration());
     }
 
     /// Sets the timeout of a TCP connecting phase.
     pub fn set_connect_timeout(&mut self, timeout: Duration) {
-        self.connect_timeout = timeout;
+        self.connect_timeout = cmp::min(timeout, max_duration());
     }
 
     fn handle_command(&mut self, command: Command) {
-- 
2.43.0


From fa783b8aa7d7c518c80206936883844cb4f4d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 23/29] fix: do not stop the server when a client can not be
 accepted for now

---
 src/server.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7315cd9..dea073b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,4 +1,5 @@
 use fibers::net::TcpStream;
+use fibers::time::timer;
 use fibers::{self, BoxSpawn, Spawn};
 use futures::stream::StreamFuture;
 use futures::{self, Async, Future, Poll, Stream};
@@ -12,6 +13,7 @@ use slog::{Discard, Logger};
 use std::io;
 use std::net::SocketAddr;
 use std::sync::Mutex;
+use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
 use deserializers::RpcRequestDeserializer;
@@ -136,15 +138,31 @@ pub struct RpcServer {
     spawner: BoxSpawn,
     logger: Logger,
     router: Router,
-    phase:
-        Phase<fibers::net::futures::TcpListenerBind, StreamFuture<fibers::net::streams::Incoming>>,
+    phase: Phase<
+        fibers::net::futures::TcpListenerBind,
+        StreamFuture<fibers::net::streams::Incoming>,
+        BoxFuture<fibers::net::streams::Incoming, Error>,
+    >,
 }
 impl Future for RpcServer {
     type Item = ();
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
-            let next = match track!(self.phase.poll().map_err(Error::from))? {
+            let result = match self.phase.poll() {
+                Err(Phase::B((e, incoming))) => {
+                    // The listener itself is still alive
+                    // (e.g., there are too many open files at the moment).
+                    warn!(self.logger, "Failed to accept a client: {}", e);
+                    let future = timer::timeout(Duration::from_millis(100))
+                        .map(move |()| incoming)
+                        .map_err(|e| ErrorKind::Other.cause(e).into());
+                    self.phase = Phase::C(Box::new(future));
+                    continue;
+                }
+                result => result,
+            };
+            let next = match track!(result.map_err(Error::from))? {
                 Async::NotReady => return Ok(Async::NotReady),
                 Async::Ready(Phase::A(listener)) => {
                     info!(
@@ -173,6 +191,7 @@ impl Future for RpcServer {
                     self.spawner.spawn(future);
                     Phase::B(incoming.into_future())
                 }
+                Async::Ready(Phase::C(incoming)) => Phase::B(incoming.into_future()),
                 _ => unreachable!(),
             };
             self.phase = next;
-- 
2.43.0


From 5527f980d7668118e242b01d6b5b62e061209902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 24/29] fix: measure the suspension of servers with a monotonic
 clock

---
 src/pool.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 7f74eb7..6174fed 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -3,7 +3,7 @@ use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
 use std::net::SocketAddr;
-use std::time::{Duration, SystemTime};
+use std::time::{Duration, Instant};
 use fibers::net::TcpStream;
 use fibers::sync::mpsc;
 use fibers::sync::oneshot;
@@ -109,7 +109,7 @@ pub struct RpcClientPool {
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
     seq_no: u64,
-    blacklist: HashMap<SocketAddr, SystemTime>,
+    blacklist: HashMap<SocketAddr, Instant>,
     suspended_duration: Duration,
     connect_timeout: Duration,
 }
@@ -156,13 +156,15 @@ impl RpcClientPool {
         match command {
             Command::AcquireConnection { addr, reply } => {
                 if let Some(suspended_until) = self.blacklist.remove(&addr) {
-                    if suspended_until > SystemTime::now() {
+                    let now = Instant::now();
+                    if suspended_until > now {
                         self.blacklist.insert(addr, suspended_until);
                         let future = PooledConnection::failed(
                             ErrorKind::Other
                                 .cause(format!(
-                                    "The address {:?} is unavailable until {:?}",
-                                    addr, suspended_until
+                                    "The address {:?} is unavailable for {:?}",
+                                    addr,
+                                    suspended_until - now
                                 ))
                                 .into(),
                         );
@@ -177,7 +179,7 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
+                let suspended_until = Instant::now() + self.suspended_duration;
                 self.blacklist.insert(addr, suspended_until);
             }
         }
-- 
2.43.0


From b07331036f76c0ec2cc2167d70ca5cfa6347678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 25/29] fix: decode chunked bodies completely and notice
 truncated ones

---
 src/body.rs   | 185 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/client.rs |   7 +-
 src/lib.rs    |   6 +-
 src/server.rs |  18 ++---
 4 files changed, 202 insertions(+), 14 deletions(-)
 create mode 100644 src/body.rs

diff --git a/src/body.rs b/src/body.rs
new file mode 100644
index 0000000..109cdfd
--- /dev/null
+++ b/src/body.rs
@@ -0,0 +1,185 @@
+use miasht::builtin::io::{BodyReader, IoExt};
+use miasht::header::Headers;
+use miasht::status::RawStatus;
+use miasht::{self, Metadata, Method, Version};
+use std::cmp;
+use std::io::{self, Read};
+use std::ops::Deref;
+use std::str;
+
+const MAX_LINE_LEN: usize = 8096;
+
+/// Makes a reader for the body of the message.
+///
+/// NOTE:
+/// `miasht` (0.0.5) loses a chunked body from the second chunk on and
+/// doesn't notice that a chunk is truncated. So such bodies are decoded by `MessageReader`.
+pub fn into_body_reader<M>(message: M) -> miasht::Result<BodyReader<MessageReader<M>>>
+where
+    M: Read + Metadata,
+{
+    let is_chunked = message
+        .headers()
+        .get("Transfer-Encoding")
+        .map_or(false, |v| v.eq_ignore_ascii_case(b"chunked"));
+    let chunked = if is_chunked {
+        Some(Chunked {
+            phase: Phase::Size,
+            line: Vec::new(),
+        })
+    } else {
+        None
+    };
+    let reader = MessageReader {
+        inner: message,
+        chunked,
+    };
+    if is_chunked {
+        Ok(BodyReader::Raw(reader))
+    } else {
+        reader.into_body_reader()
+    }
+}
+
+/// A HTTP message from which the body (decoded if it is chunked) can be read.
+#[derive(Debug)]
+pub struct MessageReader<M> {
+    inner: M,
+    chunked: Option<Chunked>,
+}
+impl<M> MessageReader<M> {
+    /// Returns the message.
+    pub fn into_inner(self) -> M {
+        self.inner
+    }
+}
+impl<M> Deref for MessageReader<M> {
+    type Target = M;
+    fn deref(&self) -> &Self::Target {
+        &self.inner
+    }
+}
+impl<M: Read> Read for MessageReader<M> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if let Some(ref mut chunked) = self.chunked {
+            chunked.read(&mut self.inner, buf)
+        } else {
+            self.inner.read(buf)
+        }
+    }
+}
+impl<M: Metadata> Metadata for MessageReader<M> {
+    fn version(&self) -> Version {
+        self.inner.version()
+    }
+    fn headers(&self) -> &Headers {
+        self.inner.headers()
+    }
+    fn status(&self) -> Option<&RawStatus> {
+        self.inner.status()
+    }
+    fn method(&self) -> Option<Method> {
+        self.inner.method()
+    }
+    fn path(&self) -> Option<&str> {
+        self.inner.path()
+    }
+}
+
+#[derive(Debug)]
+enum Phase {
+    Size,
+    Data(u64),
+    DataEnd,
+    Trailer,
+    End,
+}
+
+/// The decoder of chunked bodies.
+///
+/// See: https://tools.ietf.org/html/rfc7230#section-4.1
+#[derive(Debug)]
+struct Chunked {
+    phase: Phase,
+    line: Vec<u8>,
+}
+impl Chunked {
+    fn read<R: Read>(&mut self, reader: &mut R, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        loop {
+            let next = match self.phase {
+                Phase::Size => {
+                    let size = {
+                        let line = self.read_line(reader)?;
+                        let size = line.split(|b| *b == b';').next().unwrap_or(&[]);
+                        parse_chunk_size(size).ok_or_else(|| invalid("Invalid chunk size"))?
+                    };
+                    if size == 0 {
+                        Phase::Trailer
+                    } else {
+                        Phase::Data(size)
+                    }
+                }
+                Phase::Data(0) => Phase::DataEnd,
+                Phase::Data(ref mut remaining) => {
+                    let max = cmp::min(*remaining, buf.len() as u64) as usize;
+                    let size = reader.read(&mut buf[..max])?;
+                    if size == 0 {
+                        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+                    }
+                    *remaining -= size as u64;
+                    return Ok(size);
+                }
+                Phase::DataEnd => {
+                    if !self.read_line(reader)?.is_empty() {
+                        return Err(invalid("Chunk must be terminated with a line break"));
+                    }
+                    Phase::Size
+                }
+                Phase::Trailer => {
+                    if self.read_line(reader)?.is_empty() {
+                        Phase::End
+                    } else {
+                        Phase::Trailer
+                    }
+                }
+                Phase::End => return Ok(0),
+            };
+            self.phase = next;
+            self.line.clear();
+        }
+    }
+    fn read_line<R: Read>(&mut self, reader: &mut R) -> io::Result<&[u8]> {
+        while self.line.last() != Some(&b'\n') {
+            let mut byte = [0];
+            if reader.read(&mut byte)? == 0 {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+            }
+            if self.line.len() == MAX_LINE_LEN {
+                return Err(invalid("Too long line in a chunked body"));
+            }
+            self.line.push(byte[0]);
+        }
+        let line = &self.line[..self.line.len() - 1];
+        if line.last() == Some(&b'\r') {
+            Ok(&line[..line.len() - 1])
+        } else {
+            Ok(line)
+        }
+    }
+}
+
+fn parse_chunk_size(size: &[u8]) -> Option<u64> {
+    let size = str::from_utf8(size).ok()?.trim_end();
+    if size.bytes().all(|b| (b as char).is_digit(16)) {
+        u64::from_str_radix(size, 16).ok()
+    } else {
+        None
+    }
+}
+
+fn invalid(reason: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, reason)
+}
diff --git a/src/client.rs b/src/client.rs
index 33348f0..634eeea 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -4,12 +4,13 @@ use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::{BodyReader, IoExt};
+use miasht::builtin::io::BodyReader;
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
 
 use Error;
+use body::into_body_reader;
 use deserializers::RpcResponseDeserializer;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
@@ -107,7 +108,7 @@ where
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
                         Box::new(futures::finished((response, Vec::new())))
                     } else {
-                        let future = futures::done(response.into_body_reader())
+                        let future = futures::done(into_body_reader(response))
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
                             .and_then(|(res, body)| {
                                 if let BodyReader::FixedLength(ref r) = res {
@@ -116,7 +117,7 @@ where
                                         return Err(track!(miasht::Error::from(e)));
                                     }
                                 }
-                                Ok((res.into_inner(), body))
+                                Ok((res.into_inner().into_inner(), body))
                             });
                         Box::new(future)
                     };
diff --git a/src/lib.rs b/src/lib.rs
index 801d041..2d894b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,8 +20,9 @@ extern crate url;
 pub use miasht::builtin::futures::FutureExt;
 
 #[allow(missing_docs)]
-pub type BodyReader =
-    miasht::builtin::io::BodyReader<miasht::server::Request<fibers::net::TcpStream>>;
+pub type BodyReader = miasht::builtin::io::BodyReader<
+    body::MessageReader<miasht::server::Request<fibers::net::TcpStream>>,
+>;
 
 #[allow(missing_docs)]
 pub fn content_length(body: &BodyReader) -> Option<u64> {
@@ -89,6 +90,7 @@ pub mod rfc7807;
 pub mod serializers;
 pub mod types;
 
+mod body;
 mod client;
 mod error;
 mod misc;
diff --git a/src/server.rs b/src/server.rs
index dea073b..44cd96c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -6,7 +6,6 @@ use futures::{self, Async, Future, Poll, Stream};
 use handy_async::future::Phase;
 use miasht;
 use miasht::builtin::futures::FutureExt;
-use miasht::builtin::io::IoExt;
 use miasht::server::{Connection, Request, Response};
 use serde::Deserialize;
 use slog::{Discard, Logger};
@@ -16,6 +15,7 @@ use std::sync::Mutex;
 use std::time::Duration;
 use trackable::error::ErrorKindExt;
 
+use body::into_body_reader;
 use deserializers::RpcRequestDeserializer;
 use misc;
 use procedure::{HandleRpc, Procedure};
@@ -66,11 +66,11 @@ impl RpcServerBuilder {
                 };
                 match deserialize_result {
                     Err(e) => {
-                        let future = futures::done(http_request.into_body_reader())
+                        let future = futures::done(into_body_reader(http_request))
                             .map_err(Error::from)
                             .and_then(|request| request.read_all_bytes().map_err(Error::from))
                             .and_then(move |(request, _)| {
-                                let http_request = request.into_inner();
+                                let http_request = request.into_inner().into_inner();
                                 let rpc_response =
                                     Problem::trackable(HttpStatus::BadRequest, e).into_response();
                                 track!(RpcResponseSerializer::serialize(
@@ -84,7 +84,7 @@ impl RpcServerBuilder {
                     Ok(r) => r,
                 }
             };
-            let future = futures::done(http_request.into_body_reader())
+            let future = futures::done(into_body_reader(http_request))
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
                 .and_then(|(body, rpc_request)| {
@@ -99,7 +99,7 @@ impl RpcServerBuilder {
                     Ok((body, rpc_request))
                 })
                 .and_then(move |(http_request, rpc_request)| {
-                    let http_request = http_request.into_inner();
+                    let http_request = http_request.into_inner().into_inner();
                     handler
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
@@ -243,13 +243,13 @@ impl HandleHttpRequest {
                     let future: BoxFuture<_, _> =
                         match track!(misc::parse_relative_url(request.path())) {
                             Err(e) => {
-                                let future = futures::done(request.into_body_reader())
+                                let future = futures::done(into_body_reader(request))
                                     .map_err(Error::from)
                                     .and_then(|request| {
                                         request.read_all_bytes().map_err(Error::from)
                                     })
                                     .and_then(|(request, _)| {
-                                        let request = request.into_inner();
+                                        let request = request.into_inner().into_inner();
                                         let rpc_response =
                                             Problem::trackable(HttpStatus::BadRequest, e)
                                                 .into_response();
@@ -262,13 +262,13 @@ impl HandleHttpRequest {
                             }
                             Ok(url) => match self.router.route(&url, &request) {
                                 Err(status) => {
-                                    let future = futures::done(request.into_body_reader())
+                                    let future = futures::done(into_body_reader(request))
                                         .map_err(Error::from)
                                         .and_then(|request| {
                                             request.read_all_bytes().map_err(Error::from)
                                         })
                                         .and_then(move |(request, _)| {
-                                            let request = request.into_inner();
+                                            let request = request.into_inner().into_inner();
                                             let rpc_response =
                                                 Problem::about_blank(status).into_response();
                                             track!(RpcResponseSerializer::serialize(
-- 
2.43.0


From 394dc4fe6d87b9a917da4b588f12c98754c1faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 26/29] fix: do not reuse connections which are going to be
 closed by the server

---
 src/body.rs   |  5 +++++
 src/client.rs | 23 +++++++++++++++++------
 src/misc.rs   | 22 ++++++++++++++++++++++
 src/pool.rs   |  4 +++-
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 109cdfd..3923889 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -48,6 +48,11 @@ pub struct MessageReader<M> {
     chunked: Option<Chunked>,
 }
 impl<M> MessageReader<M> {
+    /// Returns `true` if the body is chunked.
+    pub fn is_chunked(&self) -> bool {
+        self.chunked.is_some()
+    }
+
     /// Returns the message.
     pub fn into_inner(self) -> M {
         self.inner
diff --git a/src/client.rs b/src/client.rs
index 634eeea..f132951 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -12,6 +12,7 @@ use serde::{Deserialize, Serialize};
 use Error;
 use body::into_body_reader;
 use deserializers::RpcResponseDeserializer;
+use misc;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
 use types::HttpMethod;
@@ -72,14 +73,14 @@ where
         BoxFuture<Connection<TcpStream>, Error>,
         BoxFuture<Connection<TcpStream>, miasht::Error>,
         BoxFuture<Response<TcpStream>, miasht::Error>,
-        BoxFuture<(Response<TcpStream>, Vec<u8>), miasht::Error>,
+        BoxFuture<(Response<TcpStream>, Vec<u8>, bool), miasht::Error>,
     >,
 }
 impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Connection<TcpStream>);
+    type Item = (P::Response, Option<Connection<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -106,7 +107,7 @@ where
                 Async::Ready(Phase::C(response)) => {
                     // Reads HTTP response body.
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
-                        Box::new(futures::finished((response, Vec::new())))
+                        Box::new(futures::finished((response, Vec::new(), true)))
                     } else {
                         let future = futures::done(into_body_reader(response))
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
@@ -117,13 +118,18 @@ where
                                         return Err(track!(miasht::Error::from(e)));
                                     }
                                 }
-                                Ok((res.into_inner().into_inner(), body))
+                                // Is the body delimited without closing the connection?
+                                let is_delimited = match res {
+                                    BodyReader::Raw(ref r) => r.is_chunked(),
+                                    _ => true,
+                                };
+                                Ok((res.into_inner().into_inner(), body, is_delimited))
                             });
                         Box::new(future)
                     };
                     Phase::D(future)
                 }
-                Async::Ready(Phase::D((response, body))) => {
+                Async::Ready(Phase::D((response, body, is_delimited))) => {
                     // Converts from HTTP response to RPC response.
                     use RpcResponse;
                     let mut rpc_response = {
@@ -131,7 +137,12 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    return Ok(Async::Ready((rpc_response, response.finish())));
+                    let connection = if is_delimited && misc::is_persistent(&response) {
+                        Some(response.finish())
+                    } else {
+                        None
+                    };
+                    return Ok(Async::Ready((rpc_response, connection)));
                 }
                 _ => unreachable!(),
             };
diff --git a/src/misc.rs b/src/misc.rs
index c1287b6..7358105 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,3 +1,5 @@
+use miasht::{Metadata, Version};
+use std::str;
 use std::sync::{Once};
 use url::Url;
 
@@ -46,3 +48,23 @@ pub fn percent_decode(s: &str) -> Result<String> {
     }
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
+
+/// Returns `true` if the connection can be used after the message has been transferred.
+///
+/// See: https://tools.ietf.org/html/rfc7230#section-6.3
+pub fn is_persistent<M: Metadata>(message: &M) -> bool {
+    let has_option = |option: &str| {
+        message
+            .headers()
+            .iter()
+            .filter(|h| h.0.eq_ignore_ascii_case("connection"))
+            .flat_map(|h| h.1.split(|b| *b == b','))
+            .filter_map(|o| str::from_utf8(o).ok())
+            .any(|o| o.trim().eq_ignore_ascii_case(option))
+    };
+    if message.version() == Version::Http1_0 {
+        has_option("keep-alive") && !has_option("close")
+    } else {
+        !has_option("close")
+    }
+}
diff --git a/src/pool.rs b/src/pool.rs
index 6174fed..62d695e 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -330,7 +330,9 @@ where
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         if let Async::Ready((response, connection)) = track!(self.inner.poll())? {
-            self.handle.release_connection(self.addr, connection);
+            if let Some(connection) = connection {
+                self.handle.release_connection(self.addr, connection);
+            }
             Ok(Async::Ready(response))
         } else {
             Ok(Async::NotReady)
-- 
2.43.0


From 362bdd710cb94c6fc510550290ff745f98651454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 27/29] fix: close connections after the request which the
 client said is the last

---
 src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 44cd96c..6d30aae 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -187,6 +187,7 @@ impl Future for RpcServer {
                         router: self.router.clone(),
                         phase: Phase::A(Box::new(connected)),
                         method: HttpMethod::Get, // Dummy
+                        is_persistent: true,
                     };
                     self.spawner.spawn(future);
                     Phase::B(incoming.into_future())
@@ -208,12 +209,16 @@ struct HandleHttpRequest {
         BoxFuture<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>), Error>,
     >,
     method: HttpMethod,
+    is_persistent: bool,
 }
 impl HandleHttpRequest {
     fn poll_impl(&mut self) -> Poll<(), Error> {
         loop {
             let next = match track!(self.phase.poll().map_err(Error::from))? {
                 Async::NotReady => return Ok(Async::NotReady),
+                Async::Ready(Phase::A(_)) if !self.is_persistent => {
+                    return Ok(Async::Ready(()));
+                }
                 Async::Ready(Phase::A(connection)) => {
                     let future = connection.read_request().map(Some).or_else(|e| {
                         if let Some(e) = e.concrete_cause::<io::Error>() {
@@ -240,6 +245,7 @@ impl HandleHttpRequest {
                         request.path(),
                     );
                     self.method = request.method();
+                    self.is_persistent = misc::is_persistent(&request);
                     let future: BoxFuture<_, _> =
                         match track!(misc::parse_relative_url(request.path())) {
                             Err(e) => {
-- 
2.43.0


From cbb9dc600dd4899d0d89c5d10951cb1f84a69a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:03 +0000
Subject: [PATCH 28/29] fix: do not wait for the body of responses which never
 have one

---
 src/client.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index f132951..b11a492 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -108,6 +108,8 @@ where
                     // Reads HTTP response body.
                     let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {
                         Box::new(futures::finished((response, Vec::new(), true)))
+                    } else if has_no_body(&response) {
+                        Box::new(futures::finished((response, Vec::new(), true)))
                     } else {
                         let future = futures::done(into_body_reader(response))
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
@@ -150,3 +152,13 @@ where
         }
     }
 }
+
+/// Returns `true` if it is known by the status that the response has no body.
+///
+/// See: https://tools.ietf.org/html/rfc7230#section-3.3.3
+fn has_no_body(response: &Response<TcpStream>) -> bool {
+    let headers = response.headers();
+    let is_framed =
+        headers.get("Content-Length").is_some() || headers.get("Transfer-Encoding").is_some();
+    !is_framed && [204, 304].contains(&response.status().code())
+}
-- 
2.43.0


From f1646b44e8b850bd206665a60cc04e9c0e69b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:18 +0000
Subject: [PATCH 29/29] fix: do not use pooled connections which the peer has
 closed or written to meanwhile

---
 src/client.rs |  4 ++--
 src/pool.rs   | 52 ++++++++++++++++++++++++++++++++-------------------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index b11a492..fbdaca6 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -80,7 +80,7 @@ impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Option<Connection<TcpStream>>);
+    type Item = (P::Response, Option<Response<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -140,7 +140,7 @@ where
                     };
                     rpc_response.set_body(body);
                     let connection = if is_delimited && misc::is_persistent(&response) {
-                        Some(response.finish())
+                        Some(response)
                     } else {
                         None
                     };
diff --git a/src/pool.rs b/src/pool.rs
index 62d695e..c3cd4ed 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -2,6 +2,7 @@
 use std::cmp::{self, Ordering};
 use std::collections::{BTreeMap, Bound, HashMap};
 use std::fmt;
+use std::io::{self, Read};
 use std::net::SocketAddr;
 use std::time::{Duration, Instant};
 use fibers::net::TcpStream;
@@ -19,6 +20,9 @@ use client::CallInner;
 
 type TcpConnection = miasht::client::Connection<TcpStream>;
 
+/// A connection which has transferred all of this response.
+type IdleConnection = miasht::client::Response<TcpStream>;
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 struct ConnectionId {
     addr: SocketAddr,
@@ -49,7 +53,7 @@ enum Command {
     },
     ReleaseConnection {
         addr: SocketAddr,
-        connection: TcpConnection,
+        connection: IdleConnection,
     },
     AddToBlacklist {
         addr: SocketAddr,
@@ -93,6 +97,14 @@ impl fmt::Debug for PooledConnection {
     }
 }
 
+/// Returns `false` if the peer has closed the connection or sent unexpected data meanwhile.
+fn is_reusable(connection: &mut IdleConnection) -> bool {
+    match connection.read(&mut [0]) {
+        Err(e) => e.kind() == io::ErrorKind::WouldBlock,
+        Ok(_) => false,
+    }
+}
+
 /// The upper limit of the durations (practically eternal).
 ///
 /// Adding a larger one to the current time could overflow.
@@ -104,7 +116,7 @@ fn max_duration() -> Duration {
 #[derive(Debug)]
 pub struct RpcClientPool {
     pool_size: usize,
-    connections: BTreeMap<ConnectionId, TcpConnection>,
+    connections: BTreeMap<ConnectionId, IdleConnection>,
     lru_queue: BTreeMap<u64, SocketAddr>,
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
@@ -186,7 +198,7 @@ impl RpcClientPool {
     }
     fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {
         let lower = ConnectionId::new(addr, 0);
-        if let Some(id) = self.connections
+        while let Some(id) = self.connections
             .range((Bound::Included(lower), Bound::Unbounded))
             .map(|(id, _)| id)
             .cloned()
@@ -194,25 +206,27 @@ impl RpcClientPool {
             .and_then(|id| if id.addr == addr { Some(id) } else { None })
         {
             self.lru_queue.remove(&id.seq_no);
-            let connection = self.connections.remove(&id).expect("Never fails");
-            let phase = Phase::A(futures::finished(connection));
-            PooledConnection {
-                phase,
-                on_error: None,
+            let mut connection = self.connections.remove(&id).expect("Never fails");
+            if !is_reusable(&mut connection) {
+                continue;
             }
-        } else {
-            let phase = Phase::B(
-                miasht::client::Client::new()
-                    .connect(addr)
-                    .timeout_after(self.connect_timeout),
-            );
-            PooledConnection {
+            let phase = Phase::A(futures::finished(connection.finish()));
+            return PooledConnection {
                 phase,
-                on_error: Some((addr, self.command_tx.clone())),
-            }
+                on_error: None,
+            };
+        }
+        let phase = Phase::B(
+            miasht::client::Client::new()
+                .connect(addr)
+                .timeout_after(self.connect_timeout),
+        );
+        PooledConnection {
+            phase,
+            on_error: Some((addr, self.command_tx.clone())),
         }
     }
-    fn release_connection(&mut self, addr: SocketAddr, connection: TcpConnection) {
+    fn release_connection(&mut self, addr: SocketAddr, connection: IdleConnection) {
         let id = ConnectionId::new(addr, self.seq_no);
         self.seq_no += 1;
 
@@ -263,7 +277,7 @@ impl RpcClientPoolHandle {
         let phase = Phase::A(reply_rx);
         AcquireConnection { phase }
     }
-    fn release_connection(&self, addr: SocketAddr, connection: TcpConnection) {
+    fn release_connection(&self, addr: SocketAddr, connection: IdleConnection) {
         let command = Command::ReleaseConnection { addr, connection };
         let _ = self.command_tx.send(command);
     }
-- 
2.43.0

