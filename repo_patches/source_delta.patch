From 2d65ef957f63ee50c366e09942d07129d618ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 1/7] fix: do not announce a signature when the encoded message
 has no body

A signature left in the header fields was written although there is no body;
the resulting message is rejected by every decoder, this one included.
---
 src/encode/message/header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..68c8235 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,7 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From 188fd06195eda840fac2e9fe1e1c14f3bd01a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 2/7] fix: announce exactly the file descriptors of the encoded
 message

A count left in the header fields was written although the message carries
no file descriptor.
---
 src/encode/message/header.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 68c8235..8cc5673 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -37,9 +37,11 @@ impl Encoder {
         cfg_if! {
             if #[cfg(target_family = "unix")] {
                 let fds_len = self.fds.len();
-                if fds_len != 0 {
-                    fields.unix_fds = Some(fds_len as u32);
-                }
+                fields.unix_fds = if fds_len != 0 {
+                    Some(fds_len as u32)
+                } else {
+                    None
+                };
             }
         }
         let body_length = if let Some((body_length, body_signature)) = body {
-- 
2.43.0


From a9afda601cc6831c9fbc47b929a5ff34f01fa360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 3/7] fix: refuse to encode messages longer than the maximum
 message length

Such messages cannot be decoded, and beyond 4 GiB the body length in the
header was truncated.
---
 src/encode/error.rs                  | 3 +++
 src/encode/message/message_struct.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..f2f03d5 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::message::MAXIMUM_MESSAGE_LENGTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -8,6 +9,8 @@ pub type EncodeResult<T> = Result<T, EncodeError>;
 pub enum EncodeError {
     #[error("Array length is too big: {MAXIMUM_ARRAY_LENGTH} < {0}")]
     ArrayTooBig(usize),
+    #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
+    MessageTooBig(usize),
     #[error("The body length is zero, but there is a body signature '{0:?}'")]
     BodyLengthZero(Vec<Type>),
     #[error("The body signature is missing, but there body length 0 != {0}")]
diff --git a/src/encode/message/message_struct.rs b/src/encode/message/message_struct.rs
index acc3be4..3506be0 100644
--- a/src/encode/message/message_struct.rs
+++ b/src/encode/message/message_struct.rs
@@ -1,5 +1,5 @@
 use crate::encode::{EncodeError, EncodeResult, Encoder};
-use crate::message::Message;
+use crate::message::{Message, MAXIMUM_MESSAGE_LENGTH};
 use crate::value::Type;
 use bytes::BytesMut;
 use cfg_if::cfg_if;
@@ -45,6 +45,11 @@ impl Encoder {
         self.algin(8);
         self.buf.extend(body);
 
+        let message_length = self.buf.len();
+        if MAXIMUM_MESSAGE_LENGTH < message_length {
+            return Err(EncodeError::MessageTooBig(message_length));
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 108ed53ee3d19b2ceee6d77b8a15f0fe349559a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 4/7] fix: let the root path match as the namespace of every
 path

path_namespace='/' and argNpath='/' matched the root path only.
---
 src/match_rule/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..abcc014 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,7 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From 0a15f856d070206f72741b14aa32cca1a35318f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 5/7] fix: limit the index of argNpath match rules like that of
 argN

The specification allows 0 to 63; argN was limited, argNpath was not.
---
 src/match_rule/decode.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/decode.rs b/src/match_rule/decode.rs
index df83732..6964f9a 100644
--- a/src/match_rule/decode.rs
+++ b/src/match_rule/decode.rs
@@ -1,5 +1,9 @@
 use super::{
-    arg::Arg, arg_path::ArgPath, split::Split, unescape::unescape, MatchRule, MatchRuleError,
+    arg::{Arg, MAXIMUM_ARG_INDEX},
+    arg_path::ArgPath,
+    split::Split,
+    unescape::unescape,
+    MatchRule, MatchRuleError,
 };
 use crate::{
     message::MessageType,
@@ -52,6 +56,9 @@ impl TryFrom<&str> for MatchRule {
         } else if let Some(key_arg) = key.strip_prefix("arg") {
             if let Some(index) = key_arg.strip_suffix("path") {
                 let index = index.parse::<usize>()?;
+                if MAXIMUM_ARG_INDEX <= index {
+                    return Err(MatchRuleError::ArgIndexTooBig(index));
+                }
                 let arg_path = unescape(value)?;
                 match ObjectPath::try_from(arg_path.as_str()) {
                     Ok(arg_path) => Ok(MatchRule::ArgPath(ArgPath::from((index, arg_path)))),
-- 
2.43.0


From 819d3d1b9ef5b46428ffeda4df28e713e77d7d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 6/7] fix: refuse to append an empty element to an object path

The result was no valid object path: '/a' became '/a/'.
---
 src/value/object_path.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..7072a7f 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -179,6 +179,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From ebefc6c54a6b8409e33e0970635fcec9c2e617de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 7/7] fix: refuse to write the signature of a struct type
 without fields

The text '()' is no valid signature and cannot be parsed back.
---
 src/value/type_enum.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..7875e7d 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -15,6 +15,8 @@ pub enum TypeError {
     ArrayDepth(u8),
     #[error("Struct depth is too big: {MAXIMUM_STRUCT_DEPTH} < {0}")]
     StructDepth(u8),
+    #[error("Struct must contain at least one type")]
+    StructEmpty,
     #[error("Dict depth is too big: {MAXIMUM_DICT_DEPTH} < {0}")]
     DictDepth(u8),
     #[error("Signature is too big: {MAXIMUM_SIGNATURE_LENGTH} < {0}")]
@@ -243,6 +245,9 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    return Err(TypeError::StructEmpty);
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0

