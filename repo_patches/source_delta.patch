From feba42ace5af3043607ee362b068dcc91e2a1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 01/21] fix: reject an empty fragment in absolute IRIs

absolute-IRI has no fragment part at all, but `foo:#` was accepted since
an empty fragment was confused with an absent one.
---
 src/parser/validate.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/validate.rs b/src/parser/validate.rs
index 7cbcaff..a0ffcf2 100644
--- a/src/parser/validate.rs
+++ b/src/parser/validate.rs
@@ -196,18 +196,20 @@ pub(crate) fn validate_relative_ref<S: Spec>(i: &str) -> Result<(), Error> {
 fn validate_after_path<S: Spec>(first: u8, rest: &str, accept_fragment: bool) -> Result<(), Error> {
     let (maybe_query, maybe_fragment) = if first == b'?' {
         match find_split_hole(rest, b'#') {
-            Some(v) => v,
-            None => (rest, ""),
+            Some((maybe_query, maybe_fragment)) => (maybe_query, Some(maybe_fragment)),
+            None => (rest, None),
         }
     } else {
         debug_assert_eq!(first, b'#');
-        ("", rest)
+        ("", Some(rest))
     };
     validate_query::<S>(maybe_query)?;
-    if !accept_fragment && !maybe_fragment.is_empty() {
-        return Err(Error::with_kind(ErrorKind::UnexpectedFragment));
+    match maybe_fragment {
+        // Note that a fragment is present even if it is empty.
+        Some(_) if !accept_fragment => Err(Error::with_kind(ErrorKind::UnexpectedFragment)),
+        Some(maybe_fragment) => validate_fragment::<S>(maybe_fragment),
+        None => Ok(()),
     }
-    validate_fragment::<S>(maybe_fragment)
 }
 
 /// Returns `Ok(_)` if the string matches `fragment`/`ifragment` rules.
-- 
2.43.0


From 92d9ffe774ff68ebbd769f677aec3f2c913ad713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 02/21] fix: don't treat userinfo without a colon as having a
 password

remove_password_inline() removed the last character of the user name (or a
slash when the userinfo is empty), and replace_password() inserted the
replacement after the user name.
---
 src/mask_password.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index 71d1fbf..dcc5e08 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -19,6 +19,9 @@ use crate::types::{RiAbsoluteStr, RiReferenceStr, RiRelativeStr, RiStr};
 use crate::types::{RiAbsoluteString, RiReferenceString, RiRelativeString, RiString};
 
 /// Returns the range of the password to hide.
+///
+/// Returns `None` if the password is absent. Note that a password can be
+/// present but empty, and that `userinfo` without colons has no password.
 pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option<Range<usize>> {
     /// Spec-agnostic internal implementation of `password_range_to_hide`.
     fn inner(iri: &str, userinfo: &str) -> Option<Range<usize>> {
@@ -28,7 +31,7 @@ pub(crate) fn password_range_to_hide<S: Spec>(iri: &RiReferenceStr<S>) -> Option
             .find("//")
             .expect("`authority` component must be prefixed with `//`");
         let end = authority_start + userinfo.len();
-        let start = authority_start + userinfo.find(':').map_or_else(|| userinfo.len(), |v| v + 1);
+        let start = authority_start + userinfo.find(':')? + 1;
         Some(start..end)
     }
 
-- 
2.43.0


From ae6695c1e5eb4ce17068110781e6fafe73c5a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 03/21] fix: validate IRIs as IRIs after replacing the host

The debug assertion required the IRI to have no fragment.
---
 src/types/generic/normal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/generic/normal.rs b/src/types/generic/normal.rs
index fcecc66..dc949ff 100644
--- a/src/types/generic/normal.rs
+++ b/src/types/generic/normal.rs
@@ -990,7 +990,7 @@ impl<S: Spec> RiString<S> {
             let strbuf = unsafe { self.as_inner_mut() };
             result = replace_domain_impl::<S>(strbuf, new_host, replace_only_reg_name);
             debug_assert_eq!(
-                RiAbsoluteStr::<S>::validate(strbuf),
+                RiStr::<S>::validate(strbuf),
                 Ok(()),
                 "replacing a host with another valid host must keep an IRI valid: raw={strbuf:?}",
             );
-- 
2.43.0


From d84f23d5a9d6d523f04392795bf0204fc70da2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 04/21] fix: report an IRI with an empty port as not normalized

Normalization removes the colon of an empty port, so `http://h:/` is not
normalized.
---
 src/parser/trusted.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/trusted.rs b/src/parser/trusted.rs
index ec6da67..e3881cd 100644
--- a/src/parser/trusted.rs
+++ b/src/parser/trusted.rs
@@ -384,6 +384,13 @@ pub(crate) fn is_normalized<S: Spec>(i: &str, mode: NormalizednessCheckMode) ->
                 return false;
             }
         }
+
+        // Check `port`.
+        //
+        // An empty port and its preceding colon are removed by normalization.
+        if authority_components.port() == Some("") {
+            return false;
+        }
     }
 
     // Check `path`.
-- 
2.43.0


From f1cdf96be7e2e5fb36245e6bace6ee6801e0172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 05/21] fix: validate the characters of the path given to the
 builder

---
 src/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.rs b/src/build.rs
index e056af6..90ff8ec 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1311,6 +1311,7 @@ fn validate_builder_for_iri_reference<S: Spec>(builder: &Builder<'_>) -> Result<
         }
     }
 
+    parser::validate_path::<S>(builder.path)?;
     let path_is_absolute: bool;
     let mut is_path_acceptable;
     if builder.normalize {
-- 
2.43.0


From 979b12a4d17ce545f1e15729386b8da0f5b44a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 06/21] fix: treat a path normalized to a single slash as
 absolute

---
 src/normalize/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalize/path.rs b/src/normalize/path.rs
index da2f3a7..6b35ed8 100644
--- a/src/normalize/path.rs
+++ b/src/normalize/path.rs
@@ -582,7 +582,9 @@ impl PathCharacteristic {
 
         let mut writer = Writer::default();
         match path.fmt_write_normalize::<S, _>(&mut writer, op, authority_is_present) {
-            // Empty path.
+            // The path consists of only a slash.
+            Ok(_) if writer.is_absolute == Some(true) => PathCharacteristic::CommonAbsolute,
+            // Empty path, or a relative path with a single segment.
             Ok(_) => PathCharacteristic::CommonRelative,
             Err(_) => writer
                 .result
-- 
2.43.0


From 3e670901bbe836b5ae44fc35c27c508eebabfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 07/21] fix: report RFC 3986 normalizability of inherited base
 paths

---
 src/normalize.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 3e167b6..ef1a5bf 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -358,7 +358,11 @@ impl NormalizationInput<'_> {
             return Ok(());
         }
         match self.path {
-            Path::Done(_) => Ok(()),
+            // The path will be written as is.
+            Path::Done(_) if !self.op.mode.case_pct_normalization() => Ok(()),
+            // Dot segments are removed also from the "done" path on normalization.
+            Path::Done(s) => PathToNormalize::from_single_path(s)
+                .ensure_rfc3986_normalizable_with_authority_absent(),
             Path::NeedsProcessing(path) => path.ensure_rfc3986_normalizable_with_authority_absent(),
         }
     }
-- 
2.43.0


From 6cf3ea3bf7a28558c49b1643f69712a9761fad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 08/21] fix: keep stray percent signs on percent-decoding

---
 src/percent_encode/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/percent_encode/decode.rs b/src/percent_encode/decode.rs
index 0d47dbf..9fb8707 100644
--- a/src/percent_encode/decode.rs
+++ b/src/percent_encode/decode.rs
@@ -84,7 +84,6 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
     /// 1. the suffix after the decoded percent-encoded triplet.
     #[must_use]
     fn try_non_allocating_decode(&self) -> Option<(usize, u8, &'a [u8])> {
-        let mut len_before_pct;
         let mut rest = self.not_yet_decoded;
 
         while !rest.is_empty() {
@@ -93,15 +92,14 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
             #[cfg(not(feature = "memchr"))]
             let pct_pos = rest.iter().position(|&b| b == b'%')?;
 
-            let after_pct;
-            (len_before_pct, after_pct) = (pct_pos, &rest[(pct_pos + 1)..]);
+            let len_before_pct = self.not_yet_decoded.len() - rest.len() + pct_pos;
+            let after_pct = &rest[(pct_pos + 1)..];
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
             if let Some(decoded) = decoded {
                 return Some((len_before_pct, decoded, rest));
             }
-            rest = after_pct;
         }
 
         None
@@ -167,7 +165,8 @@ impl<'a> PercentDecodedWhatwgBytes<'a> {
 
             let decoded;
             (decoded, rest) = strip_decode_xdigits2(after_pct);
-            result.extend(decoded);
+            // A stray percent sign is kept as is.
+            result.push(decoded.unwrap_or(b'%'));
         }
 
         Cow::Owned(result)
-- 
2.43.0


From d6d832f86f75f9cdbf9174b09057328a7626bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 09/21] fix: decompose split and non-ASCII values correctly in
 reserved expansion

---
 src/parser/str/maybe_pct_encoded.rs | 187 ++++++++++++++++------------
 1 file changed, 106 insertions(+), 81 deletions(-)

diff --git a/src/parser/str/maybe_pct_encoded.rs b/src/parser/str/maybe_pct_encoded.rs
index 7d37264..7203595 100644
--- a/src/parser/str/maybe_pct_encoded.rs
+++ b/src/parser/str/maybe_pct_encoded.rs
@@ -5,7 +5,6 @@ use core::marker::PhantomData;
 use core::num::NonZeroU8;
 use core::ops::ControlFlow;
 
-use crate::parser::str::find_split;
 use crate::parser::trusted::hexdigits_to_byte;
 
 /// Fragment in a possibly percent-encoded (and possibly broken) string.
@@ -50,10 +49,13 @@ where
     if let Some(len) = writer.decoder.flush(&mut buf).map(|v| usize::from(v.get())) {
         let len_suffix = len % 3;
         let triplets_end = len - len_suffix;
-        let triplets = core::str::from_utf8(&buf[..triplets_end])
-            .expect("percent-encoded triplets consist of ASCII characters");
-        if let ControlFlow::Break(v) = f(PctEncodedFragments::InvalidUtf8PctTriplets(triplets)) {
-            return Ok(ControlFlow::Break(v));
+        if triplets_end > 0 {
+            let triplets = core::str::from_utf8(&buf[..triplets_end])
+                .expect("percent-encoded triplets consist of ASCII characters");
+            if let ControlFlow::Break(v) = f(PctEncodedFragments::InvalidUtf8PctTriplets(triplets))
+            {
+                return Ok(ControlFlow::Break(v));
+            }
         }
 
         if len_suffix > 0 {
@@ -107,10 +109,12 @@ where
             .expect("`DecoderBuffer` writes a valid ASCII string");
         let len_incomplete = len_written % 3;
         let len_complete = len_written - len_incomplete;
-        self.result = (self.f)(PctEncodedFragments::InvalidUtf8PctTriplets(
-            &frag[..len_complete],
-        ));
-        self.result_continue_or_err()?;
+        if len_complete > 0 {
+            self.result = (self.f)(PctEncodedFragments::InvalidUtf8PctTriplets(
+                &frag[..len_complete],
+            ));
+            self.result_continue_or_err()?;
+        }
         if len_incomplete > 0 {
             // At least the first `%` exists.
             self.result = (self.f)(PctEncodedFragments::StrayPercent);
@@ -141,44 +145,44 @@ where
         self.result_continue_or_err()?;
         let mut rest = s;
         while !rest.is_empty() {
-            let (len_consumed, result) = self.decoder.push_encoded(self.buf, rest);
-            if len_consumed == 0 {
-                // `rest` does not start with the percent-encoded triplets.
-                // Flush the decoder before attempting to decode more data.
-                if let Some(len_written) = self.decoder.flush(self.buf).map(NonZeroU8::get) {
-                    self.output_as_undecodable(len_written)?;
-                    rest = &rest[usize::from(len_written)..];
-                }
+            let (len_consumed, mut result) = self.decoder.push_encoded(self.buf, rest);
+            rest = &rest[len_consumed..];
 
-                // Write plain string prefix (if found).
-                let (plain_prefix, suffix) = find_split(rest, b'%').unwrap_or((rest, ""));
-                debug_assert!(
-                    !plain_prefix.is_empty(),
-                    "`len_consumed == 0` indicates non-empty `rest` not starting with `%`"
-                );
-                self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
-                self.result_continue_or_err()?;
-                rest = suffix;
-                continue;
+            // Process decoding result.
+            loop {
+                match result {
+                    PushResult::Decoded(len_written, c) => {
+                        let len_written = usize::from(len_written.get());
+                        let frag = core::str::from_utf8(&self.buf[..len_written])
+                            .expect("`DecoderBuffer` writes a valid ASCII string");
+                        self.result = (self.f)(PctEncodedFragments::Char(frag, c));
+                        self.result_continue_or_err()?;
+                    }
+                    PushResult::Undecodable(len_written) => {
+                        self.output_as_undecodable(len_written)?;
+                    }
+                    PushResult::NeedMoreBytes => {
+                        // Nothing to write at this time.
+                        break;
+                    }
+                }
+                // The triplet that revealed the preceding triplets to be
+                // undecodable can still be in the buffer.
+                result = self.decoder.decode_buffered(self.buf);
             }
 
-            // Process decoding result.
-            match result {
-                PushResult::Decoded(len_written, c) => {
-                    let len_written = usize::from(len_written.get());
-                    let frag = core::str::from_utf8(&self.buf[..len_written])
-                        .expect("`DecoderBuffer` writes a valid ASCII string");
-                    self.result = (self.f)(PctEncodedFragments::Char(frag, c));
+            if self.decoder.is_empty() {
+                // Write plain string prefix (if found).
+                let (plain_prefix, suffix) = match rest.find('%') {
+                    Some(pos) => rest.split_at(pos),
+                    None => (rest, ""),
+                };
+                if !plain_prefix.is_empty() {
+                    self.result = (self.f)(PctEncodedFragments::NoPctStr(plain_prefix));
                     self.result_continue_or_err()?;
-                }
-                PushResult::Undecodable(len_written) => {
-                    self.output_as_undecodable(len_written)?;
-                }
-                PushResult::NeedMoreBytes => {
-                    // Nothing to write at this time.
+                    rest = suffix;
                 }
             }
-            rest = &rest[len_consumed..];
         }
         Ok(())
     }
@@ -275,8 +279,8 @@ impl DecoderBuffer {
                 // Expect `%`.
                 if c != '%' {
                     // Undecodable.
-                    // `-1`: the last byte is peeked but not consumed.
-                    let len_consumed = s.len() - chars.as_str().len() - 1;
+                    // The last character is peeked but not consumed.
+                    let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                     let len_result = self.len_encoded;
                     self.write_and_pop(buf, len_result);
                     return (len_consumed, PushResult::Undecodable(len_result));
@@ -289,8 +293,8 @@ impl DecoderBuffer {
             // Expect a nibble.
             if !c.is_ascii_hexdigit() {
                 // Undecodable.
-                // `-1`: the last byte is peeked but not consumed.
-                let len_consumed = s.len() - chars.as_str().len() - 1;
+                // The last character is peeked but not consumed.
+                let len_consumed = s.len() - chars.as_str().len() - c.len_utf8();
                 let len_result = self.len_encoded;
                 self.write_and_pop(buf, len_result);
                 return (len_consumed, PushResult::Undecodable(len_result));
@@ -307,47 +311,68 @@ impl DecoderBuffer {
 
             // Now a new percent-encoded triplet is read.
             // Check if the buffer contains a valid decodable content.
-            let len_decoded = usize::from(self.len_encoded) / 3;
-            match core::str::from_utf8(&self.decoded[..len_decoded]) {
-                Ok(decoded_str) => {
-                    // Successfully decoded.
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let c = decoded_str
-                        .chars()
-                        .next()
-                        .expect("`decoded` buffer is nonempty");
-                    let len_result = NonZeroU8::new(self.len_encoded).expect(
-                        "`encoded` buffer is nonempty since \
-                         `push_single_encoded_byte()` was called",
-                    );
-                    self.write_and_pop(buf, len_result.get());
-                    return (len_consumed, PushResult::Decoded(len_result, c));
-                }
-                Err(e) => {
-                    // Undecodable.
-                    assert_eq!(
-                        e.valid_up_to(),
-                        0,
-                        "`decoded` buffer contains at most one character"
-                    );
-                    let skip_len_decoded = match e.error_len() {
-                        // Unexpected EOF. Wait for remaining input.
-                        None => continue,
-                        // Skip invalid bytes.
-                        Some(v) => v,
-                    };
-                    let len_consumed = s.len() - chars.as_str().len();
-                    let len_result = skip_len_decoded as u8 * 3;
-                    assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
-                    self.write_and_pop(buf, len_result);
-                    return (len_consumed, PushResult::Undecodable(len_result));
-                }
-            };
+            let result = self.decode_buffered(buf);
+            if !matches!(result, PushResult::NeedMoreBytes) {
+                let len_consumed = s.len() - chars.as_str().len();
+                return (len_consumed, result);
+            }
         }
         let len_consumed = s.len() - chars.as_str().len();
         (len_consumed, PushResult::NeedMoreBytes)
     }
 
+    /// Decodes the complete triplets in the buffer.
+    ///
+    /// Returns `PushResult::NeedMoreBytes` if the buffer has no complete
+    /// triplets or if they are the proper prefix of a valid UTF-8 sequence.
+    /// Otherwise writes the processed part to the destination, and removes it
+    /// from the buffer.
+    #[must_use]
+    fn decode_buffered(&mut self, buf: &mut [u8]) -> PushResult {
+        let len_decoded = usize::from(self.len_encoded) / 3;
+        if len_decoded == 0 {
+            return PushResult::NeedMoreBytes;
+        }
+        match core::str::from_utf8(&self.decoded[..len_decoded]) {
+            Ok(decoded_str) => {
+                // Successfully decoded.
+                let c = decoded_str
+                    .chars()
+                    .next()
+                    .expect("`decoded` buffer is nonempty");
+                let len_result = NonZeroU8::new(self.len_encoded)
+                    .expect("`encoded` buffer has at least one triplet");
+                self.write_and_pop(buf, len_result.get());
+                PushResult::Decoded(len_result, c)
+            }
+            Err(e) => {
+                // Undecodable.
+                assert_eq!(
+                    e.valid_up_to(),
+                    0,
+                    "`decoded` buffer contains at most one character"
+                );
+                let skip_len_decoded = match e.error_len() {
+                    // Unexpected EOF. Wait for remaining input.
+                    None => return PushResult::NeedMoreBytes,
+                    // Skip invalid bytes.
+                    Some(v) => v,
+                };
+                let len_result = skip_len_decoded as u8 * 3;
+                assert_ne!(skip_len_decoded, 0, "empty bytes cannot be invalid");
+                self.write_and_pop(buf, len_result);
+                PushResult::Undecodable(len_result)
+            }
+        }
+    }
+
+    /// Returns `true` if the buffer is empty.
+    #[inline]
+    #[must_use]
+    fn is_empty(&self) -> bool {
+        self.len_encoded == 0
+    }
+
     /// Writes the incomplete data completely to the destination, and clears the internal buffer.
     #[must_use]
     pub(crate) fn flush(&mut self, buf: &mut [u8]) -> Option<NonZeroU8> {
-- 
2.43.0


From 1c5def25ebeeb57bd9cd7237be0967436818727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 10/21] fix: count prefix lengths of template values in
 characters

---
 src/template/expand.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index d7745e9..3bcddc8 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -463,13 +463,8 @@ fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
                     writer.write_str(s)
                 }
                 PctEncodedFragments::NoPctStr(s) => {
-                    let mut chars = s.char_indices();
-                    let count = chars
-                        .by_ref()
-                        .take(max_len)
-                        .last()
-                        .map(|(i, _)| i)
-                        .expect("decomposed string fragment must not be empty");
+                    let mut chars = s.chars();
+                    let count = chars.by_ref().take(max_len).count();
                     let sub_len = s.len() - chars.as_str().len();
                     max_len -= count;
                     write!(
@@ -528,12 +523,8 @@ impl<S: Spec, W: fmt::Write> fmt::Write for TruncatePercentEncodeWriter<'_, S, W
         if self.rest_num_chars == 0 {
             return Ok(());
         }
-        let mut chars = s.char_indices();
-        let skip_count = chars
-            .by_ref()
-            .take(self.rest_num_chars)
-            .last()
-            .map_or(0, |(i, _)| i + 1);
+        let mut chars = s.chars();
+        let skip_count = chars.by_ref().take(self.rest_num_chars).count();
         let len = s.len() - chars.as_str().len();
         let truncated = &s[..len];
         write!(
-- 
2.43.0


From ce90525bb3075bc9c7ca1e45bd96e5619d827d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 11/21] fix: don't percent-encode variable names on template
 expansion

---
 src/template/expand.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 3bcddc8..9b75ccf 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -783,11 +783,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 (false, true) => self.visitor.writer.write_str(self.oppr.sep)?,
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
             }
@@ -870,11 +868,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 self.visitor.writer.write_char('=')?;
             } else {
                 if self.oppr.named {
-                    escape_write::<S, _, _>(
-                        self.visitor.writer,
-                        self.visitor.varspec.name().as_str(),
-                        self.oppr.allow_reserved,
-                    )?;
+                    self.visitor
+                        .writer
+                        .write_str(self.visitor.varspec.name().as_str())?;
                     self.visitor.writer.write_char('=')?;
                 }
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-- 
2.43.0


From b5f7818b10ed2cdbb461baf509ef29058848114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 12/21] fix: expand empty members of exploded named values by
 the operator's rule

---
 src/template/expand.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 9b75ccf..192a20a 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -444,6 +444,20 @@ fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
     }
 }
 
+/// Writes `=` and the escaped value, or writes `ifemp` if the value is empty.
+fn escape_write_named<S: Spec, T: fmt::Display, W: fmt::Write>(
+    f: &mut W,
+    v: T,
+    oppr: &OpProps,
+) -> fmt::Result {
+    let mut writer = PrefixOnceWriter::with_prefix(f, "=");
+    escape_write::<S, _, _>(&mut writer, v, oppr.allow_reserved)?;
+    if writer.has_unwritten_prefix() {
+        f.write_str(oppr.ifemp)?;
+    }
+    Ok(())
+}
+
 /// Truncates the given value as a string, escapes the value, and writes it.
 fn escape_write_with_maxlen<S: Spec, T: fmt::Display, W: fmt::Write>(
     writer: &mut PrefixOnceWriter<'_, W>,
@@ -774,7 +788,9 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                 self.visitor
                     .writer
                     .write_str(self.visitor.varspec.name().as_str())?;
-                self.visitor.writer.write_char('=')?;
+                if !is_explode {
+                    self.visitor.writer.write_char('=')?;
+                }
             }
         } else {
             // Write prefix for the non-first item.
@@ -786,12 +802,15 @@ impl<S: Spec, W: fmt::Write> ListValueVisitor<'_, S, W> {
                     self.visitor
                         .writer
                         .write_str(self.visitor.varspec.name().as_str())?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named::<S, _, _>(self.visitor.writer, item, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, item, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
@@ -865,7 +884,9 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
             }
             if is_explode {
                 escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                self.visitor.writer.write_char('=')?;
+                if !self.oppr.named {
+                    self.visitor.writer.write_char('=')?;
+                }
             } else {
                 if self.oppr.named {
                     self.visitor
@@ -892,12 +913,15 @@ impl<S: Spec, W: fmt::Write> AssocValueVisitor<'_, S, W> {
                 (true, true) => {
                     self.visitor.writer.write_str(self.oppr.sep)?;
                     escape_write::<S, _, _>(self.visitor.writer, key, self.oppr.allow_reserved)?;
-                    self.visitor.writer.write_char('=')?;
                 }
             }
         }
 
-        escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        if self.oppr.named && is_explode {
+            escape_write_named::<S, _, _>(self.visitor.writer, value, self.oppr)?;
+        } else {
+            escape_write::<S, _, _>(self.visitor.writer, value, self.oppr.allow_reserved)?;
+        }
 
         self.num_elems += 1;
         Ok(())
-- 
2.43.0


From 124bf2db78ff041b4dc58175b88ad87f1371600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 13/21] fix: don't panic on non-ASCII text after a percent sign
 in a template

---
 src/template/parser/validate.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 9789f1e..81258a2 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -118,20 +118,19 @@ pub(in crate::template) fn validate_template_str(s: &str) -> Result<(), Error> {
                         offset + literal.len(),
                     ));
                 }
-                let (xdigits2, new_rest) = xdigits2_and_rest.split_at(2);
-                if !xdigits2.as_bytes()[0].is_ascii_hexdigit() {
+                if !xdigits2_and_rest.as_bytes()[0].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 1,
                     ));
                 }
-                if !xdigits2.as_bytes()[1].is_ascii_hexdigit() {
+                if !xdigits2_and_rest.as_bytes()[1].is_ascii_hexdigit() {
                     return Err(Error::new(
                         ErrorKind::InvalidPercentEncoding,
                         offset + literal.len() + 2,
                     ));
                 }
-                new_rest
+                &xdigits2_and_rest[2..]
             }
             Some((literal, b'{', expr_and_rest)) => {
                 validate_literal(literal, offset)?;
-- 
2.43.0


From f601f1a0a8c635075844e1631c5e4ef29aafe06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 14/21] fix: accept only 1 to 9999 as the max length of a
 template variable

---
 src/template/parser/validate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 81258a2..3a025a0 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -26,7 +26,8 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
     match find_split2_hole(s, b':', b'*') {
         Some((maybe_varname, b':', maybe_len)) => {
             validate_varname(maybe_varname, offset)?;
-            if !(1..=5).contains(&maybe_len.len()) {
+            // `max-length` is a positive integer less than 10000 without leading zeros.
+            if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
                     offset + maybe_varname.len() + 2,
-- 
2.43.0


From d31a7dc6a0a1d797ce53d835956d3c44c15a71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 15/21] fix: reject misplaced periods in template variable
 names

---
 src/template/parser/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 3a025a0..4c34ea5 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -62,7 +62,10 @@ pub(crate) fn validate_varname(s: &str, offset: usize) -> Result<(), Error> {
         Some(b) if b.is_ascii() && is_ascii_varchar_start(*b) => &s[1..],
         _ => return Err(Error::new(ErrorKind::InvalidExpression, offset)),
     };
-    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false);
+    // A period should be followed by a `varchar`.
+    let is_valid = satisfy_chars_with_pct_encoded(rest, is_ascii_varchar_continue, |_| false)
+        && !rest.ends_with('.')
+        && !rest.contains("..");
     if !is_valid {
         return Err(Error::new(ErrorKind::InvalidExpression, offset));
     }
-- 
2.43.0


From 1a491660a06f12cada241e91bd1b388d43fb0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 16/21] fix: accept non-ASCII literals in URI templates

---
 src/template/expand.rs          | 19 ++++++++++++++++---
 src/template/parser/validate.rs | 20 +++++++++++++++-----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/template/expand.rs b/src/template/expand.rs
index 192a20a..ee12f85 100644
--- a/src/template/expand.rs
+++ b/src/template/expand.rs
@@ -138,7 +138,7 @@ impl<S: Spec, C: Context> fmt::Display for Expanded<'_, S, C> {
         for chunk in Chunks::new(self.template) {
             let expr = match chunk {
                 Chunk::Literal(lit) => {
-                    f.write_str(lit)?;
+                    write_literal::<S, _>(f, lit)?;
                     continue;
                 }
                 Chunk::Expr(body) => body,
@@ -206,8 +206,7 @@ fn expand_whole_dynamic_impl<S: Spec, W: fmt::Write, C: DynamicContext>(
     for chunk in Chunks::new(template) {
         let expr = match chunk {
             Chunk::Literal(lit) => {
-                writer
-                    .write_str(lit)
+                write_literal::<S, _>(writer, lit)
                     .map_err(|_| Error::new(ErrorKind::WriteFailed, pos))?;
                 pos += lit.len();
                 continue;
@@ -396,6 +395,20 @@ fn expand<S: Spec, C: Context>(
     Ok(())
 }
 
+/// Writes the literal, percent-encoding the characters not allowed in the spec.
+fn write_literal<S: Spec, W: fmt::Write>(f: &mut W, lit: &str) -> fmt::Result {
+    let mut rest = lit;
+    while let Some(pos) = rest.find(|c: char| !c.is_ascii()) {
+        let (ascii, nonascii) = rest.split_at(pos);
+        let len = nonascii.find(|c: char| c.is_ascii());
+        let (nonascii, suffix) = nonascii.split_at(len.unwrap_or(nonascii.len()));
+        f.write_str(ascii)?;
+        write!(f, "{}", PercentEncoded::<_, S>::characters(nonascii))?;
+        rest = suffix;
+    }
+    f.write_str(rest)
+}
+
 /// Escapes the given value and writes it.
 #[inline]
 fn escape_write<S: Spec, T: fmt::Display, W: fmt::Write>(
diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index 4c34ea5..f6a2030 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -3,6 +3,7 @@
 use crate::parser::str::{
     find_split2_hole, find_split_hole, satisfy_chars_with_pct_encoded, starts_with_double_hexdigits,
 };
+use crate::spec::{IriSpec, Spec};
 use crate::template::components::MaybeOperator;
 use crate::template::error::{Error, ErrorKind};
 
@@ -12,11 +13,20 @@ use crate::template::parser::char::{
 
 /// Returns `Ok(())` if the given string is a valid literal.
 fn validate_literal(s: &str, offset: usize) -> Result<(), Error> {
-    match s
-        .chars()
-        .position(|c| !c.is_ascii() || !is_ascii_literal_char(c as u8))
-    {
-        Some(pos) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
+    /// Returns true if the non-ASCII character matches `ucschar` or `iprivate`.
+    fn is_nonascii_literal_char<S: Spec>(c: char) -> bool {
+        S::is_nonascii_char_unreserved(c) || S::is_nonascii_char_private(c)
+    }
+
+    let is_literal_char = |c: char| {
+        if c.is_ascii() {
+            is_ascii_literal_char(c as u8)
+        } else {
+            is_nonascii_literal_char::<IriSpec>(c)
+        }
+    };
+    match s.char_indices().find(|(_, c)| !is_literal_char(*c)) {
+        Some((pos, _)) => Err(Error::new(ErrorKind::InvalidCharacter, offset + pos)),
         None => Ok(()),
     }
 }
-- 
2.43.0


From f18dafd7681a12eba1da97ee2d778b32863e8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 17/21] fix: report built relative paths as normalizable

Path segment normalization is not applied to a relative path when neither
the scheme nor the authority is present, so nothing has to be escaped.
---
 src/build.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 90ff8ec..ec14319 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -1140,7 +1140,9 @@ macro_rules! impl_stringifiers {
             /// Returns Ok`(())` if the IRI is normalizable by the RFC 3986 algorithm.
             #[inline]
             pub fn ensure_rfc3986_normalizable(&self) -> Result<(), normalize::Error> {
-                if self.builder.authority.is_none() {
+                // Dot segments are not removed from a relative path without scheme and authority.
+                let removes_dot_segments = self.builder.scheme.is_some() || self.path_is_absolute;
+                if self.builder.authority.is_none() && removes_dot_segments {
                     let path = normalize::PathToNormalize::from_single_path(self.builder.path);
                     path.ensure_rfc3986_normalizable_with_authority_absent()?;
                 }
-- 
2.43.0


From ac411734317aa3164f8a3fecdf61a2330f4d2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 18/21] fix: report allocation failure when masking a reference
 without a password

---
 src/mask_password.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index dcc5e08..de16de0 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -3,8 +3,6 @@
 use core::fmt::{self, Write as _};
 use core::ops::Range;
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
-use alloc::borrow::ToOwned;
 #[cfg(feature = "alloc")]
 use alloc::collections::TryReserveError;
 #[cfg(all(feature = "alloc", not(feature = "std")))]
@@ -203,12 +201,10 @@ macro_rules! impl_mask {
             type Target = $owned<S>;
 
             fn try_to_dedicated_string(&self) -> Result<Self::Target, TryReserveError> {
-                let pw_range = match password_range_to_hide(self.iri_ref.as_ref()) {
-                    Some(pw_range) => pw_range,
-                    None => return Ok(self.iri_ref.to_owned()),
-                };
-                let mut s = String::new();
                 let iri_ref = self.iri_ref.as_str();
+                let pw_range = password_range_to_hide(self.iri_ref.as_ref())
+                    .unwrap_or(iri_ref.len()..iri_ref.len());
+                let mut s = String::new();
                 s.try_reserve(iri_ref.len() - (pw_range.end - pw_range.start))?;
                 s.push_str(&iri_ref[..pw_range.start]);
                 s.push_str(&iri_ref[pw_range.end..]);
-- 
2.43.0


From c749695034448854fc6a15c68c514115ddf67bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 19/21] fix: do not apply formatting parameters to the replaced
 password only

---
 src/mask_password.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mask_password.rs b/src/mask_password.rs
index de16de0..c46d9c4 100644
--- a/src/mask_password.rs
+++ b/src/mask_password.rs
@@ -54,7 +54,8 @@ where
     );
 
     f.write_str(&s[..pw_range.start])?;
-    alt.fmt(f)?;
+    // Do not apply the formatting parameters (such as width) only to this part.
+    write!(f, "{alt}")?;
     f.write_str(&s[pw_range.end..])?;
     Ok(())
 }
-- 
2.43.0


From d2945aa9c389c2090e4a07223000ba62096d4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 20/21] fix: do not apply formatting parameters to the user
 information and host of built IRIs only

---
 src/build.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index ec14319..b8c15d0 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -189,7 +189,7 @@ impl AuthorityBuilder<'_> {
                 if normalize {
                     PctCaseNormalized::<S>::new(userinfo).fmt(f)?;
                 } else {
-                    userinfo.fmt(f)?;
+                    f.write_str(userinfo)?;
                 }
                 f.write_char('@')?;
             }
@@ -204,7 +204,7 @@ impl AuthorityBuilder<'_> {
                     if normalize {
                         PctCaseNormalized::<S>::new(password).fmt(f)?;
                     } else {
-                        password.fmt(f)?;
+                        f.write_str(password)?;
                     }
                 }
                 f.write_char('@')?;
@@ -221,7 +221,7 @@ impl AuthorityBuilder<'_> {
             }
             #[cfg(feature = "std")]
             HostRepr::IpAddr(ipaddr) => match ipaddr {
-                std::net::IpAddr::V4(v) => v.fmt(f)?,
+                std::net::IpAddr::V4(v) => write!(f, "{v}")?,
                 std::net::IpAddr::V6(v) => write!(f, "[{v}]")?,
             },
         }
-- 
2.43.0


From 339cac3dcceaf47b1e48ab1714f22f6af6c65941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:37 +0000
Subject: [PATCH 21/21] fix: report the position of an invalid prefix length
 exactly

The position of an invalid `max-length` was one byte behind the
character it was meant for, possibly outside of the expression or even
at the end of the template.
---
 src/template/parser/validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/template/parser/validate.rs b/src/template/parser/validate.rs
index f6a2030..ff01175 100644
--- a/src/template/parser/validate.rs
+++ b/src/template/parser/validate.rs
@@ -40,13 +40,13 @@ fn validate_varspec(s: &str, offset: usize) -> Result<(), Error> {
             if !(1..=4).contains(&maybe_len.len()) || maybe_len.starts_with('0') {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
-                    offset + maybe_varname.len() + 2,
+                    offset + maybe_varname.len() + 1,
                 ));
             }
             if let Some(pos) = maybe_len.bytes().position(|b| !b.is_ascii_digit()) {
                 return Err(Error::new(
                     ErrorKind::InvalidExpression,
-                    offset + maybe_varname.len() + 2 + pos,
+                    offset + maybe_varname.len() + 1 + pos,
                 ));
             }
         }
-- 
2.43.0

