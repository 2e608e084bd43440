From 5ea0a7d03cf1bc6850f3bd8b53c9ba41e761d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 1/9] fix: SequenceSet::normalize must not confuse u32::MAX - 1
 with `*`

`5:4294967294` became `5:*` and `4294967294,*` lost its `*`, because the
exclusive end of a range saturated at u32::MAX.
---
 imap-types/src/sequence.rs | 71 +++++++++-----------------------------
 1 file changed, 17 insertions(+), 54 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..da9f2bb 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -1,6 +1,6 @@
 use std::{
     cmp::{Ordering, max},
-    collections::{HashSet, VecDeque},
+    collections::VecDeque,
     fmt::Debug,
     iter::Rev,
     mem,
@@ -37,71 +37,34 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
-        let mut singles = HashSet::with_capacity(self.0.0.len());
+        // Half-open ranges over `u64`: The (exclusive) end of a range that contains `u32::MAX`
+        // (i.e., `*`) must not be confused with the end of a range that doesn't.
         let mut ranges = Vec::with_capacity(self.0.0.len());
 
         // First, normalize all sequences
         for seq in &mut self.0.0 {
-            match seq.normalize() {
-                Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
-                    // Push a 1-lenth range so they can merge nicely
-                    // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
-                }
-                Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
-                }
-            }
-        }
-
-        // TODO: Improve this loop, for eg. with a .retain().
-        for single in singles.clone() {
-            for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
-                    singles.remove(&single);
-                    range.start = single;
-                } else if single.get() == range.end.get() {
-                    singles.remove(&single);
-                    range.end = single;
-                } else if range.contains(&single) {
-                    singles.remove(&single);
-                }
-            }
+            let (a, b) = match seq.normalize() {
+                // Push a 1-length range so they can merge nicely later on
+                Sequence::Single(id) => (id.to_non_zero_u32(), id.to_non_zero_u32()),
+                Sequence::Range(a, b) => (a.to_non_zero_u32(), b.to_non_zero_u32()),
+            };
+            ranges.push(u64::from(a.get())..u64::from(b.get()) + 1);
         }
 
-        // Rebuild the inner sequence set with merged ranges
+        // Rebuild the inner sequence set with (sorted and) merged ranges
         self.0.0.clear();
         for range in merge_ranges(ranges) {
-            singles.retain(|single| !range.contains(single));
+            // Unwrap: `range` is not empty and its elements come from `NonZeroU32`s.
+            let a = NonZeroU32::new(range.start as u32).unwrap();
+            let b = NonZeroU32::new((range.end - 1) as u32).unwrap();
 
-            match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
-                }
-                (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
-                }
+            if a == b {
+                self.0.0.push(Sequence::Single(a.into()));
+            } else {
+                self.0.0.push(Sequence::Range(a.into(), b.into()));
             }
         }
 
-        // Add remaining singles that don't belong to any range to the
-        // sequence set
-        for single in singles {
-            self.0.0.push(single.into());
-        }
-
-        // Sort the merged sequence set
-        self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
-        });
-
         self
     }
 }
-- 
2.43.0


From 4e29427c1677e08b8cc9995e1d4a613652cd1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:29 +0000
Subject: [PATCH 2/9] fix: convert the start of a Range<NonZeroU32> to a
 Sequence

The start was ignored: `5..10` became `1:9`.
---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index da9f2bb..97f8137 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -557,7 +557,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From 6fe5e3ba3c3f36caa210e71a69457511cb49cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:29 +0000
Subject: [PATCH 3/9] fix: reject a leading `+` when parsing a sequence number

`+5` is not a number in the IMAP grammar but was accepted as `5`.
---
 imap-types/src/sequence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 97f8137..95e3842 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -399,9 +399,9 @@ impl FromStr for SeqOrUid {
             Ok(SeqOrUid::Asterisk)
         } else {
             // This is to align parsing here with the IMAP grammar:
-            // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
+            // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0 or `+`.
             // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From 313315e68e83dc364b3ca228323378912a2654f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:29 +0000
Subject: [PATCH 4/9] fix: recognize SCRAM-SHA3-512(-PLUS)

The names were turned into `AuthMechanism::Other`, shadowing the typed variants,
so encoding and decoding `AuthMechanism::ScramSha3_512` yielded a different value.
---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From 5457b350fee8a0d1cd12343e1f18f6aed8ae5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:29 +0000
Subject: [PATCH 5/9] fix: recognize the NAMESPACE capability

It was turned into `Capability::Other`, shadowing `Capability::Namespace`.
---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From c2be9bddc45092f9e2efbaa002c2c8b237b597e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:50 +0000
Subject: [PATCH 6/9] fix: encode the MODSEQ fetch item with parentheses

RFC 7162: fetch-mod-resp = "MODSEQ" SP "(" permsg-modsequence ")". The unparenthesized
form could not be decoded again.
---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From 5116e11f7c49274827765d7f5ce8a15d56264d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:46 +0000
Subject: [PATCH 7/9] fix: keep the name of an unknown QUOTA=RES-... capability

The resource name was lowercased, and everything before the first `res-` was
dropped: `QUOTA=FOORES-STORAGE` became `QUOTA=RES-STORAGE`.
---
 imap-types/src/response.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..2fb5d94 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,12 +1254,12 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
-                                // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                            if let Some((prefix, right)) = right.split_at_checked(4) {
+                                if prefix.eq_ignore_ascii_case("res-") {
+                                    // TODO(efficiency)
+                                    if let Ok(resource) = Resource::try_from(right.to_owned()) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From ff68faaf09e69cb9a04f0756a0ee750fdc1a1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:02 +0000
Subject: [PATCH 8/9] fix: limit the nesting of message/rfc822 body structures

---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From 78fc5e318377928459b632cd53245d728361fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:10 +0000
Subject: [PATCH 9/9] fix: reject CR and LF in UTF-8 quoted strings

---
 imap-codec/src/extensions/utf8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..7554519 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,7 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                take_while1(|c| !is_quoted_specials(c) && c != b'\r' && c != b'\n'),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0

