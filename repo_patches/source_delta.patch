From 0f03116ba74c0c71231031a09a0bec5665ea0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:53 +0000
Subject: [PATCH 1/7] fix: leave the input slice untouched when BerRef::parse
 or DerRef::parse fails

---
 bsn1/src/ber_ref.rs | 10 ++++++----
 bsn1/src/der_ref.rs |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..4e33068 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -86,16 +86,18 @@ impl BerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
+        let mut readable: &[u8] = *bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
 
-        let total_len = init_bytes.len() - bytes.len();
-        unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
+        let total_len = bytes.len() - readable.len();
+        let (read, left) = bytes.split_at(total_len);
+        *bytes = left;
+        unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
     /// Parses `bytes` starting with octets of 'ASN.1 BER' and returns a mutable reference to
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..96e7c05 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -91,11 +91,12 @@ impl DerRef {
     /// }
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
-        let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable: &[u8] = *bytes;
+        Self::do_parse(&mut readable)?;
 
-        let total_len = init_bytes.len() - bytes.len();
-        let read = &init_bytes[..total_len];
+        let total_len = bytes.len() - readable.len();
+        let (read, left) = bytes.split_at(total_len);
+        *bytes = left;
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
-- 
2.43.0


From 7a581ad8034ca2ca5c1ec8f9ce7b9a390d1eecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:39 +0000
Subject: [PATCH 2/7] fix: read contents from a reader to the end without
 trusting the declared length

Der::parse used one read call, so a reader returning fewer octets than asked
made it fail with UnterminatedBytes. Ber::parse and Der::parse also allocated
the whole declared length up front, so a few octets could abort the process
or make it panic.
---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 19 ++-----------------
 bsn1/src/misc.rs | 34 ++++++++++++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..2d80fda 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, writeable, length)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..4962f92 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,23 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
-        }
+        crate::misc::read_contents(readable, &mut writeable, contents_length)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..d0363e4 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,8 +14,8 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
-use std::io::{Read, Write};
+use crate::{Buffer, Error, Length};
+use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
 pub fn read_u8<T>(readable: &mut T) -> Result<u8, Error>
@@ -31,6 +31,36 @@ where
     }
 }
 
+/// Reads just `count` octets from `readable` and appends them to `buffer`.
+///
+/// `count` may come from an untrusted input.
+/// This function does not allocate the memory all at once, but does it as the octets are read.
+pub fn read_contents<R>(readable: &mut R, buffer: &mut Buffer, count: usize) -> Result<(), Error>
+where
+    R: ?Sized + Read,
+{
+    const MIN_CHUNK: usize = 4096;
+
+    let mut left = count;
+    while 0 < left {
+        let offset = buffer.len();
+        let chunk = left.min(MIN_CHUNK.max(offset));
+
+        buffer.reserve(chunk);
+        unsafe { buffer.set_len(offset + chunk) };
+
+        readable
+            .read_exact(&mut buffer.as_mut_slice()[offset..])
+            .map_err(|e| match e.kind() {
+                ErrorKind::UnexpectedEof => Error::UnterminatedBytes,
+                _ => e.into(),
+            })?;
+        left -= chunk;
+    }
+
+    Ok(())
+}
+
 /// Tries to write `byte` to `writeable`.
 ///
 /// # Safety
-- 
2.43.0


From 10becdbe75b99207e9b54a49281d8bdcf018a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:40 +0000
Subject: [PATCH 3/7] fix: retry an interrupted read while parsing the
 identifier and the length

---
 bsn1/src/misc.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index d0363e4..0e8c1b2 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -23,11 +23,14 @@ where
     T: ?Sized + Read,
 {
     let mut buf = [0; 1];
-    match readable.read(&mut buf) {
-        Err(e) => Err(e.into()),
-        Ok(0) => Err(Error::UnterminatedBytes),
-        Ok(1) => Ok(buf[0]),
-        _ => unreachable!(),
+    loop {
+        match readable.read(&mut buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(1) => return Ok(buf[0]),
+            _ => unreachable!(),
+        }
     }
 }
 
-- 
2.43.0


From fa6a3bb092097b3952767c4a0cdb958cc24b7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:52 +0000
Subject: [PATCH 4/7] fix: reject the indefinite length for booleans, integers
 and strings

Length::Indefinite is not equal to anything, itself included, so the check
never matched and the end-of-contents octets were taken for the value.
---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From c88d2b0ea6b4d8c72e3ba866cd106500f07fa319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:52 +0000
Subject: [PATCH 5/7] fix: accept an indefinite-length key-value pair while
 deserializing a map

---
 bsn1_serde/src/de/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..e5ccc7e 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,8 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] =
+                exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From bcc171ab1194fafb1fdec0f99e87f24ecae3a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:04 +0000
Subject: [PATCH 6/7] fix: report an unknown length for a HashMap whose key
 length is unknown

Such entries were left out of the sum, so the length octets were too small.
---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From 8f198f84ff92e6963e4c84912c62df4cbfd67994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:04 +0000
Subject: [PATCH 7/7] fix: find the first bsn1 error behind contexts in
 Error::root_cause

---
 bsn1/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..fa207f1 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -172,17 +172,10 @@ impl Error {
     /// in the chain; otherwise, returns `self`.
     pub fn root_cause(&self) -> &Self {
         match self {
-            Self::Anyhow(err) => {
-                let mut ret = self;
-                for cause in err.chain() {
-                    if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
-                    }
-                }
-                return ret;
-            }
+            Self::Anyhow(err) => err
+                .chain()
+                .find_map(|cause| cause.downcast_ref::<Self>())
+                .unwrap_or(self),
             _ => self,
         }
     }
-- 
2.43.0

