From 90f6ef3afcfb03a64ad97dbee77c31ca76801ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:57 +0000
Subject: [PATCH 01/21] fix: refuse indefinite length of booleans, integers and
 strings

Length::Indefinite never equals itself, so the comparison in the BER
deserializers was always false. A debug build panicked; a release build
decoded the end-of-contents octets as part of the value.
---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From 567ff5a5048360bbb4e64cd545fec6fe0503e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:34 +0000
Subject: [PATCH 02/21] fix: accept indefinite length of key-value pairs in BER
 maps

The end-of-contents octets closing the pair were taken for extra octets,
so a map holding such a pair could not be deserialized.
---
 bsn1_serde/src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..39c3d9d 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,7 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] = exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From 049dfe625418541480b07270f28aa437f36678a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:49 +0000
Subject: [PATCH 03/21] fix: do not announce a length for a HashMap whose key
 length is unknown

Entries with such a key were counted as zero octets, so the serialized
length octets did not cover the entries.
---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From 37a5709357e753db386af26e51c0cd7b67cebd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:49 +0000
Subject: [PATCH 04/21] fix: serialize HashSet and HashMap in a deterministic,
 sorted order

DER requires the elements of SET OF in ascending order of their encodings.
They were written in hash iteration order, so equal collections
serialized to different octets.
---
 bsn1_serde/src/ser/mod.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index 660007f..18d5cd4 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -574,10 +574,11 @@ where
     }
 
     fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
+        let mut elements = Vec::with_capacity(self.len());
         for t in self.iter() {
-            crate::write_der(t, buffer)?;
+            elements.push(crate::to_der(t)?.into_vec());
         }
-        Ok(())
+        write_sorted(elements, buffer)
     }
 
     fn id_len(&self) -> Result<Option<usize>, Error> {
@@ -599,7 +600,9 @@ where
     }
 
     fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
+        let mut elements = Vec::with_capacity(self.len());
         for (k, v) in self.iter() {
+            let mut element = Vec::new();
             let (k_len, der_k) = match der_len(k)? {
                 Some(k_len) => (k_len, None),
                 None => {
@@ -620,23 +623,25 @@ where
             let contents_len = k_len + v_len;
             let length = Length::Definite(contents_len);
 
-            buffer.write_all(IdRef::sequence().as_ref())?;
-            buffer.write_all(length.to_bytes().as_ref())?;
+            element.write_all(IdRef::sequence().as_ref())?;
+            element.write_all(length.to_bytes().as_ref())?;
 
             if let Some(der_k) = der_k {
-                buffer.write_all(der_k.as_ref())?;
+                element.write_all(der_k.as_ref())?;
             } else {
-                crate::write_der(k, buffer)?;
+                crate::write_der(k, &mut element)?;
             }
 
             if let Some(der_v) = der_v {
-                buffer.write_all(der_v.as_ref())?;
+                element.write_all(der_v.as_ref())?;
             } else {
-                crate::write_der(v, buffer)?;
+                crate::write_der(v, &mut element)?;
             }
+
+            elements.push(element);
         }
 
-        Ok(())
+        write_sorted(elements, buffer)
     }
 
     fn id_len(&self) -> Result<Option<usize>, Error> {
@@ -662,6 +667,18 @@ where
     }
 }
 
+/// Writes `elements` in the ascending order of the encodings, as DER requires of `SET OF`.
+fn write_sorted<W: ?Sized + Write>(
+    mut elements: Vec<Vec<u8>>,
+    buffer: &mut W,
+) -> Result<(), Error> {
+    elements.sort_unstable();
+    for element in elements.iter() {
+        buffer.write_all(element)?;
+    }
+    Ok(())
+}
+
 fn der_len<T: Serialize>(t: &T) -> Result<Option<usize>, Error> {
     if let Some(contents_len) = t.der_contents_len()? {
         if let Some(id_len) = t.id_len()? {
-- 
2.43.0


From 23a54a140c9ae8e7f572127b8b9fc9bd97274cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:45 +0000
Subject: [PATCH 05/21] fix: leave the slice untouched when DerRef::parse or
 BerRef::parse fails

The documentation promises that the slice is not updated on failure, and
parse_mut behaves so.
---
 bsn1/src/ber_ref.rs | 6 ++++--
 bsn1/src/der_ref.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..e47d423 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -87,14 +87,16 @@ impl BerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
+        let mut readable = init_bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
 
-        let total_len = init_bytes.len() - bytes.len();
+        let total_len = init_bytes.len() - readable.len();
+        *bytes = readable;
         unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
     }
 
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..b84fb92 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -92,10 +92,12 @@ impl DerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable = init_bytes;
+        Self::do_parse(&mut readable)?;
 
-        let total_len = init_bytes.len() - bytes.len();
+        let total_len = init_bytes.len() - readable.len();
         let read = &init_bytes[..total_len];
+        *bytes = readable;
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
     }
 
-- 
2.43.0


From fcdc4aab494e14160e456081d09297f475467394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:39 +0000
Subject: [PATCH 06/21] fix: retry an interrupted read while parsing identifier
 and length

std::io::Read asks callers to retry after ErrorKind::Interrupted. The
contents were already read that way for BER.
---
 bsn1/src/misc.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..903a036 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -15,7 +15,7 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::{Error, Length};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
 pub fn read_u8<T>(readable: &mut T) -> Result<u8, Error>
@@ -23,11 +23,14 @@ where
     T: ?Sized + Read,
 {
     let mut buf = [0; 1];
-    match readable.read(&mut buf) {
-        Err(e) => Err(e.into()),
-        Ok(0) => Err(Error::UnterminatedBytes),
-        Ok(1) => Ok(buf[0]),
-        _ => unreachable!(),
+    loop {
+        match readable.read(&mut buf) {
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(1) => return Ok(buf[0]),
+            _ => unreachable!(),
+        }
     }
 }
 
-- 
2.43.0


From 1ace0b532e47a817d139ffac9f426952e9977935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:49 +0000
Subject: [PATCH 07/21] fix: accept contents which arrive in several reads in
 Der::parse

A reader may return fewer octets than requested before its end. Der::parse
called read only once and reported such contents as unterminated.
---
 bsn1/src/der.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..f32e702 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -16,7 +16,7 @@
 
 use crate::{Buffer, Contents, ContentsRef, DerRef, Error, IdRef, Length};
 use std::borrow::Borrow;
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 use std::ops::{Deref, DerefMut};
 
 /// `Der` owns [`DerRef`] and represents ASN.1 DER.
@@ -185,15 +185,10 @@ impl Der {
         unsafe { writeable.set_len(total_length) };
 
         let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
+        match readable.read_exact(buffer) {
+            Err(e) if e.kind() == ErrorKind::UnexpectedEof => Err(Error::UnterminatedBytes),
             Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
+            Ok(()) => Ok(Self { buffer: writeable }),
         }
     }
 
-- 
2.43.0


From ff8d1a4ef382736d6616799231026cb6baf2edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:16 +0000
Subject: [PATCH 08/21] fix: bound the memory requested for contents while
 parsing from a reader

The announced length was allocated before any octet was read, so a few
octets were enough to make Ber::parse and Der::parse panic or abort.
---
 bsn1/src/ber.rs  |  7 +------
 bsn1/src/der.rs  | 16 +++-------------
 bsn1/src/misc.rs | 30 +++++++++++++++++++++++++++++-
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..0a6e3c5 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, length, writeable)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index f32e702..39a4fec 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -16,7 +16,7 @@
 
 use crate::{Buffer, Contents, ContentsRef, DerRef, Error, IdRef, Length};
 use std::borrow::Borrow;
-use std::io::{ErrorKind, Read};
+use std::io::Read;
 use std::ops::{Deref, DerefMut};
 
 /// `Der` owns [`DerRef`] and represents ASN.1 DER.
@@ -178,18 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read_exact(buffer) {
-            Err(e) if e.kind() == ErrorKind::UnexpectedEof => Err(Error::UnterminatedBytes),
-            Err(e) => Err(e.into()),
-            Ok(()) => Ok(Self { buffer: writeable }),
-        }
+        crate::misc::read_contents(readable, contents_length, &mut writeable)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 903a036..8205b0a 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{ErrorKind, Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -67,3 +67,31 @@ where
     let _ = crate::identifier_ref::parse_id(readable, writeable)?;
     crate::length::parse_length(readable, writeable)
 }
+
+/// Reads `length` octets of contents from `readable`, and appends them to `buffer`.
+///
+/// `length` may be far larger than what `readable` really holds, because it comes from the input.
+/// So the memory is not allocated at once, but little by little while the octets are read.
+pub fn read_contents<R>(readable: &mut R, length: usize, buffer: &mut Buffer) -> Result<(), Error>
+where
+    R: ?Sized + Read,
+{
+    const MIN_STEP: usize = 4096;
+    let mut rest = length;
+
+    while 0 < rest {
+        let init_len = buffer.len();
+        let step = rest.min(init_len.max(MIN_STEP));
+
+        buffer.reserve(step);
+        unsafe { buffer.set_len(init_len + step) };
+
+        match readable.read_exact(&mut buffer.as_mut_slice()[init_len..]) {
+            Ok(()) => rest -= step,
+            Err(e) if e.kind() == ErrorKind::UnexpectedEof => return Err(Error::UnterminatedBytes),
+            Err(e) => return Err(e.into()),
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 8ef70f0816512c2d4538d63663c7e5d09b95b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:48 +0000
Subject: [PATCH 09/21] fix: let Error::root_cause look below the context
 layers

The outermost element of the chain is the context and not an Error, so the
search stopped at once and returned the wrapper.
---
 bsn1/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..fa207f1 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -172,17 +172,10 @@ impl Error {
     /// in the chain; otherwise, returns `self`.
     pub fn root_cause(&self) -> &Self {
         match self {
-            Self::Anyhow(err) => {
-                let mut ret = self;
-                for cause in err.chain() {
-                    if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
-                    }
-                }
-                return ret;
-            }
+            Self::Anyhow(err) => err
+                .chain()
+                .find_map(|cause| cause.downcast_ref::<Self>())
+                .unwrap_or(self),
             _ => self,
         }
     }
-- 
2.43.0


From 4f358d6a5135a1b00620a3ce82b71025392c93d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:42 +0000
Subject: [PATCH 10/21] fix: never write beyond the buffer in from_id_iterator

An iterator whose clone yields fewer octets than the iterator itself, which
safe code can build, made from_id_iterator write beyond the allocation.
---
 bsn1/src/ber.rs | 10 ++++++++--
 bsn1/src/der.rs | 17 ++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 0a6e3c5..719b597 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -399,7 +399,8 @@ impl Ber {
     ///
     /// # Panics
     ///
-    /// Panics if the total length exceeds `isize::MAX`.
+    /// Panics if the total length exceeds `isize::MAX`,
+    /// or if `contents` yields octets different in length from those of its clone.
     ///
     /// # Examples
     ///
@@ -477,7 +478,12 @@ impl Ber {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
+            contents.for_each(|c| {
+                // `contents` may yield more octets than its clone did.
+                let c = c.as_ref();
+                buffer.reserve(c.len());
+                buffer.extend_from_slice(c);
+            });
         }
 
         Self { buffer }
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 39a4fec..2f36898 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -250,7 +250,8 @@ impl Der {
     ///
     /// # Panics
     ///
-    /// Panics if the total length of the return value exceeds `isize::MAX`.
+    /// Panics if the total length of the return value exceeds `isize::MAX`,
+    /// or if `contents` yields octets different in length from those of its clone.
     ///
     /// # Examples
     ///
@@ -288,8 +289,18 @@ impl Der {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
-        }
+            contents.for_each(|c| {
+                // `contents` may yield more octets than its clone did.
+                let c = c.as_ref();
+                buffer.reserve(c.len());
+                buffer.extend_from_slice(c);
+            });
+        }
+        assert_eq!(
+            total_len,
+            buffer.len(),
+            "`contents` and its clone yielded different octets."
+        );
 
         Self { buffer }
     }
-- 
2.43.0


From 10edab291c5a7a5ee1601ccf8403d8e546369b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 11/21] fix: let raw identifiers name the fields of a derived
 enum variant

The name of the generated variable was built from the text of the field
name, which is no valid identifier for a name like r#type. The macro panicked.
---
 bsn1_serde_macros/src/data_container.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index 2bd7293..f7d291a 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -737,9 +737,8 @@ impl DataContainer {
                 static PREFIX: &str = "bsn1_macro_field_1701146321";
                 self.field_idents()
                     .into_iter()
-                    .map(|ident| {
-                        format_ident!("{}_{}", PREFIX, ident.to_string()).to_token_stream()
-                    })
+                    .enumerate()
+                    .map(|(i, _)| format_ident!("{}_{}", PREFIX, i).to_token_stream())
                     .collect()
             }
             Self::DataStruct { .. } => self
-- 
2.43.0


From 58a3e4568cfec2279be0c09f78a16e582196e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:24 +0000
Subject: [PATCH 12/21] fix: let a derived type have a generic parameter named
 W

The generated methods declared a parameter of that name, which is an error
in Rust when the type has one as well.
---
 bsn1_serde_macros/src/ser/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index 2ada25d..d7f9a62 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -66,13 +66,13 @@ fn do_into_serialize(ty: &syn::Path) -> syn::Result<TokenStream> {
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
 
     Ok(quote! {
-        fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
             #Serialize::write_id(&this, buffer)
         }
 
-        fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
             #Serialize::write_der_contents(&this, buffer)
@@ -97,12 +97,12 @@ fn do_to_serialize(to_fn: &syn::Path) -> syn::Result<TokenStream> {
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
 
     Ok(quote! {
-        fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
             #Serialize::write_id(&this, buffer)
         }
 
-        fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
             #Serialize::write_der_contents(&this, buffer)
         }
@@ -149,11 +149,11 @@ fn do_serialize_struct(
         };
 
     Ok(quote! {
-            fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_id
             }
 
-            fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_der_contents
             }
 
@@ -201,13 +201,13 @@ fn do_serialize_enum(
     }
 
     Ok(quote! {
-            fn write_id<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_ids } )*
                 }
             }
 
-            fn write_der_contents<W: #Write>(&self, buffer: &mut W) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_der_contentses } )*
                 }
-- 
2.43.0


From 5f6826495921f7f26d03e4e6ce222fc386d9b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:59 +0000
Subject: [PATCH 13/21] fix: keep variables of derived code apart from user
 functions

A default or to function which was called id, length, contents or buffer
did not compile, because a parameter of the generated method hid it.
---
 bsn1_serde_macros/src/de/mod.rs  | 23 ++++++++++++-----------
 bsn1_serde_macros/src/ser/mod.rs | 30 ++++++++++++++++--------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 5a66e33..83398e7 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -128,9 +128,9 @@ fn do_deserialize_struct(
     let Result = quote! { ::std::result::Result };
 
     let data = DataContainer::try_from((attribute, struct_name.clone(), data))?;
-    let id = quote! { id };
-    let length = quote! { length };
-    let contents = quote! { contents };
+    let id = quote! { bsn1_macro_1731700000_id };
+    let length = quote! { bsn1_macro_1731700000_length };
+    let contents = quote! { bsn1_macro_1731700000_contents };
 
     let (from_ber, from_der) = if data.attribute().is_transparent() {
         let from_ber = data.from_ber_transparent(&id, &length, &contents)?;
@@ -159,12 +159,12 @@ fn do_deserialize_struct(
     };
 
     Ok(quote! {
-        unsafe fn from_ber(id: &#IdRef, length: #Length, contents: &#ContentsRef)
+        unsafe fn from_ber(#id: &#IdRef, #length: #Length, #contents: &#ContentsRef)
             -> #Result<Self, #Error> {
             #from_ber
         }
 
-        fn from_der(id: &#IdRef, contents: &#ContentsRef) -> #Result<Self, #Error> {
+        fn from_der(#id: &#IdRef, #contents: &#ContentsRef) -> #Result<Self, #Error> {
             #from_der
         }
     })
@@ -185,8 +185,9 @@ fn do_deserialize_enum(
 
     let Result = quote! { ::std::result::Result };
 
-    let length = quote! { length };
-    let contents = quote! { contents };
+    let id = quote! { bsn1_macro_1731700000_id };
+    let length = quote! { bsn1_macro_1731700000_length };
+    let contents = quote! { bsn1_macro_1731700000_contents };
     let mut variants = Vec::new();
     let mut from_bers = Vec::new();
     let mut from_ders = Vec::new();
@@ -205,17 +206,17 @@ fn do_deserialize_enum(
     }
 
     Ok(quote! {
-        unsafe fn from_ber(id: &#IdRef, length: #Length, contents: &#ContentsRef)
+        unsafe fn from_ber(#id: &#IdRef, #length: #Length, #contents: &#ContentsRef)
             -> #Result<Self, #Error> {
-            #(if id.as_ref() as &[u8] == #arm_id_slices {
+            #(if #id.as_ref() as &[u8] == #arm_id_slices {
                 #from_bers
             } else)* {
                 #Result::Err(#Error::UnmatchedId)
             }
         }
 
-        fn from_der(id: &#IdRef, contents: &#ContentsRef) -> #Result<Self, #Error> {
-            #(if id.as_ref() as &[u8] == #arm_id_slices {
+        fn from_der(#id: &#IdRef, #contents: &#ContentsRef) -> #Result<Self, #Error> {
+            #(if #id.as_ref() as &[u8] == #arm_id_slices {
                 #from_ders
             } else)* {
                 #Result::Err(#Error::UnmatchedId)
diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index d7f9a62..ec8f588 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -64,18 +64,19 @@ fn do_into_serialize(ty: &syn::Path) -> syn::Result<TokenStream> {
     let Clone = quote! { ::std::clone::Clone };
     let Into = quote! { ::std::convert::Into };
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
+    let buffer = quote! { bsn1_macro_1731700000_buffer };
 
     Ok(quote! {
-        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
-            #Serialize::write_id(&this, buffer)
+            #Serialize::write_id(&this, #buffer)
         }
 
-        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this: Self = #Clone::clone(self);
             let this: #ty = #Into::into(this);
-            #Serialize::write_der_contents(&this, buffer)
+            #Serialize::write_der_contents(&this, #buffer)
         }
 
         fn id_len(&self) -> #Result<#Option<usize>, #Error> {
@@ -95,16 +96,17 @@ fn do_to_serialize(to_fn: &syn::Path) -> syn::Result<TokenStream> {
     let Write = quote! { ?Sized + ::std::io::Write };
     let Error = quote! { ::bsn1_serde::macro_alias::Error };
     let Serialize = quote! { ::bsn1_serde::ser::Serialize };
+    let buffer = quote! { bsn1_macro_1731700000_buffer };
 
     Ok(quote! {
-        fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+        fn write_id<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
-            #Serialize::write_id(&this, buffer)
+            #Serialize::write_id(&this, #buffer)
         }
 
-        fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+        fn write_der_contents<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
             let this = #to_fn(self);
-            #Serialize::write_der_contents(&this, buffer)
+            #Serialize::write_der_contents(&this, #buffer)
         }
 
         fn id_len(&self) -> #Result<#Option<usize>, #Error> {
@@ -129,7 +131,7 @@ fn do_serialize_struct(
     let Error = quote! { ::bsn1_serde::macro_alias::Error };
 
     let data = DataContainer::try_from((attribute, struct_name.clone(), data))?;
-    let buffer = quote! { buffer };
+    let buffer = quote! { bsn1_macro_1731700000_buffer };
 
     let (write_id, id_len, der_contents_len, write_der_contents) =
         if data.attribute().is_transparent() {
@@ -149,11 +151,11 @@ fn do_serialize_struct(
         };
 
     Ok(quote! {
-            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_id
             }
 
-            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 #write_der_contents
             }
 
@@ -185,7 +187,7 @@ fn do_serialize_enum(
         variants.push(DataContainer::try_from((enum_name.clone(), variant))?);
     }
 
-    let buffer = quote! { buffer };
+    let buffer = quote! { bsn1_macro_1731700000_buffer };
     let mut arms: Vec<TokenStream> = Vec::new();
     let mut write_ids: Vec<TokenStream> = Vec::new();
     let mut id_lens: Vec<TokenStream> = Vec::new();
@@ -201,13 +203,13 @@ fn do_serialize_enum(
     }
 
     Ok(quote! {
-            fn write_id<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+            fn write_id<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_ids } )*
                 }
             }
 
-            fn write_der_contents<Bsn1MacroW: #Write>(&self, buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
+            fn write_der_contents<Bsn1MacroW: #Write>(&self, #buffer: &mut Bsn1MacroW) -> #Result<(), #Error> {
                 match self {
                     #(#arms =>  { #write_der_contentses } )*
                 }
-- 
2.43.0


From 50deba8f95fb5f0a168ec6e2d60979b3f80a5462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:46 +0000
Subject: [PATCH 14/21] fix: qualify names of the prelude in derived code

A type or variant called Default or Some hid the name which the derived
code meant, so the derive did not compile.
---
 bsn1_serde_macros/src/attribute.rs      | 2 +-
 bsn1_serde_macros/src/data_container.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index 9e81c52..b9b50ea 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -430,7 +430,7 @@ impl Attribute {
     pub fn default_path(&self) -> syn::Path {
         match self.default {
             Some(ref arg) => arg.val.clone(),
-            None => syn::parse_str::<syn::Path>("Default::default").unwrap(),
+            None => syn::parse_str::<syn::Path>("::std::default::Default::default").unwrap(),
         }
     }
 
diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index f7d291a..9e5272b 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -294,8 +294,8 @@ impl DataContainer {
                     quote! {}
                 } else {
                     quote! {{
-                        if let Some(#contents_len) = #Serialize::der_contents_len(#field)? {
-                            if let Some(#id_len) = #Serialize::id_len(#field)? {
+                        if let #Option::Some(#contents_len) = #Serialize::der_contents_len(#field)? {
+                            if let #Option::Some(#id_len) = #Serialize::id_len(#field)? {
                                 let #length_len = #Length::Definite(#contents_len).len();
                                 #ret += #id_len + #length_len + #contents_len;
                             } else {
-- 
2.43.0


From 578a05c252c7eebb7d53621c838b08bdb3e522df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:33 +0000
Subject: [PATCH 15/21] fix: panic in with_id_length when the total length
 overflows

The total of the identifier, length and contents octets was computed with
wrapping arithmetic in release builds. For a length near usize::MAX the
constructors returned a broken value instead of panicking as documented.
---
 bsn1/src/ber.rs | 4 +++-
 bsn1/src/der.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 719b597..af0e103 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -233,7 +233,9 @@ impl Ber {
     /// ```
     pub unsafe fn with_id_length_indefinite(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Indefinite.to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = (id.len() + length_.len())
+            .checked_add(length)
+            .expect("The total bytes exceed `isize::MAX`.");
 
         let mut buffer = Buffer::with_capacity(total_len);
 
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 2f36898..d6b9e0d 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -101,7 +101,9 @@ impl Der {
     /// ```
     pub fn with_id_length(id: &IdRef, length: usize) -> Self {
         let length_ = Length::Definite(length).to_bytes();
-        let total_len = id.len() + length_.len() + length;
+        let total_len = (id.len() + length_.len())
+            .checked_add(length)
+            .expect("The total bytes exceed `isize::MAX`.");
 
         let mut buffer = Buffer::with_capacity(total_len);
 
-- 
2.43.0


From 03273a1ca21f45c06c40c2fac226ce6e1d06249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:18 +0000
Subject: [PATCH 16/21] fix: bsn1_serde attribute takes arguments without a
 comma between them

Missing, doubled and leading commas went unnoticed.
---
 bsn1_serde_macros/src/attribute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index b9b50ea..acd2599 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -202,9 +202,14 @@ impl Attribute {
                     }
                     ret.transparent = AttrArgument { val: (), ident }.into();
                 }
-                TokenTree::Punct(punct) if punct.as_char() == ',' => continue,
                 _ => error(tt, "Unexpected token.")?,
             }
+
+            match it.next() {
+                None => break,
+                Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => continue,
+                Some(tt) => error(tt, "Expected `,`.")?,
+            }
         }
 
         Ok(Some(ret))
-- 
2.43.0


From a0406d14930a1d7d5433120fff338aba16f5f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:18 +0000
Subject: [PATCH 17/21] fix: bsn1_serde attribute with a value is ignored

`#[bsn1_serde = "..."]` had no effect and was not refused.
Point to the form with parentheses instead.
---
 bsn1_serde_macros/src/attribute.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index acd2599..59eba6c 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -81,6 +81,12 @@ impl Attribute {
             syn::Meta::List(meta) if meta.path.is_ident("bsn1_serde") => {
                 meta.tokens.clone().into_iter()
             }
+            syn::Meta::NameValue(meta) if meta.path.is_ident("bsn1_serde") => {
+                return Err(syn::Error::new_spanned(
+                    meta,
+                    "Expected arguments in parentheses: `#[bsn1_serde(...)]`.",
+                ))
+            }
             _ => return Ok(None),
         };
 
-- 
2.43.0


From 68efd7fd7b83d64ecd09cd461b35bdce59b3e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:09 +0000
Subject: [PATCH 18/21] fix: flawed attributes of members go unnoticed if the
 container is converted

The attributes of the variants and the fields were not even parsed if the
struct or the enum has `into`, `to`, `from` or `try_from`.
---
 bsn1_serde_macros/src/data_container.rs | 24 ++++++++++++++++++++++++
 bsn1_serde_macros/src/de/mod.rs         |  3 +++
 bsn1_serde_macros/src/ser/mod.rs        |  3 +++
 3 files changed, 30 insertions(+)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index 9e5272b..16a178b 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -82,6 +82,30 @@ impl TryFrom<(Ident, syn::Variant)> for DataContainer {
     }
 }
 
+/// Makes sure that the attributes of the variants and the fields are valid.
+///
+/// They are not used if the whole container is converted into or from another type.
+pub fn sanitize_members(data: &syn::Data) -> syn::Result<()> {
+    fn sanitize_fields(fields: &syn::Fields) -> syn::Result<()> {
+        for field in fields.iter() {
+            Attribute::try_from(&field.attrs[..])?.sanitize_as_field()?;
+        }
+        Ok(())
+    }
+
+    match data {
+        syn::Data::Struct(data) => sanitize_fields(&data.fields),
+        syn::Data::Enum(data) => {
+            for variant in data.variants.iter() {
+                Attribute::try_from(&variant.attrs[..])?.sanitize_as_variant()?;
+                sanitize_fields(&variant.fields)?;
+            }
+            Ok(())
+        }
+        syn::Data::Union(_) => Ok(()),
+    }
+}
+
 impl DataContainer {
     /// # Safety
     ///
diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 83398e7..91e3f17 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -14,6 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+use crate::data_container::sanitize_members;
 use crate::generics::Generics;
 use crate::{Attribute, DataContainer};
 use proc_macro2::{Ident, TokenStream};
@@ -32,8 +33,10 @@ pub fn do_deserialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
     let where_clause = generics.where_clause();
 
     let methods = if let Some(ty) = attribute.from_type() {
+        sanitize_members(&ast.data)?;
         do_from_deserialize(ty)?
     } else if let Some(ty) = attribute.try_from_type() {
+        sanitize_members(&ast.data)?;
         do_try_from_deserialize(ty)?
     } else {
         match ast.data {
diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index ec8f588..4bb73ca 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -14,6 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+use crate::data_container::sanitize_members;
 use crate::generics::Generics;
 use crate::{Attribute, DataContainer};
 use proc_macro2::{Ident, TokenStream};
@@ -32,8 +33,10 @@ pub fn do_serialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
     let where_clause = generics.where_clause();
 
     let methods = if let Some(ty) = attribute.into_type() {
+        sanitize_members(&ast.data)?;
         do_into_serialize(&ty)?
     } else if let Some(to_fn) = attribute.to_path() {
+        sanitize_members(&ast.data)?;
         do_to_serialize(&to_fn)?
     } else {
         match ast.data {
-- 
2.43.0


From 0a70fc5950eef3d4de47c7a7bb9e12c6fbc5b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:30 +0000
Subject: [PATCH 19/21] fix: derived try_from needs the user's crate to depend
 on anyhow

---
 bsn1_serde/src/macro_alias.rs           | 1 +
 bsn1_serde_macros/src/data_container.rs | 8 ++++----
 bsn1_serde_macros/src/de/mod.rs         | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bsn1_serde/src/macro_alias.rs b/bsn1_serde/src/macro_alias.rs
index e069e27..5aaca8a 100644
--- a/bsn1_serde/src/macro_alias.rs
+++ b/bsn1_serde/src/macro_alias.rs
@@ -14,4 +14,5 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
+pub use anyhow::Error as Anyhow;
 pub use bsn1::{BerRef, Buffer, ContentsRef, DerRef, Error, IdRef, Length};
diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index 16a178b..2852e8b 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -367,7 +367,7 @@ impl DataContainer {
         let Error = quote! { ::bsn1_serde::macro_alias::Error };
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
         let Result = quote! { ::std::result::Result };
 
         let ty = self.ty();
@@ -480,7 +480,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let field_idents = self.field_idents();
@@ -555,7 +555,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let contents_bytes = quote! { bsn1_macro_1704080283_contents_bytes };
@@ -648,7 +648,7 @@ impl DataContainer {
         let Deserialize = quote! { ::bsn1_serde::de::Deserialize };
 
         let Result = quote! { ::std::result::Result };
-        let Anyhow = quote! { ::anyhow::Error };
+        let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
         let ty = self.ty();
         let field_idents = self.field_idents();
diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 91e3f17..9b4ba45 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -95,7 +95,7 @@ fn do_try_from_deserialize(ty: &syn::Path) -> syn::Result<TokenStream> {
 
     let Result = quote! { ::std::result::Result };
     let TryFrom = quote! { ::std::convert::TryFrom };
-    let Anyhow = quote! { ::anyhow::Error };
+    let Anyhow = quote! { ::bsn1_serde::macro_alias::Anyhow };
 
     let error_context = quote! { concat!("Failed to convert from `", stringify!(#ty), "`") };
 
-- 
2.43.0


From fd0ff181eb6e732b8d9afd699dacfa34d6645a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:52:31 +0000
Subject: [PATCH 20/21] fix: attribute values given as fragments to macro_rules
 are refused

A value such as `tag_num = $n` with `$n:literal` comes in an invisible group, which
the parser of the attribute took for a wrong kind of token.
---
 bsn1_serde_macros/src/attribute.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index 59eba6c..64c4ccd 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use proc_macro2::{Ident, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Ident, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 
 struct AttrArgument<T> {
@@ -484,12 +484,27 @@ fn take_value(
         _ => error(ident, format!("Expected `=` after `{}`.", ident))?,
     }
 
-    val.ok_or(syn::Error::new_spanned(
+    val.map(ungroup).ok_or(syn::Error::new_spanned(
         ident,
         format!("Expected value after `{} =`.", ident),
     ))
 }
 
+/// Takes the value out of the invisible group around it if it is a fragment given to
+/// `macro_rules!`.
+fn ungroup(value: TokenTree) -> TokenTree {
+    if let TokenTree::Group(ref group) = value {
+        if group.delimiter() == Delimiter::None {
+            let mut it = group.stream().into_iter();
+            if let (Some(tt), None) = (it.next(), it.next()) {
+                return ungroup(tt);
+            }
+        }
+    }
+
+    value
+}
+
 fn parse_id_value(value: &TokenTree) -> syn::Result<u8> {
     // Limit the values for now.
     // (It is easy to extend the values later.)
-- 
2.43.0


From 274be3923241e53b8a2f117d6153c00e57aa4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:02 +0000
Subject: [PATCH 21/21] fix: contexts and root cause of an error wrapped by
 anyhow are lost

An error with contexts which is converted into anyhow::Error by the
question mark operator or by a derived try_from conversion had no
source. The inner contexts were missing in the chain, and root_cause()
returned the wrapped error instead of its cause.
---
 bsn1/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index fa207f1..231b7ae 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -106,7 +106,14 @@ impl fmt::Display for Error {
     }
 }
 
-impl std::error::Error for Error {}
+impl std::error::Error for Error {
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        match self {
+            Self::Anyhow(err) => err.source(),
+            _ => None,
+        }
+    }
+}
 
 impl PartialEq for Error {
     fn eq(&self, other: &Self) -> bool {
@@ -169,13 +176,14 @@ impl Error {
     }
 
     /// If `self` matches `Error::Anyhow`, returns a reference to the first `Self` type error
-    /// in the chain; otherwise, returns `self`.
+    /// in the chain, skipping those that are `Error::Anyhow` themselves and include another one;
+    /// otherwise, returns `self`.
     pub fn root_cause(&self) -> &Self {
         match self {
             Self::Anyhow(err) => err
                 .chain()
                 .find_map(|cause| cause.downcast_ref::<Self>())
-                .unwrap_or(self),
+                .map_or(self, Self::root_cause),
             _ => self,
         }
     }
-- 
2.43.0

