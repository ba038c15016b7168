From 55915abc2c1a7c7215a4f09cbefbf1ae0d66034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 01/42] fix: BOOLEAN DER constraint check panicked on empty
 contents

---
 src/asn1_types/boolean.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/boolean.rs b/src/asn1_types/boolean.rs
index e23d8fd..c365345 100644
--- a/src/asn1_types/boolean.rs
+++ b/src/asn1_types/boolean.rs
@@ -74,9 +74,8 @@ impl<'i> DerParser<'i> for Boolean {
 
 impl CheckDerConstraints for Boolean {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
         // X.690 section 11.1
-        if !(c == 0 || c == 0xff) {
+        if !matches!(any.data.as_bytes(), [0] | [0xff]) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
         }
         Ok(())
@@ -135,9 +134,8 @@ impl_tryfrom_any!(bool);
 
 impl CheckDerConstraints for bool {
     fn check_constraints(any: &Any) -> Result<()> {
-        let c = any.data.as_bytes()[0];
         // X.690 section 11.1
-        if !(c == 0 || c == 0xff) {
+        if !matches!(any.data.as_bytes(), [0] | [0xff]) {
             return Err(Error::DerConstraintFailed(DerConstraint::InvalidBoolean));
         }
         Ok(())
-- 
2.43.0


From 2bafe76da80acacda51c17c7a4b91eadf8ba6789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:18 +0000
Subject: [PATCH 02/42] fix: reject tag numbers that do not fit in u32

---
 src/header.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 1be4e9a..0118f21 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -515,10 +515,10 @@ pub(crate) fn parse_header(
             })?;
             rem = r;
 
-            // With tag defined as u32 the most we can fit in is four tag bytes.
+            // With tag defined as u32 the most we can fit in is five tag bytes, and the
+            // first of these can only contribute 4 bits.
             // (X.690 doesn't actually specify maximum tag width.)
-            // custom_check!(i, tag_byte_count > 5, Error::InvalidTag)?;
-            if tag_byte_count > 5 {
+            if tag_byte_count > 5 || c > (u32::MAX >> 7) {
                 return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
             }
 
-- 
2.43.0


From 9356879055db6622eff3d9a47ca1239463ea411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:07 +0000
Subject: [PATCH 03/42] fix: recognise only 00 00 as end-of-contents, check
 segments of constructed strings

---
 src/ber/appendable.rs | 25 ++++++++++++++-----------
 src/ber/parser.rs     | 12 +++++++++++-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/ber/appendable.rs b/src/ber/appendable.rs
index 84e1a1e..91bdb56 100644
--- a/src/ber/appendable.rs
+++ b/src/ber/appendable.rs
@@ -1,10 +1,10 @@
 use nom::{Err, IResult, Input as _};
 
 use crate::{
-    Any, AnyIterator, BerError, BerMode, BerParser, DynTagged, Header, InnerError, Input, Tag,
+    Any, AnyIterator, BerError, BerMode, BerParser, Class, DynTagged, Header, InnerError, Input,
 };
 
-use super::ber_get_content;
+use super::{ber_get_content, is_end_of_content};
 
 pub trait Appendable {
     fn append(&mut self, other: &mut Self);
@@ -28,10 +28,6 @@ where
         return Err(BerError::nom_err_input(&input, InnerError::BerMaxDepth));
     }
 
-    if input.is_empty() {
-        return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-    }
-
     if header.constructed() {
         let (rem, data) = if header.length.is_definite() {
             ber_get_content(header, input)?
@@ -42,7 +38,7 @@ where
         let mut v = T::default();
         for res in AnyIterator::<BerMode>::new(data) {
             let (_, obj) = res.map_err(Err::Error)?;
-            if obj.header.tag() == Tag::EndOfContent {
+            if !header.length.is_definite() && is_end_of_content(&obj.header) {
                 break;
             }
             let Any {
@@ -52,11 +48,18 @@ where
             if !<T as DynTagged>::accept_tag(h2.tag()) {
                 return Err(BerError::nom_err_input(&data2, InnerError::InvalidTag));
             }
-            // Empty segments are sometimes allowed (for ex: OctetStrings). Just skip recursion if empty
-            if !data2.is_empty() {
-                let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
-                v.append(&mut part_v);
+            if !h2.is_universal() {
+                return Err(BerError::nom_err_input(
+                    &data2,
+                    InnerError::UnexpectedClass {
+                        expected: Some(Class::Universal),
+                        actual: h2.class(),
+                    },
+                ));
             }
+            // Note: empty segments are sometimes allowed (for ex: OctetStrings)
+            let (_, mut part_v) = parse_ber_segmented(&h2, data2, recursion_limit - 1)?;
+            v.append(&mut part_v);
         }
         Ok((rem, v))
     } else {
diff --git a/src/ber/parser.rs b/src/ber/parser.rs
index a12a84e..c68b3f6 100644
--- a/src/ber/parser.rs
+++ b/src/ber/parser.rs
@@ -82,6 +82,16 @@ pub fn der_get_content<'i>(
     DerMode::get_object_content(header, input, MAX_RECURSION)
 }
 
+/// Return true if header is the End-Of-Content marker, that is, exactly the two octets `00 00`
+/// (X.690: 8.1.5)
+pub(crate) fn is_end_of_content(hdr: &Header) -> bool {
+    hdr.tag == Tag::EndOfContent
+        && hdr.is_universal()
+        && hdr.is_primitive()
+        && hdr.length == Length::Definite(0)
+        && hdr.raw_header().map_or(true, |raw| raw.input_len() == 2)
+}
+
 /// Skip object content, and return true if object was End-Of-Content
 fn ber_skip_object_content<'a>(
     i: Input<'a>,
@@ -93,7 +103,7 @@ fn ber_skip_object_content<'a>(
     }
     match hdr.length {
         Length::Definite(l) => {
-            if l == 0 && hdr.tag == Tag::EndOfContent {
+            if is_end_of_content(hdr) {
                 return Ok((i, true));
             }
             let (i, _) = take(l)(i)?;
-- 
2.43.0


From fc6fc148dbe2dc3455f8f6fd2cec84a558e86f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 04/42] fix: BMPString/UniversalString constructed forms and
 lengths, VisibleString excludes DEL

---
 src/asn1_types/strings/bmpstring.rs       | 10 ++++++++--
 src/asn1_types/strings/universalstring.rs |  6 +++---
 src/asn1_types/strings/visiblestring.rs   |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/asn1_types/strings/bmpstring.rs b/src/asn1_types/strings/bmpstring.rs
index c53ee4f..3a96725 100644
--- a/src/asn1_types/strings/bmpstring.rs
+++ b/src/asn1_types/strings/bmpstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for BmpString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if header.is_primitive() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
@@ -70,13 +70,19 @@ impl<'i> BerParser<'i> for BmpString<'i> {
             (rem, s)
         };
 
+        if data.len() % 2 != 0 {
+            return Err(BerError::nom_err_input(
+                &rem,
+                InnerError::StringInvalidCharset,
+            ));
+        }
+
         // read slice as big-endian UTF-16 string
         let v = data
             .as_ref()
             .chunks(2)
             .map(|s| match s {
                 [a, b] => ((*a as u16) << 8) | (*b as u16),
-                [a] => *a as u16,
                 _ => unreachable!(),
             })
             .collect::<Vec<_>>();
diff --git a/src/asn1_types/strings/universalstring.rs b/src/asn1_types/strings/universalstring.rs
index 3da718c..2e44a9d 100644
--- a/src/asn1_types/strings/universalstring.rs
+++ b/src/asn1_types/strings/universalstring.rs
@@ -60,7 +60,7 @@ impl<'i> BerParser<'i> for UniversalString<'i> {
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
         // Encoding shall either be primitive or constructed (X.690: 8.20)
-        let (rem, data) = if header.is_constructed() {
+        let (rem, data) = if header.is_primitive() {
             let (rem, data) = input.take_split(input.len());
             (rem, Cow::Borrowed(data.as_bytes2()))
         } else {
@@ -137,7 +137,7 @@ const _: () = {
 
         fn ber_content_len(&self) -> Length {
             // UCS-4: 4 bytes per character
-            let sz = self.data.len() * 4;
+            let sz = self.data.chars().count() * 4;
             Length::Definite(sz)
         }
 
@@ -145,7 +145,7 @@ const _: () = {
             self.data
                 .chars()
                 .try_for_each(|c| target.write_all(&(c as u32).to_be_bytes()[..]))?;
-            Ok(self.data.len() * 4)
+            Ok(self.data.chars().count() * 4)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/strings/visiblestring.rs b/src/asn1_types/strings/visiblestring.rs
index 13c6ca8..9112561 100644
--- a/src/asn1_types/strings/visiblestring.rs
+++ b/src/asn1_types/strings/visiblestring.rs
@@ -9,7 +9,7 @@ impl TestValidCharset for VisibleString<'_> {
     fn test_valid_charset(i: &[u8]) -> Result<()> {
         #[allow(clippy::trivially_copy_pass_by_ref)]
         fn is_visible(b: &u8) -> bool {
-            0x20 <= *b && *b <= 0x7f
+            0x20 <= *b && *b <= 0x7e
         }
         if !i.iter().all(is_visible) {
             return Err(Error::StringInvalidCharset);
-- 
2.43.0


From bf4c68a2d70941187d9ebdbd1657aac6f6cb64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 05/42] fix: reject integers with empty contents, and
 constructed end-of-contents

---
 src/asn1_types/end_of_content.rs | 3 +++
 src/asn1_types/integer.rs        | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/asn1_types/end_of_content.rs b/src/asn1_types/end_of_content.rs
index df114c9..14d6fe8 100644
--- a/src/asn1_types/end_of_content.rs
+++ b/src/asn1_types/end_of_content.rs
@@ -34,6 +34,9 @@ impl<'i> BerParser<'i> for EndOfContent {
         header: &'_ Header<'i>,
         input: Input<'i>,
     ) -> IResult<Input<'i>, Self, Self::Error> {
+        // End-of-contents octets are a primitive encoding (X.690: 8.1.5)
+        header.assert_primitive_input(&input).map_err(Err::Error)?;
+
         if !header.length.is_null() {
             return Err(Err::Error(BerError::new(input, InnerError::InvalidLength)));
         }
diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index ffc581e..bfd1423 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -41,6 +41,10 @@ fn trim_slice(bytes: &[u8]) -> &[u8] {
 /// Decode an unsigned integer into a byte array of the requested size
 /// containing a big endian integer.
 fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if is_highest_bit_set(bytes) {
         return Err(Error::IntegerNegative);
     }
@@ -61,6 +65,10 @@ fn decode_array_uint<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
 ///
 /// Returns a byte array of the requested size containing a big endian integer.
 fn decode_array_int<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    // The contents octets shall consist of one or more octets (X.690: 8.3.1)
+    if bytes.is_empty() {
+        return Err(Error::InvalidLength);
+    }
     if bytes.len() > N {
         return Err(Error::IntegerTooLarge);
     }
-- 
2.43.0


From 7bb1a1e72c6bce3c45fc3913b7af6c893bd7fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 06/42] fix: equal headers hash equally

---
 src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 0118f21..6d4e7e3 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -474,8 +474,8 @@ impl Hash for Header<'_> {
         self.class.hash(state);
         self.constructed.hash(state);
         self.tag.hash(state);
-        self.length.hash(state);
-        self.raw_tag.hash(state);
+        // `length` and `raw_tag` are not always compared (see `PartialEq`), so equal headers may
+        // have different values for these fields
     }
 }
 
-- 
2.43.0


From a5add36d4bd7ef4b7920ef4f00c72aa224198900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 07/42] fix: DER headers require the minimal tag encoding

---
 src/header.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 6d4e7e3..dc097e3 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -349,17 +349,7 @@ impl<'i> DerParser<'i> for Header<'i> {
     type Error = BerError<Input<'i>>;
 
     fn parse_der(input: Input<'i>) -> IResult<Input<'i>, Self, Self::Error> {
-        trace_input("Header::parse_ber", |input| {
-            let (rem, header) = parse_header(input.clone())?;
-            // DER parser: we reject Indefinite length
-            if !header.length.is_definite() {
-                return Err(Err::Error(BerError::new(
-                    input,
-                    InnerError::DerConstraintFailed(DerConstraint::IndefiniteLength),
-                )));
-            }
-            Ok((rem, header))
-        })(input)
+        trace_input("Header::parse_der", |input| parse_der_header(input))(input)
     }
 
     /// <div class="warning">This method is usually not called (and will create a useless clone)</div>
@@ -377,14 +367,7 @@ impl<'i> DerParser<'i> for Header<'i> {
 
 impl<'a> FromDer<'a> for Header<'a> {
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self> {
-        let (rem, header) = wrap_ber_parser(parse_header)(bytes)?;
-        // DER parser: we reject Indefinite length
-        if !header.length.is_definite() {
-            return Err(Err::Error(Error::DerConstraintFailed(
-                DerConstraint::IndefiniteLength,
-            )));
-        }
-        Ok((rem, header))
+        wrap_ber_parser(parse_der_header)(bytes)
     }
 }
 
@@ -580,6 +563,25 @@ pub(crate) fn parse_header(
     Ok((rem, header))
 }
 
+/// Parse header, enforcing DER constraints
+fn parse_der_header(input: Input<'_>) -> IResult<Input<'_>, Header<'_>, BerError<Input<'_>>> {
+    let (rem, header) = parse_header(input.clone())?;
+    // The definite form of length encoding shall be used (X.690: 10.1)
+    if !header.length.is_definite() {
+        return Err(Err::Error(BerError::new(
+            input,
+            InnerError::DerConstraintFailed(DerConstraint::IndefiniteLength),
+        )));
+    }
+    // Tag numbers up to 30 use a single octet, others the fewest possible octets (X.690: 8.1.2)
+    if let Some([_, b1, ..]) = header.raw_tag() {
+        if *b1 == 0x80 || header.tag.0 < 31 {
+            return Err(BerError::nom_err_input(&input, InnerError::InvalidTag));
+        }
+    }
+    Ok((rem, header))
+}
+
 /// Try to parse *all* input bytes as u64
 #[inline]
 pub(crate) fn bytes_to_u64_g<I: nom::Input<Item = u8>>(s: I) -> Result<u64, InnerError> {
-- 
2.43.0


From 5897db82664eff45730da015d71b3c54588e2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 08/42] fix: ber_length_length for lengths of 3 octets and more

---
 src/to_ber.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index fb6482b..2f726d7 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -172,10 +172,8 @@ pub fn ber_length_length(length: Length) -> Result<usize, InnerError> {
         Length::Indefinite => Ok(1),
         Length::Definite(l) => match l {
             0..=0x7f => Ok(1),
-            0x80..=0xff => Ok(2),
-            0x100..=0xffff => Ok(3),
-            0x1_0000..=0xffff_ffff => Ok(4),
-            _ => Err(InnerError::InvalidLength),
+            // long form: initial octet, followed by the minimum number of octets
+            _ => Ok(1 + ((usize::BITS - l.leading_zeros() + 7) / 8) as usize),
         },
     }
 }
-- 
2.43.0


From 0db966040a58351d0981da9f7ff97e7b7159572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 09/42] fix: terminate indefinite-length explicit tags

---
 src/to_ber.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/to_ber.rs b/src/to_ber.rs
index 2f726d7..3c6d78e 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -82,9 +82,14 @@ pub trait ToBer {
     ) -> SerializeResult<usize> {
         let length = self.ber_total_len();
         let tagged_header = Header::new(class, true, Tag(tag_number), length);
-        let sz = tagged_header.ber_write_header(target)?
+        let mut sz = tagged_header.ber_write_header(target)?
             + self.ber_write_header(target)?
             + self.ber_write_content(target)?;
+        if !length.is_definite() {
+            // write EndOfContent
+            target.write_all(&[0, 0])?;
+            sz += 2;
+        }
 
         Ok(sz)
     }
-- 
2.43.0


From 9421512fdae789987a00ec641b40c11f43faf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 10/42] fix: explicit tags must be constructed and contain
 exactly one value

---
 src/asn1_types/tagged/explicit.rs | 41 +++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 69cff8b..fea173e 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -2,6 +2,15 @@ use crate::*;
 use core::convert::TryFrom;
 use core::marker::PhantomData;
 
+/// The contents octets shall be the complete encoding of one value (X.690 8.14.2)
+fn assert_no_extra_data(rem: &[u8]) -> Result<()> {
+    if rem.is_empty() {
+        Ok(())
+    } else {
+        Err(Error::InvalidLength)
+    }
+}
+
 impl<T, E, const CLASS: u8, const TAG: u32> Tagged for TaggedValue<T, E, Explicit, CLASS, TAG> {
     const CLASS: Class = Class::new_unwrap(CLASS);
     const CONSTRUCTED: bool = true;
@@ -36,11 +45,12 @@ where
             let class = Class::try_from(CLASS).ok();
             return Err(Error::unexpected_class(class, any.class()).into());
         }
-        let (_, inner) = match T::from_ber(any.data.as_bytes2()) {
+        let (inner_rem, inner) = match T::from_ber(any.data.as_bytes2()) {
             Ok((rem, res)) => (rem, res),
             Err(Err::Error(e)) | Err(Err::Failure(e)) => return Err(e),
             Err(Err::Incomplete(n)) => return Err(Error::Incomplete(n).into()),
         };
+        assert_no_extra_data(inner_rem)?;
         Ok(TaggedValue::explicit(inner))
     }
 }
@@ -83,6 +93,11 @@ where
         // calling `parse_ber` will read a new header and parse object `T``
         // this will also check that T::TAG is expected
         let (rem, t) = T::parse_ber(input)?;
+        if !rem.is_empty() {
+            return Err(Err::Error(
+                BerError::new(rem, InnerError::InvalidLength).into(),
+            ));
+        }
         let tagged = TaggedValue::explicit(t);
         Ok((rem, tagged))
     }
@@ -126,6 +141,11 @@ where
         // calling `parse_ber` will read a new header and parse object `T``
         // this will also check that T::TAG is expected
         let (rem, t) = T::parse_der(input)?;
+        if !rem.is_empty() {
+            return Err(Err::Error(
+                BerError::new(rem, InnerError::InvalidLength).into(),
+            ));
+        }
         let tagged = TaggedValue::explicit(t);
         Ok((rem, tagged))
     }
@@ -151,7 +171,8 @@ where
                 Error::unexpected_class(class, any.class()).into(),
             ));
         }
-        let (_, inner) = T::from_der(any.data.as_bytes2())?;
+        let (inner_rem, inner) = T::from_der(any.data.as_bytes2())?;
+        assert_no_extra_data(inner_rem).map_err(|e| Err::Error(e.into()))?;
         Ok((rem, TaggedValue::explicit(inner)))
     }
 }
@@ -163,7 +184,7 @@ where
 {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length.assert_definite()?;
-        let (_, inner) = Any::from_ber(any.data.as_bytes2())?;
+        let (_, inner) = Any::from_der(any.data.as_bytes2())?;
         T::check_constraints(&inner)?;
         Ok(())
     }
@@ -300,7 +321,12 @@ where
     fn from_ber(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_ber(bytes).map_err(Err::convert)?;
         let header = any.header;
-        let (_, inner) = T::from_ber(any.data.as_bytes2())?;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
+        let (inner_rem, inner) = T::from_ber(any.data.as_bytes2())?;
+        assert_no_extra_data(inner_rem).map_err(|e| Err::Error(e.into()))?;
         let tagged = TaggedParser {
             header,
             inner,
@@ -319,7 +345,12 @@ where
     fn from_der(bytes: &'a [u8]) -> ParseResult<'a, Self, E> {
         let (rem, any) = Any::from_der(bytes).map_err(Err::convert)?;
         let header = any.header;
-        let (_, inner) = T::from_der(any.data.as_bytes2())?;
+        // Tagged Explicit must be constructed (X.690 8.14.2)
+        header
+            .assert_constructed()
+            .map_err(|e| Err::Error(e.into()))?;
+        let (inner_rem, inner) = T::from_der(any.data.as_bytes2())?;
+        assert_no_extra_data(inner_rem).map_err(|e| Err::Error(e.into()))?;
         let tagged = TaggedParser {
             header,
             inner,
-- 
2.43.0


From 6aa4af69ae8b493e1a31dc8fa5e42f91eeb79875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 11/42] fix: TaggedImplicit::from_der checks DER constraints of
 the inner type

---
 src/asn1_types/tagged/implicit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index aab89e9..f479533 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -136,6 +136,7 @@ impl<'a, T, E, const CLASS: u8, const TAG: u32> FromDer<'a, E>
     for TaggedValue<T, E, Implicit, CLASS, TAG>
 where
     T: TryFrom<Any<'a>, Error = E>,
+    T: CheckDerConstraints,
     T: Tagged,
     E: From<Error>,
 {
@@ -157,6 +158,7 @@ where
             },
             data: any.data,
         };
+        T::check_constraints(&any).map_err(|e| Err::Error(e.into()))?;
         match T::try_from(any) {
             Ok(inner) => Ok((rem, TaggedValue::implicit(inner))),
             Err(e) => Err(Err::Error(e)),
-- 
2.43.0


From 4a54246dd90aa63f6a6806ba130fb78fae532c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 12/42] fix: terminate constructed objects of indefinite length
 when encoding collections and explicit tags

---
 src/asn1_types/sequence/any_sequence.rs |  9 +++------
 src/asn1_types/sequence/array.rs        |  9 +++------
 src/asn1_types/sequence/vec.rs          |  5 +----
 src/asn1_types/set/any_set.rs           |  9 ++++-----
 src/asn1_types/set/btreeset.rs          |  5 +----
 src/asn1_types/set/hashset.rs           |  5 +----
 src/asn1_types/tagged/explicit.rs       |  4 ++--
 src/to_ber.rs                           | 26 +++++++++++++++++++++++++
 8 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/asn1_types/sequence/any_sequence.rs b/src/asn1_types/sequence/any_sequence.rs
index cc05c01..2007f18 100644
--- a/src/asn1_types/sequence/any_sequence.rs
+++ b/src/asn1_types/sequence/any_sequence.rs
@@ -96,8 +96,8 @@ const _: () = {
     use std::io::Write;
 
     use crate::{
-        ber_length_constructed_items, der_length_constructed_items, Class, Constructed, Length,
-        SerializeResult, ToBer, ToDer,
+        ber_length_constructed_items, ber_write_constructed_items, der_length_constructed_items,
+        Class, Constructed, Length, SerializeResult, ToBer, ToDer,
     };
 
     impl ToBer for AnySequence<'_> {
@@ -108,10 +108,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.ber_encode(target)?;
-                Ok(acc + sz)
-            })
+            ber_write_constructed_items(self.iter(), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/sequence/array.rs b/src/asn1_types/sequence/array.rs
index f84df47..70d921a 100644
--- a/src/asn1_types/sequence/array.rs
+++ b/src/asn1_types/sequence/array.rs
@@ -53,8 +53,8 @@ const _: () = {
     use std::io::Write;
 
     use crate::{
-        ber_length_constructed_items, der_length_constructed_items, Class, Constructed, Length,
-        SerializeResult, ToBer, ToDer,
+        ber_length_constructed_items, ber_write_constructed_items, der_length_constructed_items,
+        Class, Constructed, Length, SerializeResult, ToBer, ToDer,
     };
 
     impl<T, const N: usize> ToBer for [T; N]
@@ -68,10 +68,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.ber_encode(target)?;
-                Ok(acc + sz)
-            })
+            ber_write_constructed_items(self.iter(), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 1a67883..504e9a9 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -194,10 +194,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.ber_encode(target)?;
-                Ok(acc + sz)
-            })
+            ber_write_constructed_items(self.iter(), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index 9ac666e..be142ce 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -100,7 +100,9 @@ impl<'a, S: BuildHasher + Default> DerParser<'a> for AnySet<'a, S> {
 const _: () = {
     use std::io::Write;
 
-    use crate::{Class, Constructed, Length, SerializeResult, ToBer, ToDer};
+    use crate::{
+        ber_write_constructed_items, Class, Constructed, Length, SerializeResult, ToBer, ToDer,
+    };
 
     impl<S: BuildHasher> ToBer for AnySet<'_, S> {
         type Encoder = Constructed;
@@ -110,10 +112,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.ber_encode(target)?;
-                Ok(acc + sz)
-            })
+            ber_write_constructed_items(self.iter(), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index abf5084..171fe33 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -132,10 +132,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.ber_encode(target)?;
-                Ok(acc + sz)
-            })
+            ber_write_constructed_items(self.iter(), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/hashset.rs b/src/asn1_types/set/hashset.rs
index 5a315da..b53979f 100644
--- a/src/asn1_types/set/hashset.rs
+++ b/src/asn1_types/set/hashset.rs
@@ -130,10 +130,7 @@ where
     }
 
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-        self.iter().try_fold(0, |acc, t| {
-            let sz = t.ber_encode(target)?;
-            Ok(acc + sz)
-        })
+        ber_write_constructed_items(self.iter(), target)
     }
 
     fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index fea173e..7aa1bd5 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -206,7 +206,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.inner.ber_encode(target)
+            ber_write_constructed_items(core::iter::once(&self.inner), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
@@ -386,7 +386,7 @@ const _: () = {
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.inner.ber_encode(target)
+            ber_write_constructed_items(core::iter::once(&self.inner), target)
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_ber.rs b/src/to_ber.rs
index 3c6d78e..52ef40d 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -213,3 +213,29 @@ where
 {
     iter.map(|t| t.ber_total_len()).sum()
 }
+
+/// Write a set of objects as the content of a constructed object (BER)
+///
+/// If one of the objects has an undefinite length, then the enclosing object also has (see
+/// [`ber_length_constructed_items`]): in that case, `EndOfContent` is written after the items.
+pub(crate) fn ber_write_constructed_items<'a, T, IT, W>(
+    iter: IT,
+    target: &mut W,
+) -> SerializeResult<usize>
+where
+    T: ToBer + 'a,
+    IT: Iterator<Item = &'a T>,
+    W: Write,
+{
+    let mut sz = 0;
+    let mut definite = true;
+    for t in iter {
+        definite &= t.ber_total_len().is_definite();
+        sz += t.ber_encode(target)?;
+    }
+    if !definite {
+        target.write_all(&[0, 0])?;
+        sz += 2;
+    }
+    Ok(sz)
+}
-- 
2.43.0


From 7b6246bae6ec0bc8cc78b99aafa0f11f4befce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 13/42] fix: Option<T> parsers read the object content only
 once

---
 src/asn1_types/optional.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 49cb61a..12de136 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -70,9 +70,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_ber_content(header, data).map_err(Err::convert)?;
+        // `input` is the object content (`get_object_content` was already called)
+        let (rem, obj) = T::from_ber_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
@@ -100,7 +99,7 @@ where
             }
             // NOTE: end
             let (rem, data) =
-                BerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
+                DerMode::get_object_content(&header, rem, MAX_RECURSION).map_err(Err::convert)?;
             let (_, obj) = Self::from_der_content(&header, data).map_err(Err::convert)?;
             Ok((rem, obj))
         })(input)
@@ -114,9 +113,8 @@ where
         if !T::accept_tag(header.tag) {
             return Ok((input, None));
         }
-        let (rem, data) =
-            BerMode::get_object_content(header, input, MAX_RECURSION).map_err(Err::convert)?;
-        let (_, obj) = T::from_der_content(header, data).map_err(Err::convert)?;
+        // `input` is the object content (`get_object_content` was already called)
+        let (rem, obj) = T::from_der_content(header, input)?;
         Ok((rem, Some(obj)))
     }
 }
-- 
2.43.0


From fe8e690c3630d2f31625760cb36dbd2128493aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 14/42] fix: encoding of Option<T> and references: tag
 information, total length, absent values

---
 src/asn1_types/optional.rs        | 100 +++++++++++++++++++++++++++---
 src/asn1_types/tagged/explicit.rs |   8 +--
 src/to_ber.rs                     |  30 +++++++++
 src/to_der.rs                     |  30 +++++++++
 4 files changed, 155 insertions(+), 13 deletions(-)

diff --git a/src/asn1_types/optional.rs b/src/asn1_types/optional.rs
index 12de136..9d333db 100644
--- a/src/asn1_types/optional.rs
+++ b/src/asn1_types/optional.rs
@@ -154,12 +154,16 @@ impl<T> DynTagged for Option<T>
 where
     T: DynTagged,
 {
+    fn class(&self) -> Class {
+        self.as_ref().map_or(Class::Universal, |t| t.class())
+    }
+
+    fn constructed(&self) -> bool {
+        self.as_ref().is_some_and(|t| t.constructed())
+    }
+
     fn tag(&self) -> Tag {
-        if self.is_some() {
-            self.tag()
-        } else {
-            Tag(0)
-        }
+        self.as_ref().map_or(Tag(0), |t| t.tag())
     }
 
     fn accept_tag(tag: Tag) -> bool {
@@ -191,8 +195,25 @@ const _: () = {
             }
         }
 
+        fn ber_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.ber_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.ber_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
+        }
+
+        fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_write_header(target),
+                None => Ok(0),
+            }
         }
 
         fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -201,6 +222,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn ber_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn ber_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.ber_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 
     impl<T> ToDer for Option<T>
@@ -223,8 +268,25 @@ const _: () = {
             }
         }
 
+        fn der_total_len(&self) -> Length {
+            match self {
+                Some(t) => t.der_total_len(),
+                None => Length::Definite(0),
+            }
+        }
+
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            match self {
+                Some(t) => t.der_tag_info(),
+                None => (self.class(), self.constructed(), self.tag()),
+            }
+        }
+
+        fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_write_header(target),
+                None => Ok(0),
+            }
         }
 
         fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -233,6 +295,30 @@ const _: () = {
                 None => Ok(0),
             }
         }
+
+        fn der_encode_tagged_explicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_explicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
+
+        fn der_encode_tagged_implicit<W: Write>(
+            &self,
+            class: Class,
+            tag_number: u32,
+            target: &mut W,
+        ) -> SerializeResult<usize> {
+            match self {
+                Some(t) => t.der_encode_tagged_implicit(class, tag_number, target),
+                None => Ok(0),
+            }
+        }
     }
 };
 
diff --git a/src/asn1_types/tagged/explicit.rs b/src/asn1_types/tagged/explicit.rs
index 7aa1bd5..b19fb50 100644
--- a/src/asn1_types/tagged/explicit.rs
+++ b/src/asn1_types/tagged/explicit.rs
@@ -200,9 +200,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn ber_content_len(&self) -> Length {
-            let content_len = self.inner.ber_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.ber_total_len()
         }
 
         fn ber_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
@@ -222,9 +220,7 @@ const _: () = {
         type Encoder = BerGenericEncoder;
 
         fn der_content_len(&self) -> Length {
-            let content_len = self.inner.der_content_len();
-            let header_len = ber_header_length(self.inner.tag(), content_len).unwrap_or(0);
-            header_len + content_len
+            self.inner.der_total_len()
         }
 
         fn der_write_content<W: std::io::Write>(&self, target: &mut W) -> SerializeResult<usize> {
diff --git a/src/to_ber.rs b/src/to_ber.rs
index 52ef40d..7be2410 100644
--- a/src/to_ber.rs
+++ b/src/to_ber.rs
@@ -141,6 +141,10 @@ where
         (*self).ber_content_len()
     }
 
+    fn ber_total_len(&self) -> Length {
+        (*self).ber_total_len()
+    }
+
     fn ber_tag_info(&self) -> (Class, bool, Tag) {
         (*self).ber_tag_info()
     }
@@ -148,6 +152,32 @@ where
     fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).ber_write_content(target)
     }
+
+    fn ber_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_write_header(target)
+    }
+
+    fn ber_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).ber_encode(target)
+    }
+
+    fn ber_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn ber_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).ber_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- helper functions
diff --git a/src/to_der.rs b/src/to_der.rs
index 1000391..a75e446 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -170,6 +170,10 @@ where
         (*self).der_content_len()
     }
 
+    fn der_total_len(&self) -> Length {
+        (*self).der_total_len()
+    }
+
     fn der_tag_info(&self) -> (Class, bool, Tag) {
         (*self).der_tag_info()
     }
@@ -177,6 +181,32 @@ where
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
         (*self).der_write_content(target)
     }
+
+    fn der_write_header<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_write_header(target)
+    }
+
+    fn der_encode<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+        (*self).der_encode(target)
+    }
+
+    fn der_encode_tagged_explicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_explicit(class, tag_number, target)
+    }
+
+    fn der_encode_tagged_implicit<W: Write>(
+        &self,
+        class: Class,
+        tag_number: u32,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        (*self).der_encode_tagged_implicit(class, tag_number, target)
+    }
 }
 
 //--- Macros
-- 
2.43.0


From 5eb3fed11dddd0eb2d7809fd40c4e8a2c7ff160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 15/42] fix: UTCTime and GeneralizedTime: component ranges,
 time zone offsets, fractional seconds, DER format

Decoding: seconds are optional (BER only), month and day start at 1, offsets are
range-checked and keep their sign when the hour is 0, fractions need 1 to 3
digits, DER requires seconds and no trailing zeros.
Encoding: the time zone offset is written (BER) or converted to UTC (DER) instead
of being dropped, fractional seconds are written as a decimal fraction, and
components that do not fit are refused instead of producing malformed contents.
Display: correct sign of offsets, milliseconds on 3 digits, real time zone.
---
 src/asn1_types/generalizedtime.rs | 204 ++++++++++++++++--------------
 src/asn1_types/utctime.rs         | 132 ++++++++++++-------
 src/datetime.rs                   | 128 ++++++++++++++++++-
 3 files changed, 322 insertions(+), 142 deletions(-)

diff --git a/src/asn1_types/generalizedtime.rs b/src/asn1_types/generalizedtime.rs
index 949c6f8..b7e6e98 100644
--- a/src/asn1_types/generalizedtime.rs
+++ b/src/asn1_types/generalizedtime.rs
@@ -3,7 +3,7 @@ use alloc::format;
 #[cfg(not(feature = "std"))]
 use alloc::string::String;
 use core::fmt;
-use nom::{AsBytes, Input as _};
+use nom::Input as _;
 #[cfg(feature = "datetime")]
 use time::OffsetDateTime;
 
@@ -45,13 +45,22 @@ impl GeneralizedTime {
         }
         // check for seconds
         let (second, rem) = match rem {
-            [sec1, sec2, rem @ ..] => {
+            [sec1 @ b'0'..=b'9', sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
             }
+            // fractions of minutes are not supported
+            [b'.' | b',', ..] => {
+                return Err(Self::TAG.invalid_value("malformed time string (missing seconds)"))
+            }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             // eprintln!("GeneralizedTime: time checks failed");
             // eprintln!(" month:{}", month);
             // eprintln!(" day:{}", day);
@@ -80,24 +89,18 @@ impl GeneralizedTime {
                 let mut rem = rem;
                 let mut digits = 0;
                 for idx in 0..=4 {
-                    if rem.is_empty() {
-                        if idx == 0 {
-                            // dot or comma, but no following digit
-                            return Err(Self::TAG.invalid_value(
-                                "malformed time string (dot or comma but no digits)",
-                            ));
-                        }
-                        digits = idx;
-                        break;
-                    }
                     if idx == 4 {
                         return Err(
                             Self::TAG.invalid_value("malformed time string (invalid milliseconds)")
                         );
                     }
+                    if rem.is_empty() {
+                        digits = idx;
+                        break;
+                    }
                     match rem[0] {
                         b'0'..=b'9' => {
-                            // cannot overflow, max 4 digits will be read
+                            // cannot overflow, max 3 digits will be read
                             fsecond = fsecond * 10 + (rem[0] - b'0') as u16;
                         }
                         b'Z' | b'+' | b'-' => {
@@ -112,6 +115,11 @@ impl GeneralizedTime {
                     }
                     rem = &rem[1..];
                 }
+                if digits == 0 {
+                    // dot or comma, but no following digit
+                    return Err(Self::TAG
+                        .invalid_value("malformed time string (dot or comma but no digits)"));
+                }
                 // fix fractional seconds depending on the number of digits
                 // for ex, date "xxxx.3" means 3000 milliseconds, not 3
                 let fsecond = match digits {
@@ -137,20 +145,7 @@ impl GeneralizedTime {
                 ASN1TimeZone::Undefined,
             )));
         }
-        let tz = match rem {
-            [b'Z'] => ASN1TimeZone::Z,
-            [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
-            }
-            [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
-            }
-            _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
-        };
+        let tz = decode_timezone(Self::TAG, rem)?;
         Ok(GeneralizedTime(ASN1DateTime::new(
             year,
             month,
@@ -225,22 +220,8 @@ impl<'i> DerParser<'i> for GeneralizedTime {
 
         let (rem, data) = input.take_split(input.len());
 
-        // X.690 section 11.7.1: The encoding shall terminate with a "Z"
-        if data.as_bytes2().last() != Some(&b'Z') {
-            return Err(BerError::nom_err_input(
-                &data,
-                InnerError::DerConstraintFailed(DerConstraint::MissingTimeZone),
-            ));
-        }
-        // The seconds element shall always be present (X.690: 11.7.2)
-        // XXX
-        // The decimal point element, if present, shall be the point option "." (X.690: 11.7.4)
-        if data.as_bytes2().contains(&b',') {
-            return Err(BerError::nom_err_input(
-                &data,
-                InnerError::DerConstraintFailed(DerConstraint::MissingSeconds),
-            ));
-        }
+        GeneralizedTime::check_der_format(data.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&data, e.into()))?;
 
         let time = GeneralizedTime::from_bytes(data.as_bytes2())
             .map_err(|e| BerError::nom_err_input(&data, e.into()))?;
@@ -252,48 +233,44 @@ impl fmt::Display for GeneralizedTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
         let fsec = match self.0.millisecond {
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
             None => String::new(),
         };
-        match dt.tz {
-            ASN1TimeZone::Undefined => write!(
-                f,
-                "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}",
-                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
-            ),
-            ASN1TimeZone::Z => write!(
-                f,
-                "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}Z",
-                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec
-            ),
-            ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
-                write!(
-                    f,
-                    "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}{:02}{:02}",
-                    dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec, s, hh, mm
-                )
-            }
-        }
+        write!(
+            f,
+            "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{}",
+            dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, fsec, dt.tz
+        )
     }
 }
 
-impl CheckDerConstraints for GeneralizedTime {
-    fn check_constraints(any: &Any) -> Result<()> {
+impl GeneralizedTime {
+    /// Check restrictions on the DER encoding
+    fn check_der_format(bytes: &[u8]) -> Result<()> {
         // X.690 section 11.7.1: The encoding shall terminate with a "Z"
-        if any.data.as_bytes().last() != Some(&b'Z') {
+        if bytes.last() != Some(&b'Z') {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingTimeZone));
         }
         // X.690 section 11.7.2: The seconds element shall always be present.
-        // XXX
         // X.690 section 11.7.4: The decimal point element, if present, shall be the point option "."
-        if any.data.as_bytes2().contains(&b',') {
+        let has_seconds = matches!(bytes.get(12..14), Some([b'0'..=b'9', b'0'..=b'9']));
+        if !has_seconds || bytes.contains(&b',') {
             return Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds));
         }
+        // X.690 section 11.7.3: The fractional-seconds elements, if present, shall omit all trailing zeros
+        if bytes.contains(&b'.') && bytes.ends_with(b"0Z") {
+            return Err(Self::TAG.invalid_value("trailing zeros in fractional seconds"));
+        }
         Ok(())
     }
 }
 
+impl CheckDerConstraints for GeneralizedTime {
+    fn check_constraints(any: &Any) -> Result<()> {
+        Self::check_der_format(any.data.as_bytes2())
+    }
+}
+
 impl DerAutoDerive for GeneralizedTime {}
 
 impl Tagged for GeneralizedTime {
@@ -304,43 +281,45 @@ impl Tagged for GeneralizedTime {
 const _: () = {
     use std::io::Write;
 
+    const MAX_YEAR: u32 = 9999;
+
+    fn tz_len(tz: ASN1TimeZone) -> usize {
+        match tz {
+            ASN1TimeZone::Undefined => 0,
+            ASN1TimeZone::Z => 1,
+            ASN1TimeZone::Offset(_, _) => 5,
+        }
+    }
+
+    /// Format fractional seconds, without trailing zeros (X.690 section 11.7.3)
+    fn der_fractional(millisecond: Option<u16>) -> String {
+        match millisecond {
+            None | Some(0) => "".to_string(),
+            Some(v) => format!(".{v:03}").trim_end_matches('0').to_string(),
+        }
+    }
+
     impl ToBer for GeneralizedTime {
         type Encoder = Primitive<{ Tag::GeneralizedTime.0 }>;
 
         fn ber_content_len(&self) -> Length {
             // data:
             // - 8 bytes for YYYYMMDD
-            // - 6 for hhmmss in DER (X.690 section 11.7.2)
-            // - (variable) the fractional part, without trailing zeros, with a point "."
-            // - 1 for the character Z in DER (X.690 section 11.7.1)
-            // data length: 15 + fractional part
+            // - 6 for hhmmss
+            // - 4 for fractional seconds (if present)
+            // - time zone
             let num_digits = match self.0.millisecond {
                 None => 0,
-                Some(v) => 1 + v.to_string().len(),
+                Some(_) => 4,
             };
-
-            Length::Definite(15 + num_digits)
+            Length::Definite(14 + num_digits + tz_len(self.0.tz))
         }
 
         fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            let fractional = match self.0.millisecond {
-                None => "".to_string(),
-                Some(v) => format!(".{v}"),
-            };
-            let num_digits = fractional.len();
-            write!(
-                target,
-                "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
-                self.0.year,
-                self.0.month,
-                self.0.day,
-                self.0.hour,
-                self.0.minute,
-                self.0.second,
-                fractional,
-            )?;
-            // write_fmt returns (), see above for length value
-            Ok(15 + num_digits)
+            self.0.check_components(MAX_YEAR)?;
+            let content = self.0.to_string();
+            target.write_all(content.as_bytes())?;
+            Ok(content.len())
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
@@ -348,7 +327,40 @@ const _: () = {
         }
     }
 
-    impl_toder_from_tober!(TY GeneralizedTime);
+    impl ToDer for GeneralizedTime {
+        type Encoder = Primitive<{ Tag::GeneralizedTime.0 }>;
+
+        fn der_content_len(&self) -> Length {
+            // data:
+            // - 8 bytes for YYYYMMDD
+            // - 6 for hhmmss in DER (X.690 section 11.7.2)
+            // - fractional seconds without trailing zeros in DER (X.690 section 11.7.3)
+            // - 1 for the character Z in DER (X.690 section 11.7.1)
+            Length::Definite(15 + der_fractional(self.0.millisecond).len())
+        }
+
+        fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            self.0.check_components(MAX_YEAR)?;
+            let utc = self.0.to_utc();
+            utc.check_components(MAX_YEAR)?;
+            let content = format!(
+                "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
+                utc.year,
+                utc.month,
+                utc.day,
+                utc.hour,
+                utc.minute,
+                utc.second,
+                der_fractional(utc.millisecond),
+            );
+            target.write_all(content.as_bytes())?;
+            Ok(content.len())
+        }
+
+        fn der_tag_info(&self) -> (Class, bool, Tag) {
+            (Self::CLASS, false, Self::TAG)
+        }
+    }
 };
 
 #[cfg(test)]
diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index e45b9b3..db61ad6 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -41,32 +41,24 @@ impl UtcTime {
         }
         // check for seconds
         let (second, rem) = match rem {
-            [sec1, sec2, rem @ ..] => {
+            [sec1 @ b'0'..=b'9', sec2, rem @ ..] => {
                 let second = decode_decimal(Self::TAG, *sec1, *sec2)?;
                 (second, rem)
             }
             _ => (0, rem),
         };
-        if month > 12 || day > 31 || hour > 23 || minute > 59 || second > 59 {
+        if !(1..=12).contains(&month)
+            || !(1..=31).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
             return Err(Self::TAG.invalid_value("time components with invalid values"));
         }
         if rem.is_empty() {
             return Err(Self::TAG.invalid_value("malformed time string"));
         }
-        let tz = match rem {
-            [b'Z'] => ASN1TimeZone::Z,
-            [b'+', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(hh as i8, mm as i8)
-            }
-            [b'-', h1, h2, m1, m2] => {
-                let hh = decode_decimal(Self::TAG, *h1, *h2)?;
-                let mm = decode_decimal(Self::TAG, *m1, *m2)?;
-                ASN1TimeZone::Offset(-(hh as i8), mm as i8)
-            }
-            _ => return Err(Self::TAG.invalid_value("malformed time string: no time zone")),
-        };
+        let tz = decode_timezone(Self::TAG, rem)?;
         Ok(UtcTime(ASN1DateTime::new(
             year as u32,
             month,
@@ -184,6 +176,9 @@ impl<'i> DerParser<'i> for UtcTime {
 
         let (rem, data) = input.take_split(input.len());
 
+        UtcTime::check_der_format(data.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&data, e.into()))?;
+
         let time = UtcTime::from_bytes(data.as_bytes2())
             .map_err(|e| BerError::nom_err_input(&data, e.into()))?;
         Ok((rem, time))
@@ -193,27 +188,33 @@ impl<'i> DerParser<'i> for UtcTime {
 impl fmt::Display for UtcTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let dt = &self.0;
-        match dt.tz {
-            ASN1TimeZone::Z | ASN1TimeZone::Undefined => write!(
-                f,
-                "{:04}-{:02}-{:02} {:02}:{:02}:{:02}Z",
-                dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second
-            ),
-            ASN1TimeZone::Offset(hh, mm) => {
-                let (s, hh) = if hh > 0 { ('+', hh) } else { ('-', -hh) };
-                write!(
-                    f,
-                    "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}{:02}{:02}",
-                    dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, s, hh, mm
-                )
-            }
+        // UTCTime always has a time zone
+        let tz = match dt.tz {
+            ASN1TimeZone::Undefined => ASN1TimeZone::Z,
+            tz => tz,
+        };
+        write!(
+            f,
+            "{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}",
+            dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, tz
+        )
+    }
+}
+
+impl UtcTime {
+    /// Check restrictions on the DER encoding
+    fn check_der_format(bytes: &[u8]) -> Result<()> {
+        // X.690 section 11.8.2: The seconds element shall always be present
+        match bytes.get(10..12) {
+            Some([b'0'..=b'9', b'0'..=b'9']) => Ok(()),
+            _ => Err(Error::DerConstraintFailed(DerConstraint::MissingSeconds)),
         }
     }
 }
 
 impl CheckDerConstraints for UtcTime {
-    fn check_constraints(_any: &Any) -> Result<()> {
-        Ok(())
+    fn check_constraints(any: &Any) -> Result<()> {
+        Self::check_der_format(any.data.as_bytes2())
     }
 }
 
@@ -227,10 +228,55 @@ impl Tagged for UtcTime {
 const _: () = {
     use std::io::Write;
 
+    /// The year has two digits
+    const MAX_YEAR: u32 = 99;
+
+    fn write_components<W: Write>(
+        dt: &ASN1DateTime,
+        tz: ASN1TimeZone,
+        target: &mut W,
+    ) -> SerializeResult<usize> {
+        let content = format!(
+            "{:02}{:02}{:02}{:02}{:02}{:02}{}",
+            dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, tz
+        );
+        target.write_all(content.as_bytes())?;
+        Ok(content.len())
+    }
+
     impl ToBer for UtcTime {
         type Encoder = Primitive<{ Tag::UtcTime.0 }>;
 
         fn ber_content_len(&self) -> Length {
+            // data:
+            // - 6 bytes for YYMMDD
+            // - 6 for hhmmss
+            // - 1 for the character Z, or 5 for the time zone offset
+            match self.0.tz {
+                ASN1TimeZone::Undefined | ASN1TimeZone::Z => Length::Definite(13),
+                ASN1TimeZone::Offset(_, _) => Length::Definite(17),
+            }
+        }
+
+        fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            self.0.check_components(MAX_YEAR)?;
+            let tz = match self.0.tz {
+                // UTCTime always has a time zone
+                ASN1TimeZone::Undefined => ASN1TimeZone::Z,
+                tz => tz,
+            };
+            write_components(&self.0, tz, target)
+        }
+
+        fn ber_tag_info(&self) -> (Class, bool, Tag) {
+            (Self::CLASS, false, Self::TAG)
+        }
+    }
+
+    impl ToDer for UtcTime {
+        type Encoder = Primitive<{ Tag::UtcTime.0 }>;
+
+        fn der_content_len(&self) -> Length {
             // data:
             // - 6 bytes for YYMMDD
             // - 6 for hhmmss in DER (X.690 section 11.8.2)
@@ -239,22 +285,22 @@ const _: () = {
             Length::Definite(13)
         }
 
-        fn ber_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            write!(
-                target,
-                "{:02}{:02}{:02}{:02}{:02}{:02}Z",
-                self.0.year, self.0.month, self.0.day, self.0.hour, self.0.minute, self.0.second,
-            )?;
-            // write_fmt returns (), see above for length value
-            Ok(13)
+        fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            self.0.check_components(MAX_YEAR)?;
+            let mut utc = self.0.to_utc();
+            // the conversion can change the (two-digit) year
+            utc.year = match utc.year {
+                0..=99 => utc.year,
+                100 => 0,
+                _ => 99,
+            };
+            write_components(&utc, ASN1TimeZone::Z, target)
         }
 
-        fn ber_tag_info(&self) -> (Class, bool, Tag) {
+        fn der_tag_info(&self) -> (Class, bool, Tag) {
             (Self::CLASS, false, Self::TAG)
         }
     }
-
-    impl_toder_from_tober!(TY UtcTime);
 };
 
 #[cfg(test)]
diff --git a/src/datetime.rs b/src/datetime.rs
index 03f5a1d..e3895f3 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -85,16 +85,37 @@ impl ASN1DateTime {
     }
 }
 
+impl fmt::Display for ASN1TimeZone {
+    /// Display the time zone as encoded in ASN.1 time types: nothing, `Z`, or `(+|-)hhmm`
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match *self {
+            ASN1TimeZone::Undefined => Ok(()),
+            ASN1TimeZone::Z => f.write_str("Z"),
+            ASN1TimeZone::Offset(hh, mm) => {
+                let sign = if hh < 0 || mm < 0 { '-' } else { '+' };
+                write!(f, "{sign}{:02}{:02}", hh.unsigned_abs(), mm.unsigned_abs())
+            }
+        }
+    }
+}
+
 impl fmt::Display for ASN1DateTime {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let fractional = match self.millisecond {
             None => "".to_string(),
-            Some(v) => format!(".{v}"),
+            Some(v) => format!(".{v:03}"),
         };
         write!(
             f,
-            "{:04}{:02}{:02}{:02}{:02}{:02}{}Z",
-            self.year, self.month, self.day, self.hour, self.minute, self.second, fractional,
+            "{:04}{:02}{:02}{:02}{:02}{:02}{}{}",
+            self.year,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+            fractional,
+            self.tz
         )
     }
 }
@@ -107,3 +128,104 @@ pub(crate) fn decode_decimal(tag: Tag, hi: u8, lo: u8) -> Result<u8> {
         Err(tag.invalid_value("expected digit"))
     }
 }
+
+/// Decode a time zone: `Z`, or an offset `(+|-)hhmm`
+pub(crate) fn decode_timezone(tag: Tag, bytes: &[u8]) -> Result<ASN1TimeZone> {
+    match *bytes {
+        [b'Z'] => Ok(ASN1TimeZone::Z),
+        [sign @ (b'+' | b'-'), h1, h2, m1, m2] => {
+            let hh = decode_decimal(tag, h1, h2)? as i8;
+            let mm = decode_decimal(tag, m1, m2)? as i8;
+            if hh > 23 || mm > 59 {
+                return Err(tag.invalid_value("time zone offset with invalid values"));
+            }
+            match (sign, hh) {
+                (b'+', _) => Ok(ASN1TimeZone::Offset(hh, mm)),
+                // the hour cannot carry the sign
+                (_, 0) => Ok(ASN1TimeZone::Offset(0, -mm)),
+                _ => Ok(ASN1TimeZone::Offset(-hh, mm)),
+            }
+        }
+        _ => Err(tag.invalid_value("malformed time string: no time zone")),
+    }
+}
+
+#[cfg(feature = "std")]
+impl ASN1DateTime {
+    /// Check that all components can be encoded
+    pub(crate) fn check_components(&self, max_year: u32) -> Result<()> {
+        let tz_ok = match self.tz {
+            ASN1TimeZone::Undefined | ASN1TimeZone::Z => true,
+            ASN1TimeZone::Offset(hh, mm) => hh.unsigned_abs() <= 23 && mm.unsigned_abs() <= 59,
+        };
+        if self.year > max_year
+            || !(1..=12).contains(&self.month)
+            || !(1..=31).contains(&self.day)
+            || self.hour > 23
+            || self.minute > 59
+            || self.second > 59
+            || self.millisecond.is_some_and(|ms| ms > 999)
+            || !tz_ok
+        {
+            return Err(crate::Error::InvalidDateTime);
+        }
+        Ok(())
+    }
+
+    /// Convert local time with offset to Coordinated Universal Time
+    ///
+    /// Values without offset are not modified.
+    pub(crate) fn to_utc(&self) -> Self {
+        let mut utc = self.clone();
+        let offset = match self.tz {
+            ASN1TimeZone::Undefined | ASN1TimeZone::Z => return utc,
+            ASN1TimeZone::Offset(hh, mm) => {
+                let minutes = i32::from(hh.unsigned_abs()) * 60 + i32::from(mm.unsigned_abs());
+                if hh < 0 || mm < 0 {
+                    -minutes
+                } else {
+                    minutes
+                }
+            }
+        };
+        utc.tz = ASN1TimeZone::Z;
+        let minutes = i32::from(self.hour) * 60 + i32::from(self.minute) - offset;
+        let minute_of_day = minutes.rem_euclid(24 * 60);
+        utc.hour = (minute_of_day / 60) as u8;
+        utc.minute = (minute_of_day % 60) as u8;
+        match minutes.div_euclid(24 * 60) {
+            0 => (),
+            1 if self.day < days_in_month(self.year, self.month) => utc.day += 1,
+            1 => {
+                utc.day = 1;
+                if self.month < 12 {
+                    utc.month += 1;
+                } else {
+                    utc.month = 1;
+                    utc.year = self.year.wrapping_add(1);
+                }
+            }
+            _ if self.day > 1 => utc.day -= 1,
+            _ => {
+                if self.month > 1 {
+                    utc.month -= 1;
+                } else {
+                    utc.month = 12;
+                    utc.year = self.year.wrapping_sub(1);
+                }
+                utc.day = days_in_month(utc.year, utc.month);
+            }
+        }
+        utc
+    }
+}
+
+#[cfg(feature = "std")]
+fn days_in_month(year: u32, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        _ => 31,
+    }
+}
-- 
2.43.0


From 9c876c66ed410b4794f1c5019ea526bdda09b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:49 +0000
Subject: [PATCH 16/42] fix: REAL: exponent forms, arithmetic overflows, exact
 conversions

Decoding: the long form of the exponent was unreachable; base 8/16 exponents and
mantissas of 8 octets could overflow; negative integers (NR1) were refused and
'inf'/'nan' accepted as decimal forms.
Encoding: exponents 128..=255 (etc.) were written without sign octet, base 8/16
values with an exponent that is not a multiple were altered, and mantissas equal
to 0 caused a panic.
Conversion from and to f64 are exact when the value can be represented.
---
 src/asn1_types/real.rs | 240 +++++++++++++++++++----------------------
 1 file changed, 108 insertions(+), 132 deletions(-)

diff --git a/src/asn1_types/real.rs b/src/asn1_types/real.rs
index f28c756..dcee23d 100644
--- a/src/asn1_types/real.rs
+++ b/src/asn1_types/real.rs
@@ -43,19 +43,20 @@ impl Real {
         } else if f.abs() == 0.0 {
             Self::Zero
         } else {
-            let mut e = 0;
-            let mut f = f;
-            while f.fract() != 0.0 {
-                f *= 10.0_f64;
-                e -= 1;
-            }
-            Real::Binary {
-                mantissa: f,
-                base: 10,
-                exponent: e,
-                enc_base: 10,
+            // use the shortest decimal representation, if the mantissa is exact
+            let repr = format!("{f:e}");
+            let (m, e) = repr.split_once('e').unwrap_or((repr.as_str(), "0"));
+            let (int, frac) = m.split_once('.').unwrap_or((m, ""));
+            let digits = format!("{int}{frac}");
+            match (digits.parse::<i64>(), e.parse::<i32>()) {
+                (Ok(m), Ok(e)) if m.unsigned_abs() < 1 << f64::MANTISSA_DIGITS => Real::Binary {
+                    mantissa: m as f64,
+                    base: 10,
+                    exponent: e - frac.len() as i32,
+                    enc_base: 10,
+                },
+                _ => Real::binary(f, 2, 0),
             }
-            .normalize_base10()
         }
     }
 
@@ -76,31 +77,6 @@ impl Real {
         }
     }
 
-    fn normalize_base10(self) -> Self {
-        match self {
-            Real::Binary {
-                mantissa,
-                base: 10,
-                exponent,
-                enc_base: _enc_base,
-            } => {
-                let mut m = mantissa;
-                let mut e = exponent;
-                while m.abs() > f64::EPSILON && m.rem_euclid(10.0).abs() < f64::EPSILON {
-                    m /= 10.0;
-                    e += 1;
-                }
-                Real::Binary {
-                    mantissa: m,
-                    base: 10,
-                    exponent: e,
-                    enc_base: _enc_base,
-                }
-            }
-            _ => self,
-        }
-    }
-
     /// Create a new binary `REAL`
     #[inline]
     pub const fn binary(mantissa: f64, base: u32, exponent: i32) -> Self {
@@ -135,11 +111,11 @@ impl Real {
                 base,
                 exponent,
                 ..
-            } => {
-                let f = mantissa;
-                let exp = (*base as f64).powi(*exponent);
-                f * exp
-            }
+            } => match *base {
+                2 => scale_pow2(*mantissa, *exponent),
+                10 => format!("{mantissa}E{exponent}").parse().unwrap_or(f64::NAN),
+                base => mantissa * (base as f64).powi(*exponent),
+            },
             Real::Zero => 0.0_f64,
             Real::NaN => f64::NAN,
             Real::Infinity => f64::INFINITY,
@@ -155,6 +131,25 @@ impl Real {
     }
 }
 
+/// Compute `x * 2^n`, without intermediate overflow or underflow
+fn scale_pow2(mut x: f64, n: i32) -> f64 {
+    const fn pow2(n: i32) -> f64 {
+        f64::from_bits(((n + 1023) as u64) << 52)
+    }
+
+    let mut n = n.clamp(-5000, 5000);
+    while n > 1023 {
+        x *= pow2(1023);
+        n -= 1023;
+    }
+    // keep precision until last multiplication
+    while n < -1022 {
+        x *= pow2(-1022 + 53);
+        n += 1022 - 53;
+    }
+    x * pow2(n)
+}
+
 impl_tryfrom_any!(Real);
 
 impl<'i> BerParser<'i> for Real {
@@ -213,7 +208,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
         // binary encoding (X.690 section 8.5.6)
         // format of exponent
         let (n, rem) = match first & 0x03 {
-            4 => {
+            3 => {
                 let (b, rem) = rem
                     .split_first()
                     .ok_or_else(|| Error::Incomplete(Needed::new(1)))?;
@@ -221,13 +216,13 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
             b => (b as usize + 1, rem),
         };
-        if n >= rem.len() {
+        if n == 0 || n >= rem.len() {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Invalid float value(exponent)",
             ));
         }
-        // n cannot be 0 (see the +1 above)
+        // n cannot be 0 (see above)
         let (eo, rem) = rem.split_at(n);
         // so 'eo' cannot be empty
         let mut e = if eo[0] & 0x80 != 0 { -1 } else { 0 };
@@ -255,36 +250,29 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
             }
         };
         let e = match b {
-            // base 2
-            0 => e,
-            // base 8
-            1 => e * 3,
-            // base 16
-            2 => e * 4,
+            0 => Some(e),
+            1 => e.checked_mul(3),
+            2 => e.checked_mul(4),
             _ => return Err(InnerError::invalid_value(header.tag, "Illegal REAL base")),
         };
+        let e =
+            e.ok_or_else(|| InnerError::invalid_value(header.tag, "Exponent too large (REAL)"))?;
         if rem.len() > 8 {
             return Err(InnerError::invalid_value(
                 header.tag,
                 "Mantissa too large (REAL)",
             ));
         }
-        let mut p = 0;
-        for b in rem {
-            p = (p << 8) | (*b as i64);
+        // cannot overflow: at most 8 octets
+        let p = rem.iter().fold(0u64, |p, b| (p << 8) | u64::from(*b));
+        if p == 0 {
+            return Ok(Real::Zero);
         }
-        // sign bit
-        let p = if first & 0x40 != 0 { -p } else { p };
         // scale bits
         let sf = (first >> 2) & 0x03;
-        let p = match sf {
-            0 => p as f64,
-            sf => {
-                // 2^sf: cannot overflow, sf is between 0 and 3
-                let scale = 2_f64.powi(sf as _);
-                (p as f64) * scale
-            }
-        };
+        let p = scale_pow2(p as f64, i32::from(sf));
+        // sign bit
+        let p = if first & 0x40 != 0 { -p } else { p };
         Ok(Real::Binary {
             mantissa: p,
             base: 2,
@@ -310,20 +298,22 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
     } else {
         // decimal encoding (X.690 section 8.5.7)
         let s = alloc::str::from_utf8(rem)?;
+        // `f64` also accepts names (`inf`, `nan`)
+        let is_not_decimal = |c: char| !matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E');
         match first & 0x03 {
             0x1 => {
                 // NR1
-                match s.parse::<u32>() {
-                    Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v.into())),
+                match s.parse::<f64>() {
+                    Ok(v) if !s.contains(is_not_decimal) && !s.contains(['.', 'e', 'E']) => Ok(Real::new(v)),
+                    _ => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
                 }
             }
             0x2 /* NR2 */ | 0x3 /* NR3 */=> {
                 match s.parse::<f64>() {
-                    Err(_) => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
-                    Ok(v) => Ok(Real::new(v)),
+                    Ok(v) if !s.contains(is_not_decimal) => Ok(Real::new(v)),
+                    _ => Err(InnerError::invalid_value(header.tag,"Invalid float string encoding")),
                 }
-                    }
+            }
             c => {
                 Err(InnerError::invalid_value(header.tag,&format!("Invalid NR ({c})")))
             }
@@ -333,6 +323,7 @@ fn decode_real(header: &Header, bytes: &[u8]) -> Result<Real, InnerError> {
 
 #[cfg(feature = "std")]
 const _: () = {
+    use std::convert::TryInto;
     use std::io;
     use std::io::Write;
 
@@ -372,61 +363,58 @@ const _: () = {
                     exponent,
                     enc_base: _enc_base,
                 } => {
-                    if *base == 10 {
+                    if *base == 10 && mantissa.is_finite() {
                         // using character form
                         let sign = if *exponent == 0 { "+" } else { "" };
                         let s = format!("\x03{mantissa}E{sign}{exponent}");
                         target.write_all(s.as_bytes())?;
                         return Ok(s.len());
                     }
-                    if *base != 2 {
+                    if *base != 2 || !mantissa.is_finite() {
                         return Err(Self::TAG.invalid_value("Invalid base for REAL").into());
                     }
+                    if *mantissa == 0.0 {
+                        // encoded as Real::Zero
+                        return Ok(0);
+                    }
                     let mut first: u8 = 0x80;
-                    // choose encoding base
-                    let enc_base = *_enc_base;
-                    let (ms, mut m, enc_base, mut e) =
-                        drop_floating_point(*mantissa, enc_base, *exponent);
-                    assert!(m != 0);
-                    if ms < 0 {
+                    if mantissa.is_sign_negative() {
                         first |= 0x40
                     };
-                    // exponent & mantissa normalization
-                    match enc_base {
-                        2 => {
-                            while m & 0x1 == 0 {
-                                m >>= 1;
-                                e += 1;
-                            }
-                        }
+                    let (m, e) = odd_mantissa(*mantissa);
+                    let e = i64::from(e) + i64::from(*exponent);
+                    // choose encoding base
+                    let bits_per_digit = match *_enc_base {
+                        2 => 1,
                         8 => {
-                            while m & 0x7 == 0 {
-                                m >>= 3;
-                                e += 1;
-                            }
                             first |= 0x10;
+                            3
                         }
-                        _ /* 16 */ => {
-                            while m & 0xf == 0 {
-                                m >>= 4;
-                                e += 1;
-                            }
+                        16 => {
                             first |= 0x20;
+                            4
                         }
-                    }
+                        _ => {
+                            return Err(Self::TAG
+                                .invalid_value("Invalid encoding base for REAL")
+                                .into())
+                        }
+                    };
                     // scale factor
                     // XXX in DER, sf is always 0 (11.3.1)
-                    let mut sf = 0;
-                    while m & 0x1 == 0 && sf < 4 {
-                        m >>= 1;
-                        sf += 1;
-                    }
+                    let sf = e.rem_euclid(bits_per_digit) as u8;
                     first |= sf << 2;
-                    // exponent length and bytes
-                    let len_e = match e.abs() {
-                        0..=0xff => 1,
-                        0x100..=0xffff => 2,
-                        0x1_0000..=0xff_ffff => 3,
+                    let e: i32 = match e.div_euclid(bits_per_digit).try_into() {
+                        Ok(e) => e,
+                        Err(_) => {
+                            return Err(Self::TAG.invalid_value("Exponent too large (REAL)").into())
+                        }
+                    };
+                    // exponent length and bytes (two's complement)
+                    let len_e: u8 = match e {
+                        -0x80..=0x7f => 1,
+                        -0x8000..=0x7fff => 2,
+                        -0x80_0000..=0x7f_ffff => 3,
                         // e is an `i32` so it can't be longer than 4 bytes
                         // use 4, so `first` is ORed with 3
                         _ => 4,
@@ -437,10 +425,8 @@ const _: () = {
                     let mut n = 1;
                     // write exponent
                     // special case: number of bytes from exponent is > 3 and cannot fit in 2 bits
-                    #[allow(clippy::identity_op)]
                     if len_e == 4 {
-                        let b = len_e & 0xff;
-                        target.write_all(&[b])?;
+                        target.write_all(&[len_e])?;
                         n += 1;
                     }
                     // we only need to write e.len() bytes
@@ -497,30 +483,20 @@ impl From<Real> for f64 {
     }
 }
 
+/// Split a finite non-zero value into odd integer mantissa (absolute value) and exponent
 #[cfg(feature = "std")]
-fn drop_floating_point(m: f64, b: u8, e: i32) -> (i8, u64, u8, i32) {
-    let ms = if m.is_sign_positive() { 1 } else { -1 };
-    let es = if e.is_positive() { 1 } else { -1 };
-    let mut m = m.abs();
-    let mut e = e;
-    //
-    if b == 8 {
-        m *= 2_f64.powi((e.abs() / 3) * es);
-        e = (e.abs() / 3) * es;
-    } else if b == 16 {
-        m *= 2_f64.powi((e.abs() / 4) * es);
-        e = (e.abs() / 4) * es;
-    }
-    //
-    while m.abs() > f64::EPSILON {
-        if m.fract() != 0.0 {
-            m *= b as f64;
-            e -= 1;
-        } else {
-            break;
-        }
-    }
-    (ms, m as u64, b, e)
+fn odd_mantissa(f: f64) -> (u64, i32) {
+    const FRACTION_BITS: u32 = f64::MANTISSA_DIGITS - 1;
+    let bits = f.to_bits();
+    let biased_exponent = ((bits >> FRACTION_BITS) & 0x7ff) as i32;
+    let fraction = bits & ((1 << FRACTION_BITS) - 1);
+    let (m, e) = match biased_exponent {
+        // subnormal
+        0 => (fraction, -1074),
+        _ => (fraction | 1 << FRACTION_BITS, biased_exponent - 1075),
+    };
+    let shift = m.trailing_zeros();
+    (m >> shift, e + shift as i32)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 583928345553d01438d82ebe55b36090682f0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 17/42] fix: SEQUENCE OF, SET OF and tuples must be constructed

---
 src/asn1_types/sequence/sequence_of.rs |  3 +++
 src/asn1_types/sequence/tuple.rs       | 10 ++++++++--
 src/asn1_types/sequence/vec.rs         |  3 +++
 src/asn1_types/set/set_of.rs           |  3 +++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/sequence/sequence_of.rs b/src/asn1_types/sequence/sequence_of.rs
index 6814286..a210858 100644
--- a/src/asn1_types/sequence/sequence_of.rs
+++ b/src/asn1_types/sequence/sequence_of.rs
@@ -185,6 +185,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index f6f6b35..9c89503 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -16,9 +16,12 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_ber_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
@@ -35,9 +38,12 @@ macro_rules! impl_parser_for_tuple {
             type Error = $error;
 
             fn from_der_content(
-                _header: &'_ crate::Header<'i>,
+                header: &'_ crate::Header<'i>,
                 input: $crate::Input<'i>,
             ) -> nom::IResult<$crate::Input<'i>, Self, Self::Error> {
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
                 Ok((rem, ($($parser),*,)))
diff --git a/src/asn1_types/sequence/vec.rs b/src/asn1_types/sequence/vec.rs
index 504e9a9..aa527d4 100644
--- a/src/asn1_types/sequence/vec.rs
+++ b/src/asn1_types/sequence/vec.rs
@@ -166,6 +166,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let v = SequenceIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index 396fc87..c4375ef 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -187,6 +187,9 @@ where
                 any.header
                     .assert_tag(Self::TAG)
                     .map_err(|e| Err::Error(e.into()))?;
+                any.header
+                    .assert_constructed()
+                    .map_err(|e| Err::Error(e.into()))?;
                 let items = SetIterator::<T, DerMode, E>::new(any.data.as_bytes2())
                     .collect::<Result<Vec<T>, E>>()
                     .map_err(Err::Error)?;
-- 
2.43.0


From d1e6db9a9a7cd62b056ad138a667a16e2abab023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 18/42] fix: DER encoding of SET OF writes elements in
 ascending order

---
 src/asn1_types/set/any_set.rs  |  5 +----
 src/asn1_types/set/btreeset.rs |  5 +----
 src/asn1_types/set/hashset.rs  |  5 +----
 src/asn1_types/set/set_of.rs   |  2 +-
 src/to_der.rs                  | 24 ++++++++++++++++++++++++
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/asn1_types/set/any_set.rs b/src/asn1_types/set/any_set.rs
index be142ce..bc7ce94 100644
--- a/src/asn1_types/set/any_set.rs
+++ b/src/asn1_types/set/any_set.rs
@@ -128,10 +128,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            crate::der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/btreeset.rs b/src/asn1_types/set/btreeset.rs
index 171fe33..601492d 100644
--- a/src/asn1_types/set/btreeset.rs
+++ b/src/asn1_types/set/btreeset.rs
@@ -151,10 +151,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.iter().try_fold(0, |acc, t| {
-                let sz = t.der_encode(target)?;
-                Ok(acc + sz)
-            })
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/hashset.rs b/src/asn1_types/set/hashset.rs
index b53979f..de13cf2 100644
--- a/src/asn1_types/set/hashset.rs
+++ b/src/asn1_types/set/hashset.rs
@@ -149,10 +149,7 @@ where
     }
 
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-        self.iter().try_fold(0, |acc, t| {
-            let sz = t.der_encode(target)?;
-            Ok(acc + sz)
-        })
+        der_write_set_items(self.iter(), target)
     }
 
     fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/asn1_types/set/set_of.rs b/src/asn1_types/set/set_of.rs
index c4375ef..3ff2283 100644
--- a/src/asn1_types/set/set_of.rs
+++ b/src/asn1_types/set/set_of.rs
@@ -238,7 +238,7 @@ const _: () = {
         }
 
         fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-            self.items.der_write_content(target)
+            der_write_set_items(self.iter(), target)
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
diff --git a/src/to_der.rs b/src/to_der.rs
index a75e446..8f6d4ed 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -271,3 +271,27 @@ where
 {
     iter.map(|t| t.der_total_len()).sum()
 }
+
+/// Write all items of a SET OF (DER)
+///
+/// X.690 section 11.6: the encodings of the component values shall appear in ascending order
+pub(crate) fn der_write_set_items<'a, T, IT, W>(iter: IT, target: &mut W) -> SerializeResult<usize>
+where
+    T: ToDer + 'a,
+    IT: Iterator<Item = &'a T>,
+    W: Write,
+{
+    let mut items = Vec::new();
+    for t in iter {
+        let mut buf = Vec::new();
+        t.der_encode(&mut buf)?;
+        items.push(buf);
+    }
+    items.sort();
+    let mut sz = 0;
+    for item in items {
+        target.write_all(&item)?;
+        sz += item.len();
+    }
+    Ok(sz)
+}
-- 
2.43.0


From eff9b38f06a1fa79a31569aca07d4063cbcbadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 19/42] fix: DER encoding of Integer is minimal

---
 src/asn1_types/integer.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/integer.rs b/src/asn1_types/integer.rs
index bfd1423..884d14f 100644
--- a/src/asn1_types/integer.rs
+++ b/src/asn1_types/integer.rs
@@ -89,6 +89,15 @@ fn is_highest_bit_set(bytes: &[u8]) -> bool {
         .unwrap_or(false)
 }
 
+/// Remove leading octets that are not part of the minimal two's complement encoding
+#[cfg(feature = "std")]
+fn minimal_slice(mut bytes: &[u8]) -> &[u8] {
+    while let [0x00, 0x00..=0x7f, ..] | [0xff, 0x80..=0xff, ..] = bytes {
+        bytes = &bytes[1..];
+    }
+    bytes
+}
+
 macro_rules! impl_int {
     ($uint:ty => $int:ty) => {
         impl_tryfrom_any!($int);
@@ -429,9 +438,14 @@ impl<'a> Integer<'a> {
         }
         // otherwise -> remove 0 unless next has high bit set
         else {
+            if b.is_empty() {
+                return Integer {
+                    data: Cow::Borrowed(&[0]),
+                };
+            }
             let mut idx = 0;
 
-            while idx < b.len() - 1 {
+            while idx + 1 < b.len() {
                 if b[idx] == 0 && b[idx + 1] < 0x80 {
                     idx += 1;
                     continue;
@@ -449,7 +463,7 @@ impl<'a> Integer<'a> {
         let mut idx = 0;
 
         // Skip leading FF unless next has high bit clear
-        while idx < b.len() - 1 {
+        while idx + 1 < b.len() {
             if b[idx] == 0xFF && b[idx + 1] >= 0x80 {
                 idx += 1;
                 continue;
@@ -668,7 +682,23 @@ const _: () = {
         }
     }
 
-    impl_toder_from_tober!(LFT 'a, Integer<'a>);
+    impl ToDer for Integer<'_> {
+        type Encoder = Primitive<{ Tag::Integer.0 }>;
+
+        fn der_content_len(&self) -> Length {
+            Length::Definite(minimal_slice(&self.data).len())
+        }
+
+        fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
+            let data = minimal_slice(&self.data);
+            target.write_all(data)?;
+            Ok(data.len())
+        }
+
+        fn der_tag_info(&self) -> (Class, bool, Tag) {
+            (Self::CLASS, false, Self::TAG)
+        }
+    }
 };
 
 /// Helper macro to declare integers at compile-time
-- 
2.43.0


From 694138fc93fef6f80687d12c7583eef02e6f50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 20/42] fix: BIT STRING: check padding in parse_der, never keep
 padding bits, accept empty value in new

---
 src/asn1_types/bitstring.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/asn1_types/bitstring.rs b/src/asn1_types/bitstring.rs
index f7e93f6..f80f099 100644
--- a/src/asn1_types/bitstring.rs
+++ b/src/asn1_types/bitstring.rs
@@ -26,9 +26,16 @@ impl BitString {
     pub fn new(unused_bits: u8, s: &[u8]) -> Self {
         let unused_bits = usize::from(unused_bits);
         let mut bitvec = BitVec::from_slice(s);
-        assert!(unused_bits < 8 && unused_bits < bitvec.len());
+        assert!(unused_bits < 8 && unused_bits <= bitvec.len());
         bitvec.truncate(bitvec.len() - unused_bits);
 
+        Self::from_bitvec(bitvec)
+    }
+
+    /// Build a new `BitString`, making sure that bits start at the first octet, and that unused bits are zero
+    fn from_bitvec(mut bitvec: BitVec<u8, Msb0>) -> Self {
+        bitvec.force_align();
+        bitvec.set_uninitialized(false);
         BitString { bitvec }
     }
 
@@ -79,7 +86,7 @@ impl_tryfrom_any!(BitString);
 impl From<&BitSlice<u8, Msb0>> for BitString {
     fn from(slice: &BitSlice<u8, Msb0>) -> Self {
         let bitvec = BitVec::from_bitslice(slice);
-        Self { bitvec }
+        Self::from_bitvec(bitvec)
     }
 }
 
@@ -112,7 +119,7 @@ impl<'i> BerParser<'i> for BitString {
                         .checked_sub(usize::from(ignored))
                         .ok_or(BerError::nom_err_input(&data, InnerError::InvalidLength))?;
                     bitvec.truncate(new_len);
-                    Ok((rem, Self { bitvec }))
+                    Ok((rem, Self::from_bitvec(bitvec)))
                 }
                 _ => Err(BerError::nom_err_input(
                     &data,
@@ -136,6 +143,16 @@ impl<'i> DerParser<'i> for BitString {
         // Encoding shall be primitive (X.690: 10.2)
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
+        // Check that padding bits are all 0 (X.690 section 11.2.1)
+        if let [unused_bits, .., last_byte] = input.as_bytes2() {
+            if last_byte.trailing_zeros() < u32::from(*unused_bits) {
+                return Err(BerError::nom_err_input(
+                    &input,
+                    InnerError::DerConstraintFailed(DerConstraint::UnusedBitsNotZero),
+                ));
+            }
+        }
+
         <BitString>::from_ber_content(header, input)
     }
 }
@@ -178,6 +195,7 @@ impl Tagged for BitString {
 impl Appendable for BitString {
     fn append(&mut self, other: &mut Self) {
         self.bitvec.append(&mut other.bitvec);
+        self.bitvec.set_uninitialized(false);
     }
 }
 
-- 
2.43.0


From 64153754c53b57935b2e6627ccecd74d607b874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 21/42] fix: OBJECT IDENTIFIER: sub-identifiers, first arcs,
 relative objects

Decoding: reject empty or incomplete sub-identifiers and leading 0x80 octets,
keep the kind (relative) of the decoded object.
Arcs: the first sub-identifier can use several octets and holds two arcs, the
first of which is at most 2; the number of remaining arcs is exact; arcs that do
not fit are refused instead of truncated.
starts_with compares the kind of objects and complete arcs.
---
 src/asn1_types/any.rs |   4 +
 src/asn1_types/oid.rs | 187 +++++++++++++++++++++++-------------------
 2 files changed, 106 insertions(+), 85 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 8c4285f..617d6b2 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -307,6 +307,8 @@ impl<'a> Any<'a> {
     /// Attempt to convert object to `Oid` (ASN.1 type: `RELATIVE-OID`).
     pub fn relative_oid(self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        check_sub_identifiers(self.data.as_bytes2())?;
         let asn1 = Cow::Borrowed(self.data.into_bytes());
         Ok(Oid::new_relative(asn1))
     }
@@ -355,6 +357,8 @@ impl<'a> Any<'a> {
     /// Attempt to create ASN.1 type `RELATIVE-OID` from this object.
     pub fn as_relative_oid(&'a self) -> Result<Oid<'a>> {
         self.header.assert_tag(Tag::RelativeOid)?;
+        self.header.assert_primitive()?;
+        check_sub_identifiers(self.data.as_bytes2())?;
         let asn1 = Cow::Borrowed(self.data.as_bytes2());
         Ok(Oid::new_relative(asn1))
     }
diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 8f83713..2a0c25c 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -6,7 +6,7 @@ use alloc::format;
 use alloc::string::{String, ToString};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
-use core::{fmt, iter::FusedIterator, marker::PhantomData, ops::Shl, str::FromStr};
+use core::{fmt, iter::FusedIterator, ops::Shl, str::FromStr};
 use displaydoc::Display;
 use nom::Input as _;
 use num_traits::Num;
@@ -18,8 +18,8 @@ pub enum OidParseError {
     /// Encoded data length too short
     TooShort,
     /** Signalizes that the first or second component is too large.
-     * The first must be within the range 0 to 6 (inclusive).
-     * The second component must be less than 40.
+     * The first must be within the range 0 to 2 (inclusive).
+     * The second component must be less than 40 if the first is 0 or 1.
      */
     FirstComponentsTooLarge,
     /// a
@@ -54,12 +54,17 @@ impl<'i> BerParser<'i> for Oid<'i> {
         header.assert_primitive_input(&input).map_err(Err::Error)?;
 
         // Each sub-identifier is represented as a series of (one or more) octets (X.690: 8.19.2)
-        if input.is_empty() {
-            return Err(BerError::nom_err_input(&input, InnerError::InvalidLength));
-        }
+        check_sub_identifiers(input.as_bytes2())
+            .map_err(|e| BerError::nom_err_input(&input, e.into()))?;
 
+        let relative = header.class() == Class::Universal && header.tag() == Tag::RelativeOid;
         let (rem, data) = input.take_split(input.len());
-        Ok((rem, Oid::new(Cow::Borrowed(data.as_bytes2()))))
+        let asn1 = Cow::Borrowed(data.as_bytes2());
+        if relative {
+            Ok((rem, Oid::new_relative(asn1)))
+        } else {
+            Ok((rem, Oid::new(asn1)))
+        }
     }
 }
 
@@ -123,6 +128,23 @@ const _: () = {
     impl_toder_from_tober!(LFT 'a, Oid<'a>);
 };
 
+/// Check that content is a non-empty series of sub-identifiers (X.690: 8.19.2 and 8.20.2)
+pub(crate) fn check_sub_identifiers(bytes: &[u8]) -> Result<()> {
+    // the last octet must be the end of a sub-identifier
+    if bytes.last().map_or(true, |b| b & 0x80 != 0) {
+        return Err(Error::InvalidLength);
+    }
+    // the leading octet of a sub-identifier shall not be 0x80
+    let mut leading = true;
+    for b in bytes {
+        if leading && *b == 0x80 {
+            return Err(Tag::Oid.invalid_value("sub-identifier with leading zeroes"));
+        }
+        leading = b & 0x80 == 0;
+    }
+    Ok(())
+}
+
 fn encode_relative(ids: &'_ [u64]) -> impl Iterator<Item = u8> + '_ {
     ids.iter().flat_map(|id| {
         let bit_count = 64 - id.leading_zeros();
@@ -165,14 +187,17 @@ impl<'a> Oid<'a> {
             }
             return Err(OidParseError::TooShort);
         }
-        if s[0] >= 7 || s[1] >= 40 {
+        if s[0] > 2 || (s[0] < 2 && s[1] >= 40) {
             return Err(OidParseError::FirstComponentsTooLarge);
         }
-        let asn1_encoded: Vec<u8> = [(s[0] * 40 + s[1]) as u8]
-            .iter()
-            .copied()
+        // first sub-identifier contains the first two components (X.690: 8.19.4)
+        let first = (s[0] * 40)
+            .checked_add(s[1])
+            .ok_or(OidParseError::FirstComponentsTooLarge)?;
+        let asn1_encoded: Vec<u8> = encode_relative(&[first])
             .chain(encode_relative(&s[2..]))
             .collect();
+
         Ok(Oid {
             asn1: Cow::from(asn1_encoded),
             relative: false,
@@ -259,42 +284,36 @@ impl<'a> Oid<'a> {
         SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         }
     }
 
     /// Return an iterator over the sub-identifiers (arcs).
-    /// Returns `None` if at least one arc does not fit into `u64`.
+    /// Returns `None` if at least one arc does not fit into `u64`, or if the last one is incomplete.
     pub fn iter(&'_ self) -> Option<impl FusedIterator<Item = u64> + ExactSizeIterator + '_> {
-        // Check that every arc fits into u64
-        let bytes = if self.relative {
-            &self.asn1
-        } else if self.asn1.is_empty() {
-            &[]
-        } else {
-            &self.asn1[1..]
-        };
-        let max_bits = bytes
-            .iter()
-            .fold((0usize, 0usize), |(max, cur), c| {
-                let is_end = (c >> 7) == 0u8;
-                if is_end {
-                    (max.max(cur + 7), 0)
-                } else {
-                    (max, cur + 7)
-                }
-            })
-            .0;
-        if max_bits > 64 {
+        // Check that every arc fits into u64, and that the last arc is complete
+        let mut bits = 0;
+        for c in self.asn1.iter() {
+            let c_bits = match bits {
+                0 => 8 - (c & 0x7f).leading_zeros(),
+                _ => 7,
+            };
+            bits += c_bits;
+            if bits > u64::BITS {
+                return None;
+            }
+            if c >> 7 == 0 {
+                bits = 0;
+            }
+        }
+        if self.asn1.last().is_some_and(|c| c >> 7 != 0) {
             return None;
         }
 
         Some(SubIdentifierIterator {
             oid: self,
             pos: 0,
-            first: false,
-            n: PhantomData,
+            second: None,
         })
     }
 
@@ -302,6 +321,7 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_ber(bytes)?;
         any.header.assert_primitive()?;
         any.header.assert_tag(Tag::RelativeOid)?;
+        check_sub_identifiers(any.data.as_bytes2())?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
@@ -310,24 +330,27 @@ impl<'a> Oid<'a> {
         let (rem, any) = Any::from_der(bytes)?;
         any.header.assert_tag(Tag::RelativeOid)?;
         Self::check_constraints(&any)?;
+        check_sub_identifiers(any.data.as_bytes2())?;
         let asn1 = Cow::Borrowed(any.data.as_bytes2());
         Ok((rem, Oid::new_relative(asn1)))
     }
 
     /// Returns true if `needle` is a prefix of the OID.
     pub fn starts_with(&self, needle: &Oid) -> bool {
-        self.asn1.len() >= needle.asn1.len() && self.asn1.starts_with(needle.as_bytes())
+        // the prefix must contain complete arcs
+        let complete = needle.asn1.last().map_or(true, |c| c >> 7 == 0);
+        self.relative == needle.relative && complete && self.asn1.starts_with(needle.as_bytes())
     }
 }
 
-trait Repr: Num + Shl<usize, Output = Self> + From<u8> {}
-impl<N> Repr for N where N: Num + Shl<usize, Output = N> + From<u8> {}
+trait Repr: Num + PartialOrd + Shl<usize, Output = Self> + From<u8> {}
+impl<N> Repr for N where N: Num + PartialOrd + Shl<usize, Output = N> + From<u8> {}
 
 struct SubIdentifierIterator<'a, N: Repr> {
     oid: &'a Oid<'a>,
     pos: usize,
-    first: bool,
-    n: PhantomData<&'a N>,
+    /// second arc, when it has been decoded with the first one
+    second: Option<N>,
 }
 
 impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
@@ -336,59 +359,53 @@ impl<N: Repr> Iterator for SubIdentifierIterator<'_, N> {
     fn next(&mut self) -> Option<Self::Item> {
         use num_traits::identities::Zero;
 
-        if self.pos == self.oid.asn1.len() {
-            return None;
+        if let Some(second) = self.second.take() {
+            return Some(second);
         }
-        if !self.oid.relative {
-            if !self.first {
-                debug_assert!(self.pos == 0);
-                self.first = true;
-                return Some((self.oid.asn1[0] / 40).into());
-            } else if self.pos == 0 {
-                self.pos += 1;
-                if self.oid.asn1[0] == 0 && self.oid.asn1.len() == 1 {
-                    return None;
-                }
-                return Some((self.oid.asn1[0] % 40).into());
-            }
+        // an incomplete sub-identifier has no value
+        let bytes = &self.oid.asn1[self.pos..];
+        let end = 1 + bytes.iter().position(|o| o >> 7 == 0u8)?;
+        let res = bytes[..end].iter().fold(<N as Zero>::zero(), |res, o| {
+            (res << 7) + (o & 0b111_1111).into()
+        });
+        let is_first = self.pos == 0;
+        self.pos += end;
+        if self.oid.relative || !is_first {
+            return Some(res);
         }
-        // decode objet sub-identifier according to the asn.1 standard
-        let mut res = <N as Zero>::zero();
-        for o in self.oid.asn1[self.pos..].iter() {
-            self.pos += 1;
-            res = (res << 7) + (o & 0b111_1111).into();
-            let flag = o >> 7;
-            if flag == 0u8 {
-                break;
-            }
+        // special case: `0`
+        if self.oid.asn1.as_ref() == [0] {
+            return Some(res);
         }
-        Some(res)
-    }
-}
-
-impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
-
-impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {
-    fn len(&self) -> usize {
-        if self.oid.relative {
-            self.oid.asn1.iter().filter(|o| (*o >> 7) == 0u8).count()
-        } else if self.oid.asn1.is_empty() {
+        // the first sub-identifier contains two arcs (X.690: 8.19.4)
+        let first = if res < 40.into() {
             0
-        } else if self.oid.asn1.len() == 1 {
-            if self.oid.asn1[0] == 0 {
-                1
-            } else {
-                2
-            }
+        } else if res < 80.into() {
+            1
         } else {
-            2 + self.oid.asn1[2..]
-                .iter()
-                .filter(|o| (*o >> 7) == 0u8)
-                .count()
+            2
+        };
+        self.second = Some(res - (first * 40).into());
+        Some(first.into())
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let bytes = &self.oid.asn1[self.pos..];
+        let mut len = bytes.iter().filter(|o| (*o >> 7) == 0u8).count();
+        if self.second.is_some() {
+            len += 1;
         }
+        if self.pos == 0 && !self.oid.relative && len > 0 && self.oid.asn1.as_ref() != [0] {
+            len += 1;
+        }
+        (len, Some(len))
     }
 }
 
+impl<N: Repr> FusedIterator for SubIdentifierIterator<'_, N> {}
+
+impl<N: Repr> ExactSizeIterator for SubIdentifierIterator<'_, N> {}
+
 impl fmt::Display for Oid<'_> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         if self.relative {
-- 
2.43.0


From 04fd8cb8d410b078da15d7bf9be3a0017ad831f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 22/42] fix: int! writes a valid INTEGER (sign octet, zero)

---
 impl/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index ea635cc..b89ffc0 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -113,8 +113,12 @@ pub fn encode_int(input: TokenStream) -> TokenStream {
 fn impl_encode_int(lit: LitInt) -> Result<TokenStream, Error> {
     let value = lit.base10_parse::<u64>()?;
 
-    let bytes = value.to_be_bytes();
-    let v: Vec<_> = bytes.iter().skip_while(|&c| *c == 0).collect();
+    // one more octet than u64: the contents must not be empty, nor appear as a negative number
+    let bytes = u128::from(value).to_be_bytes();
+    let mut v = &bytes[..];
+    while v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
+        v = &v[1..];
+    }
 
     let mut s = String::with_capacity(2 + 6 * v.len());
     s.push('[');
-- 
2.43.0


From 0e0650c1192f781870fc2c6fd89a51bed19cc429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 23/42] fix: oid! accepts any second component below root arc 2

---
 impl/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index b89ffc0..6e00288 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -23,11 +23,14 @@ pub fn encode_oid(input: TokenStream) -> TokenStream {
             }
             return create_error("Need at least two components for non-relative oid");
         }
-        if items[0] > 2 || items[1] > 39 {
+        // the second component is limited only below the first two root arcs
+        if items[0] > 2 || (items[0] < 2 && items[1] > 39) {
             return create_error("First components are too big");
         }
-        let first_byte = (items[0] * 40 + items[1]) as u8;
-        v.push(first_byte);
+        match (items[0] * 40).checked_add(items[1]) {
+            Some(first) => v.extend_from_slice(&encode_base128(first)),
+            None => return create_error("First components are too big"),
+        }
         items = &items[2..];
     }
     for &int in items {
-- 
2.43.0


From 3b0515d32d83e4d5913cdfe8bf1cd4ea64872268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 24/42] fix: tuples refuse left-over data in the contents

---
 src/asn1_types/sequence/tuple.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/sequence/tuple.rs b/src/asn1_types/sequence/tuple.rs
index 9c89503..9b564a4 100644
--- a/src/asn1_types/sequence/tuple.rs
+++ b/src/asn1_types/sequence/tuple.rs
@@ -1,4 +1,15 @@
-use crate::{BerError, Input};
+use nom::{Err, Input as _};
+
+use crate::{BerError, InnerError, Input};
+
+/// All elements of the SEQUENCE must have been read
+fn assert_no_extra_data<'i>(rem: &Input<'i>) -> Result<(), Err<BerError<Input<'i>>>> {
+    if rem.input_len() == 0 {
+        Ok(())
+    } else {
+        Err(BerError::nom_err_input(rem, InnerError::InvalidLength))
+    }
+}
 
 macro_rules! impl_parser_for_tuple {
     ($($parser:ident),+ / $error:ty) => {
@@ -24,6 +35,7 @@ macro_rules! impl_parser_for_tuple {
                     .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_ber(rem).map_err(nom::Err::convert)?;)*
+                assert_no_extra_data(&rem)?;
                 Ok((rem, ($($parser),*,)))
             }
         }
@@ -46,6 +58,7 @@ macro_rules! impl_parser_for_tuple {
                     .map_err(nom::Err::Error)?;
                 let rem = input;
                 $(let (rem, $parser) = <$parser>::parse_der(rem).map_err(nom::Err::convert)?;)*
+                assert_no_extra_data(&rem)?;
                 Ok((rem, ($($parser),*,)))
             }
         }
-- 
2.43.0


From e97e04ae7e695d5ea4a895e57bea2e63d68583d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 25/42] fix: DER encoding of HashSet follows its iteration
 order, as der_hashset requires

---
 src/asn1_types/set/hashset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/set/hashset.rs b/src/asn1_types/set/hashset.rs
index de13cf2..b53979f 100644
--- a/src/asn1_types/set/hashset.rs
+++ b/src/asn1_types/set/hashset.rs
@@ -149,7 +149,10 @@ where
     }
 
     fn der_write_content<W: Write>(&self, target: &mut W) -> SerializeResult<usize> {
-        der_write_set_items(self.iter(), target)
+        self.iter().try_fold(0, |acc, t| {
+            let sz = t.der_encode(target)?;
+            Ok(acc + sz)
+        })
     }
 
     fn der_tag_info(&self) -> (Class, bool, Tag) {
-- 
2.43.0


From 82d5d4b02bfb65bf03641b41cf678a0b85295799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 26/42] fix: equality and hash of Any do not depend on the
 position of the contents

---
 src/asn1_types/any.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 617d6b2..9865a35 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -6,6 +6,7 @@ use alloc::borrow::Cow;
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
 use core::convert::TryFrom;
+use core::hash::{Hash, Hasher};
 use nom::bytes::streaming::take;
 
 /// The `Any` object is not strictly an ASN.1 type, but holds a generic description of any object
@@ -14,7 +15,7 @@ use nom::bytes::streaming::take;
 /// It contains a header, and a reference to the object content.
 ///
 /// Note: this type is only provided in **borrowed** version (*i.e.* it cannot own the inner data).
-#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Any<'a> {
     /// The object header
     pub header: Header<'a>,
@@ -22,6 +23,20 @@ pub struct Any<'a> {
     pub data: Input<'a>,
 }
 
+// note: the position of the contents (span of `data`) is not a property of the object
+impl<'a> PartialEq<Any<'a>> for Any<'a> {
+    fn eq(&self, other: &Any) -> bool {
+        self.header == other.header && self.data.as_bytes2() == other.data.as_bytes2()
+    }
+}
+
+impl Hash for Any<'_> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.header.hash(state);
+        Input::from_slice(self.data.as_bytes2()).hash(state);
+    }
+}
+
 impl<'a> Any<'a> {
     /// Create a new `Any` from BER/DER header and content
     #[inline]
-- 
2.43.0


From 94a5e98667c11d9d81621d75d666ff896929e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 27/42] fix: EMBEDDED PDV: identification is explicitly tagged,
 contents must be complete, DER rules

---
 src/asn1_types/embedded_pdv.rs | 206 ++++++++++++++++++---------------
 1 file changed, 110 insertions(+), 96 deletions(-)

diff --git a/src/asn1_types/embedded_pdv.rs b/src/asn1_types/embedded_pdv.rs
index 364fab3..85c1f61 100644
--- a/src/asn1_types/embedded_pdv.rs
+++ b/src/asn1_types/embedded_pdv.rs
@@ -39,113 +39,127 @@ impl Tagged for EmbeddedPdv<'_> {
 
 impl_tryfrom_any!('i @ EmbeddedPdv<'i>);
 
-impl<'i> BerParser<'i> for EmbeddedPdv<'i> {
-    type Error = BerError<Input<'i>>;
+macro_rules! impl_pdv_parser {
+    ($parser:ident, $parse:ident, $from_content:ident) => {
+        impl<'i> $parser<'i> for EmbeddedPdv<'i> {
+            type Error = BerError<Input<'i>>;
 
-    fn from_ber_content(
-        _header: &'_ Header<'i>,
-        input: Input<'i>,
-    ) -> IResult<Input<'i>, Self, Self::Error> {
-        // AUTOMATIC TAGS means all values will be tagged (IMPLICIT)
-        // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
+            fn $from_content(
+                header: &'_ Header<'i>,
+                input: Input<'i>,
+            ) -> IResult<Input<'i>, Self, Self::Error> {
+                // SEQUENCE (IMPLICIT), shall be constructed (X.690: 8.9.1)
+                header
+                    .assert_constructed_input(&input)
+                    .map_err(Err::Error)?;
 
-        // [0] -> identification
-        // this is a [0 IMPLICIT] SEQUENCE, so we can just parse it as Any and take the content
-        let (rem, t0) = TaggedImplicit::<Any, Self::Error, 0>::parse_ber(input)?;
-        let inner0 = t0.into_inner();
-        let identification = match inner0.tag() {
-            Tag(0) => {
-                // syntaxes SEQUENCE {
-                //     abstract OBJECT IDENTIFIER,
-                //     transfer OBJECT IDENTIFIER
-                // },
-                let inner_data = inner0.data;
-                let (rem, t_abstract) =
-                    TaggedImplicit::<Oid, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_transfer) = TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
-                PdvIdentification::Syntaxes {
-                    s_abstract: t_abstract.into_inner(),
-                    s_transfer: t_transfer.into_inner(),
-                }
-            }
-            Tag(1) => {
-                // syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
-                PdvIdentification::Syntax(oid)
-            }
-            Tag(2) => {
-                // presentation-context-id INTEGER
-                let (_, i) = Integer::from_ber_content(&inner0.header, inner0.data)?;
-                PdvIdentification::PresentationContextId(i)
-            }
-            Tag(3) => {
-                // context-negotiation SEQUENCE {
-                //     presentation-context-id INTEGER,
-                //     transfer-syntax OBJECT IDENTIFIER
-                // },
-                let inner_data = inner0.data;
-                let (rem, t_presentation_context_id) =
-                    TaggedImplicit::<Integer, Self::Error, 0>::parse_ber(inner_data)?;
-                let (_, t_presentation_syntax) =
-                    TaggedImplicit::<Oid, Self::Error, 1>::parse_ber(rem)?;
+                // AUTOMATIC TAGS means all values will be tagged (IMPLICIT, except for the CHOICE)
+                // definition taken from <https://www.oss.com/asn1/products/documentation/asn1_java_8.7/api/toed/com/oss/asn1/EmbeddedPDV.html>
 
-                let presentation_context_id = t_presentation_context_id.into_inner();
-                let presentation_syntax = t_presentation_syntax.into_inner();
-                PdvIdentification::ContextNegotiation {
-                    presentation_context_id,
-                    presentation_syntax,
+                // [0] -> identification
+                // this is a CHOICE, so the tag is EXPLICIT (X.680: 31.2.7)
+                let (rem, t0) = TaggedExplicit::<Any, Self::Error, 0>::$parse(input)?;
+                let inner0 = t0.into_inner();
+                if inner0.class() != Class::ContextSpecific {
+                    return Err(Err::Error(BerError::unexpected_class(
+                        inner0.data.clone(),
+                        Some(Class::ContextSpecific),
+                        inner0.class(),
+                    )));
+                }
+                let identification = match inner0.tag() {
+                    Tag(0) => {
+                        // syntaxes SEQUENCE {
+                        //     abstract OBJECT IDENTIFIER,
+                        //     transfer OBJECT IDENTIFIER
+                        // },
+                        let (_, (t_abstract, t_transfer)) =
+                            <(
+                                TaggedImplicit<Oid, Self::Error, 0>,
+                                TaggedImplicit<Oid, Self::Error, 1>,
+                            )>::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::Syntaxes {
+                            s_abstract: t_abstract.into_inner(),
+                            s_transfer: t_transfer.into_inner(),
+                        }
+                    }
+                    Tag(1) => {
+                        // syntax OBJECT IDENTIFIER
+                        let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::Syntax(oid)
+                    }
+                    Tag(2) => {
+                        // presentation-context-id INTEGER
+                        let (_, i) = Integer::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::PresentationContextId(i)
+                    }
+                    Tag(3) => {
+                        // context-negotiation SEQUENCE {
+                        //     presentation-context-id INTEGER,
+                        //     transfer-syntax OBJECT IDENTIFIER
+                        // },
+                        let (_, (t_presentation_context_id, t_presentation_syntax)) =
+                            <(
+                                TaggedImplicit<Integer, Self::Error, 0>,
+                                TaggedImplicit<Oid, Self::Error, 1>,
+                            )>::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::ContextNegotiation {
+                            presentation_context_id: t_presentation_context_id.into_inner(),
+                            presentation_syntax: t_presentation_syntax.into_inner(),
+                        }
+                    }
+                    Tag(4) => {
+                        // transfer-syntax OBJECT IDENTIFIER
+                        let (_, oid) = Oid::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::TransferSyntax(oid)
+                    }
+                    Tag(5) => {
+                        // fixed NULL
+                        let (_, _) = Null::$from_content(&inner0.header, inner0.data)?;
+                        PdvIdentification::Fixed
+                    }
+                    _ => {
+                        let e = InnerError::invalid_value(
+                            inner0.tag(),
+                            "Invalid identification tag in EMBEDDED PDV",
+                        );
+                        return Err(BerError::nom_err_input(&inner0.data, e));
+                    }
+                };
+                // [1] -> data-value-descriptor ObjectDescriptor OPTIONAL
+                // *BUT* WITH COMPONENTS data-value-descriptor ABSENT
+                let (rem, t1) =
+                    <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::$parse(rem)?;
+                let data_value_descriptor = t1.map(|o| o.into_inner());
+                // [2] -> data-value OCTET STRING
+                let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::$parse(rem)?;
+                let data_value = t2.into_inner();
+                if !rem.is_empty() {
+                    return Err(BerError::nom_err_input(&rem, InnerError::InvalidLength));
                 }
-            }
-            Tag(4) => {
-                // transfer-syntax OBJECT IDENTIFIER
-                let (_, oid) = Oid::from_ber_content(&inner0.header, inner0.data)?;
-                PdvIdentification::TransferSyntax(oid)
-            }
-            Tag(5) => {
-                // fixed NULL
-                PdvIdentification::Fixed
-            }
-            _ => {
-                let e = InnerError::invalid_value(
-                    inner0.tag(),
-                    "Invalid identification tag in EMBEDDED PDV",
-                );
-                return Err(BerError::nom_err_input(&inner0.data, e));
-            }
-        };
-        // [1] -> data-value-descriptor ObjectDescriptor OPTIONAL
-        // *BUT* WITH COMPONENTS data-value-descriptor ABSENT
-        let (rem, t1) = <Option<TaggedImplicit<ObjectDescriptor, Self::Error, 1>>>::parse_ber(rem)?;
-        let data_value_descriptor = t1.map(|o| o.into_inner());
-        // [2] -> data-value OCTET STRING
-        let (rem, t2) = TaggedImplicit::<&[u8], Self::Error, 2>::parse_ber(rem)?;
-        let data_value = t2.into_inner();
 
-        let obj = EmbeddedPdv {
-            identification,
-            data_value_descriptor,
-            data_value,
-        };
-        Ok((rem, obj))
-    }
+                let obj = EmbeddedPdv {
+                    identification,
+                    data_value_descriptor,
+                    data_value,
+                };
+                Ok((rem, obj))
+            }
+        }
+    };
 }
 
-impl<'i> DerParser<'i> for EmbeddedPdv<'i> {
-    type Error = BerError<Input<'i>>;
-
-    fn from_der_content(
-        header: &'_ Header<'i>,
-        input: Input<'i>,
-    ) -> IResult<Input<'i>, Self, Self::Error> {
-        Self::from_ber_content(header, input)
-    }
-}
+impl_pdv_parser!(BerParser, parse_ber, from_ber_content);
+impl_pdv_parser!(DerParser, parse_der, from_der_content);
 
 impl CheckDerConstraints for EmbeddedPdv<'_> {
     fn check_constraints(any: &Any) -> Result<()> {
         any.header.length().assert_definite()?;
-        any.header.assert_constructed()?;
-        Ok(())
+        match EmbeddedPdv::from_der_content(&any.header, any.data.clone()) {
+            Ok(_) => Ok(()),
+            Err(Err::Incomplete(n)) => Err(Error::Incomplete(n)),
+            Err(Err::Error(e)) | Err(Err::Failure(e)) => Err(e.into()),
+        }
     }
 }
 
-- 
2.43.0


From 8f5363f0af4b13d9a663592c8fcdfb056b66c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:18 +0000
Subject: [PATCH 28/42] fix: TaggedParser (implicit) writes the form of its
 contents

---
 src/asn1_types/tagged/implicit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/tagged/implicit.rs b/src/asn1_types/tagged/implicit.rs
index f479533..47027be 100644
--- a/src/asn1_types/tagged/implicit.rs
+++ b/src/asn1_types/tagged/implicit.rs
@@ -359,7 +359,9 @@ const _: () = {
         }
 
         fn ber_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // the form is the one of the written contents, not the one that was parsed
+            let (_, constructed, _) = self.inner.ber_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 
@@ -378,7 +380,9 @@ const _: () = {
         }
 
         fn der_tag_info(&self) -> (Class, bool, Tag) {
-            (self.class(), self.constructed(), self.tag())
+            // the form is the one of the written contents, not the one that was parsed
+            let (_, constructed, _) = self.inner.der_tag_info();
+            (self.class(), constructed, self.tag())
         }
     }
 };
-- 
2.43.0


From 01126bb94723e690d086fcfc2f53fe5fadac1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 29/42] fix: derive: no overflow when assigning tags or values
 after the last possible one

---
 derive/src/choice.rs     | 3 ++-
 derive/src/enumerated.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index b4d839c..bf9cd02 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -530,7 +530,8 @@ fn parse_tag_variants<'a, 'r>(
             }
             acc.push(tag_variant);
 
-            current_tag += 1;
+            // no overflow if this is the last possible value
+            current_tag = current_tag.wrapping_add(1);
 
             Ok(acc)
         })?;
diff --git a/derive/src/enumerated.rs b/derive/src/enumerated.rs
index 7194846..4dfc866 100644
--- a/derive/src/enumerated.rs
+++ b/derive/src/enumerated.rs
@@ -257,7 +257,8 @@ fn parse_enum_variants(s: &synstructure::Structure<'_>) -> Result<Vec<EnumVarian
             };
             acc.push(e);
 
-            current_value += 1;
+            // no overflow if this is the last possible value
+            current_value = current_value.wrapping_add(1);
             Ok(acc)
         })?;
     Ok(v)
-- 
2.43.0


From 8233f5b93b09eb016f0e44d94f7c5d8156487d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 30/42] fix: derive: length of tagged and absent optional
 fields

---
 derive/src/container.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index e78c045..116c2ab 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -528,19 +528,25 @@ impl Container {
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#total_len()
+                            + match #bi.#total_len() {
+                                // absent OPTIONAL value: nothing is written, not even the tag
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                length => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), length),
+                            }
                     }
                 }
                 Some((Asn1TagKind::Implicit, _class, tag)) => {
-                    // TAGGED IMPLICIT: add length required to encode tag header
+                    // TAGGED IMPLICIT: the tag replaces the tag of the object
                     // This could be different from `#bi.#total_len()` in the specific case one of
                     // (implicit tag, object tag) is long and the other is not
                     let tag = u32::from(tag);
                     quote! {
                         #acc
-                            + asn1_rs::ber_header_length(asn1_rs::Tag(#tag), #bi.#total_len()).unwrap_or_default()
-                            + #bi.#content_len()
+                            + match #bi.#total_len() {
+                                // absent OPTIONAL value: nothing is written, not even the tag
+                                asn1_rs::Length::Definite(0) => asn1_rs::Length::Definite(0),
+                                _ => asn1_rs::ber_total_length(asn1_rs::Tag(#tag), #bi.#content_len()),
+                            }
                     }
                 }
                 None => quote! {
-- 
2.43.0


From 0d483a1c6b5227b50bacf7ba9643d654e598b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 31/42] fix: derive: SEQUENCE and SET must be constructed

---
 derive/src/container.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 116c2ab..f7f14cd 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -185,6 +185,8 @@ impl Container {
             quote! {
                 use asn1_rs::nom::*;
                 any.tag().assert_eq(Self::TAG)?;
+                // SEQUENCE/SET must be constructed (X.690 8.9.1, 8.11.1)
+                any.header.assert_constructed()?;
 
                 // no need to parse sequence, we already have content
                 let i = any.data.as_bytes2();
@@ -481,6 +483,7 @@ impl Container {
             quote! {
                 let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                 any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                any.header.assert_constructed().map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                 let i = any.data.as_bytes2();
                 //
                 #parse_content
-- 
2.43.0


From c7e934227b14cface9b8b307c18770ff914d42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 32/42] fix: derive: tagged CHOICE checks class, and refuses
 left-over data after an explicit value

---
 derive/src/choice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index bf9cd02..1709757 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -220,6 +220,12 @@ impl<'s> DeriveChoice<'s> {
                 Asn1TagKind::Explicit => quote! {
                     #tag => {
                         let (rem, #bi) = asn1_rs::#parser::#parse_ber(rem)#map_err?;
+                        // the content must be exactly one object (X.690 8.14.2)
+                        if !rem.is_empty() {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::new(rem, asn1_rs::InnerError::InvalidLength).into()
+                            ));
+                        }
                         Ok((rem, #construct))
                     }
                 },
@@ -262,6 +268,16 @@ impl<'s> DeriveChoice<'s> {
                 gen impl<#lft> asn1_rs::#parser<#lft> for @Self where #(#where_predicates)+* {
                     type Error = #error;
                     fn #from_ber_content(header: &'_ asn1_rs::Header<#lft>, input: asn1_rs::Input<#lft>) -> asn1_rs::nom::IResult<asn1_rs::Input<#lft>, Self, Self::Error> {
+                        // variants are always tagged [CONTEXT-SPECIFIC] (see `DynTagged::class`)
+                        if header.class() != asn1_rs::Class::ContextSpecific {
+                            return Err(asn1_rs::nom::Err::Error(
+                                asn1_rs::BerError::unexpected_class(
+                                    input,
+                                    Some(asn1_rs::Class::ContextSpecific),
+                                    header.class()
+                                ).into()
+                            ));
+                        }
                         #assert_constructed
                         let rem = input.clone();
                         match header.tag().0 {
-- 
2.43.0


From 31e4db57e31017b7ad826e1debf3fbb3cb6688d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 33/42] fix: derive: write End Of Content for objects of
 indefinite length

---
 derive/src/choice.rs    |  9 ++++++++-
 derive/src/container.rs | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/derive/src/choice.rs b/derive/src/choice.rs
index 1709757..ce922b8 100644
--- a/derive/src/choice.rs
+++ b/derive/src/choice.rs
@@ -430,6 +430,7 @@ impl<'s> DeriveChoice<'s> {
     fn choice_gen_tober_write_content(&self, asn1_type: Asn1Type) -> TokenStream {
         let encode = asn1_type.compose("_encode");
         let write_content = asn1_type.compose("_write_content");
+        let total_len = asn1_type.total_len_tokens();
 
         let write_branches = self.variants.iter().map(|v| {
             let bindings = v.vi.bindings();
@@ -442,7 +443,13 @@ impl<'s> DeriveChoice<'s> {
                 Some(Asn1TagKind::Explicit) => quote! {
                     #pat => {
                         // encode as tagged explicit (write full object)
-                        #bi.#encode(writer)
+                        let mut num_bytes = #bi.#encode(writer)?;
+                        if !#bi.#total_len().is_definite() {
+                            // length is indefinite: write End Of Content
+                            std::io::Write::write_all(writer, &[0, 0])?;
+                            num_bytes += 2;
+                        }
+                        Ok(num_bytes)
                     }
                 },
                 Some(Asn1TagKind::Implicit) | None => quote! {
diff --git a/derive/src/container.rs b/derive/src/container.rs
index f7f14cd..6261269 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -611,6 +611,19 @@ impl Container {
             asn1_type.encode_tokens()
         };
         let write_content = asn1_type.write_content_tokens();
+        let write_eoc = if self.container_type == ContainerType::Alias {
+            // alias: inner object already wrote its content
+            quote! {}
+        } else {
+            let content_len = asn1_type.content_len_tokens();
+            quote! {
+                if !self.#content_len().is_definite() {
+                    // length is indefinite: write End Of Content
+                    std::io::Write::write_all(writer, &[0, 0])?;
+                    num_bytes += 2;
+                }
+            }
+        };
         let encode_explicit = asn1_type.compose("_encode_tagged_explicit");
         let encode_implicit = asn1_type.compose("_encode_tagged_implicit");
 
@@ -645,6 +658,7 @@ impl Container {
                 #pat => {
                     let mut num_bytes = 0;
                     #(#encode)*
+                    #write_eoc
                     Ok(num_bytes)
                 }
             }
-- 
2.43.0


From b02fcd6dbed5c1eb634dab86cbc71030c20bdcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 34/42] fix: derive: DER constraints of aliases and of optional
 and tagged fields

---
 derive/src/container.rs | 90 +++++++++++++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 13 deletions(-)

diff --git a/derive/src/container.rs b/derive/src/container.rs
index 6261269..ccbcd09 100644
--- a/derive/src/container.rs
+++ b/derive/src/container.rs
@@ -5,8 +5,8 @@ use quote::{quote, ToTokens};
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
 use syn::{
-    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, Ident, Lifetime, LitInt,
-    LitStr, Meta, Type, WherePredicate,
+    parse_quote, Attribute, DataStruct, DeriveInput, Expr, Field, Fields, GenericArgument, Ident,
+    Lifetime, LitInt, LitStr, Meta, PathArguments, Type, WherePredicate,
 };
 
 use crate::asn1_type::Asn1Type;
@@ -421,17 +421,7 @@ impl Container {
                 <#ty>::check_constraints(any)
             }
         } else {
-            let check_fields: Vec<_> = self
-                .fields
-                .iter()
-                .map(|field| {
-                    let ty = &field.type_;
-                    quote! {
-                        let (rem, any) = Any::from_der(rem)?;
-                        <#ty as CheckDerConstraints>::check_constraints(&any)?;
-                    }
-                })
-                .collect();
+            let check_fields: Vec<_> = self.fields.iter().map(get_field_checkconstraints).collect();
             quote! {
                 any.tag().assert_eq(Self::TAG)?;
                 let rem = any.data.as_bytes2();
@@ -475,6 +465,8 @@ impl Container {
                 quote! {
                     let (rem, any) = asn1_rs::Any::from_der(bytes).map_err(asn1_rs::nom::Err::convert)?;
                     any.header.assert_tag(Self::TAG).map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
+                    <Self as asn1_rs::CheckDerConstraints>::check_constraints(&any)
+                        .map_err(|e| asn1_rs::nom::Err::Error(e.into()))?;
                     let res = TryFrom::try_from(any)?;
                     Ok((rem,Self(res)))
                 }
@@ -932,6 +924,78 @@ fn get_field_parser(f: &FieldInfo, asn1_type: Asn1Type, custom_errors: bool) ->
     }
 }
 
+/// Check DER constraints of one field, and skip it
+///
+/// This must accept the same objects as the code generated by `get_field_parser`
+fn get_field_checkconstraints(f: &FieldInfo) -> TokenStream {
+    // for OPTIONAL fields, get type of object (if present)
+    let inner_type = get_option_type(&f.type_);
+    let optional = f.optional || inner_type.is_some();
+    let ty = inner_type.unwrap_or(&f.type_);
+
+    // type of object, and condition to know if object is present (used only for OPTIONAL fields)
+    let (ty, is_present) = match f.tag {
+        Some((tag_kind, class, n)) => {
+            let tag = Literal::u16_unsuffixed(n);
+            (
+                quote! { asn1_rs::TaggedValue::<#ty, asn1_rs::Error, #tag_kind, {#class}, #tag> },
+                quote! { any.tag().0 == #tag },
+            )
+        }
+        None => (
+            quote! { #ty },
+            quote! { <#ty as asn1_rs::DynTagged>::accept_tag(any.tag()) },
+        ),
+    };
+    // if type of OPTIONAL object cannot be found (for ex. an alias for `Option`), the object is only
+    // checked when parsed
+    let check = if f.optional && f.default.is_none() && inner_type.is_none() {
+        quote! {}
+    } else {
+        quote! { <#ty as CheckDerConstraints>::check_constraints(&any)?; }
+    };
+    if optional {
+        quote! {
+            let rem = if rem.is_empty() {
+                rem
+            } else {
+                let (next, any) = Any::from_der(rem)?;
+                if #is_present {
+                    #check
+                    next
+                } else {
+                    rem
+                }
+            };
+        }
+    } else {
+        quote! {
+            let (rem, any) = Any::from_der(rem)?;
+            #check
+        }
+    }
+}
+
+/// If type is `Option<T>`, return `T`
+fn get_option_type(ty: &Type) -> Option<&Type> {
+    let segment = match ty {
+        Type::Path(type_path) => type_path.path.segments.last()?,
+        // type comes from a macro variable
+        Type::Group(group) => return get_option_type(&group.elem),
+        Type::Paren(paren) => return get_option_type(&paren.elem),
+        _ => return None,
+    };
+    match &segment.arguments {
+        PathArguments::AngleBracketed(args) if segment.ident == "Option" => {
+            args.args.iter().find_map(|arg| match arg {
+                GenericArgument::Type(ty) => Some(ty),
+                _ => None,
+            })
+        }
+        _ => None,
+    }
+}
+
 fn derive_berparser_sequence_content(fields: &[FieldInfo], asn1_type: Asn1Type) -> TokenStream {
     let field_parsers: Vec<_> = fields
         .iter()
-- 
2.43.0


From 47f5f3217adb86dfe5f16cfef466957542f33352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 35/42] fix: Any::iter_elements iterates in the requested mode

---
 src/asn1_types/any.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index 9865a35..ea4aa8a 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -152,8 +152,8 @@ impl<'a> Any<'a> {
     ///
     /// This makes sense only if `Self` is constructed, but the constructed bit is
     /// _not_ checked by this function.
-    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, BerMode> {
-        AnyIterator::<BerMode>::new(self.data.clone())
+    pub fn iter_elements<Mode: ASN1Mode>(&'a self) -> AnyIterator<'a, Mode> {
+        AnyIterator::<Mode>::new(self.data.clone())
     }
 }
 
-- 
2.43.0


From e89ed56d75aaa73672c731f7ac749562ff60374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 36/42] fix: as_any_str and as_any_string refuse constructed
 strings

---
 src/asn1_types/any.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1_types/any.rs b/src/asn1_types/any.rs
index ea4aa8a..785dd8c 100644
--- a/src/asn1_types/any.rs
+++ b/src/asn1_types/any.rs
@@ -446,6 +446,7 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res)
             }
@@ -467,6 +468,7 @@ impl<'a> Any<'a> {
             | Tag::Utf8String
             | Tag::VideotexString
             | Tag::VisibleString => {
+                self.header.assert_primitive()?;
                 let res = core::str::from_utf8(self.data.as_bytes2())?;
                 Ok(res.to_string())
             }
-- 
2.43.0


From 38d653eaee75425507045422b45da2861f578ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 37/42] fix: SequenceIteratorInput checks the tag of elements
 and stops after an error

---
 src/asn1_types/sequence/iterator.rs | 74 ++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/asn1_types/sequence/iterator.rs b/src/asn1_types/sequence/iterator.rs
index 122867b..a620b94 100644
--- a/src/asn1_types/sequence/iterator.rs
+++ b/src/asn1_types/sequence/iterator.rs
@@ -1,5 +1,5 @@
 use crate::{
-    ASN1Mode, AnyIterator, BerError, BerMode, BerParser, DerMode, DerParser, Error, FromBer,
+    ASN1Mode, Any, AnyIterator, BerError, BerMode, BerParser, DerMode, DerParser, Error, FromBer,
     FromDer, Input, Tagged,
 };
 use core::marker::PhantomData;
@@ -114,6 +114,7 @@ where
     Mode: ASN1Mode,
 {
     iter: AnyIterator<'a, Mode>,
+    has_error: bool,
     t: PhantomData<*const T>,
     e: PhantomData<*const E>,
 }
@@ -126,6 +127,7 @@ where
         let iter = AnyIterator::new(input);
         Self {
             iter,
+            has_error: false,
             t: PhantomData,
             e: PhantomData,
         }
@@ -141,21 +143,30 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.has_error {
+            return None;
+        }
         match self.iter.next() {
-            Some(Ok((_, any))) => match T::from_ber_content(&any.header, any.data) {
-                Ok((_, obj)) => Some(Ok(obj)),
-                Err(e) => {
-                    let e = match e {
-                        nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
-                        nom::Err::Incomplete(n) => {
-                            // we need input to build error, but we don't have it
-                            let input = Input::from_slice(&[]);
-                            BerError::incomplete(input, n).into()
-                        }
-                    };
-                    Some(Err(e))
+            Some(Ok((_, any))) => {
+                let Any { header, data } = any;
+                if !T::accept_tag(header.tag()) {
+                    self.has_error = true;
+                    return Some(Err(
+                        BerError::unexpected_tag(data, None, header.tag()).into()
+                    ));
+                }
+                match T::from_ber_content(&header, data.clone()) {
+                    Ok((_, obj)) => Some(Ok(obj)),
+                    Err(e) => {
+                        self.has_error = true;
+                        let e = match e {
+                            nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
+                            nom::Err::Incomplete(n) => BerError::incomplete(data, n).into(),
+                        };
+                        Some(Err(e))
+                    }
                 }
-            },
+            }
             Some(Err(e)) => Some(Err(e.into())),
             None => None,
         }
@@ -172,21 +183,30 @@ where
     type Item = Result<T, E>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.has_error {
+            return None;
+        }
         match self.iter.next() {
-            Some(Ok((_, any))) => match T::from_der_content(&any.header, any.data) {
-                Ok((_, obj)) => Some(Ok(obj)),
-                Err(e) => {
-                    let e = match e {
-                        nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
-                        nom::Err::Incomplete(n) => {
-                            // we need input to build error, but we don't have it
-                            let input = Input::from_slice(&[]);
-                            BerError::incomplete(input, n).into()
-                        }
-                    };
-                    Some(Err(e))
+            Some(Ok((_, any))) => {
+                let Any { header, data } = any;
+                if !T::accept_tag(header.tag()) {
+                    self.has_error = true;
+                    return Some(Err(
+                        BerError::unexpected_tag(data, None, header.tag()).into()
+                    ));
                 }
-            },
+                match T::from_der_content(&header, data.clone()) {
+                    Ok((_, obj)) => Some(Ok(obj)),
+                    Err(e) => {
+                        self.has_error = true;
+                        let e = match e {
+                            nom::Err::Error(e) | nom::Err::Failure(e) => e.into(),
+                            nom::Err::Incomplete(n) => BerError::incomplete(data, n).into(),
+                        };
+                        Some(Err(e))
+                    }
+                }
+            }
             Some(Err(e)) => Some(Err(e.into())),
             None => None,
         }
-- 
2.43.0


From fda6ff25c7a0957edb43b0b4bba57eb490949488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 38/42] fix: Set::from_iter_to_der writes items in DER order

---
 src/asn1_types/set.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asn1_types/set.rs b/src/asn1_types/set.rs
index 47d445e..f98bd1b 100644
--- a/src/asn1_types/set.rs
+++ b/src/asn1_types/set.rs
@@ -483,13 +483,14 @@ impl Set<'_> {
         T: ToDer,
         T: Tagged,
     {
-        let mut v = Vec::new();
+        // DER: encodings of items must appear in ascending order
+        let mut items = Vec::new();
         for item in it {
-            let item_v = <T as ToDer>::to_der_vec(&item)?;
-            v.extend_from_slice(&item_v);
+            items.push(<T as ToDer>::to_der_vec(&item)?);
         }
+        items.sort();
         Ok(Set {
-            content: Cow::Owned(v),
+            content: Cow::Owned(items.concat()),
         })
     }
 }
-- 
2.43.0


From f666f05e5de97ae20228dfaeb45b565a1a76017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 39/42] fix: UtcTime::timestamp counts from the adjusted
 (four-digit) year

---
 src/asn1_types/utctime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1_types/utctime.rs b/src/asn1_types/utctime.rs
index db61ad6..a849978 100644
--- a/src/asn1_types/utctime.rs
+++ b/src/asn1_types/utctime.rs
@@ -117,7 +117,7 @@ impl UtcTime {
     #[cfg(feature = "datetime")]
     #[cfg_attr(docsrs, doc(cfg(feature = "datetime")))]
     pub fn timestamp(&self) -> Result<i64> {
-        let dt = self.0.to_datetime()?;
+        let dt = self.utc_adjusted_datetime()?;
         Ok(dt.unix_timestamp())
     }
 }
-- 
2.43.0


From 8f00cccda1ebc3ea671b75047b81aa2d79d874c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 40/42] fix: to_der_len includes the header, as documented

---
 src/to_der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/to_der.rs b/src/to_der.rs
index 8f6d4ed..b6be956 100644
--- a/src/to_der.rs
+++ b/src/to_der.rs
@@ -145,7 +145,7 @@ pub trait ToDer {
     // Since we are using DER, length cannot be Indefinite
     #[deprecated(since = "0.8.0", note = "Use `der_total_len()` instead.")]
     fn to_der_len(&self) -> crate::Result<usize> {
-        match self.der_content_len() {
+        match self.der_total_len() {
             Length::Definite(sz) => Ok(sz),
             Length::Indefinite => Err(crate::Error::IndefiniteLengthUnexpected),
         }
-- 
2.43.0


From 6c40a2fecbe73005998d43b1069cf3e8d00538ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 41/42] fix: oid! supports the documented `raw rel` form

---
 src/asn1_types/oid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1_types/oid.rs b/src/asn1_types/oid.rs
index 2a0c25c..8939637 100644
--- a/src/asn1_types/oid.rs
+++ b/src/asn1_types/oid.rs
@@ -479,6 +479,9 @@ impl FromStr for Oid<'_> {
 /// extra check might be necessary.
 #[macro_export]
 macro_rules! oid {
+    (raw rel $( $item:literal ).*) => {
+        $crate::exports::asn1_rs_impl::encode_oid!(rel $( $item ).*)
+    };
     (raw $( $item:literal ).*) => {
         $crate::exports::asn1_rs_impl::encode_oid!( $( $item ).* )
     };
-- 
2.43.0


From c1d8f80344e1dd1305d0123225e75f933471a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:50 +0000
Subject: [PATCH 42/42] fix: oid! accepts long relative identifiers

---
 impl/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/impl/src/lib.rs b/impl/src/lib.rs
index 6e00288..22b41e6 100644
--- a/impl/src/lib.rs
+++ b/impl/src/lib.rs
@@ -5,10 +5,10 @@ use syn::{parse_macro_input, Error, LitInt};
 #[proc_macro]
 pub fn encode_oid(input: TokenStream) -> TokenStream {
     let token_stream = input.to_string();
-    let (s, relative) = if token_stream.starts_with("rel ") {
-        (&token_stream[4..], true)
-    } else {
-        (token_stream.as_ref(), false)
+    // the separator can be a newline, since long token streams are wrapped when converted to string
+    let (s, relative) = match token_stream.strip_prefix("rel") {
+        Some(s) if s.starts_with(char::is_whitespace) => (s, true),
+        _ => (token_stream.as_ref(), false),
     };
     let items: Result<Vec<_>, _> = s.split('.').map(|x| x.trim().parse::<u128>()).collect();
     let mut items: &[_] = match items.as_ref() {
-- 
2.43.0

