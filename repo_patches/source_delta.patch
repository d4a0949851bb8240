From c0827e76cdbaff0da283c123059b8b91dff85e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 01/38] fix: return I/O errors from whole-byte reads in
 read_bits_into

Any error but UnexpectedEof was dropped and the byte that was never read
was taken to be zero.
---
 src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index fe3217d..28e6e28 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -313,6 +313,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
@@ -326,6 +327,7 @@ impl<R: Read + Seek> Reader<R> {
                             if e.kind() == ErrorKind::UnexpectedEof {
                                 return Err(DekuError::Incomplete(NeedSize::new(dst.len())));
                             }
+                            return Err(DekuError::Io(e.kind()));
                         }
                         slot.store_be(buf[0]);
                     }
-- 
2.43.0


From dfa63ce503b40c4fccfef22c09bf2528754e60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 02/38] fix: do not buffer a byte in Reader::end when the read
 failed

An I/O error other than UnexpectedEof was ignored and a zero byte which
the stream never held was handed to the next read.
---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 28e6e28..d5e3d98 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -162,6 +162,10 @@ impl<R: Read + Seek> Reader<R> {
                     log::trace!("end");
                     return true;
                 }
+
+                // No byte was read: report "not end" without buffering one, so that the next
+                // read meets the error and returns it.
+                return false;
             }
 
             #[cfg(feature = "logging")]
-- 
2.43.0


From b27534566d7c8d9bedafa6be42ce5a62687ada93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/38] fix: skip padding by reading, from buffered input first

Skipping whole bytes ignored the byte which end() had buffered, went past
the end of the stream without an error, replaced bits_read by the absolute
position of the stream, and failed for streams which cannot seek.
---
 src/reader.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d5e3d98..11ef66c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -188,9 +188,15 @@ impl<R: Read + Seek> Reader<R> {
             #[cfg(feature = "logging")]
             log::trace!("skip_bits: {amt}");
 
-            if let Some(Leftover::Bits(bits)) = &self.leftover {
+            // first, use up the bits (or the byte buffered by `end()`) which were already read
+            let buffered = match &self.leftover {
+                Some(Leftover::Bits(bits)) => bits.len(),
+                Some(Leftover::Byte(_)) => 8,
+                None => 0,
+            };
+            if buffered != 0 {
                 let mut buf = bitarr!(u8, Msb0; 0; 8);
-                let needed = core::cmp::min(amt, bits.len());
+                let needed = core::cmp::min(amt, buffered);
                 amt -= needed;
                 self.read_bits_into(&mut buf[..needed], _order)?;
             }
@@ -198,13 +204,21 @@ impl<R: Read + Seek> Reader<R> {
             let bytes_amt = amt / 8;
             let bits_amt = amt % 8;
 
-            // first, seek with bytes
-            if bytes_amt != 0 {
-                debug_assert_eq!(self.bits_read % 8, 0);
-                self.seek(SeekFrom::Current(
-                    i64::try_from(bytes_amt).expect("could not convert seek usize into i64"),
-                ))
-                .map_err(|e| DekuError::Io(e.kind()))?;
+            // then, discard whole bytes. This reads instead of seeking, since a seek goes past the
+            // end of the stream without an error and isn't available for every stream.
+            let mut discard = [0u8; 64];
+            let mut bytes_left = bytes_amt;
+            while bytes_left != 0 {
+                let len = core::cmp::min(bytes_left, discard.len());
+                let len = match self.inner.read(&mut discard[..len]) {
+                    // at least one more byte is needed
+                    Ok(0) => return Err(DekuError::Incomplete(NeedSize::new(8))),
+                    Ok(len) => len,
+                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                    Err(e) => return Err(DekuError::Io(e.kind())),
+                };
+                self.bits_read += len * 8;
+                bytes_left -= len;
             }
 
             // Save, and keep the leftover bits since the read will most likely be less than a byte
-- 
2.43.0


From 9a671c6fb2ff197b7ea14b4cf2c3f38541411788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 04/38] fix: make relative seeks account for the byte buffered
 by Reader::end

The inner stream is one byte past the position of the reader then, so a
seek from the current position was off by one.
---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 11ef66c..f16833f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -48,6 +48,14 @@ impl<R: Read + Seek> Seek for Reader<R> {
         #[cfg(feature = "logging")]
         log::trace!("seek: {pos:?}");
 
+        // A byte buffered by `end()` hasn't been consumed yet, but the inner stream is past it
+        let pos = match (&self.leftover, pos) {
+            (Some(Leftover::Byte(_)), SeekFrom::Current(offset)) => {
+                SeekFrom::Current(offset.saturating_sub(1))
+            }
+            (_, pos) => pos,
+        };
+
         // clear leftover
         self.leftover = None;
 
-- 
2.43.0


From ed520045ab6472905b8617afc7469cca19e90e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 05/38] fix: reading zero bytes must not touch the byte
 buffered by end()

read_bytes(0, ..) indexed into the empty buffer and panicked.
---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index f16833f..81d1f81 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -536,6 +536,10 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8],
         order: Order,
     ) -> Result<ReaderRet, DekuError> {
+        if amt == 0 {
+            return Ok(ReaderRet::Bytes);
+        }
+
         match self.leftover {
             Some(Leftover::Byte(byte)) => self.read_bytes_leftover(buf, byte, amt),
             #[cfg(feature = "bits")]
-- 
2.43.0


From e4445262e11d342f2ca5900dd95c8f3a69b317db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 06/38] fix: read counted byte vecs through the reader instead
 of seeking

The size check looked at the inner stream only: it missed the byte that
end() buffers, underflowed for a stream positioned past its end,
overflowed for huge counts, and failed for streams which cannot seek.
Bytes at an unaligned offset were read in Lsb0 order although the default,
and the order they are written in, is Msb0.
---
 src/impls/vec.rs | 44 ++++++++++++++++++++++++--------------------
 src/reader.rs    | 23 +++++++++++++++++++++++
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 4140ae7..aa231cf 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -1,6 +1,6 @@
 use core::mem;
 
-use no_std_io::io::{Read, Seek, SeekFrom, Write};
+use no_std_io::io::{Read, Seek, Write};
 
 use alloc::vec::Vec;
 
@@ -18,26 +18,30 @@ impl DekuReader<'_, ReadExact> for Vec<u8> {
     where
         Self: Sized,
     {
-        // Check remaining bytes via the inner reader before allocating,
-        // so a bogus count from untrusted input doesn't cause a huge
-        // allocation that will immediately fail on read.
-        let inner = reader.as_mut();
-        let pos = inner
-            .stream_position()
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        let end = inner
-            .seek(SeekFrom::End(0))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-        inner
-            .seek(SeekFrom::Start(pos))
-            .map_err(|e| DekuError::Io(e.kind()))?;
-
-        if (end - pos) < exact.0 as u64 {
-            return Err(DekuError::Incomplete(NeedSize::new(exact.0 * 8)));
-        }
+        // Allocate only after some of the bytes were read and grow from there, so that a bogus
+        // count from untrusted input doesn't cause a huge allocation for data that isn't there.
+        const CHUNK: usize = 4096;
+
+        let mut read = |buf: &mut [u8]| {
+            reader.fill_bytes(buf).map_err(|e| match e {
+                DekuError::Incomplete(_) => {
+                    DekuError::Incomplete(NeedSize::new(exact.0.saturating_mul(8)))
+                }
+                e => e,
+            })
+        };
 
-        let mut bytes = alloc::vec![0x00; exact.0];
-        let _ = reader.read_bytes(exact.0, &mut bytes, Order::Lsb0)?;
+        let mut first = [0x00; 64];
+        let first = &mut first[..exact.0.min(64)];
+        read(first)?;
+
+        let mut bytes = first.to_vec();
+        while bytes.len() < exact.0 {
+            let start = bytes.len();
+            let len = (exact.0 - start).min(start.max(CHUNK));
+            bytes.resize(start + len, 0x00);
+            read(&mut bytes[start..])?;
+        }
         Ok(bytes)
     }
 }
diff --git a/src/reader.rs b/src/reader.rs
index 81d1f81..c564299 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -530,6 +530,29 @@ impl<R: Read + Seek> Reader<R> {
         self.read_bytes_other(amt, buf, order)
     }
 
+    /// Fill `buf` like [read_bytes](Reader::read_bytes) with [Order::Msb0].
+    ///
+    /// If we have no "leftover", running out of data doesn't involve an I/O error, which allocates
+    /// without the `std` feature.
+    #[cfg(feature = "alloc")]
+    pub(crate) fn fill_bytes(&mut self, buf: &mut [u8]) -> Result<(), DekuError> {
+        if self.leftover.is_some() {
+            return self.read_bytes(buf.len(), buf, Order::Msb0).map(|_| ());
+        }
+
+        let mut filled = 0;
+        while filled < buf.len() {
+            match self.inner.read(&mut buf[filled..]) {
+                Ok(0) => return Err(DekuError::Incomplete(NeedSize::new(buf.len() * 8))),
+                Ok(len) => filled += len,
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) => return Err(DekuError::Io(e.kind())),
+            }
+        }
+        self.bits_read += buf.len() * 8;
+        Ok(())
+    }
+
     fn read_bytes_other(
         &mut self,
         amt: usize,
-- 
2.43.0


From eb2ee2a7ac6dcdbcdf95e8b83585bc98acfe6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 07/38] fix: honour bits, bytes, bit_order and ctx for counted
 byte vecs

They were ignored when reading a Vec<u8> with a count, but not when
writing it.
---
 deku-derive/src/macros/deku_read.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 89d3839..d3d1bd9 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -817,7 +817,16 @@ fn emit_field_read(
         } else if let Some(field_count) = &f.count {
             use syn::{GenericArgument, PathArguments, Type};
             let mut is_vec_u8 = false;
-            if let Type::Path(type_path) = &f.ty {
+            // The elements of the vec are only plain bytes if nothing changes how they are read
+            #[cfg(feature = "bits")]
+            let plain_elements = f.bits.is_none();
+            #[cfg(not(feature = "bits"))]
+            let plain_elements = true;
+            let plain_elements =
+                plain_elements && f.bytes.is_none() && f.ctx.is_none() && field_bit_order.is_none();
+            if !plain_elements {
+                // read element by element
+            } else if let Type::Path(type_path) = &f.ty {
                 if type_path.path.segments.len() == 1 && type_path.path.segments[0].ident == "Vec" {
                     if let PathArguments::AngleBracketed(ref generic_args) =
                         type_path.path.segments[0].arguments
-- 
2.43.0


From e74852169e86d67d45acfaff86832ae993dd2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 08/38] fix: compute byte padding in usize

The padding in bytes was multiplied by eight in the type of the
expression, which panicked (or wrapped) for a u8 field of 32 and more.
---
 deku-derive/src/macros/deku_read.rs  | 15 ++++++++----
 deku-derive/src/macros/deku_write.rs | 15 ++++++++----
 deku-derive/src/macros/mod.rs        | 36 ++++++++++++++++++++++++----
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index d3d1bd9..5229fbb 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -600,16 +600,21 @@ fn emit_bit_byte_offsets(
     (bit_offset, byte_offset)
 }
 
+/// `bit_size` is an `Option<usize>` expression, `param` what was given for it in the attribute
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    param: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     if let Some(bit_order) = bit_order {
         let order = gen_bit_order_from_str(bit_order).unwrap();
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert ot usize", "{}", stringify!(#param))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, #order)?;
             }
@@ -618,8 +623,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#param))
                 )?;
                 __deku_reader.skip_bits(__deku_pad, ::#crate_::ctx::Order::default())?;
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 461c5e8..21adeea 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -541,8 +541,13 @@ fn emit_bit_byte_offsets(
     (bit_offset, byte_offset)
 }
 
+/// `bit_size` is an `Option<usize>` expression, `param` what was given for it in the attribute
 #[cfg(feature = "bits")]
-fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStream {
+fn emit_padding(
+    bit_size: &TokenStream,
+    param: &TokenStream,
+    bit_order: Option<&LitStr>,
+) -> TokenStream {
     let crate_ = super::get_crate_name();
     const PAD: usize = crate::PAD_ARRAY_SIZE * 8;
     if let Some(bit_order) = bit_order {
@@ -550,8 +555,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#param))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
@@ -565,8 +570,8 @@ fn emit_padding(bit_size: &TokenStream, bit_order: Option<&LitStr>) -> TokenStre
         quote! {
             {
                 use core::convert::TryFrom;
-                let mut __deku_pad = usize::try_from(#bit_size).map_err(|e|
-                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#bit_size))
+                let mut __deku_pad = (#bit_size).ok_or_else(||
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid padding param, cannot convert to usize", "{}", stringify!(#param))
                 )?;
                 let __deku_pad_source = ::#crate_::bitvec::bitarr!(u8, ::#crate_::bitvec::Msb0; 0; #PAD);
                 while __deku_pad > 0 {
diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 40ee333..57b9c55 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -382,14 +382,42 @@ fn pad_bits(
     bits: Option<&TokenStream>,
     bytes: Option<&TokenStream>,
     bit_order: Option<&LitStr>,
-    emit_padding: fn(&TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
+    emit_padding: fn(&TokenStream, &TokenStream, bit_order: Option<&LitStr>) -> TokenStream,
 ) -> TokenStream {
+    // `Option<usize>`, the multiplication is done after the conversion as the type of the expression
+    // (e.g. `u8`) might be too small for it
+    let bytes_to_bits = |pad_bytes: &TokenStream| {
+        quote! {
+            {
+                use core::borrow::Borrow;
+                usize::try_from(*((#pad_bytes).borrow())).ok().and_then(|n: usize| n.checked_mul(8))
+            }
+        }
+    };
     match (bits, bytes) {
         (Some(pad_bits), Some(pad_bytes)) => {
-            emit_padding(&quote! { (#pad_bits) + ((#pad_bytes) * 8) }, bit_order)
+            let pad_bytes_as_bits = bytes_to_bits(pad_bytes);
+            emit_padding(
+                &quote! {
+                    usize::try_from(#pad_bits)
+                        .ok()
+                        .zip(#pad_bytes_as_bits)
+                        .and_then(|(bits, bytes): (usize, usize)| bits.checked_add(bytes))
+                },
+                &quote! { (#pad_bits) + ((#pad_bytes) * 8) },
+                bit_order,
+            )
         }
-        (Some(pad_bits), None) => emit_padding(pad_bits, bit_order),
-        (None, Some(pad_bytes)) => emit_padding(&quote! {((#pad_bytes) * 8)}, bit_order),
+        (Some(pad_bits), None) => emit_padding(
+            &quote! { usize::try_from(#pad_bits).ok() },
+            pad_bits,
+            bit_order,
+        ),
+        (None, Some(pad_bytes)) => emit_padding(
+            &bytes_to_bits(pad_bytes),
+            &quote! {((#pad_bytes) * 8)},
+            bit_order,
+        ),
         (None, None) => quote!(),
     }
 }
-- 
2.43.0


From af8692ecd81e45f7f0d953b6fdf1495b9f4d115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 09/38] fix: write whole-byte integers in Lsb0 order after
 unaligned Lsb0 fields

The reader honours the bit order for integers of whole bytes which start
within a byte, the writer always used Msb0.
---
 src/impls/primitive.rs | 29 ++++++++++++++---------------
 src/writer.rs          | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 8ab9e29..78e291b 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -140,10 +140,10 @@ impl DekuWriter<(Endian, ByteSize, Order)> for u8 {
     fn to_writer<W: Write + Seek>(
         &self,
         writer: &mut Writer<W>,
-        (_, _, _): (Endian, ByteSize, Order),
+        (_, _, order): (Endian, ByteSize, Order),
     ) -> Result<(), DekuError> {
         let input = self.to_le_bytes();
-        writer.write_bytes(&input)?;
+        writer.write_bytes_order(&input, order)?;
         Ok(())
     }
 }
@@ -960,6 +960,17 @@ macro_rules! ImplDekuWrite {
                 &self,
                 writer: &mut Writer<W>,
                 (endian, size): (Endian, ByteSize),
+            ) -> Result<(), DekuError> {
+                <$typ>::to_writer(self, writer, (endian, size, Order::default()))
+            }
+        }
+
+        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
+            #[inline(always)]
+            fn to_writer<W: Write + Seek>(
+                &self,
+                writer: &mut Writer<W>,
+                (endian, size, order): (Endian, ByteSize, Order),
             ) -> Result<(), DekuError> {
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
@@ -983,22 +994,10 @@ macro_rules! ImplDekuWrite {
                     &input[..size.0 as usize]
                 };
 
-                writer.write_bytes(&input)?;
+                writer.write_bytes_order(&input, order)?;
                 Ok(())
             }
         }
-
-        /// When using Endian and ByteSize, Order is not used
-        impl DekuWriter<(Endian, ByteSize, Order)> for $typ {
-            #[inline]
-            fn to_writer<W: Write + Seek>(
-                &self,
-                writer: &mut Writer<W>,
-                (endian, size, _order): (Endian, ByteSize, Order),
-            ) -> Result<(), DekuError> {
-                <$typ>::to_writer(self, writer, (endian, size))
-            }
-        }
     };
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 0a6c641..2515c7f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,7 +7,6 @@ use no_std_io::io::{Seek, SeekFrom, Write};
 #[cfg(feature = "logging")]
 use log;
 
-#[cfg(feature = "bits")]
 use crate::ctx::Order;
 
 use crate::DekuError;
@@ -398,6 +397,21 @@ impl<W: Write + Seek> Writer<W> {
         Ok(())
     }
 
+    /// Write `buf` into `Writer`, the bits of each byte in `order` if a byte was already started
+    #[inline(always)]
+    pub(crate) fn write_bytes_order(&mut self, buf: &[u8], _order: Order) -> Result<(), DekuError> {
+        #[cfg(feature = "bits")]
+        if _order == Order::Lsb0 && !self.leftover.0.is_empty() {
+            for byte in buf {
+                let bits = BitSlice::from_slice(core::slice::from_ref(byte));
+                self.write_bits_order(bits, Order::Lsb0)?;
+            }
+            return Ok(());
+        }
+
+        self.write_bytes(buf)
+    }
+
     /// Write all remaining bits into `Writer`, adding empty bits to the end so that we can write
     /// into a byte buffer
     #[inline]
-- 
2.43.0


From e8556ee5e7464d5930c82f515aa7ac80f0ca11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 10/38] fix: write big endian Lsb0 integers the way they are
 read

For sizes above 8 bits the writer took the leading bytes of the type
instead of the bytes of the value.
---
 src/impls/primitive.rs | 51 +++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 78e291b..1b46398 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -856,39 +856,30 @@ macro_rules! ImplDekuWrite {
                     }
                     (Endian::Big, Order::Lsb0) => {
                         const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-                        if let Some(first) = input_bits.first_one() {
-                            let max = MAX_TYPE_BITS - bit_size;
-                            if max > first {
-                                return Err(deku_error!(
-                                    DekuError::InvalidParam,
-                                    "bit size of input is larger than requested size",
-                                    "{} exceeds {}",
-                                    MAX_TYPE_BITS - first,
-                                    bit_size
-                                ));
-                            }
+
+                        // The reader takes the first byte of the stream as the most significant
+                        // one, and the bits which don't fill the last byte as the value of it
+                        let full_bytes = bit_size.saturating_sub(1) / 8;
+                        let last_bits = bit_size - 8 * full_bytes;
+
+                        let (unused, used) =
+                            input_bits.split_at(MAX_TYPE_BITS - 8 * bit_size.div_ceil(8));
+                        let (full, last) = used.split_at(8 * full_bytes);
+                        let (last_unused, last) = last.split_at(last.len() - last_bits);
+                        if unused.any() || last_unused.any() {
+                            return Err(deku_error!(
+                                DekuError::InvalidParam,
+                                "bit size of input is larger than requested size",
+                                "{} exceeds {}",
+                                MAX_TYPE_BITS - input_bits.leading_zeros(),
+                                bit_size
+                            ));
                         }
 
-                        if bit_size <= 8 {
-                            writer.write_bits_order(
-                                &input_bits[input_bits.len() - bit_size..],
-                                order,
-                            )?;
-                        } else {
-                            let mut remaining_bits = bit_size;
-                            for chunk in input_bits.chunks(8) {
-                                if chunk.len() > remaining_bits {
-                                    writer.write_bits_order(
-                                        &chunk[chunk.len() - remaining_bits..],
-                                        order,
-                                    )?;
-                                    break;
-                                } else {
-                                    writer.write_bits_order(&chunk, order)?;
-                                }
-                                remaining_bits -= chunk.len();
-                            }
+                        for chunk in full.chunks(8) {
+                            writer.write_bits_order(chunk, order)?;
                         }
+                        writer.write_bits_order(last, order)?;
                     }
                     (Endian::Big, Order::Msb0) => {
                         const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
-- 
2.43.0


From 8d95b2389c3ec8f5cb5ab2bed831b34fece8a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 11/38] fix: write signed integers with a bit order as they are
 read

With an explicit bit order every negative value was rejected, and values
were accepted which the reader turns into negative ones.
---
 src/impls/primitive.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 1b46398..a11fb86 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -794,6 +794,30 @@ macro_rules! ForwardDekuRead {
     };
 }
 
+/// Write a signed value as the unsigned one with the same `size` bits, which the reader sign extends
+#[cfg(feature = "bits")]
+macro_rules! WriteSignedAsUnsigned {
+    ($typ:ty, Unsigned, $value:expr, $writer:expr, $endian:expr, $size:expr, $order:expr) => {};
+    ($typ:ty, Signed, $value:expr, $writer:expr, $endian:expr, $size:expr, $order:expr) => {
+        const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
+        // Sizes which aren't in here are rejected below
+        if let 1..MAX_TYPE_BITS = $size.0 {
+            let shift = MAX_TYPE_BITS - $size.0;
+            if ($value << shift >> shift) != $value {
+                return Err(deku_error!(
+                    DekuError::InvalidParam,
+                    "bit size of input is larger than requested size",
+                    "{} exceeds {} bits",
+                    $value,
+                    $size.0
+                ));
+            }
+            let unsigned = $value.cast_unsigned() << shift >> shift;
+            return unsigned.to_writer($writer, ($endian, $size, $order));
+        }
+    };
+}
+
 macro_rules! ImplDekuWrite {
     ($typ:ty, $signed_type:ident) => {
         #[cfg(feature = "bits")]
@@ -804,6 +828,8 @@ macro_rules! ImplDekuWrite {
                 writer: &mut Writer<W>,
                 (endian, size, order): (Endian, BitSize, Order),
             ) -> Result<(), DekuError> {
+                WriteSignedAsUnsigned!($typ, $signed_type, *self, writer, endian, size, order);
+
                 let input = match endian {
                     Endian::Little => self.to_le_bytes(),
                     Endian::Big => self.to_be_bytes(),
-- 
2.43.0


From e5d4b234808f351fcc638a777bf7ddf026532696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 12/38] fix: support a size of zero bits for integers

With a size that is an expression the size can be zero, which underflowed
or overflowed when reading and violated the assumptions of the fast path
when writing.
---
 src/impls/primitive.rs | 34 +++++++++++++++++++++-------------
 src/writer.rs          |  5 +++++
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index a11fb86..6358719 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -89,7 +89,10 @@ impl DekuWriter<(Endian, BitSize, Order)> for u8 {
         // Fast path, ahead of the bit-slice view: for a `u8` the checks below are
         // "does it fit" and "are there bits above `bit_size`", both of which are
         // integer comparisons. `first_one` over a bit-slice is not.
-        if order == Order::Msb0 && writer.leftover.1 == Order::Msb0 && bit_size <= MAX_TYPE_BITS {
+        if order == Order::Msb0
+            && writer.leftover.1 == Order::Msb0
+            && (1..=MAX_TYPE_BITS).contains(&bit_size)
+        {
             if bit_size < MAX_TYPE_BITS && (*self >> bit_size) != 0 {
                 return Err(deku_error!(
                     DekuError::InvalidParam,
@@ -264,7 +267,7 @@ macro_rules! ImplDekuReadBits {
 
                         // Some padding to next byte
                         let index = if input_is_le {
-                            bits.len() - (8 - pad)
+                            bits.len().saturating_sub(8 - pad)
                         } else {
                             0
                         };
@@ -348,7 +351,7 @@ macro_rules! ImplDekuReadBits {
 
                     // Some padding to next byte
                     let index = if input_is_le {
-                        bits.len() - (8 - pad)
+                        bits.len().saturating_sub(8 - pad)
                     } else {
                         0
                     };
@@ -522,6 +525,17 @@ macro_rules! ImplDekuReadBytes {
     };
 }
 
+/// Extend the sign bit of the `bit_size` low bits of `value`
+#[cfg(feature = "bits")]
+macro_rules! sign_extend {
+    ($typ:ty, $value:expr, $bit_size:expr) => {{
+        let shift = <$typ>::BITS - $bit_size as u32;
+        // no bits: shifting by all of them would overflow
+        let value = ($value as $typ).checked_shl(shift).unwrap_or(0);
+        value.checked_shr(shift).unwrap_or(0)
+    }};
+}
+
 macro_rules! ImplDekuReadSignExtend {
     ($typ:ty, $inner:ty) => {
         // Ignore Order, send back
@@ -551,10 +565,8 @@ macro_rules! ImplDekuReadSignExtend {
                     (endian, size, order),
                 )?;
 
-                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
                 let bit_size = size.0;
-                let shift = MAX_TYPE_BITS - bit_size;
-                let value = (value as $typ) << shift >> shift;
+                let value = sign_extend!($typ, value, bit_size);
                 Ok((amt_read, value))
             }
         }
@@ -569,10 +581,8 @@ macro_rules! ImplDekuReadSignExtend {
                 let (amt_read, value) =
                     <$inner as DekuRead<'_, (Endian, ByteSize)>>::read(input, (endian, size))?;
 
-                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
                 let bit_size = size.0 * 8;
-                let shift = MAX_TYPE_BITS - bit_size;
-                let value = (value as $typ) << shift >> shift;
+                let value = sign_extend!($typ, value, bit_size);
                 Ok((amt_read, value))
             }
         }
@@ -587,10 +597,8 @@ macro_rules! ImplDekuReadSignExtend {
                 let (amt_read, value) =
                     <$inner as DekuRead<'_, (Endian, BitSize)>>::read(input, (endian, size))?;
 
-                const MAX_TYPE_BITS: usize = BitSize::of::<$typ>().0;
                 let bit_size = size.0;
-                let shift = MAX_TYPE_BITS - bit_size;
-                let value = (value as $typ) << shift >> shift;
+                let value = sign_extend!($typ, value, bit_size);
                 Ok((amt_read, value))
             }
         }
@@ -916,7 +924,7 @@ macro_rules! ImplDekuWrite {
                         // `MAX_TYPE_BITS - bit_size > first`, i.e. when
                         // `MAX_TYPE_BITS - first` (the significant bits) exceeds
                         // `bit_size`.
-                        if bit_size <= 64 && writer.leftover.1 == Order::Msb0 {
+                        if (1..=64).contains(&bit_size) && writer.leftover.1 == Order::Msb0 {
                             let significant = match input.iter().position(|b| *b != 0) {
                                 Some(i) => {
                                     (input.len() - i) * 8 - (input[i].leading_zeros() as usize)
diff --git a/src/writer.rs b/src/writer.rs
index 2515c7f..958f1dc 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -345,6 +345,11 @@ impl<W: Write + Seek> Writer<W> {
         bits: &BitSlice<u8, Msb0>,
         order: Order,
     ) -> Result<(), DekuError> {
+        // Nothing to write, and the order of the leftover must not change
+        if bits.is_empty() {
+            return Ok(());
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 0e561fb83aea88151f6c744a57064e2d7a16d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 13/38] fix: sign extend signed integers read with a size in
 bytes

They were zero extended, unlike those with a size in bits, so that
negative values did not survive writing and reading.
---
 src/impls/primitive.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 6358719..9b65327 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -526,7 +526,6 @@ macro_rules! ImplDekuReadBytes {
 }
 
 /// Extend the sign bit of the `bit_size` low bits of `value`
-#[cfg(feature = "bits")]
 macro_rules! sign_extend {
     ($typ:ty, $value:expr, $bit_size:expr) => {{
         let shift = <$typ>::BITS - $bit_size as u32;
@@ -682,7 +681,7 @@ macro_rules! ImplDekuReadSignExtend {
                         return Err(deku_error!(DekuError::Parse, "no bits read from reader"));
                     }
                 };
-                Ok(a)
+                Ok(sign_extend!($typ, a, 8 * size.0))
             }
         }
     };
-- 
2.43.0


From db42849d1cc8b1bf06fe229e3307789e9b8bf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 14/38] fix: bound the memory allocated for a count before
 reading the elements

A huge count in the input made reading a Vec, HashMap or HashSet panic
with a capacity overflow or allocate as much as the input asked for.
---
 src/impls/hashmap.rs |  6 ++++--
 src/impls/hashset.rs |  6 ++++--
 src/impls/mod.rs     | 10 ++++++++++
 src/impls/vec.rs     |  4 ++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index 9ebff2e..cc746ac 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -28,7 +28,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &(K, V)) -> bool,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::initial_capacity::<(K, V)>(capacity.unwrap_or(0));
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -53,7 +54,8 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashMap::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::initial_capacity::<(K, V)>(capacity.unwrap_or(0));
+    let mut res = HashMap::with_capacity_and_hasher(capacity, S::default());
 
     loop {
         if reader.end() {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index bd9ba58..1a04ea7 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -27,7 +27,8 @@ where
     Ctx: Copy,
     Predicate: FnMut(usize, &T) -> bool,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::initial_capacity::<T>(capacity.unwrap_or(0));
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     let mut found_predicate = false;
     let orig_bits_read = reader.bits_read;
@@ -51,7 +52,8 @@ where
     S: BuildHasher + Default,
     Ctx: Copy,
 {
-    let mut res = HashSet::with_capacity_and_hasher(capacity.unwrap_or(0), S::default());
+    let capacity = super::initial_capacity::<T>(capacity.unwrap_or(0));
+    let mut res = HashSet::with_capacity_and_hasher(capacity, S::default());
 
     loop {
         if reader.end() {
diff --git a/src/impls/mod.rs b/src/impls/mod.rs
index 6b9905a..d75c889 100644
--- a/src/impls/mod.rs
+++ b/src/impls/mod.rs
@@ -27,3 +27,13 @@ mod hashset;
 
 #[cfg(feature = "alloc")]
 mod boxed;
+
+/// Capacity to allocate for `count` values of `T` before any of them was read.
+///
+/// The count often comes from untrusted input, so no more than 64 KiB are allocated upfront
+/// for values that might not be there. The collection grows as they are read.
+#[cfg(feature = "alloc")]
+fn initial_capacity<T>(count: usize) -> usize {
+    const MAX_BYTES: usize = 64 * 1024;
+    core::cmp::min(count, MAX_BYTES / core::mem::size_of::<T>().max(1))
+}
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index aa231cf..e8f9d1e 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -69,7 +69,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::initial_capacity::<T>(capacity.unwrap_or(0)));
 
     let start_read = reader.bits_read;
 
@@ -101,7 +101,7 @@ where
         return Ok(Vec::new());
     }
 
-    let mut res = capacity.map_or_else(Vec::new, Vec::with_capacity);
+    let mut res = Vec::with_capacity(super::initial_capacity::<T>(capacity.unwrap_or(0)));
     loop {
         if reader.end() {
             break;
-- 
2.43.0


From 3b42d5fa57f957e83f9b0d5fed7b1f89c40799db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 15/38] fix: do not overflow when converting a byte limit to
 bits

A huge bytes_read panicked, or wrapped around to a small limit.
---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index cc746ac..f6bae3d 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -157,7 +157,7 @@ where
 
             // Read until a given quantity of byte bits have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashmap
                 if bit_size == 0 {
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index 1a04ea7..9080ccc 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -142,7 +142,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty hashset
                 if bit_size == 0 {
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index e8f9d1e..5c1c051 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -162,7 +162,7 @@ where
 
             // Read until a given quantity of bytes have been read
             Limit::ByteSize(size) => {
-                let bit_size = size.0 * 8;
+                let bit_size = size.0.saturating_mul(8);
 
                 // Handle the trivial case of reading an empty vector
                 if bit_size == 0 {
-- 
2.43.0


From 19a87eec933da4b95ab85eece3e56aa872061d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 16/38] fix: return InvalidParam for seek params which are out
 of range

Params which come from the input could panic the reader and the writer.
---
 deku-derive/src/macros/deku_read.rs  | 33 ++++++++++++++++++++--------
 deku-derive/src/macros/deku_write.rs | 33 ++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 5229fbb..f4ae38c 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -48,8 +48,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(seek_amt)) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -59,8 +61,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(seek_amt)) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -70,8 +74,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(seek_amt)) {
+                let __deku_seek = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -690,7 +696,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Current(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -700,7 +709,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::End(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -710,7 +722,10 @@ fn emit_field_read(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_reader.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let __deku_seek = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_reader.seek(SeekFrom::Start(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 21adeea..512b2fa 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,8 +38,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(seek_amt)) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -49,8 +51,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = i64::try_from(#num).expect("could not convert into i64");
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(seek_amt)) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -60,8 +64,10 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                let seek_amt = u64::try_from(#num).expect("could not convert into u64");
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(seek_amt)) {
+                let __deku_seek = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -658,7 +664,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Current(i64::try_from(#num).unwrap())) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Current(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -668,7 +677,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::End(i64::try_from(#num).unwrap())) {
+                let __deku_seek = i64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::End(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
@@ -678,7 +690,10 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
-                if let Err(e) = __deku_writer.seek(SeekFrom::Start(u64::try_from(#num).unwrap())) {
+                let __deku_seek = u64::try_from(#num).map_err(|_|
+                    ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
+                )?;
+                if let Err(e) = __deku_writer.seek(SeekFrom::Start(__deku_seek)) {
                     return Err(::#crate_::DekuError::Io(e.kind()));
                 }
             }
-- 
2.43.0


From 86643dce8dad9825ceecc7418675d5eec218d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 17/38] fix: do not underflow when an element seeks to before
 its collection

The amount of bits read since the start of the collection was computed
with a subtraction which panicked then, even if only a count limits it.
---
 src/impls/hashmap.rs | 2 +-
 src/impls/hashset.rs | 2 +-
 src/impls/vec.rs     | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/impls/hashmap.rs b/src/impls/hashmap.rs
index f6bae3d..74da909 100644
--- a/src/impls/hashmap.rs
+++ b/src/impls/hashmap.rs
@@ -36,7 +36,7 @@ where
 
     while !found_predicate {
         let val = <(K, V)>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.wrapping_sub(orig_bits_read), &val);
         res.insert(val.0, val.1);
     }
 
diff --git a/src/impls/hashset.rs b/src/impls/hashset.rs
index 9080ccc..ef1ac17 100644
--- a/src/impls/hashset.rs
+++ b/src/impls/hashset.rs
@@ -35,7 +35,7 @@ where
 
     while !found_predicate {
         let val = <T>::from_reader_with_ctx(reader, ctx)?;
-        found_predicate = predicate(reader.bits_read - orig_bits_read, &val);
+        found_predicate = predicate(reader.bits_read.wrapping_sub(orig_bits_read), &val);
         res.insert(val);
     }
 
diff --git a/src/impls/vec.rs b/src/impls/vec.rs
index 5c1c051..b5adada 100644
--- a/src/impls/vec.rs
+++ b/src/impls/vec.rs
@@ -79,7 +79,10 @@ where
 
         // This unwrap is safe as we are pushing to the vec immediately before it,
         // so there will always be a last element
-        if predicate(reader.bits_read - start_read, res.last().unwrap()) {
+        if predicate(
+            reader.bits_read.wrapping_sub(start_read),
+            res.last().unwrap(),
+        ) {
             break;
         }
     }
-- 
2.43.0


From 2523e0177344b0e302379ea7ec0692456fa77b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 18/38] fix: write the id stored by id_pat with the endian it
 is read with

---
 deku-derive/src/macros/deku_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 512b2fa..ff1c7b5 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -627,7 +627,7 @@ fn emit_field_write(
         // TODO: This should error on some attributes that don't make sense aren't used?
         // Such as magic, seek*
         let crate_ = super::get_crate_name();
-        let field_endian = input.id_endian.as_ref();
+        let field_endian = input.id_endian.as_ref().or(input.endian.as_ref());
         #[cfg(feature = "bits")]
         let field_bits = input.bits.as_ref();
         #[cfg(not(feature = "bits"))]
-- 
2.43.0


From 212b32d60b00dc8189210cddda7b3d8f65f8213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 19/38] fix: do not treat the first field as id storage when id
 is not read

---
 deku-derive/src/macros/deku_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index ff1c7b5..b345f37 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -333,7 +333,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let field_writes = emit_field_writes(
                 input,
                 &variant.fields.as_ref(),
-                variant.id_pat.is_some(),
+                // the first field stores the id, unless the id is given by `id`
+                variant.id_pat.is_some() && id.is_none(),
                 None,
                 &ident,
             )?;
-- 
2.43.0


From a52d82af459e3cb89f8e9e08fc55f681272969b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 20/38] fix: do not panic when reading zero bits of a big
 endian integer

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bda1b5c..c546631 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -978,7 +978,7 @@ where
 
     fn insert(&mut self, index: usize, value: bool) {
         assert!(self.size < self.bits.len());
-        assert!(index < self.size);
+        assert!(index <= self.size);
         let (_left, right) = self.bits.split_at_mut(index);
         right.shift_end(1);
         right.set(0, value);
-- 
2.43.0


From 5a1f8114d081b76f2f4dfdab8cac1a9ae8b72dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 21/38] fix: read a u8 with a bit size of other than 8 bits as
 that many bits

A size given without an endian which was a multiple of 8 was taken for a size in
bytes, which a u8 ignores: 0 bits were read as 8 (and written as none), and 16
bits as 8 instead of being refused.
---
 src/impls/primitive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index 9b65327..b799e6c 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -753,7 +753,8 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                // A `u8` ignores the byte size, so leave sizes which don't fit to the bit size
+                if (bit_size.0 % 8) == 0 && (1..=BitSize::of::<$typ>().0).contains(&bit_size.0) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8)))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size))
@@ -771,7 +772,8 @@ macro_rules! ForwardDekuRead {
             ) -> Result<$typ, DekuError> {
                 let endian = Endian::default();
 
-                if (bit_size.0 % 8) == 0 {
+                // A `u8` ignores the byte size, so leave sizes which don't fit to the bit size
+                if (bit_size.0 % 8) == 0 && (1..=BitSize::of::<$typ>().0).contains(&bit_size.0) {
                     <$typ>::from_reader_with_ctx(reader, (endian, ByteSize(bit_size.0 / 8), order))
                 } else {
                     <$typ>::from_reader_with_ctx(reader, (endian, bit_size, order))
-- 
2.43.0


From 4892494775c4a98dc16e4ce49e49a4cce8fb506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 22/38] fix: write bits after whole least significant first
 bytes in order

The bit order of the bits before was taken into account although none of them
were left, so most significant first bits of more than one byte were written
starting with their last byte.
---
 src/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 958f1dc..cb73d5e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -350,6 +350,11 @@ impl<W: Write + Seek> Writer<W> {
             return Ok(());
         }
 
+        // Without leftover there is no other order to continue
+        if self.leftover.0.is_empty() {
+            self.leftover.1 = order;
+        }
+
         match self.leftover.1 {
             Order::Msb0 => match order {
                 Order::Msb0 => self.write_bits_order_msb_msb(bits, order),
-- 
2.43.0


From 2cd092fc3e05444fd1df057dfb66e5698793b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 23/38] fix: refuse -1 in a signed field of zero bits

It was written as nothing, and read as 0.
---
 src/impls/primitive.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/impls/primitive.rs b/src/impls/primitive.rs
index b799e6c..01e3aa9 100644
--- a/src/impls/primitive.rs
+++ b/src/impls/primitive.rs
@@ -1137,6 +1137,16 @@ macro_rules! ImplDekuWriteDetails {
                     ));
                 }
 
+                // The checks below only leave -1, which can't be read from no bits
+                if bit_size == 0 && *self != 0 {
+                    return Err(deku_error!(
+                        DekuError::InvalidParam,
+                        "bit size of input is larger than bit requested size",
+                        "{} exceeds 0 bits",
+                        self
+                    ));
+                }
+
                 if matches!(endian, Endian::Little) {
                     // Check if this is a value that will fit inside the required bits, if
                     // not, throw an error
-- 
2.43.0


From 65e15b047e19e766e24b8b6f629d30376f7134e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 24/38] fix: do not panic when reading a const number of zero
 bytes after end()

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index c564299..d0e9ed6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -722,6 +722,10 @@ impl<R: Read + Seek> Reader<R> {
         buf: &mut [u8; N],
         byte: u8,
     ) -> Result<(), DekuError> {
+        if N == 0 {
+            return Ok(());
+        }
+
         buf[0] = byte;
 
         #[cfg(feature = "logging")]
-- 
2.43.0


From cd5c97a38198fea2e329cfae5e9835f02cc5178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 25/38] fix: implement DekuContainerWrite for enums without
 alloc

---
 deku-derive/src/macros/deku_write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index b345f37..a18f952 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -394,7 +394,9 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     }
                 }
             };
+        });
 
+        tokens.extend(quote! {
             #[automatically_derived]
             impl #imp ::#crate_::DekuContainerWrite for #ident #wher {}
         });
-- 
2.43.0


From 373062270e67cccca62e750cedbffbf03807b64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 26/38] fix: name the crate by its resolved name in derived
 readers

---
 deku-derive/src/macros/deku_read.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index f4ae38c..355097f 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -121,7 +121,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -134,8 +134,8 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_bytes_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_cursor = ::#crate_::no_std_io::Cursor::new(__deku_input.0);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -148,7 +148,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
@@ -410,7 +410,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_reader_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let __deku_reader = &mut deku::reader::Reader::new(__deku_input.0);
+            let __deku_reader = &mut ::#crate_::reader::Reader::new(__deku_input.0);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -423,8 +423,8 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let from_bytes_body = quote! {
             use core::convert::TryFrom;
             use ::#crate_::DekuReader as _;
-            let mut __deku_cursor = #crate_::no_std_io::Cursor::new(__deku_input.0);
-            let mut __deku_reader = &mut deku::reader::Reader::new(&mut __deku_cursor);
+            let mut __deku_cursor = ::#crate_::no_std_io::Cursor::new(__deku_input.0);
+            let mut __deku_reader = &mut ::#crate_::reader::Reader::new(&mut __deku_cursor);
             if __deku_input.1 != 0 {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
@@ -437,7 +437,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 (__deku_reader.bits_read - (__deku_reader.bits_read % 8)) / 8
             };
             let Some(rest) = __deku_input.0.get(idx..) else {
-                return Err(deku::DekuError::Incomplete(deku::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
+                return Err(::#crate_::DekuError::Incomplete(::#crate_::prelude::NeedSize::new(8 * (idx - __deku_input.0.len()))));
             };
             Ok(((rest, __deku_reader.bits_read % 8), __deku_value))
         };
-- 
2.43.0


From d00087342f84558a66b6e1dd8a35c9d005e890be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 27/38] fix: derive DekuRead for types with a lifetime

---
 deku-derive/src/macros/deku_read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 355097f..1709b16 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1054,7 +1054,7 @@ pub fn emit_container_read(
         impl #imp ::#crate_::DekuContainerRead<#lifetime> for #ident #wher {
             #[allow(non_snake_case)]
             #[inline]
-            fn from_reader<'a, R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'a mut R, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
+            fn from_reader<'__deku_a, R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'__deku_a mut R, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
                 #from_reader_body
             }
 
@@ -1084,7 +1084,9 @@ pub fn emit_try_from(
             fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, Self::Error> {
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
-                let (bits_read, res) = <Self as ::#crate_::DekuContainerRead>::from_reader((&mut cursor, 0))?;
+                let reader = &mut ::#crate_::reader::Reader::new(&mut cursor);
+                let res = <Self as ::#crate_::DekuReader<#lifetime, ()>>::from_reader_with_ctx(reader, ())?;
+                let bits_read = reader.bits_read;
                 let bytes_read = bits_read / 8;
                 if bytes_read < total_len {
                     return Err(::#crate_::deku_error!(::#crate_::DekuError::Parse, "Too much data", "Read {} but total length was {}", {bits_read / 8}, total_len));
-- 
2.43.0


From 032761e7a142ad0250306a10b8f73f791118abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 28/38] fix: keep derived methods' type parameters apart from
 the type's own

---
 deku-derive/src/macros/deku_read.rs  | 10 +++++-----
 deku-derive/src/macros/deku_write.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 1709b16..cb59153 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -184,7 +184,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -197,7 +197,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -471,7 +471,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         #[automatically_derived]
         impl #imp ::#crate_::DekuReader<#lifetime, #ctx_types> for #ident #wher {
             #[inline]
-            fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
+            fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, #ctx_arg) -> core::result::Result<Self, ::#crate_::DekuError> {
                 #read_body
             }
         }
@@ -485,7 +485,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             #[automatically_derived]
             impl #imp ::#crate_::DekuReader<#lifetime> for #ident #wher {
                 #[inline]
-                fn from_reader_with_ctx<R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<R>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
+                fn from_reader_with_ctx<__DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_reader: &mut ::#crate_::reader::Reader<__DekuR>, _: ()) -> core::result::Result<Self, ::#crate_::DekuError> {
                     #read_body
                 }
             }
@@ -1054,7 +1054,7 @@ pub fn emit_container_read(
         impl #imp ::#crate_::DekuContainerRead<#lifetime> for #ident #wher {
             #[allow(non_snake_case)]
             #[inline]
-            fn from_reader<'__deku_a, R: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'__deku_a mut R, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
+            fn from_reader<'__deku_a, __DekuR: ::#crate_::no_std_io::Read + ::#crate_::no_std_io::Seek>(__deku_input: (&'__deku_a mut __DekuR, usize)) -> core::result::Result<(usize, Self), ::#crate_::DekuError> {
                 #from_reader_body
             }
 
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index a18f952..c8ecb60 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -176,7 +176,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -190,7 +190,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
@@ -436,7 +436,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         impl #imp ::#crate_::DekuWriter<#ctx_types> for #ident #wher {
             #[allow(unused_variables)]
             #[inline]
-            fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
+            fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, #ctx_arg) -> core::result::Result<(), ::#crate_::DekuError> {
                 #write_body
             }
         }
@@ -450,7 +450,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             impl #imp ::#crate_::DekuWriter for #ident #wher {
                 #[allow(unused_variables)]
                 #[inline]
-                fn to_writer<W: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<W>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
+                fn to_writer<__DekuW: ::#crate_::no_std_io::Write + ::#crate_::no_std_io::Seek>(&self, __deku_writer: &mut ::#crate_::writer::Writer<__DekuW>, _: ()) -> core::result::Result<(), ::#crate_::DekuError> {
                     #write_body
                 }
             }
-- 
2.43.0


From bfee7fb83e6ea62d636af5ee2329f2439bddd684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 29/38] fix: do not count skipped fields in DekuSize

---
 deku-derive/src/macros/deku_size.rs | 37 +++++++++++++++++------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index e731c2c..421269d 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -19,6 +19,11 @@ pub(crate) fn emit_deku_size(input: &DekuData) -> Result<TokenStream, syn::Error
     }
 }
 
+/// Check if the field is neither read nor written (its magic and padding still are)
+fn is_always_skipped(field: &FieldData) -> bool {
+    matches!(field.skip, Some(crate::SkipMode::All)) && field.cond.is_none()
+}
+
 /// Calculate the size of a collection of fields
 fn calculate_fields_size<'a>(
     fields: impl IntoIterator<Item = &'a FieldData>,
@@ -58,21 +63,23 @@ fn calculate_fields_size<'a>(
             }
         }
 
-        let field_type = &f.ty;
-        #[cfg(feature = "bits")]
-        if let Some(bits) = &f.bits {
-            components.push(quote! { (#bits) });
-        } else if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
-        } else {
-            components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
-        }
+        if !is_always_skipped(f) {
+            let field_type = &f.ty;
+            #[cfg(feature = "bits")]
+            if let Some(bits) = &f.bits {
+                components.push(quote! { (#bits) });
+            } else if let Some(bytes) = &f.bytes {
+                components.push(quote! { (#bytes) * 8 });
+            } else {
+                components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
+            }
 
-        #[cfg(not(feature = "bits"))]
-        if let Some(bytes) = &f.bytes {
-            components.push(quote! { (#bytes) * 8 });
-        } else {
-            components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
+            #[cfg(not(feature = "bits"))]
+            if let Some(bytes) = &f.bytes {
+                components.push(quote! { (#bytes) * 8 });
+            } else {
+                components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
+            }
         }
 
         #[cfg(feature = "bits")]
@@ -159,7 +166,7 @@ fn add_field_bounds<'a>(
             continue;
         }
 
-        if !field.temp {
+        if !field.temp && !is_always_skipped(field) {
             let field_type = &field.ty;
             #[cfg(feature = "bits")]
             let needs_bound = field.bits.is_none() && field.bytes.is_none();
-- 
2.43.0


From 524c70ebc97c9dc1ccedc7905dfe635aaddaffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 30/38] fix: derive for enums with a variant named Error

---
 deku-derive/src/macros/deku_read.rs  | 2 +-
 deku-derive/src/macros/deku_write.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index cb59153..85632d5 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -1081,7 +1081,7 @@ pub fn emit_try_from(
             type Error = ::#crate_::DekuError;
 
             #[inline]
-            fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, Self::Error> {
+            fn try_from(input: &#lifetime [u8]) -> core::result::Result<Self, ::#crate_::DekuError> {
                 let total_len = input.len();
                 let mut cursor = ::#crate_::no_std_io::Cursor::new(input);
                 let reader = &mut ::#crate_::reader::Reader::new(&mut cursor);
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index c8ecb60..7a0f1ce 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -112,7 +112,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 type Error = ::#crate_::DekuError;
 
                 #[inline]
-                fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                     use ::#crate_::DekuContainerWrite as _;
                     input.to_bits()
                 }
@@ -130,7 +130,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     type Error = ::#crate_::DekuError;
 
                     #[inline]
-                    fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                    fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                         ::#crate_::DekuContainerWrite::to_bytes(&input)
                     }
                 }
@@ -371,7 +371,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 type Error = ::#crate_::DekuError;
 
                 #[inline]
-                fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                     use ::#crate_::DekuContainerWrite as _;
                     input.to_bits()
                 }
@@ -389,7 +389,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     type Error = ::#crate_::DekuError;
 
                     #[inline]
-                    fn try_from(input: #ident) -> core::result::Result<Self, Self::Error> {
+                    fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
                         ::#crate_::DekuContainerWrite::to_bytes(&input)
                     }
                 }
-- 
2.43.0


From a09726b36dc64eb7e8d6692d4fd604e1add17956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 31/38] fix: do not hide types named Borrow in derived readers

---
 deku-derive/src/macros/deku_read.rs | 10 +++++-----
 deku-derive/src/macros/mod.rs       |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 85632d5..64d5ffc 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -864,7 +864,7 @@ fn emit_field_read(
             if is_vec_u8 {
                 quote! {
                     {
-                        use core::borrow::Borrow;
+                        use core::borrow::Borrow as _;
                         #type_as_deku_read::from_reader_with_ctx
                         (
                             __deku_reader,
@@ -875,7 +875,7 @@ fn emit_field_read(
             } else {
                 quote! {
                     {
-                        use core::borrow::Borrow;
+                        use core::borrow::Borrow as _;
                         #type_as_deku_read::from_reader_with_ctx
                         (
                             __deku_reader,
@@ -887,7 +887,7 @@ fn emit_field_read(
         } else if let Some(field_bytes) = &f.bytes_read {
             quote! {
                 {
-                    use core::borrow::Borrow;
+                    use core::borrow::Borrow as _;
                     #type_as_deku_read::from_reader_with_ctx
                     (
                         __deku_reader,
@@ -908,7 +908,7 @@ fn emit_field_read(
         } else if f.read_all {
             quote! {
                 {
-                    use core::borrow::Borrow;
+                    use core::borrow::Borrow as _;
                     #type_as_deku_read::from_reader_with_ctx
                     (
                         __deku_reader,
@@ -923,7 +923,7 @@ fn emit_field_read(
             if let Some(field_bits) = &f.bits_read {
                 ret.extend(quote! {
                     {
-                        use core::borrow::Borrow;
+                        use core::borrow::Borrow as _;
                         #type_as_deku_read::from_reader_with_ctx
                         (
                             __deku_reader,
diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 57b9c55..2151113 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -389,7 +389,7 @@ fn pad_bits(
     let bytes_to_bits = |pad_bytes: &TokenStream| {
         quote! {
             {
-                use core::borrow::Borrow;
+                use core::borrow::Borrow as _;
                 usize::try_from(*((#pad_bytes).borrow())).ok().and_then(|n: usize| n.checked_mul(8))
             }
         }
-- 
2.43.0


From ccfe5a995c0bb80688ba28a66d22313aa406bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 32/38] fix: accept raw identifiers as the id of an enum

---
 deku-derive/src/macros/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deku-derive/src/macros/mod.rs b/deku-derive/src/macros/mod.rs
index 2151113..155c9f2 100644
--- a/deku-derive/src/macros/mod.rs
+++ b/deku-derive/src/macros/mod.rs
@@ -213,13 +213,11 @@ fn gen_type_from_ctx_id(
     };
     let mut matching_types = quote! {};
     for s in s {
-        let id = syn::Ident::new(&s.to_string(), id.span());
-
         let types = ctx.iter().find_map(|arg| {
             let mut t = None;
             if let syn::FnArg::Typed(pat_type) = arg {
                 if let syn::Pat::Ident(ident) = &*pat_type.pat {
-                    if id == ident.ident {
+                    if s == ident.ident {
                         let mut pat_type = pat_type.clone();
                         if let syn::Type::Reference(r) = pat_type.ty.as_mut() {
                             r.lifetime = Some(Lifetime::new("'__deku", Span::call_site()));
-- 
2.43.0


From ca7d75eaaee3f5f37d296a321ea808e3cc99befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 33/38] fix: derive writers with seeks in the 2018 edition

---
 deku-derive/src/macros/deku_write.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index 7a0f1ce..f438077 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -38,6 +38,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = i64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
                 )?;
@@ -51,6 +52,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = i64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
                 )?;
@@ -64,6 +66,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = u64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
                 )?;
@@ -667,6 +670,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = i64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
                 )?;
@@ -680,6 +684,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = i64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to i64", "{}", stringify!(#num))
                 )?;
@@ -693,6 +698,7 @@ fn emit_field_write(
             {
                 use ::#crate_::no_std_io::Seek;
                 use ::#crate_::no_std_io::SeekFrom;
+                use core::convert::TryFrom;
                 let __deku_seek = u64::try_from(#num).map_err(|_|
                     ::#crate_::deku_error!(::#crate_::DekuError::InvalidParam, "Invalid seek param, cannot convert to u64", "{}", stringify!(#num))
                 )?;
-- 
2.43.0


From 4fa5037e393aa044cd3d0aadb5a182fdd197b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 34/38] fix: call trait methods by path in derived code

---
 deku-derive/src/macros/deku_read.rs  | 10 +++++-----
 deku-derive/src/macros/deku_write.rs | 16 +++++++---------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 64d5ffc..718b489 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -126,7 +126,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
 
-            let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
+            let __deku_value = <Self as ::#crate_::DekuReader<'_, ()>>::from_reader_with_ctx(__deku_reader, ())?;
 
             Ok((__deku_reader.bits_read, __deku_value))
         };
@@ -140,7 +140,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
 
-            let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
+            let __deku_value = <Self as ::#crate_::DekuReader<'_, ()>>::from_reader_with_ctx(__deku_reader, ())?;
             let read_whole_byte = (__deku_reader.bits_read % 8) == 0;
             let idx = if read_whole_byte {
                 __deku_reader.bits_read / 8
@@ -388,7 +388,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         }
     } else if id_type.is_some() {
         quote! {
-            let __deku_variant_id = <#id_type>::from_reader_with_ctx(__deku_reader,  (#id_args))?;
+            let __deku_variant_id = <#id_type as ::#crate_::DekuReader<'_, _>>::from_reader_with_ctx(__deku_reader, (#id_args))?;
         }
     } else {
         // either `id` or `id_type` needs to be specified
@@ -415,7 +415,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
 
-            let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
+            let __deku_value = <Self as ::#crate_::DekuReader<'_, ()>>::from_reader_with_ctx(__deku_reader, ())?;
 
             Ok((__deku_reader.bits_read, __deku_value))
         };
@@ -429,7 +429,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 __deku_reader.skip_bits(__deku_input.1, ::#crate_::ctx::Order::default())?;
             }
 
-            let __deku_value = Self::from_reader_with_ctx(__deku_reader, ())?;
+            let __deku_value = <Self as ::#crate_::DekuReader<'_, ()>>::from_reader_with_ctx(__deku_reader, ())?;
             let read_whole_byte = (__deku_reader.bits_read % 8) == 0;
             let idx = if read_whole_byte {
                 __deku_reader.bits_read / 8
diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index f438077..b8cfe81 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -116,8 +116,7 @@ fn emit_struct(input: &DekuData) -> Result<TokenStream, syn::Error> {
 
                 #[inline]
                 fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
-                    use ::#crate_::DekuContainerWrite as _;
-                    input.to_bits()
+                    ::#crate_::DekuContainerWrite::to_bits(&input)
                 }
             }
         });
@@ -257,25 +256,25 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                     Id::TokenStream(v) => {
                         quote! {
                             let mut __deku_variant_id: #id_type = #v;
-                            __deku_variant_id.to_writer(__deku_writer, (#id_args))?;
+                            ::#crate_::DekuWriter::to_writer(&__deku_variant_id, __deku_writer, (#id_args))?;
                         }
                     }
                     Id::Int(v) => {
                         quote! {
                             let mut __deku_variant_id: #id_type = #v;
-                            __deku_variant_id.to_writer(__deku_writer, (#id_args))?;
+                            ::#crate_::DekuWriter::to_writer(&__deku_variant_id, __deku_writer, (#id_args))?;
                         }
                     }
                     Id::Bool(v) => {
                         quote! {
                             let mut __deku_variant_id: #id_type = #v;
-                            __deku_variant_id.to_writer(__deku_writer, (#id_args))?;
+                            ::#crate_::DekuWriter::to_writer(&__deku_variant_id, __deku_writer, (#id_args))?;
                         }
                     }
                     Id::LitByteStr(v) => {
                         quote! {
                             let mut __deku_variant_id: #id_type = *#v;
-                            __deku_variant_id.to_writer(__deku_writer, (#id_args))?;
+                            ::#crate_::DekuWriter::to_writer(&__deku_variant_id, __deku_writer, (#id_args))?;
                         }
                     }
                 }
@@ -311,7 +310,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
                 quote! {
                     // https://doc.rust-lang.org/reference/items/enumerations.html#r-items.enum.discriminant.access-memory
                     let mut __deku_variant_id: #id_type = unsafe { *(&Self::#variant_ident as *const Self as *const #id_type) };
-                    __deku_variant_id.to_writer(__deku_writer, (#id_args))?;
+                    ::#crate_::DekuWriter::to_writer(&__deku_variant_id, __deku_writer, (#id_args))?;
                 }
             } else {
                 return Err(syn::Error::new(
@@ -375,8 +374,7 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
 
                 #[inline]
                 fn try_from(input: #ident) -> core::result::Result<Self, ::#crate_::DekuError> {
-                    use ::#crate_::DekuContainerWrite as _;
-                    input.to_bits()
+                    ::#crate_::DekuContainerWrite::to_bits(&input)
                 }
             }
         });
-- 
2.43.0


From bb73c19c7644d11366e27c765c0747942b61bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 35/38] fix: use the value read by the reader of a variant

---
 deku-derive/src/macros/deku_read.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/deku-derive/src/macros/deku_read.rs b/deku-derive/src/macros/deku_read.rs
index 718b489..a165d00 100644
--- a/deku-derive/src/macros/deku_read.rs
+++ b/deku-derive/src/macros/deku_read.rs
@@ -310,8 +310,20 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
         let variant_reader = &variant.reader;
         let variant_has_default = variant.default.unwrap_or(false);
 
+        if let Some(variant_id) = &variant.id {
+            let deref = match variant_id {
+                Id::TokenStream(_) => quote! {},
+                Id::Int(_) => quote! {},
+                Id::Bool(_) => quote! {},
+                Id::LitByteStr(_) => quote! {*},
+            };
+
+            let deku_id = quote! { Self :: #variant_ident { .. } => Ok(#deref #variant_id)};
+            deku_ids.push(deku_id);
+        }
+
         let variant_read_func = if variant_reader.is_some() {
-            quote! { #variant_reader; }
+            quote! { #variant_reader? }
         } else {
             let (field_idents, field_reads) =
                 emit_field_reads(input, &variant.fields.as_ref(), &ident, pad_id)?;
@@ -325,18 +337,6 @@ fn emit_enum(input: &DekuData) -> Result<TokenStream, syn::Error> {
             let initialize_enum =
                 super::gen_enum_init(variant_is_named, variant_ident, internal_fields);
 
-            if let Some(variant_id) = &variant.id {
-                let deref = match variant_id {
-                    Id::TokenStream(_) => quote! {},
-                    Id::Int(_) => quote! {},
-                    Id::Bool(_) => quote! {},
-                    Id::LitByteStr(_) => quote! {*},
-                };
-
-                let deku_id = quote! { Self :: #initialize_enum => Ok(#deref #variant_id)};
-                deku_ids.push(deku_id);
-            }
-
             quote! {
                 {
                     #(#field_reads)*
-- 
2.43.0


From cb11664a58e96a1ed65c5e149fc2ed8e4c3e8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 36/38] fix: count the bits of every element in the size of
 arrays and tuples

---
 deku-derive/src/macros/deku_size.rs | 34 ++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/deku-derive/src/macros/deku_size.rs b/deku-derive/src/macros/deku_size.rs
index 421269d..3063985 100644
--- a/deku-derive/src/macros/deku_size.rs
+++ b/deku-derive/src/macros/deku_size.rs
@@ -24,6 +24,25 @@ fn is_always_skipped(field: &FieldData) -> bool {
     matches!(field.skip, Some(crate::SkipMode::All)) && field.cond.is_none()
 }
 
+/// Number of values a size declared for a field applies to: it is passed on to every element of
+/// arrays and tuples
+fn calculate_element_count(ty: &syn::Type) -> TokenStream {
+    match ty {
+        syn::Type::Array(array) => {
+            let len = &array.len;
+            let count = calculate_element_count(&array.elem);
+            quote! { ((#len) * #count) }
+        }
+        syn::Type::Tuple(tuple) => {
+            let counts = tuple.elems.iter().map(calculate_element_count);
+            quote! { (0 #(+ #counts)*) }
+        }
+        syn::Type::Group(group) => calculate_element_count(&group.elem),
+        syn::Type::Paren(paren) => calculate_element_count(&paren.elem),
+        _ => quote! { 1 },
+    }
+}
+
 /// Calculate the size of a collection of fields
 fn calculate_fields_size<'a>(
     fields: impl IntoIterator<Item = &'a FieldData>,
@@ -65,18 +84,19 @@ fn calculate_fields_size<'a>(
 
         if !is_always_skipped(f) {
             let field_type = &f.ty;
+            let count = calculate_element_count(field_type);
             #[cfg(feature = "bits")]
             if let Some(bits) = &f.bits {
-                components.push(quote! { (#bits) });
+                components.push(quote! { (#bits) * #count });
             } else if let Some(bytes) = &f.bytes {
-                components.push(quote! { (#bytes) * 8 });
+                components.push(quote! { (#bytes) * 8 * #count });
             } else {
                 components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
             }
 
             #[cfg(not(feature = "bits"))]
             if let Some(bytes) = &f.bytes {
-                components.push(quote! { (#bytes) * 8 });
+                components.push(quote! { (#bytes) * 8 * #count });
             } else {
                 components.push(quote! { <#field_type as ::#crate_::DekuSize>::SIZE_BITS });
             }
@@ -190,13 +210,17 @@ fn calculate_discriminant_size(
     id_type: Option<&TokenStream>,
     crate_: &syn::Ident,
 ) -> TokenStream {
+    let count = id_type
+        .and_then(|id_type| syn::parse2(id_type.clone()).ok())
+        .map_or_else(|| quote! { 1 }, |ty| calculate_element_count(&ty));
+
     #[cfg(feature = "bits")]
     if let Some(bits) = &input.bits {
-        return quote! { (#bits) };
+        return quote! { (#bits) * #count };
     }
 
     if let Some(bytes) = &input.bytes {
-        return quote! { (#bytes) * 8 };
+        return quote! { (#bytes) * 8 * #count };
     }
 
     if id.is_some() {
-- 
2.43.0


From b56e0d9d3dba7473b771c63220346f756861ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:16 +0000
Subject: [PATCH 37/38] fix: count the bits of a started byte in
 deku::bit_offset while writing

While writing, `deku::bit_offset` only counted complete bytes, so it differed from
what the same field saw while it was read: an assertion on it failed and a context
derived from it changed the layout.
---
 deku-derive/src/macros/deku_write.rs |  2 +-
 src/writer.rs                        | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index b8cfe81..f0a9f94 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -542,7 +542,7 @@ fn emit_bit_byte_offsets(
         || byte_offset.is_some()
     {
         Some(quote! {
-            let __deku_bit_offset = __deku_writer.bits_written;
+            let __deku_bit_offset = __deku_writer.bit_offset();
         })
     } else {
         None
diff --git a/src/writer.rs b/src/writer.rs
index cb73d5e..b9eb6fe 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -61,6 +61,16 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
+    /// Bits written, including those of a byte which isn't complete yet. Used for `deku::bit_offset`.
+    #[doc(hidden)]
+    #[inline]
+    pub fn bit_offset(&self) -> usize {
+        #[cfg(feature = "bits")]
+        return self.bits_written + self.leftover.0.len();
+        #[cfg(not(feature = "bits"))]
+        return self.bits_written;
+    }
+
     /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
     /// first. The integer mirror of `Reader::read_bits_uint_msb0`.
     ///
-- 
2.43.0


From 27628a60f201e1ff88b19a2763612ed92653e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 38/38] fix: count from the position of a seek in
 deku::bit_offset and byte_offset while writing

A read counts from the position a seek went to. A write kept counting what it wrote, so
a field after a seek saw another offset than when it was read.
---
 deku-derive/src/macros/deku_write.rs |  2 +-
 src/writer.rs                        | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/deku-derive/src/macros/deku_write.rs b/deku-derive/src/macros/deku_write.rs
index f0a9f94..05848fa 100644
--- a/deku-derive/src/macros/deku_write.rs
+++ b/deku-derive/src/macros/deku_write.rs
@@ -530,7 +530,7 @@ fn emit_bit_byte_offsets(
         .any(|v| token_contains_string(v, "__deku_byte_offset"))
     {
         Some(quote! {
-            let __deku_byte_offset = __deku_writer.bits_written / 8;
+            let __deku_byte_offset = __deku_writer.bit_offset() / 8;
         })
     } else {
         None
diff --git a/src/writer.rs b/src/writer.rs
index b9eb6fe..4ac3ef1 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -24,6 +24,8 @@ pub struct Writer<W: Write + Seek> {
     pub leftover: (BoundedBitVec<[u8; 1], Msb0>, Order),
     /// Total bits written
     pub bits_written: usize,
+    /// `bits_written` and the position in bits as of the last seek
+    seeked: (usize, usize),
 }
 
 impl<W: Write + Seek> Seek for Writer<W> {
@@ -38,7 +40,12 @@ impl<W: Write + Seek> Seek for Writer<W> {
             self.leftover.1 = Order::Msb0;
         }
 
-        self.inner.seek(pos)
+        let new_pos = self.inner.seek(pos)?;
+        let new_bits = usize::try_from(new_pos)
+            .unwrap_or(usize::MAX)
+            .saturating_mul(8);
+        self.seeked = (self.bits_written, new_bits);
+        Ok(new_pos)
     }
 }
 
@@ -51,6 +58,7 @@ impl<W: Write + Seek> Writer<W> {
             #[cfg(feature = "bits")]
             leftover: (BoundedBitVec::new(), Order::Msb0),
             bits_written: 0,
+            seeked: (0, 0),
         }
     }
 
@@ -61,14 +69,19 @@ impl<W: Write + Seek> Writer<W> {
         self.leftover.0.as_bitslice().iter().by_vals().collect()
     }
 
-    /// Bits written, including those of a byte which isn't complete yet. Used for `deku::bit_offset`.
+    /// Where the next bit goes, in the middle of a byte and after a seek too, like
+    /// [Reader::bits_read](crate::reader::Reader::bits_read). Used for `deku::bit_offset`.
     #[doc(hidden)]
     #[inline]
     pub fn bit_offset(&self) -> usize {
+        let (written, position) = self.seeked;
+        let offset = self
+            .bits_written
+            .wrapping_sub(written)
+            .wrapping_add(position);
         #[cfg(feature = "bits")]
-        return self.bits_written + self.leftover.0.len();
-        #[cfg(not(feature = "bits"))]
-        return self.bits_written;
+        let offset = offset.wrapping_add(self.leftover.0.len());
+        offset
     }
 
     /// Writes the low `amt` bits (`1..=64`) of `value`, most-significant-bit
-- 
2.43.0

