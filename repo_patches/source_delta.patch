From f364505a6d8e0755160ab35149d99ab7c33b83cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/19] fix: reject the surrogates U+DE00 to U+DFFF when
 decoding char

The accepted range started at U+DE00 instead of U+E000, so that decoding
built invalid char values (undefined behaviour) from untrusted input.
---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From 7cb099ab7cd0f0f551b73ad8fef11d60b891d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 02/19] fix: encode the length of HashMap and HashSet

Both decode a length specifier first, but neither encoded one, so that
their encodings could not be decoded.
---
 oct/src/encode/encode/mod.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..aabda49 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,23 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +373,19 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 8defcd96954985466c1c0c2274d49fb387057f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/19] fix: decode only the encoded elements of SizedSlice

The whole capacity was decoded regardless of the encoded length, so that
any encoding of a not entirely full slice could not be decoded.
---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..f924b84 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().take(len).enumerate() {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From 3a77f131e620e648fe689b714d5eb8ef9dbc56a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 04/19] fix: count the length specifier in
 SizedSlice::MAX_ENCODED_SIZE

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index f924b84..2f4d504 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From 05339b1c2741b80176e6e996b0c21ff011d3ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/19] fix: compute Result::MAX_ENCODED_SIZE from encoded
 sizes

It used the in-memory sizes of both variants, which are unrelated to
(and may be smaller than) the sizes of their encodings.
---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 028f5832e054afc5a2e3082830176acd1d28152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 06/19] fix: test bounds in SizedSlice::copy_from_slice

Slices longer than the capacity were written past the end of the buffer
by this safe method. It panics now, as Slot::copy_from_slice does.
---
 oct/src/sized_slice/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..256a132 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,17 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// # Panics
+	///
+	/// If `self` cannot contain the entirety of `data` then this method will panic.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "sized slice cannot contain source slice");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From 785e69328504afcc1cc301e9f30a98b52cb2dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 07/19] fix: do not drop the elements moved by From<[T; N]> for
 SizedSlice

The source array was still dropped after its elements had been copied,
leaving the slice with dangling elements.
---
 oct/src/sized_slice/conv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..1caf75e 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,9 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved into the new buffer.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From c92c17ea31db2edfcbd2d0af41351ee3741deb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 08/19] fix: do not allocate zero bytes in
 SizedSlice::into_boxed_slice

Requesting a zero-sized allocation from the global allocator is undefined
behaviour, and the block was never released.
---
 oct/src/sized_slice/conv.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index 1caf75e..c6299ea 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -25,7 +25,7 @@ use crate::error::LengthError;
 use core::borrow::{Borrow, BorrowMut};
 use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
-use core::ptr::copy_nonoverlapping;
+use core::ptr::{copy_nonoverlapping, NonNull};
 use core::slice;
 
 #[cfg(feature = "alloc")]
@@ -121,7 +121,14 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+
+			let ptr = if layout.size() == 0x0 {
+				// The global allocator may not be used for zero-
+				// sized allocations.
+				NonNull::<T>::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From b6696d4e481314dbd9f95869d05ad0b7b6355caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 09/19] fix: initialise the whole buffer in
 SizedStr::into_raw_parts

The returned array is documented as fully initialised, but default and
cloned strings leave the octets past their length uninitialised.
---
 oct/src/sized_str/conv.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oct/src/sized_str/conv.rs b/oct/src/sized_str/conv.rs
index 9ab9ff7..2f17aae 100644
--- a/oct/src/sized_str/conv.rs
+++ b/oct/src/sized_str/conv.rs
@@ -23,7 +23,7 @@ use crate::{SizedSlice, SizedStr};
 use crate::error::{LengthError, StringError, Utf8Error};
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::{ManuallyDrop, MaybeUninit};
+use core::mem::MaybeUninit;
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -187,10 +187,11 @@ impl<const N: usize> SizedStr<N> {
 		let Self(vec) = self;
 		let (buf, len) = vec.into_raw_parts();
 
-		let init_buf = ManuallyDrop::new(buf);
-		let buf = unsafe { (&raw const init_buf).cast::<[u8; N]>().read() };
+		// Octets past the length may be uninitialised.
+		let mut init_buf = [0x00; N];
+		unsafe { copy_nonoverlapping(buf.as_ptr().cast(), init_buf.as_mut_ptr(), len) };
 
-		(buf, len)
+		(init_buf, len)
 	}
 
 	/// Deconstructs the string into a fixed-size byte slice.
-- 
2.43.0


From afca89cc0b82b49422b074f311c79046ad5a85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 10/19] fix: hash SizedSlice identically to slices

SizedSlice implements Borrow<[T]>, which requires equal hashes.
---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 256a132..2ad4953 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -260,9 +260,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state)
 	}
 }
 
-- 
2.43.0


From 1ff87333e5e87802f31929befe619ee074349d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 11/19] fix: only pass the used part of the slot to decode in
 Slot::read

As documented, bytes past the length are not part of the contents.
---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 11da7d658677b5964e14787179f1aae3fa900612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 12/19] fix: report the remaining length in
 SizedIter::size_hint

The length already is that of the remaining elements. Subtracting the
position gave wrong lengths and could overflow (undefined behaviour).
---
 oct/src/sized_iter/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..a724ef8 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,6 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From 5522406f2214a55bd365265b4dc25d0e2f8c08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 13/19] fix: encode the earliest SystemTime without overflowing

A time of i64::MIN seconds can be decoded, but encoding it again
overflowed.
---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index aabda49..dcbeddf 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -817,7 +817,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From d1af61ef9981ddf153ad48439b0d4122b76486da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 14/19] fix: drop decoded elements when Vec::decode fails

---
 oct/src/decode/decode/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b192e85..ff1a327 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -787,19 +787,16 @@ impl<T: Decode> Decode for Vec<T> {
 
 		let mut this = Self::with_capacity(len);
 
-		let buf = this.as_mut_ptr();
 		for i in 0x0..len {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			// SAFETY: Each index is within bounds (i.e. capac-
-			// ity).
-			unsafe { buf.add(i).write(value) };
+			// NOTE: The length is updated incrementally so
+			// that previous items aren't leaked in case of
+			// error.
+			this.push(value);
 		}
 
-		// SAFETY: We have initialised the buffer.
-		unsafe { this.set_len(len); }
-
 		Result::Ok(this)
 	}
 }
-- 
2.43.0


From 26409705f925e25961bcb602b059d08cbac34f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 15/19] fix: drop decoded elements when decoding arrays or
 SizedSlice fails

---
 oct/src/decode/array_guard/mod.rs | 79 +++++++++++++++++++++++++++++++
 oct/src/decode/decode/mod.rs      | 11 +++--
 oct/src/decode/mod.rs             |  1 +
 oct/src/sized_slice/code.rs       | 11 ++---
 4 files changed, 91 insertions(+), 11 deletions(-)
 create mode 100644 oct/src/decode/array_guard/mod.rs

diff --git a/oct/src/decode/array_guard/mod.rs b/oct/src/decode/array_guard/mod.rs
new file mode 100644
index 0000000..310478e
--- /dev/null
+++ b/oct/src/decode/array_guard/mod.rs
@@ -0,0 +1,79 @@
+// Copyright 2024 Gabriel Bjørnager Jensen.
+//
+// This file is part of Oct.
+//
+// Oct is free software: you can redistribute it
+// and/or modify it under the terms of the GNU
+// Lesser General Public License as published by
+// the Free Software Foundation, either version 3
+// of the License, or (at your option) any later
+// version.
+//
+// Oct is distributed in the hope that it will be
+// useful, but WITHOUT ANY WARRANTY; without even
+// the implied warranty of MERCHANTABILITY or FIT-
+// NESS FOR A PARTICULAR PURPOSE. See the GNU Less-
+// er General Public License for more details.
+//
+// You should have received a copy of the GNU Less-
+// er General Public License along with Oct. If
+// not, see <https://www.gnu.org/licenses/>.
+
+use core::mem::{forget, MaybeUninit};
+
+/// Guard for incrementally initialising an array.
+///
+/// If dropped, all elements that have been initialised at that point are also dropped.
+/// This includes cases where decoding an element panics.
+pub(crate) struct ArrayGuard<T, const N: usize> {
+	buf: [MaybeUninit<T>; N],
+	len: usize,
+}
+
+impl<T, const N: usize> ArrayGuard<T, N> {
+	/// Constructs a new guard with no initialised elements.
+	#[inline(always)]
+	#[must_use]
+	pub(crate) const fn new() -> Self {
+		Self {
+			buf: [const { MaybeUninit::uninit() }; N],
+			len: 0x0,
+		}
+	}
+
+	/// Initialises the next element.
+	///
+	/// # Panics
+	///
+	/// If all elements have already been initialised, then this method will panic.
+	#[inline(always)]
+	pub(crate) fn push(&mut self, value: T) {
+		self.buf[self.len].write(value);
+		self.len += 0x1;
+	}
+
+	/// Disarms the guard and returns its buffer along with the count of initialised elements.
+	#[inline(always)]
+	#[must_use]
+	pub(crate) fn into_raw_parts(self) -> ([MaybeUninit<T>; N], usize) {
+		// SAFETY: The guard is forgotten, so the buffer
+		// is merely moved.
+		let buf = unsafe { (&raw const self.buf).read() };
+		let len = self.len;
+
+		forget(self);
+
+		(buf, len)
+	}
+}
+
+impl<T, const N: usize> Drop for ArrayGuard<T, N> {
+	#[inline]
+	fn drop(&mut self) {
+		for item in &mut self.buf[..self.len] {
+			// SAFETY: The first `len` elements have been ini-
+			// tialised.
+			unsafe { item.assume_init_drop() };
+		}
+	}
+}
diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index ff1a327..505a26f 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -22,7 +22,7 @@
 #[cfg(test)]
 mod tests;
 
-use crate::decode::{DecodeBorrowed, Input};
+use crate::decode::{ArrayGuard, DecodeBorrowed, Input};
 use crate::error::{
 	CStringDecodeError,
 	CharDecodeError,
@@ -37,7 +37,6 @@ use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
 use core::marker::{PhantomData, PhantomPinned};
-use core::mem::MaybeUninit;
 use core::net::{
 	IpAddr,
 	Ipv4Addr,
@@ -130,15 +129,17 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 	fn decode(input: &mut Input) -> Result<Self, Self::Error> {
 		// Initialise the array incrementally.
 
- 		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
+ 		let mut guard = ArrayGuard::<T, N>::new();
 
-		for (i, item) in buf.iter_mut().enumerate() {
+		for i in 0x0..N {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			item.write(value);
+			guard.push(value);
 		}
 
+		let (buf, _len) = guard.into_raw_parts();
+
 		// SAFETY: This should be safe as `MaybeUninit<T>`
 		// is transparent to `T` and we have initialised
 		// every element. The original buffer is NOT
diff --git a/oct/src/decode/mod.rs b/oct/src/decode/mod.rs
index efc0bc8..0ebccff 100644
--- a/oct/src/decode/mod.rs
+++ b/oct/src/decode/mod.rs
@@ -23,6 +23,7 @@
 
 use crate::use_mod;
 
+use_mod!(pub(crate) array_guard);
 use_mod!(pub decode);
 use_mod!(pub decode_borrowed);
 use_mod!(pub input);
diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2f4d504..c48eb05 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -20,12 +20,10 @@
 // not, see <https://www.gnu.org/licenses/>.
 
 use crate::SizedSlice;
-use crate::decode::{Decode, DecodeBorrowed, Input};
+use crate::decode::{ArrayGuard, Decode, DecodeBorrowed, Input};
 use crate::encode::{Encode, Output, SizedEncode};
 use crate::error::{CollectionDecodeError, ItemDecodeError, LengthError};
 
-use core::mem::MaybeUninit;
-
 impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 	type Error = CollectionDecodeError<LengthError, ItemDecodeError<usize, T::Error>>;
 
@@ -34,15 +32,16 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 		let len = Decode::decode(input).unwrap();
 		if len > N { return Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len })) };
 
-		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
+		let mut guard = ArrayGuard::<T, N>::new();
 
-		for (i, slot) in buf.iter_mut().take(len).enumerate() {
+		for i in 0x0..len {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			slot.write(v);
+			guard.push(v);
 		}
 
+		let (buf, len) = guard.into_raw_parts();
 		Ok(Self { buf, len })
 	}
 }
-- 
2.43.0


From 433d3702ed45be9fad4a6b87662a4b6a691e68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 16/19] fix: borrow the buffer only once in
 SizedSlice::each_mut

---
 oct/src/sized_slice/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 2ad4953..bd97578 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -132,12 +132,16 @@ impl<T, const N: usize> SizedSlice<T, N> {
 		let mut buf = [null_mut::<T>(); N];
 		let     len = self.len;
 
+		// Note that repeatedly borrowing `self` would inva-
+		// lidate the pointers that we have already stored.
+		let ptr = self.as_mut_ptr();
+
 		let mut i = 0x0;
 		while i < len {
 			unsafe {
 				let item = buf.as_mut_ptr().add(i);
 
-				let value = self.as_mut_ptr().add(i).cast();
+				let value = ptr.add(i);
 				item.write(value);
 			}
 
-- 
2.43.0


From a8c7550181048b999a4254823e7fbe75eedde7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 17/19] fix: zero-extend signed discriminants in
 PrimitiveDiscriminant::to_u128

---
 oct/src/primitive_discriminant/mod.rs | 30 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..a30d0b6 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -45,12 +45,14 @@ pub(crate) use sealed::PrimitiveDiscriminant as SealedPrimitiveDiscriminant;
 pub trait PrimitiveDiscriminant: Copy + SealedPrimitiveDiscriminant + Sized { }
 
 macro_rules! impl_primitive_discriminant {
-	($ty:ty) => {
+	($ty:ty, $unsigned_ty:ty) => {
 		impl ::oct::SealedPrimitiveDiscriminant for $ty {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				// Casting directly from a signed type would sign-
+				// extend the value.
+				self as $unsigned_ty as u128
 			}
 		}
 
@@ -58,15 +60,15 @@ macro_rules! impl_primitive_discriminant {
 	};
 }
 
-impl_primitive_discriminant!(u8);
-impl_primitive_discriminant!(i8);
-impl_primitive_discriminant!(u16);
-impl_primitive_discriminant!(i16);
-impl_primitive_discriminant!(u32);
-impl_primitive_discriminant!(i32);
-impl_primitive_discriminant!(u64);
-impl_primitive_discriminant!(i64);
-impl_primitive_discriminant!(u128);
-impl_primitive_discriminant!(i128);
-impl_primitive_discriminant!(usize);
-impl_primitive_discriminant!(isize);
+impl_primitive_discriminant!(u8, u8);
+impl_primitive_discriminant!(i8, u8);
+impl_primitive_discriminant!(u16, u16);
+impl_primitive_discriminant!(i16, u16);
+impl_primitive_discriminant!(u32, u32);
+impl_primitive_discriminant!(i32, u32);
+impl_primitive_discriminant!(u64, u64);
+impl_primitive_discriminant!(i64, u64);
+impl_primitive_discriminant!(u128, u128);
+impl_primitive_discriminant!(i128, u128);
+impl_primitive_discriminant!(usize, usize);
+impl_primitive_discriminant!(isize, usize);
-- 
2.43.0


From 0106017edd3d88dcdc5e62c8dc236a75e3f1d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 18/19] fix: make the crate compile without the std and alloc
 features

---
 oct/src/decode/decode/mod.rs          | 31 +++++++++++++++------------
 oct/src/encode/encode/mod.rs          | 24 ++++++++++-----------
 oct/src/encode/sized_encode/mod.rs    | 22 +++++++++----------
 oct/src/error/generic_decode_error.rs | 11 ++++++----
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 505a26f..5f1a29b 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -24,15 +24,18 @@ mod tests;
 
 use crate::decode::{ArrayGuard, DecodeBorrowed, Input};
 use crate::error::{
-	CStringDecodeError,
 	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
-	SystemTimeDecodeError,
-	Utf8Error,
 };
 
+#[cfg(feature = "alloc")]
+use crate::error::{CStringDecodeError, Utf8Error};
+
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
@@ -1041,65 +1044,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index dcbeddf..f4c9d38 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -936,7 +936,7 @@ macro_rules! impl_atomic {
 			/// The atomic object itself is read with the [`Relaxed`](core::sync::atomic::Ordering) ordering scheme.
 			#[inline(always)]
 			fn encode(&self, output: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
-				use ::std::sync::atomic::Ordering;
+				use ::core::sync::atomic::Ordering;
 
 				self.load(Ordering::Relaxed).encode(output)
 			}
@@ -1085,65 +1085,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 6c60dab..8f7eba0 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -468,65 +468,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index f20129d..0a3c49d 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -28,12 +28,14 @@ use crate::error::{
 	NonZeroDecodeError,
 	LengthError,
 	Utf8Error,
-	SystemTimeDecodeError,
 };
 
 #[cfg(feature = "alloc")]
 use crate::error::CStringDecodeError;
 
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::convert::Infallible;
 use core::error::Error;
 use core::fmt::{self, Display, Formatter};
@@ -51,8 +53,8 @@ pub enum GenericDecodeError {
 	BadString(Utf8Error),
 
 	/// A C-like string contained a null byte.
-	#[cfg(feature = "std")]
-	#[cfg_attr(doc, doc(cfg(feature = "std")))]
+	#[cfg(feature = "alloc")]
+	#[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 	NullString(CStringDecodeError),
 
 	/// A non-null integer was null.
@@ -82,6 +84,7 @@ impl Display for GenericDecodeError {
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e)
 			=> write!(f, "{e}"),
 
@@ -107,7 +110,7 @@ impl Error for GenericDecodeError {
 		match *self {
 			Self::BadString(ref e) => Some(e),
 
-			#[cfg(feature = "std")]
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e) => Some(e),
 
 			Self::NullInteger(ref e) => Some(e),
-- 
2.43.0


From 11b20c232aed52e39e84fdf5b447499a3c7db950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 19/19] fix: derive for enumerations with a variant named Error

---
 oct-macros/src/impls/decode_enum.rs | 2 +-
 oct-macros/src/impls/encode_enum.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct-macros/src/impls/decode_enum.rs b/oct-macros/src/impls/decode_enum.rs
index 73087ac..a58cdc6 100644
--- a/oct-macros/src/impls/decode_enum.rs
+++ b/oct-macros/src/impls/decode_enum.rs
@@ -65,7 +65,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 		type Error = ::oct::error::EnumDecodeError<#repr, ::oct::error::GenericDecodeError>;
 
 		#[inline]
-		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, Self::Error> {
+		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, <Self as ::oct::decode::Decode>::Error> {
 			let discriminant = <#repr as ::oct::decode::Decode>::decode(stream)
 				.map_err(::core::convert::Into::<::core::convert::Infallible>::into)
 				.map_err(::oct::error::EnumDecodeError::InvalidDiscriminant)?;
diff --git a/oct-macros/src/impls/encode_enum.rs b/oct-macros/src/impls/encode_enum.rs
index 63ebae3..c304916 100644
--- a/oct-macros/src/impls/encode_enum.rs
+++ b/oct-macros/src/impls/encode_enum.rs
@@ -70,7 +70,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 
 		#[allow(unreachable_patterns)]
 		#[inline]
-		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
+		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), <Self as ::oct::encode::Encode>::Error> {
 			match *self {
 				#(
 					#patterns => {
-- 
2.43.0

