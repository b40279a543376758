//! Normalised views of every public error type.

use vcore::schema::E;
use oct::decode::Decode;
use oct::encode::Encode;
use oct::error::*;
use std::convert::Infallible;

pub trait View { fn view(&self) -> E; }

fn b(e: &impl View) -> Box<E> { Box::new(e.view()) }

impl View for Infallible { fn view(&self) -> E { match *self {} } }
impl View for UsizeEncodeError { fn view(&self) -> E { E::USize(self.0 as u128) } }
impl View for IsizeEncodeError { fn view(&self) -> E { E::ISize(self.0 as i128) } }
impl View for LengthError { fn view(&self) -> E { E::Cap { cap: self.capacity, len: self.len } } }
impl View for Utf8Error { fn view(&self) -> E { E::Utf8 { value: self.value, index: self.index } } }
impl View for CharDecodeError { fn view(&self) -> E { E::Char(self.code_point) } }
impl View for NonZeroDecodeError { fn view(&self) -> E { E::NonZero } }
#[cfg(feature = "alloc")]
impl View for CStringDecodeError { fn view(&self) -> E { E::CStr(self.index) } }
#[cfg(feature = "std")]
impl View for SystemTimeDecodeError { fn view(&self) -> E { E::Time(self.timestamp) } }
impl View for std::cell::BorrowError { fn view(&self) -> E { E::Borrow } }

impl<L: View, I: View> View for CollectionEncodeError<L, I> {
	fn view(&self) -> E { match self { Self::BadLength(e) => E::Len(b(e)), Self::BadItem(e) => e.view() } }
}
impl<L: View, I: View> View for CollectionDecodeError<L, I> {
	fn view(&self) -> E { match self { Self::BadLength(e) => E::Len(b(e)), Self::BadItem(e) => e.view() } }
}
impl<T: View> View for ItemEncodeError<usize, T> { fn view(&self) -> E { E::Item(self.index, b(&self.error)) } }
impl<T: View> View for ItemDecodeError<usize, T> { fn view(&self) -> E { E::Item(self.index, b(&self.error)) } }
impl<T: View> View for (usize, T) { fn view(&self) -> E { E::Item(self.0, b(&self.1)) } }
impl<T: View> View for RefCellEncodeError<T> {
	fn view(&self) -> E { E::Cell(match self { Self::BadBorrow(e) => b(e), Self::BadValue(e) => b(e) }) }
}
impl<D: Encode<Error: View>, F: View> View for EnumEncodeError<D, F> {
	fn view(&self) -> E { match self { Self::BadDiscriminant(e) => E::Discr(b(e)), Self::BadField(e) => E::Field(b(e)) } }
}

/// Discriminant types: value and width.
pub trait Discr { fn discr(&self) -> (i128, u32); }
macro_rules! discr { ($($t:ty: $w:literal),*) => { $(impl Discr for $t { fn discr(&self) -> (i128, u32) { (*self as i128, $w) } })* } }
discr!(bool: 8, u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, usize: 64, i8: 8, i16: 16, i32: 32, i64: 64, i128: 128, isize: 64);

impl<D: Decode<Error: View> + Discr, F: View> View for EnumDecodeError<D, F> {
	fn view(&self) -> E {
		match self {
			Self::InvalidDiscriminant(e) => E::Discr(b(e)),
			Self::UnassignedDiscriminant { value } => { let (v, w) = value.discr(); E::Unassigned(v, w) }
			Self::BadField(e) => E::Field(b(e)),
		}
	}
}
impl View for GenericEncodeError {
	fn view(&self) -> E {
		E::Gen(match self {
			Self::BadBorrow(e) => b(e),
			Self::LargeIsize(e) => b(e),
			Self::LargeUsize(e) => b(e),
			_ => Box::new(E::Other("unknown generic encode error".into())),
		})
	}
}
impl View for GenericDecodeError {
	fn view(&self) -> E {
		E::Gen(match self {
			Self::BadString(e) => b(e),
			#[cfg(feature = "alloc")]
			Self::NullString(e) => b(e),
			Self::NullInteger(e) => b(e),
			Self::SmallBuffer(e) => b(e),
			Self::UnassignedDiscriminant { value } => Box::new(E::GUnassigned(*value)),
			#[cfg(feature = "std")]
			Self::NarrowSystemTime(e) => b(e),
			_ => Box::new(E::Other("unknown generic decode error".into())),
		})
	}
}

/// What is asked of an error: description, sources, conversion.
#[derive(Clone, Debug, Default)]
pub struct Report {
	pub debug:   String,
	pub display: Option<String>,
	/// Descriptions along the chain of sources, outermost first (without the error itself).
	pub sources: Option<Vec<String>>,
	/// The innermost source as a known leaf.
	pub leaf:    Option<E>,
	pub generic: Option<E>,
	pub generic_display: Option<String>,
	pub generic_sources: Option<Vec<String>>,
}

/// The leaf error behind a source, if its type is known.
pub fn leaf_view(e: &(dyn std::error::Error + 'static)) -> Option<E> {
	macro_rules! t { ($($t:ty),*) => { $(if let Some(e) = e.downcast_ref::<$t>() { return Some(e.view()) })* } }
	t!(UsizeEncodeError, IsizeEncodeError, LengthError, Utf8Error, CharDecodeError, NonZeroDecodeError, std::cell::BorrowError);
	#[cfg(feature = "alloc")]
	t!(CStringDecodeError);
	#[cfg(feature = "std")]
	t!(SystemTimeDecodeError);
	None
}

/// Walks the chain; at most 64 links (more counts as endless).
pub fn chain(e: &(dyn std::error::Error + 'static)) -> (Vec<String>, Option<E>) {
	let mut v = Vec::new();
	let mut leaf = leaf_view(e);
	let mut c = e.source();
	while let Some(s) = c {
		v.push(s.to_string());
		leaf = leaf_view(s);
		if v.len() > 64 { break }
		c = s.source();
	}
	(v, leaf)
}

/// Autoref specialisation: uses of optional traits on concrete types.
pub mod spec {
	use super::*;
	use std::error::Error;
	pub struct P<T>(pub T);
	pub trait NoErr { fn dynerr(&self) -> Option<&(dyn Error + 'static)> { None } }
	impl<T> NoErr for &P<&T> {}
	pub trait YesErr<'a> { fn dynerr(&self) -> Option<&'a (dyn Error + 'static)>; }
	impl<'a, T: Error + 'static> YesErr<'a> for P<&'a T> { fn dynerr(&self) -> Option<&'a (dyn Error + 'static)> { Some(self.0) } }

	pub struct Q<T>(pub std::cell::Cell<Option<T>>);
	pub trait NoGd { fn gd(&self) -> Option<GenericDecodeError> { None } }
	impl<T> NoGd for &Q<T> {}
	pub trait YesGd { fn gd(&self) -> Option<GenericDecodeError>; }
	impl<T: Into<GenericDecodeError>> YesGd for Q<T> { fn gd(&self) -> Option<GenericDecodeError> { self.0.take().map(Into::into) } }
	pub trait NoGe { fn ge(&self) -> Option<GenericEncodeError> { None } }
	impl<T> NoGe for &Q<T> {}
	pub trait YesGe { fn ge(&self) -> Option<GenericEncodeError>; }
	impl<T: Into<GenericEncodeError>> YesGe for Q<T> { fn ge(&self) -> Option<GenericEncodeError> { self.0.take().map(Into::into) } }

	pub struct M<T>(pub std::marker::PhantomData<T>);
	pub trait NoMax { fn max(&self) -> Option<usize> { None } }
	impl<T> NoMax for &M<T> {}
	pub trait YesMax { fn max(&self) -> Option<usize>; }
	impl<T: oct::encode::SizedEncode> YesMax for M<T> { fn max(&self) -> Option<usize> { Some(T::MAX_ENCODED_SIZE) } }
	pub trait NoSlot { fn slot_cap(&self) -> Option<usize> { None } }
	impl<T> NoSlot for &M<T> {}
	#[cfg(feature = "alloc")]
	pub trait YesSlot { fn slot_cap(&self) -> Option<usize>; }
	#[cfg(feature = "alloc")]
	impl<T: oct::encode::SizedEncode> YesSlot for M<T> { fn slot_cap(&self) -> Option<usize> { Some(oct::Slot::<T>::new().capacity()) } }
}
