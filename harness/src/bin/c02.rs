//! C02: byte layouts.
use oct::encode::{Encode, Output};
use std::cell::{Cell, RefCell};
use std::marker::{PhantomData, PhantomPinned};
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::Bound;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime};
use vcore::mon::{catch, hex, Cfg, Mon};
use vcore::rng::hash_bytes;
use vreg::codec;

fn lit<T: Encode<Error: std::fmt::Debug> + ?Sized>(m: &mut Mon, name: &str, v: &T, want: &[u8]) {
	let mut buf = vec![0xEE; want.len() + 40];
	let mut s = Output::new(&mut buf);
	let r = catch(|| v.encode(&mut s).map_err(|e| format!("{e:?}")));
	let n = s.position();
	m.eval(Some(hash_bytes(want) ^ hash_bytes(name.as_bytes())));
	m.count("literal vectors", 1);
	if r != Ok(Ok(())) || &buf[..n] != want { m.violation(&format!("vector {name}"), || format!("{name} should be {} but is {} ({r:?})", hex(want), hex(&buf[..n]))) }
}

#[derive(oct::encode::Encode)]
struct Custom(i8, char8);
#[allow(non_camel_case_types)]
#[derive(oct::encode::Encode)]
struct char8 { a: u16, b: Option<u8> }
#[derive(oct::encode::Encode)]
#[repr(u16)]
enum En { A, B(u8) = 0x1234, C { x: bool } }

// Written down from the documentation, not computed.
fn vectors(m: &mut Mon) {
	macro_rules! v { ($($e:expr => [$($b:expr),* $(,)?];)*) => { $( lit(m, stringify!($e), &$e, &[$($b),*]); )* } }
	macro_rules! u { ($($e:expr => [$($b:expr),* $(,)?];)*) => { $( lit(m, stringify!($e), $e, &[$($b),*]); )* } }
	v! {
		() => [];
		true => [1];
		false => [0];
		0x12u8 => [0x12];
		0x1234u16 => [0x34, 0x12];
		0x1234_5678u32 => [0x78, 0x56, 0x34, 0x12];
		0x0102_0304_0506_0708u64 => [8, 7, 6, 5, 4, 3, 2, 1];
		0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10u128 => [16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1];
		-2i8 => [0xFE];
		-2i16 => [0xFE, 0xFF];
		-559_038_737i32 => [0xEF, 0xBE, 0xAD, 0xDE];
		i64::MIN => [0, 0, 0, 0, 0, 0, 0, 0x80];
		-1i128 => [255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255];
		0xABCDusize => [0xCD, 0xAB];
		65535usize => [0xFF, 0xFF];
		-32768isize => [0x00, 0x80];
		32767isize => [0xFF, 0x7F];
		-300isize => [0xD4, 0xFE];
		NonZero::new(0x0301u16).unwrap() => [1, 3];
		NonZero::new(-1isize).unwrap() => [0xFF, 0xFF];
		1.0f32 => [0, 0, 0x80, 0x3F];
		-2.5f64 => [0, 0, 0, 0, 0, 0, 4, 0xC0];
		f32::from_bits(0x7FC0_1234) => [0x34, 0x12, 0xC0, 0x7F];
		'A' => [0x41, 0, 0, 0];
		'\u{10FFFF}' => [0xFF, 0xFF, 0x10, 0];
		'ꙮ' => [0x6E, 0xA6, 0, 0];
		Some(0x0102u16) => [1, 2, 1];
		None::<u64> => [0];
		Some(None::<u8>) => [1, 0];
		Some(Some(false)) => [1, 1, 0];
		Ok::<u8, u16>(7) => [0, 7];
		Err::<u8, u16>(7) => [1, 7, 0];
		Bound::Included(5u8) => [0, 5];
		Bound::Excluded(5u8) => [1, 5];
		Bound::<u8>::Unbounded => [2];
		[1u16, 2, 3] => [1, 0, 2, 0, 3, 0];
		[[1u8, 2], [3, 4]] => [1, 2, 3, 4];
		[0u8; 0] => [];
		(1u8, 2u16, 3u32, 'x') => [1, 2, 0, 3, 0, 0, 0, 0x78, 0, 0, 0];
		(9u16,) => [9, 0];
		(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 0x0D0Cu16) => [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
		3u8..0x0Au8 => [3, 10];
		3u16..=9 => [3, 0, 9, 0];
		7u32.. => [7, 0, 0, 0];
		..7u16 => [7, 0];
		..=7i8 => [7];
		.. => [];
		PhantomData::<u64> => [];
		PhantomPinned => [];
		Duration::new(0x0102, 0x0304_0506) => [2, 1, 0, 0, 0, 0, 0, 0, 6, 5, 4, 3];
		SystemTime::UNIX_EPOCH => [0, 0, 0, 0, 0, 0, 0, 0];
		SystemTime::UNIX_EPOCH + Duration::from_secs(1_730_631_721) => [0x29, 0x58, 0x27, 0x67, 0, 0, 0, 0];
		SystemTime::UNIX_EPOCH - Duration::from_secs(778_231_800) => [0x08, 0x20, 0x9D, 0xD1, 0xFF, 0xFF, 0xFF, 0xFF];
		Ipv4Addr::new(1, 2, 3, 4) => [4, 3, 2, 1];
		Ipv6Addr::new(0x0102, 0x0304, 0x0506, 0x0708, 0x090A, 0x0B0C, 0x0D0E, 0x0F10) => [16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1];
		IpAddr::V4(Ipv4Addr::new(1, 2, 3, 4)) => [4, 4, 3, 2, 1];
		IpAddr::V6(Ipv6Addr::LOCALHOST) => [6, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
		SocketAddrV4::new(Ipv4Addr::new(192, 168, 0, 1), 0x1F90) => [1, 0, 168, 192, 0x90, 0x1F];
		SocketAddrV6::new(Ipv6Addr::LOCALHOST, 0x0102, 0x0304_0506, 0x0708_090A) => [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 6, 5, 4, 3, 10, 9, 8, 7];
		SocketAddr::from(([10, 0, 0, 2], 443)) => [4, 2, 0, 0, 10, 0xBB, 0x01];
		SocketAddr::from((Ipv6Addr::UNSPECIFIED, 1)) => [6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
		String::from("Má") => [3, 0, 0x4D, 0xC3, 0xA1];
	}
	u! {
		"Má" => [3, 0, 0x4D, 0xC3, 0xA1];
		"" => [0, 0];
		c"ab" => [2, 0, 0x61, 0x62];
		c"" => [0, 0];
		&[1u16, 2][..] => [2, 0, 1, 0, 2, 0];
		&[(); 3][..] => [3, 0];
		&[[1u8, 2], [3, 4]][..] => [2, 0, 1, 2, 3, 4];
	}
	v! {
		vec![vec![1u8], vec![], vec![2, 3]] => [3, 0, 1, 0, 1, 0, 0, 2, 0, 2, 3];
		vec![0x0102usize, 3] => [2, 0, 2, 1, 3, 0];
		std::collections::LinkedList::from([5u8, 6]) => [2, 0, 5, 6];
		std::collections::HashMap::from([(7u8, 0x0809u16)]) => [1, 0, 7, 9, 8];
		std::collections::HashMap::<u8, u8>::new() => [0, 0];
		std::collections::HashSet::from([0x0A0Bu16]) => [1, 0, 11, 10];
		oct::SizedSlice::<u16, 8>::from([1u16; 8]) => [8, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0];
		oct::SizedStr::<9>::new("é").unwrap() => [2, 0, 0xC3, 0xA9];
		oct::SizedStr::<0>::new("").unwrap() => [0, 0];
		Box::new(5u16) => [5, 0];
		std::rc::Rc::new('a') => [0x61, 0, 0, 0];
		Arc::<str>::from("a") => [1, 0, 0x61];
		std::borrow::Cow::Borrowed("hi") => [2, 0, 0x68, 0x69];
		Cell::new(0x0102u16) => [2, 1];
		RefCell::new(Some(3u8)) => [1, 3];
		Mutex::new(0x0102u16) => [2, 1];
		RwLock::new([1u8, 2]) => [1, 2];
		AtomicU32::new(1) => [1, 0, 0, 0];
		AtomicBool::new(true) => [1];
		AtomicIsize::new(-1) => [0xFF, 0xFF];
		AtomicI64::new(-2) => [0xFE, 255, 255, 255, 255, 255, 255, 255];
		Wrapping(0x0102u16) => [2, 1];
		Saturating(-1i16) => [255, 255];
		std::sync::LazyLock::<u8>::new(|| 9) => [9];
		std::cell::LazyCell::<u16>::new(|| 9) => [9, 0];
		Custom(-1, char8 { a: 0x0102, b: Some(4) }) => [255, 2, 1, 1, 4];
		En::A => [0, 0];
		En::B(9) => [0x34, 0x12, 9];
		En::C { x: true } => [0x35, 0x12, 1];
	}
	// Fractions of a second are cut towards the epoch.
	let e = SystemTime::UNIX_EPOCH;
	for (t, want) in [
		(e + Duration::new(5, 999_999_999), 5i64), (e + Duration::new(0, 1), 0), (e - Duration::new(0, 1), 0), (e - Duration::new(5, 999_999_999), -5), (e - Duration::new(1, 0), -1),
	] { lit(m, &format!("{t:?}"), &t, &want.to_le_bytes()) }
}

pub fn run(cfg: &Cfg) -> Mon {
	let mut m = codec::each(cfg, "C02", cfg.n(150, 5000), codec::layout);
	vectors(&mut m);
	m
}

#[allow(dead_code)]
fn main() {
	run(&Cfg::get()).finish()
}
