//! The assumed contracts of the standard library (contracts/00_vx.rs, 01_serial2.rs, 03_uninit.rs, 04_std.rs, cli_00.rs),
//! compared with the real functions on values that are chosen around the limits.
//!
//! This does not prove an assumption, but a wrong one does not stay unnoticed.
use crate::src::Src;
use std::time::{Duration, Instant};

type R = Result<(), String>;

macro_rules! same {
	($name:expr, $got:expr, $want:expr $(, $arg:expr)*) => {{
		let (got, want) = ($got, $want);
		if got != want {
			return Err(format!("{}({:?}): got {got:?}, the contract says {want:?}", $name, ($(&$arg,)*)));
		}
	}};
}

const E9: u128 = 1_000_000_000;
const MAX_NS: u128 = u64::MAX as u128 * E9 + 999_999_999;

/// A number with many values near powers of two.
fn number(src: &mut Src) -> u128 {
	let v = (0..16).fold(0u128, |n, _| n << 8 | src.u8() as u128);
	let v = v >> src.below(128);
	match src.below(6) {
		0 => src.below(6) as u128,
		1 => (1u128 << src.below(128)).wrapping_sub(src.below(3) as u128),
		2 => !v,
		_ => v,
	}
}

fn duration(src: &mut Src) -> Duration {
	match src.below(8) {
		0 => Duration::ZERO,
		1 => Duration::MAX,
		2 => Duration::from_nanos(number(src) as u64),
		3 => Duration::new(u64::MAX - src.below(3) as u64, src.u32() % 1_000_000_000),
		4 => Duration::new(src.below(4) as u64, 999_999_999 - src.below(3) as u32),
		_ => Duration::new(number(src) as u64, src.u32() % 1_000_000_000),
	}
}

fn ns(d: Duration) -> u128 {
	d.as_secs() as u128 * E9 + d.subsec_nanos() as u128
}

/// Whether something panics; the contracts have that as a precondition.
fn panics<T>(f: impl FnOnce() -> T) -> Option<T> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn durations(src: &mut Src) -> R {
	let (a, b) = (duration(src), duration(src));
	let (x, y) = (ns(a), ns(b));
	let n = number(src) as u64;
	let k = number(src) as u32;
	let sub = src.u32();
	same!("Duration::new", panics(|| Duration::new(n, sub)).map(ns), Some(n as u128 * E9 + sub as u128).filter(|v| *v <= MAX_NS), n, sub);
	same!("from_millis", ns(Duration::from_millis(n)), n as u128 * 1_000_000, n);
	same!("from_micros", ns(Duration::from_micros(n)), n as u128 * 1_000, n);
	same!("from_nanos", ns(Duration::from_nanos(n)), n as u128, n);
	same!("from_secs", ns(Duration::from_secs(n)), n as u128 * E9, n);
	same!("ZERO, MAX", (ns(Duration::ZERO), ns(Duration::MAX)), (0, MAX_NS));
	same!("as_secs", a.as_secs() as u128, x / E9, a);
	same!("as_millis", a.as_millis(), x / 1_000_000, a);
	same!("as_micros", a.as_micros(), x / 1_000, a);
	same!("as_nanos", a.as_nanos(), x, a);
	same!("subsec_nanos", a.subsec_nanos() as u128, x % E9, a);
	same!("subsec_micros", a.subsec_micros() as u128, x % E9 / 1_000, a);
	same!("subsec_millis", a.subsec_millis() as u128, x % E9 / 1_000_000, a);
	same!("is_zero", a.is_zero(), x == 0, a);
	same!("max", ns(a.max(b)), if y >= x { y } else { x }, a, b);
	same!("min", ns(a.min(b)), if y < x { y } else { x }, a, b);
	let (low, high) = (a.min(b), a.max(b));
	let c = duration(src);
	let z = ns(c);
	same!("clamp", ns(c.clamp(low, high)), if z < ns(low) { ns(low) } else if z > ns(high) { ns(high) } else { z }, c, low, high);
	let fits = |v: u128| Some(v).filter(|v| *v <= MAX_NS);
	same!("checked_add", a.checked_add(b).map(ns), fits(x + y), a, b);
	same!("checked_sub", a.checked_sub(b).map(ns), x.checked_sub(y), a, b);
	// At most 2^94 times 2^32.
	let product = x.checked_mul(k as u128).and_then(fits);
	same!("checked_mul", a.checked_mul(k).map(ns), product, a, k);
	same!("saturating_add", ns(a.saturating_add(b)), fits(x + y).unwrap_or(MAX_NS), a, b);
	same!("saturating_sub", ns(a.saturating_sub(b)), x.saturating_sub(y), a, b);
	same!("saturating_mul", ns(a.saturating_mul(k)), product.unwrap_or(MAX_NS), a, k);
	same!("Duration + Duration", panics(|| a + b).map(ns), fits(x + y), a, b);
	same!("Duration - Duration", panics(|| a - b).map(ns), x.checked_sub(y), a, b);
	same!("Duration * u32", panics(|| a * k).map(ns), product, a, k);
	same!("Duration / u32", panics(|| a / k).map(ns), x.checked_div(k as u128), a, k);
	same!("Duration == Duration", a == b, x == y, a, b);
	same!("Duration cmp", a.partial_cmp(&b), Some(x.cmp(&y)), a, b);
	Ok(())
}

fn instants(src: &mut Src) -> R {
	let base = Instant::now();
	let (p, q) = (src.u32() as u64 * 1000 + src.below(1000) as u64, src.u32() as u64 * 1000 + src.below(1000) as u64);
	let (p, q) = (p, if src.chance(4) { p } else { q });
	let (a, b) = (base + Duration::from_nanos(p), base + Duration::from_nanos(q));
	let over = |x: u64, y: u64| Duration::from_nanos(x.saturating_sub(y));
	same!("checked_duration_since", a.checked_duration_since(b), p.checked_sub(q).map(Duration::from_nanos), p, q);
	same!("saturating_duration_since", a.saturating_duration_since(b), over(p, q), p, q);
	same!("duration_since", a.duration_since(b), over(p, q), p, q);
	same!("Instant - Instant", a - b, over(p, q), p, q);
	same!("max", a.max(b), if q >= p { b } else { a }, p, q);
	same!("min", a.min(b), if q < p { b } else { a }, p, q);
	same!("==", a == b, p == q, p, q);
	same!("cmp", a.partial_cmp(&b), Some(p.cmp(&q)), p, q);
	let d = duration(src);
	// Sums that exist are exact; there is a latest point in time, and a sum exists if and only if it is not after that.
	match a.checked_add(d) {
		Some(c) => {
			same!("checked_add", c.checked_duration_since(a), Some(d), p, d);
			same!("checked_add", b.checked_add(d).is_some() || q > p, true, p, q, d);
			same!("Instant + Duration", panics(|| a + d), Some(c), p, d);
			let smaller = d.saturating_sub(duration(src));
			same!("checked_add", a.checked_add(smaller).is_some(), true, p, d, smaller);
		},
		None => same!("Instant + Duration", panics(|| a + d), None, p, d),
	}
	if let Some(c) = a.checked_sub(d) {
		same!("checked_sub", a.checked_duration_since(c), Some(d), p, d);
	}
	let before = Instant::now();
	let e = base.elapsed();
	let after = Instant::now();
	same!("elapsed", before - base <= e && e <= after - base, true);
	same!("elapsed of what is to come", a.elapsed() == Duration::ZERO || p < 1_000_000_000, true, p);
	Ok(())
}

fn numbers(src: &mut Src) -> R {
	macro_rules! ints {
		($($t:ident $s:ident),*) => { $({
			let (a, b) = (number(src) as $t, if src.chance(3) { src.below(9) as $t } else { number(src) as $t });
			let max = $t::MAX as u128;
			let (x, y) = (a as u128, b as u128);
			let n = src.below(300) as u32;
			let bits = $t::BITS;
			let up = |x: u128, y: u128| x / y + u128::from(x % y != 0);
			same!("abs_diff", a.abs_diff(b) as u128, if x < y { y - x } else { x - y }, a, b);
			if b != 0 {
				same!("div_ceil", a.div_ceil(b) as u128, up(x, y), a, b);
				same!("rem_euclid", a.rem_euclid(b) as u128, x % y, a, b);
				if let Some(v) = up(x, y).checked_mul(y).filter(|v| *v <= max) {
					same!("next_multiple_of", a.next_multiple_of(b) as u128, v, a, b);
				}
			}
			if max < u128::MAX {
				let (v, over) = a.overflowing_add(b);
				same!("overflowing_add", (v as u128, over), if x + y > max { (x + y - max - 1, true) } else { (x + y, false) }, a, b);
				let (v, over) = a.overflowing_sub(b);
				same!("overflowing_sub", (v as u128, over), if x < y { (x + max + 1 - y, true) } else { (x - y, false) }, a, b);
			}
			same!("is_power_of_two", a.is_power_of_two(), a != 0 && a & (a - 1) == 0, a);
			let e = src.below(20) as u32;
			let small = (a as u8) as $t;
			let mut power = Some(1u128);
			for _ in 0..e {
				power = power.and_then(|p| p.checked_mul(small as u128)).filter(|p| *p <= max);
			}
			if let Some(p) = power {
				same!("pow", small.pow(e) as u128, p, small, e);
			}
			let m = n % bits;
			same!("rotate_left", a.rotate_left(n), if m == 0 { a } else { (a << m) | (a >> (bits - m)) }, a, n);
			same!("rotate_right", a.rotate_right(n), if m == 0 { a } else { (a >> m) | (a << (bits - m)) }, a, n);
			same!("checked_shl", a.checked_shl(n), if n < bits { Some(a << n) } else { None }, a, n);
			same!("checked_shr", a.checked_shr(n), if n < bits { Some(a >> n) } else { None }, a, n);
			same!("min", std::cmp::min(a, b), if x > y { b } else { a }, a, b);
			same!("max", std::cmp::max(a, b), if x > y { a } else { b }, a, b);
			// le_seq: the lowest byte first.
			let mut rest = x;
			let bytes = a.to_le_bytes();
			for byte in bytes {
				same!("to_le_bytes", byte as u128, rest % 256, a);
				rest /= 256;
			}
			same!("to_le_bytes", rest, 0, a);
			same!("from_le_bytes", $t::from_le_bytes(bytes), a, bytes);
			let signed = a as $s;
			same!("to_le_bytes of signed numbers", signed.to_le_bytes(), bytes, signed);
			same!("from_le_bytes of signed numbers", $s::from_le_bytes(bytes), signed, bytes);
			same!("signed as unsigned", (signed as $t) as u128, x, a);
		})* }
	}
	ints!(u8 i8, u16 i16, u32 i32, u64 i64, usize isize, u128 i128);
	let (a, b) = (src.u16(), src.u32());
	same!("swap_bytes", a.swap_bytes(), (a << 8) | (a >> 8), a);
	same!("swap_bytes", b.swap_bytes(), (b << 24) | ((b & 0xFF00) << 8) | ((b >> 8) & 0xFF00) | (b >> 24), b);
	Ok(())
}

fn options(src: &mut Src) -> R {
	let (v, w, d) = (src.u8() % 4, src.u8() % 4, src.u8() % 4);
	let (some, other) = (src.chance(2), src.chance(2));
	let x = some.then_some(v);
	let y = other.then_some(w);
	let f = |n: u8| n * 10 + 1;
	let is = |n: u8| n & 1 == 1;
	same!("then_some", some.then_some(v), if some { Some(v) } else { None }, some, v);
	same!("map_or", x.map_or(d, f), if some { f(v) } else { d }, x);
	same!("map_or_else", x.map_or_else(|| d, f), if some { f(v) } else { d }, x);
	same!("is_some_and", x.is_some_and(is), if some { is(v) } else { false }, x);
	same!("is_none_or", x.is_none_or(is), if some { is(v) } else { true }, x);
	same!("filter", x.filter(|n| is(*n)), if some && is(v) { Some(v) } else { None }, x);
	same!("or", x.or(y), if some { x } else { y }, x, y);
	same!("or_else", x.or_else(|| y), if some { x } else { y }, x, y);
	same!("and", x.and(y), if some { y } else { None }, x, y);
	same!("copied", x.as_ref().copied(), x, x);
	let mut z = x;
	same!("replace", (z.replace(d), z), (x, Some(d)), x, d);
	let mut m = v;
	same!("mem::replace", (std::mem::replace(&mut m, w), m), (v, w), v, w);
	let x: Result<u8, u8> = if some { Ok(v) } else { Err(v) };
	let y: Result<u8, u8> = if other { Ok(w) } else { Err(w) };
	same!("unwrap_or", x.unwrap_or(d), if some { v } else { d }, x);
	same!("unwrap_or_else", x.unwrap_or_else(f), if some { v } else { f(v) }, x);
	same!("map_or", x.map_or(d, f), if some { f(v) } else { d }, x);
	same!("and_then", x.and_then(|n| if is(n) { Ok(f(n)) } else { Err(7) }), if some { if is(v) { Ok(f(v)) } else { Err(7) } } else { Err(v) }, x);
	same!("or_else", x.or_else(|n| if is(n) { Ok(f(n)) } else { Err(7) }), if some { Ok(v) } else if is(v) { Ok(f(v)) } else { Err(7) }, x);
	same!("and", x.and(y), if some { y } else { Err(v) }, x, y);
	same!("or", x.or(y), if some { Ok(v) } else { y }, x, y);
	same!("is_ok_and", x.is_ok_and(is), some && is(v), x);
	same!("is_err_and", x.is_err_and(is), !some && is(v), x);
	Ok(())
}

fn slices(src: &mut Src) -> R {
	let bytes = |src: &mut Src| -> Vec<u8> { (0..src.below(7)).map(|_| src.u8() % 3).collect() };
	let (a, b) = (bytes(src), bytes(src));
	let equal = a.len() == b.len() && (0..a.len()).all(|i| a[i] == b[i]);
	same!("==", a[..] == b[..], equal, a, b);
	same!("starts_with", a.starts_with(&b), b.len() <= a.len() && (0..b.len()).all(|i| a[i] == b[i]), a, b);
	same!("to_vec", a.to_vec().len() == a.len() && a[..].to_owned() == a, true, a);
	same!("try_into", <[u8; 3]>::try_from(&a[..]).ok().map(|x| x.to_vec()), if a.len() == 3 { Some(a.clone()) } else { None }, a);
	let n = src.below(9);
	let v = vec![5u8; n];
	same!("vec!", v.len() == n && v.iter().all(|x| *x == 5), true, n);
	let mut f = a.clone();
	f.fill(9);
	same!("fill", f.len() == a.len() && f.iter().all(|x| *x == 9), true, a);
	if !a.is_empty() {
		let (i, j) = (src.below(a.len()), src.below(a.len()));
		let mut s = a.clone();
		s.swap(i, j);
		let mut want = a.clone();
		want[i] = a[j];
		want[j] = a[i];
		same!("swap", s, want, a, i, j);
	}
	// Iterators: Items, ItemsIter, RefItems, RefItemsIter.
	let mut it = a.iter();
	let mut owned = a.clone().into_iter();
	for i in 0..a.len() + 1 {
		let left = a.len() - i.min(a.len());
		same!("ExactSizeIterator::len", (it.len(), owned.len()), (left, left), a, i);
		same!("clone", it.clone().eq(a[i.min(a.len())..].iter()), true, a, i);
		let k = src.below(9);
		same!("take", it.clone().take(k).eq(a[i.min(a.len())..][..k.min(left)].iter()), true, a, i, k);
		same!("next", (it.next().copied(), owned.next()), (a.get(i).copied(), a.get(i).copied()), a, i);
	}
	Ok(())
}

fn errors() -> R {
	use std::io::{Error, ErrorKind::*};
	let kinds = [
		NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists,
		WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
	];
	for (i, a) in kinds.iter().enumerate() {
		same!("Error::from", Error::from(*a).kind(), *a, a);
		for (j, b) in kinds.iter().enumerate() {
			same!("ErrorKind ==", a == b, i == j, a, b);
		}
	}
	Ok(())
}

/// Slots that may be uninitialised, with values that count themselves.
fn slots(src: &mut Src) -> R {
	use std::cell::Cell;
	use std::mem::{ManuallyDrop, MaybeUninit};
	struct V<'a>(u8, &'a Cell<u32>);
	impl Drop for V<'_> {
		fn drop(&mut self) {
			self.1.set(self.1.get() + 1);
		}
	}
	let dropped = Cell::new(0);
	let v = src.u8();
	let mut slot = MaybeUninit::uninit();
	slot.write(V(v, &dropped));
	// SAFETY: the slot was just written.
	same!("assume_init_ref", unsafe { slot.assume_init_ref() }.0, v, v);
	same!("MaybeUninit::write drops nothing", dropped.get(), 0);
	if src.chance(2) {
		// SAFETY: as above.
		unsafe { slot.assume_init_drop() };
		same!("assume_init_drop drops once", dropped.get(), 1);
	} else {
		// SAFETY: as above.
		let x = unsafe { slot.assume_init() };
		same!("assume_init", (x.0, dropped.get()), (v, 0), v);
		drop(x);
		same!("assume_init hands out the one value", dropped.get(), 1);
	}
	{
		let _kept = MaybeUninit::new(V(v, &dropped));
	}
	same!("a slot drops nothing", dropped.get(), 1);
	{
		let m = ManuallyDrop::new(V(v, &dropped));
		same!("ManuallyDrop", m.0, v, v);
	}
	same!("ManuallyDrop drops nothing", dropped.get(), 1);
	Ok(())
}

fn texts(src: &mut Src) -> R {
	let letters: Vec<char> = "aAbBzZ@[`{09+- \u{e9}\u{c9}\u{17f}\u{212a}kKsS\u{0}\u{7f}\u{661}".chars().collect();
	let text = |src: &mut Src| -> String { (0..src.below(4)).map(|_| letters[src.below(letters.len())]).collect() };
	let (a, b) = (text(src), text(src));
	let lower = |c: char| if c.is_ascii_uppercase() { ((c as u32) + 32) as u8 as char } else { c };
	let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
	let same_but_case = x.len() == y.len() && (0..x.len()).all(|i| lower(x[i]) == lower(y[i]));
	same!("eq_ignore_ascii_case", a.eq_ignore_ascii_case(&b), same_but_case, a, b);
	let mut n = match src.below(4) {
		0 => number(src).to_string(),
		1 => [255u128, 256, 65535, 65536, u32::MAX as u128, u32::MAX as u128 + 1, u64::MAX as u128, u64::MAX as u128 + 1][src.below(8)].to_string(),
		2 => text(src),
		_ => src.u16().to_string(),
	};
	for _ in 0..src.below(3) {
		n.insert_str(0, ["0", "+", "", "-", "00"][src.below(5)]);
	}
	let digits = n.strip_prefix('+').unwrap_or(&n);
	let value = if !digits.is_empty() && digits.chars().all(|c| ('0'..='9').contains(&c)) {
		digits.chars().try_fold(0u128, |v, c| v.checked_mul(10)?.checked_add(c as u128 - '0' as u128)).or(Some(u128::MAX))
	} else {
		None
	};
	let up_to = |max: u128| value.filter(|v| *v <= max);
	same!("parse::<u8>", n.parse::<u8>().ok().map(u128::from), up_to(u8::MAX.into()), n);
	same!("parse::<u16>", n.parse::<u16>().ok().map(u128::from), up_to(u16::MAX.into()), n);
	same!("parse::<u32>", n.parse::<u32>().ok().map(u128::from), up_to(u32::MAX.into()), n);
	same!("parse::<u64>", n.parse::<u64>().ok().map(u128::from), up_to(u64::MAX.into()), n);
	Ok(())
}

/// `AtomicBool`: what an operation gives and leaves, in one thread.
fn flags() -> R {
	use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
	for old in [false, true] {
		for new in [false, true] {
			let run = |f: &dyn Fn(&AtomicBool) -> bool| {
				let a = AtomicBool::new(old);
				(f(&a), a.load(SeqCst))
			};
			same!("swap", run(&|a| a.swap(new, SeqCst)), (old, new), old, new);
			same!("fetch_or", run(&|a| a.fetch_or(new, SeqCst)), (old, old | new), old, new);
			same!("fetch_xor", run(&|a| a.fetch_xor(new, SeqCst)), (old, old ^ new), old, new);
			same!("store", run(&|a| { a.store(new, SeqCst); true }), (true, new), old, new);
			for current in [false, true] {
				let a = AtomicBool::new(old);
				let r = a.compare_exchange(current, new, SeqCst, SeqCst);
				same!("compare_exchange", (r, a.load(SeqCst)), if old == current { (Ok(old), new) } else { (Err(old), old) }, old, current, new);
			}
		}
	}
	Ok(())
}

pub fn run(seed: u64, cases: u64) -> Result<u64, String> {
	errors()?;
	flags()?;
	for n in 0..cases {
		let mut src = Src::random(seed.wrapping_mul(7_368_787).wrapping_add(n));
		durations(&mut src)?;
		instants(&mut src)?;
		numbers(&mut src)?;
		options(&mut src)?;
		slices(&mut src)?;
		slots(&mut src)?;
		texts(&mut src)?;
	}
	Ok(cases)
}
