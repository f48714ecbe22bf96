// Functions of `core` that the crate does not use now, but may use when it is changed. Nothing in the proof of the current
// tree rests on these; the search of property C17 compares every one of them with the real function.
pub mod vxstd {
use vstd::prelude::*;
use vstd::arithmetic::power::*;

// Option
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](x: Option<T>, d: U, f: F) -> (r: U)
    requires x is Some ==> f.requires((x->0,)),
    ensures match x { Some(v) => f.ensures((v,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](x: Option<T>, d: D, f: F) -> (r: U)
    requires match x { Some(v) => f.requires((v,)), None => d.requires(()) },
    ensures match x { Some(v) => f.ensures((v,), r), None => d.ensures((), r) };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](x: Option<T>, f: F) -> (r: bool)
    requires x is Some ==> f.requires((x->0,)),
    ensures match x { Some(v) => f.ensures((v,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](x: Option<T>, f: F) -> (r: bool)
    requires x is Some ==> f.requires((x->0,)),
    ensures match x { Some(v) => f.ensures((v,), r), None => r };
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](x: Option<T>, f: F) -> (r: Option<T>)
    requires x is Some ==> f.requires((&x->0,)),
    ensures match x { Some(v) => (r == Some(v) && f.ensures((&v,), true)) || (r is None && f.ensures((&v,), false)), None => r is None };
pub assume_specification<T>[ Option::<T>::or ](x: Option<T>, y: Option<T>) -> (r: Option<T>)
    ensures r == if x is Some { x } else { y };
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](x: Option<T>, f: F) -> (r: Option<T>)
    requires x is None ==> f.requires(()),
    ensures match x { Some(v) => r == x, None => f.ensures((), r) };
pub assume_specification<T, U>[ Option::<T>::and ](x: Option<T>, y: Option<U>) -> (r: Option<U>)
    ensures r == if x is Some { y } else { None };
pub assume_specification<T>[ Option::<T>::replace ](x: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(x), *final(x) == Some(v);
pub assume_specification<T: Copy>[ Option::<&T>::copied ](x: Option<&T>) -> (r: Option<T>)
    ensures r == match x { Some(v) => Some(*v), None => None };

// Result
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == match x { Ok(v) => v, Err(_) => d };
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](x: Result<T, E>, f: F) -> (r: T)
    requires x is Err ==> f.requires((x->Err_0,)),
    ensures match x { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or ](x: Result<T, E>, d: U, f: F) -> (r: U)
    requires x is Ok ==> f.requires((x->Ok_0,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(_) => r == d };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](x: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires x is Ok ==> f.requires((x->Ok_0,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else ](x: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires x is Err ==> f.requires((x->Err_0,)),
    ensures match x { Ok(v) => r == Ok::<T, G>(v), Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U>[ Result::<T, E>::and ](x: Result<T, E>, y: Result<U, E>) -> (r: Result<U, E>)
    ensures r == match x { Ok(_) => y, Err(e) => Err::<U, E>(e) };
pub assume_specification<T, E, G>[ Result::<T, E>::or ](x: Result<T, E>, y: Result<T, G>) -> (r: Result<T, G>)
    ensures r == match x { Ok(v) => Ok::<T, G>(v), Err(_) => y };
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](x: Result<T, E>, f: F) -> (r: bool)
    requires x is Ok ==> f.requires((x->Ok_0,)),
    ensures match x { Ok(v) => f.ensures((v,), r), Err(_) => !r };
pub assume_specification<T, E, F: FnOnce(E) -> bool>[ Result::<T, E>::is_err_and ](x: Result<T, E>, f: F) -> (r: bool)
    requires x is Err ==> f.requires((x->Err_0,)),
    ensures match x { Ok(_) => !r, Err(e) => f.ensures((e,), r) };

// bool
pub assume_specification<T>[ bool::then_some ](x: bool, v: T) -> (r: Option<T>)
    ensures r == if x { Some(v) } else { None };

// mem
pub assume_specification<T>[ core::mem::replace ](x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v;

// Slices
pub assume_specification<T>[ <[T]>::swap ](x: &mut [T], a: usize, b: usize)
    requires a < old(x)@.len(), b < old(x)@.len(),
    ensures final(x)@ == old(x)@.update(a as int, old(x)@[b as int]).update(b as int, old(x)@[a as int]);
pub assume_specification<T: Clone>[ <[T]>::fill ](x: &mut [T], v: T)
    ensures final(x)@.len() == old(x)@.len(), forall|i: int| 0 <= i < final(x)@.len() ==> vstd::pervasive::cloned(v, #[trigger] final(x)@[i]) || final(x)@[i] == v;

// Numbers
pub open spec fn dist(x: int, y: int) -> int { if x < y { y - x } else { x - y } }
pub open spec fn up(x: int, y: int) -> int { (x + y - 1) / y }

pub assume_specification[ u8::abs_diff ](x: u8, y: u8) -> (r: u8)
    ensures r == dist(x as int, y as int);
pub assume_specification[ u8::next_multiple_of ](x: u8, y: u8) -> (r: u8)
    requires y > 0, up(x as int, y as int) * y <= u8::MAX,
    ensures r == up(x as int, y as int) * y;
pub assume_specification[ u8::overflowing_add ](x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 == (x + y > u8::MAX), r.0 == if x + y > u8::MAX { x + y - u8::MAX - 1 } else { x + y };
pub assume_specification[ u8::overflowing_sub ](x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 == (x < y), r.0 == if x < y { x - y + u8::MAX + 1 } else { x - y };
pub assume_specification[ u8::rem_euclid ](x: u8, y: u8) -> (r: u8)
    requires y > 0,
    ensures r == x % y;
pub assume_specification[ u8::is_power_of_two ](x: u8) -> (r: bool)
    ensures r == (x != 0 && x & sub(x, 1) == 0);
pub assume_specification[ u8::pow ](x: u8, n: u32) -> (r: u8)
    requires pow(x as int, n as nat) <= u8::MAX,
    ensures r == pow(x as int, n as nat);
pub assume_specification[ u8::div_ceil ](x: u8, y: u8) -> (r: u8)
    requires y > 0,
    ensures r == up(x as int, y as int);
pub assume_specification[ u8::rotate_left ](x: u8, n: u32) -> (r: u8)
    ensures r == if n % 8 == 0 { x } else { (x << (n % 8)) | (x >> sub(8u32, n % 8)) };
pub assume_specification[ u8::rotate_right ](x: u8, n: u32) -> (r: u8)
    ensures r == if n % 8 == 0 { x } else { (x >> (n % 8)) | (x << sub(8u32, n % 8)) };
pub assume_specification[ u8::checked_shl ](x: u8, n: u32) -> (r: Option<u8>)
    ensures r == if n < 8 { Some((x << n) as u8) } else { None };
pub assume_specification[ u8::checked_shr ](x: u8, n: u32) -> (r: Option<u8>)
    ensures r == if n < 8 { Some(x >> n) } else { None };

pub assume_specification[ u16::abs_diff ](x: u16, y: u16) -> (r: u16)
    ensures r == dist(x as int, y as int);
pub assume_specification[ u16::next_multiple_of ](x: u16, y: u16) -> (r: u16)
    requires y > 0, up(x as int, y as int) * y <= u16::MAX,
    ensures r == up(x as int, y as int) * y;
pub assume_specification[ u16::overflowing_add ](x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 == (x + y > u16::MAX), r.0 == if x + y > u16::MAX { x + y - u16::MAX - 1 } else { x + y };
pub assume_specification[ u16::overflowing_sub ](x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 == (x < y), r.0 == if x < y { x - y + u16::MAX + 1 } else { x - y };
pub assume_specification[ u16::rem_euclid ](x: u16, y: u16) -> (r: u16)
    requires y > 0,
    ensures r == x % y;
pub assume_specification[ u16::is_power_of_two ](x: u16) -> (r: bool)
    ensures r == (x != 0 && x & sub(x, 1) == 0);
pub assume_specification[ u16::pow ](x: u16, n: u32) -> (r: u16)
    requires pow(x as int, n as nat) <= u16::MAX,
    ensures r == pow(x as int, n as nat);
pub assume_specification[ u16::div_ceil ](x: u16, y: u16) -> (r: u16)
    requires y > 0,
    ensures r == up(x as int, y as int);
pub assume_specification[ u16::rotate_left ](x: u16, n: u32) -> (r: u16)
    ensures r == if n % 16 == 0 { x } else { (x << (n % 16)) | (x >> sub(16u32, n % 16)) };
pub assume_specification[ u16::rotate_right ](x: u16, n: u32) -> (r: u16)
    ensures r == if n % 16 == 0 { x } else { (x >> (n % 16)) | (x << sub(16u32, n % 16)) };
pub assume_specification[ u16::checked_shl ](x: u16, n: u32) -> (r: Option<u16>)
    ensures r == if n < 16 { Some((x << n) as u16) } else { None };
pub assume_specification[ u16::checked_shr ](x: u16, n: u32) -> (r: Option<u16>)
    ensures r == if n < 16 { Some(x >> n) } else { None };

pub assume_specification[ u32::abs_diff ](x: u32, y: u32) -> (r: u32)
    ensures r == dist(x as int, y as int);
pub assume_specification[ u32::next_multiple_of ](x: u32, y: u32) -> (r: u32)
    requires y > 0, up(x as int, y as int) * y <= u32::MAX,
    ensures r == up(x as int, y as int) * y;
pub assume_specification[ u32::overflowing_add ](x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 == (x + y > u32::MAX), r.0 == if x + y > u32::MAX { x + y - u32::MAX - 1 } else { x + y };
pub assume_specification[ u32::overflowing_sub ](x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 == (x < y), r.0 == if x < y { x - y + u32::MAX + 1 } else { x - y };
pub assume_specification[ u32::rem_euclid ](x: u32, y: u32) -> (r: u32)
    requires y > 0,
    ensures r == x % y;
pub assume_specification[ u32::is_power_of_two ](x: u32) -> (r: bool)
    ensures r == (x != 0 && x & sub(x, 1) == 0);
pub assume_specification[ u32::pow ](x: u32, n: u32) -> (r: u32)
    requires pow(x as int, n as nat) <= u32::MAX,
    ensures r == pow(x as int, n as nat);
pub assume_specification[ u32::div_ceil ](x: u32, y: u32) -> (r: u32)
    requires y > 0,
    ensures r == up(x as int, y as int);
pub assume_specification[ u32::rotate_left ](x: u32, n: u32) -> (r: u32)
    ensures r == if n % 32 == 0 { x } else { (x << (n % 32)) | (x >> sub(32u32, n % 32)) };
pub assume_specification[ u32::rotate_right ](x: u32, n: u32) -> (r: u32)
    ensures r == if n % 32 == 0 { x } else { (x >> (n % 32)) | (x << sub(32u32, n % 32)) };
pub assume_specification[ u32::checked_shl ](x: u32, n: u32) -> (r: Option<u32>)
    ensures r == if n < 32 { Some((x << n) as u32) } else { None };
pub assume_specification[ u32::checked_shr ](x: u32, n: u32) -> (r: Option<u32>)
    ensures r == if n < 32 { Some(x >> n) } else { None };

pub assume_specification[ u64::abs_diff ](x: u64, y: u64) -> (r: u64)
    ensures r == dist(x as int, y as int);
pub assume_specification[ u64::next_multiple_of ](x: u64, y: u64) -> (r: u64)
    requires y > 0, up(x as int, y as int) * y <= u64::MAX,
    ensures r == up(x as int, y as int) * y;
pub assume_specification[ u64::overflowing_add ](x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 == (x + y > u64::MAX), r.0 == if x + y > u64::MAX { x + y - u64::MAX - 1 } else { x + y };
pub assume_specification[ u64::overflowing_sub ](x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 == (x < y), r.0 == if x < y { x - y + u64::MAX + 1 } else { x - y };
pub assume_specification[ u64::rem_euclid ](x: u64, y: u64) -> (r: u64)
    requires y > 0,
    ensures r == x % y;
pub assume_specification[ u64::is_power_of_two ](x: u64) -> (r: bool)
    ensures r == (x != 0 && x & sub(x, 1) == 0);
pub assume_specification[ u64::pow ](x: u64, n: u32) -> (r: u64)
    requires pow(x as int, n as nat) <= u64::MAX,
    ensures r == pow(x as int, n as nat);
pub assume_specification[ u64::rotate_left ](x: u64, n: u32) -> (r: u64)
    ensures r == if n % 64 == 0 { x } else { (x << (n % 64)) | (x >> sub(64u32, n % 64)) };
pub assume_specification[ u64::rotate_right ](x: u64, n: u32) -> (r: u64)
    ensures r == if n % 64 == 0 { x } else { (x >> (n % 64)) | (x << sub(64u32, n % 64)) };
pub assume_specification[ u64::checked_shl ](x: u64, n: u32) -> (r: Option<u64>)
    ensures r == if n < 64 { Some((x << n) as u64) } else { None };
pub assume_specification[ u64::checked_shr ](x: u64, n: u32) -> (r: Option<u64>)
    ensures r == if n < 64 { Some(x >> n) } else { None };

pub assume_specification[ usize::abs_diff ](x: usize, y: usize) -> (r: usize)
    ensures r == dist(x as int, y as int);
pub assume_specification[ usize::next_multiple_of ](x: usize, y: usize) -> (r: usize)
    requires y > 0, up(x as int, y as int) * y <= usize::MAX,
    ensures r == up(x as int, y as int) * y;
pub assume_specification[ usize::overflowing_add ](x: usize, y: usize) -> (r: (usize, bool))
    ensures r.1 == (x + y > usize::MAX), r.0 == if x + y > usize::MAX { x + y - usize::MAX - 1 } else { x + y };
pub assume_specification[ usize::overflowing_sub ](x: usize, y: usize) -> (r: (usize, bool))
    ensures r.1 == (x < y), r.0 == if x < y { x - y + usize::MAX + 1 } else { x - y };
pub assume_specification[ usize::rem_euclid ](x: usize, y: usize) -> (r: usize)
    requires y > 0,
    ensures r == x % y;
pub assume_specification[ usize::is_power_of_two ](x: usize) -> (r: bool)
    ensures r == (x != 0 && x & sub(x, 1) == 0);
pub assume_specification[ usize::pow ](x: usize, n: u32) -> (r: usize)
    requires pow(x as int, n as nat) <= usize::MAX,
    ensures r == pow(x as int, n as nat);
pub assume_specification[ usize::div_ceil ](x: usize, y: usize) -> (r: usize)
    requires y > 0,
    ensures r == up(x as int, y as int);

use vstd::std_specs::cmp::*;
pub assume_specification<T: Ord>[ core::cmp::min ](x: T, y: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if x.cmp_spec(&y) == core::cmp::Ordering::Greater { y } else { x };
pub assume_specification<T: Ord>[ core::cmp::max ](x: T, y: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if x.cmp_spec(&y) == core::cmp::Ordering::Greater { x } else { y };

pub assume_specification[ u16::swap_bytes ](x: u16) -> (r: u16)
    ensures r == (x << 8) | (x >> 8);
pub assume_specification[ u32::swap_bytes ](x: u32) -> (r: u32)
    ensures r == (x << 24) | ((x & 0xFF00) << 8) | ((x >> 8) & 0xFF00) | (x >> 24);
}
