// Interface types that stand for what the crate takes from outside: see DESIGN.md, "Trusted base".
pub mod vx {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;

/// A panic that is not documented behaviour: an obligation.
#[verifier::external_body]
pub const fn vpanic<T>() -> (r: T)
    requires false,
{ panic!() }

/// A panic that the documentation announces; `ok` is the documented condition, an obligation.
#[verifier::external_body]
pub const fn documented_panic<T>(ok: Ghost<bool>) -> (r: T)
    requires ok@,
    ensures false,
{ panic!() }

/// Whether debug assertions are compiled in: not known, so nothing may rest on them.
#[verifier::external_body]
pub const fn debug_assertions() -> bool
{ cfg!(debug_assertions) }

/// The caller of this function accepts a panic that the documentation announces.
pub uninterp spec fn announced() -> bool;

/// What `AsRef<[u8]> + AsMut<[u8]>` gives for buffers: a fixed sequence of bytes.
pub trait ByteBuf {
    spec fn bytes(&self) -> Seq<u8>;
    /// The language limits the size of a slice.
    proof fn bound(&self)
        ensures self.bytes().len() <= isize::MAX;
    fn as_ref(&self) -> (r: &[u8])
        ensures r@ == self.bytes();
    fn as_mut(&mut self) -> (r: &mut [u8])
        ensures
            (*r)@ == old(self).bytes(),
            final(self).bytes() == (*final(r))@;
}

/// What `AsRef<[u8]>` gives for data.
pub trait ByteSrc {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8])
        ensures r@ == self.bytes();
}

/// What `AsRef<T>` gives for sized `T`.
pub trait RefTo<T> {
    spec fn target(&self) -> T;
    fn as_ref(&self) -> (r: &T)
        ensures *r == self.target();
}

/// `T: From<&[u8]>`: the value made of some bytes.
pub uninterp spec fn made_of<T>(t: T, bytes: Seq<u8>) -> bool;

pub trait FromBytes: Sized {
    fn from(bytes: &[u8]) -> (r: Self)
        ensures made_of(r, bytes@);
}

/// `[u8]: Borrow<T>`: the value borrowed from some bytes.
pub uninterp spec fn borrowed_from<T>(t: T, bytes: Seq<u8>) -> bool;

pub trait BorrowBytes: Sized {
    fn borrow_bytes(bytes: &[u8]) -> (r: &Self)
        ensures borrowed_from(*r, bytes@);
}

pub fn borrow_bytes<T: BorrowBytes>(bytes: &[u8]) -> (r: &T)
    ensures borrowed_from(*r, bytes@),
{ T::borrow_bytes(bytes) }

/// Slices, arrays and vectors in `for` loops.
pub trait VxSlice<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_slice(&self) -> (r: &[T])
        ensures r@ == self.vx_seq();
}

impl<T> VxSlice<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self }
}

impl<T, const N: usize> VxSlice<T> for [T; N] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}

impl<T> VxSlice<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}

/// `==` of byte slices.
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }

/// The conversion that `?` makes of an error.
#[verifier::external_body]
pub fn try_err<A, B: From<A>>(e: A) -> (r: B)
    ensures
        vstd::std_specs::control_flow::spec_from(e, r),
        <B as FromSpec<A>>::obeys_from_spec() ==> r == <B as FromSpec<A>>::from_spec(e),
{ B::from(e) }

/// `starts_with` of byte slices.
#[verifier::external_body]
pub fn slice_starts_with(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (b@.len() <= a@.len() && forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == a@[i]),
{ a.starts_with(b) }

#[verifier::external_body]
pub fn slice_to_array<const N: usize>(x: &[u8]) -> (r: [u8; N])
    requires x@.len() == N,
    ensures r@ == x@,
{ x.try_into().unwrap() }

#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{ vec![x; n] }

/// `to_owned` and `to_vec` of byte slices.
pub trait VxToVec {
    spec fn vx_bytes(&self) -> Seq<u8>;
    fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.vx_bytes();
}

impl VxToVec for [u8] {
    open spec fn vx_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}

pub assume_specification[ u64::div_ceil ](x: u64, y: u64) -> (r: u64)
    requires y > 0,
    ensures r == (x + y - 1) / (y as int);

/// `core::time::Duration`, with the documented panics on overflow as preconditions.
#[derive(Clone, Copy)]
pub struct Duration { pub secs: u64, pub nanos: u32 }

impl Duration {
    pub open spec fn ns(self) -> int { self.secs * 1_000_000_000 + self.nanos }
    pub open spec fn max_ns() -> int { u64::MAX * 1_000_000_000 + 999_999_999 }
    #[verifier::external_body]
    pub fn new(secs: u64, nanos: u32) -> (r: Self)
        requires secs * 1_000_000_000 + nanos <= Self::max_ns(),
        ensures r.ns() == secs * 1_000_000_000 + nanos,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(ms: u64) -> (r: Self)
        ensures r.ns() == ms * 1_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_micros(us: u64) -> (r: Self)
        ensures r.ns() == us * 1_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(ns: u64) -> (r: Self)
        ensures r.ns() == ns,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Self)
        ensures r.ns() == s * 1_000_000_000,
    { unimplemented!() }
}

/// More of `core::time::Duration`.
impl Duration {
    pub const ZERO: Duration = Duration { secs: 0, nanos: 0 };
    pub const MAX: Duration = Duration { secs: u64::MAX, nanos: 999_999_999 };
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64)
        ensures r == self.ns() / 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128)
        ensures r == self.ns() / 1_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_micros(&self) -> (r: u128)
        ensures r == self.ns() / 1_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128)
        ensures r == self.ns(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32)
        ensures r == self.ns() % 1_000_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_micros(&self) -> (r: u32)
        ensures r == self.ns() % 1_000_000_000 / 1_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_millis(&self) -> (r: u32)
        ensures r == self.ns() % 1_000_000_000 / 1_000_000,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool)
        ensures r == (self.ns() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, other: Duration) -> (r: Duration)
        ensures r == if other.ns() >= self.ns() { other } else { self },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, other: Duration) -> (r: Duration)
        ensures r == if other.ns() < self.ns() { other } else { self },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, low: Duration, high: Duration) -> (r: Duration)
        requires low.ns() <= high.ns(),
        ensures r == if self.ns() < low.ns() { low } else if self.ns() > high.ns() { high } else { self },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, other: Duration) -> (r: Option<Duration>)
        ensures
            r is Some <==> self.ns() + other.ns() <= Self::max_ns(),
            r is Some ==> r->0.ns() == self.ns() + other.ns(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, other: Duration) -> (r: Option<Duration>)
        ensures
            r is Some <==> self.ns() >= other.ns(),
            r is Some ==> r->0.ns() == self.ns() - other.ns(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, factor: u32) -> (r: Option<Duration>)
        ensures
            r is Some <==> self.ns() * factor <= Self::max_ns(),
            r is Some ==> r->0.ns() == self.ns() * factor,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, other: Duration) -> (r: Duration)
        ensures r.ns() == if self.ns() + other.ns() <= Self::max_ns() { self.ns() + other.ns() } else { Self::max_ns() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, other: Duration) -> (r: Duration)
        ensures r.ns() == if self.ns() >= other.ns() { self.ns() - other.ns() } else { 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, factor: u32) -> (r: Duration)
        ensures r.ns() == if self.ns() * factor <= Self::max_ns() { self.ns() * factor } else { Self::max_ns() },
    { unimplemented!() }
}

/// `self - other`: the standard library panics below zero.
impl core::ops::Sub for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, other: Duration) -> Duration { unimplemented!() }
}
impl SubSpecImpl for Duration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, other: Duration) -> bool { self.ns() >= other.ns() }
    open spec fn sub_spec(self, other: Duration) -> Duration { Duration::of_ns(self.ns() - other.ns()) }
}

/// `self / divisor`: the standard library panics when it is zero.
impl core::ops::Div<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn div(self, divisor: u32) -> Duration { unimplemented!() }
}
impl DivSpecImpl<u32> for Duration {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, divisor: u32) -> bool { divisor != 0 }
    open spec fn div_spec(self, divisor: u32) -> Duration { Duration::of_ns(self.ns() / divisor as int) }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Duration) -> bool { self.ns() == other.ns() }
}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, other: &Duration) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Duration) -> Option<core::cmp::Ordering> {
        if self.ns() < other.ns() { Some(core::cmp::Ordering::Less) }
        else if self.ns() == other.ns() { Some(core::cmp::Ordering::Equal) }
        else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Duration) -> Option<core::cmp::Ordering> { unimplemented!() }
}

/// The events on a serial port, with the answer of the port.
pub enum Event<E, I> {
    Discard(Result<(), E>),
    Write(Seq<u8>, Result<(), E>),
    Read(I, Result<Seq<u8>, E>),
    SetBaud(u32, Result<(), E>),
}

/// `deadline` was made for `ns` nanoseconds by the serial port.
pub uninterp spec fn deadline_for<I>(ns: int, deadline: I) -> bool;

/// The error is a time-out, by the serial port.
pub uninterp spec fn timeout_error<E>(e: E) -> bool;

impl Duration {
    pub open spec fn of_ns(n: int) -> Duration {
        Duration { secs: (n / 1_000_000_000) as u64, nanos: (n % 1_000_000_000) as u32 }
    }
}

/// `self + other`: the standard library panics on overflow.
impl core::ops::Add for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, other: Duration) -> Duration { unimplemented!() }
}
impl AddSpecImpl for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, other: Duration) -> bool { self.ns() + other.ns() <= Duration::max_ns() }
    open spec fn add_spec(self, other: Duration) -> Duration { Duration::of_ns(self.ns() + other.ns()) }
}

/// `self * factor`: the standard library panics on overflow.
impl core::ops::Mul<u32> for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn mul(self, factor: u32) -> Duration { unimplemented!() }
}
impl MulSpecImpl<u32> for Duration {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, factor: u32) -> bool { self.ns() * factor <= Duration::max_ns() }
    open spec fn mul_spec(self, factor: u32) -> Duration { Duration::of_ns(self.ns() * factor) }
}

/// The language limits the size of a slice.
pub axiom fn slice_bound<T>(s: &[T])
    ensures s@.len() <= isize::MAX;

pub axiom fn vec_bound(v: &Vec<u8>)
    ensures v@.len() <= isize::MAX;

impl ByteBuf for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    proof fn bound(&self) { vec_bound(self); }
    fn as_ref(&self) -> (r: &[u8]) { self.as_slice() }
    fn as_mut(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() }
}

/// What `IntoIterator<Item = T>` with an `ExactSizeIterator` gives: a fixed sequence of items.
pub trait Items: Sized {
    type Item;
    type Iter: ItemsIter<Item = Self::Item>;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::Iter)
        ensures r.rest() == self.items();
}

pub trait ItemsIter: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn len(&self) -> (r: usize)
        ensures r == self.rest().len();
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}

/// What `&I: IntoIterator` gives, with a cloneable iterator over things that borrow as `X`.
pub trait RefItems<X>: Sized {
    type Iter: RefItemsIter<X>;
    spec fn items(&self) -> Seq<X>;
    fn into_iter(&self) -> (r: Self::Iter)
        ensures r.rest() == self.items();
}

pub trait RefItemsIter<X>: Sized {
    type Item: RefItem<X>;
    spec fn rest(&self) -> Seq<X>;
    fn clone(&self) -> (r: Self)
        ensures r.rest() == self.rest();
    fn take(self, n: usize) -> (r: Self)
        ensures r.rest() == self.rest().take(if n <= self.rest().len() { n as int } else { self.rest().len() as int });
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r.is_some() && r->0.target() == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1);
}

pub trait RefItem<X>: Sized {
    spec fn target(&self) -> X;
    fn borrow(&self) -> (r: &X)
        ensures *r == self.target();
}

/// The `k` lowest bytes of `n`, lowest first.
pub open spec fn le_seq(n: nat, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { seq![] } else { seq![(n % 256) as u8] + le_seq(n / 256, (k - 1) as nat) }
}

/// `to_le_bytes` and `from_le_bytes` of the standard library.
pub trait LeNum<const N: usize>: Sized {
    spec fn unsigned(&self) -> nat;
    fn vx_to_le_bytes(&self) -> (r: [u8; N])
        ensures r@ == le_seq(self.unsigned(), N as nat);
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self)
        ensures le_seq(r.unsigned(), N as nat) == b@;
}

impl LeNum<1> for u8 {
    open spec fn unsigned(&self) -> nat { (*self as u8) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 1]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<2> for u16 {
    open spec fn unsigned(&self) -> nat { (*self as u16) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 2]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<4> for u32 {
    open spec fn unsigned(&self) -> nat { (*self as u32) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 4]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<8> for u64 {
    open spec fn unsigned(&self) -> nat { (*self as u64) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<16> for u128 {
    open spec fn unsigned(&self) -> nat { (*self as u128) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 16]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<1> for i8 {
    open spec fn unsigned(&self) -> nat { (*self as u8) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 1]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 1]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<2> for i16 {
    open spec fn unsigned(&self) -> nat { (*self as u16) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 2]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<4> for i32 {
    open spec fn unsigned(&self) -> nat { (*self as u32) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 4]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<8> for i64 {
    open spec fn unsigned(&self) -> nat { (*self as u64) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { Self::from_le_bytes(b) }
}

impl LeNum<16> for i128 {
    open spec fn unsigned(&self) -> nat { (*self as u128) as nat }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 16]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_from_le_bytes(b: [u8; 16]) -> (r: Self) { Self::from_le_bytes(b) }
}
}
