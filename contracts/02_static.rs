// Statics of the macro `static_buffer!`: a flag and the memory that it guards.
//
// The memory may be referenced only by who holds the permission for it (`Held`). The permission exists once: at the
// start it lies with the flag, as the flag is false; who turns the flag from false to true takes it. This holds for all
// interleavings, as the operations of the flag are atomic. The initial contents are there before any thread runs,
// so the ordering of memory operations does not matter.
pub mod vxst {
use vstd::prelude::*;

/// The permission for the memory, or nothing.
pub tracked struct Held { pub ghost some: bool }

#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }

#[verifier::external_body]
pub struct AtomicBool { x: u8 }

/// Some evaluation took the memory and did not give it back, at some time until now. That it holds, holds for ever.
pub uninterp spec fn taken() -> bool;

/// The memory is not available, and this evaluation is not the one that has it.
pub open spec fn used_before(held: Tracked<Held>) -> bool { !held@.some && taken() }

pub assume_specification<T, const M: usize>[ <[T; M]>::as_mut_slice ](a: &mut [T; M]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@;

#[verifier::external_body]
pub fn nothing() -> (r: Tracked<Held>)
    ensures !r@.some,
{ unimplemented!() }

/// The flag, in whatever state it is now.
#[verifier::external_body]
pub fn flag(init: AtomicBool) -> (r: AtomicBool)
    requires !init.start(),
{ unimplemented!() }

impl AtomicBool {
    pub uninterp spec fn start(&self) -> bool;

    #[verifier::external_body]
    pub const fn new(v: bool) -> (r: Self)
        ensures r.start() == v,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn swap(&self, v: bool, order: Ordering, held: &mut Tracked<Held>) -> (r: bool)
        requires
            v || old(held)@.some,
        ensures
            v ==> final(held)@.some == (old(held)@.some || !r),
            !v ==> !final(held)@.some,
            old(held)@.some ==> r,
            r && !old(held)@.some ==> taken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn fetch_or(&self, v: bool, order: Ordering, held: &mut Tracked<Held>) -> (r: bool)
        ensures
            final(held)@.some == (old(held)@.some || v && !r),
            old(held)@.some ==> r,
            r && !old(held)@.some ==> taken(),
    { unimplemented!() }

    /// Turning the flag over may give the permission to somebody a second time.
    #[verifier::external_body]
    pub fn fetch_xor(&self, v: bool, order: Ordering, held: &mut Tracked<Held>) -> (r: bool)
        requires
            !v,
        ensures
            final(held)@.some == old(held)@.some,
            old(held)@.some ==> r,
            r && !old(held)@.some ==> taken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn compare_exchange(&self, current: bool, new: bool, success: Ordering, failure: Ordering, held: &mut Tracked<Held>) -> (r: Result<bool, bool>)
        requires
            !current && new,
        ensures
            r is Ok ==> !r->Ok_0 && !old(held)@.some && final(held)@.some,
            r is Err ==> r->Err_0 && final(held)@.some == old(held)@.some,
            r is Err && !old(held)@.some ==> taken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, current: bool, new: bool, success: Ordering, failure: Ordering, held: &mut Tracked<Held>) -> (r: Result<bool, bool>)
        requires
            !current && new,
        ensures
            r is Ok ==> !r->Ok_0 && !old(held)@.some && final(held)@.some,
            r is Err ==> final(held)@.some == old(held)@.some,
            r is Err && r->Err_0 && !old(held)@.some ==> taken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn load(&self, order: Ordering, held: &mut Tracked<Held>) -> (r: bool)
        ensures
            final(held)@.some == old(held)@.some,
            old(held)@.some ==> r,
            r && !old(held)@.some ==> taken(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn store(&self, v: bool, order: Ordering, held: &mut Tracked<Held>)
        requires
            // False gives the permission back; true must not lose it.
            if v { old(held)@.some || taken() } else { old(held)@.some },
        ensures
            final(held)@.some == (v && old(held)@.some),
    { unimplemented!() }
}

/// The memory, with its initial contents.
#[verifier::external_body]
pub struct Memory<const M: usize> { x: u8 }

#[verifier::external_body]
pub struct Raw<const M: usize> { x: u8 }

impl<const M: usize> Clone for Raw<M> {
    #[verifier::external_body]
    fn clone(&self) -> Self { *self }
}
impl<const M: usize> Copy for Raw<M> {}

#[verifier::external_body]
pub struct RawBytes<const M: usize> { x: u8 }

impl<const M: usize> Clone for RawBytes<M> {
    #[verifier::external_body]
    fn clone(&self) -> Self { *self }
}
impl<const M: usize> Copy for RawBytes<M> {}

#[verifier::external_body]
pub fn memory<const M: usize>(init: [u8; M]) -> (r: Memory<M>)
    ensures r.start() == init@,
{ unimplemented!() }

impl<const M: usize> Memory<M> {
    pub uninterp spec fn start(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn raw(&self) -> (r: Raw<M>)
        ensures r.start() == self.start(),
    { unimplemented!() }
}

impl<const M: usize> Raw<M> {
    pub uninterp spec fn start(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn vx_reborrow(self, held: &mut Tracked<Held>) -> (r: &'static mut [u8; M])
        requires old(held)@.some,
        ensures !final(held)@.some, r@ == self.start(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn cast<T>(self) -> (r: RawBytes<M>)
        ensures r.start() == self.start(),
    { unimplemented!() }
}

impl<const M: usize> RawBytes<M> {
    pub uninterp spec fn start(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn vx_slice(self, n: usize, held: &mut Tracked<Held>) -> (r: &'static mut [u8])
        requires old(held)@.some, n <= M,
        ensures !final(held)@.some, r@ == self.start().take(n as int),
    { unimplemented!() }
}

}
