// Memory that may be uninitialised, and values that are not dropped: `core::mem::{MaybeUninit, ManuallyDrop}`.
//
// A slot holds a value or nothing. Writing to a slot that holds a value would leak it; taking a value from a slot that
// holds none would be undefined behaviour; both are preconditions. What is dropped when a variable goes out of scope is
// not the verifier's business: it is decided by the contract of `Drop::drop` for every state that the type can have.
pub mod vxm {
use vstd::prelude::*;

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T> { x: core::mem::MaybeUninit<T> }

impl<T> MaybeUninit<T> {
    /// What the slot holds.
    pub uninterp spec fn val(&self) -> Option<T>;

    #[verifier::external_body]
    pub const fn uninit() -> (r: Self)
        ensures r.val() is None,
    { unimplemented!() }

    #[verifier::external_body]
    pub const fn new(value: T) -> (r: Self)
        ensures r.val() == Some(value),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn write(&mut self, value: T)
        requires old(self).val() is None,
        ensures final(self).val() == Some(value),
    { unimplemented!() }

    #[verifier::external_body]
    pub unsafe fn assume_init_drop(&mut self)
        requires old(self).val() is Some,
        ensures final(self).val() is None,
    { unimplemented!() }

    #[verifier::external_body]
    pub unsafe fn assume_init_ref(&self) -> (r: &T)
        requires self.val() is Some,
        ensures Some(*r) == self.val(),
    { unimplemented!() }

    #[verifier::external_body]
    pub unsafe fn assume_init(self) -> (r: T)
        requires self.val() is Some,
        ensures Some(r) == self.val(),
    { unimplemented!() }
}

/// `[const { MaybeUninit::uninit() }; N]`
#[verifier::external_body]
pub fn uninit_array<T, const N: usize>() -> (r: [MaybeUninit<T>; N])
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r@[i]).val() is None,
{ unimplemented!() }

/// `core::mem::ManuallyDrop`
pub struct ManuallyDrop<A> { pub inner: A }

impl<A> ManuallyDrop<A> {
    #[verifier::external_body]
    pub const fn new(inner: A) -> (r: Self)
        ensures r.inner == inner,
    { unimplemented!() }
}

/// `core::ptr::read(x.field.as_ptr().cast())` of an `x: ManuallyDrop<_>`: the values move out, and `x` is used no more.
#[verifier::external_body]
pub unsafe fn read_out<T, const N: usize>(slots: [MaybeUninit<T>; N]) -> (r: [T; N])
    requires forall|i: int| 0 <= i < N ==> (#[trigger] slots@[i]).val() is Some,
    ensures forall|i: int| 0 <= i < N ==> Some(#[trigger] r@[i]) == slots@[i].val(),
{ unimplemented!() }
}
