// The encoded form of values and the answers made of status packets.
pub mod data_spec {
use vstd::prelude::*;
use crate::bus::data::Data;
use crate::vx::*;
use crate::*;

/// The encoded elements one after another.
pub open spec fn flat<T: Data>(s: Seq<T>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last().encoded() }
}

/// The value of the array constant. The function made of its initialiser is checked to give this value
/// (or not to compile), see "companion functions" in DESIGN.md.
pub axiom fn array_size<T: Data, const N: usize>()
    ensures <[T; N] as Data>::ENCODED_SIZE == T::ENCODED_SIZE * N;

pub proof fn slot(i: int, n: int, size: int)
    requires 0 <= i < n, 0 <= size,
    ensures 0 <= i * size, (i + 1) * size == i * size + size, i * size + size <= size * n, size * n == n * size,
{
    assert((i + 1) * size == i * size + size) by (nonlinear_arith);
    assert((i + 1) * size <= n * size) by (nonlinear_arith) requires i + 1 <= n, 0 <= size;
    assert(0 <= i * size) by (nonlinear_arith) requires 0 <= i, 0 <= size;
    assert(size * n == n * size) by (nonlinear_arith);
}

pub proof fn all_slots(i: int, n: int, size: int)
    requires i == n,
    ensures i * size == size * n,
{
    assert(i * size == size * i) by (nonlinear_arith);
}

pub open spec fn error_of(d: Seq<u8>) -> u8 { d[8] }

/// The answer made of the contents of a status packet, for a typed value.
pub open spec fn typed_response<T: Data, E>(d: Seq<u8>, r: Result<Response<T>, ReadError<E>>) -> bool {
    if d[8] & 0x7f != 0 { r == Err::<Response<T>, ReadError<E>>(ReadError::MotorError(MotorError { raw: d[8] })) }
    else {
        match r {
            Ok(x) => x.motor_id == d[4] && x.alert == (d[8] & 0x80 != 0)
                && d.skip(9).len() == T::ENCODED_SIZE && x.data.encoded() == d.skip(9),
            Err(ReadError::InvalidMessage(e)) => T::total() ==> (d.skip(9).len() != T::ENCODED_SIZE && e == InvalidMessage::InvalidParameterCount(
                InvalidParameterCount { actual: d.skip(9).len() as usize, expected: ExpectedCount::Exact(T::ENCODED_SIZE as usize) })),
            Err(_) => false,
        }
    }
}

pub open spec fn bytes_response<T>(d: Seq<u8>, r: Result<Response<T>, MotorError>) -> bool {
    match r {
        Ok(x) => d[8] & 0x7f == 0 && x.motor_id == d[4] && x.alert == (d[8] & 0x80 != 0) && made_of(x.data, d.skip(9)),
        Err(e) => d[8] & 0x7f != 0 && e.raw == d[8],
    }
}

pub open spec fn borrow_response<T>(d: Seq<u8>, r: Result<Response<&T>, MotorError>) -> bool {
    match r {
        Ok(x) => d[8] & 0x7f == 0 && x.motor_id == d[4] && x.alert == (d[8] & 0x80 != 0) && borrowed_from(*x.data, d.skip(9)),
        Err(e) => d[8] & 0x7f != 0 && e.raw == d[8],
    }
}

/// Decoding gives back the value: the little endian form determines it.
pub proof fn le_injective(a: nat, b: nat, k: nat)
    requires le_seq(a, k) == le_seq(b, k), a < pow256(k), b < pow256(k),
    ensures a == b,
    decreases k,
{
    if k > 0 {
        let (x, y) = (le_seq(a, k), le_seq(b, k));
        assert(x.skip(1) =~= le_seq(a / 256, (k - 1) as nat));
        assert(y.skip(1) =~= le_seq(b / 256, (k - 1) as nat));
        assert(x[0] == y[0]);
        assert(a / 256 < pow256((k - 1) as nat) && b / 256 < pow256((k - 1) as nat)) by (nonlinear_arith)
            requires a < 256 * pow256((k - 1) as nat), b < 256 * pow256((k - 1) as nat);
        le_injective(a / 256, b / 256, (k - 1) as nat);
    }
}

pub open spec fn pow256(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) }
}
}
