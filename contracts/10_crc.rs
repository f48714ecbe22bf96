// CRC-16, polynomial 0x8005, as Protocol 2.0 defines it: bit by bit.
pub mod crc {
use vstd::prelude::*;
use crate::checksum::TABLE;

pub open spec fn crc_bit(c: u16) -> u16 {
    if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 }
}

pub open spec fn crc8(c: u16) -> u16 {
    crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(crc_bit(c))))))))
}

pub open spec fn crc_byte(c: u16, b: u8) -> u16 {
    crc8(c ^ ((b as u16) << 8))
}

pub open spec fn crc(init: u16, s: Seq<u8>) -> u16
    decreases s.len(),
{
    if s.len() == 0 { init } else { crc_byte(crc(init, s.drop_last()), s.last()) }
}

proof fn bit_linear(x: u16, y: u16)
    ensures crc_bit(x ^ y) == crc_bit(x) ^ crc_bit(y),
{
    assert((if (x ^ y) & 0x8000 != 0 { ((x ^ y) << 1) ^ 0x8005 } else { (x ^ y) << 1 })
        == (if x & 0x8000 != 0 { (x << 1) ^ 0x8005 } else { x << 1 })
         ^ (if y & 0x8000 != 0 { (y << 1) ^ 0x8005 } else { y << 1 })) by (bit_vector);
}

proof fn crc8_linear(x: u16, y: u16)
    ensures crc8(x ^ y) == crc8(x) ^ crc8(y),
{
    let (x1, y1) = (crc_bit(x), crc_bit(y));
    let (x2, y2) = (crc_bit(x1), crc_bit(y1));
    let (x3, y3) = (crc_bit(x2), crc_bit(y2));
    let (x4, y4) = (crc_bit(x3), crc_bit(y3));
    let (x5, y5) = (crc_bit(x4), crc_bit(y4));
    let (x6, y6) = (crc_bit(x5), crc_bit(y5));
    let (x7, y7) = (crc_bit(x6), crc_bit(y6));
    bit_linear(x, y); bit_linear(x1, y1); bit_linear(x2, y2); bit_linear(x3, y3);
    bit_linear(x4, y4); bit_linear(x5, y5); bit_linear(x6, y6); bit_linear(x7, y7);
}

proof fn crc8_low(x: u16)
    requires x < 256,
    ensures crc8(x) == x << 8,
{
    let x1 = x << 1; let x2 = x << 2; let x3 = x << 3; let x4 = x << 4;
    let x5 = x << 5; let x6 = x << 6; let x7 = x << 7;
    assert(x & 0x8000 == 0 && x1 & 0x8000 == 0 && x2 & 0x8000 == 0 && x3 & 0x8000 == 0
        && x4 & 0x8000 == 0 && x5 & 0x8000 == 0 && x6 & 0x8000 == 0 && x7 & 0x8000 == 0
        && x1 << 1 == x2 && x2 << 1 == x3 && x3 << 1 == x4 && x4 << 1 == x5 && x5 << 1 == x6
        && x6 << 1 == x7 && x7 << 1 == x << 8) by (bit_vector)
        requires x < 256, x1 == x << 1, x2 == x << 2, x3 == x << 3, x4 == x << 4, x5 == x << 5, x6 == x << 6, x7 == x << 7;
}

/// The table driven step, with the table written as its definition.
pub proof fn step(c: u16, b: u8)
    ensures
        crc_byte(c, b) == (c << 8) ^ crc8((((c >> 8) ^ ((b as u16) & 0xff)) << 8)),
        ((c >> 8) ^ ((b as u16) & 0xff)) < 256,
        // The same, written in other ways.
        crc_byte(c, b) == crc8((((c >> 8) ^ ((b as u16) & 0xff)) << 8)) ^ (c << 8),
        ((c >> 8) ^ (b as u16)) == ((c >> 8) ^ ((b as u16) & 0xff)),
        (((c >> 8) as u8) ^ b) as u16 == ((c >> 8) ^ ((b as u16) & 0xff)),
        (b ^ ((c >> 8) as u8)) as u16 == ((c >> 8) ^ ((b as u16) & 0xff)),
        ((b as u16) ^ (c >> 8)) == ((c >> 8) ^ ((b as u16) & 0xff)),
        (((c >> 8) ^ (b as u16)) & 0xff) == ((c >> 8) ^ ((b as u16) & 0xff)),
{
    let i = (c >> 8) ^ ((b as u16) & 0xff);
    assert(((c >> 8) ^ (b as u16)) == ((c >> 8) ^ ((b as u16) & 0xff))) by (bit_vector);
    assert((((c >> 8) as u8) ^ b) as u16 == ((c >> 8) ^ ((b as u16) & 0xff))) by (bit_vector);
    assert((b ^ ((c >> 8) as u8)) as u16 == ((c >> 8) ^ ((b as u16) & 0xff))) by (bit_vector);
    assert(((b as u16) ^ (c >> 8)) == ((c >> 8) ^ ((b as u16) & 0xff))) by (bit_vector);
    assert((((c >> 8) ^ (b as u16)) & 0xff) == ((c >> 8) ^ ((b as u16) & 0xff))) by (bit_vector);
    let lo = c & 0xff;
    let w = b as u16;
    assert(c ^ (w << 8) == (i << 8) ^ lo && i < 256 && lo < 256 && lo << 8 == c << 8) by (bit_vector)
        requires i == (c >> 8) ^ (w & 0xff), lo == c & 0xff, w < 256;
    crc8_linear(i << 8, lo);
    crc8_low(lo);
    let a = crc8(i << 8);
    let d = c << 8;
    assert(a ^ d == d ^ a) by (bit_vector);
}

pub open spec fn table_ok(t: Seq<u16>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] t[i] == crc8((i as u16) << 8)
}

spec fn table_ok_rec(t: Seq<u16>, n: int) -> bool
    decreases n,
{
    n <= 0 || (t[n - 1] == crc8(((n - 1) as u16) << 8) && table_ok_rec(t, n - 1))
}

proof fn table_rec(t: Seq<u16>, n: int)
    requires table_ok_rec(t, n),
    ensures table_ok(t, n),
    decreases n,
{
    if n > 0 { table_rec(t, n - 1); }
}

/// Every entry of the table of the crate is the remainder it stands for.
pub proof fn table()
    ensures table_ok(TABLE@, 256),
{
    assert(table_ok_rec(TABLE@, 256)) by (compute_only);
    table_rec(TABLE@, 256);
}

/// The checksum can be computed in pieces.
pub proof fn concat(init: u16, a: Seq<u8>, b: Seq<u8>)
    ensures crc(init, a + b) == crc(crc(init, a), b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        concat(init, a, b.drop_last());
    }
}
}
