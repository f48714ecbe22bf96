// checksum.rs

## fn checksum::calculate_checksum
props C03
ensures [C03 C01 C04]
    r == crate::crc::crc(initial, data@),
begin
    hide(crate::checksum::TABLE);
loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        vx_s0@ == data@,
        checksum == crate::crc::crc(initial, data@.take(vx_i0 as int)),
    decreases vx_s0.len() - vx_i0,
loop 0 begin
    proof {
        crate::crc::table();
        crate::crc::step(checksum, data@[vx_i0 as int]);
        assert(data@.take(vx_i0 + 1).drop_last() =~= data@.take(vx_i0 as int));
    }
loop 0 after
    proof { assert(data@.take(data@.len() as int) =~= data@); }
loop 0 before
    proof { assert(data@.take(0) =~= seq![]); }
