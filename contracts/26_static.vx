// bus/mod.rs: the macro static_buffer as a function of the size it is given.

## fn bus::static_buffer
props C23
ensures [C23]
    r@ == Seq::new(N as nat, |i: int| 0u8),
panic 0 [C23]
    crate::vxst::used_before(vx_held)
