// instructions/{sync,bulk}_write.rs

## fn instructions::SyncWriteData@AsRef::as_ref
props C13
ensures [C13]
    *r == *self,

## fn instructions::BulkWriteData@AsRef::as_ref
props C13
ensures [C13]
    *r == *self,

## fn instructions::sync_write::Client::sync_write_bytes
props C13 C15
requires [C05]
    old(self).wf(),
ensures [C12 C13 C15 C20 C22]
    final(self).wf(),
    crate::multi::sync_sends(old(self).v(), final(self).v(), address, count, crate::multi::refs::<crate::instructions::SyncWriteData<Buf>, Data>(data.items()), r),
begin
    let ghost vx_items = crate::multi::refs::<crate::instructions::SyncWriteData<Buf>, Data>(data.items());
let parameter_count 0 after
    proof {
        crate::multi::sync_len(vx_items, count);
        assert(motors == vx_items.len() && stride == 1 + count);
        assert(0 <= motors * stride) by (nonlinear_arith) requires motors >= 0, stride >= 0;
        crate::multi::sync_unsent(self.v().wcap, address, count, vx_items);
        assert(parameter_count == if 4 + vx_items.len() * (1 + count) <= usize::MAX { 4 + vx_items.len() * (1 + count) } else { usize::MAX as int });
    }
call write_u16_le 0 before
    proof { crate::vx::slice_bound(buffer); }
panic 0 [C13]
    !crate::multi::sync_sized(vx_items, count)
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == parameter_count,
    ensures
        r is Ok,
        crate::multi::sync_sized(vx_items, count),
        final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(count) + crate::multi::sync_params(vx_items),
loop 0 kind iter-enumerate
loop 0
    invariant
        vx_items.len() <= usize::MAX,
        vx_i0 + vx_it0.rest().len() == vx_items.len(),
        forall|k: int| 0 <= k < vx_it0.rest().len() ==> (#[trigger] vx_it0.rest()[k]).target() == vx_items[vx_i0 + k],
        crate::multi::sync_sized(vx_items.take(vx_i0 as int), count),
        stride == 1 + count,
        buffer@.len() == 4 + vx_items.len() * stride,
        buffer@.take(4 + vx_i0 * stride) =~= crate::frame::le16(address) + crate::frame::le16(count) + crate::multi::sync_params(vx_items.take(vx_i0 as int)),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
loop 0 begin
    proof {
        crate::vx::slice_bound(buffer);
        if vx_i0 < vx_items.len() {
            crate::multi::stride_bounds(vx_i0 as int, vx_items.len() as int, stride as int);
            crate::multi::sync_step(vx_items, vx_i0 as int, count);
        }
    }
loop 0 after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }
## fn instructions::sync_write::Client::sync_write
props C13 C15 C17
requires [C05]
    old(self).wf(),
ensures [C12 C13 C15 C17 C20 C22]
    final(self).wf(),
    crate::multi::sync_sends_values(old(self).v(), final(self).v(), address, crate::multi::refs::<crate::instructions::SyncWriteData<T>, Data>(data.items()), r),
begin
    let ghost vx_items = crate::multi::refs::<crate::instructions::SyncWriteData<T>, Data>(data.items());
let parameter_count 0 after
    proof {
        assert(motors == vx_items.len() && stride == 1 + T::ENCODED_SIZE);
        assert(0 <= motors * stride) by (nonlinear_arith) requires motors >= 0, stride >= 0;
        crate::multi::never_so_long(self.v().wcap, seq![0x83u8], 4 + vx_items.len() * (1 + T::ENCODED_SIZE));
        assert(parameter_count == if 4 + vx_items.len() * (1 + T::ENCODED_SIZE) <= usize::MAX { 4 + vx_items.len() * (1 + T::ENCODED_SIZE) } else { usize::MAX as int });
    }
call write_u16_le 0 before
    proof { crate::vx::slice_bound(buffer); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == parameter_count,
    ensures
        r is Ok ==> final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(T::ENCODED_SIZE) + crate::multi::sync_value_params(vx_items),
        r is Err ==> !T::total(),
loop 0 kind iter-enumerate
loop 0
    invariant
        vx_items.len() <= usize::MAX,
        vx_i0 + vx_it0.rest().len() == vx_items.len(),
        forall|k: int| 0 <= k < vx_it0.rest().len() ==> (#[trigger] vx_it0.rest()[k]).target() == vx_items[vx_i0 + k],
        stride == 1 + T::ENCODED_SIZE,
        buffer@.len() == 4 + vx_items.len() * stride,
        buffer@.take(4 + vx_i0 * stride) =~= crate::frame::le16(address) + crate::frame::le16(T::ENCODED_SIZE) + crate::multi::sync_value_params(vx_items.take(vx_i0 as int)),
    ensures
        vx_it0.rest().len() == 0,
    decreases vx_it0.rest().len(),
loop 0 begin
    proof {
        crate::vx::slice_bound(buffer);
        if vx_i0 < vx_items.len() {
            crate::multi::stride_bounds(vx_i0 as int, vx_items.len() as int, stride as int);
            assert(vx_items.take(vx_i0 + 1).drop_last() =~= vx_items.take(vx_i0 as int));
        }
    }
loop 0 after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }

## fn instructions::bulk_write::Client::bulk_write
props C13 C15
requires [C05]
    old(self).wf(),
ensures [C12 C13 C15 C20 C22]
    final(self).wf(),
    crate::multi::bulk_ok(writes.items()),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x93, crate::multi::bulk_params(writes.items())), r),
begin
    let ghost vx_items: Seq<crate::instructions::BulkWriteData<D>> = writes.items();
    let ghost vx_old = self.v();
panic 0 [C13]
    crate::multi::both(!crate::multi::bulk_ok(vx_items), self.v() == vx_old)
panic 1 [C13]
    crate::multi::both(!crate::multi::bulk_ok(vx_items), self.v() == vx_old)
loop 0 kind iter-enumerate
loop 0
    invariant
        self.v() == old(self).v(), self.v() == vx_old, self.wf(),
        writes.rest() == vx_items,
        vx_i0 <= vx_items.len(),
        vx_it0.rest() =~= vx_items.skip(vx_i0 as int),
        crate::multi::bulk_ok(vx_items.take(vx_i0 as int)),
        parameter_count == crate::multi::bulk_params(vx_items.take(vx_i0 as int)).len(),
    ensures
        vx_i0 == vx_items.len(),
    decreases vx_it0.rest().len(),
loop 0 begin
    proof { if vx_i0 < vx_items.len() { crate::multi::bulk_step(vx_items, vx_i0 as int); } }
loop 0 after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }
loop 1 kind iter-enumerate
loop 1
    invariant
        self.v() == vx_old,
        i < vx_items.len(), *write == vx_items[i as int],
        vx_i1 <= i,
        vx_it1.rest() =~= vx_items.take(i as int).skip(vx_i1 as int),
        forall|b: int| 0 <= b < vx_i1 ==> (#[trigger] vx_items[b]).motor_id != vx_items[i as int].motor_id,
    ensures
        vx_i1 == i,
    decreases vx_it1.rest().len(),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == parameter_count,
    ensures
        r is Ok,
        final($0)@ =~= crate::multi::bulk_params(vx_items),
loop 2 kind iter
loop 2
    invariant
        crate::multi::bulk_ok(vx_items),
        vx_it2.rest().len() <= vx_items.len(),
        vx_it2.rest() =~= vx_items.skip(vx_items.len() - vx_it2.rest().len()),
        buffer@.len() == crate::multi::bulk_params(vx_items).len(),
        offset == crate::multi::bulk_params(vx_items.take(vx_items.len() - vx_it2.rest().len())).len(),
        offset <= buffer@.len(),
        buffer@.take(offset as int) =~= crate::multi::bulk_params(vx_items.take(vx_items.len() - vx_it2.rest().len())),
    ensures
        vx_it2.rest().len() == 0,
    decreases vx_it2.rest().len(),
loop 2 begin
    proof {
        crate::vx::slice_bound(buffer);
        if vx_it2.rest().len() > 0 {
            let k = vx_items.len() - vx_it2.rest().len();
            crate::multi::bulk_step_full(vx_items, k);
        }
    }
loop 2 after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }
