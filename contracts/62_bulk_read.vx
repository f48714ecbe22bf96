// instructions/bulk_read.rs

## fn instructions::bulk_read::Client::bulk_read_bytes
props C13
requires [C05]
    old(self).wf(),
ensures [C12 C13 C16 C20 C22]
    crate::multi::distinct(crate::multi::targets(reads@)),
    match r {
        Ok(s) => s.wf() && s.v().left =~= crate::multi::targets(reads@)
            && crate::frame::sends(old(self).v(), s.v().bus, 0xFE, crate::frame::instruction_body(0x92, crate::multi::bulk_read_params(reads@)), Ok(())),
        Err(e) => final(self).wf()
            && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x92, crate::multi::bulk_read_params(reads@)), Err(e)),
    },

## fn instructions::bulk_read::Client::bulk_read_bytes_borrow
props C13
requires [C05]
    old(self).wf(),
ensures [C12 C13 C16 C20 C22]
    crate::multi::distinct(crate::multi::targets(reads@)),
    match r {
        Ok(s) => s.wf() && s.v().left =~= crate::multi::targets(reads@)
            && crate::frame::sends(old(self).v(), s.v().bus, 0xFE, crate::frame::instruction_body(0x92, crate::multi::bulk_read_params(reads@)), Ok(())),
        Err(e) => final(self).wf()
            && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x92, crate::multi::bulk_read_params(reads@)), Err(e)),
    },

## fn instructions::bulk_read::write_bulk_read_instruction
props C13
requires [C05]
    old(client).wf(),
ensures [C12 C13 C20 C22]
    crate::multi::distinct(crate::multi::targets(reads@)),
    final(client).wf(),
    crate::frame::sends(old(client).v(), final(client).v(), 0xFE, crate::frame::instruction_body(0x92, crate::multi::bulk_read_params(reads@)), r),
begin
    proof {
        crate::multi::reads_bound(reads);
        crate::multi::bulk_read_len(reads@);
    }
    let ghost vx_old = client.v();
panic 0 [C13]
    crate::multi::both(!crate::multi::distinct(crate::multi::targets(reads@)), client.v() == vx_old)
loop 0
    invariant
        old(client).v() == client.v(), client.v() == vx_old, client.wf(),
        vx_end0 == reads@.len(),
        0 <= vx_i0 <= vx_end0,
        crate::multi::distinct_up_to(crate::multi::targets(reads@), vx_i0 as int),
    decreases vx_end0 - vx_i0,
loop 1
    invariant
        old(client).v() == client.v(), client.v() == vx_old, client.wf(),
        vx_end1 == reads@.len(),
        0 <= i < vx_i1 <= vx_end1,
        forall|b: int| i < b < vx_i1 ==> crate::multi::targets(reads@)[i as int].0 != (#[trigger] crate::multi::targets(reads@)[b]).0,
    decreases vx_end1 - vx_i1,
loop 1 begin
    proof {
        assert(crate::multi::targets(reads@)[i as int].0 == reads@[i as int].motor_id);
        assert(crate::multi::targets(reads@)[vx_i1 as int].0 == reads@[vx_i1 as int].motor_id);
    }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 5 * reads@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::multi::bulk_read_params(reads@),
loop 2
    invariant
        vx_s2@ == reads@,
        0 <= vx_i2 <= vx_s2@.len(),
        buffer@.len() == 5 * reads@.len(),
        buffer@.take(5 * vx_i2) =~= crate::multi::bulk_read_params(reads@.take(vx_i2 as int)),
    decreases vx_s2@.len() - vx_i2,
loop 2 begin
    proof {
        crate::multi::reads_bound(reads);
        crate::multi::bulk_read_step(reads@, vx_i2 as int);
    }
loop 2 after
    proof { assert(reads@.take(reads@.len() as int) =~= reads@); }

## fn instructions::bulk_read::BulkReadBytes::remaining
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r == self.v().left.len(),

## fn instructions::bulk_read::BulkReadBytes::pop_bulk_read_data
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    final(self).wf(),
    final(self).client == old(self).client,
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(d) => old(self).v().left.len() > 0 && d.motor_id == old(self).v().left[0].0 && d.count == old(self).v().left[0].1
            && final(self).v().left =~= old(self).v().left.skip(1),
    },
begin
    proof { crate::vx::slice_bound(self.bulk_read_data); }

## fn instructions::bulk_read::BulkReadBytes::next_response
props C16 C10 C11
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    final(self).v().left == old(self).v().left,
    crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, motor_id, count, r),

## fn instructions::bulk_read::BulkReadBytes::next_response_borrow
props C16 C10 C11
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    final(self).v().left == old(self).v().left,
    crate::multi::expects_borrow(old(self).v().bus, final(self).v().bus, motor_id, count, r),

## fn instructions::bulk_read::BulkReadBytes::read_next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::bulk_read::BulkReadBytes::read_next_borrow
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_borrow(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::bulk_read::BulkReadBytes@Iterator::next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::bulk_read::BulkReadBytes@Iterator::size_hint
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r.0 <= self.v().left.len(),
    r.1 is Some ==> r.1->0 == self.v().left.len(),

## fn instructions::bulk_read::BulkReadBytes@Drop::drop
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    crate::multi::clears(old(self).v().bus, final(self).v().bus, old(self).v().left),
loop 0
    invariant
        self.wf(),
        vx_s0@ == old(self).bulk_read_data@.skip(old(self).index as int),
        vx_i0 <= vx_s0@.len(),
        crate::multi::clears(old(self).v().bus, self.v().bus, old(self).v().left.take(vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0,
loop 0 end
    proof {
        let k = vx_i0 as int;
        assert(old(self).v().left.take(k).drop_last() =~= old(self).v().left.take(k - 1));
        assert(old(self).v().left.take(k).last() == old(self).v().left[k - 1]);
        assert(old(self).v().left[k - 1].1 == vx_s0@[k - 1].count);
    }
end
    proof { assert(old(self).v().left.take(old(self).v().left.len() as int) =~= old(self).v().left); }
