// instructions/{sync,bulk}_{read,write}.rs, scans

## fn instructions::sync_read::Client::sync_read_bytes
props C13
requires [C05]
    old(self).wf(),
ensures [C12 C13 C16 C20 C22]
    match r {
        Ok(s) => s.wf() && s.v().left =~= crate::multi::each(motor_ids@, count)
            && crate::frame::sends(old(self).v(), s.v().bus, 0xFE, crate::multi::sync_read_body(address, count, motor_ids@), Ok(())),
        Err(e) => final(self).wf()
            && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::multi::sync_read_body(address, count, motor_ids@), Err(e)),
    },
begin
    proof { crate::vx::slice_bound(motor_ids); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 4 + motor_ids@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(count) + motor_ids@,

## fn instructions::sync_read::Client::sync_read_bytes_borrow
props C13
requires [C05]
    old(self).wf(),
ensures [C12 C13 C16 C20 C22]
    match r {
        Ok(s) => s.wf() && s.v().left =~= crate::multi::each(motor_ids@, count)
            && crate::frame::sends(old(self).v(), s.v().bus, 0xFE, crate::multi::sync_read_body(address, count, motor_ids@), Ok(())),
        Err(e) => final(self).wf()
            && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::multi::sync_read_body(address, count, motor_ids@), Err(e)),
    },
begin
    proof { crate::vx::slice_bound(motor_ids); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 4 + motor_ids@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(count) + motor_ids@,

## fn instructions::sync_read::Client::sync_read
props C13
requires [C05]
    old(self).wf(),
ensures [C12 C13 C16 C17 C20 C22]
    match r {
        Ok(s) => s.wf() && s.v().left =~= crate::multi::each(motor_ids@, T::ENCODED_SIZE)
            && crate::frame::sends(old(self).v(), s.v().bus, 0xFE, crate::multi::sync_read_body(address, T::ENCODED_SIZE, motor_ids@), Ok(())),
        Err(e) => final(self).wf()
            && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::multi::sync_read_body(address, T::ENCODED_SIZE, motor_ids@), Err(e)),
    },
begin
    proof { crate::vx::slice_bound(motor_ids); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 4 + motor_ids@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(T::ENCODED_SIZE) + motor_ids@,

## fn instructions::sync_read::SyncReadBytes::remaining
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r == self.v().left.len(),

## fn instructions::sync_read::SyncReadBytes::pop_motor_id
begin
    proof { crate::vx::slice_bound(self.motor_ids); }
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    final(self).wf(),
    final(self).client == old(self).client,
    final(self).count == old(self).count,
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(motor_id) => old(self).v().left.len() > 0 && motor_id == old(self).v().left[0].0 && final(self).count == old(self).v().left[0].1
            && final(self).v().left =~= old(self).v().left.skip(1),
    },

## fn instructions::sync_read::SyncReadBytes::next_response
props C16 C10 C11
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    final(self).v().left == old(self).v().left,
    crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, motor_id, old(self).count, r),

## fn instructions::sync_read::SyncReadBytes::next_response_borrow
props C16 C10 C11
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    final(self).v().left == old(self).v().left,
    crate::multi::expects_borrow(old(self).v().bus, final(self).v().bus, motor_id, old(self).count, r),

## fn instructions::sync_read::SyncReadBytes::read_next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::sync_read::SyncReadBytes::read_next_borrow
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_borrow(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::sync_read::SyncReadBytes@Iterator::next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_bytes(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::sync_read::SyncReadBytes@Iterator::size_hint
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r.0 <= self.v().left.len(),
    r.1 is Some ==> r.1->0 == self.v().left.len(),

## fn instructions::sync_read::SyncReadBytes@Drop::drop
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    crate::multi::clears(old(self).v().bus, final(self).v().bus, old(self).v().left),
loop 0
    invariant
        self.wf(),
        self.v().left.len() <= old(self).v().left.len(),
        self.v().left =~= old(self).v().left.skip(old(self).v().left.len() - self.v().left.len()),
        crate::multi::clears(old(self).v().bus, self.v().bus, old(self).v().left.take(old(self).v().left.len() - self.v().left.len())),
    decreases self.v().left.len(),
loop 0 end
    proof {
        let k = old(self).v().left.len() - self.v().left.len();
        assert(old(self).v().left.take(k).drop_last() =~= old(self).v().left.take(k - 1));
        assert(old(self).v().left.take(k).last() == old(self).v().left[k - 1]);
    }
end
    proof { assert(old(self).v().left.take(old(self).v().left.len() as int) =~= old(self).v().left); }

## fn instructions::sync_read::SyncRead::remaining
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r == self.v().left.len(),

## fn instructions::sync_read::SyncRead::pop_motor_id
begin
    proof { crate::vx::slice_bound(self.motor_ids); }
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    final(self).wf(),
    final(self).client == old(self).client,
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(motor_id) => old(self).v().left.len() > 0 && motor_id == old(self).v().left[0].0 && T::ENCODED_SIZE == old(self).v().left[0].1
            && final(self).v().left =~= old(self).v().left.skip(1),
    },

## fn instructions::sync_read::SyncRead::next_response
props C16 C10 C11
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C16 C17 C19 C20 C22]
    final(self).wf(),
    final(self).v().left == old(self).v().left,
    crate::multi::expects_value(old(self).v().bus, final(self).v().bus, motor_id, T::ENCODED_SIZE, r),

## fn instructions::sync_read::SyncRead::read_next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C17 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_value(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::sync_read::SyncRead@Iterator::next
props C16
requires [C05]
    old(self).wf(),
ensures [C10 C11 C16 C17 C19 C20 C22]
    final(self).wf(),
    match r {
        None => old(self).v().left.len() == 0 && final(self).v() == old(self).v(),
        Some(a) => old(self).v().left.len() > 0 && final(self).v().left == old(self).v().left.skip(1)
            && crate::multi::expects_value(old(self).v().bus, final(self).v().bus, old(self).v().left[0].0, old(self).v().left[0].1, a),
    },

## fn instructions::sync_read::SyncRead@Iterator::size_hint
props C16
requires [C05]
    self.wf(),
ensures [C16]
    r.0 <= self.v().left.len(),
    r.1 is Some ==> r.1->0 == self.v().left.len(),

## fn instructions::sync_read::SyncRead@Drop::drop
props C16
requires [C05]
    old(self).wf(),
ensures [C16]
    crate::multi::clears(old(self).v().bus, final(self).v().bus, old(self).v().left),
loop 0
    invariant
        self.wf(),
        self.v().left.len() <= old(self).v().left.len(),
        self.v().left =~= old(self).v().left.skip(old(self).v().left.len() - self.v().left.len()),
        crate::multi::clears(old(self).v().bus, self.v().bus, old(self).v().left.take(old(self).v().left.len() - self.v().left.len())),
    decreases self.v().left.len(),
loop 0 end
    proof {
        let k = old(self).v().left.len() - self.v().left.len();
        assert(old(self).v().left.take(k).drop_last() =~= old(self).v().left.take(k - 1));
        assert(old(self).v().left.take(k).last() == old(self).v().left[k - 1]);
    }
end
    proof { assert(old(self).v().left.take(old(self).v().left.len() as int) =~= old(self).v().left); }
