// serial_port/mod.rs

## trait serial_port::SerialPort
begin
    /// Everything that happened on this port so far.
    spec fn trace(&self) -> Seq<crate::vx::Event<Self::Error, Self::Instant>>;
    /// The baud rate the port reports.
    spec fn rate(&self) -> u32;
    /// How many more reads are answered with data at most, before one is answered with an error (a time-out, if nothing else).
    spec fn patience(&self) -> nat;

## fn serial_port::SerialPort::baud_rate
ensures
    r is Ok ==> r->Ok_0 == self.rate(),

## fn serial_port::SerialPort::set_baud_rate
ensures
    final(self).trace() == old(self).trace().push(crate::vx::Event::SetBaud(baud_rate, r)),

## fn serial_port::SerialPort::discard_input_buffer
ensures
    final(self).trace() == old(self).trace().push(crate::vx::Event::Discard(r)),

## fn serial_port::SerialPort::read
requires [C05 C06]
    old(buffer)@.len() > 0,
ensures
    r is Ok ==> r->Ok_0 <= old(buffer)@.len() && final(self).trace() == old(self).trace().push(
        crate::vx::Event::Read(*deadline, Ok(final(buffer)@.take(r->Ok_0 as int))))
        && final(self).patience() < old(self).patience(),
    r is Err ==> final(self).trace() == old(self).trace().push(crate::vx::Event::Read(*deadline, Err(r->Err_0))),

## fn serial_port::SerialPort::write_all
ensures
    final(self).trace() == old(self).trace().push(crate::vx::Event::Write(buffer@, r)),

## fn serial_port::SerialPort::make_deadline
ensures
    crate::vx::deadline_for(timeout.ns(), r),

## fn serial_port::SerialPort::is_timeout_error
ensures
    r == crate::vx::timeout_error(*error),

// bus/mod.rs

## fn bus::Bus::with_buffers
props C21
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: serial_port.rate(),
        rcap: read_buffer.bytes().len() as int, wcap: write_buffer.bytes().len() as int }),

## fn bus::Bus::with_buffers_and_baud_rate
props C21
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21]
    r.wf(),
    r.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: baud_rate,
        rcap: read_buffer.bytes().len() as int, wcap: write_buffer.bytes().len() as int }),
panic 0
    crate::multi::both(write_buffer.bytes().len() < 10, crate::vx::announced())
end
    proof {
        let w = vx_result.write_buffer.bytes();
        vx_result.write_buffer.bound();
        vx_result.read_buffer.bound();
        assert(HEADER_PREFIX@ =~= crate::frame::prefix());
        assert(w.take(4) =~= crate::frame::prefix());
        assert(vx_result.v().pending =~= seq![]);
    }

## fn bus::Bus::set_baud_rate
props C21
requires
    old(self).wf(),
ensures [C21]
    final(self).wf(),
    final(self).v() == (crate::frame::BusV {
        trace: old(self).v().trace.push(crate::vx::Event::SetBaud(baud_rate, r)),
        baud: if r is Ok { baud_rate } else { old(self).v().baud },
        ..old(self).v() }),

## fn bus::Bus::write_instruction
props C01 C08
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C01 C08 C12 C13 C20 C22]
    final(self).wf(),
    crate::frame::sends_encoded(old(self).v(), final(self).v(), packet_id, seq![instruction_id], encode_parameters, parameter_count as int, r),

## fn bus::Bus::write_packet
props C01 C08
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C01 C08 C12 C13 C20 C22]
    final(self).wf(),
    crate::frame::sends_encoded(old(self).v(), final(self).v(), packet_id, seq![instruction_id], encode_parameters, parameter_count as int, r),
call encode_parameters 0 via crate::frame::call_encode
try 0
    proof { crate::frame::too_long(old(self).v().wcap, seq![instruction_id], parameter_count as int); }
try 1
    proof { assert(buffer@.take(4) =~= crate::frame::prefix()); }
try 2
    proof {
        assert(buffer@.take(4) =~= crate::frame::prefix());
        assert(crate::frame::sends(old(self).v(), old(self).v(), packet_id, seq![instruction_id] + vx_p, Err(WriteError::BufferTooSmall(vx_e))));
    }
try 3
    proof {
        crate::frame::written(old(self).v(), self.v(), seq![crate::vx::Event::Discard(Err(vx_e->DiscardBuffer_0))]);
        assert(crate::frame::sends(old(self).v(), self.v(), packet_id, seq![instruction_id] + vx_p, Err(vx_e)));
    }
try 4
    proof {
        crate::frame::written(old(self).v(), self.v(), seq![crate::vx::Event::Discard(Ok(())), crate::vx::Event::Write(crate::frame::frame(packet_id, vx_body), Err(vx_e->Write_0))]);
        assert(crate::frame::sends(old(self).v(), self.v(), packet_id, seq![instruction_id] + vx_p, Err(vx_e)));
    }
end
    proof {
        crate::frame::written(old(self).v(), self.v(), seq![crate::vx::Event::Discard(Ok(())), crate::vx::Event::Write(crate::frame::frame(packet_id, vx_body), Ok(()))]);
        assert(crate::frame::sends(old(self).v(), self.v(), packet_id, seq![instruction_id] + vx_p, Ok(())));
    }
let stuffed_body_len 0 before
    let ghost vx_p = buffer@.subrange(8, 8 + parameter_count);
    let ghost vx_body = seq![instruction_id] + vx_p;
    proof {
        assert(crate::frame::encodes(encode_parameters, parameter_count as int, vx_p));
        assert(buffer@.subrange(7, max_message_len - 2).take(1 + parameter_count) =~= vx_body);
        assert(buffer@.take(4) =~= crate::frame::prefix());
    }
let stuffed_body_len 0 after
    proof {
        assert(buffer@.subrange(7, 7 + stuffed_body_len) =~= crate::stuffing::stuff(vx_body));
        assert(buffer@.take(4) =~= crate::frame::prefix());
    }
let checksum 0 before
    proof {
        assert(buffer@.take(checksum_index as int) =~= crate::frame::head(packet_id, vx_body));
        assert(buffer@.subrange(0, checksum_index as int) =~= buffer@.take(checksum_index as int));
    }
let checksum 0 after
    let ghost vx_before = buffer@;
call write_u16_le 1 after
    proof {
        assert(buffer@.take(checksum_index + 2) =~= crate::frame::frame(packet_id, vx_body));
        assert(buffer@.subrange(0, checksum_index + 2) =~= crate::frame::frame(packet_id, vx_body));
        assert(buffer@.take(4) =~= crate::frame::prefix());
        assert(crate::frame::fits(old(self).v().wcap, vx_body));
    }

## fn bus::Bus::write_status
props C01 C14
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C01 C08 C20 C22]
    final(self).wf(),
    crate::frame::sends_encoded(old(self).v(), final(self).v(), packet_id, seq![0x55u8, error], encode_parameters, parameter_count as int, r),
try 0
    proof { crate::frame::too_long(old(self).v().wcap, seq![0x55u8, error], parameter_count as int); }
end
    proof { crate::frame::sends_after(old(self).v(), self.v(), packet_id, vx_f0, encode_parameters, error, parameter_count as int, vx_result); }
call encode_parameters 0 via crate::frame::call_encode
closure 0 hoist (buffer: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == parameter_count + 1,
    ensures
        final($0)@.len() == parameter_count + 1,
        r is Ok ==> final($0)@[0] == error && crate::frame::encodes(encode_parameters, parameter_count as int, final($0)@.skip(1)),
        r is Err ==> crate::frame::refuses(encode_parameters, parameter_count as int, r->Err_0),

## fn bus::Bus::read_packet_deadline
props C04 C05 C06 C07
requires [C05]
    old(self).wf(),
ensures [C04 C06 C07 C19 C22]
    final(self).wf(),
    crate::frame::bus_read(old(self).v(), final(self).v(), deadline, crate::frame::read_result(r)),
ensures [C05]
    r is Ok ==> r->Ok_0.ok(),
ensures [C05 C16]
    r is Ok || !(r->Err_0 is Io) && old(self).v().rcap >= 10 ==> crate::frame::progress(old(self).left(), final(self).left()),
begin
    proof { self.read_buffer.bound(); }
try 0
    proof { crate::frame::read_too_small(old(self).v(), deadline); }
let stuffed_message_len 0 before
    proof { crate::frame::read_start(old(self).v(), deadline); }
loop 0
    invariant
        self.wf(),
        old(self).v().rcap >= 10,
        crate::frame::reading(old(self).v(), self.v(), deadline),
        !crate::frame::progress(self.left(), old(self).left()),
    ensures
        !crate::frame::progress(self.left(), old(self).left()),
        crate::frame::no_garbage(self.v().pending),
        self.used_bytes == 0,
        self.v().pending.len() >= 10,
        vx_break0 == 7 + crate::frame::get16(self.v().pending, 5),
        10 <= vx_break0 <= self.read_len,
    decreases
        self.serial_port.patience(),
loop 0 begin
    let ghost vx_before = self.v();
    let ghost vx_left = self.left();
call remove_garbage 0 after
    let ghost vx_now = self.v();
    proof {
        crate::frame::read_clean(old(self).v(), vx_before, vx_now, deadline);
        crate::frame::find_bounds(vx_before.pending, 0);
        assert(self.left().reads == vx_left.reads && self.left().pending <= vx_left.pending);
        assert(vx_now.pending =~= self.read_buffer.bytes().take(self.read_len as int));
    }
let body_len 0 after
    proof { assert(body_len == crate::frame::get16(vx_now.pending, 5)); }
call consume_read_bytes 0 after
    proof {
        assert(self.v().pending =~= vx_now.pending.skip(7));
        crate::frame::read_item(old(self).v(), vx_now, self.v(), deadline, crate::frame::short_error(body_len));
    }
call consume_read_bytes 1 after
    proof {
        assert(self.v().pending =~= vx_now.pending.skip(7));
        crate::frame::read_item(old(self).v(), vx_now, self.v(), deadline, crate::frame::full_error(7 + body_len, old(self).v().rcap));
    }
let new_data 0 before
    proof { assert(crate::frame::parse_clean(vx_now.pending, old(self).v().rcap) is None); }
try 2
    proof { crate::frame::read_failed(old(self).v(), vx_now, self.v(), deadline, vx_e->Io_0); }
loop 0 end
    proof {
        let x = self.v().trace.last()->Read_1->Ok_0;
        assert(self.v().pending =~= vx_now.pending + x);
        crate::frame::read_more(old(self).v(), vx_now, self.v(), deadline, x);
    }
let stuffed_message_len 0 after
    let ghost vx_now = self.v();
    let ghost vx_u = vx_now.pending;
    proof { assert(vx_u =~= self.read_buffer.bytes().take(self.read_len as int)); }
let checksum_computed 0 after
    proof {
        assert(buffer@.subrange(0, parameters_end as int) =~= vx_u.take(parameters_end as int));
    }
let checksum_message 0 after
    proof { assert(checksum_message == crate::frame::get16(vx_u, parameters_end as int)); }
call consume_read_bytes 2 after
    proof {
        assert(self.v().pending =~= vx_u.skip(stuffed_message_len as int));
        crate::frame::read_item(old(self).v(), vx_now, self.v(), deadline, crate::frame::crc_error(checksum_message, checksum_computed));
    }
let parameter_count 0 before
    let ghost vx_body = vx_u.subrange(7, parameters_end as int);
    proof {
        assert(buffer@.subrange(7, parameters_end as int) =~= vx_body);
        crate::stuffing::unstuff_len(vx_body);
    }
let packet 0 before
    let ghost vx_data = vx_u.take(7) + crate::stuffing::unstuff(vx_body);
    proof {
        assert(data@ =~= vx_data);
        assert(self.v().pending =~= vx_u.skip(stuffed_message_len as int));
        crate::frame::read_item(old(self).v(), vx_now, self.v(), deadline,
            if vx_data[7] == 0x55 && vx_data.len() < 9 { crate::frame::no_error_error() } else { Ok(vx_data) });
    }

## fn bus::Bus::consume_read_bytes
props C06
requires [C05]
    len <= old(self).read_len <= old(self).read_buffer.bytes().len(),
ensures [C06]
    final(self).serial_port == old(self).serial_port,
    final(self).baud_rate == old(self).baud_rate,
    final(self).write_buffer == old(self).write_buffer,
    final(self).read_len == old(self).read_len - len,
    final(self).used_bytes == if old(self).used_bytes <= len { 0 } else { old(self).used_bytes - len },
    final(self).read_buffer.bytes().len() == old(self).read_buffer.bytes().len(),
    final(self).read_buffer.bytes().take(final(self).read_len as int) == old(self).read_buffer.bytes().subrange(len as int, old(self).read_len as int),
end
    proof {
        assert(self.read_buffer.bytes().take(self.read_len as int) =~= old(self).read_buffer.bytes().subrange(len as int, old(self).read_len as int));
    }

## fn bus::Bus::remove_garbage
props C06
requires [C05]
    old(self).wf(),
ensures [C06]
    final(self).wf(),
    final(self).used_bytes == 0,
    final(self).serial_port == old(self).serial_port,
    final(self).v() == (crate::frame::BusV { pending: crate::frame::clean(old(self).v().pending), ..old(self).v() }),
let garbage_len 0 before
    let ghost vx_pending = old(self).v().pending;
    proof { crate::frame::find_bounds(vx_pending, 0); }
let garbage_len 0 after
    proof { assert(read_buffer@.subrange(0, self.read_len as int).subrange(self.used_bytes as int, self.read_len as int) =~= vx_pending); }
end
    proof { assert(self.v().pending =~= crate::frame::clean(vx_pending)); }

## fn bus::find_header
props C06
ensures [C06]
    r == crate::frame::find(buffer@),
    r <= buffer@.len(),
loop 0
    invariant
        vx_i0 <= vx_end0,
        vx_end0 == buffer@.len(),
        forall|j: int| 0 <= j < vx_i0 ==> !#[trigger] crate::frame::header_at(buffer@, j),
    decreases vx_end0 - vx_i0,
let possible_prefix 0 after
    proof { crate::frame::header_slice(buffer@, i as int, HEADER_PREFIX@.take(possible_prefix as int)); }
return 0
    proof { crate::frame::find_is(buffer@, i as int); }
end
    proof { crate::frame::find_is(buffer@, buffer@.len() as int); }

## fn bus::message_transfer_time
props C19
ensures [C19]
    r.ns() == crate::frame::transfer_ns(message_size as int, baud_rate as int),
begin
    proof { crate::frame::transfer_time(message_size as int, if baud_rate == 0 { 1 } else { baud_rate as int }); }
