// client.rs

## fn client::Client::new
props C21
ensures [C21]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: serial_port.rate(), rcap: 128int, wcap: 128int }),

## fn client::Client::with_buffers
props C21
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: serial_port.rate(),
        rcap: read_buffer.bytes().len() as int, wcap: write_buffer.bytes().len() as int }),

## fn client::Client::serial_port
ensures
    *r == self.bus.serial_port,

## fn client::Client::into_serial_port
ensures
    r == self.bus.serial_port,

## fn client::Client::baud_rate
props C21
ensures [C21 C19]
    r == self.v().baud,

## fn client::Client::set_baud_rate
props C21
requires
    old(self).wf(),
ensures [C21]
    final(self).wf(),
    final(self).v() == (crate::frame::BusV {
        trace: old(self).v().trace.push(crate::vx::Event::SetBaud(baud_rate, r)),
        baud: if r is Ok { baud_rate } else { old(self).v().baud },
        ..old(self).v() }),

## fn client::Client::write_instruction
props C12
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C01 C08 C12 C13 C20 C22]
    final(self).wf(),
    crate::frame::sends_encoded(old(self).v(), final(self).v(), packet_id, seq![instruction_id], encode_parameters, parameter_count as int, r),

## fn client::Client::read_status_response_timeout
props C09 C10 C19
requires [C05]
    old(self).wf(),
ensures [C09 C10 C19 C20 C22]
    final(self).wf(),
    crate::talk::awaits(old(self).v(), final(self).v(), timeout.ns(), crate::talk::status_data(r)),
ensures [C05 C16]
    r is Ok || !(r->Err_0 is Io) && old(self).v().rcap >= 10 ==> crate::frame::progress(old(self).left(), final(self).left()),

## fn client::Client::read_status_response
props C19
requires [C05]
    old(self).wf(),
ensures [C09 C10 C19 C20 C22]
    final(self).wf(),
    crate::talk::awaits(old(self).v(), final(self).v(), crate::talk::status_ns(expected_parameters as int, old(self).v().baud), crate::talk::status_data(r)),
begin
    proof { crate::talk::time_bounds(11 + expected_parameters as int, self.v().baud as int); }

## fn client::Client::transfer_single
props C11
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C09 C10 C11 C12 C19 C20 C22]
    final(self).wf(),
    crate::talk::transfers(old(self).v(), final(self).v(), packet_id, instruction_id, encode_parameters, parameter_count as int, expected_response_parameters as int, crate::talk::status_data(r)),
