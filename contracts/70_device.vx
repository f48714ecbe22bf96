// device.rs

## fn device::Device::new
props C21
ensures [C21]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: serial_port.rate(), rcap: 128int, wcap: 128int }),

## fn device::Device::with_buffers
props C21
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == (crate::frame::BusV {
        trace: serial_port.trace(), pending: seq![], baud: serial_port.rate(),
        rcap: read_buffer.bytes().len() as int, wcap: write_buffer.bytes().len() as int }),

## fn device::Device::serial_port
ensures
    *r == self.bus.serial_port,

## fn device::Device::into_serial_port
ensures
    r == self.bus.serial_port,

## fn device::Device::baud_rate
props C21
ensures [C21]
    r == self.v().baud,

## fn device::Device::set_baud_rate
props C21
requires
    old(self).wf(),
ensures [C21]
    final(self).wf(),
    final(self).v() == (crate::frame::BusV {
        trace: old(self).v().trace.push(crate::vx::Event::SetBaud(baud_rate, r)),
        baud: if r is Ok { baud_rate } else { old(self).v().baud },
        ..old(self).v() }),

## fn device::Device::write_status
props C01
requires [C05]
    old(self).wf(),
    crate::frame::accepts(encode_parameters, parameter_count as int),
ensures [C01 C08 C20 C22]
    final(self).wf(),
    crate::frame::sends_encoded(old(self).v(), final(self).v(), packet_id, seq![0x55u8, error], encode_parameters, parameter_count as int, r),

## fn device::Device::write_status_error
props C01
requires [C05]
    old(self).wf(),
ensures [C01 C08 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), packet_id, crate::frame::status_body(error, seq![]), r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn device::Device::write_status_ok
props C01
requires [C05]
    old(self).wf(),
ensures [C01 C08 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), packet_id, crate::frame::status_body(0, seq![]), r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn device::Device::read_raw_instruction_timeout
props C09 C19
requires [C05]
    old(self).wf(),
ensures [C09 C19 C20 C22]
    final(self).wf(),
    crate::dev::device_waits(old(self).v(), final(self).v(), timeout.ns(), crate::dev::instruction_data(r)),
loop 0
    invariant
        self.wf(),
        crate::vx::deadline_for(timeout.ns(), deadline),
        crate::dev::skipped(old(self).v(), self.v(), deadline),
    decreases
        self.left().reads, self.left().pending,
let deadline 0 after
    proof { crate::dev::skips_none(self.v(), deadline); }
loop 0 begin
    let ghost vx_m = self.v();
let packet 0 after
    let ghost vx_s = packet.data@;
loop 0 end
    proof { crate::dev::skips_one(old(self).v(), vx_m, self.v(), deadline, vx_s); }

## fn device::Device::read
props C14
requires [C05]
    old(self).wf(),
ensures [C09 C14 C19 C20 C22]
    final(self).wf(),
    crate::dev::instructed(old(self).v(), final(self).v(), timeout.ns(), crate::dev::borrowed_result(r)),

## fn device::Device::read_owned
props C14
requires [C05]
    old(self).wf(),
ensures [C09 C14 C19 C20 C22]
    final(self).wf(),
    crate::dev::instructed(old(self).v(), final(self).v(), timeout.ns(), crate::dev::owned_result(r)),

## fn device::<Instruction<&'a[u8]> as TryFrom<InstructionPacket<'a>>>::try_from
props C14
ensures [C14]
    crate::dev::decodes(packet.d(), crate::dev::borrowed_result(r)),

## fn device::<Instruction<alloc::vec::Vec<u8>> as TryFrom<InstructionPacket<'a>>>::try_from
props C14
ensures [C14]
    crate::dev::decodes(packet.d(), crate::dev::owned_result(r)),
