// serial_port/serial2.rs: `port_X` is the function X of the trait.

## fn serial_port::serial2::SerialPort@SerialPort::port_baud_rate
props C21 C24
ensures [C21]
    r is Ok ==> r->Ok_0 == self.os().rate,

## fn serial_port::serial2::SerialPort@SerialPort::port_set_baud_rate
props C21 C24
ensures [C21]
    final(self).events() == old(self).events(),
    r is Ok ==> final(self).os().rate == baud_rate,
ensures [C24]
    final(self).os().reads == old(self).os().reads,

## fn serial_port::serial2::SerialPort@SerialPort::port_discard_input_buffer
props C20 C24
ensures [C20 C24]
    final(self).events() == old(self).events(),
    final(self).os() == (crate::vxs::serial2::Os { discards: old(self).os().discards.push(r), ..old(self).os() }),

## fn serial_port::serial2::SerialPort@SerialPort::port_read
props C24
ensures
    final(self).events() == old(self).events(),
    r is Ok ==> r->Ok_0 <= old(buffer)@.len(),
    final(buffer)@.len() == old(buffer)@.len(),
ensures [C05 C24]
    r is Ok ==> final(self).lasts() < old(self).lasts(),
ensures [C24]
    // Too late: a time-out, without a call that could block.
    deadline.at < crate::vxs::clock() ==> crate::vxs::serial2::too_late(old(self).os(), final(self).os(), crate::vxs::serial2::answer(r, final(buffer)@)),
    deadline.at == crate::vxs::clock() ==> crate::vxs::serial2::too_late(old(self).os(), final(self).os(), crate::vxs::serial2::answer(r, final(buffer)@))
        || crate::vxs::serial2::read_once(old(self).os(), final(self).os(), 0, crate::vxs::serial2::answer(r, final(buffer)@)),
    // Otherwise one call that blocks as long as there is time left and no longer, or none if the port refuses the time-out.
    deadline.at > crate::vxs::clock() ==> crate::vxs::serial2::read_once(old(self).os(), final(self).os(),
        deadline.at - crate::vxs::clock(), crate::vxs::serial2::answer(r, final(buffer)@)),
begin
    broadcast use crate::vxs::io::error_kind;

## fn serial_port::serial2::SerialPort@SerialPort::port_write_all
props C24
ensures [C24]
    final(self).events() == old(self).events(),
    final(self).os() == (crate::vxs::serial2::Os { written: old(self).os().written.push((buffer@, r)), ..old(self).os() }),

## fn serial_port::serial2::SerialPort@SerialPort::port_make_deadline
props C24
requires
    crate::vxs::clock() + timeout.ns() <= crate::vxs::Instant::latest(),
ensures [C24]
    r.at == crate::vxs::clock() + timeout.ns(),

## fn serial_port::serial2::SerialPort@SerialPort::port_is_timeout_error
props C24
ensures [C24]
    r == (error.kind_of() == crate::vxs::io::ErrorKind::TimedOut),

// client.rs

## fn client::Client::open
props C21 C24
ensures [C21 C24]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v().baud == baud_rate && r->Ok_0.v().pending == Seq::<u8>::empty()
        && r->Ok_0.v().rcap == 128 && r->Ok_0.v().wcap == 128,

## fn client::Client::open_with_buffers
props C21 C24
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21 C24]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v().baud == baud_rate && r->Ok_0.v().pending == Seq::<u8>::empty()
        && r->Ok_0.v().rcap == read_buffer.bytes().len() && r->Ok_0.v().wcap == write_buffer.bytes().len(),

// device.rs

## fn device::Device::open
props C21 C24
ensures [C21 C24]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v().baud == baud_rate && r->Ok_0.v().pending == Seq::<u8>::empty()
        && r->Ok_0.v().rcap == 128 && r->Ok_0.v().wcap == 128,

## fn device::Device::open_with_buffers
props C21 C24
requires [C05 C21]
    write_buffer.bytes().len() >= 10 || crate::vx::announced(),
ensures [C21 C24]
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v().baud == baud_rate && r->Ok_0.v().pending == Seq::<u8>::empty()
        && r->Ok_0.v().rcap == read_buffer.bytes().len() && r->Ok_0.v().wcap == write_buffer.bytes().len(),
