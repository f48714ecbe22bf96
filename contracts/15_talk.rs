// What clients and devices do with the bus: requests, responses, time-outs.
pub mod talk {
use vstd::prelude::*;
use crate::vx::*;
use crate::frame::*;
use crate::*;

// ---------------------------------------------------------------- responses

pub open spec fn wrong_instruction<E>(actual: u8) -> ReadError<E> {
    ReadError::InvalidMessage(InvalidMessage::InvalidInstruction(InvalidInstruction { actual, expected: 0x55 }))
}

pub open spec fn wrong_id<E>(actual: u8, expected: u8) -> ReadError<E> {
    ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(InvalidPacketId { actual, expected: Some(expected) }))
}

pub open spec fn wrong_count<E>(actual: int, expected: int) -> ReadError<E> {
    ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(InvalidParameterCount {
        actual: actual as usize, expected: ExpectedCount::Exact(expected as usize) }))
}

/// Only status packets without error number are responses.
pub open spec fn as_status<E>(x: Result<Seq<u8>, ReadError<E>>) -> Result<Seq<u8>, ReadError<E>> {
    match x {
        Ok(d) if d[7] != 0x55 => Err(wrong_instruction(d[7])),
        Ok(d) if d[8] & 0x7f != 0 => Err(ReadError::MotorError(MotorError { raw: d[8] })),
        x => x,
    }
}

/// Only from that motor.
pub open spec fn from_motor<E>(x: Result<Seq<u8>, ReadError<E>>, id: u8) -> Result<Seq<u8>, ReadError<E>> {
    match x {
        Ok(d) if d[4] != id => Err(wrong_id(d[4], id)),
        x => x,
    }
}

/// Only with so many parameters.
pub open spec fn sized<E>(x: Result<Seq<u8>, ReadError<E>>, count: int) -> Result<Seq<u8>, ReadError<E>> {
    match x {
        Ok(d) if d.len() - 9 != count => Err(wrong_count(d.len() - 9, count)),
        x => x,
    }
}

/// The time for a status packet with so many parameters, and 34 ms.
pub open spec fn status_ns(count: int, baud: u32) -> int { transfer_ns(11 + count, baud as int) + 34_000_000 }

/// The time for so many responses to a ping, and 34 ms.
pub open spec fn scan_ns(baud: u32) -> int { 253 * transfer_ns(14, baud as int) + 34_000_000 }

/// The effect of waiting so long for one response.
pub open spec fn awaits<E, I>(o: BusV<E, I>, n: BusV<E, I>, ns: int, x: Result<Seq<u8>, ReadError<E>>) -> bool {
    exists|d: I, y: Result<Seq<u8>, ReadError<E>>| deadline_for(ns, d) && #[trigger] bus_read(o, n, d, y) && x == as_status(y)
}

pub open spec fn status_data<'a, E>(r: Result<crate::bus::StatusPacket<'a>, E>) -> Result<Seq<u8>, E> {
    match r {
        Ok(p) => Ok(p.d()),
        Err(e) => Err(e),
    }
}

/// The sender and the alert flag of a response.
pub open spec fn sender<T>(d: Seq<u8>, a: Response<T>) -> bool {
    a.motor_id == d[4] && a.alert == (d[8] & 0x80 != 0)
}

pub open spec fn for_transfer<T, E>(x: Result<T, ReadError<E>>) -> Result<T, TransferError<E>> {
    match x {
        Ok(d) => Ok(d),
        Err(e) => Err(TransferError::ReadError(e)),
    }
}

// ---------------------------------------------------------------- requests to one motor

/// The effect of waiting for the response to a request, after sending it.
pub open spec fn answered<E, I>(m: BusV<E, I>, n: BusV<E, I>, id: u8, ns: int, w: Result<(), WriteError<E>>, r: Result<Seq<u8>, TransferError<E>>) -> bool {
    match w {
        Err(e) => n == m && r == Err::<Seq<u8>, TransferError<E>>(TransferError::WriteError(e)),
        Ok(_) => exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(m, n, ns, x) && r == for_transfer(from_motor(x, id)),
    }
}

/// The effect of a request with parameters from an encode function and one response.
#[verifier::prophetic]
pub open spec fn transfers<E, I, F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(
    o: BusV<E, I>, n: BusV<E, I>, id: u8, instruction: u8, f: F, count: int, expected: int, r: Result<Seq<u8>, TransferError<E>>,
) -> bool {
    let start = seq![instruction];
    exists|m: BusV<E, I>, w: Result<(), WriteError<E>>|
        #![trigger answered(m, n, id, status_ns(expected, o.baud), w, r)]
        #![trigger sends_encoded(o, m, id, start, f, count, w)]
        answered(m, n, id, status_ns(expected, o.baud), w, r) && sends_encoded(o, m, id, start, f, count, w)
}

/// The effect of a request with these contents and one response of the right size.
pub open spec fn asks<E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, body: Seq<u8>, expected: int, r: Result<Seq<u8>, TransferError<E>>) -> bool {
    exists|m: BusV<E, I>, w: Result<(), WriteError<E>>, y: Result<Seq<u8>, TransferError<E>>|
        #[trigger] answered(m, n, id, status_ns(expected, o.baud), w, y) && sends(o, m, id, body, w) && r == sized_transfer(y, expected)
}

pub open spec fn sized_transfer<E>(y: Result<Seq<u8>, TransferError<E>>, count: int) -> Result<Seq<u8>, TransferError<E>> {
    match y {
        Ok(d) if d.len() - 9 != count => Err(TransferError::ReadError(wrong_count(d.len() - 9, count))),
        y => y,
    }
}

// ---------------------------------------------------------------- answers

/// The errors are the same.
pub open spec fn same_error<A, B, E>(x: Result<A, E>, r: Result<B, E>) -> bool {
    x is Err && r is Err && x->Err_0 == r->Err_0
}

pub open spec fn empty_answer<E>(x: Result<Seq<u8>, E>, r: Result<Response<()>, E>) -> bool {
    x is Ok && r is Ok && sender(x->Ok_0, r->Ok_0) || same_error(x, r)
}

pub open spec fn ping_answer<E>(x: Result<Seq<u8>, E>, r: Result<Response<crate::instructions::Ping>, E>) -> bool {
    x is Ok && r is Ok && sender(x->Ok_0, r->Ok_0) && r->Ok_0.data.model == get16(x->Ok_0, 9) && r->Ok_0.data.firmware == x->Ok_0[11] || same_error(x, r)
}

pub open spec fn bytes_answer<T, E>(x: Result<Seq<u8>, E>, r: Result<Response<T>, E>) -> bool {
    x is Ok && r is Ok && sender(x->Ok_0, r->Ok_0) && made_of(r->Ok_0.data, x->Ok_0.skip(9)) || same_error(x, r)
}

pub open spec fn borrow_answer<T, E>(x: Result<Seq<u8>, E>, r: Result<Response<&T>, E>) -> bool {
    x is Ok && r is Ok && sender(x->Ok_0, r->Ok_0) && borrowed_from(*r->Ok_0.data, x->Ok_0.skip(9)) || same_error(x, r)
}

/// A value that `decode` refuses is possible for types of the user only.
pub open spec fn value_answer<T: crate::bus::data::Data, E>(x: Result<Seq<u8>, E>, r: Result<Response<T>, E>) -> bool {
    x is Ok && r is Ok && sender(x->Ok_0, r->Ok_0) && r->Ok_0.data.encoded() == x->Ok_0.skip(9) || same_error(x, r)
        || x is Ok && r is Err && !T::total()
}

/// The effect of a ping.
pub open spec fn pings<E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, r: Result<Response<crate::instructions::Ping>, TransferError<E>>) -> bool {
    let body = instruction_body(0x01, seq![]);
    exists|m: BusV<E, I>, w: Result<(), WriteError<E>>, y: Result<Seq<u8>, TransferError<E>>|
        #[trigger] answered(m, n, id, status_ns(3, o.baud), w, y) && sends(o, m, id, body, w) && ping_answer(sized_transfer(y, 3), r)
}

/// The effect of reading so many bytes, or a value of that size.
pub open spec fn read_body(address: u16, count: u16) -> Seq<u8> { instruction_body(0x02, le16(address) + le16(count)) }

pub open spec fn asks_bytes<T, E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, address: u16, count: u16, r: Result<Response<T>, TransferError<E>>) -> bool {
    exists|x: Result<Seq<u8>, TransferError<E>>| #[trigger] asks(o, n, id, read_body(address, count), count as int, x) && bytes_answer(x, r)
}

pub open spec fn asks_value<T: crate::bus::data::Data, E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, address: u16, r: Result<Response<T>, TransferError<E>>) -> bool {
    exists|x: Result<Seq<u8>, TransferError<E>>| #[trigger] asks(o, n, id, read_body(address, T::ENCODED_SIZE), T::ENCODED_SIZE as int, x) && value_answer(x, r)
}

/// The parameter of a factory reset.
pub open spec fn reset_kind(kind: crate::instructions::FactoryResetKind) -> u8 {
    match kind {
        crate::instructions::FactoryResetKind::ResetAll => 0xFF,
        crate::instructions::FactoryResetKind::KeepId => 0x01,
        crate::instructions::FactoryResetKind::KeepIdAndBaudRate => 0x02,
    }
}

/// The effect of waiting for the acknowledgement of a command: none for broadcasts.
pub open spec fn acknowledged<E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, r: Result<Response<()>, ReadError<E>>) -> bool {
    if id == 0xFE { n == o && r is Ok && r->Ok_0.motor_id == 0xFE && !r->Ok_0.alert }
    else {
        exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(o, n, status_ns(0, o.baud), x) && empty_answer(sized(from_motor(x, id), 0), r)
    }
}

/// The effect of a command after sending it.
pub open spec fn concluded<E, I>(m: BusV<E, I>, n: BusV<E, I>, id: u8, w: Result<(), WriteError<E>>, r: Result<Response<()>, TransferError<E>>) -> bool {
    match w {
        Err(e) => n == m && r is Err && r->Err_0 == TransferError::WriteError(e),
        Ok(_) => exists|a: Result<Response<()>, ReadError<E>>| #[trigger] acknowledged(m, n, id, a) && r == for_transfer(a),
    }
}

/// The effect of a command with these contents.
pub open spec fn commands<E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, body: Seq<u8>, r: Result<Response<()>, TransferError<E>>) -> bool {
    exists|m: BusV<E, I>, w: Result<(), WriteError<E>>| #[trigger] sends(o, m, id, body, w) && concluded(m, n, id, w, r)
}

/// The effect of sending a packet that ends with a value. Only values of types of the user may refuse to be encoded.
pub open spec fn sends_value<E, I, T: crate::bus::data::Data>(o: BusV<E, I>, n: BusV<E, I>, id: u8, instruction: u8, first: Seq<u8>, value: T, w: Result<(), WriteError<E>>) -> bool {
    ||| sends(o, n, id, instruction_body(instruction, first + value.encoded()), w)
    ||| w is Err && w->Err_0 is BufferTooSmall && n == o
        && (!T::total() || never_fits(o.wcap, seq![instruction], first.len() + T::ENCODED_SIZE))
}

pub open spec fn commands_value<E, I, T: crate::bus::data::Data>(o: BusV<E, I>, n: BusV<E, I>, id: u8, instruction: u8, first: Seq<u8>, value: T, r: Result<Response<()>, TransferError<E>>) -> bool {
    exists|m: BusV<E, I>, w: Result<(), WriteError<E>>| #[trigger] sends_value(o, m, id, instruction, first, value, w) && concluded(m, n, id, w, r)
}

pub proof fn time_bounds(size: int, rate: int)
    requires 0 <= size <= 100_000, 0 <= rate <= u32::MAX,
    ensures 0 <= transfer_ns(size, rate) <= 2_000_000_000_000_000,
{
    let baud = if rate == 0 { 1 } else { rate };
    let x = size * 10_000_000_000 + baud - 1;
    assert(0 <= x / baud <= x) by (nonlinear_arith) requires x >= 0, baud > 0;
}

impl<SerialPort: crate::SerialPort, Buffer: ByteBuf> Client<SerialPort, Buffer> {
    pub open spec fn v(&self) -> BusV<SerialPort::Error, SerialPort::Instant> { self.bus.v() }
    pub open spec fn wf(&self) -> bool { self.bus.wf() }
    pub open spec fn left(&self) -> Left { self.bus.left() }
}
}
