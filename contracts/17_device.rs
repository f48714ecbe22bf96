// What devices do with the bus: instructions and their meaning.
pub mod dev {
use vstd::prelude::*;
use crate::vx::*;
use crate::frame::*;
use crate::device::*;
use crate::*;

// ---------------------------------------------------------------- receiving

/// The effect of skipping so many status packets with one deadline.
pub open spec fn skips<E, I>(o: BusV<E, I>, m: BusV<E, I>, d: I, k: nat) -> bool
    decreases k,
{
    if k == 0 { m == o }
    else { exists|p: BusV<E, I>, s: Seq<u8>| skips(o, p, d, (k - 1) as nat) && #[trigger] bus_read(p, m, d, Ok(s)) && s[7] == 0x55 }
}

pub open spec fn skipped<E, I>(o: BusV<E, I>, m: BusV<E, I>, d: I) -> bool { exists|k: nat| #[trigger] skips(o, m, d, k) }

pub open spec fn no_status<E>(x: Result<Seq<u8>, ReadError<E>>) -> bool { x is Ok ==> x->Ok_0[7] != 0x55 }

/// The effect of waiting so long for the first instruction (or error), with one deadline.
pub open spec fn device_waits<E, I>(o: BusV<E, I>, n: BusV<E, I>, ns: int, x: Result<Seq<u8>, ReadError<E>>) -> bool {
    no_status(x) && exists|m: BusV<E, I>, d: I| deadline_for(ns, d) && skipped(o, m, d) && #[trigger] bus_read(m, n, d, x)
}

pub open spec fn instruction_data<'a, E>(r: Result<crate::bus::InstructionPacket<'a>, E>) -> Result<Seq<u8>, E> {
    match r {
        Ok(p) => Ok(p.d()),
        Err(e) => Err(e),
    }
}

pub proof fn skips_none<E, I>(o: BusV<E, I>, d: I)
    ensures skipped(o, o, d),
{
    assert(skips(o, o, d, 0));
}

pub proof fn skips_one<E, I>(o: BusV<E, I>, p: BusV<E, I>, m: BusV<E, I>, d: I, s: Seq<u8>)
    requires skipped(o, p, d), bus_read(p, m, d, Ok(s)), s[7] == 0x55,
    ensures skipped(o, m, d),
{
    let k = choose|k: nat| #[trigger] skips(o, p, d, k);
    assert(skips(o, m, d, k + 1));
}

// ---------------------------------------------------------------- meaning

pub open spec fn borrowed<'a>(i: Instructions<&'a [u8]>) -> Instructions<Seq<u8>> {
    match i {
        Instructions::Ping => Instructions::Ping,
        Instructions::Read { address, length } => Instructions::Read { address, length },
        Instructions::Write { address, parameters } => Instructions::Write { address, parameters: parameters@ },
        Instructions::RegWrite { address, parameters } => Instructions::RegWrite { address, parameters: parameters@ },
        Instructions::Action => Instructions::Action,
        Instructions::FactoryReset(f) => Instructions::FactoryReset(f),
        Instructions::Reboot => Instructions::Reboot,
        Instructions::Clear(c) => Instructions::Clear(c),
        Instructions::SyncRead { address, length, ids } => Instructions::SyncRead { address, length, ids: ids@ },
        Instructions::SyncWrite { address, length, parameters } => Instructions::SyncWrite { address, length, parameters: parameters@ },
        Instructions::BulkRead { parameters } => Instructions::BulkRead { parameters: parameters@ },
        Instructions::BulkWrite { parameters } => Instructions::BulkWrite { parameters: parameters@ },
        Instructions::Unknown { instruction, parameters } => Instructions::Unknown { instruction, parameters: parameters@ },
    }
}

pub open spec fn owned(i: Instructions<Vec<u8>>) -> Instructions<Seq<u8>> {
    match i {
        Instructions::Ping => Instructions::Ping,
        Instructions::Read { address, length } => Instructions::Read { address, length },
        Instructions::Write { address, parameters } => Instructions::Write { address, parameters: parameters@ },
        Instructions::RegWrite { address, parameters } => Instructions::RegWrite { address, parameters: parameters@ },
        Instructions::Action => Instructions::Action,
        Instructions::FactoryReset(f) => Instructions::FactoryReset(f),
        Instructions::Reboot => Instructions::Reboot,
        Instructions::Clear(c) => Instructions::Clear(c),
        Instructions::SyncRead { address, length, ids } => Instructions::SyncRead { address, length, ids: ids@ },
        Instructions::SyncWrite { address, length, parameters } => Instructions::SyncWrite { address, length, parameters: parameters@ },
        Instructions::BulkRead { parameters } => Instructions::BulkRead { parameters: parameters@ },
        Instructions::BulkWrite { parameters } => Instructions::BulkWrite { parameters: parameters@ },
        Instructions::Unknown { instruction, parameters } => Instructions::Unknown { instruction, parameters: parameters@ },
    }
}

pub open spec fn reset_of(p: u8) -> crate::device::FactoryReset {
    if p == 0xFF { crate::device::FactoryReset::All }
    else if p == 0x01 { crate::device::FactoryReset::ExceptId }
    else if p == 0x02 { crate::device::FactoryReset::ExceptIdBaudRate }
    else { crate::device::FactoryReset::Unknown(p) }
}

pub open spec fn clear_of(p: u8) -> crate::device::Clear {
    if p == 0x01 { crate::device::Clear::MultiTurns }
    else if p == 0x02 { crate::device::Clear::Errors }
    else { crate::device::Clear::Reserved(p) }
}

/// What the instruction with these parameters means, if they are enough.
pub open spec fn meaning(instruction: u8, p: Seq<u8>) -> Instructions<Seq<u8>> {
    if instruction == 0x01 { Instructions::Ping }
    else if instruction == 0x02 { Instructions::Read { address: get16(p, 0), length: get16(p, 2) } }
    else if instruction == 0x03 { Instructions::Write { address: get16(p, 0), parameters: p.skip(2) } }
    else if instruction == 0x04 { Instructions::RegWrite { address: get16(p, 0), parameters: p.skip(2) } }
    else if instruction == 0x05 { Instructions::Action }
    else if instruction == 0x06 { Instructions::FactoryReset(reset_of(p[0])) }
    else if instruction == 0x08 { Instructions::Reboot }
    else if instruction == 0x10 { Instructions::Clear(clear_of(p[0])) }
    else if instruction == 0x82 { Instructions::SyncRead { address: get16(p, 0), length: get16(p, 2), ids: p.skip(4) } }
    else if instruction == 0x83 { Instructions::SyncWrite { address: get16(p, 0), length: get16(p, 2), parameters: p.skip(4) } }
    else if instruction == 0x92 { Instructions::BulkRead { parameters: p } }
    else if instruction == 0x93 { Instructions::BulkWrite { parameters: p } }
    else { Instructions::Unknown { instruction, parameters: p } }
}

/// The number of parameters that the instruction calls for.
pub open spec fn expects(instruction: u8) -> ExpectedCount {
    if instruction == 0x02 { ExpectedCount::Exact(4) }
    else if instruction == 0x03 || instruction == 0x04 { ExpectedCount::Min(2) }
    else if instruction == 0x06 { ExpectedCount::Exact(1) }
    else if instruction == 0x10 { ExpectedCount::Min(1) }
    else if instruction == 0x82 || instruction == 0x83 { ExpectedCount::Min(4) }
    else { ExpectedCount::Min(0) }
}

pub open spec fn enough(n: int, c: ExpectedCount) -> bool {
    match c {
        ExpectedCount::Exact(k) => n == k,
        ExpectedCount::Min(k) => n >= k,
        ExpectedCount::Max(k) => n <= k,
    }
}

/// Nothing says what a device makes of a ping, action or reboot with parameters: an error is right, too.
pub open spec fn lenient(d: Seq<u8>) -> bool { (d[7] == 0x01 || d[7] == 0x05 || d[7] == 0x08) && d.len() > 8 }

/// Decoding this packet can give this ID and this instruction, or this error.
pub open spec fn decodes(d: Seq<u8>, r: Result<(u8, Instructions<Seq<u8>>), InvalidParameterCount>) -> bool {
    match r {
        Ok(i) => enough(d.len() - 8, expects(d[7])) && i.0 == d[4] && i.1 == meaning(d[7], d.skip(8)),
        Err(e) => lenient(d) || !enough(d.len() - 8, expects(d[7]))
            && e == (InvalidParameterCount { actual: (d.len() - 8) as usize, expected: expects(d[7]) }),
    }
}

pub open spec fn borrowed_result<'a, E>(r: Result<Instruction<&'a [u8]>, E>) -> Result<(u8, Instructions<Seq<u8>>), E> {
    match r {
        Ok(i) => Ok((i.id, borrowed(i.instruction))),
        Err(e) => Err(e),
    }
}

pub open spec fn owned_result<E>(r: Result<Instruction<Vec<u8>>, E>) -> Result<(u8, Instructions<Seq<u8>>), E> {
    match r {
        Ok(i) => Ok((i.id, owned(i.instruction))),
        Err(e) => Err(e),
    }
}

pub open spec fn wrong_parameters<E>(e: InvalidParameterCount) -> ReadError<E> {
    ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(e))
}

/// The result of decoding what was received.
pub open spec fn decoded<E>(x: Result<Seq<u8>, ReadError<E>>, r: Result<(u8, Instructions<Seq<u8>>), ReadError<E>>) -> bool {
    match x {
        Err(e) => r == Err::<(u8, Instructions<Seq<u8>>), ReadError<E>>(e),
        Ok(d) => match r {
            Ok(i) => decodes(d, Ok(i)),
            Err(e) => exists|c: InvalidParameterCount| #[trigger] decodes(d, Err(c)) && e == wrong_parameters::<E>(c),
        },
    }
}

/// The effect of waiting for an instruction and decoding it.
pub open spec fn instructed<E, I>(o: BusV<E, I>, n: BusV<E, I>, ns: int, r: Result<(u8, Instructions<Seq<u8>>), ReadError<E>>) -> bool {
    exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] device_waits(o, n, ns, x) && decoded(x, r)
}

impl<SerialPort: crate::SerialPort, Buffer: ByteBuf> crate::device::Device<SerialPort, Buffer> {
    pub open spec fn v(&self) -> BusV<SerialPort::Error, SerialPort::Instant> { self.bus.v() }
    pub open spec fn wf(&self) -> bool { self.bus.wf() }
    pub open spec fn left(&self) -> Left { self.bus.left() }
}
}
