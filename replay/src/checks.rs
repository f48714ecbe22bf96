use crate::model::{self, Rx};
use crate::port::{Ev, Port, PortErr};
use crate::src::Src;
use dynamixel2::instructions::*;
use dynamixel2::{Client, Device, InvalidMessage, ReadError, Response, TransferError, WriteError};
use std::collections::VecDeque;
use std::time::Duration;

type R = Result<(), String>;
type C = Client<Port, Vec<u8>>;
type D = Device<Port, Vec<u8>>;

pub const CHECKS: &[(&str, fn(&mut Src) -> R)] = &[
	("C01", c01),
	("C02", c02),
	("C03", c03),
	("C04", c04),
	("C05", c05),
	("C06", c06),
	("C07", c07),
	("C08", c08),
	("C09", c09),
	("C10", c10),
	("C11", c11),
	("C12", c12),
	("C13", c13),
	("C14", c14),
	("C15", c15),
	("C16", c16),
	("C17", c17),
	("C18", c18),
	("C19", c19),
	("C20", c20),
	("C21", c21),
	("C22", c22),
	("C23", crate::statics::c23),
	("C24", crate::os::c24),
	("C25", crate::os::c25),
];

macro_rules! ensure {
	($cond:expr, $($fmt:tt)*) => { if !$cond { return Err(format!($($fmt)*)); } }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
	if got == want {
		Ok(())
	} else {
		let mut g = format!("{got:02X?}");
		let mut w = format!("{want:02X?}");
		g.truncate(400);
		w.truncate(400);
		Err(format!("{what}: got {g}, expected {w}"))
	}
}

const INSTR_TIMEOUT: Duration = Duration::from_millis(7);

// ---------------------------------------------------------------- results in comparable form

#[derive(Debug, Clone, PartialEq, Eq)]
enum Fail {
	Timeout,
	Fault(u32),
	BadCrc(u16, u16),
	BufferFull(usize, usize),
	Instruction(u8, u8),
	Id(u8, Option<u8>),
	Count(usize, String),
	Prefix,
	Motor(u8),
	WBuffer(usize, usize),
	WDiscard(u32),
	WWrite(u32),
}

fn io(e: PortErr) -> Fail {
	match e {
		PortErr::Timeout => Fail::Timeout,
		PortErr::Fault(n) => Fail::Fault(n),
	}
}

fn rfail(e: ReadError<PortErr>) -> Fail {
	match e {
		ReadError::BufferFull(e) => Fail::BufferFull(e.required_size, e.total_size),
		ReadError::Io(e) => io(e),
		ReadError::InvalidMessage(InvalidMessage::InvalidHeaderPrefix(_)) => Fail::Prefix,
		ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(e)) => Fail::BadCrc(e.message, e.computed),
		ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(e)) => Fail::Id(e.actual, e.expected),
		ReadError::InvalidMessage(InvalidMessage::InvalidInstruction(e)) => Fail::Instruction(e.actual, e.expected),
		ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(e)) => Fail::Count(e.actual, format!("{:?}", e.expected)),
		ReadError::MotorError(e) => Fail::Motor(e.raw),
	}
}

fn wfail(e: WriteError<PortErr>) -> Fail {
	match e {
		WriteError::BufferTooSmall(e) => Fail::WBuffer(e.required_size, e.total_size),
		WriteError::DiscardBuffer(PortErr::Fault(n)) => Fail::WDiscard(n),
		WriteError::Write(PortErr::Fault(n)) => Fail::WWrite(n),
		WriteError::DiscardBuffer(PortErr::Timeout) => Fail::WDiscard(999),
		WriteError::Write(PortErr::Timeout) => Fail::WWrite(999),
	}
}

fn tfail(e: TransferError<PortErr>) -> Fail {
	match e {
		TransferError::WriteError(e) => wfail(e),
		TransferError::ReadError(e) => rfail(e),
	}
}

// ---------------------------------------------------------------- set up

fn stale(src: &mut Src, len: usize) -> Vec<u8> {
	match src.u8() % 4 {
		0 => vec![0; len],
		1 => vec![0xFF; len],
		2 => [0xFF, 0xFF, 0xFD].iter().copied().cycle().take(len).collect(),
		_ => vec![src.u8(); len],
	}
}

fn baud(src: &mut Src) -> u32 {
	match src.below(4) {
		0 => [9600, 57600, 115200, 1_000_000, 4_500_000, 1, 2, 0][src.below(8)],
		1 => src.u32(),
		2 => src.u16() as u32,
		_ => 57600,
	}
}

/// The failure that the port reports under its number.
fn failing(src: &mut Src, port: &Port, n: u32) -> u32 {
	let late = src.chance(4);
	port.0.borrow_mut().late = late;
	if late {
		999
	} else {
		n
	}
}

fn client(src: &mut Src, rcap: usize, wcap: usize) -> (C, Port) {
	let port = Port::new(baud(src));
	let c = Client::with_buffers(port.clone(), stale(src, rcap), stale(src, wcap)).expect("baud rate");
	port.take_events();
	(c, port)
}

fn device(src: &mut Src, rcap: usize, wcap: usize) -> (D, Port) {
	let port = Port::new(baud(src));
	let d = Device::with_buffers(port.clone(), stale(src, rcap), stale(src, wcap)).expect("baud rate");
	port.take_events();
	(d, port)
}

/// A parameter count, with the sizes around internal limits over-represented.
fn count(src: &mut Src) -> usize {
	match src.u8() % 32 {
		0..=11 => src.below(8),
		12..=19 => src.below(40),
		20..=26 => [110, 117, 118, 119, 120, 128, 240, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 508, 509, 510, 511, 512, 764, 1020, 1021, 1022][src.below(32)],
		27..=30 => src.below(600),
		_ => [4096, 0x7FF0 + src.below(32), 0xFF00, 0xFFFC - src.below(4)][src.below(4)],
	}
}

fn params(src: &mut Src) -> Vec<u8> {
	let n = count(src);
	let mut p = src.payload_exact(n);
	if n > 0xFF00 {
		// Up to the end of the length field, with the stuffing.
		let room = 0xFFFF - src.below(12);
		let mut len = 0;
		for i in 0..p.len() {
			len += 1 + (i >= 2 && p[i - 2..=i] == [0xFF, 0xFF, 0xFD]) as usize;
			if len > room {
				p.truncate(i);
				break;
			}
		}
	}
	p
}

fn fill<'a>(p: &'a [u8]) -> impl FnOnce(&mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> + 'a {
	move |b: &mut [u8]| {
		assert!(b.len() == p.len(), "encode function given {} bytes instead of {}", b.len(), p.len());
		b.copy_from_slice(p);
		Ok(())
	}
}

// ---------------------------------------------------------------- C01, C02, C03, C08: sending

/// Send one packet through a random public entry point; returns the wire image it must have had.
fn send(src: &mut Src, c: &mut C, d: &mut D) -> (bool, Result<(), WriteError<PortErr>>, u8, u8, Vec<u8>) {
	let id = src.id();
	match src.below(6) {
		0 => {
			let p = params(src);
			let e = src.byte();
			let mut full = vec![e];
			full.extend(&p);
			(false, d.write_status(id, e, p.len(), fill(&p)), id, model::STATUS, full)
		},
		1 => {
			let e = src.byte();
			(false, d.write_status_error(id, e), id, model::STATUS, vec![e])
		},
		2 => (false, d.write_status_ok(id), id, model::STATUS, vec![0]),
		_ => {
			let p = params(src);
			let i = src.instr();
			(true, c.write_instruction(id, i, p.len(), fill(&p)), id, i, p)
		},
	}
}

fn c01(src: &mut Src) -> R {
	let cap = 0x1_8000;
	let (mut c, cport) = client(src, 64, cap);
	let (mut d, dport) = device(src, 64, cap);
	for _ in 0..1 + src.below(3) {
		let (by_client, result, id, instr, params) = send(src, &mut c, &mut d);
		let port = if by_client { &cport } else { &dport };
		let writes = port.writes();
		port.take_events();
		if let Some(want) = model::frame(id, instr, &params) {
			ensure!(result.is_ok(), "sending {} parameters failed: {:?}", params.len(), result.unwrap_err());
			eq("bytes written", writes, vec![want])?;
		}
	}
	Ok(())
}

fn c02(src: &mut Src) -> R {
	let cap = 0x1_8000;
	let (mut c, port) = client(src, 64, cap);
	let p = params(src);
	let (id, instr) = (src.id(), src.instr());
	if c.write_instruction(id, instr, p.len(), fill(&p)).is_err() {
		return Ok(());
	}
	let wire = port.writes().concat();
	ensure!(wire.len() >= 10, "frame of {} bytes", wire.len());
	let body = &wire[7..wire.len() - 2];
	for i in 0..body.len() {
		if body[i..].starts_with(&[0xFF, 0xFF, 0xFD]) {
			ensure!(body.get(i + 3) == Some(&0xFD), "body contains FF FF FD at {i} without a stuffing byte");
		}
	}
	let mut want = vec![instr];
	want.extend(&p);
	eq("body without stuffing", model::unstuff(body), want.clone())?;
	// The receiving half has to undo it (frame made by the reference, so that only removal is tested here).
	let Some(frame) = model::frame(id, instr, &p) else { return Ok(()) };
	if instr != model::STATUS {
		let (mut d, dport) = device(src, cap, 32);
		dport.feed(frame);
		match d.read_raw_instruction_timeout(INSTR_TIMEOUT) {
			Ok(x) => {
				let mut got = vec![x.instruction_id()];
				got.extend(x.parameters());
				eq("body read back", got, want)?;
			},
			Err(e) => return Err(format!("intact frame is rejected: {e:?}")),
		}
	} else if !p.is_empty() && p[0] & 0x7F == 0 {
		let (mut c, cport) = client(src, cap, 32);
		cport.feed(frame);
		match c.read_status_response_timeout(INSTR_TIMEOUT) {
			Ok(x) => {
				let mut got = vec![x.instruction_id(), x.error()];
				got.extend(x.parameters());
				eq("body read back", got, want)?;
			},
			Err(e) => return Err(format!("intact frame is rejected: {e:?}")),
		}
	}
	Ok(())
}

fn c03(src: &mut Src) -> R {
	let mut data = src.payload(300);
	if src.chance(40) && !data.is_empty() {
		// Longer than any packet.
		let n = [255, 256, 4096, 65535, 65536][src.below(5)] + src.below(70);
		let block = data.clone();
		while data.len() < n {
			data.extend(&block);
		}
		data.truncate(n);
	}
	let init = if src.chance(2) { src.u16() } else { 0 };
	let got = dynamixel2::checksum::calculate_checksum(init, &data);
	eq("checksum", got, model::crc(init, &data))?;
	let at = src.below(data.len() + 1);
	let first = dynamixel2::checksum::calculate_checksum(init, &data[..at]);
	eq("incremental checksum", dynamixel2::checksum::calculate_checksum(first, &data[at..]), got)
}

fn c08(src: &mut Src) -> R {
	let p = params(src);
	let (id, instr) = (src.id(), src.instr());
	let status = src.chance(2);
	let error = src.byte();
	let mut full = if status { vec![error] } else { vec![] };
	full.extend(&p);
	let instr = if status { model::STATUS } else { instr };
	let mut body = vec![instr];
	body.extend(&full);
	let plain = 7 + body.len() + 2;
	let stuffed = 7 + model::stuff(&body).len() + 2;
	let cap = match src.below(5) {
		0 => plain.saturating_sub(1 + src.below(3)),
		1 => plain + src.below(stuffed - plain + 3),
		2 => stuffed,
		3 => stuffed.saturating_sub(1 + src.below(3)),
		_ => 10 + src.below(200),
	}
	.max(10);
	if src.chance(24) {
		// More motors than there are bytes in the address space.
		let n = if src.chance(2) { usize::MAX - src.below(16) } else { (1usize << 63) + src.below(3) };
		let (mut c, port) = client(src, 64, cap);
		let result = if src.chance(2) {
			c.sync_write(7, (0..n).map(|_| SyncWriteData { motor_id: 1, data: 5u8 }))
		} else {
			c.sync_write_bytes(7, 1, (0..n).map(|_| SyncWriteData { motor_id: 1, data: [5u8] }))
		}
		.map_err(wfail);
		ensure!(matches!(result, Err(Fail::WBuffer(r, t)) if r > t), "sync write to {n} motors: got {result:?}");
		return eq("nothing sent", port.writes(), vec![]);
	}
	let refuse = src.chance(6);
	let absurd = src.chance(16);
	let run = |f: &mut dyn FnMut(usize) -> Result<(), WriteError<PortErr>>| -> Result<(), WriteError<PortErr>> { f(if absurd { usize::MAX - (error as usize % 16) } else { p.len() }) };
	let port;
	let result;
	let encode = |b: &mut [u8]| {
		if refuse {
			return Err(dynamixel2::BufferTooSmallError { required_size: 4242, total_size: 17 });
		}
		assert!(b.len() == p.len(), "encode function given {} bytes instead of {}", b.len(), p.len());
		b.copy_from_slice(&p);
		Ok(())
	};
	if status {
		let (mut d, q) = device(src, 64, cap);
		port = q;
		result = run(&mut |n| d.write_status(id, error, n, encode));
	} else {
		let (mut c, q) = client(src, 64, cap);
		port = q;
		result = run(&mut |n| c.write_instruction(id, instr, n, encode));
	}
	let sent = port.writes();
	let result = result.map_err(wfail);
	if absurd {
		ensure!(matches!(result, Err(Fail::WBuffer(r, t)) if r > t), "impossible parameter count: got {result:?}");
		return eq("nothing sent", sent, vec![]);
	}
	if plain > cap {
		ensure!(matches!(result, Err(Fail::WBuffer(r, t)) if r > t), "message of {plain} bytes with a buffer of {cap}: {result:?}");
		return eq("bytes sent", sent, vec![]);
	}
	if refuse && plain <= 7 + 0xFFFF {
		eq("result", result, Err(Fail::WBuffer(4242, 17)))?;
		return eq("bytes sent", sent, vec![]);
	}
	if stuffed > cap || stuffed > 7 + 0xFFFF {
		ensure!(matches!(result, Err(Fail::WBuffer(r, t)) if r > t), "frame of {stuffed} bytes with a buffer of {cap}: {result:?}");
		return eq("bytes sent", sent, vec![]);
	}
	eq("result", result, Ok(()))?;
	eq("messages sent", sent.len(), 1)
}

// ---------------------------------------------------------------- C04 .. C07, C09, C10: receiving

#[derive(Debug, Clone, PartialEq, Eq)]
enum Got {
	Packet { id: u8, instr: u8, error: Option<u8>, params: Vec<u8> },
	Fail(Fail),
}

/// The incoming side of the bus as the reference sees it.
struct Line {
	pending: Vec<u8>,
	rx: VecDeque<Result<Vec<u8>, PortErr>>,
	cap: usize,
}

impl Line {
	fn next(&mut self) -> Result<Rx, PortErr> {
		loop {
			if let Some((r, used)) = model::parse(&self.pending, self.cap) {
				self.pending.drain(..used);
				return Ok(r);
			}
			match self.rx.pop_front() {
				None => return Err(PortErr::Timeout),
				Some(Err(e)) => return Err(e),
				Some(Ok(c)) => self.pending.extend(c),
			}
		}
	}
	fn frame(&mut self) -> Result<(u8, Vec<u8>), Option<Fail>> {
		match self.next() {
			Err(e) => Err(Some(io(e))),
			Ok(Rx::BadCrc { message, computed }) => Err(Some(Fail::BadCrc(message, computed))),
			Ok(Rx::TooLong(n)) => Err(Some(Fail::BufferFull(n, self.cap))),
			// Reported as an error; which one is not fixed.
			Ok(Rx::TooShort(_)) | Ok(Rx::NoErrorField) => Err(None),
			Ok(Rx::Frame { id, body }) => Ok((id, body)),
		}
	}
	/// What reading one status must report; Err(None) is any "invalid message" error.
	fn status(&mut self) -> Result<Got, Option<Fail>> {
		let (id, body) = self.frame()?;
		if body[0] != model::STATUS {
			return Err(Some(Fail::Instruction(body[0], model::STATUS)));
		}
		if body[1] & 0x7F != 0 {
			return Err(Some(Fail::Motor(body[1])));
		}
		Ok(Got::Packet { id, instr: body[0], error: Some(body[1]), params: body[2..].to_vec() })
	}
	fn instruction(&mut self) -> Result<Got, Option<Fail>> {
		loop {
			let (id, body) = self.frame()?;
			if body[0] != model::STATUS {
				return Ok(Got::Packet { id, instr: body[0], error: None, params: body[1..].to_vec() });
			}
		}
	}
}

fn read_status(c: &mut C) -> Got {
	match c.read_status_response_timeout(INSTR_TIMEOUT) {
		Ok(p) => Got::Packet { id: p.packet_id(), instr: p.instruction_id(), error: Some(p.error()), params: p.parameters().to_vec() },
		Err(e) => Got::Fail(rfail(e)),
	}
}

fn read_instruction(d: &mut D) -> Got {
	match d.read_raw_instruction_timeout(INSTR_TIMEOUT) {
		Ok(p) => Got::Packet { id: p.packet_id(), instr: p.instruction_id(), error: None, params: p.parameters().to_vec() },
		Err(e) => Got::Fail(rfail(e)),
	}
}

fn is_invalid(f: &Fail) -> bool {
	matches!(f, Fail::Count(..) | Fail::Prefix | Fail::BadCrc(..) | Fail::Instruction(..) | Fail::Id(..) | Fail::BufferFull(..))
}

#[derive(Clone, Copy, PartialEq)]
enum Mix {
	Clean,
	Noisy,
	Broken,
	Anything,
	BothKinds,
	Errors,
}

fn any_frame(src: &mut Src, max: usize, status: Option<bool>, error: Option<u8>) -> Vec<u8> {
	let id = src.id();
	let p = src.payload(max);
	let status = status.unwrap_or_else(|| src.chance(2));
	if status {
		let e = error.unwrap_or_else(|| if src.chance(4) { src.byte() } else if src.chance(3) { 0x80 } else { 0 });
		model::status_frame(id, e, &p).unwrap_or_default()
	} else {
		let mut i = src.instr();
		if i == model::STATUS {
			i = 1;
		}
		model::frame(id, i, &p).unwrap_or_default()
	}
}

/// A packet of which the last byte is FF, intact or not.
fn ends_in_ff(src: &mut Src) -> Vec<u8> {
	let bad = src.chance(3) as u8;
	let body: Vec<u8> = match src.below(5) {
		0 | 1 => vec![0x55],
		2 => vec![0x55, src.u8()],
		3 => vec![1 + src.u8() % 8],
		_ => vec![0x55, 0, src.u8(), src.u8()],
	};
	let from = src.u8();
	for k in 0..=255u8 {
		let mut f = with_len(&body, from.wrapping_add(k), body.len() + 2);
		let n = f.len();
		if f[n - 1] == 0xFF {
			f[n - 2] ^= bad;
			return f;
		}
	}
	vec![0xFF]
}

fn with_len(body: &[u8], id: u8, len: usize) -> Vec<u8> {
	let mut out = vec![0xFF, 0xFF, 0xFD, 0x00, id, len as u8, (len >> 8) as u8];
	out.extend(body);
	let c = model::crc(0, &out);
	out.extend(c.to_le_bytes());
	out
}

fn noise(src: &mut Src) -> Vec<u8> {
	match src.below(6) {
		0 => vec![],
		1 => [vec![0xFF], vec![0xFF, 0xFF], vec![0xFF, 0xFF, 0xFD], vec![0xFF, 0xFF, 0xFF]][src.below(4)].clone(),
		2 => {
			let mut v = src.payload(20);
			v.extend([0xFF, 0xFF, 0xFD]);
			v
		},
		_ => src.payload(30),
	}
}

fn stream(src: &mut Src, mix: Mix, max: usize, status: Option<bool>) -> Vec<u8> {
	let mut out = Vec::new();
	for _ in 0..1 + src.below(5) {
		let kind = match mix {
			Mix::Clean | Mix::BothKinds | Mix::Errors => 0,
			Mix::Noisy => [0, 0, 1][src.below(3)],
			Mix::Broken => [0, 0, 2, 3, 4, 5, 6, 7, 8, 9][src.below(10)],
			Mix::Anything => src.below(10),
		};
		let status = if mix == Mix::BothKinds { None } else { status };
		let error = match mix {
			Mix::Errors => Some(src.u8()),
			Mix::BothKinds => Some([0, 0x80][src.below(2)]),
			_ => None,
		};
		if mix != Mix::Clean && out.last() == Some(&0xFF) && src.chance(2) {
			// A packet that is not there: its first byte belongs to what came before.
			out.extend(&any_frame(src, max, status, error)[1..]);
		}
		match kind {
			0 => out.extend(any_frame(src, max, status, error)),
			1 => out.extend(noise(src)),
			2 => {
				// Damaged bytes.
				let mut f = any_frame(src, max, status, error);
				for _ in 0..1 + src.below(2) {
					let at = 4 + src.below(f.len() - 4);
					if at == 5 || at == 6 {
						f[at] ^= 1 << src.below(2);
					} else {
						f[at] ^= 1 << src.below(8);
					}
				}
				out.extend(f);
			},
			3 => {
				// Checksum bytes exchanged or shifted.
				let mut f = any_frame(src, max, status, error);
				let n = f.len();
				match src.below(3) {
					0 => f.swap(n - 1, n - 2),
					1 => f[n - 1] = f[n - 1].wrapping_add(1),
					_ => f[n - 2] = f[n - 2].wrapping_add(1),
				}
				out.extend(f);
			},
			4 => {
				// Length fields no packet can have.
				let id = src.id();
				let body: Vec<u8> = [0x55, 0][..src.below(2)].to_vec();
				let len = src.below(3);
				out.extend(with_len(&body, id, len));
			},
			5 => {
				// Longer than the read buffer.
				let len = if src.chance(2) { 0x300 + src.below(0xFC00) } else { 0xFFFF - src.below(4) };
				let id = src.id();
				out.extend([0xFF, 0xFF, 0xFD, 0x00, id, len as u8, (len >> 8) as u8]);
				out.extend(src.payload(40));
			},
			6 => {
				// Only just too long, or only just fitting.
				let id = src.id();
				let len = max.saturating_sub(7) + src.below(20);
				let n = len.saturating_sub(2);
				let body = src.payload_exact(n);
				out.extend(with_len(&body, id, len.max(2)));
			},
			7 => {
				// Truncated.
				let f = any_frame(src, max, status, error);
				let n = 1 + src.below(f.len() - 1);
				out.extend(&f[..n]);
			},
			9 => {
				out.extend(ends_in_ff(src));
				if src.chance(2) {
					out.extend(&any_frame(src, max, status, error)[1..]);
				}
			},
			_ => {
				// Raw body, not stuffed properly, good checksum.
				let id = src.id();
				let mut body = src.payload(max.min(40));
				if src.chance(2) {
					body.insert(0, 0x55);
				}
				if body.is_empty() {
					body.push(0x55);
				}
				out.extend(model::frame_raw(id, &body));
			},
		}
		if mix == Mix::Noisy && src.chance(2) {
			out.extend(noise(src));
		}
	}
	out
}

fn chunked(src: &mut Src, data: &[u8], errors: bool) -> VecDeque<Result<Vec<u8>, PortErr>> {
	let mut rx = VecDeque::new();
	let style = src.below(4);
	let mut at = 0;
	while at < data.len() {
		if errors && src.chance(12) {
			rx.push_back(Err(if src.chance(3) { PortErr::Fault(77) } else { PortErr::Timeout }));
		}
		let n = match style {
			0 => data.len(),
			1 => 1,
			2 => 1 + src.below(9),
			_ => 1 + src.below(60),
		}
		.min(data.len() - at);
		rx.push_back(Ok(data[at..at + n].to_vec()));
		at += n;
	}
	rx
}

/// Everything read until the line has been silent, next to what the reference says.
type Reports = Vec<(Got, Result<Got, Option<Fail>>)>;

fn session(src: &mut Src, as_client: bool, cap: usize, rx: VecDeque<Result<Vec<u8>, PortErr>>) -> Reports {
	session_events(src, as_client, cap, rx).0
}

fn session_events(src: &mut Src, as_client: bool, cap: usize, rx: VecDeque<Result<Vec<u8>, PortErr>>) -> (Reports, Vec<Ev>) {
	let mut line = Line { pending: vec![], rx: rx.clone(), cap };
	let silent = |want: &Result<Got, Option<Fail>>, line: &Line| *want == Err(Some(Fail::Timeout)) && line.rx.is_empty();
	let mut out = Vec::new();
	let (mut c, mut d) = (None, None);
	let port;
	if as_client {
		let (x, p) = client(src, cap, 32);
		c = Some(x);
		port = p;
	} else {
		let (x, p) = device(src, cap, 32);
		d = Some(x);
		port = p;
	}
	port.0.borrow_mut().rx = rx;
	for _ in 0..200 {
		let got = match (&mut c, &mut d) {
			(Some(c), _) => read_status(c),
			(_, Some(d)) => read_instruction(d),
			_ => unreachable!(),
		};
		let want = if as_client { line.status() } else { line.instruction() };
		let end = silent(&want, &line);
		out.push((got, want));
		if end {
			break;
		}
	}
	(out, port.take_events())
}

fn read_cap(src: &mut Src) -> usize {
	match src.below(6) {
		0 => 10,
		1 => 11 + src.below(10),
		2 => 128,
		3 => 700,
		_ => 20 + src.below(200),
	}
}

fn matches_want(got: &Got, want: &Result<Got, Option<Fail>>) -> bool {
	match (got, want) {
		(g, Ok(w)) => g == w,
		(Got::Fail(f), Err(Some(w))) => f == w,
		(Got::Fail(f), Err(None)) => is_invalid(f),
		_ => false,
	}
}

fn c04(src: &mut Src) -> R {
	let as_client = src.chance(2);
	let cap = read_cap(src);
	let mix = if src.chance(3) { Mix::Clean } else { Mix::Broken };
	let data = stream(src, mix, cap.saturating_sub(12), Some(as_client));
	let rx = chunked(src, &data, false);
	for (i, (got, want)) in session(src, as_client, cap, rx).into_iter().enumerate() {
		let relevant = match (&got, &want) {
			(Got::Packet { .. }, _) | (_, Ok(_)) => true,
			(Got::Fail(Fail::BadCrc(..)), _) | (_, Err(Some(Fail::BadCrc(..)))) => true,
			_ => false,
		};
		if relevant && !matches_want(&got, &want) {
			return Err(format!("report {i} for stream {data:02X?} with buffer {cap}: got {got:02X?}, expected {want:02X?}"));
		}
	}
	Ok(())
}

fn c05(src: &mut Src) -> R {
	let as_client = src.chance(2);
	let cap = if src.chance(8) { src.below(14) } else { read_cap(src) };
	let data = match src.below(4) {
		0 => src.payload(400),
		1 => {
			let mut d = vec![0xFF, 0xFF, 0xFD, 0x00];
			d.extend(src.payload(60));
			d
		},
		_ => stream(src, Mix::Anything, cap.saturating_sub(12), None),
	};
	let rx = chunked(src, &data, true);
	if src.chance(2) {
		session(src, as_client, cap, rx);
	} else if as_client {
		// Through the instructions that look into the reply.
		let (mut c, port) = client(src, cap, 200);
		port.0.borrow_mut().discard_clears = false;
		port.0.borrow_mut().rx = rx;
		for _ in 0..6 {
			match src.below(8) {
				0 => drop(c.ping(src.id())),
				1 => drop(c.read::<u32>(src.id(), 5)),
				2 => drop(c.read_bytes::<Vec<u8>>(src.id(), 5, 3)),
				3 => drop(c.scan().map(|s| s.take(100).collect::<Vec<_>>())),
				4 => drop(c.sync_read::<u16>(&[1, 2, 3], 7).map(|s| s.collect::<Vec<_>>())),
				5 => drop(c.sync_read_bytes::<Vec<u8>>(&[1, 2], 7, 4).map(|s| s.collect::<Vec<_>>())),
				6 => drop(c.read::<[u16; 2]>(src.id(), 5)),
				_ => drop(c.write_bytes(src.id(), 3, &[1, 2])),
			}
		}
	} else {
		let (mut d, port) = device(src, cap, 64);
		port.0.borrow_mut().rx = rx;
		for _ in 0..40 {
			let r = if src.chance(2) { d.read(INSTR_TIMEOUT).map(|_| ()) } else { d.read_owned(INSTR_TIMEOUT).map(|_| ()) };
			if matches!(r, Err(ReadError::Io(_))) && port.0.borrow().rx.is_empty() {
				break;
			}
		}
	}
	Ok(())
}

/// A long wait: nothing but noise, or (at the device) packets for somebody else, and then the one that matters.
fn long_wait(src: &mut Src, packets: bool) -> R {
	let n = [20, 70, 130, 260, 300, 520, 1100, 5000][src.below(8)] * if src.chance(30) { 14 } else { 1 };
	let as_client = !packets && src.chance(2);
	let cap = read_cap(src).max(14);
	let mut data = Vec::new();
	let ignored = model::status_frame(src.id(), src.u8(), &[]).unwrap();
	let noise = src.payload_exact(16);
	for i in 0..n {
		if packets {
			data.extend(&ignored);
		} else {
			data.push(noise[i % 16] & 0x7F);
		}
	}
	let id = src.id();
	data.extend(if as_client { model::status_frame(id, 0, &[1, 2]).unwrap() } else { model::frame(id, 3, &[1, 2]).unwrap() });
	let size = if src.chance(2) { 1 } else { 1 + src.below(40) };
	let (got, want, port);
	if as_client {
		let (mut c, p) = client(src, cap, 64);
		data.chunks(size).for_each(|x| p.feed(x.to_vec()));
		got = read_status(&mut c);
		want = Got::Packet { id, instr: model::STATUS, error: Some(0), params: vec![1, 2] };
		port = p;
	} else {
		let (mut d, p) = device(src, cap, 64);
		data.chunks(size).for_each(|x| p.feed(x.to_vec()));
		got = read_instruction(&mut d);
		want = Got::Packet { id, instr: 3, error: None, params: vec![1, 2] };
		port = p;
	}
	eq(&format!("the packet after {n} {} that arrive {size} bytes at a time", if packets { "status packets" } else { "bytes of noise" }), got, want)?;
	eq("deadlines made", port.take_events().iter().filter(|e| matches!(e, Ev::MakeDeadline(_))).count(), 1)
}

fn c06(src: &mut Src) -> R {
	if src.chance(200) {
		return long_wait(src, false);
	}
	let as_client = src.chance(2);
	let cap = read_cap(src);
	let mix = if src.chance(3) { Mix::Clean } else { Mix::Noisy };
	let only = if src.chance(3) { None } else { Some(as_client) };
	let data = stream(src, mix, cap.saturating_sub(12), only);
	let mut whole: Option<Vec<Got>> = None;
	for round in 0..2 {
		let errors = round == 1 && src.chance(2);
		let rx = chunked(src, &data, errors);
		let results = session(src, as_client, cap, rx);
		for (got, want) in &results {
			if matches!(want, Ok(_)) || matches!(got, Got::Packet { .. }) {
				if !matches_want(got, want) {
					return Err(format!("stream {data:02X?} with buffer {cap}: got {got:02X?}, expected {want:02X?}"));
				}
			}
		}
		let got: Vec<Got> = results.into_iter().map(|x| x.0).filter(|x| !matches!(x, Got::Fail(Fail::Timeout | Fail::Fault(_)))).collect();
		if let Some(w) = &whole {
			eq("reports for the same bytes in other chunks", &got, w)?;
		}
		whole = Some(got);
	}
	Ok(())
}

fn c07(src: &mut Src) -> R {
	let as_client = src.chance(2);
	let cap = read_cap(src);
	let data = stream(src, Mix::Broken, cap.saturating_sub(12), Some(as_client));
	let errors = src.chance(3);
	let rx = chunked(src, &data, errors);
	for (i, (got, want)) in session(src, as_client, cap, rx).into_iter().enumerate() {
		// Every report is of the kind the stream calls for, and good packets after bad ones come out unharmed.
		let ok = match (&got, &want) {
			(Got::Packet { .. }, _) | (_, Ok(_)) => matches_want(&got, &want),
			(Got::Fail(f), Err(Some(w @ (Fail::Timeout | Fail::Fault(_) | Fail::BufferFull(..) | Fail::BadCrc(..))))) => f == w,
			(Got::Fail(f), Err(None)) => is_invalid(f),
			_ => true,
		};
		if !ok {
			return Err(format!("report {i} for stream {data:02X?} with buffer {cap}: got {got:02X?}, expected {want:02X?}"));
		}
	}
	Ok(())
}

fn c09(src: &mut Src) -> R {
	src.plain = true;
	if src.chance(200) {
		return long_wait(src, true);
	}
	let as_client = src.chance(2);
	let cap = 256;
	let data = stream(src, Mix::BothKinds, 60, None);
	let rx = chunked(src, &data, false);
	let (results, ev) = session_events(src, as_client, cap, rx);
	let calls = results.len();
	for (got, want) in results {
		if !matches_want(&got, &want) {
			return Err(format!("stream {data:02X?}: got {got:02X?}, expected {want:02X?}"));
		}
	}
	// Skipping packets must not extend the time-out.
	let made = ev.iter().filter(|e| matches!(e, Ev::MakeDeadline(_))).count();
	eq(&format!("deadlines made by {calls} calls for stream {data:02X?}"), made, calls)
}

fn c10(src: &mut Src) -> R {
	src.plain = true;
	if src.chance(2) {
		let data = stream(src, Mix::Errors, 60, Some(true));
		let rx = chunked(src, &data, false);
		for (got, want) in session(src, true, 256, rx) {
			if !matches_want(&got, &want) {
				return Err(format!("stream {data:02X?}: got {got:02X?}, expected {want:02X?}"));
			}
		}
		// The accessors.
		let error = src.u8();
		let m = dynamixel2::MotorError { raw: error };
		eq("MotorError::error_number", m.error_number(), error & 0x7F)?;
		eq("MotorError::alert", m.alert(), error >= 0x80)?;
		eq("MotorError::check", dynamixel2::MotorError::check(error), if error & 0x7F == 0 { Ok(()) } else { Err(dynamixel2::MotorError { raw: error }) })?;
		let (mut c, port) = client(src, 64, 64);
		let e = error & 0x80;
		port.feed(model::status_frame(3, e, &[1, 2]).unwrap());
		let p = c.read_status_response_timeout(INSTR_TIMEOUT).map_err(|e| format!("{e:?}"))?;
		eq("StatusPacket::alert", p.alert(), e != 0)?;
		eq("StatusPacket::error_number", p.error_number(), 0)?;
		eq("StatusPacket::error", p.error(), e)?;
		return Ok(());
	}
	// Through the instructions.
	let error = src.u8();
	let id = src.u8() % 0xFE;
	if src.chance(2) {
		let (mut c, port) = client(src, 2048, 4096);
		let op = single_op(src);
		let p = src.payload_exact(op.reply);
		port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(id, error, &p).unwrap())]);
		let name = op.name;
		let got = (op.run)(&mut c, id);
		let want = if error & 0x7F == 0 { Ok((id, error != 0, value_of(name, &p))) } else { Err(Fail::Motor(error)) };
		return eq(&format!("outcome of {name} with error field {error}"), got, want);
	}
	let (mut c, port) = client(src, 128, 128);
	let reply = |n: usize| vec![Ok(model::status_frame(id, error, &[9, 8, 7, 6][..n]).unwrap())];
	let set = |n: usize| port.0.borrow_mut().replies.push_back(reply(n));
	let outcome: Result<bool, Fail> = match src.below(12) {
		8 => {
			set(2);
			c.sync_read_bytes_borrow::<First>(&[id], 3, 2).map_err(wfail)?.read_next_borrow().expect("one item").map(|r| r.alert).map_err(rfail)
		},
		9 => {
			set(2);
			c.sync_read_bytes::<Vec<u8>>(&[id], 3, 2).map_err(wfail)?.read_next().expect("one item").map(|r| r.alert).map_err(rfail)
		},
		10 => {
			set(2);
			let reads = [BulkReadData { motor_id: id, address: 1, count: 2 }];
			let mut b = c.bulk_read_bytes_borrow::<First>(&reads).map_err(wfail)?;
			let r = b.read_next_borrow().expect("one item");
			r.map(|r| r.alert).map_err(rfail)
		},
		0 => {
			set(3);
			c.ping(id).map(|r| r.alert).map_err(tfail)
		},
		1 => {
			set(2);
			c.read::<u16>(id, 3).map(|r| r.alert).map_err(tfail)
		},
		2 => {
			set(4);
			c.read_bytes::<Vec<u8>>(id, 3, 4).map(|r| r.alert).map_err(tfail)
		},
		3 => {
			set(0);
			c.write(id, 3, &7u8).map(|r| r.alert).map_err(tfail)
		},
		4 => {
			set(0);
			c.reg_write_bytes(id, 3, &[7]).map(|r| r.alert).map_err(tfail)
		},
		5 => {
			set(0);
			c.action(id).map(|r| r.alert).map_err(tfail)
		},
		6 => {
			set(1);
			c.sync_read::<u8>(&[id], 3).map_err(wfail)?.next().expect("one item").map(|r| r.alert).map_err(rfail)
		},
		7 => {
			set(2);
			let reads = [BulkReadData { motor_id: id, address: 1, count: 2 }];
			let mut b = c.bulk_read_bytes::<Vec<u8>>(&reads).map_err(wfail)?;
			let r = b.read_next().expect("one item");
			r.map(|r| r.alert).map_err(rfail)
		},
		_ => {
			set(3);
			let mut s = c.scan().map_err(wfail)?;
			let r = s.next().expect("one item");
			r.map(|r| r.alert).map_err(rfail)
		},
	};
	let want = if error & 0x7F == 0 { Ok(error != 0) } else { Err(Fail::Motor(error)) };
	eq("alert flag or motor error", outcome, want)
}

impl From<Fail> for String {
	fn from(f: Fail) -> String {
		format!("unexpected failure {f:?}")
	}
}

// ---------------------------------------------------------------- C11 .. C13, C15: instructions

#[derive(Debug, Clone, PartialEq, Eq)]
enum Value {
	Unit,
	Ping(u16, u8),
	Bytes(Vec<u8>),
}

type Outcome = Result<(u8, bool, Value), Fail>;

fn unit(r: Result<Response<()>, TransferError<PortErr>>) -> Outcome {
	r.map(|r| (r.motor_id, r.alert, Value::Unit)).map_err(tfail)
}

struct Op {
	/// Instruction and parameters that must be sent.
	instr: u8,
	params: Vec<u8>,
	/// Number of parameters in the reply.
	reply: usize,
	/// Whether the broadcast ID means that there is no reply.
	silent_broadcast: bool,
	run: Box<dyn FnOnce(&mut C, u8) -> Outcome>,
	name: &'static str,
}

fn le(address: u16, rest: &[u8]) -> Vec<u8> {
	let mut v = address.to_le_bytes().to_vec();
	v.extend(rest);
	v
}

/// A type of which the in-memory size has nothing to do with the encoded size, and which takes what it is given.
#[derive(Debug, Clone, PartialEq)]
struct Odd(u64);
impl dynamixel2::bus::Data for Odd {
	const ENCODED_SIZE: u16 = 3;
	fn encode(&self, b: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		dynamixel2::BufferTooSmallError::check(3, b.len())?;
		b[..3].copy_from_slice(&self.0.to_le_bytes()[..3]);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		let at = |i: usize| b.get(i).copied().unwrap_or(0);
		Ok(Odd(u32::from_le_bytes([at(0), at(1), at(2), 0]) as u64))
	}
}

macro_rules! typed {
	($src:expr, $op:ident, $make:ident) => {{
		let v: u128 = $src.u128();
		match $src.below(9) {
			0 => $make!(v as u8),
			1 => $make!(v as u16),
			2 => $make!(v as u32),
			3 => $make!(v as u64),
			4 => $make!(v),
			5 => $make!(v as i8),
			6 => $make!(v as i16),
			7 => $make!(v as i32),
			_ => $make!(v as i64),
		}
	}};
}

fn single_op(src: &mut Src) -> Op {
	let address = src.addr();
	let n = src.below(16);
	macro_rules! op {
		($name:expr, $instr:expr, $params:expr, $reply:expr, $silent:expr, $run:expr) => {
			Op { instr: $instr, params: $params, reply: $reply, silent_broadcast: $silent, run: Box::new($run), name: $name }
		};
	}
	match n {
		0 => op!("ping", 0x01, vec![], 3, false, |c, id| c.ping(id).map(|r| (r.motor_id, r.alert, Value::Ping(r.data.model, r.data.firmware))).map_err(tfail)),
		1 => {
			let k = count(src).min(1100) as u16;
			op!("read_bytes", 0x02, le(address, &k.to_le_bytes()), k as usize, false, move |c, id| c.read_bytes::<Vec<u8>>(id, address, k).map(|r| (r.motor_id, r.alert, Value::Bytes(r.data))).map_err(tfail))
		},
		2 | 3 => {
			macro_rules! make {
				($v:expr) => {{
					fn run<T: dynamixel2::bus::Data>(c: &mut C, id: u8, address: u16, bytes: fn(T) -> Vec<u8>) -> Outcome {
						c.read::<T>(id, address).map(|r| (r.motor_id, r.alert, Value::Bytes(bytes(r.data)))).map_err(tfail)
					}
					let size = std::mem::size_of_val(&($v));
					// Name the type through the value.
					fn pick<T: dynamixel2::bus::Data + 'static>(_: T, address: u16, bytes: fn(T) -> Vec<u8>) -> Box<dyn FnOnce(&mut C, u8) -> Outcome> {
						Box::new(move |c, id| run::<T>(c, id, address, bytes))
					}
					Op {
						instr: 0x02,
						params: le(address, &(size as u16).to_le_bytes()),
						reply: size,
						silent_broadcast: false,
						run: pick($v, address, |x| x.to_le_bytes().to_vec()),
						name: "read",
					}
				}};
			}
			typed!(src, op, make)
		},
		4 => {
			let size = 3u16;
			op!("read<Odd>", 0x02, le(address, &size.to_le_bytes()), 3, false, move |c, id| c.read::<Odd>(id, address).map(|r| (r.motor_id, r.alert, Value::Bytes(r.data.0.to_le_bytes()[..3].to_vec()))).map_err(tfail))
		},
		5 => {
			let data = params(src);
			let data = data[..data.len().min(1100)].to_vec();
			op!("write_bytes", 0x03, le(address, &data), 0, true, move |c, id| unit(c.write_bytes(id, address, &data)))
		},
		6 | 7 => {
			macro_rules! make {
				($v:expr) => {{
					let v = $v;
					op!("write", 0x03, le(address, &v.to_le_bytes()), 0, true, move |c, id| unit(c.write(id, address, &v)))
				}};
			}
			typed!(src, op, make)
		},
		8 => {
			let v = Odd(src.u32() as u64 & 0xFF_FFFF);
			let b = v.0.to_le_bytes()[..3].to_vec();
			if src.chance(2) {
				op!("write<Odd>", 0x03, le(address, &b), 0, true, move |c, id| unit(c.write(id, address, &v)))
			} else {
				op!("reg_write<Odd>", 0x04, le(address, &b), 0, true, move |c, id| unit(c.reg_write(id, address, &v)))
			}
		},
		9 => {
			let data = params(src);
			let data = data[..data.len().min(1100)].to_vec();
			op!("reg_write_bytes", 0x04, le(address, &data), 0, true, move |c, id| unit(c.reg_write_bytes(id, address, &data)))
		},
		10 | 11 => {
			macro_rules! make {
				($v:expr) => {{
					let v = $v;
					op!("reg_write", 0x04, le(address, &v.to_le_bytes()), 0, true, move |c, id| unit(c.reg_write(id, address, &v)))
				}};
			}
			typed!(src, op, make)
		},
		12 => op!("action", 0x05, vec![], 0, true, |c, id| unit(c.action(id))),
		13 => {
			let (kind, b) = [(FactoryResetKind::ResetAll, 0xFF), (FactoryResetKind::KeepId, 1), (FactoryResetKind::KeepIdAndBaudRate, 2)][src.below(3)];
			op!("factory_reset", 0x06, vec![b], 0, true, move |c, id| unit(c.factory_reset(id, kind)))
		},
		14 => op!("reboot", 0x08, vec![], 0, true, |c, id| unit(c.reboot(id))),
		_ => {
			if src.chance(2) {
				op!("clear_revolution_counter", 0x10, vec![0x01, 0x44, 0x58, 0x4C, 0x22], 0, true, |c, id| unit(c.clear_revolution_counter(id)))
			} else {
				op!("clear_error", 0x10, vec![0x02, 0x45, 0x52, 0x43, 0x4C], 0, true, |c, id| unit(c.clear_error(id)))
			}
		},
	}
}

/// The value the reply parameters stand for.
fn value_of(op_name: &str, params: &[u8]) -> Value {
	match op_name {
		"ping" => Value::Ping(u16::from_le_bytes([params[0], params[1]]), params[2]),
		"read_bytes" | "read" | "read<Odd>" => Value::Bytes(params.to_vec()),
		_ => Value::Unit,
	}
}

fn c12(src: &mut Src) -> R {
	src.plain = true;
	let (mut c, port) = client(src, 2048, 4096);
	if src.chance(5) {
		// The broadcast only variants.
		let (instr, p, r) = match src.below(5) {
			0 => (0x05, vec![], c.broadcast_action()),
			1 => (0x08, vec![], c.broadcast_reboot()),
			2 => (0x10, vec![0x01, 0x44, 0x58, 0x4C, 0x22], c.broadcast_clear_revolution_counter()),
			3 => (0x10, vec![0x02, 0x45, 0x52, 0x43, 0x4C], c.broadcast_clear_error()),
			_ => {
				let (kind, b) = [(FactoryResetKind::ResetAll, 0xFF), (FactoryResetKind::KeepId, 1), (FactoryResetKind::KeepIdAndBaudRate, 2)][src.below(3)];
				(0x06, vec![b], c.broadcast_factory_reset(kind))
			},
		};
		ensure!(r.is_ok(), "broadcast failed: {r:?}");
		return eq("broadcast frame", port.writes(), vec![model::frame(0xFE, instr, &p).unwrap()]);
	}
	let id = src.id();
	let op = single_op(src);
	let want = model::frame(id, op.instr, &op.params).unwrap();
	let reply = src.payload_exact(op.reply);
	if src.chance(2) {
		port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(id, 0, &reply).unwrap())]);
	}
	let name = op.name;
	let _ = (op.run)(&mut c, id);
	eq(&format!("frame sent by {name}"), port.writes(), vec![want])
}

fn c11(src: &mut Src) -> R {
	src.plain = true;
	let (mut c, port) = client(src, 4096, 4096);
	if src.chance(8) {
		// transfer_single only ties the reply to the motor.
		let (id, from) = (src.id(), src.id());
		let p = src.payload(20);
		port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(from, 0x80, &p).unwrap())]);
		let expected = src.u16() % 64;
		let i = src.instr();
		let got = c.transfer_single(id, i, 0, expected, |_| Ok(())).map(|s| (s.packet_id(), s.parameters().to_vec())).map_err(tfail);
		let want = if id == from { Ok((id, p)) } else { Err(Fail::Id(from, Some(id))) };
		return eq("reply of transfer_single", got, want);
	}
	if src.chance(4) {
		return one_of_many(src);
	}
	let op = single_op(src);
	let mut id = src.id();
	if id == 0xFE && op.silent_broadcast {
		id = 1;
	}
	let from = if src.chance(3) { src.id() } else { id };
	let error = if src.chance(4) { 0x80 } else { 0 };
	let n = match src.below(4) {
		0 => src.below(8),
		1 => op.reply + 1,
		2 => op.reply.saturating_sub(1),
		_ => op.reply,
	};
	let p = src.payload_exact(n);
	port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(from, error, &p).unwrap())]);
	let name = op.name;
	let need = op.reply;
	let got = (op.run)(&mut c, id);
	if from != id && n != need {
		ensure!(matches!(got, Err(Fail::Id(..) | Fail::Count(..))), "{name}: reply of {from} with {n} parameters accepted for {id}: {got:02X?}");
		return Ok(());
	}
	let want = if from != id {
		Err(Fail::Id(from, Some(id)))
	} else if n != need {
		Err(Fail::Count(n, format!("Exact({need})")))
	} else {
		Ok((from, error != 0, value_of(name, &p)))
	};
	eq(&format!("outcome of {name}"), got, want)
}

/// The replies to a request to several motors.
fn one_of_many(src: &mut Src) -> R {
	let (mut c, port) = client(src, 4096, 4096);
	let n = 1 + src.below(4);
	let base = src.u8() % 240;
	let kind = src.below(6);
	let k = src.below(6);
	let size = |i: usize| match kind {
		0 => 2,
		4 | 5 => (k + i) % 6,
		_ => k,
	};
	let list: Vec<u8> = (0..n).map(|i| base + i as u8).collect();
	let reads: Vec<BulkReadData> = (0..n).map(|i| BulkReadData { motor_id: list[i], address: 7, count: size(i) as u16 }).collect();
	let mut bytes = vec![];
	let mut want = vec![];
	for i in 0..n {
		let from = match src.below(4) {
			0 => [src.id(), list[(i + 1) % n], list[(i + n - 1) % n]][src.below(3)],
			_ => list[i],
		};
		let len = match src.below(6) {
			0 => size(i) + 1,
			1 => size(i).saturating_sub(1),
			2 => [src.below(9), size((i + 1) % n), size(0)][src.below(3)],
			_ => size(i),
		};
		let error = if src.chance(4) { 0x80 } else { 0 };
		let p = src.payload_exact(len);
		bytes.extend(model::status_frame(from, error, &p).unwrap());
		want.push((from, len, error != 0, p));
	}
	port.0.borrow_mut().replies.push_back(vec![Ok(bytes)]);
	type Answer = Result<(u8, bool, Vec<u8>), Fail>;
	fn plain<T: AsRef<[u8]>>(r: Result<Response<T>, ReadError<PortErr>>) -> Answer {
		r.map(|r| (r.motor_id, r.alert, r.data.as_ref().to_vec())).map_err(rfail)
	}
	fn first(r: Result<Response<&First>, ReadError<PortErr>>) -> Answer {
		r.map(|r| (r.motor_id, r.alert, vec![r.data.0])).map_err(rfail)
	}
	let got: Vec<Answer> = match kind {
		0 => c.sync_read::<u16>(&list, 7).map_err(|e| format!("{:?}", wfail(e)))?.map(|r| r.map(|r| (r.motor_id, r.alert, r.data.to_le_bytes().to_vec())).map_err(rfail)).collect(),
		1 | 2 => c.sync_read_bytes::<Vec<u8>>(&list, 7, k as u16).map_err(|e| format!("{:?}", wfail(e)))?.map(plain).collect(),
		3 => {
			let mut it = c.sync_read_bytes_borrow::<First>(&list, 7, k as u16).map_err(|e| format!("{:?}", wfail(e)))?;
			(0..n).filter_map(|_| it.read_next_borrow().map(first)).collect()
		},
		4 => c.bulk_read_bytes::<Vec<u8>>(&reads).map_err(|e| format!("{:?}", wfail(e)))?.map(plain).collect(),
		_ => {
			let mut it = c.bulk_read_bytes_borrow::<First>(&reads).map_err(|e| format!("{:?}", wfail(e)))?;
			(0..n).filter_map(|_| it.read_next_borrow().map(first)).collect()
		},
	};
	let borrowed = kind == 3 || kind == 5;
	for (i, got) in got.iter().enumerate() {
		let (from, len, alert, p) = &want[i];
		let what = format!("answer {i} of request kind {kind} to {list:?} with {} bytes expected, a reply of {from} with {p:02X?}", size(i));
		if *from != list[i] || *len != size(i) {
			ensure!(matches!(got, Err(Fail::Id(..) | Fail::Count(..))), "{what}: {got:02X?}");
		} else {
			let data = if borrowed { vec![p.first().copied().unwrap_or(0xEE)] } else { p.clone() };
			ensure!(*got == Ok((*from, *alert, data)), "{what}: {got:02X?}");
		}
	}
	Ok(())
}

fn ids(src: &mut Src, max: usize) -> Vec<u8> {
	let n = if src.chance(8) { max } else { src.below(max.min(9)) };
	(0..n).map(|_| src.id()).collect()
}

fn c13(src: &mut Src) -> R {
	src.plain = true;
	let wcap = 0x1_4000;
	let (mut c, port) = client(src, 64, wcap);
	let address = src.addr();
	let (name, instr, p, r): (&str, u8, Vec<u8>, Result<(), Fail>);
	match src.below(8) {
		0 => {
			let ids = ids(src, 252);
			let k = src.addr();
			let mut q = le(address, &k.to_le_bytes());
			q.extend(&ids);
			port.0.borrow_mut().fail_write = false;
			let x = c.sync_read_bytes::<Vec<u8>>(&ids, address, k).map(std::mem::forget).map_err(wfail);
			(name, instr, p, r) = ("sync_read_bytes", 0x82, q, x);
		},
		1 => {
			let ids = ids(src, 252);
			let k = src.addr();
			let mut q = le(address, &k.to_le_bytes());
			q.extend(&ids);
			let x = c.sync_read_bytes_borrow::<First>(&ids, address, k).map(std::mem::forget).map_err(wfail);
			(name, instr, p, r) = ("sync_read_bytes_borrow", 0x82, q, x);
		},
		2 => {
			let ids = ids(src, 252);
			let (k, x) = match src.below(4) {
				0 => (1u16, c.sync_read::<u8>(&ids, address).map(std::mem::forget)),
				1 => (16, c.sync_read::<u128>(&ids, address).map(std::mem::forget)),
				2 => (3, c.sync_read::<Odd>(&ids, address).map(std::mem::forget)),
				_ => (6, c.sync_read::<[i16; 3]>(&ids, address).map(std::mem::forget)),
			};
			let mut q = le(address, &k.to_le_bytes());
			q.extend(&ids);
			(name, instr, p, r) = ("sync_read", 0x82, q, x.map_err(wfail));
		},
		3 => {
			let (motors, k) = if src.chance(16) {
				// The largest item sizes there are: with no items at all, and too large for one message.
				(src.below(20) / 19, 0xFFFF - src.below(20) / 16)
			} else {
				(src.below(6), if src.chance(6) { 200 + src.below(300) } else { src.below(12) })
			};
			let bad = src.chance(8) && motors > 0;
			let at = src.below(motors);
			let mut list = Vec::new();
			let mut q = le(address, &(k as u16).to_le_bytes());
			for i in 0..motors {
				let len = if bad && i == at { [k + 1, k.saturating_sub(1)][src.below(2)] } else { k };
				let data = if len > 2000 { vec![7; len] } else { src.payload_exact(len) };
				let motor_id = src.id();
				q.push(motor_id);
				q.extend(&data);
				list.push(SyncWriteData { motor_id, data });
			}
			let wrong = list.iter().any(|x| x.data.len() != k);
			let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.sync_write_bytes(address, k as u16, &list).map_err(wfail)));
			if wrong {
				ensure!(!matches!(res, Ok(Ok(()))), "sync_write_bytes accepted data of the wrong length");
				return eq("nothing sent", port.writes(), vec![]);
			}
			match res {
				Ok(x) => (name, instr, p, r) = ("sync_write_bytes", 0x83, q, x),
				Err(_) => return Err("sync_write_bytes panicked on valid input".into()),
			}
		},
		4 => {
			let motors = src.below(6);
			let raw: Vec<(u8, u128)> = (0..motors).map(|_| (src.id(), src.u128())).collect();
			macro_rules! go {
				($k:expr, $conv:expr, $bytes:expr) => {{
					let list: Vec<_> = raw.iter().map(|(id, v)| SyncWriteData { motor_id: *id, data: $conv(*v) }).collect();
					let k: usize = $k;
					let mut q = le(address, &(k as u16).to_le_bytes());
					for (id, v) in &raw {
						q.push(*id);
						q.extend(&$bytes(*v)[..k]);
					}
					(q, c.sync_write(address, &list).map_err(wfail))
				}};
			}
			let bytes = |v: u128| v.to_le_bytes();
			let (q, x) = match src.below(6) {
				0 => go!(1, |v| v as u8, bytes),
				1 => go!(2, |v| v as u16, bytes),
				2 => go!(4, |v| v as i32, bytes),
				3 => go!(16, |v| v, bytes),
				4 => go!(3, |v: u128| Odd(v as u64), bytes),
				_ => go!(4, |v: u128| [v as u16, (v >> 16) as u16], bytes),
			};
			(name, instr, p, r) = ("sync_write", 0x83, q, x);
		},
		5 | 6 => {
			let n = if src.chance(10) { 200 } else { src.below(7) };
			let dup = src.chance(5);
			let mut list = Vec::new();
			let base = src.u8();
			for i in 0..n {
				list.push(BulkReadData { motor_id: base.wrapping_add(i as u8), address: src.addr(), count: src.addr() });
			}
			if dup && n >= 2 {
				let (a, b) = (src.below(n), src.below(n));
				list[a].motor_id = list[b].motor_id;
			}
			let twice = (0..n).any(|i| (0..i).any(|j| list[i].motor_id == list[j].motor_id));
			let mut q = Vec::new();
			for x in &list {
				q.push(x.motor_id);
				q.extend(x.address.to_le_bytes());
				q.extend(x.count.to_le_bytes());
			}
			let borrow = src.chance(2);
			let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				if borrow {
					c.bulk_read_bytes_borrow::<First>(&list).map(std::mem::forget).map_err(wfail)
				} else {
					c.bulk_read_bytes::<Vec<u8>>(&list).map(std::mem::forget).map_err(wfail)
				}
			}));
			if twice {
				ensure!(res.is_err(), "bulk_read accepted the same motor ID twice: {list:?}");
				return eq("nothing sent", port.writes(), vec![]);
			}
			match res {
				Ok(x) => (name, instr, p, r) = ("bulk_read", 0x92, q, x),
				Err(_) => return Err("bulk_read panicked on valid input".into()),
			}
		},
		_ => {
			let n = if src.chance(10) { 200 } else { src.below(7) };
			let dup = src.chance(5);
			let huge = src.chance(40) && n > 0;
			let mut list = Vec::new();
			let base = src.u8();
			for i in 0..n {
				list.push(BulkWriteData { motor_id: base.wrapping_add(i as u8), address: src.addr(), data: src.payload(if n > 10 { 12 } else { 300 }) });
			}
			if dup && n >= 2 {
				let (a, b) = (src.below(n), src.below(n));
				list[a].motor_id = list[b].motor_id;
			}
			let mut too_big = false;
			if huge {
				let at = src.below(n);
				let len = 0xFFF0 + src.below(40);
				list[at].data = vec![7; len];
				too_big = len > 0xFFFF;
			}
			let twice = (0..n).any(|i| (0..i).any(|j| list[i].motor_id == list[j].motor_id));
			let mut q = Vec::new();
			for x in &list {
				q.push(x.motor_id);
				q.extend(x.address.to_le_bytes());
				q.extend((x.data.len() as u16).to_le_bytes());
				q.extend(&x.data);
			}
			let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.bulk_write(&list).map_err(wfail)));
			if twice || too_big {
				ensure!(res.is_err(), "bulk_write accepted {}", if twice { "the same motor ID twice" } else { "too much data" });
				return eq("nothing sent", port.writes(), vec![]);
			}
			match res {
				Ok(x) => (name, instr, p, r) = ("bulk_write", 0x93, q, x),
				Err(_) => return Err("bulk_write panicked on valid input".into()),
			}
		},
	}
	match model::frame(0xFE, instr, &p) {
		Some(want) if want.len() <= wcap => {
			eq(name, r, Ok(()))?;
			eq(&format!("frame sent by {name}"), port.writes(), vec![want])
		},
		_ => {
			ensure!(r.is_err(), "{name} with {} parameters did not fail", p.len());
			eq("nothing sent", port.writes(), vec![])
		},
	}
}

fn c15(src: &mut Src) -> R {
	src.plain = true;
	let (mut c, port) = client(src, 2048, 4096);
	let op = single_op(src);
	let name = op.name;
	// A reply is on the line in any case: it must be left alone after a broadcast and taken otherwise.
	let reads = |port: &Port| port.0.borrow().ev.iter().filter(|e| matches!(e, Ev::Read { .. } | Ev::MakeDeadline(_))).count();
	if src.chance(4) {
		let r = match src.below(5) {
			0 => c.broadcast_action(),
			1 => c.broadcast_reboot(),
			2 => c.broadcast_clear_error(),
			3 => c.broadcast_clear_revolution_counter(),
			_ => c.broadcast_factory_reset(FactoryResetKind::KeepId),
		};
		eq("broadcast result", r.map_err(wfail), Ok(()))?;
		return eq("reads after a broadcast", reads(&port), 0);
	}
	if src.chance(4) {
		let r = match src.below(3) {
			0 => c.sync_write(3, &[SyncWriteData { motor_id: 1, data: 5u8 }]),
			1 => c.sync_write_bytes(3, 1, &[SyncWriteData { motor_id: 1, data: [5u8] }]),
			_ => c.bulk_write(&[BulkWriteData { motor_id: 1, address: 3, data: [1u8, 2] }]),
		};
		eq("sync write result", r.map_err(wfail), Ok(()))?;
		return eq("reads after a sync or bulk write", reads(&port), 0);
	}
	if !op.silent_broadcast {
		return Ok(());
	}
	let id = if src.chance(3) { src.id() } else { 0xFE };
	let want = if id == 0xFE || !src.chance(4) {
		Ok((id, id != 0xFE, Value::Unit))
	} else {
		// The motor does not answer: that is reported, and only after waiting for the answer.
		let e = if src.chance(2) { PortErr::Timeout } else { PortErr::Fault(9) };
		let fail = io(e.clone());
		if e != PortErr::Timeout || src.chance(2) {
			port.0.borrow_mut().replies.push_back(vec![Err(e)]);
		}
		Err(fail)
	};
	if want.is_ok() && (id != 0xFE || src.chance(2)) {
		port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(id, 0x80, &[]).unwrap())]);
	}
	let got = (op.run)(&mut c, id);
	if id == 0xFE {
		eq(&format!("{name} to the broadcast ID"), got, Ok((0xFE, false, Value::Unit)))?;
		eq(&format!("reads after {name} to the broadcast ID"), reads(&port), 0)
	} else {
		eq(&format!("{name} to one motor"), got, want)?;
		ensure!(reads(&port) >= 2, "{name} to one motor did not wait for the reply");
		Ok(())
	}
}

// ---------------------------------------------------------------- C14: device decodes instructions

#[derive(Debug, Clone, PartialEq, Eq)]
enum Ins {
	Ping,
	Read(u16, u16),
	Write(u16, Vec<u8>),
	RegWrite(u16, Vec<u8>),
	Action,
	Reset(String),
	Reboot,
	Clear(String),
	SyncRead(u16, u16, Vec<u8>),
	SyncWrite(u16, u16, Vec<u8>),
	BulkRead(Vec<u8>),
	BulkWrite(Vec<u8>),
	Unknown(u8, Vec<u8>),
}

fn ins<T: AsRef<[u8]>>(i: dynamixel2::Instruction<T>) -> (u8, Ins) {
	use dynamixel2::Instructions as I;
	let b = |t: T| t.as_ref().to_vec();
	let x = match i.instruction {
		I::Ping => Ins::Ping,
		I::Read { address, length } => Ins::Read(address, length),
		I::Write { address, parameters } => Ins::Write(address, b(parameters)),
		I::RegWrite { address, parameters } => Ins::RegWrite(address, b(parameters)),
		I::Action => Ins::Action,
		I::FactoryReset(k) => Ins::Reset(format!("{k:?}")),
		I::Reboot => Ins::Reboot,
		I::Clear(k) => Ins::Clear(format!("{k:?}")),
		I::SyncRead { address, length, ids } => Ins::SyncRead(address, length, b(ids)),
		I::SyncWrite { address, length, parameters } => Ins::SyncWrite(address, length, b(parameters)),
		I::BulkRead { parameters } => Ins::BulkRead(b(parameters)),
		I::BulkWrite { parameters } => Ins::BulkWrite(b(parameters)),
		I::Unknown { instruction, parameters } => Ins::Unknown(instruction, b(parameters)),
	};
	(i.id, x)
}

fn decode(instr: u8, p: &[u8]) -> Result<Ins, Fail> {
	let w = |i: usize| p[i] as u16 | (p[i + 1] as u16) << 8;
	let min = |n: usize| if p.len() < n { Err(Fail::Count(p.len(), format!("Min({n})"))) } else { Ok(()) };
	let exact = |n: usize| if p.len() != n { Err(Fail::Count(p.len(), format!("Exact({n})"))) } else { Ok(()) };
	Ok(match instr {
		0x01 => Ins::Ping,
		0x02 => {
			exact(4)?;
			Ins::Read(w(0), w(2))
		},
		0x03 => {
			min(2)?;
			Ins::Write(w(0), p[2..].to_vec())
		},
		0x04 => {
			min(2)?;
			Ins::RegWrite(w(0), p[2..].to_vec())
		},
		0x05 => Ins::Action,
		0x06 => {
			exact(1)?;
			Ins::Reset(match p[0] {
				0xFF => "All".into(),
				1 => "ExceptId".into(),
				2 => "ExceptIdBaudRate".into(),
				x => format!("Unknown({x})"),
			})
		},
		0x08 => Ins::Reboot,
		0x10 => {
			min(1)?;
			Ins::Clear(match p[0] {
				1 => "MultiTurns".into(),
				2 => "Errors".into(),
				x => format!("Reserved({x})"),
			})
		},
		0x82 => {
			min(4)?;
			Ins::SyncRead(w(0), w(2), p[4..].to_vec())
		},
		0x83 => {
			min(4)?;
			Ins::SyncWrite(w(0), w(2), p[4..].to_vec())
		},
		0x92 => Ins::BulkRead(p.to_vec()),
		0x93 => Ins::BulkWrite(p.to_vec()),
		x => Ins::Unknown(x, p.to_vec()),
	})
}

fn c14(src: &mut Src) -> R {
	src.plain = true;
	let (mut d, port) = device(src, 4096, 64);
	let mut sent = Vec::new();
	for _ in 0..1 + src.below(3) {
		if src.chance(2) {
			// What our own client sends.
			let (mut c, cport) = client(src, 64, 4096);
			let op = single_op(src);
			let id = src.id();
			let _ = (op.run)(&mut c, id);
			let wire = cport.writes().concat();
			let want = match (op.name, op.params.first()) {
				("clear_revolution_counter", _) => Ok(Ins::Clear("MultiTurns".into())),
				("clear_error", _) => Ok(Ins::Clear("Errors".into())),
				_ => decode(op.instr, &op.params),
			};
			sent.push((wire, id, want));
		} else {
			let i = src.instr();
			let i = if i == model::STATUS { 1 } else { i };
			let p = if src.chance(2) { src.payload(7) } else { src.payload(300) };
			let id = src.id();
			sent.push((model::frame(id, i, &p).unwrap(), id, decode(i, &p)));
		}
	}
	for (wire, id, want) in sent {
		let want = want.map(|x| (id, x));
		port.feed(wire.clone());
		port.feed(wire.clone());
		let borrowed = d.read(INSTR_TIMEOUT).map(ins).map_err(rfail);
		eq(&format!("decoded {wire:02X?}"), borrowed, want.clone())?;
		let owned = d.read_owned(INSTR_TIMEOUT).map(ins).map_err(rfail);
		eq(&format!("decoded (owned) {wire:02X?}"), owned, want)?;
	}
	Ok(())
}

// ---------------------------------------------------------------- C16: several replies

#[repr(transparent)]
#[derive(Debug, Clone, Copy, PartialEq)]
struct First(u8);
impl std::borrow::Borrow<First> for [u8] {
	fn borrow(&self) -> &First {
		static NONE: First = First(0xEE);
		match self.first() {
			// SAFETY: First is a transparent wrapper of u8.
			Some(b) => unsafe { &*(b as *const u8 as *const First) },
			None => &NONE,
		}
	}
}

/// What one reply of a multi reply instruction must be reported as.
fn item(line: &mut Line, id: u8, n: usize) -> Result<(u8, bool, Vec<u8>), Option<Vec<Fail>>> {
	match line.status() {
		Err(None) => Err(None),
		Err(Some(f)) => Err(Some(vec![f])),
		Ok(Got::Packet { id: from, error, params, .. }) => {
			let mut fails = vec![];
			if from != id {
				fails.push(Fail::Id(from, Some(id)));
			}
			if params.len() != n {
				fails.push(Fail::Count(params.len(), format!("Exact({n})")));
			}
			if fails.is_empty() {
				Ok((from, error.unwrap() & 0x80 != 0, params))
			} else {
				Err(Some(fails))
			}
		},
		Ok(Got::Fail(f)) => Err(Some(vec![f])),
	}
}

fn item_matches(got: &Result<(u8, bool, Vec<u8>), Fail>, want: &Result<(u8, bool, Vec<u8>), Option<Vec<Fail>>>) -> bool {
	match (got, want) {
		(Ok(g), Ok(w)) => g == w,
		(Err(g), Err(Some(w))) => w.contains(g),
		(Err(g), Err(None)) => is_invalid(g),
		_ => false,
	}
}

fn c16(src: &mut Src) -> R {
	src.plain = true;
	if src.chance(64) {
		// A buffer that can not hold any packet: nothing can be read, which must not take for ever.
		let cap = src.below(10);
		let (mut c, port) = client(src, cap, 64);
		port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(1, 0, &[1, 2, 3]).unwrap())]);
		match src.below(3) {
			0 => drop(c.scan()),
			1 => drop(c.sync_read::<u16>(&[1, 2, 3], 7)),
			_ => drop(c.sync_read_bytes::<Vec<u8>>(&[1, 2, 3], 7, 2)),
		}
		let n = port.take_events().len();
		ensure!(n < 100, "an abandoned request keeps trying to read with a buffer of {cap} bytes");
		return Ok(());
	}
	let cap = 256;
	let (mut c, port) = client(src, cap, 1024);
	let kind = src.below(9);
	let scan = kind == 0;
	let many = if src.chance(40) { src.below(180) } else { src.below(6) };
	// Motors can answer a scan more than once, and noise can look like an answer.
	let n = if scan && src.chance(20) { 240 + src.below(400) } else { many };
	let motors: Vec<(u8, usize)> = if n > 180 { (0..n).map(|i| (i as u8, 3)).collect() } else {
		let base = src.u8() % (250 - n as u8);
		let fixed = [0, 1, 2, 3, 4][src.below(5)];
		(0..n).map(|i| (base + i as u8, if kind >= 5 && kind < 8 { src.below(6) } else if kind == 1 { 2 } else if scan || kind == 8 { 3 } else { fixed })).collect()
	};
	let fixed = motors.first().map(|m| m.1).unwrap_or(1);
	// Mostly right replies.
	let mut bytes = Vec::new();
	for (i, (id, k)) in motors.iter().enumerate() {
		let wrong = src.chance(5);
		let (id, k) = if wrong {
			match src.below(4) {
				0 => (src.id(), *k),
				1 => (*id, k + 1),
				2 => (*id, k.saturating_sub(1)),
				_ => (motors[(i + 1) % motors.len()].0, *k),
			}
		} else {
			(*id, *k)
		};
		let e = if src.chance(6) { src.u8() } else { [0, 0x80][src.below(2)] };
		let p = src.payload_exact(k);
		let mut f = model::status_frame(id, e, &p).unwrap();
		if src.chance(12) {
			let at = f.len() - 1;
			f[at] ^= 1;
		}
		if !src.chance(12) {
			bytes.extend(f);
		}
	}
	let sentinel = model::status_frame(0xC8, 0, &[0x5E, 0x4E, 0x71]).unwrap();
	if !scan {
		bytes.extend(&sentinel);
	}
	let mut rx = chunked(src, &bytes, false);
	if src.chance(6) && !rx.is_empty() {
		let at = src.below(rx.len());
		rx.insert(at, Err(PortErr::Fault(5)));
	}
	port.0.borrow_mut().replies.push_back(rx.iter().cloned().collect());
	let mut line = Line { pending: vec![], rx, cap };
	let take = if n > 180 && src.chance(2) { src.below(4) } else { src.below(n + 3) };

	macro_rules! drive {
		($it:expr, $next:expr, $remaining:expr) => {{
			let mut it = $it;
			for k in 0..take {
				let left = n.saturating_sub(k);
				eq("remaining", $remaining(&it), left)?;
				let got: Option<Result<(u8, bool, Vec<u8>), Fail>> = $next(&mut it);
				if k >= n {
					ensure!(got.is_none(), "item {k} of {n}: {got:?}");
					continue;
				}
				let Some(got) = got else { return Err(format!("only {k} of {n} items")) };
				let want = item(&mut line, motors[k].0, motors[k].1);
				ensure!(item_matches(&got, &want), "item {k} of {n}: got {got:02X?}, expected {want:02X?}");
				eq("remaining afterwards", $remaining(&it), n - k - 1)?;
			}
			drop(it);
			for k in take.min(n)..n {
				let _ = item(&mut line, motors[k].0, motors[k].1);
			}
		}};
	}
	let owned = |r: Result<Response<Vec<u8>>, ReadError<PortErr>>| r.map(|r| (r.motor_id, r.alert, r.data)).map_err(rfail);
	let list: Vec<u8> = motors.iter().map(|m| m.0).collect();
	let reads: Vec<BulkReadData> = motors.iter().map(|m| BulkReadData { motor_id: m.0, address: 7, count: m.1 as u16 }).collect();
	match kind {
		0 => {
			let mut s = c.scan().map_err(wfail)?;
			let mut ended = false;
			for k in 0..take {
				let got = if k % 2 == 0 { s.next() } else { s.scan_next() };
				let want = line.status();
				match (&got, &want) {
					(None, Err(Some(Fail::Timeout))) => {
						ended = true;
						break;
					},
					(Some(Ok(r)), Ok(Got::Packet { id, error, params, .. })) if params.len() == 3 => {
						let w = (*id, error.unwrap() & 0x80 != 0, params[0] as u16 | (params[1] as u16) << 8, params[2]);
						eq("scan item", (r.motor_id, r.alert, r.data.model, r.data.firmware), w)?;
					},
					(Some(Err(_)), Ok(Got::Packet { params, .. })) if params.len() != 3 => (),
					(Some(Err(_)), Err(f)) if *f != Some(Fail::Timeout) => (),
					_ => return Err(format!("scan item {k}: got {got:02X?}, expected {want:02X?}")),
				}
			}
			// Abandoning the scan takes what is left, and ends even when the port is broken for good.
			if src.chance(2) && !ended {
				let mut st = port.0.borrow_mut();
				st.broken = true;
				let at = st.reads;
				drop(st);
				drop(s);
				let after = port.0.borrow().reads;
				ensure!(after - at < 1000, "abandoned scan keeps reading from a broken port");
				return Ok(());
			}
			drop(s);
			let st = port.0.borrow();
			let faulty = st.rx.iter().any(|x| x.is_err());
			ensure!(st.rx.is_empty() || faulty || st.last_read_failed, "abandoned scan left {} chunks unread", st.rx.len());
			return Ok(());
		},
		1 => drive!(
			c.sync_read::<u16>(&list, 7).map_err(wfail)?,
			|it: &mut SyncRead<'_, u16, Port, Vec<u8>>| it.next().map(|r| r.map(|r| (r.motor_id, r.alert, r.data.to_le_bytes().to_vec())).map_err(rfail)),
			|it: &SyncRead<'_, u16, Port, Vec<u8>>| it.remaining()
		),
		2 | 3 => drive!(c.sync_read_bytes::<Vec<u8>>(&list, 7, fixed as u16).map_err(wfail)?, |it: &mut _| Iterator::next(it).map(owned), |it: &_| hint(it)),
		4 => {
			// Borrowed: compare the first byte only.
			let mut it = c.sync_read_bytes_borrow::<First>(&list, 7, fixed as u16).map_err(wfail)?;
			for k in 0..take.min(n) {
				let got = it.read_next_borrow().ok_or("too few items")?.map(|r| (r.motor_id, r.alert, r.data.0)).map_err(rfail);
				let want = item(&mut line, motors[k].0, motors[k].1);
				let same = item_matches(&got.clone().map(|_| want.clone().unwrap_or_default()), &want) && match (&got, &want) {
					(Ok(g), Ok(w)) => (g.0, g.1, g.2) == (w.0, w.1, w.2.first().copied().unwrap_or(0xEE)),
					_ => true,
				};
				ensure!(same, "item {k} of {n}: got {got:02X?}, expected {want:02X?}");
				eq("remaining afterwards", it.remaining(), n - k - 1)?;
			}
			if take >= n {
				ensure!(it.read_next_borrow().is_none(), "more items than motors");
			}
			drop(it);
			for k in take.min(n)..n {
				let _ = item(&mut line, motors[k].0, motors[k].1);
			}
		},
		// A type that decodes anything: the size of the reply is still checked.
		8 => drive!(
			c.sync_read::<Odd>(&list, 7).map_err(wfail)?,
			|it: &mut SyncRead<'_, Odd, Port, Vec<u8>>| it.next().map(|r| r.map(|r| (r.motor_id, r.alert, r.data.0.to_le_bytes()[..3].to_vec())).map_err(rfail)),
			|it: &SyncRead<'_, Odd, Port, Vec<u8>>| it.remaining()
		),
		5 | 6 => drive!(c.bulk_read_bytes::<Vec<u8>>(&reads).map_err(wfail)?, |it: &mut _| Iterator::next(it).map(owned), |it: &_| hint(it)),
		_ => {
			let mut it = c.bulk_read_bytes_borrow::<First>(&reads).map_err(wfail)?;
			for k in 0..take.min(n) {
				let got = it.read_next_borrow().ok_or("too few items")?.map(|r| (r.motor_id, r.alert, r.data.0)).map_err(rfail);
				let want = item(&mut line, motors[k].0, motors[k].1);
				let same = item_matches(&got.clone().map(|_| want.clone().unwrap_or_default()), &want) && match (&got, &want) {
					(Ok(g), Ok(w)) => (g.0, g.1, g.2) == (w.0, w.1, w.2.first().copied().unwrap_or(0xEE)),
					_ => true,
				};
				ensure!(same, "item {k} of {n}: got {got:02X?}, expected {want:02X?}");
				eq("remaining afterwards", it.remaining(), n - k - 1)?;
			}
			if take >= n {
				ensure!(it.read_next_borrow().is_none(), "more items than motors");
			}
			drop(it);
			for k in take.min(n)..n {
				let _ = item(&mut line, motors[k].0, motors[k].1);
			}
		},
	}
	// Exactly the replies of this request are gone.
	let got = read_status(&mut c);
	let want = line.status();
	ensure!(matches_want(&got, &want), "after the last item: got {got:02X?}, expected {want:02X?}");
	Ok(())
}

fn hint<I: Iterator>(it: &I) -> usize {
	it.size_hint().1.unwrap_or(usize::MAX)
}

// ---------------------------------------------------------------- C17, C18: values

fn value_check<T: dynamixel2::bus::Data + PartialEq + Clone + std::fmt::Debug>(src: &mut Src, v: T, want: Vec<u8>) -> R {
	let n = want.len();
	eq("ENCODED_SIZE", T::ENCODED_SIZE as usize, n)?;
	let room = n + src.below(6);
	let fillb = src.u8();
	let mut buf = vec![fillb; room];
	eq("encode", v.encode(&mut buf).map_err(|e| (e.required_size, e.total_size)), Ok(()))?;
	eq("encoded bytes", &buf[..n], &want[..])?;
	ensure!(buf[n..].iter().all(|b| *b == fillb), "encode wrote past the value");
	if n > 0 {
		let small = src.below(n);
		let mut b = vec![fillb; small];
		let r = v.encode(&mut b).map_err(|e| (e.required_size, e.total_size));
		eq("encode into a small buffer", r, Err((n, small)))?;
	}
	eq("decode", T::decode(&want), Ok(v))?;
	let wrong = src.below(2 * n + 4);
	if wrong != n {
		let b = src.payload_exact(wrong);
		let r = T::decode(&b);
		ensure!(matches!(r, Err(InvalidMessage::InvalidParameterCount(ref e)) if e.actual == wrong), "decode of {wrong} instead of {n} bytes: {r:?}");
	}
	Ok(())
}

/// A type with values that have no encoding.
#[derive(Debug, Clone, PartialEq)]
struct Fussy(u8);
impl dynamixel2::bus::Data for Fussy {
	const ENCODED_SIZE: u16 = 2;
	fn encode(&self, b: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		if self.0 >= 0xF0 {
			return Err(dynamixel2::BufferTooSmallError { required_size: 1000 + usize::from(self.0), total_size: b.len() });
		}
		b[..2].copy_from_slice(&[self.0, !self.0]);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 2)?;
		if b[0] != !b[1] {
			return Err(dynamixel2::InvalidInstruction { actual: b[0], expected: !b[1] }.into());
		}
		Ok(Fussy(b[0]))
	}
}

/// The first element that cannot be encoded or decoded is the error of the whole.
fn fussy<const N: usize>(src: &mut Src) -> R {
	use dynamixel2::bus::Data;
	let v: [Fussy; N] = core::array::from_fn(|_| Fussy(if src.chance(2 * N) { 0xF0 | src.u8() } else { src.u8() % 0xF0 }));
	let mut b = vec![0; 2 * N];
	let got = v.encode(&mut b).map_err(|e| (e.required_size, e.total_size));
	match v.iter().find(|x| x.0 >= 0xF0) {
		Some(x) => eq("encode with an element that cannot be encoded", got, Err((1000 + usize::from(x.0), 2)))?,
		None => {
			eq("encode", got, Ok(()))?;
			eq("encoded bytes", &b, &v.iter().flat_map(|x| [x.0, !x.0]).collect::<Vec<_>>())?;
		},
	}
	let mut b: Vec<u8> = v.iter().flat_map(|x| [x.0, !x.0]).collect();
	let mut first = None;
	for k in 0..N {
		if src.chance(2 * N) {
			b[2 * k + 1] ^= 1 << src.below(8);
			first = first.or(Some(k));
		}
	}
	let got = <[Fussy; N]>::decode(&b);
	match first {
		None => eq("decode", got, Ok(v)),
		Some(k) => eq("decode with an element that cannot be decoded", got, Err(dynamixel2::InvalidInstruction { actual: b[2 * k], expected: !b[2 * k + 1] }.into())),
	}
}

fn c17(src: &mut Src) -> R {
	let v = src.u128();
	let b = |n: usize| v.to_le_bytes()[..n].to_vec();
	match src.below(26) {
		20 => value_check::<[[u32; 0]; 3]>(src, [[]; 3], vec![]),
		21 => value_check::<[[[i8; 0]; 2]; 0]>(src, [], vec![]),
		22 => {
			let p = src.payload_exact(300);
			value_check::<[u8; 300]>(src, p.clone().try_into().unwrap(), p)
		},
		23 => {
			let p = src.payload_exact(600);
			value_check::<[i16; 300]>(src, core::array::from_fn(|i| i16::from_le_bytes([p[2 * i], p[2 * i + 1]])), p)
		},
		24 => {
			let p = src.payload_exact(272);
			value_check::<[[u64; 2]; 17]>(src, core::array::from_fn(|i| core::array::from_fn(|j| u64::from_le_bytes(p[16 * i + 8 * j..][..8].try_into().unwrap()))), p)
		},
		25 => value_check(src, [v as i128, !(v as i128)], [v.to_le_bytes(), (!v).to_le_bytes()].concat()),
		18 => fussy::<2>(src),
		19 => fussy::<5>(src),
		0 => value_check(src, v as u8, b(1)),
		1 => value_check(src, v as u16, b(2)),
		2 => value_check(src, v as u32, b(4)),
		3 => value_check(src, v as u64, b(8)),
		4 => value_check(src, v, b(16)),
		5 => value_check(src, v as i8, b(1)),
		6 => value_check(src, v as i16, b(2)),
		7 => value_check(src, v as i32, b(4)),
		8 => value_check(src, v as i64, b(8)),
		9 => value_check(src, v as i128, b(16)),
		10 => value_check(src, [v as u8, (v >> 8) as u8, (v >> 16) as u8], b(3)),
		11 => value_check(src, [v as u16, (v >> 16) as u16], b(4)),
		12 => value_check(src, [v as i32, (v >> 32) as i32, (v >> 64) as i32], b(12)),
		13 => value_check(src, [v as u64], b(8)),
		14 => value_check(src, [[v as u16, (v >> 16) as u16], [(v >> 32) as u16, (v >> 48) as u16]], b(8)),
		15 => value_check::<[u32; 0]>(src, [], vec![]),
		16 => value_check(src, [v as i8, (v >> 8) as i8, (v >> 16) as i8, (v >> 24) as i8], b(4)),
		_ => value_check(src, [Odd(v as u64 & 0xFF_FFFF), Odd((v >> 24) as u64 & 0xFF_FFFF)], b(6)),
	}
}

thread_local! {
	static LIVE: std::cell::RefCell<(u64, Vec<bool>, bool)> = const { std::cell::RefCell::new((0, Vec::new(), false)) };
}

/// Every value has a number; its slot says whether it has been dropped.
#[derive(Debug)]
struct Tracked(usize, u8);
impl Tracked {
	fn new(v: u8) -> Self {
		LIVE.with(|l| {
			let mut l = l.borrow_mut();
			l.1.push(true);
			Tracked(l.1.len() - 1, v)
		})
	}
}
impl Drop for Tracked {
	fn drop(&mut self) {
		LIVE.with(|l| {
			let mut l = l.borrow_mut();
			match l.1.get_mut(self.0) {
				Some(x) if *x => *x = false,
				_ => l.2 = true,
			}
		})
	}
}
impl dynamixel2::bus::Data for Tracked {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		b[0] = self.1;
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 1)?;
		match b[0] {
			0x70..=0x7F => Err(dynamixel2::InvalidInstruction { actual: b[0], expected: 0 }.into()),
			0x60 => panic!("user decode function panics"),
			_ => Ok(Tracked::new(b[0])),
		}
	}
}

fn tracked<const N: usize>(src: &mut Src) -> R {
	use dynamixel2::bus::Data;
	LIVE.with(|l| *l.borrow_mut() = (0, Vec::new(), false));
	let mut data: Vec<u8> = (0..N).map(|_| src.u8() & 0x3F).collect();
	if src.chance(2) && N > 0 {
		let at = src.below(N);
		data[at] = [0x71, 0x7F, 0x60][src.below(3)];
	}
	if src.chance(8) {
		let n = src.below(N + 3);
		data.resize(n, 1);
	}
	let bad = data.iter().any(|b| *b >= 0x60) || data.len() != N;
	let dropped_twice = || LIVE.with(|l| l.borrow().2);
	let alive = || LIVE.with(|l| l.borrow().1.iter().filter(|x| **x).count());
	let made = || LIVE.with(|l| l.borrow().1.len());
	let r = std::panic::catch_unwind(|| <[Tracked; N]>::decode(&data));
	ensure!(!dropped_twice(), "an element was dropped twice");
	match r {
		Ok(Ok(array)) => {
			ensure!(!bad, "decoded {data:02X?} as an array of {N}");
			eq("elements alive", alive(), N)?;
			eq("elements made", made(), N)?;
			eq("values", array.iter().map(|t| t.1).collect::<Vec<_>>(), data)?;
			drop(array);
		},
		Ok(Err(_)) | Err(_) => ensure!(bad, "did not decode {data:02X?} as an array of {N}"),
	}
	ensure!(!dropped_twice(), "an element was dropped twice");
	eq("elements leaked", alive(), 0)
}

/// The same for an array of arrays.
fn tracked_nested(src: &mut Src) -> R {
	use dynamixel2::bus::Data;
	LIVE.with(|l| *l.borrow_mut() = (0, Vec::new(), false));
	let mut data: Vec<u8> = (0..12).map(|_| src.u8() & 0x3F).collect();
	let bad = src.chance(2);
	if bad {
		let at = src.below(12);
		data[at] = [0x71, 0x7F, 0x60][src.below(3)];
	}
	let r = std::panic::catch_unwind(|| <[[Tracked; 3]; 4]>::decode(&data));
	let dropped_twice = || LIVE.with(|l| l.borrow().2);
	let alive = || LIVE.with(|l| l.borrow().1.iter().filter(|x| **x).count());
	ensure!(!dropped_twice(), "an element was dropped twice");
	match r {
		Ok(Ok(array)) => {
			ensure!(!bad, "decoded {data:02X?} as an array");
			eq("elements alive", alive(), 12)?;
			eq("values", array.iter().flatten().map(|t| t.1).collect::<Vec<_>>(), data)?;
			drop(array);
		},
		Ok(Err(_)) | Err(_) => ensure!(bad, "did not decode {data:02X?} as an array"),
	}
	ensure!(!dropped_twice(), "an element was dropped twice");
	eq("elements leaked", alive(), 0)
}

thread_local! {
	static UNITS: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) };
}

/// A value that takes no room in memory: how many are alive is all there is to know.
#[derive(Debug)]
struct Unit(());
impl Drop for Unit {
	fn drop(&mut self) {
		UNITS.with(|u| u.set((u.get().0, u.get().1 + 1)));
	}
}
impl dynamixel2::bus::Data for Unit {
	const ENCODED_SIZE: u16 = 1;
	fn encode(&self, b: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
		b[0] = 1;
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		dynamixel2::InvalidParameterCount::check(b.len(), 1)?;
		match b[0] {
			0x70..=0x7F => Err(dynamixel2::InvalidInstruction { actual: b[0], expected: 0 }.into()),
			0x60 => panic!("user decode function panics"),
			_ => {
				UNITS.with(|u| u.set((u.get().0 + 1, u.get().1)));
				Ok(Unit(()))
			},
		}
	}
}

fn units<const N: usize>(src: &mut Src) -> R {
	use dynamixel2::bus::Data;
	UNITS.with(|u| u.set((0, 0)));
	let mut data: Vec<u8> = (0..N).map(|_| src.u8() & 0x3F).collect();
	let bad = N > 0 && src.chance(2);
	if bad {
		let at = src.below(N);
		data[at] = [0x71, 0x7F, 0x60][src.below(3)];
	}
	let r = std::panic::catch_unwind(|| <[Unit; N]>::decode(&data));
	let (made, gone) = UNITS.with(|u| u.get());
	match r {
		Ok(Ok(array)) => {
			ensure!(!bad, "decoded {data:02X?} as an array of {N}");
			eq("elements (made, dropped)", (made, gone), (N as i64, 0))?;
			drop(array);
		},
		Ok(Err(_)) | Err(_) => ensure!(bad, "did not decode {data:02X?} as an array of {N}"),
	}
	let (made, gone) = UNITS.with(|u| u.get());
	eq("elements of no size dropped", gone, made)
}

fn c18(src: &mut Src) -> R {
	match src.below(12) {
		9 => units::<1>(src),
		10 => units::<2>(src),
		11 => units::<7>(src),
		6 => tracked::<260>(src),
		7 | 8 => tracked_nested(src),
		0 => tracked::<0>(src),
		1 => tracked::<1>(src),
		2 => tracked::<2>(src),
		3 => tracked::<3>(src),
		4 => tracked::<5>(src),
		_ => tracked::<17>(src),
	}
}

// ---------------------------------------------------------------- C19 .. C22: time, stale input, baud rate, faults

fn reply_timeout(n: usize, baud: u32) -> Duration {
	nanos(model::transfer_nanos(11 + n as u64, baud)) + Duration::from_millis(34)
}

fn nanos(n: u128) -> Duration {
	Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
}

fn c19(src: &mut Src) -> R {
	src.plain = true;
	let (mut c, port) = client(src, 256, 4096);
	if src.chance(2) {
		let b = baud(src);
		c.set_baud_rate(b).map_err(|e| format!("{e:?}"))?;
	}
	let b = port.0.borrow().baud;
	port.take_events();
	let pending = src.chance(2);
	let mut want: Vec<Duration>;
	match src.below(7) {
		0 => {
			let n = src.u16();
			let _ = c.read_status_response(n);
			want = vec![reply_timeout(n as usize, b)];
		},
		1 => {
			let t = Duration::new(src.u32() as u64, src.u32() % 1_000_000_000);
			let _ = c.read_status_response_timeout(t);
			want = vec![t];
		},
		2 => {
			let (mut d, dport) = device(src, 64, 64);
			let t = Duration::new(src.u32() as u64, src.u32() % 1_000_000_000);
			if src.chance(2) {
				dport.feed(model::status_frame(1, 0, &[]).unwrap());
			}
			match src.below(3) {
				0 => drop(d.read(t)),
				1 => drop(d.read_owned(t)),
				_ => drop(d.read_raw_instruction_timeout(t)),
			}
			return timing(dport.take_events(), vec![t]);
		},
		3 => {
			let mut id = src.id();
			let op = single_op(src);
			if id == 0xFE && op.silent_broadcast {
				id = 3;
			}
			want = vec![reply_timeout(op.reply, b)];
			if pending {
				let p = src.payload_exact(op.reply.min(200));
				let f = model::status_frame(id, 0, &p).unwrap();
				let rx = chunked(src, &f, false);
				port.0.borrow_mut().replies.push_back(rx.into_iter().collect());
			}
			let _ = (op.run)(&mut c, id);
		},
		4 => {
			let base = src.u8() % 200;
			let n = src.below(5) as u8;
			let motors: Vec<u8> = (0..n).map(|i| base + i).collect();
			let k = src.u16();
			let taken = src.below(6);
			want = vec![reply_timeout(k as usize, b); n as usize];
			if pending {
				let mut f = Vec::new();
				for m in &motors {
					let p = src.payload_exact(8);
					f.extend(model::status_frame(*m, 0, &p).unwrap());
				}
				let rx = chunked(src, &f, false);
				port.0.borrow_mut().replies.push_back(rx.into_iter().collect());
			}
			if src.chance(2) {
				let mut it = c.sync_read_bytes::<Vec<u8>>(&motors, 1, k).map_err(wfail)?;
				for _ in 0..taken {
					it.read_next();
				}
			} else {
				want = vec![reply_timeout(8, b); n as usize];
				let mut it = c.sync_read::<u64>(&motors, 1).map_err(wfail)?;
				for _ in 0..taken {
					it.read_next();
				}
			}
		},
		5 => {
			let n = src.below(5);
			let reads: Vec<BulkReadData> = (0..n).map(|i| BulkReadData { motor_id: i as u8, address: 1, count: src.u16() }).collect();
			let taken = src.below(6);
			want = reads.iter().map(|r| reply_timeout(r.count as usize, b)).collect();
			let mut it = c.bulk_read_bytes::<Vec<u8>>(&reads).map_err(wfail)?;
			for _ in 0..taken {
				it.read_next();
			}
		},
		_ => {
			if pending {
				port.0.borrow_mut().replies.push_back(vec![Ok(model::status_frame(1, 0, &[1, 2, 3]).unwrap())]);
			}
			let mut s = c.scan().map_err(wfail)?;
			let first = s.next();
			std::mem::forget(first);
			want = vec![nanos(model::transfer_nanos(14, b) * 253) + Duration::from_millis(34)];
			std::mem::forget(s);
		},
	}
	if want.is_empty() {
		want = vec![];
	}
	timing(port.take_events(), want)
}

/// Deadlines were made from exactly these timeouts, and each read used the latest one.
fn timing(ev: Vec<Ev>, want: Vec<Duration>) -> R {
	let mut made = Vec::new();
	for e in &ev {
		match e {
			Ev::MakeDeadline(t) => made.push(*t),
			Ev::Read { timeout, .. } => eq("deadline given to the port", Some(timeout), made.last())?,
			_ => (),
		}
	}
	eq("timeouts", made, want)
}

fn c20(src: &mut Src) -> R {
	src.plain = true;
	if src.chance(400) {
		return crate::os::old_input(src);
	}
	let (mut c, port) = client(src, 200, 4096);
	// Leave something in the read buffer of the client, in the port, or both.
	let mut old = Vec::new();
	for _ in 0..1 + src.below(3) {
		let (id, e) = (src.id(), src.byte());
		let p = src.payload(12);
		old.extend(model::status_frame(id, e, &p).unwrap());
	}
	if src.chance(2) {
		let n = src.below(old.len() + 1);
		old.truncate(n);
	}
	if src.chance(2) {
		let at = src.below(old.len() + 1);
		let tail = old.split_off(at);
		port.feed(old);
		port.feed(tail);
	} else {
		port.feed(old);
	}
	for _ in 0..src.below(3) {
		let _ = c.read_status_response_timeout(INSTR_TIMEOUT);
	}
	port.take_events();
	let fail = src.chance(6);
	port.0.borrow_mut().fail_discard = fail;
	let failure = if fail { failing(src, &port, 3) } else { 3 };
	if src.chance(3) {
		let (name, got, ev);
		if src.chance(4) {
			let (mut d, port) = device(src, 200, 200);
			let at = src.below(3);
			let more = [vec![0xFF, 0xFF, 0xFD], model::frame(5, 5, &[]).unwrap(), vec![]][src.below(3)].clone();
			port.feed(model::frame(4, 5, &[]).unwrap().into_iter().chain(more).collect());
			for _ in 0..at {
				let _ = d.read(INSTR_TIMEOUT);
			}
			port.take_events();
			port.0.borrow_mut().fail_discard = fail;
			port.0.borrow_mut().late = failure == 999;
			name = "write_status";
			got = match src.below(3) {
				0 => d.write_status_ok(1),
				1 => d.write_status_error(1, 5),
				_ => d.write_status(1, 0, 2, fill(&[1, 2])),
			}
			.map_err(wfail);
			ev = port.take_events();
			if got.is_ok() {
				// What came before is gone, for the device too.
				port.feed(model::frame(9, 8, &[]).unwrap());
				let next = d.read(INSTR_TIMEOUT);
				let next = next.map(|x| x.id).map_err(|e| format!("{e:?}"));
				eq("instruction read by the device after a status with old input around", next, Ok(9))?;
			}
		} else {
			if !fail && src.chance(2) {
				return old_part_before_many(src, c, &port);
			}
			let mut reply = Vec::new();
			let (n, run) = other_op(src, &mut reply);
			port.0.borrow_mut().replies.push_back(vec![Ok(reply)]);
			name = n;
			got = run(&mut c);
			ev = port.take_events();
		}
		if fail {
			eq(name, got, Err(Fail::WDiscard(failure)))?;
			return eq(&format!("port used by {name} after a failed discard"), ev, vec![Ev::Discard]);
		}
		eq(name, got, Ok(()))?;
		ensure!(ev.first() == Some(&Ev::Discard), "{name}: input not discarded first: {ev:02X?}");
		ensure!(matches!(ev.get(1), Some(Ev::Write(_))), "{name}: no message right after discarding the input: {ev:02X?}");
		ensure!(!ev[2..].iter().any(|e| matches!(e, Ev::Write(_) | Ev::Discard)), "{name}: input discarded again: {ev:02X?}");
		return Ok(());
	}
	let op = single_op(src);
	let mut id = src.id();
	if id == 0xFE && op.silent_broadcast {
		id = 3;
	}
	let p = src.payload_exact(op.reply.min(100));
	let mut reply = model::status_frame(id, 0, &p).unwrap();
	if src.chance(2) && !fail {
		// A response of which the first part came before the request, and the rest after it.
		while !port.0.borrow().rx.is_empty() {
			let _ = c.read_status_response_timeout(INSTR_TIMEOUT);
		}
		let old = model::status_frame(id, 0, &vec![1; p.len()]).unwrap();
		let at = 1 + src.below(old.len() - 1);
		let mut first = old[..at].to_vec();
		if src.chance(2) {
			first = [model::status_frame(7, 0, &[]).unwrap(), first].concat();
		}
		port.feed(first);
		let _ = c.read_status_response_timeout(INSTR_TIMEOUT);
		port.take_events();
		if port.0.borrow().rx.is_empty() {
			reply = [old[at..].to_vec(), reply].concat();
		}
	}
	port.0.borrow_mut().replies.push_back(vec![Ok(reply)]);
	let (name, need) = (op.name, op.reply);
	let got = (op.run)(&mut c, id);
	let ev = port.take_events();
	if fail {
		eq(name, got, Err(Fail::WDiscard(failure)))?;
		return eq("port used after a failed discard", ev, vec![Ev::Discard]);
	}
	ensure!(ev.first() == Some(&Ev::Discard), "{name}: input not discarded first: {ev:02X?}");
	ensure!(matches!(ev.get(1), Some(Ev::Write(_))), "{name}: no message right after discarding the input: {ev:02X?}");
	ensure!(!ev[2..].iter().any(|e| matches!(e, Ev::Write(_) | Ev::Discard)), "{name}: input discarded again: {ev:02X?}");
	if p.len() == need && model::stuff(&p).len() < 180 {
		eq(&format!("outcome of {name} with old input around"), got, Ok((id, false, value_of(name, &p))))?;
	}
	Ok(())
}

/// A request to many motors, when a part of a response was received before it, and the rest comes after it.
fn old_part_before_many(src: &mut Src, mut c: C, port: &Port) -> R {
	while !port.0.borrow().rx.is_empty() {
		let _ = c.read_status_response_timeout(INSTR_TIMEOUT);
	}
	let base = src.u8() % 0xF0;
	let ids: Vec<u8> = (0..1 + src.below(3) as u8).map(|i| base + i).collect();
	let old = model::status_frame(base, 0, &[1, 1, 1]).unwrap();
	let at = 1 + src.below(old.len() - 1);
	port.feed(old[..at].to_vec());
	let _ = c.read_status_response_timeout(INSTR_TIMEOUT);
	port.take_events();
	let mut reply = if port.0.borrow().rx.is_empty() { old[at..].to_vec() } else { vec![] };
	let mut want = Vec::new();
	for id in &ids {
		let p = [2, src.u8(), src.u8()];
		reply.extend(model::status_frame(*id, 0, &p).unwrap());
		want.push((*id, p.to_vec()));
	}
	port.0.borrow_mut().replies.push_back(vec![Ok(reply)]);
	let (name, got): (_, Result<Vec<(u8, Vec<u8>)>, String>) = match src.below(5) {
		0 => {
			let reads: Vec<_> = ids.iter().map(|id| BulkReadData { motor_id: *id, address: 1, count: 3 }).collect();
			let r = c.bulk_read_bytes::<Vec<u8>>(&reads).unwrap().map(|x| x.map(|x| (x.motor_id, x.data)).map_err(|e| format!("{e:?}"))).collect();
			("bulk_read_bytes", r)
		},
		1 => ("sync_read", c.sync_read::<[u8; 3]>(&ids, 1).unwrap().map(|x| x.map(|x| (x.motor_id, x.data.to_vec())).map_err(|e| format!("{e:?}"))).collect()),
		2 => ("sync_read_bytes", c.sync_read_bytes::<Vec<u8>>(&ids, 1, 3).unwrap().map(|x| x.map(|x| (x.motor_id, x.data)).map_err(|e| format!("{e:?}"))).collect()),
		3 => (
			"scan",
			c.scan()
				.unwrap()
				.map(|x| x.map(|x| (x.motor_id, [&x.data.model.to_le_bytes()[..], &[x.data.firmware]].concat())).map_err(|e| format!("{e:?}")))
				.collect(),
		),
		_ => {
			let r = match src.below(3) {
				0 => c.sync_write_bytes(1, 2, &[SyncWriteData { motor_id: base, data: [1, 2] }]),
				1 => c.bulk_write(&[BulkWriteData { motor_id: base, address: 3, data: [1, 2] }]),
				_ => c.broadcast_action(),
			};
			eq("request", r.map_err(wfail), Ok(()))?;
			let r = want
				.iter()
				.map(|_| c.read_status_response_timeout(INSTR_TIMEOUT).map(|x| (x.packet_id(), x.parameters().to_vec())).map_err(|e| format!("{e:?}")))
				.collect();
			("write to all", r)
		},
	};
	eq(&format!("answers to {name}, with {at} bytes of an older answer received before it"), got, Ok(want))
}

fn c21(src: &mut Src) -> R {
	src.plain = true;
	let b = baud(src);
	let port = Port::new(b);
	port.0.borrow_mut().fail_get_baud = src.chance(6);
	let fail = port.0.borrow().fail_get_baud;
	let as_client = src.chance(2);
	let (mut c, mut d) = (None, None);
	if as_client {
		match Client::with_buffers(port.clone(), vec![0; 32], vec![0; 32]) {
			Ok(x) => c = Some(x),
			Err(e) => return eq("with_buffers", (fail, e), (true, PortErr::Fault(1))),
		}
	} else {
		match Device::with_buffers(port.clone(), vec![0; 32], vec![0; 32]) {
			Ok(x) => d = Some(x),
			Err(e) => return eq("with_buffers", (fail, e), (true, PortErr::Fault(1))),
		}
	}
	ensure!(!fail, "with_buffers ignored the failure of the port");
	let mut want = b;
	// From now on the port need not tell its baud rate any more.
	port.0.borrow_mut().fail_get_baud = src.chance(2);
	for _ in 0..3 {
		if src.chance(3) {
			// What the port does on its own is not the last one set.
			port.0.borrow_mut().baud = baud(src);
		}
		let get = |c: &Option<C>, d: &Option<D>| c.as_ref().map(|c| c.baud_rate()).or(d.as_ref().map(|d| d.baud_rate())).unwrap();
		eq("baud_rate", get(&c, &d), want)?;
		let new = baud(src);
		let fail = src.chance(3);
		port.0.borrow_mut().fail_set_baud = fail;
		port.take_events();
		let r = match (&mut c, &mut d) {
			(Some(c), _) => c.set_baud_rate(new),
			(_, Some(d)) => d.set_baud_rate(new),
			_ => unreachable!(),
		};
		eq("set_baud_rate", r, if fail { Err(PortErr::Fault(2)) } else { Ok(()) })?;
		eq("calls to the port", port.take_events(), vec![Ev::SetBaud(new, !fail)])?;
		if !fail {
			want = new;
		}
		eq("baud_rate", get(&c, &d), want)?;
		if let (Some(c), true) = (&mut c, src.chance(2)) {
			port.take_events();
			let n = src.u16();
			let _ = c.read_status_response(n);
			timing(port.take_events(), vec![reply_timeout(n as usize, want)])?;
		}
	}
	Ok(())
}

/// Instructions for several motors or for nobody in particular, and what a device sends.
fn other_op(src: &mut Src, reply_to: &mut Vec<u8>) -> (&'static str, Box<dyn FnOnce(&mut C) -> Result<(), Fail>>) {
	let n = 1 + src.below(4) as u8;
	let base = src.u8() % 0xF0;
	let ids: Vec<u8> = (0..n).map(|i| base + i).collect();
	let k = 1 + src.below(4) as u16;
	let address = src.addr();
	let size = [2, 3, k as usize][src.below(3)];
	for id in &ids {
		let p = src.payload_exact(size);
		reply_to.extend(model::status_frame(*id, 0, &p).unwrap());
	}
	match src.below(13) {
		10 => ("sync_read_bytes_borrow", Box::new(move |c| c.sync_read_bytes_borrow::<First>(&ids, address, k).map(|mut s| while s.read_next_borrow().is_some() {}).map_err(wfail))),
		11 => (
			"bulk_read_bytes_borrow",
			Box::new(move |c| {
				let reads: Vec<_> = ids.iter().map(|id| BulkReadData { motor_id: *id, address, count: k }).collect();
				let r = c.bulk_read_bytes_borrow::<First>(&reads).map(|mut s| while s.read_next_borrow().is_some() {}).map_err(wfail);
				r
			}),
		),
		0 => ("scan", Box::new(|c| c.scan().map(|mut s| while let Some(Ok(_)) = s.next() {}).map_err(wfail))),
		1 => ("sync_read", Box::new(move |c| c.sync_read::<u16>(&ids, address).map(|s| s.for_each(drop)).map_err(wfail))),
		2 => ("sync_read_bytes", Box::new(move |c| c.sync_read_bytes::<Vec<u8>>(&ids, address, k).map(|s| s.for_each(drop)).map_err(wfail))),
		3 => (
			"bulk_read_bytes",
			Box::new(move |c| {
				let reads: Vec<_> = ids.iter().map(|id| BulkReadData { motor_id: *id, address, count: k }).collect();
				let r = c.bulk_read_bytes::<Vec<u8>>(&reads).map(|s| s.for_each(drop)).map_err(wfail);
				r
			}),
		),
		4 => ("sync_write", Box::new(move |c| c.sync_write(address, &ids.iter().map(|id| SyncWriteData { motor_id: *id, data: k }).collect::<Vec<_>>()).map_err(wfail))),
		5 => ("sync_write_bytes", Box::new(move |c| c.sync_write_bytes(address, 2, &ids.iter().map(|id| SyncWriteData { motor_id: *id, data: [1, 2] }).collect::<Vec<_>>()).map_err(wfail))),
		6 => ("bulk_write", Box::new(move |c| c.bulk_write(&ids.iter().map(|id| BulkWriteData { motor_id: *id, address, data: [1, 2] }).collect::<Vec<_>>()).map_err(wfail))),
		7 => ("broadcast_action", Box::new(|c| c.broadcast_action().map_err(wfail))),
		8 => ("broadcast_reboot", Box::new(|c| c.broadcast_reboot().map_err(wfail))),
		9 => ("broadcast_clear_error", Box::new(|c| c.broadcast_clear_error().map_err(wfail))),
		_ => ("broadcast_factory_reset", Box::new(|c| c.broadcast_factory_reset(FactoryResetKind::KeepId).map_err(wfail))),
	}
}

fn c22(src: &mut Src) -> R {
	src.plain = true;
	match src.below(4) {
		0 => {
			// What was received before a failure is kept.
			let as_client = src.chance(2);
			let data = stream(src, Mix::Clean, 60, Some(as_client));
			let rx = chunked(src, &data, true);
			let (results, ev) = session_events(src, as_client, 200, rx);
			for (got, want) in &results {
				let related = matches!(want, Ok(_) | Err(Some(Fail::Timeout | Fail::Fault(_))));
				if related && !matches_want(got, want) {
					return Err(format!("stream {data:02X?} with failures in between: got {got:02X?}, expected {want:02X?}"));
				}
			}
			// A call ends with the first failure.
			let failed = ev.iter().filter(|e| matches!(e, Ev::Read { got: None, .. })).count();
			let reported = results.iter().filter(|r| matches!(r.0, Got::Fail(Fail::Timeout | Fail::Fault(_)))).count();
			return eq("failures reported", reported, failed);
		},
		1 => {
			let (mut c, port) = client(src, 256, 4096);
			let mut reply = Vec::new();
			let (name, run) = other_op(src, &mut reply);
			let discard = src.chance(2);
			let at = src.below(reply.len());
			let n = 100 + src.u8() as u32;
			{
				let mut s = port.0.borrow_mut();
				s.fail_discard = discard;
				s.fail_write = !discard;
				s.replies.push_back(vec![Ok(reply[..at].to_vec()), Err(PortErr::Fault(n))]);
			}
			if src.chance(2) {
				// The first failure of a multi reply read.
				port.0.borrow_mut().fail_discard = false;
				port.0.borrow_mut().fail_write = false;
				port.0.borrow_mut().replies[0] = vec![Err(PortErr::Fault(n))];
				let reads = [BulkReadData { motor_id: 1, address: 1, count: 2 }, BulkReadData { motor_id: 2, address: 1, count: 2 }];
				let first = match src.below(6) {
					4 => c.sync_read_bytes_borrow::<First>(&[1, 2], 3, 2).map_err(wfail)?.read_next_borrow().map(|r| r.map(|_| ()).map_err(rfail)),
					5 => c.bulk_read_bytes_borrow::<First>(&reads).map_err(wfail)?.read_next_borrow().map(|r| r.map(|_| ()).map_err(rfail)),
					0 => c.scan().map_err(wfail)?.next().map(|r| r.map(|_| ()).map_err(rfail)),
					1 => c.sync_read::<u8>(&[1, 2], 3).map_err(wfail)?.next().map(|r| r.map(|_| ()).map_err(rfail)),
					2 => c.sync_read_bytes::<Vec<u8>>(&[1, 2], 3, 2).map_err(wfail)?.next().map(|r| r.map(|_| ()).map_err(rfail)),
					_ => c.bulk_read_bytes::<Vec<u8>>(&reads).map_err(wfail)?.next().map(|r| r.map(|_| ()).map_err(rfail)),
				};
				return eq("first item with a failing port", first, Some(Err(Fail::Fault(n))));
			}
			let want = if discard { Fail::WDiscard(failing(src, &port, 3)) } else { Fail::WWrite(failing(src, &port, 4)) };
			let got = run(&mut c);
			eq(name, got, Err(want))?;
			return eq(&format!("port used by {name} after the failure"), port.take_events(), if discard { vec![Ev::Discard] } else { vec![Ev::Discard, Ev::WriteFailed] });
		},
		2 if src.chance(3) => {
			let (mut d, port) = device(src, 100, 100);
			let discard = src.chance(2);
			port.0.borrow_mut().fail_discard = discard;
			port.0.borrow_mut().fail_write = !discard;
			let want = if discard { Fail::WDiscard(failing(src, &port, 3)) } else { Fail::WWrite(failing(src, &port, 4)) };
			let got = match src.below(3) {
				0 => d.write_status_ok(1),
				1 => d.write_status_error(1, 5),
				_ => d.write_status(1, 0, 2, fill(&[1, 2])),
			};
			eq("write_status", got.map_err(wfail), Err(want))?;
			return eq("port used by write_status after the failure", port.take_events(), if discard { vec![Ev::Discard] } else { vec![Ev::Discard, Ev::WriteFailed] });
		},
		_ => (),
	}
	let (mut c, port) = client(src, 256, 4096);
	let kind = src.below(3);
	let op = single_op(src);
	let mut id = src.id();
	if id == 0xFE && op.silent_broadcast {
		id = 3;
	}
	let n = 100 + src.u8() as u32;
	match kind {
		0 => port.0.borrow_mut().fail_discard = true,
		1 => port.0.borrow_mut().fail_write = true,
		_ => {
			let mut chunks: Vec<Result<Vec<u8>, PortErr>> = vec![];
			if src.chance(2) {
				let f = model::status_frame(id, 0, &[1, 2, 3]).unwrap();
				let at = 1 + src.below(f.len() - 1);
				chunks.push(Ok(f[..at].to_vec()));
			}
			chunks.push(Err(if src.chance(3) { PortErr::Timeout } else { PortErr::Fault(n) }));
			chunks.push(Ok(vec![1, 2, 3]));
			port.0.borrow_mut().replies.push_back(chunks);
		},
	}
	let name = op.name;
	let want = match kind {
		0 => Fail::WDiscard(failing(src, &port, 3)),
		1 => Fail::WWrite(failing(src, &port, 4)),
		_ => match port.0.borrow().replies[0].iter().find_map(|x| x.as_ref().err()) {
			Some(PortErr::Timeout) => Fail::Timeout,
			_ => Fail::Fault(n),
		},
	};
	let mut small = op.params.len() > 3000;
	small |= false;
	if small {
		return Ok(());
	}
	let got = (op.run)(&mut c, id);
	eq(&format!("outcome of {name} with a failing port"), got, Err(want))?;
	let ev = port.take_events();
	match kind {
		0 => eq("port used after the failure", ev, vec![Ev::Discard]),
		1 => eq("port used after the failure", ev, vec![Ev::Discard, Ev::WriteFailed]),
		_ => {
			let at = ev.iter().position(|e| matches!(e, Ev::Read { got: None, .. }));
			eq("reads after the failure", at, Some(ev.len() - 1))
		},
	}
}
