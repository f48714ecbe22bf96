//! A scripted serial port that records every call the library makes.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
	Discard,
	Write(Vec<u8>),
	WriteFailed,
	/// Deadline given, room offered, bytes returned (None: error).
	Read { timeout: Duration, room: usize, got: Option<usize> },
	MakeDeadline(Duration),
	SetBaud(u32, bool),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PortErr {
	Timeout,
	Fault(u32),
}

#[derive(Default)]
pub struct State {
	pub ev: Vec<Ev>,
	/// Chunks to hand out, in order; a chunk larger than the room offered is split.
	/// `Err` entries are reported as a read error.
	pub rx: VecDeque<Result<Vec<u8>, PortErr>>,
	/// Chunks that arrive when a message is written (one entry per write).
	pub replies: VecDeque<Vec<Result<Vec<u8>, PortErr>>>,
	pub baud: u32,
	pub fail_discard: bool,
	pub fail_write: bool,
	pub fail_set_baud: bool,
	pub fail_get_baud: bool,
	/// Failures other than those of a read are time-outs as well.
	pub late: bool,
	/// Whether discard really throws away what has not been read yet.
	pub discard_clears: bool,
	pub reads: usize,
	/// Every read fails from now on.
	pub broken: bool,
	pub last_read_failed: bool,
	pub delivered: Vec<u8>,
}

#[derive(Clone)]
pub struct Port(pub Rc<RefCell<State>>);

impl Port {
	pub fn new(baud: u32) -> Self {
		Self(Rc::new(RefCell::new(State { baud, discard_clears: true, ..State::default() })))
	}
	pub fn feed(&self, bytes: Vec<u8>) {
		self.0.borrow_mut().rx.push_back(Ok(bytes));
	}
	pub fn take_events(&self) -> Vec<Ev> {
		std::mem::take(&mut self.0.borrow_mut().ev)
	}
	pub fn writes(&self) -> Vec<Vec<u8>> {
		self.0.borrow().ev.iter().filter_map(|e| if let Ev::Write(w) = e { Some(w.clone()) } else { None }).collect()
	}
}

impl State {
	fn failure(&self, n: u32) -> PortErr {
		if self.late {
			PortErr::Timeout
		} else {
			PortErr::Fault(n)
		}
	}
}

pub const HANG: &str = "no progress: the port was read too often";

impl dynamixel2::SerialPort for Port {
	type Error = PortErr;
	type Instant = Duration;

	fn baud_rate(&self) -> Result<u32, PortErr> {
		let s = self.0.borrow();
		if s.fail_get_baud {
			Err(s.failure(1))
		} else {
			Ok(s.baud)
		}
	}
	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), PortErr> {
		let mut s = self.0.borrow_mut();
		let ok = !s.fail_set_baud;
		s.ev.push(Ev::SetBaud(baud_rate, ok));
		if ok {
			s.baud = baud_rate;
			Ok(())
		} else {
			Err(s.failure(2))
		}
	}
	fn discard_input_buffer(&mut self) -> Result<(), PortErr> {
		let mut s = self.0.borrow_mut();
		s.ev.push(Ev::Discard);
		if s.fail_discard {
			return Err(s.failure(3));
		}
		if s.discard_clears {
			s.rx.clear();
		}
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Duration) -> Result<usize, PortErr> {
		let mut s = self.0.borrow_mut();
		s.reads += 1;
		if s.reads > 2_000_000 {
			panic!("{HANG}");
		}
		if buffer.is_empty() {
			panic!("serial port read with an empty buffer");
		}
		// Bytes past the ones reported may be clobbered by a real port.
		for b in buffer.iter_mut() {
			*b = 0xA5;
		}
		let mut got = None;
		let front = if s.broken { Some(Err(PortErr::Fault(6))) } else { s.rx.pop_front() };
		let result = match front {
			None => Err(PortErr::Timeout),
			Some(Err(e)) => Err(e),
			Some(Ok(mut chunk)) => {
				let n = chunk.len().min(buffer.len());
				buffer[..n].copy_from_slice(&chunk[..n]);
				s.delivered.extend_from_slice(&chunk[..n]);
				if n < chunk.len() {
					let rest = chunk.split_off(n);
					s.rx.push_front(Ok(rest));
				}
				got = Some(n);
				Ok(n)
			},
		};
		let room = buffer.len();
		s.last_read_failed = result.is_err();
		s.ev.push(Ev::Read { timeout: *deadline, room, got });
		result
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), PortErr> {
		let mut s = self.0.borrow_mut();
		if s.fail_write {
			s.ev.push(Ev::WriteFailed);
			return Err(s.failure(4));
		}
		s.ev.push(Ev::Write(buffer.to_vec()));
		if let Some(reply) = s.replies.pop_front() {
			s.rx.extend(reply);
		}
		Ok(())
	}
	fn make_deadline(&self, timeout: Duration) -> Duration {
		let mut s = self.0.borrow_mut();
		s.ev.push(Ev::MakeDeadline(timeout));
		if s.ev.len() > 4_000_000 {
			panic!("{HANG}");
		}
		timeout
	}
	fn is_timeout_error(error: &PortErr) -> bool {
		*error == PortErr::Timeout
	}
}
