//! Properties that show only at the operating system: pseudo-terminals stand for serial lines.
use crate::model;
use crate::src::Src;
use dynamixel2::{Client, Device, ReadError, SerialPort as _, TransferError};
use std::fs::File;
use std::io::{Error, ErrorKind, Read as _, Write as _};
use std::os::fd::{AsRawFd as _, FromRawFd as _};
use std::time::{Duration, Instant};

type R = Result<(), String>;

macro_rules! ensure {
	($cond:expr, $($fmt:tt)*) => { if !$cond { return Err(format!($($fmt)*)); } }
}

extern "C" {
	fn posix_openpt(flags: i32) -> i32;
	fn grantpt(fd: i32) -> i32;
	fn unlockpt(fd: i32) -> i32;
	fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
	fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
	fn signal(number: i32, handler: usize) -> usize;
	fn pthread_self() -> usize;
	fn pthread_kill(thread: usize, number: i32) -> i32;
	fn setsid() -> i32;
	fn ioctl(fd: i32, request: u64, ...) -> i32;
	fn fork() -> i32;
	fn setpgid(pid: i32, group: i32) -> i32;
	fn tcsetpgrp(fd: i32, group: i32) -> i32;
	fn close(fd: i32) -> i32;
	fn pause() -> i32;
}

/// The line of a process in the background of its terminal: it can write, but what arrives is answered with an I/O error,
/// again and again.
fn in_background(port: &File) -> std::io::Result<()> {
	const TIOCSCTTY: u64 = 0x540E;
	const SIGTTIN: i32 = 21;
	const SIGTTOU: i32 = 22;
	// SAFETY: between fork and exec, system calls only.
	unsafe {
		if setsid() < 0 || ioctl(port.as_raw_fd(), TIOCSCTTY, 0) < 0 {
			return Err(Error::last_os_error());
		}
		let other = fork();
		if other == 0 {
			// The foreground, until the terminal goes away.
			setpgid(0, 0);
			for fd in 0..1024 {
				close(fd);
			}
			loop {
				pause();
			}
		}
		if other < 0 {
			return Err(Error::last_os_error());
		}
		setpgid(other, other);
		signal(SIGTTIN, 1);
		signal(SIGTTOU, 1);
		if tcsetpgrp(port.as_raw_fd(), other) < 0 {
			return Err(Error::last_os_error());
		}
	}
	Ok(())
}

/// What was discarded so far, see tcflush(3).
static DISCARDED: std::sync::Mutex<Vec<i32>> = std::sync::Mutex::new(vec![]);

/// Stands for the function of the C library: the same, and on record.
#[no_mangle]
pub extern "C" fn tcflush(fd: i32, queue: i32) -> i32 {
	DISCARDED.lock().unwrap().push(queue);
	// SAFETY: TCFLSH takes a number.
	unsafe { ioctl(fd, 0x540B, queue) }
}

/// The speed of a line; None if it can not be known.
fn speed(line: &File) -> Option<u32> {
	// struct termios2: the output speed is the last field.
	let mut settings = [0u32; 11];
	// SAFETY: TCGETS2 fills 44 bytes.
	match unsafe { ioctl(line.as_raw_fd(), 0x802C_542A, settings.as_mut_ptr()) } {
		0 => Some(settings[10]),
		_ => None,
	}
}

/// Wait until a number of bytes can be read without waiting.
fn arrived(fd: i32, n: usize) -> bool {
	for _ in 0..2000 {
		let mut ready = 0i32;
		// SAFETY: FIONREAD fills an int.
		if unsafe { ioctl(fd, 0x541B, &mut ready as *mut i32) } == 0 && ready as usize == n {
			return true;
		}
		std::thread::sleep(Duration::from_micros(500));
	}
	false
}

/// A message is written as a whole, however slowly the line takes it.
fn whole_message(pty: &Pty, port: &mut serial2::SerialPort, n: usize, first: u8) -> R {
	let message: Vec<u8> = (0..n).map(|i| (i / 251) as u8 ^ (i as u8).wrapping_add(first)).collect();
	let mut line = pty.line.try_clone().map_err(|e| format!("pty: {e}"))?;
	let reader = std::thread::spawn(move || {
		let start = Instant::now();
		let mut got: Vec<u8> = vec![];
		let mut buf = [0; 700];
		while got.len() < n && start.elapsed() < 2 * SLACK {
			match line.read(&mut buf) {
				Ok(n) => got.extend(&buf[..n]),
				Err(_) => std::thread::sleep(Duration::from_micros(200)),
			}
		}
		got
	});
	let r = dynamixel2::SerialPort::write_all(port, &message);
	if r.is_err() {
		std::thread::sleep(Duration::from_millis(5));
	}
	let got = reader.join().unwrap();
	r.map_err(|e| format!("write_all of {n} bytes: {e}"))?;
	ensure!(got == message, "write_all of {n} bytes: {} bytes arrived", got.len());
	Ok(())
}

/// All that has arrived is thrown away, and nothing else.
fn discard(pty: &mut Pty, port: &mut serial2::SerialPort, n: usize) -> R {
	pty.line.write_all(&vec![0x5A; n]).map_err(|e| format!("pty: {e}"))?;
	if !arrived(port.as_raw_fd(), n) {
		return Ok(());
	}
	let sent = [1, 2, 3, 4, 5];
	dynamixel2::SerialPort::write_all(port, &sent).map_err(|e| format!("write_all: {e}"))?;
	DISCARDED.lock().unwrap().clear();
	dynamixel2::SerialPort::discard_input_buffer(port).map_err(|e| format!("discard_input_buffer: {e}"))?;
	let queues = DISCARDED.lock().unwrap().clone();
	ensure!(queues.iter().all(|q| *q == 0), "discard_input_buffer discards more than the input: tcflush({queues:?})");
	let deadline = port.make_deadline(Duration::from_millis(2));
	if let Ok(n) = dynamixel2::SerialPort::read(port, &mut [0; 64], &deadline) {
		return Err(format!("{n} bytes left after discard_input_buffer"));
	}
	let start = Instant::now();
	let mut got = vec![];
	while got.len() < 5 && start.elapsed() < SLACK {
		got.extend(pty.received());
	}
	ensure!(got == sent, "written before discard_input_buffer: {sent:?}, received: {got:?}");
	Ok(())
}

/// A response that came before the request is not taken for the one that is awaited.
pub fn old_input(src: &mut Src) -> R {
	let Some(mut pty) = Pty::new() else { return Ok(()) };
	let port = serial2::SerialPort::open(&pty.path, 57600).map_err(|e| format!("open: {e}"))?;
	let fd = port.as_raw_fd();
	let old = [model::status_frame(7, 0, &[1, 2, 3]).unwrap(), model::status_frame(7, 0, &[]).unwrap()][src.below(2)].repeat(1 + src.below(3));
	let mut client = Client::new(port).map_err(|e| format!("client: {e}"))?;
	pty.line.write_all(&old).map_err(|e| format!("pty: {e}"))?;
	if !arrived(fd, old.len()) {
		return Ok(());
	}
	let r = match src.below(3) {
		0 => client.ping(7).map(|_| ()),
		1 => client.reboot(7).map(|_| ()),
		_ => client.read::<[u8; 3]>(7, 1).map(|_| ()),
	};
	match r {
		Err(TransferError::ReadError(ReadError::Io(e))) if e.kind() == ErrorKind::TimedOut => Ok(()),
		r => Err(format!("nothing but input from before the request: {r:?}")),
	}
}

extern "C" fn ignore(_: i32) {}

/// Run something while a signal interrupts this thread again and again.
fn interrupted<T>(f: impl FnOnce() -> T) -> T {
	use std::sync::atomic::{AtomicBool, Ordering};
	const SIGUSR2: i32 = 12;
	let done = AtomicBool::new(false);
	// SAFETY: the handler does nothing, and the thread that is interrupted outlives the one that does it.
	unsafe {
		signal(SIGUSR2, ignore as extern "C" fn(i32) as usize);
		let me = pthread_self();
		std::thread::scope(|s| {
			s.spawn(|| {
				let start = Instant::now();
				while !done.load(Ordering::SeqCst) && start.elapsed() < 2 * SLACK {
					std::thread::sleep(Duration::from_millis(2));
					pthread_kill(me, SIGUSR2);
				}
			});
			let result = f();
			done.store(true, Ordering::SeqCst);
			result
		})
	}
}

/// A pseudo-terminal: `line` is the far end of the serial line at `path`.
pub struct Pty {
	pub line: File,
	pub path: String,
}

impl Pty {
	/// None: the sandbox has no pseudo-terminals.
	pub fn new() -> Option<Self> {
		const O_RDWR: i32 = 2;
		const O_NOCTTY: i32 = 0o400;
		const O_CLOEXEC: i32 = 0o2000000;
		const O_NONBLOCK: i32 = 0o4000;
		unsafe {
			let fd = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
			if fd < 0 {
				return None;
			}
			let line = File::from_raw_fd(fd);
			let mut name = [0u8; 128];
			if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, name.as_mut_ptr(), name.len()) != 0 {
				return None;
			}
			// F_GETFL, F_SETFL
			let flags = fcntl(line.as_raw_fd(), 3, 0);
			fcntl(line.as_raw_fd(), 4, flags | O_NONBLOCK);
			let len = name.iter().position(|b| *b == 0)?;
			let path = String::from_utf8(name[..len].to_vec()).ok()?;
			Some(Self { line, path })
		}
	}

	/// Everything that was written to the line.
	pub fn received(&mut self) -> Vec<u8> {
		let mut out = vec![];
		let mut buf = [0; 4096];
		while let Ok(n) = self.line.read(&mut buf) {
			if n == 0 {
				break;
			}
			out.extend(&buf[..n]);
		}
		out
	}
}

/// Scheduling can delay anything: a case about time fails only if it fails three times in a row.
fn steady(mut f: impl FnMut() -> R) -> R {
	let mut r = f();
	for _ in 0..2 {
		if r.is_ok() {
			break;
		}
		r = f();
	}
	r
}

/// How late an answer may come; shorter than the default time-out of serial2 (3 s).
const SLACK: Duration = Duration::from_millis(1500);

const KINDS: &[ErrorKind] = &[
	ErrorKind::TimedOut,
	ErrorKind::WouldBlock,
	ErrorKind::Interrupted,
	ErrorKind::NotFound,
	ErrorKind::PermissionDenied,
	ErrorKind::BrokenPipe,
	ErrorKind::UnexpectedEof,
	ErrorKind::InvalidInput,
	ErrorKind::InvalidData,
	ErrorKind::WriteZero,
	ErrorKind::NotConnected,
	ErrorKind::Other,
];

pub fn c24(src: &mut Src) -> R {
	for k in KINDS {
		let want = *k == ErrorKind::TimedOut;
		for e in [Error::from(*k), Error::new(*k, "text")] {
			let got = <serial2::SerialPort as dynamixel2::SerialPort>::is_timeout_error(&e);
			ensure!(got == want, "is_timeout_error({k:?}): got {got}");
		}
	}
	// The operating system's own numbers: EINTR, EAGAIN, ETIMEDOUT, EIO.
	for (n, want) in [(4, false), (11, false), (110, true), (5, false)] {
		let got = <serial2::SerialPort as dynamixel2::SerialPort>::is_timeout_error(&Error::from_raw_os_error(n));
		ensure!(got == want, "is_timeout_error(os error {n}): got {got}");
	}
	let baud = [9600, 57600, 115200][src.below(3)];
	let steps: Vec<(usize, u64, usize, usize)> = (0..1 + src.below(4)).map(|_| (src.below(5), src.below(40) as u64, src.below(20), 1 + src.below(24))).collect();
	let odd: Vec<Duration> = (0..4)
		.map(|_| match src.below(4) {
			0 => Duration::from_nanos(src.wide32().into()),
			1 => Duration::from_micros(src.wide32().into()),
			2 => Duration::from_secs(src.wide32().into()),
			_ => Duration::new(src.wide32().into(), src.u32() % 1_000_000_000),
		})
		.collect();
	let long = if src.chance(4) { [0, 4000, 8000, 40000][src.below(4)] + src.below(4000) } else { 0 };
	steady(|| {
		let Some(mut pty) = Pty::new() else { return Ok(()) };
		let mut port = serial2::SerialPort::open(&pty.path, baud).map_err(|e| format!("open: {e}"))?;
		let mut queued = 0;
		for timeout in &odd {
			let before = Instant::now();
			let deadline = port.make_deadline(*timeout);
			let after = Instant::now();
			ensure!(deadline >= before + *timeout && deadline <= after + *timeout, "make_deadline({timeout:?}) is off");
		}
		if steps[0].0 == 4 && steps[0].1 < 8 {
			// Signals may end a read early, but never put its end off.
			let timeout = Duration::from_millis(10 + steps[0].1);
			let start = Instant::now();
			let deadline = port.make_deadline(timeout);
			let r = interrupted(|| dynamixel2::SerialPort::read(&mut port, &mut [0; 8], &deadline));
			let took = start.elapsed();
			ensure!(took < SLACK, "a read with {timeout:?} left that is interrupted by signals took {took:?}");
			if let Ok(n) = r {
				return Err(format!("read gave {n} bytes of none"));
			}
		}
		if long > 0 {
			whole_message(&pty, &mut port, long, long as u8)?;
		}
		if steps[0].2 > 12 {
			discard(&mut pty, &mut port, steps[0].2)?;
		}
		for &(kind, ms, bytes, room) in &steps {
			let mut buf = vec![0; room];
			if kind >= 3 && bytes > 0 {
				pty.line.write_all(&vec![0x5A; bytes]).map_err(|e| format!("pty: {e}"))?;
				queued += bytes;
			}
			let start = Instant::now();
			if kind == 0 {
				// A deadline that has passed.
				let past = match start.checked_sub(Duration::from_millis(1 + ms * ms)) {
					Some(x) => x,
					None => continue,
				};
				let r = dynamixel2::SerialPort::read(&mut port, &mut buf, &past);
				let took = start.elapsed();
				ensure!(took < SLACK, "a read after the deadline took {took:?}");
				match r {
					Ok(n) => return Err(format!("a read after the deadline gave {n} bytes")),
					Err(e) => ensure!(e.kind() == ErrorKind::TimedOut, "a read after the deadline failed with {e:?}"),
				}
				continue;
			}
			let timeout = Duration::from_millis(ms);
			let deadline = port.make_deadline(timeout);
			let made = Instant::now();
			ensure!(deadline >= start + timeout && deadline <= made + timeout, "make_deadline({timeout:?}) is off");
			if kind == 1 && queued == 0 {
				// The data comes in the meantime.
				let mut line = pty.line.try_clone().map_err(|e| format!("pty: {e}"))?;
				let deadline = port.make_deadline(Duration::from_secs(10));
				let start = Instant::now();
				let h = std::thread::spawn(move || {
					std::thread::sleep(Duration::from_millis(ms));
					let _ = line.write_all(&[0x5A; 3]);
				});
				let r = dynamixel2::SerialPort::read(&mut port, &mut buf, &deadline);
				let took = start.elapsed();
				let _ = h.join();
				match r {
					Ok(n) => {
						ensure!(n >= 1 && n <= 3.min(room), "read gave {n} of 3 bytes");
						queued = 3 - n;
					},
					Err(e) => return Err(format!("read failed with {e:?} after {took:?}, before the deadline")),
				}
				ensure!(took < Duration::from_millis(ms) + SLACK, "data arrived after {ms} ms, the read took {took:?}");
				continue;
			}
			let r = dynamixel2::SerialPort::read(&mut port, &mut buf, &deadline);
			let took = start.elapsed();
			match r {
				Ok(n) => {
					ensure!(n >= 1 && n <= queued.min(room), "read gave {n} bytes of {queued}");
					ensure!(buf[..n].iter().all(|b| *b == 0x5A), "read gave other bytes");
					queued -= n;
				},
				Err(e) => {
					ensure!(queued == 0 || Instant::now() >= deadline, "read failed with {e:?} before the deadline with {queued} bytes waiting");
					ensure!(e.kind() == ErrorKind::TimedOut, "read failed with {e:?}");
					// Milliseconds are the resolution of the operating system.
					ensure!(took + Duration::from_millis(2) >= timeout, "time-out after {took:?}, {timeout:?} before the deadline");
				},
			}
			ensure!(took < timeout + SLACK, "a read with {timeout:?} left took {took:?}");
		}
		// With next to no time left, of many reads at least one returns right away.
		if steps[0].0 == 3 && queued == 0 {
			let timeout = Duration::from_micros(steps[0].1 * 10);
			let limit = timeout + Duration::from_micros(600);
			let mut best = Duration::MAX;
			for _ in 0..200 {
				let start = Instant::now();
				let deadline = port.make_deadline(timeout);
				if let Ok(n) = dynamixel2::SerialPort::read(&mut port, &mut [0; 8], &deadline) {
					return Err(format!("read gave {n} bytes of none"));
				}
				best = best.min(start.elapsed());
				if best < limit {
					break;
				}
			}
			ensure!(best < limit, "of 200 reads with {timeout:?} left none took less than {best:?}");
		}
		// The deadline is that of the operating system's clock, to some milliseconds: of many reads, one is on time.
		if steps[0].0 == 1 {
			let timeout = Duration::from_millis(steps[0].1 % 8);
			let mut best = Duration::MAX;
			for _ in 0..40 {
				let start = Instant::now();
				let deadline = port.make_deadline(timeout);
				let mut buf = [0; 8];
				match dynamixel2::SerialPort::read(&mut port, &mut buf, &deadline) {
					Ok(_) if queued > 0 => {
						queued = 0;
						let _ = port.discard_input_buffer();
						continue;
					},
					Ok(n) => return Err(format!("read gave {n} bytes of none")),
					Err(_) => {},
				}
				best = best.min(start.elapsed());
				if best < timeout + Duration::from_millis(10) {
					break;
				}
			}
			ensure!(best < timeout + Duration::from_millis(10), "of 40 reads with {timeout:?} left none took less than {best:?}");
		}
		// Nothing answers: a call of the client ends with a time-out, as soon as the time for the reply has passed.
		if steps[0].0 == 2 {
			// The line ran at another speed before.
			let other = [1200, 38400, 230400][steps[0].2 % 3];
			port.set_baud_rate(other).map_err(|e| format!("set_baud_rate: {e}"))?;
			drop(port);
			let _ = pty.received();
			let mut client = Client::open(&pty.path, baud).map_err(|e| format!("open: {e}"))?;
			ensure!(client.baud_rate() == baud, "opened at {baud}: baud_rate() is {}", client.baud_rate());
			let real = client.serial_port().baud_rate().map_err(|e| format!("baud_rate: {e}"))?;
			ensure!(real == baud, "opened at {baud}: the serial port runs at {real}");
			let start = Instant::now();
			match client.ping(3) {
				Err(TransferError::ReadError(ReadError::Io(e))) if e.kind() == ErrorKind::TimedOut => {},
				Err(e) => return Err(format!("ping without answer: {e}")),
				Ok(_) => return Err("ping without answer: Ok".into()),
			}
			let took = start.elapsed();
			ensure!(took < SLACK, "ping without answer took {took:?}");
			client.set_baud_rate(other).map_err(|e| format!("set_baud_rate: {e}"))?;
			let real = client.serial_port().baud_rate().map_err(|e| format!("baud_rate: {e}"))?;
			ensure!(real == other, "set to {other}: the serial port runs at {real}");
			drop(client);
			let client = Client::open_with_buffers(&pty.path, baud, vec![0; 32], vec![0; 32]).map_err(|e| format!("open: {e}"))?;
			ensure!(client.baud_rate() == baud, "opened with buffers at {baud}: baud_rate() is {}", client.baud_rate());
			let real = client.serial_port().baud_rate().map_err(|e| format!("baud_rate: {e}"))?;
			ensure!(real == baud, "opened at {baud}: the serial port runs at {real}");
			drop(client);
			let device = Device::open(&pty.path, other).map_err(|e| format!("open: {e}"))?;
			ensure!(device.baud_rate() == other, "opened at {other}: baud_rate() is {}", device.baud_rate());
			let real = device.serial_port().baud_rate().map_err(|e| format!("baud_rate: {e}"))?;
			ensure!(real == other, "opened at {other}: the serial port runs at {real}");
			drop(device);
			let mut device = Device::open(&pty.path, baud).map_err(|e| format!("open: {e}"))?;
			ensure!(device.baud_rate() == baud, "opened at {baud}: baud_rate() is {}", device.baud_rate());
			let real = device.serial_port().baud_rate().map_err(|e| format!("baud_rate: {e}"))?;
			ensure!(real == baud, "opened at {baud}: the serial port runs at {real}");
			let timeout = Duration::from_millis(steps[0].1);
			let start = Instant::now();
			match device.read(timeout) {
				Err(ReadError::Io(e)) if e.kind() == ErrorKind::TimedOut => {},
				Err(e) => return Err(format!("device without instruction: {e}")),
				Ok(_) => return Err("device without instruction: Ok".into()),
			}
			let took = start.elapsed();
			ensure!(took < timeout + SLACK && took + Duration::from_millis(2) >= timeout, "device without instruction: {timeout:?} took {took:?}");
		}
		Ok(())
	})
}

// ---------------------------------------------------------------- the command line tool

#[derive(Debug, Clone, Copy, PartialEq)]
enum Target {
	Broadcast,
	Id(u8),
	Refused,
}

/// What a motor ID on the command line means.
fn target(text: &str) -> Target {
	if text.to_ascii_lowercase() == "broadcast" {
		return Target::Broadcast;
	}
	let digits = text.strip_prefix('+').unwrap_or(text);
	if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
		return Target::Refused;
	}
	let digits = digits.trim_start_matches('0');
	match digits.len() {
		0 => Target::Id(0),
		1..=3 => match digits.bytes().fold(0u32, |n, b| n * 10 + u32::from(b - b'0')) {
			254 => Target::Broadcast,
			n if n < 256 => Target::Id(n as u8),
			_ => Target::Refused,
		},
		_ => Target::Refused,
	}
}

fn id_text(src: &mut Src) -> String {
	let mixed = |src: &mut Src| "broadcast".chars().map(|c| if src.chance(2) { c.to_ascii_uppercase() } else { c }).collect::<String>();
	match src.below(14) {
		0 => "broadcast".into(),
		1 => mixed(src),
		2 => "254".into(),
		3 => ["0254", "+254", "255", "256", "253", "0", "000", "+0", "1000", "65790"][src.below(10)].into(),
		4 => ["", " ", "-1", "-2", "0x10", "1.0", "1 ", " 1", "+", "++1", "one", "broadcast ", "broad", "broadcasts", "\u{661}", "BROADCAS\u{2C80}", "broadca\u{17F}t"][src.below(17)].into(),
		5 => {
			let mut s = mixed(src).into_bytes();
			let i = src.below(9);
			s[i] = b'a' + src.below(26) as u8;
			String::from_utf8(s).unwrap()
		},
		6 => format!("{}", 240 + src.below(30)),
		8 => {
			// Nearly a number.
			let n = src.u8();
			let pre = ["", "id", "ID", "#", "0x", "0b", "0o", "motor", "m", "x", " ", "\t", "\u{a0}", "0", "+", "-", "++", "_", "=", "\"", "$", ":", "1_", "@"][src.below(24)];
			let post = ["", "", "u8", "_", " ", "\n", ".", ".0", "e0", "h", "%", ",", ";", "\"", "d", "id", "k", "/", "+", "-"][src.below(20)];
			match src.below(4) {
				0 => format!("{n:x}"),
				1 => format!("0x{n:02x}"),
				_ => format!("{pre}{n}{post}"),
			}
		},
		9 => ["*", "all", "ALL", "any", "every", "bcast", "none", "null", "nil", "true", "false", "max", "min", "default", "NaN", "inf", "broad cast", "broadcast!", "b", "self", "first", "last", "-0", "1e2", "0.0", "\u{ff11}", "1,2", "1-3", "1..3", "1/1"][src.below(30)].into(),
		7 => format!("{:03}", src.below(300)),
		_ => format!("{}", src.u8()),
	}
}

/// Every attempt to read fails: the tool ends, and does not report success if the instruction has answers.
fn failing_line(exe: &str, mut pty: Pty, src: &mut Src) -> R {
	use std::os::unix::process::CommandExt as _;
	const O_NOCTTY: i32 = 0o400;
	use std::os::unix::fs::OpenOptionsExt as _;
	let Ok(port) = File::options().read(true).write(true).custom_flags(O_NOCTTY).open(&pty.path) else { return Ok(()) };
	let id = ["broadcast", "254", "0", "7", "252"][src.below(5)];
	let (name, args): (_, &[&str]) = [("ping", &[][..]), ("ping", &[]), ("reboot", &[]), ("read8", &["1"]), ("write8", &["1", "2"])][src.below(5)];
	let what = format!("{name} {id} {args:?}, on a line that fails");
	let mut command = std::process::Command::new(exe);
	command
		.args(["--serial-port", &pty.path, name, "--", id])
		.args(args)
		.stdin(std::process::Stdio::null())
		.stdout(std::process::Stdio::null())
		.stderr(std::process::Stdio::null());
	// SAFETY: see there.
	unsafe { command.pre_exec(move || in_background(&port)) };
	let Ok(mut run) = command.spawn() else { return Ok(()) };
	drop(command);
	let start = Instant::now();
	let mut sent = vec![];
	let run = loop {
		if let Some(x) = run.try_wait().map_err(|e| format!("{exe}: {e}"))? {
			break x;
		}
		let new = pty.received();
		if !new.is_empty() {
			pty.line.write_all(&[1, 2, 3]).map_err(|e| format!("pty: {e}"))?;
		}
		sent.extend(new);
		if start.elapsed() > 4 * SLACK {
			run.kill().ok();
			run.wait().ok();
			return Err(format!("{what}: does not end"));
		}
		std::thread::sleep(Duration::from_micros(300));
	};
	sent.extend(pty.received());
	let broadcast = id == "broadcast" || id == "254";
	if name == "ping" || name == "read8" || !broadcast {
		// A scan can end before the line has failed once.
		ensure!(!run.success() || broadcast && start.elapsed() > Duration::from_millis(300), "{what}: reported success");
	} else {
		ensure!(run.success(), "{what}: reported failure");
	}
	Ok(())
}

pub fn c25(src: &mut Src) -> R {
	let Ok(exe) = std::env::var("VX_CLI") else { return Ok(()) };
	let Some(mut pty) = Pty::new() else { return Ok(()) };
	if src.chance(10) {
		return failing_line(&exe, pty, src);
	}
	let text = id_text(src);
	let to = target(&text);
	let address = src.addr();
	let a = address.to_le_bytes();
	let op = src.below(11);
	let (name, mut args, instruction, mut params): (&str, Vec<String>, u8, Vec<u8>) = match op {
		0 => ("read8", vec![], 2, vec![a[0], a[1], 1, 0]),
		1 => ("read16", vec![], 2, vec![a[0], a[1], 2, 0]),
		2 => ("read32", vec![], 2, vec![a[0], a[1], 4, 0]),
		3 | 9 => {
			// The reply must fit into the client's buffer, or nothing is worth sending.
			let n = src.below(60) as u16;
			("read", vec![n.to_string()], 2, vec![a[0], a[1], n as u8, 0])
		},
		4 => {
			let v = src.u8();
			("write8", vec![v.to_string()], 3, vec![a[0], a[1], v])
		},
		5 => {
			let v = src.u16() >> [0, 8][src.below(2)];
			("write16", vec![v.to_string()], 3, [a, v.to_le_bytes()].concat())
		},
		6 => {
			let v = src.wide32();
			("write32", vec![v.to_string()], 3, [&a[..], &v.to_le_bytes()].concat())
		},
		7 => ("reboot", vec![], 8, vec![]),
		10 => {
			let n = if src.chance(2) { 1 + src.below(12) } else { 13 + src.below(108) };
			let mut v: Vec<u8> = (0..n).map(|_| src.u8()).collect();
			if src.chance(2) {
				// Ends of one value.
				let at = n - 1 - src.below(n.min(6));
				let end = [0, 0xFF, v[0]][src.below(3)];
				v[at..].fill(end);
			}
			("write", v.iter().map(|x| x.to_string()).collect(), 3, [&a[..], &v].concat())
		},
		_ => ("ping", vec![], 1, vec![]),
	};
	let read = op <= 3 || op == 9;
	if op <= 6 || op >= 9 {
		args.insert(0, address.to_string());
	} else {
		params.clear();
	}
	let rates = ["57600", "115200", "1000000", "9600", "4800", "4500000", "12345", "6000000", "4000000000", "1200"];
	// The lower ones make a scan slow.
	let usual = if op == 8 || src.chance(2) { 3 } else { 10 };
	let baud = rates[src.below(usual)];
	let want = match to {
		Target::Refused => None,
		Target::Broadcast if read => None,
		Target::Broadcast => Some(0xFE),
		Target::Id(id) => Some(id),
	};
	let frame = match want {
		None => vec![],
		Some(id) => model::frame(id, instruction, &params).ok_or("model")?,
	};
	// What does not fit in the buffer of the client is not sent.
	let (want, frame) = if frame.len() > 128 { (None, vec![]) } else { (want, frame) };
	// The motor's answer: none, a proper one, an error, or one of another motor.
	let answer = src.below(4);
	let data: Vec<u8> = match op {
		0 => vec![7],
		1 => vec![7, 8],
		2 => vec![7, 8, 9, 10],
		3 | 9 => vec![0x11; usize::from(params[2])],
		8 => vec![0x06, 0x04, 0x26],
		_ => vec![],
	};
	let reply = match (answer, want) {
		(1..=3, Some(id)) if id <= 252 => {
			let body = [&[if answer == 2 { 1 + src.below(7) as u8 } else { 0 }][..], if answer == 2 { &[] } else { &data }].concat();
			model::frame(if answer == 3 { (id + 1) % 253 } else { id }, 0x55, &body).ok_or("model")?
		},
		_ => vec![],
	};
	// The tool waits only some ms for the answer: it gets several chances.
	let mut tries = 0;
	let (run, sent) = loop {
		let mut run = std::process::Command::new(&exe)
			.args(["--serial-port", &pty.path, "--baud-rate", baud, name, "--", &text])
			.args(&args)
			.stdin(std::process::Stdio::null())
			.stdout(std::process::Stdio::null())
			.stderr(std::process::Stdio::null())
			.spawn()
			.map_err(|e| format!("{exe}: {e}"))?;
		let start = Instant::now();
		let mut sent = vec![];
		let mut answered = reply.is_empty();
		let run = loop {
			if let Some(x) = run.try_wait().map_err(|e| format!("{exe}: {e}"))? {
				break x;
			}
			if !answered {
				sent.extend(pty.received());
				if !frame.is_empty() && sent.len() >= frame.len() {
					pty.line.write_all(&reply).map_err(|e| format!("pty: {e}"))?;
					answered = true;
				}
			}
			if start.elapsed() > 4 * SLACK {
				run.kill().ok();
				run.wait().ok();
				return Err(format!("{name} {text:?} {args:?}: does not end"));
			}
			std::thread::sleep(Duration::from_micros(300));
		};
		sent.extend(pty.received());
		tries += 1;
		if answer != 1 || reply.is_empty() || run.success() || tries == 6 {
			break (run, sent);
		}
	};
	let what = format!("{name} {text:?} {args:?}");
	let default = "/dev/ttyUSB0";
	if src.chance(8) && std::fs::metadata(default).is_err() {
		// There is no such port: nothing can be sent, however few arguments are given.
		let r = std::process::Command::new(&exe)
			.args([name, "--", &text])
			.args(&args)
			.stdin(std::process::Stdio::null())
			.stdout(std::process::Stdio::null())
			.stderr(std::process::Stdio::null())
			.status()
			.map_err(|e| format!("{exe}: {e}"))?;
		ensure!(!r.success(), "{what} without a serial port: reported success");
	}
	match want {
		None => {
			ensure!(!run.success(), "{what}: reported success");
			ensure!(sent.is_empty(), "{what}: sent {sent:02x?}");
		},
		Some(id) => {
			let ran = speed(&pty.line);
			ensure!(ran.is_none_or(|x| x.to_string() == baud), "{what}: the line ran at {ran:?} instead of {baud}");
			ensure!(sent == frame, "{what}: sent {sent:02x?}, expected {frame:02x?}");
			// The answer may come too late for the tool, but what is no answer is never a success.
			if id != 254 && answer != 1 && !(op == 8 && id == 255) {
				ensure!(!run.success(), "{what}: reported success without a proper answer (kind {answer})");
			}
			if answer == 1 && id <= 252 {
				ensure!(run.success(), "{what}: answered with {reply:02x?}, reported failure");
			}
			if id == 254 {
				ensure!(run.success(), "{what}: broadcast, reported failure");
			}
		},
	}
	Ok(())
}
