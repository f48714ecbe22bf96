//! Static buffers: each occurrence of the macro is evaluated by several threads at the same time.
use crate::src::Src;
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

type R = Result<(), String>;
type Make = fn() -> &'static mut [u8];

macro_rules! ensure {
	($cond:expr, $($fmt:tt)*) => { if !$cond { return Err(format!($($fmt)*)); } }
}

macro_rules! pool {
	($($n:literal)*) => { &[ $( { fn f() -> &'static mut [u8] { dynamixel2::static_buffer!($n) } ($n, f as Make) } ),* ] };
}

macro_rules! pools {
	($($x:ident)*) => { &[ $( { const $x: &[(usize, Make)] = pool!(0 1 2 3 7 10 13 16 31 32 33 63 64 65 100 127 128 129 200 255 256 257 300 500 512 1000 1024 11 12 14 15 90); $x } ),* ] };
}

/// Each element is an occurrence of its own.
const POOL: &[&[(usize, Make)]] = pools!(
	A00 A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A30 A31
	B00 B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 B12 B13 B14 B15 B16 B17 B18 B19 B20 B21 B22 B23 B24 B25 B26 B27 B28 B29 B30 B31
);

static NEXT: AtomicUsize = AtomicUsize::new(0);
static GIVEN: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// What one evaluation gave: address, length, whether it was zero-filled; None: it panicked.
fn evaluate(f: Make) -> Option<(usize, usize, bool)> {
	let buffer = catch_unwind(f).ok()?;
	let zero = buffer.iter().all(|b| *b == 0);
	let got = (buffer.as_ptr() as usize, buffer.len(), zero);
	buffer.fill(0xA5);
	Some(got)
}

/// One case at a time: the threads of a case should run at the same time.
static TURN: Mutex<()> = Mutex::new(());

pub fn c23(src: &mut Src) -> R {
	let _turn = TURN.lock().map_err(|_| "poisoned")?;
	for _ in 0..1 + src.below(4) {
		let threads = 1 + src.below(8);
		// Often enough for a counter of 8 or 16 bits to come around.
		let later = match src.below(100) {
			0 => 70_000,
			1..=10 => 300,
			n => n % 3,
		};
		let next = NEXT.fetch_add(1, Ordering::Relaxed);
		let Some(&(size, f)) = POOL.iter().flat_map(|p| p.iter()).nth(next) else {
			// All occurrences of this program are used up.
			drop(_turn);
			std::thread::sleep(std::time::Duration::from_millis(20));
			return Ok(());
		};
		let ready = AtomicUsize::new(0);
		let mut all: Vec<Option<(usize, usize, bool)>> = std::thread::scope(|scope| {
			let handles: Vec<_> = (0..threads)
				.map(|_| {
					scope.spawn(|| {
						ready.fetch_add(1, Ordering::SeqCst);
						let mut spins = 0;
						while ready.load(Ordering::SeqCst) < threads {
							spins += 1;
							if spins % 1000 == 0 {
								std::thread::yield_now();
							}
							std::hint::spin_loop();
						}
						evaluate(f)
					})
				})
				.collect();
			handles.into_iter().map(|h| h.join().unwrap_or(None)).collect()
		});
		for _ in 0..later {
			all.push(evaluate(f));
		}
		let given: Vec<_> = all.iter().flatten().collect();
		ensure!(given.len() == 1, "static_buffer!({size}) evaluated by {threads} threads and {later} times after that: handed out {} times", given.len());
		ensure!(all[threads..].iter().all(|x| x.is_none()), "static_buffer!({size}): a later evaluation got the buffer");
		let &(at, len, zero) = given[0];
		ensure!(len == size, "static_buffer!({size}): {len} bytes");
		ensure!(zero, "static_buffer!({size}): not zero-filled");
		let mut old = GIVEN.lock().map_err(|_| "poisoned")?;
		for &(a, n) in old.iter() {
			ensure!(len == 0 || n == 0 || at + len <= a || a + n <= at, "static_buffer!({size}): shares memory with another one");
		}
		old.push((at, len));
	}
	Ok(())
}
