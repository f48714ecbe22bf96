//! The code under test may end the whole process: a second panic while unwinding, or memory that is not its own.
//! The signal handler records the case that was running, without allocating.
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering};

extern "C" {
	fn signal(signum: c_int, handler: usize) -> usize;
	fn open(path: *const c_char, flags: c_int, ...) -> c_int;
	fn write(fd: c_int, data: *const c_void, len: usize) -> isize;
	fn _exit(status: c_int) -> !;
}

thread_local! {
	/// The seed of the case that runs on this thread.
	static CASE: Cell<u64> = const { Cell::new(0) };
}
static LAST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static PATH: AtomicPtr<c_char> = AtomicPtr::new(std::ptr::null_mut());
static HEAD: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static HEAD_LEN: AtomicUsize = AtomicUsize::new(0);
static RECORDED: AtomicBool = AtomicBool::new(false);

pub fn case(seed: u64) {
	CASE.with(|c| c.set(seed));
	LAST.store(seed, Ordering::Relaxed);
}

/// A replay file is there already: a crash while it is made smaller changes nothing.
pub fn recorded() {
	RECORDED.store(true, Ordering::SeqCst);
}

pub fn install(property: &str, out: &str) {
	let head: &'static mut [u8] = format!("property={property}\nkind=concrete\nseed=").into_bytes().leak();
	HEAD_LEN.store(head.len(), Ordering::SeqCst);
	HEAD.store(head.as_mut_ptr(), Ordering::SeqCst);
	if !out.is_empty() {
		PATH.store(CString::new(out).expect("path").into_raw(), Ordering::SeqCst);
	}
	// SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
	for s in [4, 6, 7, 8, 11] {
		unsafe { signal(s, handler as extern "C" fn(c_int) as usize) };
	}
}

extern "C" fn handler(_: c_int) {
	let mut seed = CASE.try_with(|c| c.get()).unwrap_or(0);
	if seed == 0 {
		// A thread of the case itself.
		seed = LAST.load(Ordering::Relaxed);
	}
	let mut digits = [0u8; 20];
	let mut at = digits.len();
	loop {
		at -= 1;
		digits[at] = b'0' + (seed % 10) as u8;
		seed /= 10;
		if seed == 0 {
			break;
		}
	}
	const TAIL: &[u8] = b"\nmessage=the process crashed\n";
	let put = |fd: c_int, data: &[u8]| unsafe {
		write(fd, data.as_ptr() as *const c_void, data.len());
	};
	if !RECORDED.swap(true, Ordering::SeqCst) {
		let path = PATH.load(Ordering::SeqCst);
		if !path.is_null() {
			// O_WRONLY | O_CREAT | O_TRUNC
			let fd = unsafe { open(path, 0o1101, 0o644) };
			if fd >= 0 {
				put(fd, unsafe { std::slice::from_raw_parts(HEAD.load(Ordering::SeqCst), HEAD_LEN.load(Ordering::SeqCst)) });
				put(fd, &digits[at..]);
				put(fd, TAIL);
			}
		}
	}
	put(1, b"FAIL message=the process crashed seed=");
	put(1, &digits[at..]);
	put(1, b"\n");
	unsafe { _exit(1) }
}
