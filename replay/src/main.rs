//! Executes the properties on the real crate with concrete inputs.
//!
//! `replay search <property> <seed> <seconds> <out-file>`: look for a failing input; exit 1 and write a replay file if found.
//! `replay run <replay-file>`: run one recorded input again; exit 1 if it (still) fails.
//! `replay assumed <seed> <n>`: compare the assumed contracts of the standard library with the real functions.
//! `replay cases <property> <seed> <n>`: run exactly n cases.
mod assumed;
mod checks;
mod crash;
mod model;
mod os;
mod port;
mod src;
mod statics;

use src::Src;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

type Check = fn(&mut Src) -> Result<(), String>;

fn lookup(id: &str) -> Check {
	match checks::CHECKS.iter().find(|x| x.0 == id) {
		Some(x) => x.1,
		None => {
			eprintln!("unknown property {id}");
			std::process::exit(2)
		},
	}
}

fn run_case(check: Check, src: &mut Src) -> Result<(), String> {
	match catch_unwind(AssertUnwindSafe(|| check(src))) {
		Ok(r) => r,
		Err(p) => {
			let msg = p
				.downcast_ref::<String>()
				.cloned()
				.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
				.unwrap_or_else(|| "?".into());
			Err(format!("panicked: {msg}"))
		},
	}
}

/// Make a failing input smaller: drop blocks, then zero bytes.
fn shrink(check: Check, mut data: Vec<u8>, mut msg: String) -> (Vec<u8>, String) {
	let end = Instant::now() + Duration::from_secs(5);
	let attempt = |candidate: &Vec<u8>, msg: &mut String| -> bool {
		let mut src = Src::replay(candidate.clone());
		match run_case(check, &mut src) {
			Err(m) => {
				*msg = m;
				true
			},
			Ok(()) => false,
		}
	};
	let mut progress = true;
	while progress && Instant::now() < end {
		progress = false;
		let mut size = data.len().next_power_of_two();
		while size >= 1 && Instant::now() < end {
			let mut at = 0;
			while at < data.len() && Instant::now() < end {
				let mut c = data.clone();
				c.drain(at..(at + size).min(data.len()));
				if attempt(&c, &mut msg) {
					data = c;
					progress = true;
				} else {
					at += size;
				}
			}
			size /= 2;
		}
		for i in 0..data.len() {
			if data[i] != 0 && Instant::now() < end {
				let mut c = data.clone();
				c[i] = 0;
				if attempt(&c, &mut msg) {
					data = c;
					progress = true;
				}
			}
		}
	}
	(data, msg)
}

fn hex(data: &[u8]) -> String {
	data.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let args: Vec<String> = std::env::args().skip(1).collect();
	let arg = |i: usize| args.get(i).map(|x| x.as_str()).unwrap_or("");
	match arg(0) {
		"list" => {
			for c in checks::CHECKS {
				println!("{}", c.0);
			}
		},
		"search" | "cases" => {
			let id = arg(1);
			let check = lookup(id);
			let seed: u64 = arg(2).parse().unwrap_or(1);
			let limit: f64 = arg(3).parse().unwrap_or(1.0);
			let (max_cases, max_time) = if arg(0) == "cases" { (limit as u64, 1e9) } else { (u64::MAX, limit) };
			let threads = if arg(0) == "cases" { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).min(8) as u64 };
			crash::install(id, arg(4));
			let start = Instant::now();
			let found = std::sync::Mutex::new(None::<(Vec<u8>, String)>);
			let total = std::sync::atomic::AtomicU64::new(0);
			let nontrivial = std::sync::atomic::AtomicU64::new(0);
			let sample = std::sync::Mutex::new(String::new());
			let beat: Vec<std::sync::atomic::AtomicU64> = (0..threads).map(|_| 0.into()).collect();
			let current: Vec<std::sync::Mutex<u64>> = (0..threads).map(|_| std::sync::Mutex::new(0)).collect();
			let done = std::sync::atomic::AtomicUsize::new(0);
			use std::sync::atomic::Ordering::Relaxed;
			std::thread::scope(|scope| {
				for t in 0..threads {
					let (found, total, nontrivial, sample, beat, current, done) = (&found, &total, &nontrivial, &sample, &beat, &current, &done);
					scope.spawn(move || {
						let mut n = 0u64;
						while n < max_cases && start.elapsed().as_secs_f64() < max_time {
							if n % 16 == 0 && found.lock().unwrap().is_some() {
								break;
							}
							let case_seed = seed.wrapping_mul(1_000_003).wrapping_add(n * threads + t);
							*current[t as usize].lock().unwrap() = case_seed;
							beat[t as usize].store(n + 1, Relaxed);
							crash::case(case_seed);
							let mut src = Src::random(case_seed);
							let r = run_case(check, &mut src);
							n += 1;
							if src.pos > 8 {
								nontrivial.fetch_add(1, Relaxed);
							}
							if n == 2 && t == 0 {
								*sample.lock().unwrap() = hex(&src.data[..src.data.len().min(64)]);
							}
							if let Err(msg) = r {
								*found.lock().unwrap() = Some((src.data, msg));
								break;
							}
						}
						total.fetch_add(n, Relaxed);
						done.fetch_add(1, Relaxed);
					});
				}
				// A case that never ends is a failure too.
				let (beat, current, done) = (&beat, &current, &done);
				scope.spawn(move || {
					let mut last = vec![0u64; threads as usize];
					let mut since = vec![Instant::now(); threads as usize];
					while done.load(Relaxed) < threads as usize {
						std::thread::sleep(Duration::from_millis(20));
						for t in 0..threads as usize {
							let b = beat[t].load(Relaxed);
							if b != last[t] {
								last[t] = b;
								since[t] = Instant::now();
							} else if since[t].elapsed() > Duration::from_secs(20) && done.load(Relaxed) < threads as usize && b > 0 {
								let out = arg(4);
								if !out.is_empty() {
									let _ = std::fs::write(out, format!("property={id}\nkind=concrete\nseed={}\nmessage=no progress for 20 s\n", *current[t].lock().unwrap()));
								}
								println!("FAIL message=no progress for 20 s seed={}", *current[t].lock().unwrap());
								std::process::exit(1);
							}
						}
					}
				});
			});
			let evaluations = total.load(Relaxed);
			let failing = found.lock().unwrap().take();
			println!("evaluations={evaluations} nontrivial={} sample={}", nontrivial.load(Relaxed), sample.lock().unwrap());
			if let Some((data, msg)) = failing {
				let out = arg(4);
				let record = |data: &[u8], msg: &str| {
					if !out.is_empty() {
						let mut f = std::fs::File::create(out).expect("replay file");
						writeln!(f, "property={id}\nkind=concrete\nchoices={}\nmessage={}", hex(data), msg.replace('\n', " ")).unwrap();
					}
				};
				record(&data, &msg);
				crash::recorded();
				let (data, msg) = shrink(check, data, msg);
				record(&data, &msg);
				println!("FAIL message={}", msg.replace('\n', " "));
				std::process::exit(1);
			}
		},
		"assumed" => match assumed::run(arg(1).parse().unwrap_or(1), arg(2).parse().unwrap_or(1000)) {
			Ok(n) => println!("{n} rounds"),
			Err(e) => {
				println!("assumed contract is wrong: {e}");
				std::process::exit(2);
			},
		},
		"run" => {
			let text = std::fs::read_to_string(arg(1)).expect("replay file");
			let field = |name: &str| text.lines().find_map(|l| l.strip_prefix(name).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_string();
			let check = lookup(&field("property"));
			let mut src = match field("seed").parse() {
				Ok(seed) => Src::random(seed),
				Err(_) => Src::replay(unhex(&field("choices"))),
			};
			std::thread::spawn(|| {
				std::thread::sleep(Duration::from_secs(20));
				println!("FAIL no progress for 20 s");
				std::process::exit(1);
			});
			let mut r = run_case(check, &mut src);
			if field("property") == "C23" {
				// Threads: not every run fails.
				for _ in 0..100 {
					r = r.and_then(|_| run_case(check, &mut Src::replay(unhex(&field("choices")))));
				}
			}
			match r {
				Ok(()) => println!("PASS"),
				Err(m) => {
					println!("FAIL {m}");
					std::process::exit(1);
				},
			}
		},
		_ => {
			eprintln!("usage: replay list | search ID SEED SECONDS OUT | cases ID SEED N | run FILE");
			std::process::exit(2);
		},
	}
}
