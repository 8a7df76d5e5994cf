//! Native replay: runs harness entries with recorded inputs against the real, compiled code.
//!
//! stdin (or file argument): lines `case <id> <entry> p=<..> i=<..>`; prints per case
//! `result <id> ok obs=<..> covers=<..>` or `result <id> FAIL <kind>: <message>`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

struct Counting;
static LIVE: AtomicU64 = AtomicU64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		LIVE.fetch_add(1, SeqCst);
		ALLOCS.fetch_add(1, SeqCst);
		BYTES.fetch_add(l.size() as u64, SeqCst);
		unsafe { System.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(1, SeqCst);
		unsafe { System.dealloc(p, l) }
	}
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
struct Ctx {
	params: Vec<u64>,
	inputs: Vec<u64>,
	pos: usize,
	obs: Vec<u64>,
	covers: Vec<u32>,
	fail: Option<String>,
	assumed_false: bool,
	overrun: bool,
}
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
	let mut g = CTX.lock().unwrap_or_else(|e| e.into_inner());
	f(g.get_or_insert_with(Ctx::default))
}
struct Assumed;
struct Failed;

#[unsafe(no_mangle)]
extern "C" fn verif_any(bits: u32) -> u64 {
	with(|c| {
		let v = match c.inputs.get(c.pos) {
			Some(v) => *v,
			None => {
				c.overrun = true;
				0
			}
		};
		c.pos += 1;
		if bits < 64 { v & ((1 << bits) - 1) } else { v }
	})
}
#[unsafe(no_mangle)]
extern "C-unwind" fn verif_assume(x: bool) {
	if !x {
		with(|c| c.assumed_false = true);
		std::panic::resume_unwind(Box::new(Assumed));
	}
}
#[unsafe(no_mangle)]
extern "C-unwind" fn verif_assert(x: bool, m: *const u8, n: usize) {
	if !x {
		verif_fail(m, n);
	}
}
#[unsafe(no_mangle)]
extern "C-unwind" fn verif_fail(m: *const u8, n: usize) -> ! {
	let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(m, n)) };
	with(|c| {
		if c.fail.is_none() {
			c.fail = Some(s.to_string());
		}
	});
	std::panic::resume_unwind(Box::new(Failed));
}
#[unsafe(no_mangle)]
extern "C" fn verif_observe(x: u64) {
	with(|c| c.obs.push(x));
}
#[unsafe(no_mangle)]
extern "C" fn verif_cover(x: u32) {
	with(|c| {
		if !c.covers.contains(&x) {
			c.covers.push(x)
		}
	});
}
#[unsafe(no_mangle)]
extern "C" fn verif_param(i: u32) -> u64 { with(|c| c.params.get(i as usize).copied().unwrap_or(0)) }
#[unsafe(no_mangle)]
extern "C" fn verif_concretize(x: u64) -> u64 { x }
#[unsafe(no_mangle)]
extern "C" fn verif_task(_k: u32) {}
#[unsafe(no_mangle)]
extern "C" fn verif_live() -> u64 { LIVE.load(SeqCst) }
#[unsafe(no_mangle)]
extern "C" fn verif_heap(k: u32) -> u64 {
	match k {
		0 => LIVE.load(SeqCst),
		1 => ALLOCS.load(SeqCst),
		3 => {
			let x = 0u8;
			(usize::MAX - std::hint::black_box(&x as *const u8) as usize) as u64 / 512
		}
		4 => 0,
		_ => BYTES.load(SeqCst),
	}
}
#[unsafe(no_mangle)]
extern "C" fn verif_log(_m: *const u8, _n: usize, _x: u64) {}

thread_local!(static LAST: RefCell<String> = const { RefCell::new(String::new()) });

fn main() {
	let threads = std::env::var("VERIF_REPLAY_THREADS").is_ok();
	std::panic::set_hook(Box::new(|i| {
		let s = i.to_string();
		LAST.with(|l| *l.borrow_mut() = s.replace('\n', " "));
	}));
	// everything a first panic allocates
	let _ = harness::rt::catch(|| harness::rt::throw());
	let text: Vec<String> = match std::env::args().nth(1) {
		Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|s| s.to_string()).collect(),
		None => std::io::stdin().lock().lines().map(|l| l.unwrap()).collect(),
	};
	let out = std::io::stdout();
	let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
	for l in text {
		let f: Vec<&str> = l.split_whitespace().collect();
		if f.len() < 3 || f[0] != "case" {
			continue;
		}
		let e = harness::entry(f[2]).expect("entry");
		let mut c = Ctx::default();
		for x in &f[3..] {
			if let Some(v) = x.strip_prefix("p=") {
				c.params = list(v)
			}
			if let Some(v) = x.strip_prefix("i=") {
				c.inputs = list(v)
			}
		}
		c.obs.reserve(4096);
		c.covers.reserve(256);
		*CTX.lock().unwrap() = Some(c);
		println!("start {}", f[1]);
		let _ = out.lock().flush();
		LAST.with(|l| {
			let mut s = l.borrow_mut();
			s.clear();
			s.reserve(4096);
		});
		harness::rt::reset();
		if threads {
			rayon_core::verif::MODE.store(3, SeqCst);
		}
		let r = std::panic::catch_unwind(|| e());
		let c = CTX.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
		let panicked = r.is_err();
		if c.assumed_false {
			println!("result {} ASSUME", f[1]);
		} else if let Some(m) = c.fail {
			println!("result {} FAIL assert: {m}", f[1]);
		} else if panicked {
			println!("result {} FAIL panic: {}", f[1], LAST.with(|l| l.borrow().clone()));
		} else if c.overrun {
			println!("result {} DIVERGED more inputs read than recorded", f[1]);
		} else {
			let j = |v: Vec<String>| v.join(",");
			println!("result {} ok obs={} covers={} used={}", f[1], j(c.obs.iter().map(|x| x.to_string()).collect()), j(c.covers.iter().map(|x| x.to_string()).collect()), c.pos);
		}
	}
}
