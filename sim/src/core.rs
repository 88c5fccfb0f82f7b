//! Simulation core: choice source, run context, seams, panic capture.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(C)]
pub struct Status {
    pub code: u64,
    pub steps: u64,
    pub draws: u64,
    pub clock_reads: u64,
    pub nchoices: u64,
}

extern "C" {
    pub static mut sim_status: *mut Status;
    pub static mut sim_steps: u64;
    pub static mut sim_trace_hash: u64;
    pub static mut sim_switches: u64;
    pub static mut sim_futex_waits: u64;
    pub static mut sim_entropy_failures: u64;
    pub static mut sim_rng_forced: u64;
    pub static mut sim_hash_draws: u64;
    pub static mut sim_clock_jumps: u64;
    pub static mut sim_active: i32;
    pub fn sim_init();
    pub fn sim_shared(n: usize) -> *mut u8;
    pub fn sim_cov_count() -> u64;
    pub fn sim_begin(limit: u64, hash_seed: u64);
    pub fn sim_set_limit(l: u64);
    pub fn sim_set_crash(at: u64);
    pub fn sim_rng_set(t: i32, mode: i32, seed: u64, fail_at: u64);
    pub fn sim_rng_draws(t: i32) -> u64;
    pub fn sim_hash_set(seed: u64);
    pub fn sim_clock_set(mode: i32, seed: u64);
    pub fn sim_clock_now() -> u64;
    pub fn sim_clock_reads() -> u64;
    pub fn sim_real_ns(out: *mut u64) -> i32;
    pub fn sim_sched_setup(n: i32, npre: i32, steps: *const u64, to: *const u32);
    pub fn sim_thread_enter(id: i32);
    pub fn sim_thread_exit();
    pub fn sim_sched_run(first: i32);
    pub static sim_nguards: u32;
}
// thread-local C variable: accessed through tiny accessors to avoid needing
// unstable #[thread_local]
extern "C" {
    pub fn sim_on_set(v: i32) -> i32;
}

pub fn real_ns() -> u64 {
    let mut v = 0;
    unsafe { sim_real_ns(&mut v) };
    v
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// bytes copied to an aligned place: byte searches take other paths for other alignments
pub struct Aligned {
    v: Vec<Line64>,
    n: usize,
}
#[derive(Clone, Copy)]
#[repr(align(64))]
struct Line64([u8; 64]);
impl Aligned {
    pub fn new(b: &[u8]) -> Aligned {
        let mut v = vec![Line64([0; 64]); b.len() / 64 + 1];
        for (i, x) in b.iter().enumerate() {
            v[i / 64].0[i % 64] = *x;
        }
        Aligned { v, n: b.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr() as *const u8, self.n) }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Every random decision of a run goes through here. In generation mode a
/// seeded PRNG answers; in replay mode the recorded list answers (0 once it is
/// exhausted). The list *is* the replay file, and what the minimiser shrinks.
pub struct Src {
    gen: Option<u64>,
    list: Vec<u64>,
    pos: usize,
    pub log: *mut u64,
    pub n: usize,
}
pub const MAX_CHOICES: usize = 1 << 16;

impl Src {
    pub fn new(gen: Option<u64>, list: Vec<u64>, log: *mut u64) -> Self {
        Src { gen, list, pos: 0, log, n: 0 }
    }
    /// uniform in [0, bound); 0 is always the simplest value
    pub fn draw(&mut self, bound: u64) -> u64 {
        debug_assert!(bound > 0);
        let v = match &mut self.gen {
            Some(s) => {
                let x = splitmix(s);
                ((x as u128 * bound as u128) >> 64) as u64
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                v.min(bound - 1)
            }
        };
        self.pos += 1;
        if self.n < MAX_CHOICES {
            unsafe { *self.log.add(self.n) = v };
            self.n += 1;
            unsafe {
                if !sim_status.is_null() {
                    (*sim_status).nchoices = self.n as u64;
                }
            }
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
impl Fail {
    pub fn new(kind: &str, msg: impl Into<String>) -> Self {
        Fail { kind: kind.to_string(), msg: msg.into() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($k:expr, $($a:tt)*) => { return Err($crate::core::Fail::new($k, format!($($a)*))) };
}

pub struct Ctx {
    pub src: Src,
    pub verbose: bool,
    pub thorough: bool,
    pub events: Vec<String>,
    pub fp: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub step_limit: u64,
}

#[derive(Clone, Debug)]
pub struct Panicked {
    pub at: String,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let on = unsafe { sim_on_set(0) };
        let at = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(Panicked { at, msg }));
        unsafe { sim_on_set(on) };
    }));
}

pub fn take_panic() -> Option<Panicked> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Run library code on this thread with the seams armed; a panic becomes a value.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    let prev = unsafe { sim_on_set(1) };
    let r = catch_unwind(AssertUnwindSafe(f));
    unsafe { sim_on_set(prev) };
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(Panicked { at: "?".into(), msg: "?".into() })
    })
}

impl Ctx {
    pub fn d(&mut self, n: usize) -> usize {
        self.src.draw(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.d(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.src.draw(den) >= den - num
    }
    pub fn seed64(&mut self) -> u64 {
        self.src.draw(1 << 32)
    }
    /// in [-1, 1], on a fine grid, shrinks to 0
    pub fn unit(&mut self) -> f64 {
        let v = self.src.draw(1 << 20) as i64;
        let s = if v & 1 == 1 { -((v + 1) / 2) } else { v / 2 };
        s as f64 / (1u64 << 19) as f64
    }
    /// in [0, 1), shrinks to 0
    pub fn frac(&mut self) -> f64 {
        self.src.draw(1 << 20) as f64 / (1u64 << 20) as f64
    }
    pub fn between(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.frac()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.d(xs.len());
        &xs[i]
    }
    pub fn ev(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        self.fp = (self.fp ^ hash_str(&s)).wrapping_mul(0x100000001b3);
        if self.verbose {
            eprintln!("  {}", s);
        }
        if self.events.len() < 400 {
            self.events.push(s);
        }
    }
    pub fn bits(&mut self, v: u64) {
        self.fp = (self.fp ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    pub fn fb(&mut self, v: f64) {
        self.bits(v.to_bits())
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }
    pub fn fault_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn panic_fail(&self, what: &str, p: &Panicked) -> Fail {
        Fail::new(&format!("panic {what}"), format!("{what} panicked at {}: {}", p.at, p.msg))
    }
    /// choose entropy behaviour for caller-thread slot t
    pub fn entropy(&mut self, t: i32) -> i32 {
        let seed = self.seed64();
        // two thirds plain seeded, one third adversarial streams
        let m = self.d(24);
        let mode = if m < 16 { 0 } else { (m - 15) as i32 };
        unsafe { sim_rng_set(t, mode, seed, u64::MAX) };
        if mode != 0 {
            self.fault(&format!("entropy_{}", ENTROPY[mode as usize]));
        }
        self.ev(|| format!("entropy[{t}] mode={} seed={seed}", ENTROPY[mode as usize]));
        mode
    }
    pub fn clock(&mut self) {
        let mode = self.d(5) as i32;
        let seed = self.seed64();
        unsafe { sim_clock_set(mode, seed) };
        if mode != 0 {
            self.fault(&format!("clock_{}", CLOCKS[mode as usize]));
        }
        self.ev(|| format!("clock mode={} seed={seed}", CLOCKS[mode as usize]));
    }
    pub fn hash_seed(&mut self) {
        let s = self.seed64();
        unsafe { sim_hash_set(s) };
        self.ev(|| format!("hash seed={s}"));
    }
    pub fn env(&mut self) {
        self.entropy(0);
        self.clock();
        self.hash_seed();
    }
}
pub const ENTROPY: [&str; 9] = [
    "uniform", "all_zero", "all_ones", "alternating", "constant_mid", "sticky", "extremes", "coarse", "ramp",
];
pub const CLOCKS: [&str; 5] = ["steady", "stopped", "slow", "jump_forward", "jump_backward"];
