//! Library calls in a process of their own, forked from the run: nothing of what the run did before,
//! or does elsewhere, can reach them except through the models.
use crate::core::*;
use std::io::Read;

/// everything outside the arguments a call could depend on
#[derive(Clone, Debug)]
pub struct Env {
    pub mode: i32,
    pub seed: u64,
    pub fail_at: u64,
    pub clock: i32,
    pub clock_seed: u64,
    pub hash: u64,
}

impl Env {
    pub fn draw(ctx: &mut Ctx) -> Env {
        let mut e = Env::fair(ctx);
        let m = ctx.d(16);
        e.mode = if m < 8 { 0 } else { (m - 7) as i32 };
        if e.mode != 0 {
            ctx.fault(&format!("entropy_{}", ENTROPY[e.mode as usize]));
        }
        e.surroundings(ctx);
        e
    }
    pub fn fair(ctx: &mut Ctx) -> Env {
        Env { mode: 0, seed: ctx.seed64(), fail_at: u64::MAX, clock: 0, clock_seed: 0, hash: 7 }
    }
    /// other clock and hash seeds, the same entropy
    pub fn surroundings(&mut self, ctx: &mut Ctx) {
        self.clock = ctx.d(5) as i32;
        self.clock_seed = ctx.seed64();
        self.hash = ctx.seed64();
        if self.clock != 0 {
            ctx.fault(&format!("clock_{}", CLOCKS[self.clock as usize]));
        }
    }
    pub fn stream(&self, t: i32) {
        unsafe { sim_rng_set(t, self.mode, self.seed, self.fail_at) }
    }
    pub fn apply(&self, t: i32) {
        self.stream(t);
        unsafe {
            sim_clock_set(self.clock, self.clock_seed);
            sim_hash_set(self.hash);
        }
    }
}

/// what a child process answers with
pub struct Answer {
    pub v: Vec<u64>,
    pub steps: u64,
    pub draws: u64,
    pub hash_draws: u64,
}

/// Run `f` in a forked process, on a thread of its own, within a budget of basic blocks.
pub fn fresh(ctx: &mut Ctx, budget: u64, what: &str, f: impl FnOnce() -> Vec<u64> + Send) -> Result<Answer, Fail> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(100);
            sim_set_limit(sim_steps + budget);
            let (s0, h0) = (sim_steps, sim_hash_draws);
            let v = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, || {
                        let v = f();
                        sim_on_set(0);
                        v
                    })
                    .unwrap()
                    .join()
            });
            if let Ok(v) = v {
                let draws: u64 = (0..8).map(|t| sim_rng_draws(t)).sum();
                let mut out: Vec<u8> = vec![];
                for x in [v.len() as u64, sim_steps - s0, draws, sim_hash_draws - h0].iter().chain(&v) {
                    out.extend(x.to_le_bytes());
                }
                crate::engine::write_all_fd(fds[1], &out);
                libc::_exit(0);
            }
            let p = take_panic().map(|p| format!("{} at {}", p.msg, p.at)).unwrap_or_default();
            let mut out = u64::MAX.to_le_bytes().to_vec();
            out.extend(p.bytes());
            crate::engine::write_all_fd(fds[1], &out);
            libc::_exit(71);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        {
            let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
            let _ = f.read_to_end(&mut out);
        }
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let code = (*sim_status).code;
        (*sim_status).code = 0;
        let w: Vec<u64> = out.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if w.len() >= 4 && w[0] != u64::MAX && w.len() as u64 == w[0] + 4 {
            ctx.fault_n("entropy_draw_answered", w[2]);
            ctx.fault_n("hash_seed_draw", w[3]);
            return Ok(Answer { v: w[4..].to_vec(), steps: w[1], draws: w[2], hash_draws: w[3] });
        }
        if w.first() == Some(&u64::MAX) {
            return Err(Fail::new("harness panic", format!("{what}: {}", String::from_utf8_lossy(&out[8..]))));
        }
        Err(match code {
            2 => Fail::new("no progress", format!("{what}: work budget of {budget} basic blocks exhausted: the call did not finish")),
            3 => Fail::new("deadlock", format!("{what}: blocked forever")),
            _ if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM => Fail::new("no progress", format!("{what}: did not finish in the wall-clock backstop")),
            _ if libc::WIFSIGNALED(st) => Fail::new("process crash", format!("{what}: signal {} (stack overflow, abort or memory exhaustion)", libc::WTERMSIG(st))),
            _ => Fail::new("process crash", format!("{what}: status {}", libc::WEXITSTATUS(st))),
        })
    }
}

/// the digest of a query, a panic being one of its outcomes
pub fn outcome(f: impl FnOnce() -> Vec<u64>) -> Vec<u64> {
    match lib(f) {
        Ok(v) => v,
        Err(p) => vec![0xdead, hash_str(&format!("{} {}", p.at, p.msg))],
    }
}
