//! Runs, workers, supervision, minimisation, replay files, evidence.
use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub steps: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Choices(Vec<u64>),
}

#[derive(Clone, Debug, Default)]
pub struct RunRes {
    pub fail: Option<Fail>,
    pub choices: Vec<u64>,
    pub fp: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub sched: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub events: Vec<String>,
}

pub fn run_seed(base: u64, id: &str, idx: u64) -> u64 {
    let mut s = base ^ hash_str(id) ^ idx.wrapping_mul(0xd1342543de82ef95);
    splitmix(&mut s)
}

struct Shared {
    choices: *mut u64,
}
static mut SHARED: Shared = Shared { choices: std::ptr::null_mut() };

/// per-process shared pages (status + choice log); call in every process that forks runs
pub fn init_shared() {
    unsafe {
        sim_status = sim_shared(4096) as *mut Status;
        SHARED.choices = sim_shared(MAX_CHOICES * 8) as *mut u64;
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn write_all_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

/// One simulated run in a process of its own (fresh statics, fresh threads).
pub fn run_once(p: &Prop, input: Input, verbose: bool, thorough: bool) -> RunRes {
    unsafe {
        std::ptr::write_bytes(sim_status as *mut u8, 0, std::mem::size_of::<Status>());
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            child(p, input, verbose, thorough, fds[1]);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        {
            let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
            let _ = f.read_to_end(&mut out);
        }
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let text = String::from_utf8_lossy(&out).to_string();
        let mut res = RunRes::default();
        let n = (*sim_status).nchoices as usize;
        res.choices = std::slice::from_raw_parts(SHARED.choices, n.min(MAX_CHOICES)).to_vec();
        if !text.ends_with("END\n") {
            let code = (*sim_status).code;
            res.steps = (*sim_status).steps;
            res.nontrivial = true;
            let f = match code {
                2 => Fail::new("no progress", format!("work budget of {} basic blocks exhausted: the call did not finish", p.steps)),
                3 => Fail::new("deadlock", "every caller thread is blocked"),
                _ => {
                    if libc::WIFSIGNALED(st) {
                        let s = libc::WTERMSIG(st);
                        if s == libc::SIGALRM {
                            Fail::new("no progress", "the run did not finish in the wall-clock backstop")
                        } else {
                            Fail::new("process crash", format!("process died with signal {s} (stack overflow, abort or memory exhaustion)"))
                        }
                    } else {
                        Fail::new("process crash", format!("process ended with status {}", libc::WEXITSTATUS(st)))
                    }
                }
            };
            res.fp = hash_str(&f.kind);
            res.fail = Some(f);
            return res;
        }
        for l in text.lines() {
            let mut it = l.split('\t');
            match it.next() {
                Some("V") => {
                    let k = unesc(it.next().unwrap_or(""));
                    let m = unesc(it.next().unwrap_or(""));
                    res.fail = Some(Fail { kind: k, msg: m });
                }
                Some("H") => res.fp = it.next().unwrap().parse().unwrap(),
                Some("T") => res.steps = it.next().unwrap().parse().unwrap(),
                Some("N") => res.sim_ns = it.next().unwrap().parse().unwrap(),
                Some("W") => res.sched = it.next().unwrap().parse().unwrap(),
                Some("X") => res.nontrivial = it.next() == Some("1"),
                Some("F") => {
                    let k = it.next().unwrap().to_string();
                    res.faults.insert(k, it.next().unwrap().parse().unwrap());
                }
                Some("P") => {
                    let k = it.next().unwrap().to_string();
                    res.probes.insert(k, it.next().unwrap().parse().unwrap());
                }
                Some("E") => res.events.push(unesc(it.next().unwrap_or(""))),
                _ => {}
            }
        }
        res
    }
}

fn child(p: &Prop, input: Input, verbose: bool, thorough: bool, fd: i32) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        if !verbose {
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(nul, 2);
        }
        libc::alarm(if thorough { 300 } else { 120 });
    }
    let run = p.run;
    let steps = p.steps;
    let log = unsafe { SHARED.choices } as usize;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (gen, list, hs) = match input {
                Input::Seed(s) => (Some(s), vec![], 7),
                Input::Choices(c) => (None, c, 7),
            };
            unsafe { sim_begin(steps, hs) };
            let mut ctx = Ctx {
                src: Src::new(gen, list, log as *mut u64),
                verbose,
                thorough,
                events: vec![],
                fp: 1469598103934665603,
                faults: BTreeMap::new(),
                probes: BTreeMap::new(),
                nontrivial: false,
                step_limit: steps,
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx)));
            let r = match r {
                Ok(r) => r,
                Err(_) => Err(Fail::new("harness panic", harness_panic())),
            };
            let (steps, trace, ns) = unsafe {
                ctx.fault_n("entropy_failure", sim_entropy_failures);
                ctx.fault_n("entropy_value_forced", sim_rng_forced);
                ctx.fault_n("clock_jump", sim_clock_jumps);
                ctx.fault_n("preemption", sim_switches);
                ctx.fault_n("hash_seed_draw", sim_hash_draws);
                ctx.fault_n("blocked_lock_wait", sim_futex_waits);
                let d: u64 = (0..8).map(|t| sim_rng_draws(t)).sum();
                ctx.fault_n("entropy_draw_answered", d);
                ctx.fault_n("clock_read_answered", sim_clock_reads());
                (sim_steps, sim_trace_hash, sim_clock_now() - 1_000_000_000_000.min(sim_clock_now()))
            };
            let mut o = String::new();
            if let Err(f) = r {
                o += &format!("V\t{}\t{}\n", esc(&f.kind), esc(&f.msg));
            }
            o += &format!("H\t{}\n", ctx.fp ^ trace.rotate_left(9) ^ steps.wrapping_mul(0x9e3779b97f4a7c15));
            o += &format!("T\t{steps}\nN\t{ns}\nW\t{trace}\nX\t{}\n", ctx.nontrivial as u8);
            for (k, v) in &ctx.faults {
                o += &format!("F\t{k}\t{v}\n");
            }
            for (k, v) in &ctx.probes {
                o += &format!("P\t{k}\t{v}\n");
            }
            for e in &ctx.events {
                o += &format!("E\t{}\n", esc(e));
            }
            o += "END\n";
            write_all_fd(fd, o.as_bytes());
            unsafe {
                (*sim_status).code = 1;
                libc::_exit(0)
            }
        })
        .unwrap();
    let _ = h.join();
    unsafe { libc::_exit(70) }
}

fn harness_panic() -> String {
    take_panic().map(|p| format!("{} at {}", p.msg, p.at)).unwrap_or_default()
}

struct Line {
    idx: u64,
    res: RunRes,
}

pub struct Sweep {
    pub done: u64,
    pub distinct: u64,
    pub nontrivial_distinct: u64,
    pub interleavings: u64,
    pub steps: u128,
    pub sim_ns: u128,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub fails: Vec<(u64, Fail)>,
    pub samples: Vec<(u64, Vec<String>)>,
    pub rechecked: u64,
    pub nondeterministic: Vec<u64>,
    pub wall: f64,
}

/// Runs seeds 0..n over the workers. Stops at the first unlisted violation.
pub fn sweep(p: &'static Prop, base: u64, first: u64, n: u64, thorough: bool, cap_s: f64, workers: u64, keep_going: bool, known: &dyn Fn(&Fail) -> bool) -> Sweep {
    let t0 = real_ns();
    let minv = unsafe { &*(sim_shared(4096) as *const AtomicU64) };
    minv.store(u64::MAX, Ordering::SeqCst);
    let mut rs = Vec::new();
    let mut pids = Vec::new();
    let w = workers.min(n.max(1));
    for k in 0..w {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                for r in &rs {
                    libc::close(*r);
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                init_shared();
                let mut i = first + k;
                while i < first + n {
                    if (real_ns() - t0) as f64 / 1e9 > cap_s || (!keep_going && i > minv.load(Ordering::SeqCst)) {
                        break;
                    }
                    let res = run_once(p, Input::Seed(run_seed(base, p.id, i)), false, thorough);
                    let again = i % 97 == 0;
                    let mut nd = 0;
                    if again {
                        let r2 = run_once(p, Input::Seed(run_seed(base, p.id, i)), false, thorough);
                        if r2.fp != res.fp {
                            nd = 1;
                        }
                    }
                    let mut o = format!(
                        "R\t{i}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
                        res.fp, res.steps, res.sim_ns, res.nontrivial as u8, res.sched, again as u8, nd
                    );
                    if let Some(f) = &res.fail {
                        o += &format!("\tV\t{}\t{}", esc(&f.kind), esc(&f.msg));
                        if !known(f) {
                            minv.fetch_min(i, Ordering::SeqCst);
                        }
                    }
                    o.push('\n');
                    for (a, b) in &res.faults {
                        o += &format!("F\t{a}\t{b}\n");
                    }
                    for (a, b) in &res.probes {
                        o += &format!("P\t{a}\t{b}\n");
                    }
                    if i < first + 3 || res.fail.is_some() {
                        for e in &res.events {
                            o += &format!("E\t{i}\t{}\n", esc(e));
                        }
                    }
                    write_all_fd(fds[1], o.as_bytes());
                    i += w;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            rs.push(fds[0]);
            pids.push(pid);
        }
    }
    let handles: Vec<_> = rs
        .into_iter()
        .map(|fd| {
            std::thread::spawn(move || {
                use std::io::BufRead;
                let f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
                let mut lines: Vec<(Line, bool, bool)> = vec![];
                let mut faults: BTreeMap<String, u64> = BTreeMap::new();
                let mut probes: BTreeMap<String, u64> = BTreeMap::new();
                let mut ev: BTreeMap<u64, Vec<String>> = BTreeMap::new();
                for l in std::io::BufReader::new(f).lines() {
                    let Ok(l) = l else { break };
                    let c: Vec<&str> = l.split('\t').collect();
                    match c[0] {
                        "R" if c.len() >= 9 => {
                            let mut r = RunRes { fp: c[2].parse().unwrap_or(0), steps: c[3].parse().unwrap_or(0), sim_ns: c[4].parse().unwrap_or(0), nontrivial: c[5] == "1", sched: c[6].parse().unwrap_or(0), ..Default::default() };
                            if c.len() >= 12 && c[9] == "V" {
                                r.fail = Some(Fail { kind: unesc(c[10]), msg: unesc(c[11]) });
                            }
                            lines.push((Line { idx: c[1].parse().unwrap_or(0), res: r }, c[7] == "1", c[8] == "1"));
                        }
                        "F" if c.len() == 3 => *faults.entry(c[1].into()).or_default() += c[2].parse::<u64>().unwrap_or(0),
                        "P" if c.len() == 3 => *probes.entry(c[1].into()).or_default() += c[2].parse::<u64>().unwrap_or(0),
                        "E" if c.len() == 3 => ev.entry(c[1].parse().unwrap_or(0)).or_default().push(unesc(c[2])),
                        _ => {}
                    }
                }
                (lines, faults, probes, ev)
            })
        })
        .collect();
    let mut s = Sweep { done: 0, distinct: 0, nontrivial_distinct: 0, interleavings: 0, steps: 0, sim_ns: 0, faults: BTreeMap::new(), probes: BTreeMap::new(), fails: vec![], samples: vec![], rechecked: 0, nondeterministic: vec![], wall: 0. };
    let mut seen = HashSet::new();
    let mut seen_nt = HashSet::new();
    let mut sched = HashSet::new();
    for h in handles {
        let (lines, f, pr, ev) = h.join().unwrap();
        for (l, again, nd) in lines {
            s.done += 1;
            s.steps += l.res.steps as u128;
            s.sim_ns += l.res.sim_ns as u128;
            seen.insert(l.res.fp);
            sched.insert(l.res.sched);
            if l.res.nontrivial {
                seen_nt.insert(l.res.fp);
            }
            if again {
                s.rechecked += 1;
            }
            if nd {
                s.nondeterministic.push(l.idx);
            }
            if let Some(f) = l.res.fail {
                s.fails.push((l.idx, f));
            }
        }
        for (k, v) in f {
            *s.faults.entry(k).or_default() += v;
        }
        for (k, v) in pr {
            *s.probes.entry(k).or_default() += v;
        }
        for (i, e) in ev {
            if i < first + 3 {
                s.samples.push((i, e));
            }
        }
    }
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
    }
    s.samples.sort_by_key(|x| x.0);
    s.fails.sort_by_key(|x| x.0);
    s.distinct = seen.len() as u64;
    s.nontrivial_distinct = seen_nt.len() as u64;
    s.interleavings = sched.len() as u64;
    s.wall = (real_ns() - t0) as f64 / 1e9;
    s
}

/// Shrinks a failing choice list, keeping the same kind of violation.
pub fn minimise(p: &Prop, first: &RunRes, kind: &str, thorough: bool, budget_s: f64) -> (RunRes, u64) {
    let t0 = real_ns();
    let mut evals = 0u64;
    let mut best = first.clone();
    let over = |e: u64| (real_ns() - t0) as f64 / 1e9 > budget_s || e > 4000;
    let mut try_ = |c: Vec<u64>, best: &mut RunRes, evals: &mut u64| -> bool {
        *evals += 1;
        let r = run_once(p, Input::Choices(c.clone()), false, thorough);
        match &r.fail {
            Some(f) if f.kind == kind => {
                let smaller = (r.choices.len(), r.choices.iter().map(|x| x.checked_ilog2().unwrap_or(0) as u64 + (*x > 0) as u64).sum::<u64>())
                    < (best.choices.len(), best.choices.iter().map(|x| x.checked_ilog2().unwrap_or(0) as u64 + (*x > 0) as u64).sum::<u64>());
                if smaller {
                    *best = r;
                }
                smaller
            }
            _ => false,
        }
    };
    // truncate the tail
    let mut progress = true;
    while progress && !over(evals) {
        progress = false;
        let mut size = best.choices.len() / 2;
        while size >= 1 && !over(evals) {
            let mut i = 0;
            while i < best.choices.len() && !over(evals) {
                let mut c = best.choices.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if try_(c, &mut best, &mut evals) {
                    progress = true;
                } else {
                    // zero the block instead
                    let mut c = best.choices.clone();
                    let mut any = false;
                    for x in &mut c[i..e] {
                        any |= *x != 0;
                        *x = 0;
                    }
                    if any && try_(c, &mut best, &mut evals) {
                        progress = true;
                    }
                    i += size;
                }
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.choices.len() && !over(evals) {
            let v = best.choices[i];
            if v > 1 {
                for nv in [v / 2, v - 1, v & !0xff, v & !0xffff] {
                    if nv < v {
                        let mut c = best.choices.clone();
                        c[i] = nv;
                        if try_(c, &mut best, &mut evals) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, evals)
}

pub fn replay_json(p: &Prop, base: u64, idx: u64, r: &RunRes, original_len: usize, evals: u64, thorough: bool) -> Value {
    let f = r.fail.clone().unwrap_or(Fail::new("", ""));
    json!({
        "property": p.id,
        "seed": base,
        "run_index": idx,
        "run_seed": run_seed(base, p.id, idx).to_string(),
        "tier_thorough": thorough,
        "kind": f.kind,
        "message": f.msg,
        "fingerprint": r.fp.to_string(),
        "steps": r.steps,
        "choices": r.choices,
        "choices_before_minimisation": original_len,
        "minimisation_runs": evals,
        "trace": r.events,
        "note": "`choices` answers, in order, every decision of the run: inputs, operations, faults, entropy mode, clock mode, hash seed and thread switches. Reproduce with: bash run.sh replay <this file>",
    })
}

pub fn write_file(path: &str, s: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}
