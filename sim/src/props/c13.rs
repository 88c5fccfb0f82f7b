//! C13: concurrent callers over shared models, preempted at any basic block.
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::fresh::*;
use crate::pool::*;
use std::sync::Mutex;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        run,
        quick: 6000,
        thorough: 200000,
        steps: 20_000_000_000,
        rule: "one run = a seeded set of shared models and 2-4 caller threads with 1-3 queries each (any, all the same, or the same kind with other models and arguments); every caller first runs alone in a process of its own, then all run together, one at a time, the scheduler preempting them before seeded basic blocks (0-60 switches, some callers stalled until the others end), some callers aborted by their entropy source; non-trivial = at least two callers interleaved",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["sequentially consistent interleavings of basic blocks; no weak-memory effects"],
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let mask = (1u32 << ctx.d(6)) | (1 << ctx.d(6));
    let pool = Pool::new(ctx, mask)?;
    let n = ctx.range(2, 4);
    let (same, alike) = match ctx.d(6) {
        0 | 1 => (true, false),
        2 | 3 => (false, true),
        _ => (false, false),
    };
    let mut work: Vec<(Env, Vec<Query>)> = vec![];
    for t in 0..n {
        let mut e = Env::draw(ctx);
        if ctx.d(6) == 0 {
            e.fail_at = ctx.d(30) as u64;
            ctx.fault("entropy_failed");
        }
        let k = ctx.range(1, 3);
        let mut qs: Vec<Query> = (0..k).map(|_| query(ctx, mask)).collect();
        if same && t > 0 {
            qs = work[0].1.clone();
        }
        if alike {
            // the same kind of query, on other models with other arguments
            let (kind, fam) = if t > 0 { (work[0].1[0].kind, work[0].1[0].fam) } else { (qs[0].kind, qs[0].fam) };
            for (i, q) in qs.iter_mut().enumerate() {
                (q.kind, q.fam, q.i) = (kind, fam, q.i + i + t);
            }
        }
        work.push((e, qs));
    }
    ctx.ev(|| format!("callers {:?}", work));
    let before = pool.print();
    let p = &pool;
    let mut solo: Vec<Vec<u64>> = vec![];
    let mut total = 0;
    for (e, qs) in &work {
        let a = fresh(ctx, 4_000_000_000, "a caller alone", || {
            e.apply(0);
            qs.iter().flat_map(|q| outcome(|| exec(p, q))).collect()
        })?;
        total += a.steps;
        solo.push(a.v);
        ctx.bits(a.steps);
    }
    // where the scheduler takes over; mostly spread over the whole run, sometimes close together
    let m = [0, 3, 12, 60][ctx.d(4)];
    let mut at: Vec<(u64, u32)> = vec![];
    let mut pos = 0u64;
    for _ in 0..m {
        let step = match ctx.d(3) {
            0 => 1 + ctx.d(200) as u64,
            1 => 1 + (total as f64 / m as f64 * 2. * ctx.frac()) as u64,
            _ => 1 + ctx.d(5000) as u64,
        };
        pos += step;
        at.push((pos, ctx.d(1 << 16) as u32));
    }
    let first = ctx.d(n) as i32;
    let mut env = Env::fair(ctx);
    env.surroundings(ctx);
    ctx.ev(|| format!("{n} callers, {total} basic blocks alone, {m} preemptions {:?}", at));
    let (st, to): (Vec<u64>, Vec<u32>) = at.iter().cloned().unzip();
    let work = &work;
    let all = fresh(ctx, 16_000_000_000, "callers together", || {
        env.apply(0);
        let res: Vec<Mutex<Vec<u64>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
        unsafe { sim_sched_setup(n as i32, st.len() as i32, st.as_ptr(), to.as_ptr()) };
        std::thread::scope(|s| {
            for t in 0..n {
                let slot = &res[t];
                s.spawn(move || {
                    unsafe { sim_thread_enter(t as i32) };
                    work[t].0.stream(t as i32);
                    let v: Vec<u64> = work[t].1.iter().flat_map(|q| outcome(|| exec(p, q))).collect();
                    *slot.lock().unwrap() = v;
                    unsafe { sim_thread_exit() };
                });
            }
            unsafe { sim_sched_run(first) };
        });
        let mut out = vec![unsafe { sim_switches }, unsafe { sim_trace_hash }, p.print()];
        for r in res {
            let r = r.into_inner().unwrap();
            out.push(r.len() as u64);
            out.extend(r);
        }
        out
    })?;
    let v = &all.v;
    ctx.fault_n("preemption", v[0]);
    if v[0] > 0 {
        ctx.nontrivial = true;
    }
    ctx.bits(v[1]);
    ctx.probe(&format!("callers_{n}"));
    if v[2] != before {
        fail!("shared model changed", "by concurrent callers");
    }
    let mut i = 3;
    for (t, s) in solo.iter().enumerate() {
        let k = v[i] as usize;
        let r = &v[i + 1..i + 1 + k];
        if r != &s[..] {
            fail!("caller's result depends on the others", "caller {t} {:?}: {:x?} alone, {:x?} together", work[t], s, r);
        }
        i += 1 + k;
    }
    Ok(())
}
