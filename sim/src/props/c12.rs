//! C12: results depend on the arguments and the random stream only.
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::fresh::*;
use crate::pool::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        run,
        quick: 6000,
        thorough: 200000,
        steps: 4_000_000_000,
        rule: "one run = a seeded set of models and 2-5 queries; each query runs in one process alone, and again in another process after other queries (some aborted), twice, with other clocks and hash seeds but the same random stream; queries without randomness also with another stream; the results are compared bit for bit; non-trivial = a query with a result was compared",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["results are compared through their Debug output (bit-exact for floats other than NaN)"],
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let mask = (1u32 << ctx.d(6)) | (1 << ctx.d(6));
    let pool = Pool::new(ctx, mask)?;
    let n = ctx.range(2, 5);
    let qs: Vec<Query> = (0..n).map(|_| query(ctx, mask)).collect();
    let before = pool.print();
    for (k, q) in qs.iter().enumerate() {
        let alone = Env::draw(ctx);
        let mut other = alone.clone();
        other.surroundings(ctx);
        let mut third = alone.clone();
        third.surroundings(ctx);
        // the history in the second process
        let history: Vec<(Query, Env)> = (0..ctx.d(4))
            .map(|_| {
                let j = ctx.d(n);
                let mut e = Env::draw(ctx);
                if ctx.d(4) == 0 {
                    e.fail_at = ctx.d(30) as u64;
                    ctx.fault("entropy_failed");
                }
                (qs[j].clone(), e)
            })
            .collect();
        ctx.ev(|| format!("query {k} alone in {:?}; then in {:?} after {:?}", alone, other, history));
        let p = &pool;
        let a = fresh(ctx, 2_000_000_000, q.kind, || {
            alone.apply(0);
            outcome(|| exec(p, q))
        })?;
        let b = fresh(ctx, 20_000_000_000, q.kind, || {
            for (h, e) in &history {
                e.apply(0);
                outcome(|| exec(p, h));
            }
            other.apply(0);
            let mut v = outcome(|| exec(p, q));
            third.apply(0);
            v.extend(outcome(|| exec(p, q)));
            v.push(p.print());
            v
        })?;
        ctx.probe(&format!("{} {}", FAMILIES[q.fam], q.kind));
        let m = a.v.len();
        if b.v.len() != 2 * m + 1 || b.v[..m] != a.v[..] {
            fail!("result depends on the environment", "{:?}: {:x?} alone, {:x?} after other calls, with another clock and hash seed", q, a.v, &b.v);
        }
        if b.v[m..2 * m] != a.v[..] {
            fail!("result depends on repetition", "{:?}: {:x?} first, {:x?} when repeated", q, a.v, &b.v[m..2 * m]);
        }
        if b.v[2 * m] != before {
            fail!("query changes its model", "{:?}", q);
        }
        if a.v.first() != Some(&0xdead) {
            ctx.nontrivial = true;
        } else {
            ctx.probe("panicking_query");
        }
        if !uses_entropy(q) {
            if a.draws != 0 {
                fail!("query draws entropy", "{:?} drew {}", q, a.draws);
            }
            let mut e = Env::draw(ctx);
            // not even a failing source matters
            e.fail_at = if ctx.d(2) == 0 { 0 } else { u64::MAX };
            ctx.ev(|| format!("query {k} in {:?}", e));
            let c = fresh(ctx, 2_000_000_000, q.kind, || {
                e.apply(0);
                outcome(|| exec(p, q))
            })?;
            if c.v != a.v {
                fail!("result depends on the random stream", "{:?}: {:x?} and {:x?}", q, a.v, c.v);
            }
        }
        for x in &a.v {
            ctx.bits(*x);
        }
        ctx.bits(a.steps);
    }
    Ok(())
}
