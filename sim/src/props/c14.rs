//! C14: bounded work and no panic, under adversarial entropy and clocks, degenerate inputs included.
use super::{c08, c10, c11};
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::fresh::*;
use crate::gen::*;
use crate::pool::*;
use crate::shapes::*;
use curvo::prelude::*;
use nalgebra::Point2;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        run,
        quick: 3000,
        thorough: 200000,
        steps: 20_000_000_000,
        rule: "one run = a seeded set of models and 1-3 queries, each measured in a process of its own under fair entropy, then under 2-3 adversarial streams, clocks and hash seeds within a budget of 40 times the fair work plus 4 million basic blocks, on a 4 MB stack; also pairs of shapes that touch, coincide or share edges; non-trivial = an adversarial stream was drawn from",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &[],
    }
}

type Job<'a> = Box<dyn Fn() -> Vec<u64> + Send + Sync + 'a>;

/// shapes in special position: equal, reversed, touching, sharing edges or vertices
fn special(ctx: &mut Ctx) -> (Rep, Rep, String) {
    let a = shape(ctx, [0., 0.], 2., 0x3ff);
    let shift = |r: &Rep, x: f64, y: f64| {
        let m = nalgebra::Matrix3::new(1., 0., x, 0., 1., y, 0., 0., 1.);
        let mut r = r.clone();
        match &mut r {
            Rep::Single(c) => c.transform(&m),
            Rep::Compound(c) => c.transform(&m),
        }
        r
    };
    let (lo, hi) = a.lp.bbox();
    let (b, w) = match ctx.d(6) {
        0 => (a.rep.clone(), "the same"),
        1 => {
            let mut r = a.rep.clone();
            match &mut r {
                Rep::Single(c) => c.invert(),
                Rep::Compound(c) => c.invert(),
            }
            (r, "the same reversed")
        }
        2 => (shift(&a.rep, hi[0] - lo[0], 0.), "shifted by its width"),
        3 => (shift(&a.rep, 0.5 * (hi[0] - lo[0]), 0.), "shifted along itself"),
        4 => (shape(ctx, [lo[0] - 1., 0.], 1., 1).rep, "a circle that touches"),
        _ => {
            // squares on a grid
            let sq = |x: f64, y: f64, s: f64| Rep::Single(C2::polyline(&[Point2::new(x, y), Point2::new(x + s, y), Point2::new(x + s, y + s), Point2::new(x, y + s), Point2::new(x, y)], true));
            let (x, y) = (ctx.d(3) as f64 - 1., ctx.d(3) as f64 - 1.);
            let s = 1. + ctx.d(2) as f64;
            return (sq(0., 0., 2.), sq(x, y, s), "squares on a grid".into());
        }
    };
    (a.rep, b, w.into())
}

/// the same models, very large, very small, flattened or far away
fn extreme(ctx: &mut Ctx, mut p: Pool) -> Pool {
    // the work on trimmed and bounded regions grows with the square of the outline's points
    let big = p.region.is_empty() && p.trimmed.is_empty();
    let pick = |ctx: &mut Ctx| *ctx.pick(if big { &[1., 1e-6, 1e-3, 1e3, 1e6, 0., 0., 1e-12] } else { &[1., 1e-6, 1e-3, 0.5, 2., 0., 0., 1e-12] });
    let (sx, sy, sz) = (pick(ctx), pick(ctx), pick(ctx));
    let far = *ctx.pick(&[0., 0., 1e3, 1e6]);
    ctx.ev(|| format!("scaled by {sx} {sy} {sz}, moved by {far}"));
    let m2 = nalgebra::Matrix3::new(sx, 0., far, 0., sy, 0., 0., 0., 1.);
    let m3 = nalgebra::Matrix4::new(sx, 0., 0., far, 0., sy, 0., 0., 0., 0., sz, far, 0., 0., 0., 1.);
    p.c2.iter_mut().for_each(|c| c.transform(&m2));
    p.c3.iter_mut().for_each(|c| c.transform(&m3));
    p.surf.iter_mut().for_each(|c| c.transform(&m3));
    p.region.iter_mut().for_each(|c| c.transform(&m2));
    for r in &mut p.closed {
        match r {
            Rep::Single(c) => c.transform(&m2),
            Rep::Compound(c) => c.transform(&m2),
        }
    }
    p.trimmed.iter_mut().for_each(|c| c.transform(&m3));
    ctx.probe("extreme_model");
    p
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    if ctx.d(4) == 0 {
        let (a, b, what) = special(ctx);
        let k = ctx.d(4);
        let op = c11::OPS[ctx.d(3)];
        let o = c08::solver(ctx);
        let q = Point2::new(3. * ctx.unit(), 3. * ctx.unit());
        ctx.ev(|| format!("{:?} and {:?} ({what}), query {k} {} {:?} options {:?}", a, b, c11::name(op), q, o));
        ctx.probe(&format!("special_{what}"));
        let (a, b, o) = (&a, &b, &o);
        let job: Job = Box::new(move || {
            let r = match k {
                0 => c08::rep_intersect(a, b, o.clone()).map(|v| v.len()),
                1 => c10::contains(a, &q, o).map(|v| v as usize),
                _ => c11::boolean(a, b, op, o).map(|v| v.len()),
            };
            vec![r.unwrap_or(usize::MAX) as u64]
        });
        return bounded(ctx, "special position", &job);
    }
    let mask = 1u32 << ctx.d(6);
    let mut pool = Pool::new(ctx, mask)?;
    if ctx.d(2) == 0 {
        pool = extreme(ctx, pool);
    }
    for _ in 0..ctx.range(1, 3) {
        let q = query(ctx, mask);
        let (p, q) = (&pool, &q);
        let job: Job = Box::new(move || exec(p, q));
        bounded(ctx, q.kind, &job)?;
        ctx.probe(&format!("{} {}", FAMILIES[q.fam], q.kind));
    }
    Ok(())
}

fn bounded(ctx: &mut Ctx, what: &str, job: &Job) -> R {
    let fair = Env::fair(ctx);
    let run = |ctx: &mut Ctx, e: &Env, budget: u64| -> Result<Answer, Fail> {
        let a = fresh(ctx, budget, what, || {
            e.apply(0);
            match lib(|| job()) {
                Ok(v) => vec![v.len() as u64],
                Err(p) if p.msg.contains("entropy") => vec![0xfa11],
                Err(p) => {
                    let mut v = vec![0xdead];
                    v.extend(format!("{}: {}", p.at, p.msg).bytes().map(|b| b as u64));
                    v
                }
            }
        })?;
        if a.v[0] == 0xdead {
            let m: String = a.v[1..].iter().map(|b| *b as u8 as char).collect();
            fail!("panic", "{what} panicked at {m}");
        }
        Ok(a)
    };
    let s = run(ctx, &fair, 1_000_000_000)?;
    ctx.bits(s.steps);
    let budget = s.steps * 40 + 4_000_000;
    for _ in 0..ctx.range(2, 3) {
        let mut e = Env::draw(ctx);
        e.mode = 1 + ctx.d(8) as i32;
        ctx.fault(&format!("entropy_{}", ENTROPY[e.mode as usize]));
        if ctx.d(8) == 0 {
            e.fail_at = ctx.d(40) as u64;
            ctx.fault("entropy_failed");
        }
        ctx.ev(|| format!("in {:?}", e));
        let a = run(ctx, &e, budget)?;
        if a.draws > 0 {
            ctx.nontrivial = true;
        }
        let r = a.steps as f64 / s.steps.max(1) as f64;
        ctx.probe(&format!("work_ratio_up_to_{}", if r <= 1.5 { "1.5" } else if r <= 4. { "4" } else if r <= 10. { "10" } else { "40" }));
        ctx.bits(a.steps);
    }
    Ok(())
}
