//! C08: curve-curve intersection under adversarial entropy.
use crate::core::*;
use crate::cv::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::isect::*;
use crate::refmodel::*;
use crate::shapes::*;
use curvo::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        run,
        quick: 20000,
        thorough: 300000,
        steps: 2_000_000_000,
        rule: "one run = one seeded pair of curves or compound curves (free-form, waves, closed shapes, 3D with a constructed meeting point; edited, reversed) intersected several times, in both orders, each under its own entropy stream, some failing first; non-trivial = at least one well separated transversal crossing had to be found",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["a crossing has to be reported when its angle exceeds 17 degrees and it is at least 2-3% of the domain (and 0.005-0.02 absolute) away from span ends and other crossings in both parameters; and when within 5% of the domain the curves change speed by less than a factor 1.7 and direction by less than 37 degrees"],
    }
}

/// one reported intersection in plain numbers: span index and parameter on both sides, both points
#[derive(Clone, Debug)]
pub struct Hit {
    pub ia: usize,
    pub ib: usize,
    pub ta: f64,
    pub tb: f64,
    pub pa: Vec<f64>,
    pub pb: Vec<f64>,
}

pub fn solver(ctx: &mut Ctx) -> Option<CurveIntersectionSolverOptions<f64>> {
    match ctx.d(4) {
        0 => None,
        1 => Some(CurveIntersectionSolverOptions { minimum_distance: 1e-4, knot_domain_division: 500, max_iters: 1000, step_size_tolerance: 1e-8, cost_tolerance: 1e-10 }),
        2 => Some(CurveIntersectionSolverOptions::default().with_minimum_distance([1e-3, 1e-4, 1e-5][ctx.d(3)])),
        _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(ctx.range(64, 300))),
    }
}

pub fn min_dist(o: &Option<CurveIntersectionSolverOptions<f64>>) -> f64 {
    o.clone().unwrap_or_default().minimum_distance
}

/// every reported intersection is one
pub fn sound(what: &str, hits: &[Hit], sa: &[RCurve], sb: &[RCurve], md: f64) -> R {
    for h in hits {
        if h.ia >= sa.len() || h.ib >= sb.len() {
            fail!("intersection names a foreign span", "{what}: {:?}", h);
        }
        let (a, b) = (&sa[h.ia], &sb[h.ib]);
        let inside = |t: f64, d: (f64, f64)| t >= d.0 && t <= d.1;
        if !inside(h.ta, a.domain()) || !inside(h.tb, b.domain()) {
            fail!("intersection outside the domain", "{what}: {:?}, domains {:?} {:?}", h, a.domain(), b.domain());
        }
        let eps = 1e-7 * a.scale().max(b.scale()).max(1.);
        if !(dist(&a.at(h.ta), &h.pa) <= eps) || !(dist(&b.at(h.tb), &h.pb) <= eps) {
            fail!("reported point is not the curve's point", "{what}: {:?}, the curves have {:?} {:?}", h, a.at(h.ta), b.at(h.tb));
        }
        if !(dist(&h.pa, &h.pb) <= md * (1. + 1e-9)) {
            fail!("reported points do not coincide", "{what}: {:?}, {} apart", h, dist(&h.pa, &h.pb));
        }
    }
    Ok(())
}

/// every crossing of `need` is reported, once
pub fn complete(what: &str, hits: &[Hit], need: &[&Cross], sa: &[RCurve], sb: &[RCurve], md: f64) -> R {
    for c in need {
        let (da, db) = (sa[c.ia].domain(), sb[c.ib].domain());
        let (la, lb) = (da.1 - da.0, db.1 - db.0);
        let (ea, eb) = ((4. * md / c.va / c.sin).max(1e-4 * la), (4. * md / c.vb / c.sin).max(1e-4 * lb));
        let n = hits.iter().filter(|h| h.ia == c.ia && h.ib == c.ib && (h.ta - c.ta).abs() < ea && (h.tb - c.tb).abs() < eb).count();
        if n == 0 {
            fail!("crossing missed", "{what}: {:?} is not among the {} reported {:?}", c, hits.len(), hits.iter().map(|h| (h.ia, h.ib, h.ta, h.tb)).collect::<Vec<_>>());
        }
        if n > 1 {
            fail!("crossing reported more than once", "{what}: {:?} is reported {n} times: {:?}", c, hits);
        }
    }
    Ok(())
}

pub fn single<C: Cv>(a: &C, b: &C, o: Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<Hit>> {
    a.intersect(b, o)
}

/// which span a reported curve is
fn index_of(s: &[C2], c: &C2) -> usize {
    s.iter().position(|x| x.knots().to_vec() == c.knots().to_vec() && x.control_points() == c.control_points()).unwrap_or(usize::MAX)
}

pub fn rep_intersect(a: &Rep, b: &Rep, o: Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<Hit>> {
    match (a, b) {
        (Rep::Single(x), Rep::Single(y)) => single(x, y, o),
        (Rep::Compound(x), Rep::Single(y)) => Ok(x
            .find_intersections(y, o)?
            .into_iter()
            .map(|i| Hit { ia: index_of(x.spans(), &i.a().0), ib: 0, ta: i.a().2, tb: i.b().2, pa: pv(&i.a().1), pb: pv(&i.b().1) })
            .collect()),
        (Rep::Single(x), Rep::Compound(y)) => {
            // only offered the other way round
            Ok(y.find_intersections(x, o)?
                .into_iter()
                .map(|i| Hit { ib: index_of(y.spans(), &i.a().0), ia: 0, tb: i.a().2, ta: i.b().2, pb: pv(&i.a().1), pa: pv(&i.b().1) })
                .collect())
        }
        (Rep::Compound(x), Rep::Compound(y)) => Ok(x
            .find_intersections(y, o)?
            .into_iter()
            .map(|i| Hit { ia: index_of(x.spans(), &i.a().0), ib: index_of(y.spans(), &i.b().0), ta: i.a().2, tb: i.b().2, pa: pv(&i.a().1), pb: pv(&i.b().1) })
            .collect()),
    }
}

/// the query with an entropy source that fails at some draw first
pub fn failing_query<T>(ctx: &mut Ctx, what: &str, f: impl Fn() -> T) -> R {
    if ctx.d(6) != 0 {
        return Ok(());
    }
    let at = ctx.d(40) as u64;
    let seed = ctx.seed64();
    unsafe { sim_rng_set(0, 0, seed, at) };
    ctx.fault("entropy_failed");
    ctx.ev(|| format!("entropy source fails at draw {at}"));
    if let Err(p) = lib(f) {
        if !p.msg.contains("entropy") {
            return Err(ctx.panic_fail(what, &p));
        }
        ctx.probe("aborted_by_entropy");
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, what: &str, q: &dyn Fn(Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<Hit>>, q2: &dyn Fn(Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<Hit>>, sa: &[RCurve], sb: &[RCurve], need: &[&Cross]) -> R {
    if !need.is_empty() {
        ctx.nontrivial = true;
    }
    ctx.ev(|| format!("{what}: {} crossings to be found: {:?}", need.len(), need.iter().map(|c| (c.ia, c.ib, c.ta, c.tb)).collect::<Vec<_>>()));
    let o = solver(ctx);
    let md = min_dist(&o);
    ctx.ev(|| format!("options {:?}", o));
    failing_query(ctx, what, || q(o.clone()).map(|_| ()))?;
    let reps = ctx.range(1, 2);
    for _ in 0..reps {
        ctx.entropy(0);
        let h = lib(|| q(o.clone())).map_err(|p| ctx.panic_fail("intersection", &p))?.map_err(|e| Fail::new("intersection failed", format!("{what}: {e}")))?;
        ctx.bits(h.len() as u64);
        for x in &h {
            ctx.fb(x.ta);
        }
        sound(what, &h, sa, sb, md)?;
        complete(what, &h, need, sa, sb, md)?;
    }
    ctx.env();
    let h = lib(|| q2(o.clone())).map_err(|p| ctx.panic_fail("intersection", &p))?.map_err(|e| Fail::new("intersection failed", format!("{what}, exchanged: {e}")))?;
    let h: Vec<Hit> = h.into_iter().map(|x| Hit { ia: x.ib, ib: x.ia, ta: x.tb, tb: x.ta, pa: x.pb, pb: x.pa }).collect();
    let w = format!("{what}, exchanged");
    sound(&w, &h, sa, sb, md)?;
    complete(&w, &h, need, sa, sb, md)
}

/// a curve weaving around the x axis
fn wave(ctx: &mut Ctx) -> RCurve {
    let p = ctx.range(1, 4);
    let n = p + 2 + ctx.d(8);
    let kind = if ctx.d(4) == 0 { Knots::Any } else { Knots::Clamped };
    let k = knots(ctx, p, n, kind);
    let w = weights(ctx, n);
    let amp = 0.5 + 3. * ctx.frac();
    let cps = (0..n)
        .map(|i| {
            let s = if i % 2 == 0 { 1. } else { -1. };
            let q = [i as f64 - (n - 1) as f64 / 2. + 0.3 * ctx.unit(), amp * s * (0.5 + 0.5 * ctx.frac())];
            vec![q[0] * w[i], q[1] * w[i], w[i]]
        })
        .collect();
    RCurve { p, knots: k, cps }
}

fn moved(r: &RCurve, m: &[[f64; 2]; 2], t: [f64; 2]) -> RCurve {
    let mut c = r.clone();
    for p in &mut c.cps {
        let (x, y, w) = (p[0], p[1], p[2]);
        p[0] = m[0][0] * x + m[0][1] * y + t[0] * w;
        p[1] = m[1][0] * x + m[1][1] * y + t[1] * w;
    }
    c
}

/// shape-preserving edits of an open or closed curve
pub fn edits<C: Cv>(ctx: &mut Ctx, c: &mut C) -> R {
    for _ in 0..ctx.d(3) {
        match ctx.d(3) {
            0 => {
                ctx.ev(|| "reverse".into());
                lib(|| c.inv()).map_err(|p| ctx.panic_fail("reversal", &p))?;
            }
            1 => {
                let r = c.r();
                let d = r.domain();
                let t = d.0 + (d.1 - d.0) * (0.05 + 0.9 * ctx.frac());
                if super::c01::crowded(&r, t) {
                    continue;
                }
                ctx.ev(|| format!("insert knot {t}"));
                lib(|| c.add_knot(t)).map_err(|p| ctx.panic_fail("knot insertion", &p))?.map_err(|e| Fail::new("knot insertion refused", e.to_string()))?;
            }
            _ => {
                let r = c.r();
                if r.p < 4 && r.p > 1 && c.clamped() {
                    ctx.ev(|| "elevate".into());
                    *c = lib(|| c.elevate(r.p + 1)).map_err(|p| ctx.panic_fail("degree elevation", &p))?.map_err(|e| Fail::new("degree elevation refused", e.to_string()))?;
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    match ctx.d(7) {
        0 | 1 => planar(ctx),
        2 | 3 => shapes(ctx),
        4 | 5 => open_compound(ctx),
        _ => spatial(ctx),
    }
}

fn planar(ctx: &mut Ctx) -> R {
    let kind = if ctx.d(4) == 0 { Knots::Any } else { Knots::Clamped };
    let a = if ctx.d(2) == 0 { rcurve(ctx, 2, kind, 4) } else { wave(ctx) };
    let b = match ctx.d(3) {
        0 => rcurve(ctx, 2, kind, 4),
        1 => {
            // a straight line through the middle of a
            let d = a.domain();
            let m = a.at(d.0 + (d.1 - d.0) * (0.2 + 0.6 * ctx.frac()));
            let ang = ctx.unit() * 3.2;
            let l = 3. + 8. * ctx.frac();
            let f = 0.2 + 0.6 * ctx.frac();
            let e = |s: f64| vec![m[0] + l * s * ang.cos(), m[1] + l * s * ang.sin(), 1.];
            RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps: vec![e(-f), e(1. - f)] }
        }
        _ => {
            let w = wave(ctx);
            let ang = [0., std::f64::consts::FRAC_PI_2, ctx.unit() * 3.][ctx.d(3)];
            let m = [[ang.cos(), -ang.sin()], [ang.sin(), ang.cos()]];
            moved(&w, &m, [ctx.unit(), ctx.unit()])
        }
    };
    let (mut a, mut b) = (mk2(&a), mk2(&b));
    edits(ctx, &mut a)?;
    edits(ctx, &mut b)?;
    let (sa, sb) = (vec![r2(&a)], vec![r2(&b)]);
    ctx.ev(|| format!("a {}", show_curve(&sa[0])));
    ctx.ev(|| format!("b {}", show_curve(&sb[0])));
    let all = crossings(&sa, &sb, 64);
    let need = must_find(&all, &sa, &sb);
    ctx.probe(&format!("planar_{}", need.len().min(6)));
    judge(ctx, "curve x curve", &|o| single(&a, &b, o), &|o| single(&b, &a, o), &sa, &sb, &need)
}

fn shapes(ctx: &mut Ctx) -> R {
    let ra = 1. + 2. * ctx.frac();
    let rb = 1. + 2. * ctx.frac();
    let mut a = shape(ctx, [0., 0.], ra, 0x3ff);
    let d = (ra + rb) * (0.2 + 0.8 * ctx.frac());
    let ang = ctx.unit() * 3.2;
    let mut b = shape(ctx, [d * ang.cos(), d * ang.sin()], rb, 0x3ff);
    a.edit(ctx, true)?;
    b.edit(ctx, true)?;
    ctx.ev(|| format!("a {}", a.describe()));
    ctx.ev(|| format!("b {}", b.describe()));
    let (sa, sb) = (a.rep.rcurves(), b.rep.rcurves());
    let all = crossings(&sa, &sb, 64);
    let need = must_find(&all, &sa, &sb);
    ctx.probe(&format!("shapes_{}", need.len().min(6)));
    judge(ctx, "shape x shape", &|o| rep_intersect(&a.rep, &b.rep, o), &|o| rep_intersect(&b.rep, &a.rep, o), &sa, &sb, &need)
}

/// a chain of random arcs and lines against a line or a shape
fn open_compound(ctx: &mut Ctx) -> R {
    let n = ctx.range(2, 5);
    let mut at = [-(n as f64), ctx.unit()];
    let mut spans = vec![];
    for i in 0..n {
        let to = [at[0] + 1. + ctx.frac(), ctx.unit() * 2.];
        let m = [(at[0] + to[0]) / 2. + 0.3 * ctx.unit(), (at[1] + to[1]) / 2. + 1.5 * ctx.unit()];
        let c = if ctx.d(2) == 0 {
            RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps: vec![vec![at[0], at[1], 1.], vec![to[0], to[1], 1.]] }
        } else {
            RCurve { p: 2, knots: vec![0., 0., 0., 1., 1., 1.], cps: vec![vec![at[0], at[1], 1.], vec![m[0], m[1], 1.], vec![to[0], to[1], 1.]] }
        };
        ctx.ev(|| format!("span {i} {}", show_curve(&c)));
        spans.push(mk2(&c));
        at = to;
    }
    let a = lib(|| Cc2::new(spans.clone())).map_err(|p| ctx.panic_fail("compound curve construction", &p))?;
    if a.spans().len() != n {
        return Ok(());
    }
    let k = ctx.d(3);
    let b = if k == 0 {
        let w = wave(ctx);
        Rep::Single(mk2(&w))
    } else if k == 1 {
        // a line through two points of adjacent spans, one of them next to the joint or end
        let i = ctx.d(n - 1);
        let j = if ctx.d(4) == 0 { ctx.d(n) } else { i + 1 };
        let (x, y) = (0.001 + [0.008, 0.05][ctx.d(2)] * ctx.frac(), 0.05 + 0.85 * ctx.frac());
        let (f, g) = if ctx.d(2) == 0 { (1. - x, y) } else { (1. - y, x) };
        let on = |i: usize, f: f64| {
            let r = r2(&a.spans()[i]);
            r.at(r.domain().0 + f)
        };
        let (p, q) = (on(i, f), on(j, g));
        let (l, m) = (0.2 + ctx.frac(), 0.2 + ctx.frac());
        let e = |s: f64| vec![p[0] + (q[0] - p[0]) * s, p[1] + (q[1] - p[1]) * s, 1.];
        if dist(&p, &q) < 0.05 {
            return Ok(());
        }
        Rep::Single(mk2(&RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps: vec![e(-l), e(1. + m)] }))
    } else {
        let (q, r) = ([ctx.unit() * 2., ctx.unit()], 1. + ctx.frac());
        let s = shape(ctx, q, r, 0x3ff);
        s.rep
    };
    let a = Rep::Compound(a);
    let (sa, sb) = (a.rcurves(), b.rcurves());
    for s in &sb {
        ctx.ev(|| format!("b {}", show_curve(s)));
    }
    let all = crossings(&sa, &sb, 64);
    let need = must_find(&all, &sa, &sb);
    ctx.probe(&format!("chain_{}", need.len().min(6)));
    judge(ctx, "chain x curve", &|o| rep_intersect(&a, &b, o), &|o| rep_intersect(&b, &a, o), &sa, &sb, &need)
}

/// two space curves made to meet in one point
fn spatial(ctx: &mut Ctx) -> R {
    let kind = if ctx.d(4) == 0 { Knots::Any } else { Knots::Clamped };
    let a = rcurve(ctx, 3, kind, 4);
    let mut b = rcurve(ctx, 3, kind, 4);
    let (da, db) = (a.domain(), b.domain());
    let ta = da.0 + (da.1 - da.0) * (0.1 + 0.8 * ctx.frac());
    let tb = db.0 + (db.1 - db.0) * (0.1 + 0.8 * ctx.frac());
    let off = sub(&a.at(ta), &b.at(tb));
    for p in &mut b.cps {
        let w = p[3];
        for i in 0..3 {
            p[i] += off[i] * w;
        }
    }
    let (x, y) = (a.der(ta), b.der(tb));
    let c = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
    let (va, vb) = (norm(&x), norm(&y));
    let cross = Cross { ia: 0, ib: 0, ta, tb, p: a.at(ta), sin: if va * vb > 0. { norm(&c) / (va * vb) } else { 0. }, va, vb };
    // other near approaches would compete with it
    let far = {
        let (pa, pb) = (a.sample(48), b.sample(48));
        let mut ok = true;
        for q in &pa {
            if (q.0 - ta).abs() < 0.04 * (da.1 - da.0) {
                continue;
            }
            for r in &pb {
                if (r.0 - tb).abs() >= 0.04 * (db.1 - db.0) && dist(&q.1, &r.1) < 0.05 {
                    ok = false;
                }
            }
        }
        ok
    };
    let (ca, cb) = (mk3(&a), mk3(&b));
    let (sa, sb) = (vec![a], vec![b]);
    ctx.ev(|| format!("a {}", show_curve(&sa[0])));
    ctx.ev(|| format!("b {}", show_curve(&sb[0])));
    let all = vec![cross];
    let need = if far { must_find(&all, &sa, &sb) } else { vec![] };
    ctx.probe(&format!("spatial_{}", need.len()));
    judge(ctx, "space curves", &|o| single(&ca, &cb, o), &|o| single(&cb, &ca, o), &sa, &sb, &need)
}
