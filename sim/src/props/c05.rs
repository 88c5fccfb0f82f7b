//! C05: curve and compound curve tessellation under adversarial entropy.
use super::c01::{affine, apply};
use crate::core::*;
use crate::cv::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use crate::shapes::{shape, Rep};
use curvo::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        run,
        quick: 25000,
        thorough: 600000,
        steps: 100_000_000,
        rule: "one run = one seeded curve or compound curve (2D/3D; free-form, convex, straight, degree 1, S-shaped; possibly edited) tessellated 1-3 times under a seeded entropy stream, some streams failing first; non-trivial = a polyline of at least 4 points was judged",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["the deviation bound is judged on arcs without inflection for every stream, and on S-shaped arcs for fair streams only (the sampled mid point may lie on the chord under an adversarial one)"],
    }
}

/// a path: spans in order, addressed by one growing parameter (span index + fraction)
pub struct Path {
    pub spans: Vec<RCurve>,
    /// (global parameter, point), dense
    pub samples: Vec<(f64, Vec<f64>)>,
}
impl Path {
    pub fn new(spans: Vec<RCurve>, per: usize) -> Self {
        let mut samples = vec![];
        for (i, s) in spans.iter().enumerate() {
            let (a, b) = s.domain();
            let v = s.sample(per);
            for (t, p) in v {
                samples.push((i as f64 + (t - a) / (b - a), p));
            }
        }
        Path { spans, samples }
    }
    pub fn at(&self, g: f64) -> Vec<f64> {
        let i = (g.floor() as usize).min(self.spans.len() - 1);
        let s = &self.spans[i];
        let (a, b) = s.domain();
        s.at((a + (b - a) * (g - i as f64)).clamp(a, b))
    }
    /// smallest parameter >= from where the path passes within eps of q
    pub fn next_hit(&self, q: &[f64], from: f64, eps: f64) -> Option<f64> {
        let s = &self.samples;
        let d = |i: usize| dist(&s[i].1, q);
        let start = s.partition_point(|x| x.0 < from - 1e-12);
        // `from` itself
        if dist(&self.at(from.min(self.spans.len() as f64)), q) <= eps {
            return Some(from);
        }
        let i0 = start.saturating_sub(1);
        for i in i0..s.len() {
            let di = d(i);
            if di <= eps && s[i].0 >= from - 1e-12 {
                return Some(s[i].0);
            }
            if i + 1 == s.len() {
                break;
            }
            // a piece can only reach q if q is within its length of its ends
            let step = dist(&s[i].1, &s[i + 1].1) * 1.5 + eps;
            if di <= step && d(i + 1) <= step {
                let mut a = s[i].0.max(from);
                let mut b = s[i + 1].0;
                if b <= a {
                    continue;
                }
                for _ in 0..70 {
                    let m1 = a + (b - a) * 0.381966;
                    let m2 = a + (b - a) * 0.618034;
                    if dist(&self.at(m1), q) < dist(&self.at(m2), q) {
                        b = m2
                    } else {
                        a = m1
                    }
                }
                let t = (a + b) * 0.5;
                if dist(&self.at(t), q) <= eps {
                    return Some(t);
                }
            }
        }
        None
    }
    pub fn scale(&self) -> f64 {
        self.spans.iter().map(|s| s.scale()).fold(0., f64::max)
    }
}

pub fn point_seg(q: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let d = sub(b, a);
    let l2 = dot(&d, &d);
    let t = if l2 > 0. { (dot(&sub(q, a), &d) / l2).clamp(0., 1.) } else { 0. };
    let f: Vec<f64> = a.iter().zip(&d).map(|(x, y)| x + y * t).collect();
    dist(q, &f)
}

/// on the curve, in order; returns the parameters
pub fn check_order(what: &str, pts: &[Vec<f64>], path: &Path) -> Result<Vec<f64>, Fail> {
    let eps = 1e-7 * path.scale().max(1.);
    if pts.len() < 2 || pts.iter().flatten().any(|x| !x.is_finite()) {
        fail!("polyline unusable", "{what}: {} points {:?}", pts.len(), pts.iter().take(4).collect::<Vec<_>>());
    }
    let n = path.spans.len() as f64;
    if dist(&pts[0], &path.at(0.)) > eps {
        fail!("polyline start", "{what}: starts at {:?}, the curve at {:?}", pts[0], path.at(0.));
    }
    if dist(&pts[pts.len() - 1], &path.at(n)) > eps {
        fail!("polyline end", "{what}: ends at {:?}, the curve at {:?}", pts[pts.len() - 1], path.at(n));
    }
    let mut g = 0.;
    let mut ts = vec![];
    for (i, p) in pts.iter().enumerate() {
        if i + 1 == pts.len() {
            ts.push(n);
            break;
        }
        match path.next_hit(p, g, eps) {
            Some(t) => {
                g = t;
                ts.push(t);
            }
            None => {
                let fine = Path::new(path.spans.clone(), 4000);
                if let Some(t) = fine.next_hit(p, g, eps) {
                    g = t;
                    ts.push(t);
                    continue;
                }
                let anywhere = path.next_hit(p, 0., eps);
                fail!("polyline off the curve or out of order", "{what}: point {i} of {} {:?}: {} after parameter {g}", pts.len(), p, if anywhere.is_some() { "only reached out of order" } else { "not on the curve" });
            }
        }
    }
    Ok(ts)
}

/// worst deviation relative to the tolerance model: dev * max(L, sqrt tol) / f
pub fn deviation(pts: &[Vec<f64>], ts: &[f64], path: &Path, tol: f64) -> (f64, usize) {
    let dim = pts[0].len();
    let f = if dim == 2 { tol } else { tol.sqrt() };
    let mut worst = (0f64, 0);
    for i in 0..pts.len() - 1 {
        let (a, b) = (&pts[i], &pts[i + 1]);
        let l = dist(a, b).max(tol.sqrt());
        let mut dev: f64 = 0.;
        for k in 1..12 {
            let t = ts[i] + (ts[i + 1] - ts[i]) * k as f64 / 12.;
            dev = dev.max(point_seg(&path.at(t), a, b));
        }
        let r = dev * l / f;
        if r > worst.0 {
            worst = (r, i);
        }
    }
    worst
}

pub fn tol_of(ctx: &mut Ctx) -> Option<f64> {
    match ctx.d(4) {
        0 => None,
        1 => Some(1e-2),
        2 => Some(1e-4),
        _ => Some(10f64.powf(-2. - 4. * ctx.frac())),
    }
}

/// entropy that fails at some draw: the call may abort, nothing else may happen
pub fn failing_first<T>(ctx: &mut Ctx, f: impl Fn() -> T) -> R {
    if ctx.d(6) != 0 {
        return Ok(());
    }
    let at = ctx.d(20) as u64;
    let seed = ctx.seed64();
    unsafe { sim_rng_set(0, 0, seed, at) };
    ctx.ev(|| format!("entropy source fails at draw {at}"));
    let r = lib(f);
    if let Err(p) = r {
        if !p.msg.contains("entropy") {
            return Err(ctx.panic_fail("tessellation with failing entropy", &p));
        }
        ctx.probe("aborted_by_entropy");
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, what: &str, call: &dyn Fn() -> Vec<Vec<f64>>, path: &Path, tol: Option<f64>, bound: Option<f64>, fair_only: bool) -> R {
    failing_first(ctx, call)?;
    let mut mode = ctx.entropy(0);
    if fair_only && mode != 0 {
        let seed = ctx.seed64();
        unsafe { sim_rng_set(0, 0, seed, u64::MAX) };
        mode = 0;
    }
    let reps = if fair_only { 6 } else { 1 + ctx.d(2) };
    let mut best = (f64::MAX, 0, 0);
    for _ in 0..reps {
        let pts = lib(call).map_err(|p| ctx.panic_fail("tessellation", &p))?;
        let ts = check_order(what, &pts, path)?;
        ctx.bits(pts.len() as u64);
        if pts.len() > 3 {
            ctx.nontrivial = true;
        }
        if let Some(c) = bound {
            let (r, i) = deviation(&pts, &ts, path, tol.unwrap_or(1e-3));
            if !fair_only && r > c {
                fail!("polyline too far from the curve", "{what}: tolerance {:?}, entropy {}: segment {i} of {} from {:?} to {:?} is {r:.1} times the tolerance away", tol, ENTROPY[mode as usize], pts.len() - 1, pts[i], pts[i + 1]);
            }
            if r < best.0 {
                best = (r, i, pts.len());
            }
            if fair_only && r <= c {
                break;
            }
        }
    }
    if let (Some(c), true) = (bound, fair_only) {
        if best.0 > c {
            fail!("polyline too far from an S-shaped curve", "{what}: tolerance {:?}: in {reps} calls with fair entropy the best polyline ({} points) is still {:.1} times the tolerance away", tol, best.2, best.0);
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    if ctx.d(2) == 0 {
        one::<C2>(ctx)
    } else {
        one::<C3>(ctx)
    }
}

/// lift a planar curve into 3D by a random rigid placement (identity in 2D)
fn place(ctx: &mut Ctx, dim: usize, r: &RCurve) -> RCurve {
    if dim == 2 {
        return r.clone();
    }
    let (m, _) = affine(ctx, 3);
    let cps = r.cps.iter().map(|c| apply(&m, &[c[0], c[1], 0., c[2]])).collect();
    RCurve { p: r.p, knots: r.knots.clone(), cps }
}

fn one<C: Cv>(ctx: &mut Ctx) -> R {
    let tol = tol_of(ctx);
    let kind = ctx.d(8);
    match kind {
        0 | 1 => {
            // any curve: on it, in order, whatever the entropy
            let mut r = rcurve(ctx, C::DIM, Knots::Any, 5);
            rescale(ctx, &mut r.knots);
            ctx.ev(|| format!("tessellate {} with {:?}", show_curve(&r), tol));
            let mut c = C::from_r(&r);
            edits(ctx, &mut c)?;
            let path = Path::new(vec![c.r()], 200);
            judge(ctx, "free-form curve", &|| c.tess(tol), &path, tol, None, false)?;
            if r.p == 1 {
                let pts = lib(|| c.tess(tol)).map_err(|p| ctx.panic_fail("tessellation", &p))?;
                let cps: Vec<Vec<f64>> = c.r().cps.iter().map(|x| proj(x)).collect();
                if c.r().p == 1 && (pts.len() != cps.len() || pts.iter().zip(&cps).any(|(a, b)| dist(a, b) > 1e-9 * c.r().scale().max(1.))) {
                    fail!("degree 1 polyline", "{:?} for control points {:?}", pts, cps);
                }
            }
        }
        2 => {
            // a straight segment in disguise
            let p = ctx.range(2, 4);
            let n = p + 1 + ctx.d(4);
            let k = knots(ctx, p, n, Knots::Clamped);
            let w = weights(ctx, n);
            let a: Vec<f64> = (0..C::DIM).map(|_| ctx.unit() * 5.).collect();
            let mut d: Vec<f64> = (0..C::DIM).map(|_| ctx.unit() * 5.).collect();
            d[0] += 1.;
            if norm(&d) < 0.2 {
                d[0] += 1.;
            }
            let mut f = 0.;
            let cps: Vec<Vec<f64>> = (0..n)
                .map(|i| {
                    let mut c: Vec<f64> = a.iter().zip(&d).map(|(x, y)| (x + y * f) * w[i]).collect();
                    c.push(w[i]);
                    f += 0.1 + ctx.frac();
                    c
                })
                .collect();
            let r = RCurve { p, knots: k, cps };
            ctx.ev(|| format!("straight {}", show_curve(&r)));
            let mut c = C::from_r(&r);
            edits(ctx, &mut c)?;
            let pts = lib(|| c.tess(tol)).map_err(|p| ctx.panic_fail("tessellation", &p))?;
            let path = Path::new(vec![c.r()], 100);
            check_order("straight curve", &pts, &path)?;
            if pts.len() != 2 {
                fail!("straight curve over-refined", "{} points for a straight segment", pts.len());
            }
        }
        3 | 4 => {
            // convex arc
            let r = convex_arc(ctx);
            let r = place(ctx, C::DIM, &r);
            ctx.ev(|| format!("convex arc {} with {:?}", show_curve(&r), tol));
            let mut c = C::from_r(&r);
            edits(ctx, &mut c)?;
            let path = Path::new(vec![c.r()], 160);
            judge(ctx, "convex arc", &|| c.tess(tol), &path, tol, Some(60.), false)?;
        }
        5 => {
            // S-shaped arc, often point symmetric
            let h = 1. + 3. * ctx.frac();
            let x = if ctx.d(2) == 0 { 0. } else { ctx.unit() };
            let (a, b) = (-2. + x, 2. + 0.5 * x);
            let cps = vec![vec![a, -h, 1.], vec![-a, -h, 1.], vec![-b, h, 1.], vec![b, h, 1.]];
            let cps = if ctx.d(2) == 0 { cps } else { vec![vec![-3., 0., 1.], vec![-1., h, 1.], vec![1., -h, 1.], vec![3. + x, 0., 1.]] };
            let r = RCurve { p: 3, knots: vec![0., 0., 0., 0., 1., 1., 1., 1.], cps };
            let r = place(ctx, C::DIM, &r);
            ctx.ev(|| format!("S-shaped {} with {:?}", show_curve(&r), tol));
            let mut c = C::from_r(&r);
            edits(ctx, &mut c)?;
            let path = Path::new(vec![c.r()], 160);
            judge(ctx, "S-shaped arc", &|| c.tess(tol), &path, tol, Some(150.), true)?;
        }
        6 => {
            // closed shape, single or compound
            let (cx, cy, rad) = (ctx.unit() * 3., ctx.unit() * 3., 0.5 + 3. * ctx.frac());
            let mut s = shape(ctx, [cx, cy], rad, 0x3ff);
            s.edit(ctx, true)?;
            ctx.ev(|| format!("closed shape {} with {:?}", s.describe(), tol));
            let spans = s.rep.rcurves();
            let smooth = matches!(s.kind, "circle" | "ellipse" | "arcs" | "polygon" | "segments" | "stadium");
            let path = Path::new(spans, 120);
            let rep = s.rep.clone();
            let call = move || -> Vec<Vec<f64>> {
                match &rep {
                    Rep::Single(c) => c.tessellate(tol).iter().map(pv).collect(),
                    Rep::Compound(c) => c.tessellate(tol).iter().map(pv).collect(),
                }
            };
            judge(ctx, "closed shape", &call, &path, tol, if smooth { Some(60.) } else { None }, false)?;
            let pts = lib(&call).map_err(|p| ctx.panic_fail("tessellation", &p))?;
            joints(&pts, &path)?;
        }
        _ => {
            // open chain of spans
            let n = ctx.range(1, 4);
            let mut at: Vec<f64> = vec![ctx.unit(), ctx.unit()];
            let mut spans = vec![];
            for _ in 0..n {
                let mut r = rcurve(ctx, 2, Knots::Clamped, 3);
                let s = r.at(r.domain().0);
                let d = [at[0] - s[0], at[1] - s[1]];
                for c in r.cps.iter_mut() {
                    let w = c[2];
                    c[0] += d[0] * w;
                    c[1] += d[1] * w;
                }
                at = r.at(r.domain().1);
                spans.push(mk2(&r));
            }
            let e = spans[n - 1].end_points().1;
            let s = spans[0].end_points().0;
            if (e - s).norm() < 1e-2 {
                return Ok(());
            }
            let mut cc: CompoundCurve<f64, nalgebra::Const<3>> = spans.into_iter().collect();
            if ctx.d(2) == 1 {
                ctx.ev(|| "reverse the chain".into());
                cc.invert();
            }
            let path = Path::new(cc.spans().iter().map(r2).collect(), 160);
            ctx.ev(|| format!("open chain of {n} spans with {:?}", tol));
            let call = || -> Vec<Vec<f64>> { cc.tessellate(tol).iter().map(pv).collect() };
            judge(ctx, "chain", &call, &path, tol, None, false)?;
            let pts = lib(call).map_err(|p| ctx.panic_fail("tessellation", &p))?;
            joints(&pts, &path)?;
        }
    }
    Ok(())
}

fn joints(pts: &[Vec<f64>], path: &Path) -> R {
    let eps = 1e-7 * path.scale().max(1.);
    for i in 1..path.spans.len() {
        let j = path.at(i as f64);
        if !pts.iter().any(|p| dist(p, &j) <= eps) {
            fail!("polyline misses a joint", "no point at {:?}, the start of span {i}", j);
        }
    }
    Ok(())
}

fn edits<C: Cv>(ctx: &mut Ctx, c: &mut C) -> R {
    for _ in 0..ctx.d(3) {
        match ctx.d(3) {
            0 => {
                ctx.ev(|| "reverse".into());
                lib(|| c.inv()).map_err(|p| ctx.panic_fail("reversal", &p))?;
            }
            1 => {
                let d = c.dom();
                let t = d.0 + (d.1 - d.0) * (0.05 + 0.9 * ctx.frac());
                if super::c01::crowded(&c.r(), t) {
                    continue;
                }
                ctx.ev(|| format!("insert knot {t}"));
                lib(|| c.add_knot(t)).map_err(|p| ctx.panic_fail("knot insertion", &p))?.map_err(|e| Fail::new("knot insertion refused", e.to_string()))?;
            }
            _ => {
                ctx.ev(|| "normalise knots".into());
                lib(|| c.normalize()).map_err(|p| ctx.panic_fail("normalisation", &p))?;
            }
        }
    }
    Ok(())
}

/// planar arc turning one way only
pub fn convex_arc(ctx: &mut Ctx) -> RCurve {
    let h = |p: [f64; 2], w: f64| vec![p[0] * w, p[1] * w, w];
    match ctx.d(5) {
        4 => {
            // hairpin: the ends nearly meet
            let l = 1. + 4. * ctx.frac();
            let g = 10f64.powf(-1. - 5. * ctx.frac()) * if ctx.d(6) == 0 { 0. } else { 1. };
            let w = 0.5 + ctx.frac();
            RCurve { p: 3, knots: vec![0., 0., 0., 0., 1., 1., 1., 1.], cps: vec![h([0., 0.], 1.), h([l, -0.2 * ctx.frac()], w), h([l * (0.7 + 0.3 * ctx.frac()), g + 0.2 * ctx.frac()], w), h([0.2 * ctx.unit() * g, g], 1.)] }
        }
        0 => {
            let r = 0.3 + 4. * ctx.frac();
            let a = ctx.unit() * 3.;
            let s = if ctx.d(4) == 0 { std::f64::consts::TAU - 10f64.powf(-1. - 5. * ctx.frac()) } else { 0.2 + 6. * ctx.frac() };
            r2(&C2::try_arc(&p2(&[ctx.unit(), ctx.unit()]), &nalgebra::Vector2::x(), &nalgebra::Vector2::y(), r, a, a + s.min(std::f64::consts::TAU)).unwrap())
        }
        1 => {
            let w = 0.4 + 1.6 * ctx.frac();
            let m = [ctx.unit(), 0.5 + 3. * ctx.frac()];
            RCurve { p: 2, knots: vec![0., 0., 0., 1., 1., 1.], cps: vec![h([-2., 0.], 1.), h(m, w), h([2., 0.3 * ctx.unit()], 1.)] }
        }
        2 => {
            let y = 0.5 + 3. * ctx.frac();
            RCurve { p: 3, knots: vec![0., 0., 0., 0., 1., 1., 1., 1.], cps: vec![h([-2., 0.], 1.), h([-1. - ctx.frac(), y], 1.), h([1. + ctx.frac(), y], 1.), h([2., 0.], 1.)] }
        }
        _ => {
            let r = 0.5 + 3. * ctx.frac();
            let f = 0.4 + 0.6 * ctx.frac();
            let (x, y) = (nalgebra::Vector2::x() * r, nalgebra::Vector2::y() * r * f);
            r2(&C2::try_ellipse(&p2(&[ctx.unit(), ctx.unit()]), &x, &y).unwrap())
        }
    }
}
