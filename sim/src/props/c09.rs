//! C09: surface-curve intersection under adversarial entropy.
use super::c01::{affine, apply};
use super::c08::{failing_query, min_dist};
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use curvo::prelude::*;
use nalgebra::{Point3, Vector3};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        run,
        quick: 3000,
        thorough: 100000,
        steps: 8_000_000_000,
        rule: "one run = one seeded surface (height field, sphere, cylinder, free-form) and curve (free-form, line, weave; built to meet where there is no reference), intersected up to three times, each under its own entropy stream, some failing first; non-trivial = at least one well separated transversal crossing had to be found",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["a crossing has to be reported when its angle exceeds 17 degrees, it is at least 3% of the domain away from all borders and seams and from other crossings along the curve, and both curve and surface are gently curved within 5% of the domain around it"],
    }
}

#[derive(Clone, Debug)]
pub struct SHit {
    pub t: f64,
    pub u: f64,
    pub v: f64,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
}

pub fn hits(s: &S3, c: &C3, o: Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<SHit>> {
    Ok(s.find_intersections(c, o)?
        .iter()
        .map(|i| SHit { t: i.b().1, u: i.a().1 .0, v: i.a().1 .1, ps: pv(&i.a().0), pc: pv(&i.b().0) })
        .collect())
}

fn cross3(a: &[f64], b: &[f64]) -> Vec<f64> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

#[derive(Clone, Debug)]
pub struct SCross {
    t: f64,
    u: f64,
    v: f64,
    sin: f64,
    speed: f64,
}

/// three equations, three unknowns
fn newton(s: &RSurface, c: &RCurve, mut t: f64, mut u: f64, mut v: f64) -> Option<(f64, f64, f64)> {
    let (du, dv) = s.domain();
    let dt = c.domain();
    for _ in 0..50 {
        let r = sub(&c.at(t), &s.at(u, v));
        let (a, b, d) = (s.du(u, v), s.dv(u, v), c.der(t));
        // a x + b y - d z = r
        let det = dot(&a, &cross3(&b, &d));
        if det == 0. {
            return None;
        }
        let x = dot(&r, &cross3(&b, &d)) / det;
        let y = dot(&a, &cross3(&r, &d)) / det;
        let z = -dot(&a, &cross3(&b, &r)) / det;
        u = (u + x).clamp(du.0, du.1);
        v = (v + y).clamp(dv.0, dv.1);
        t = (t + z).clamp(dt.0, dt.1);
        if (x / (du.1 - du.0)).abs() + (y / (dv.1 - dv.0)).abs() + (z / (dt.1 - dt.0)).abs() < 1e-14 {
            break;
        }
    }
    (dist(&c.at(t), &s.at(u, v)) < 1e-9 * s.scale().max(c.scale())).then_some((t, u, v))
}

fn make(s: &RSurface, c: &RCurve, t: f64, u: f64, v: f64) -> SCross {
    let n = cross3(&s.du(u, v), &s.dv(u, v));
    let d = c.der(t);
    let l = norm(&n) * norm(&d);
    SCross { t, u, v, sin: if l > 0. { dot(&n, &d).abs() / l } else { 0. }, speed: norm(&d) }
}

fn gentle(s: &RSurface, c: &RCurve, x: &SCross) -> bool {
    if !crate::isect::gentle(c, x.t) {
        return false;
    }
    let (du, dv) = s.domain();
    let (lu, lv) = (du.1 - du.0, dv.1 - dv.0);
    let (a, b) = (s.du(x.u, x.v), s.dv(x.u, x.v));
    let n = cross3(&a, &b);
    let (la, lb) = (norm(&a), norm(&b));
    // neither degenerate nor sheared
    if norm(&n) < 0.5 * la * lb || la * lu < 0.02 * s.scale() || lb * lv < 0.02 * s.scale() {
        return false;
    }
    for i in -2..=2 {
        for j in -2..=2 {
            let (u, v) = (x.u + lu * 0.025 * i as f64, x.v + lv * 0.025 * j as f64);
            if u <= du.0 || u >= du.1 || v <= dv.0 || v >= dv.1 {
                continue;
            }
            let (a2, b2) = (s.du(u, v), s.dv(u, v));
            let n2 = cross3(&a2, &b2);
            let ok = |p: &[f64], q: &[f64]| norm(p) < 1.7 * norm(q) && norm(q) < 1.7 * norm(p);
            if !ok(&a, &a2) || !ok(&b, &b2) || dot(&n, &n2) < 0.8 * norm(&n) * norm(&n2) {
                return false;
            }
        }
    }
    true
}

/// crossings the query must report
fn must<'a>(s: &RSurface, c: &RCurve, all: &'a [SCross]) -> Vec<&'a SCross> {
    let (du, dv) = s.domain();
    let dt = c.domain();
    let inside = |x: f64, d: (f64, f64)| x - d.0 > 0.03 * (d.1 - d.0) && d.1 - x > 0.03 * (d.1 - d.0);
    all.iter()
        .filter(|x| {
            x.sin > 0.3
                && x.speed * (dt.1 - dt.0) > 0.02 * c.scale()
                && inside(x.t, dt)
                && inside(x.u, du)
                && inside(x.v, dv)
                && all.iter().all(|y| std::ptr::eq(*x, y) || (x.t - y.t).abs() > (0.03 * (dt.1 - dt.0)).max(0.01))
                && gentle(s, c, x)
        })
        .collect()
}

fn sound(h: &[SHit], s: &RSurface, c: &RCurve, md: f64) -> R {
    let (du, dv) = s.domain();
    let dt = c.domain();
    let eps = 1e-7 * s.scale().max(c.scale()).max(1.);
    for x in h {
        if !(x.t >= dt.0 && x.t <= dt.1 && x.u >= du.0 && x.u <= du.1 && x.v >= dv.0 && x.v <= dv.1) {
            fail!("intersection outside the domain", "{:?}, domains {:?} {:?} {:?}", x, dt, du, dv);
        }
        if !(dist(&s.at(x.u, x.v), &x.ps) <= eps) || !(dist(&c.at(x.t), &x.pc) <= eps) {
            fail!("reported point is not on its shape", "{:?}: the surface has {:?}, the curve {:?}", x, s.at(x.u, x.v), c.at(x.t));
        }
        if !(dist(&x.ps, &x.pc) <= md * (1. + 1e-9)) {
            fail!("reported points do not coincide", "{:?}: {} apart", x, dist(&x.ps, &x.pc));
        }
    }
    Ok(())
}

fn complete(h: &[SHit], need: &[&SCross], s: &RSurface, c: &RCurve, md: f64) -> R {
    let dt = c.domain();
    for x in need {
        let e = (4. * md / x.speed / x.sin).max(1e-4 * (dt.1 - dt.0));
        let near: Vec<&SHit> = h.iter().filter(|y| (y.t - x.t).abs() < e).collect();
        if near.is_empty() {
            fail!("crossing missed", "{:?} is not among the {} reported {:?}", x, h.len(), h.iter().map(|y| (y.t, y.u, y.v)).collect::<Vec<_>>());
        }
        if near.len() > 1 {
            fail!("crossing reported more than once", "{:?}: {:?}", x, near);
        }
        // the same place on the surface
        let p = s.at(x.u, x.v);
        if dist(&near[0].ps, &p) > 8. * md / x.sin + 1e-4 * s.scale() {
            fail!("crossing displaced on the surface", "{:?}: {:?} instead of {:?}", x, near[0].ps, p);
        }
    }
    Ok(())
}

fn options(ctx: &mut Ctx) -> Option<CurveIntersectionSolverOptions<f64>> {
    match ctx.d(8) {
        0 => None,
        1 => Some(CurveIntersectionSolverOptions::default().with_minimum_distance([1e-3, 1e-4, 1e-5][ctx.d(3)])),
        _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(ctx.range(50, 120)).with_minimum_distance([1e-3, 1e-4, 1e-5][ctx.d(3)])),
    }
}

fn xform_c(c: &RCurve, m: &[Vec<f64>]) -> RCurve {
    RCurve { p: c.p, knots: c.knots.clone(), cps: c.cps.iter().map(|q| apply(m, q)).collect() }
}

/// a height field over a regular grid: x depends on u alone and y on v alone, both linearly
fn field(ctx: &mut Ctx) -> RSurface {
    let (pu, pv) = (ctx.range(1, 3), ctx.range(1, 3));
    let (nu, nv) = (pu + 1 + ctx.d(4), pv + 1 + ctx.d(4));
    let (ku, kv) = (knots(ctx, pu, nu, Knots::Clamped), knots(ctx, pv, nv, Knots::Clamped));
    let g = |k: &[f64], p: usize, i: usize| {
        let a = k[p];
        let b = k[k.len() - p - 1];
        (k[i + 1..=i + p].iter().sum::<f64>() / p as f64 - a) / (b - a)
    };
    let amp = 0.2 + ctx.frac();
    let cps = (0..nu)
        .map(|i| (0..nv).map(|j| vec![6. * g(&ku, pu, i) - 3., 6. * g(&kv, pv, j) - 3., amp * ctx.unit(), 1.]).collect())
        .collect();
    RSurface { pu, pv, ku, kv, cps }
}

/// a curve above, below and through the field
fn piercing(ctx: &mut Ctx) -> RCurve {
    match ctx.d(3) {
        0 => {
            let q = |ctx: &mut Ctx, z: f64| vec![3.5 * ctx.unit(), 3.5 * ctx.unit(), z, 1.];
            let (a, b) = (1. + 2. * ctx.frac(), -1. - 2. * ctx.frac());
            let cps = vec![q(ctx, a), q(ctx, b)];
            RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps }
        }
        1 => {
            // weaving up and down
            let p = ctx.range(2, 3);
            let n = p + 1 + ctx.range(2, 7);
            let k = knots(ctx, p, n, Knots::Clamped);
            let amp = 1. + 3. * ctx.frac();
            let cps = (0..n).map(|i| vec![-2.8 + 5.6 * i as f64 / (n - 1) as f64, 2. * ctx.unit(), if i % 2 == 0 { amp } else { -amp }, 1.]).collect();
            RCurve { p, knots: k, cps }
        }
        _ => rcurve(ctx, 3, Knots::Any, 3),
    }
}

/// all crossings with a height field, by bisection along the curve
fn field_crossings(s: &RSurface, c: &RCurve) -> Vec<SCross> {
    let (du, dv) = s.domain();
    let uv = |p: &[f64]| (du.0 + (p[0] + 3.) / 6. * (du.1 - du.0), dv.0 + (p[1] + 3.) / 6. * (dv.1 - dv.0));
    let g = |t: f64| -> Option<(f64, f64, f64)> {
        let p = c.at(t);
        let (u, v) = uv(&p);
        (u >= du.0 && u <= du.1 && v >= dv.0 && v <= dv.1).then(|| (p[2] - s.at(u, v)[2], u, v))
    };
    let br = c.breaks();
    let mut out = vec![];
    for w in br.windows(2) {
        let n = 160;
        for i in 0..n {
            let (mut a, mut b) = (w[0] + (w[1] - w[0]) * i as f64 / n as f64, w[0] + (w[1] - w[0]) * (i + 1) as f64 / n as f64);
            let (Some(x), Some(y)) = (g(a), g(b)) else { continue };
            if (x.0 > 0.) == (y.0 > 0.) {
                continue;
            }
            let up = y.0 > 0.;
            for _ in 0..60 {
                let m = 0.5 * (a + b);
                match g(m) {
                    Some(z) if (z.0 > 0.) == up => b = m,
                    Some(_) => a = m,
                    None => break,
                }
            }
            let t = 0.5 * (a + b);
            if let Some(z) = g(t) {
                out.push(make(s, c, t, z.1, z.2));
            }
        }
    }
    out
}

/// crossings of a line with a sphere or cylinder, refined on the surface
fn quadric(ctx: &mut Ctx) -> Result<(S3, RCurve, Vec<SCross>), Fail> {
    let r = 0.6 + 2. * ctx.frac();
    let sphere = ctx.d(2) == 0;
    let h = 2. + 3. * ctx.frac();
    let s = if sphere {
        S3::try_sphere(&Point3::origin(), &Vector3::x(), &Vector3::y(), r).unwrap()
    } else {
        let c = C3::try_circle(&Point3::new(0., 0., -h / 2.), &Vector3::x(), &Vector3::y(), r).unwrap();
        S3::extrude(&c, &(Vector3::z() * h))
    };
    let q = |ctx: &mut Ctx| [ctx.unit() * 0.8 * r, ctx.unit() * 0.8 * r, ctx.unit() * 0.5 * r];
    let m = q(ctx);
    let d = [ctx.unit(), ctx.unit(), 0.4 * ctx.unit()];
    let l = norm(&d);
    if l < 0.1 {
        return Ok((s, RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps: vec![vec![5., 5., 5., 1.], vec![6., 5., 5., 1.]] }, vec![]));
    }
    let d: Vec<f64> = d.iter().map(|x| x / l).collect();
    let e = |t: f64| vec![m[0] + d[0] * t, m[1] + d[1] * t, m[2] + d[2] * t, 1.];
    let (t0, t1) = (-(0.5 + 3. * ctx.frac()) * r, (0.5 + 3. * ctx.frac()) * r);
    let c = RCurve { p: 1, knots: vec![0., 0., 1., 1.], cps: vec![e(t0), e(t1)] };
    let k = if sphere { 3 } else { 2 };
    let (a2, b1, c0) = (dot(&d[..k], &d[..k]), 2. * dot(&m[..k], &d[..k]), dot(&m[..k], &m[..k]) - r * r);
    let disc = b1 * b1 - 4. * a2 * c0;
    let mut out = vec![];
    let rs_ = rs(&s);
    if disc > 0. {
        for sg in [-1., 1.] {
            let x = (-b1 + sg * disc.sqrt()) / (2. * a2);
            let t = (x - t0) / (t1 - t0);
            let p = c.at(t.clamp(0., 1.));
            if !(0. ..=1.).contains(&t) || (!sphere && p[2].abs() > h / 2.) {
                continue;
            }
            // where on the surface: nearest sample, then Newton
            let (du, dv) = rs_.domain();
            let mut best = (f64::MAX, 0., 0.);
            for i in 0..=40 {
                for j in 0..=40 {
                    let (u, v) = (du.0 + (du.1 - du.0) * i as f64 / 40., dv.0 + (dv.1 - dv.0) * j as f64 / 40.);
                    let e = dist(&rs_.at(u, v), &p);
                    if e < best.0 {
                        best = (e, u, v);
                    }
                }
            }
            match newton(&rs_, &c, t, best.1, best.2) {
                Some((t, u, v)) => out.push(make(&rs_, &c, t, u, v)),
                // at a pole or seam: it is there, but need not be found
                None => out.push(SCross { t, u: du.0, v: dv.0, sin: 0., speed: norm(&c.der(t)) }),
            }
        }
    }
    Ok((s, c, out))
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let (mut s, mut c, all) = match ctx.d(6) {
        0..=2 => {
            let f = field(ctx);
            let c = piercing(ctx);
            let all = field_crossings(&f, &c);
            (mks(&f), c, all)
        }
        3 | 4 => quadric(ctx)?,
        _ => {
            // free-form, made to meet
            let r = rsurface(ctx, Knots::Clamped, 3);
            let mut c = rcurve(ctx, 3, Knots::Any, 3);
            let (du, dv) = r.domain();
            let dt = c.domain();
            let (u, v, t) = (du.0 + (du.1 - du.0) * (0.1 + 0.8 * ctx.frac()), dv.0 + (dv.1 - dv.0) * (0.1 + 0.8 * ctx.frac()), dt.0 + (dt.1 - dt.0) * (0.1 + 0.8 * ctx.frac()));
            let off = sub(&r.at(u, v), &c.at(t));
            for p in &mut c.cps {
                let w = p[3];
                for i in 0..3 {
                    p[i] += off[i] * w;
                }
            }
            let x = make(&r, &c, t, u, v);
            // further approaches compete with it: only one sheet, met once
            let near = |p: &[f64]| {
                let mut best = f64::MAX;
                for i in 0..=24 {
                    for j in 0..=24 {
                        best = best.min(dist(&r.at(du.0 + (du.1 - du.0) * i as f64 / 24., dv.0 + (dv.1 - dv.0) * j as f64 / 24.), p));
                    }
                }
                best
            };
            let lone = (0..=40).all(|i| {
                let s = dt.0 + (dt.1 - dt.0) * i as f64 / 40.;
                (s - t).abs() < 0.08 * (dt.1 - dt.0) || near(&c.at(s)) > 0.5
            });
            (mks(&r), c, if lone { vec![x] } else { vec![] })
        }
    };
    let mut r = rs(&s);
    // anywhere in space
    let mut all = all;
    if ctx.d(2) == 0 {
        let (m, _) = affine(ctx, 3);
        let mm = nalgebra::Matrix4::from_fn(|i, j| m[i][j]);
        ctx.ev(|| format!("transform both {:?}", m));
        lib(|| s.transform(&mm)).map_err(|p| ctx.panic_fail("transformation", &p))?;
        c = xform_c(&c, &m);
        r = rs(&s);
        for x in &mut all {
            if x.sin > 0. {
                *x = make(&r, &c, x.t, x.u, x.v);
            }
        }
    }
    let mut cc = mk3(&c);
    if ctx.d(3) == 0 {
        ctx.ev(|| "reverse the curve".into());
        lib(|| cc.invert()).map_err(|p| ctx.panic_fail("reversal", &p))?;
        let d = c.domain();
        c = r3(&cc);
        let e = c.domain();
        for x in &mut all {
            x.t = e.0 + (d.1 - x.t);
        }
    }
    ctx.ev(|| format!("surface degrees {} {} knots {:?} {:?} control points {:?}", r.pu, r.pv, r.ku, r.kv, r.cps));
    ctx.ev(|| format!("curve {}", show_curve(&c)));
    let need = must(&r, &c, &all);
    if !need.is_empty() {
        ctx.nontrivial = true;
    }
    ctx.probe(&format!("crossings_{}", need.len().min(5)));
    ctx.ev(|| format!("to be found: {:?}", need));
    let o = options(ctx);
    ctx.ev(|| format!("options {:?}", o));
    let md = min_dist(&o);
    failing_query(ctx, "surface intersection", || hits(&s, &cc, o.clone()).map(|_| ()))?;
    for _ in 0..ctx.range(1, 2) {
        ctx.entropy(0);
        ctx.env();
        let h = lib(|| hits(&s, &cc, o.clone())).map_err(|p| ctx.panic_fail("intersection", &p))?.map_err(|e| Fail::new("intersection failed", e.to_string()))?;
        ctx.bits(h.len() as u64);
        for x in &h {
            ctx.fb(x.t);
        }
        sound(&h, &r, &c, md)?;
        complete(&h, &need, &r, &c, md)?;
    }
    Ok(())
}
