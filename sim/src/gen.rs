//! Generators of models, and conversions between curvo values and the reference model.
use crate::core::*;
use crate::refmodel::*;
use curvo::prelude::*;
use nalgebra::{Const, Point2, Point3};

pub type C2 = NurbsCurve2D<f64>;
pub type C3 = NurbsCurve3D<f64>;
pub type S3 = NurbsSurface3D<f64>;

pub fn r2(c: &C2) -> RCurve {
    RCurve { p: c.degree(), knots: c.knots().to_vec(), cps: c.control_points().iter().map(|p| p.coords.as_slice().to_vec()).collect() }
}
pub fn r3(c: &C3) -> RCurve {
    RCurve { p: c.degree(), knots: c.knots().to_vec(), cps: c.control_points().iter().map(|p| p.coords.as_slice().to_vec()).collect() }
}
pub fn rs(s: &S3) -> RSurface {
    RSurface {
        pu: s.u_degree(),
        pv: s.v_degree(),
        ku: s.u_knots().to_vec(),
        kv: s.v_knots().to_vec(),
        cps: s.control_points().iter().map(|r| r.iter().map(|p| p.coords.as_slice().to_vec()).collect()).collect(),
    }
}
pub fn mk2(r: &RCurve) -> C2 {
    C2::try_new(r.p, r.cps.iter().map(|c| Point3::new(c[0], c[1], c[2])).collect(), r.knots.clone()).unwrap()
}
pub fn mk3(r: &RCurve) -> C3 {
    C3::try_new(r.p, r.cps.iter().map(|c| nalgebra::Point4::new(c[0], c[1], c[2], c[3])).collect(), r.knots.clone()).unwrap()
}
pub fn mks(r: &RSurface) -> S3 {
    S3::new(
        r.pu,
        r.pv,
        r.ku.clone(),
        r.kv.clone(),
        r.cps.iter().map(|row| row.iter().map(|c| nalgebra::Point4::new(c[0], c[1], c[2], c[3])).collect()).collect(),
    )
}

pub fn p2(v: &[f64]) -> Point2<f64> {
    Point2::new(v[0], v[1])
}
pub fn p3(v: &[f64]) -> Point3<f64> {
    Point3::new(v[0], v[1], v[2])
}
pub fn pv<const D: usize>(p: &nalgebra::OPoint<f64, Const<D>>) -> Vec<f64> {
    p.coords.as_slice().to_vec()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Knots {
    Clamped,
    Any,
}

/// knot vector for n control points: spans are never thinner than 1/40 of the domain
pub fn knots(ctx: &mut Ctx, p: usize, n: usize, kind: Knots) -> Vec<f64> {
    let interior = n - p - 1;
    let style = ctx.d(if kind == Knots::Any { 5 } else { 4 });
    let (t0, len) = match ctx.d(4) {
        0 => (0., 1.),
        1 => (0., n as f64),
        2 => (ctx.unit() * 5., 0.5 + 4. * ctx.frac()),
        _ => (-1., 10.),
    };
    let mut v;
    if style == 4 {
        // unclamped, uniform
        let m = n + p + 1;
        v = (0..m).map(|i| i as f64).collect::<Vec<_>>();
        let a = v[p];
        let b = v[n];
        for x in &mut v {
            *x = t0 + (*x - a) / (b - a) * len;
        }
        return v;
    }
    let mut steps: Vec<f64> = vec![];
    for i in 0..=interior {
        let s = match style {
            0 => 1.,
            1 => 0.25 + ctx.frac(),
            2 => {
                // repeated interior knots (multiplicity up to p)
                if i > 0 && i < interior && ctx.chance(1, 3) { 0. } else { 0.3 + ctx.frac() }
            }
            _ => [0.1, 1., 3.][ctx.d(3)],
        };
        steps.push(s);
    }
    // never let an interior knot exceed multiplicity p
    let mut zeros = 0;
    for s in steps.iter_mut() {
        if *s == 0. {
            zeros += 1;
            if zeros + 1 > p {
                *s = 0.5;
                zeros = 0;
            }
        } else {
            zeros = 0;
        }
    }
    let tot: f64 = steps.iter().sum();
    v = vec![t0; p + 1];
    let mut acc = 0.;
    for s in &steps[..interior] {
        acc += s;
        v.push(t0 + acc / tot * len);
    }
    v.extend(vec![t0 + len; p + 1]);
    v
}

pub fn weights(ctx: &mut Ctx, n: usize) -> Vec<f64> {
    if ctx.d(2) == 0 {
        vec![1.; n]
    } else {
        (0..n).map(|_| 0.5 + 1.5 * ctx.frac()).collect()
    }
}

/// sometimes a narrow or wide parameter domain
pub fn rescale(ctx: &mut Ctx, k: &mut [f64]) {
    if ctx.d(6) != 5 {
        return;
    }
    let (a, b) = (k[0], k[k.len() - 1]);
    let (t0, len) = [(0., 1e-3), (0., 1e-5), (100., 1000.), (-3., 0.01)][ctx.d(4)];
    for x in k {
        *x = t0 + (*x - a) / (b - a) * len;
    }
}

/// open wandering curve in `dim` dimensions
pub fn rcurve(ctx: &mut Ctx, dim: usize, kind: Knots, pmax: usize) -> RCurve {
    let p = ctx.range(1, pmax);
    let n = p + 1 + ctx.d(6);
    let knots = knots(ctx, p, n, kind);
    let w = weights(ctx, n);
    let wild = ctx.d(3);
    let mut cps = vec![];
    for i in 0..n {
        let mut c: Vec<f64> = (0..dim)
            .map(|d| {
                let base = if wild == 0 { if d == 0 { i as f64 } else { 0. } } else { 0. };
                base + ctx.unit() * if wild == 2 { 10. } else { 2. }
            })
            .collect();
        for x in c.iter_mut() {
            *x *= w[i];
        }
        c.push(w[i]);
        cps.push(c);
    }
    RCurve { p, knots, cps }
}

pub fn rsurface(ctx: &mut Ctx, kind: Knots, pmax: usize) -> RSurface {
    let pu = ctx.range(1, pmax);
    let pv = ctx.range(1, pmax);
    let nu = pu + 1 + ctx.d(4);
    let nv = pv + 1 + ctx.d(4);
    let ku = knots(ctx, pu, nu, kind);
    let kv = knots(ctx, pv, nv, kind);
    let rational = ctx.d(2) == 1;
    let bumpy = 0.2 + 1.5 * ctx.frac();
    let cps = (0..nu)
        .map(|i| {
            (0..nv)
                .map(|j| {
                    let w = if rational { 0.6 + ctx.frac() } else { 1. };
                    let x = i as f64 + 0.3 * ctx.unit();
                    let y = j as f64 + 0.3 * ctx.unit();
                    let z = bumpy * ctx.unit();
                    vec![x * w, y * w, z * w, w]
                })
                .collect()
        })
        .collect();
    RSurface { pu, pv, ku, kv, cps }
}

pub fn show_curve(r: &RCurve) -> String {
    format!("degree {} knots {:?} control points {:?}", r.p, r.knots, r.cps)
}
