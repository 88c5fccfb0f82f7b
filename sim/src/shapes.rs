//! Closed simple planar shapes in many representations, with an independent
//! reference outline (winding number, distance, exact area).
use crate::core::*;
use crate::gen::*;
use crate::refmodel::*;
use curvo::prelude::*;
use nalgebra::{Point2, Vector2};

pub type Cc2 = CompoundCurve<f64, nalgebra::Const<3>>;

#[derive(Clone, Debug)]
pub struct Loop {
    pub spans: Vec<RCurve>,
    pub poly: Vec<[f64; 2]>,
}

pub fn seg_dist(q: &[f64], a: &[f64; 2], b: &[f64; 2]) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l2 = dx * dx + dy * dy;
    let t = if l2 > 0. { (((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l2).clamp(0., 1.) } else { 0. };
    let (x, y) = (a[0] + t * dx - q[0], a[1] + t * dy - q[1]);
    (x * x + y * y).sqrt()
}

/// winding number of a closed polygon
pub fn winding(poly: &[[f64; 2]], q: &[f64]) -> i32 {
    let mut w = 0;
    let n = poly.len();
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        let o = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]);
        if a[1] <= q[1] {
            if b[1] > q[1] && o > 0. {
                w += 1;
            }
        } else if b[1] <= q[1] && o < 0. {
            w -= 1;
        }
    }
    w
}

pub fn poly_area(poly: &[[f64; 2]]) -> f64 {
    let n = poly.len();
    let o = poly.first().copied().unwrap_or([0., 0.]);
    (0..n)
        .map(|i| {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
        })
        .sum::<f64>()
        * 0.5
}

impl Loop {
    pub fn new(spans: Vec<RCurve>, per: usize) -> Self {
        let mut poly: Vec<[f64; 2]> = vec![];
        for s in &spans {
            let per = if s.p == 1 { 1 } else { per };
            let v = s.sample(per);
            poly.extend(v[..v.len() - 1].iter().map(|x| [x.1[0], x.1[1]]));
        }
        Loop { spans, poly }
    }
    pub fn winding(&self, q: &[f64]) -> i32 {
        winding(&self.poly, q)
    }
    pub fn inside(&self, q: &[f64]) -> bool {
        self.winding(q) % 2 != 0
    }
    pub fn dist(&self, q: &[f64]) -> f64 {
        let n = self.poly.len();
        (0..n).map(|i| seg_dist(q, &self.poly[i], &self.poly[(i + 1) % n])).fold(f64::MAX, f64::min)
    }
    /// signed area by quadrature of the exact spans
    pub fn area(&self) -> f64 {
        const X: [f64; 4] = [0.1834346424956498, 0.525532409916329, 0.7966664774136267, 0.9602898564975363];
        const W: [f64; 4] = [0.362683783378362, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763];
        let o = self.poly[0];
        let mut s = 0.;
        for c in &self.spans {
            for b in c.breaks().windows(2) {
                let pieces = if c.p == 1 { 1 } else { 6 };
                let h = (b[1] - b[0]) / pieces as f64;
                for i in 0..pieces {
                    let m = b[0] + h * (i as f64 + 0.5);
                    for k in 0..4 {
                        for sg in [-1., 1.] {
                            let t = m + sg * X[k] * h * 0.5;
                            let (p, d) = (c.at(t), c.der(t));
                            s += 0.5 * ((p[0] - o[0]) * d[1] - (p[1] - o[1]) * d[0]) * W[k] * h * 0.5;
                        }
                    }
                }
            }
        }
        s
    }
    pub fn bbox(&self) -> ([f64; 2], [f64; 2]) {
        let mut a = [f64::MAX; 2];
        let mut b = [f64::MIN; 2];
        for p in &self.poly {
            for i in 0..2 {
                a[i] = a[i].min(p[i]);
                b[i] = b[i].max(p[i]);
            }
        }
        (a, b)
    }
    pub fn size(&self) -> f64 {
        let (a, b) = self.bbox();
        (b[0] - a[0]).max(b[1] - a[1])
    }
    pub fn convex(&self) -> bool {
        let n = self.poly.len();
        let mut s = 0.;
        for i in 0..n {
            let (a, b, c) = (self.poly[i], self.poly[(i + 1) % n], self.poly[(i + 2) % n]);
            let x = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]);
            if x.abs() < 1e-12 * self.size().powi(2) {
                continue;
            }
            if s * x < 0. {
                return false;
            }
            s = x;
        }
        true
    }
    /// simple star shape around c: the angle grows all the way around, once
    fn star_shaped(&self, c: &[f64; 2]) -> bool {
        let n = self.poly.len();
        let mut tot = 0.;
        for i in 0..n {
            let (a, b) = (self.poly[i], self.poly[(i + 1) % n]);
            let (ax, ay, bx, by) = (a[0] - c[0], a[1] - c[1], b[0] - c[0], b[1] - c[1]);
            let d = (ax * by - ay * bx).atan2(ax * bx + ay * by);
            if d <= 1e-6 {
                return false;
            }
            tot += d;
        }
        (tot - std::f64::consts::TAU).abs() < 1e-6
    }
}

#[derive(Clone, Debug)]
pub enum Rep {
    Single(C2),
    Compound(Cc2),
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub rep: Rep,
    pub lp: Loop,
    pub kind: &'static str,
    pub ccw: bool,
    pub center: [f64; 2],
}

impl Rep {
    pub fn compound(&self) -> Cc2 {
        match self {
            Rep::Single(c) => c.clone().into(),
            Rep::Compound(c) => c.clone(),
        }
    }
    pub fn rcurves(&self) -> Vec<RCurve> {
        match self {
            Rep::Single(c) => vec![r2(c)],
            Rep::Compound(c) => c.spans().iter().map(r2).collect(),
        }
    }
}

pub const KINDS: usize = 10;

/// vertices at growing angles around c, ccw, exactly n
fn ring(ctx: &mut Ctx, c: [f64; 2], r: f64, n: usize, vary: f64) -> Vec<[f64; 2]> {
    let phase = ctx.unit() * std::f64::consts::PI;
    let jit = if ctx.d(2) == 0 { 0. } else { 0.5 };
    (0..n)
        .map(|i| {
            let a = phase + (i as f64 + jit * (ctx.frac() - 0.5)) / n as f64 * std::f64::consts::TAU;
            let rr = r * (1. - vary * ctx.frac());
            [c[0] + rr * a.cos(), c[1] + rr * a.sin()]
        })
        .collect()
}

fn hom(p: &[f64; 2], w: f64) -> Vec<f64> {
    vec![p[0] * w, p[1] * w, w]
}

/// One closed simple shape around `c` of outer radius about `r`.
/// `mask`: which of the kinds are allowed (bit set).
pub fn shape(ctx: &mut Ctx, c: [f64; 2], r: f64, mask: u32) -> Shape {
    let allowed: Vec<usize> = (0..KINDS).filter(|k| mask >> k & 1 == 1).collect();
    let k = *ctx.pick(&allowed);
    let o = Point2::new(c[0], c[1]);
    let rot = ctx.unit() * 3.;
    let (ex, ey) = (Vector2::new(rot.cos(), rot.sin()), Vector2::new(-rot.sin(), rot.cos()));
    let line = |a: [f64; 2], b: [f64; 2]| C2::polyline(&[Point2::new(a[0], a[1]), Point2::new(b[0], b[1])], true);
    let (kind, rep): (&'static str, Rep) = match k {
        0 => ("circle", Rep::Single(C2::try_circle(&o, &ex, &ey, r).unwrap())),
        1 => {
            let f = 0.4 + 0.6 * ctx.frac();
            ("ellipse", Rep::Single(C2::try_ellipse(&o, &(ex * r), &(ey * r * f)).unwrap()))
        }
        2 => {
            // rectangle / regular polygon / star polygon as one closed polyline
            let n = ctx.range(3, 9);
            let vary = [0., 0.3, 0.6][ctx.d(3)];
            let mut v = ring(ctx, c, r, n, vary);
            v.push(v[0]);
            let pts: Vec<_> = v.iter().map(|p| Point2::new(p[0], p[1])).collect();
            ("polygon", Rep::Single(C2::polyline(&pts, ctx.d(2) == 0)))
        }
        3 | 4 => {
            // clamped closed B-spline with a star-shaped control polygon
            let p = ctx.range(2, 4);
            let n = ctx.range(5.max(p + 2), 10);
            let vary = 0.5 * ctx.frac();
            let mut v = ring(ctx, c, r, n, vary);
            v.push(v[0]);
            let n = v.len();
            let kn = knots(ctx, p, n, Knots::Clamped);
            let mut w: Vec<f64> = if k == 4 { weights(ctx, n) } else { vec![1.; n] };
            w[n - 1] = w[0];
            ("spline", Rep::Single(mk2(&RCurve { p, knots: kn, cps: v.iter().zip(&w).map(|(a, w)| hom(a, *w)).collect() })))
        }
        5 => {
            let p = ctx.range(2, 4);
            let n = ctx.range(5.max(p + 2), 10);
            let vary = 0.5 * ctx.frac();
            let v = ring(ctx, c, r, n, vary);
            let pts: Vec<_> = v.iter().map(|p| Point2::new(p[0], p[1])).collect();
            ("periodic", Rep::Single(C2::try_periodic(&pts, p).unwrap()))
        }
        6 => {
            // polygon as separate segments
            let n = ctx.range(3, 7);
            let vary = [0., 0.3, 0.6][ctx.d(3)];
            let v = ring(ctx, c, r, n, vary);
            let spans = (0..n).map(|i| line(v[i], v[(i + 1) % n])).collect();
            ("segments", Rep::Compound(Cc2::new(spans)))
        }
        7 => {
            // segments and parabolic arcs
            let n = ctx.range(3, 6);
            let vary = 0.3 * ctx.frac();
            let v = ring(ctx, c, r, n, vary);
            let spans = (0..n)
                .map(|i| {
                    let (a, b) = (v[i], v[(i + 1) % n]);
                    if ctx.d(2) == 0 {
                        return line(a, b);
                    }
                    let m = [(a[0] + b[0]) / 2., (a[1] + b[1]) / 2.];
                    let s = 1. + 0.45 * ctx.unit();
                    let m = [c[0] + (m[0] - c[0]) * s, c[1] + (m[1] - c[1]) * s];
                    let w = if ctx.d(2) == 0 { 1. } else { 0.6 + 0.8 * ctx.frac() };
                    mk2(&RCurve { p: 2, knots: vec![0., 0., 0., 1., 1., 1.], cps: vec![hom(&a, 1.), hom(&m, w), hom(&b, 1.)] })
                })
                .collect();
            ("bulged", Rep::Compound(Cc2::new(spans)))
        }
        8 => {
            // circle as several arcs
            let n = ctx.range(2, 4);
            let a0 = ctx.unit() * 3.;
            let spans = (0..n)
                .map(|i| {
                    let t = std::f64::consts::TAU;
                    C2::try_arc(&o, &ex, &ey, r, a0 + t * i as f64 / n as f64, a0 + t * (i + 1) as f64 / n as f64).unwrap()
                })
                .collect();
            ("arcs", Rep::Compound(Cc2::new(spans)))
        }
        _ => {
            // stadium: two lines, two half circles
            let h = r * (0.2 + 0.4 * ctx.frac());
            let rr = r - h;
            let at = |x: f64, y: f64| [c[0] + ex.x * x + ey.x * y, c[1] + ex.y * x + ey.y * y];
            let cap = |x: f64, a: f64| {
                let q = at(x, 0.);
                C2::try_arc(&Point2::new(q[0], q[1]), &ex, &ey, rr, a, a + std::f64::consts::PI).unwrap()
            };
            let p = std::f64::consts::FRAC_PI_2;
            let spans = vec![line(at(-h, -rr), at(h, -rr)), cap(h, -p), line(at(h, rr), at(-h, rr)), cap(-h, p)];
            ("stadium", Rep::Compound(Cc2::new(spans)))
        }
    };
    let lp = Loop::new(rep.rcurves(), 48);
    if !lp.star_shaped(&c) {
        // degenerate draw: fall back to the simplest shape
        let rep = Rep::Single(C2::try_circle(&o, &ex, &ey, r).unwrap());
        let lp = Loop::new(rep.rcurves(), 48);
        return Shape { rep, lp, kind: "circle", ccw: true, center: c };
    }
    Shape { rep, lp, kind, ccw: true, center: c }
}

/// One closed simple shape around `c` that is not star shaped: a bent band
/// or a comb, of outer radius about `r`.
pub fn bent(ctx: &mut Ctx, c: [f64; 2], r: f64) -> Shape {
    let rot = ctx.unit() * 3.;
    let at = |x: f64, y: f64| [c[0] + r * (x * rot.cos() - y * rot.sin()), c[1] + r * (x * rot.sin() + y * rot.cos())];
    let pt = |q: [f64; 2]| Point2::new(q[0], q[1]);
    let line = |a: [f64; 2], b: [f64; 2]| C2::polyline(&[pt(a), pt(b)], true);
    let inner = ctx.between(0.4, 0.75);
    let half = ctx.between(1.5, 2.6);
    let polar = |rad: f64, al: f64| at(rad * al.cos(), rad * al.sin());
    let (kind, rep): (&'static str, Rep) = if ctx.d(2) == 0 {
        // a band of two arcs and two lines
        let (ex, ey) = (Vector2::new(rot.cos(), rot.sin()), Vector2::new(-rot.sin(), rot.cos()));
        let mut back = C2::try_arc(&pt(c), &ex, &ey, r * inner, -half, half).unwrap();
        back.invert();
        let spans = vec![
            C2::try_arc(&pt(c), &ex, &ey, r, -half, half).unwrap(),
            line(polar(1., half), polar(inner, half)),
            back,
            line(polar(inner, -half), polar(1., -half)),
        ];
        ("band", Rep::Compound(Cc2::new(spans)))
    } else {
        let v: Vec<[f64; 2]> = if ctx.d(2) == 0 {
            let n = ctx.range(3, 6);
            let f = |i: usize| -half + 2. * half * i as f64 / n as f64;
            (0..=n).map(|i| polar(1., f(i))).chain((0..=n).rev().map(|i| polar(inner, f(i)))).collect()
        } else {
            // teeth
            let n = ctx.range(2, 3);
            let w = 2. / (2 * n - 1) as f64;
            let base = -0.9 + 0.3 * ctx.frac();
            let mut v = vec![at(-1., -1.), at(1., -1.)];
            for i in (0..n).rev() {
                let x = -1. + 2. * w * i as f64;
                v.push(at(x + w, 1.));
                v.push(at(x, 1.));
                if i > 0 {
                    v.push(at(x, base));
                    v.push(at(x - w, base));
                }
            }
            v
        };
        let n = v.len();
        if ctx.d(4) == 0 {
            let mut pts: Vec<_> = v.iter().map(|q| pt(*q)).collect();
            pts.push(pts[0]);
            ("comb", Rep::Single(C2::polyline(&pts, ctx.d(2) == 0)))
        } else {
            let spans = (0..n).map(|i| line(v[i], v[(i + 1) % n])).collect();
            ("comb", Rep::Compound(Cc2::new(spans)))
        }
    };
    let lp = Loop::new(rep.rcurves(), 48);
    Shape { rep, lp, kind, ccw: true, center: c }
}

impl Shape {
    /// drawn out `k` times one way
    pub fn stretch(&mut self, ctx: &mut Ctx, k: f64) -> R {
        let al = ctx.unit() * 3.2;
        let (sn, cs) = al.sin_cos();
        let [x, y] = self.center;
        // rotate, scale x, rotate back, about the centre
        let a = nalgebra::Matrix2::new(cs, -sn, sn, cs);
        let l = a * nalgebra::Matrix2::new(k, 0., 0., 1.) * a.transpose();
        let o = nalgebra::Vector2::new(x, y);
        let t = o - l * o;
        let m = nalgebra::Matrix3::new(l[(0, 0)], l[(0, 1)], t.x, l[(1, 0)], l[(1, 1)], t.y, 0., 0., 1.);
        ctx.ev(|| format!("stretch {k} along {al}"));
        match &mut self.rep {
            Rep::Single(c) => lib(|| c.transform(&m)),
            Rep::Compound(c) => lib(|| c.transform(&m)),
        }
        .map_err(|p| ctx.panic_fail("transformation", &p))?;
        self.lp = Loop::new(self.rep.rcurves(), 48);
        Ok(())
    }
    /// a history of shape-preserving edits: knot insertion, degree elevation, reversal
    pub fn edit(&mut self, ctx: &mut Ctx, elevate: bool) -> R {
        let n = ctx.d(3);
        for _ in 0..n {
            match ctx.d(3) {
                0 => {
                    ctx.ev(|| "reverse".into());
                    match &mut self.rep {
                        Rep::Single(c) => lib(|| c.invert()),
                        Rep::Compound(c) => lib(|| c.invert()),
                    }
                    .map_err(|p| ctx.panic_fail("reversal", &p))?;
                    self.ccw = !self.ccw;
                }
                1 => {
                    if let Rep::Single(c) = &mut self.rep {
                        let d = c.knots_domain();
                        let t = d.0 + (d.1 - d.0) * (0.05 + 0.9 * ctx.frac());
                        let r = r2(c);
                        if r.knots.iter().any(|k| (k - t).abs() < 1e-3 * (d.1 - d.0)) {
                            continue;
                        }
                        ctx.ev(|| format!("insert knot {t}"));
                        lib(|| c.try_add_knot(t)).map_err(|p| ctx.panic_fail("knot insertion", &p))?.map_err(|e| Fail::new("knot insertion refused", e.to_string()))?;
                    }
                }
                _ => {
                    if let Rep::Single(c) = &mut self.rep {
                        if elevate && c.is_clamped() && c.degree() < 4 && c.degree() > 1 {
                            let to = c.degree() + 1;
                            ctx.ev(|| format!("elevate to degree {to}"));
                            *c = lib(|| c.try_elevate_degree(to)).map_err(|p| ctx.panic_fail("degree elevation", &p))?.map_err(|e| Fail::new("degree elevation refused", e.to_string()))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn describe(&self) -> String {
        let r: Vec<String> = self.rep.rcurves().iter().map(show_curve).collect();
        format!("{} [{}]", self.kind, r.join(" | "))
    }
}
