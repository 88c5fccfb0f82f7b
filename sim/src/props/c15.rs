//! C15: compound-curve sessions.
use super::c01::{affine, apply, well_formed};
use super::c05::Path;
use super::c16;
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use curvo::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        run,
        quick: 12000,
        thorough: 600000,
        steps: 400_000_000,
        rule: "one run = a seeded chain of 1-5 spans in 2D or 3D, open or closed, handed over in a seeded order and direction, sometimes with spans that do not connect, then 0-5 edits (reversal, affine map, trim, split and rejoin, rotation of the span list, appended spans, save and restore, torn save); after each edit order, joints, outline, parameters, ends, closedness, length and closest points are checked; non-trivial = at least two spans or one edit",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["joints of a chain lie well apart, so that the order of the spans is unambiguous"],
    }
}

pub trait Cmp: Clone + std::fmt::Debug {
    type S: crate::cv::Cv;
    fn build(v: Vec<Self::S>) -> Self;
    fn gather(v: Vec<Self::S>) -> Self;
    fn parts(&self) -> &[Self::S];
    fn pt(&self, t: f64) -> Option<Vec<f64>>;
    fn closed(&self) -> bool;
    fn len(&self) -> anyhow::Result<f64>;
    fn closest(&self, q: &[f64]) -> anyhow::Result<Vec<f64>>;
    fn ends(&self) -> (Vec<f64>, Vec<f64>);
    fn inv(&mut self);
    fn inved(&self) -> Self;
    fn xform(&mut self, m: &[Vec<f64>]);
    fn trim(&self, a: f64, b: f64) -> anyhow::Result<Vec<Self::S>>;
    fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>>;
    fn save(&self) -> Result<Vec<u8>, serde_json::Error>;
    fn load(b: &[u8]) -> Result<Self, serde_json::Error>;
}

macro_rules! cmp {
    ($d:expr, $s:ty, $p:ident) => {
        impl Cmp for CompoundCurve<f64, nalgebra::Const<$d>> {
            type S = $s;
            fn build(v: Vec<$s>) -> Self { Self::new(v) }
            fn gather(v: Vec<$s>) -> Self { v.into_iter().collect() }
            fn parts(&self) -> &[$s] { self.spans() }
            fn pt(&self, t: f64) -> Option<Vec<f64>> { self.point_at(t).map(|p| pv(&p)) }
            fn closed(&self) -> bool { self.is_closed() }
            fn len(&self) -> anyhow::Result<f64> { self.try_length() }
            fn closest(&self, q: &[f64]) -> anyhow::Result<Vec<f64>> { Ok(pv(&self.find_closest_point(&$p(q))?)) }
            fn ends(&self) -> (Vec<f64>, Vec<f64>) { let (a, b) = self.end_points(); (pv(&a), pv(&b)) }
            fn inv(&mut self) { self.invert() }
            fn inved(&self) -> Self { self.inverse() }
            fn xform(&mut self, m: &[Vec<f64>]) {
                let mm = nalgebra::SMatrix::<f64, $d, $d>::from_fn(|i, j| m[i][j]);
                self.transform(&mm);
            }
            fn trim(&self, a: f64, b: f64) -> anyhow::Result<Vec<$s>> { self.try_trim_range((a, b)) }
            fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>> { self.tessellate(tol).iter().map(|p| pv(p)).collect() }
            fn save(&self) -> Result<Vec<u8>, serde_json::Error> { serde_json::to_vec(self) }
            fn load(b: &[u8]) -> Result<Self, serde_json::Error> { serde_json::from_slice(Aligned::new(b).bytes()) }
        }
    };
}
cmp!(3, C2, p2);
cmp!(4, C3, p3);

/// a stretch of a reference curve, run through from a to b
#[derive(Clone, Debug)]
pub struct Piece {
    pub base: RCurve,
    pub a: f64,
    pub b: f64,
}

impl Piece {
    pub fn at(&self, f: f64) -> Vec<f64> {
        self.base.at(self.a + (self.b - self.a) * f)
    }
    fn flip(&mut self) {
        std::mem::swap(&mut self.a, &mut self.b);
    }
    pub fn len(&self) -> f64 {
        (self.b - self.a).abs()
    }
}

#[derive(Clone, Debug)]
pub struct Chain {
    pub v: Vec<Piece>,
    pub closed: bool,
    /// first parameter
    pub t0: f64,
    /// joints may be off by this much
    pub gap: f64,
}

impl Chain {
    pub fn scale(&self) -> f64 {
        self.v.iter().map(|p| p.base.scale()).fold(0., f64::max)
    }
    pub fn reverse(&mut self) {
        self.v.reverse();
        self.v.iter_mut().for_each(|p| p.flip());
    }
    /// span and fraction of a parameter
    pub fn locate(&self, t: f64) -> (usize, f64) {
        let mut s = self.t0;
        for (i, p) in self.v.iter().enumerate() {
            if t <= s + p.len() || i + 1 == self.v.len() {
                return (i, (t - s) / p.len());
            }
            s += p.len();
        }
        unreachable!()
    }
    pub fn end(&self) -> f64 {
        self.t0 + self.v.iter().map(|p| p.len()).sum::<f64>()
    }
    /// what lies between the parameters
    pub fn cut(&self, a: f64, b: f64) -> Vec<Piece> {
        let mut s = self.t0;
        let mut out = vec![];
        for p in &self.v {
            let l = p.len();
            let (x, y) = (a.max(s), b.min(s + l));
            if y - x > 1e-9 * l.max(s.abs()) {
                out.push(Piece { base: p.base.clone(), a: p.a + (p.b - p.a) * (x - s) / l, b: p.a + (p.b - p.a) * (y - s) / l });
            }
            s += l;
        }
        out
    }
}

/// do the spans trace the pieces, one by one?
fn same_pieces<S: crate::cv::Cv>(ctx: &mut Ctx, what: &str, got: &[S], want: &[Piece], tol: f64) -> R {
    if got.len() != want.len() {
        fail!(&format!("number of spans after {what}"), "{what}: {} spans, {} expected", got.len(), want.len());
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let r = g.r();
        well_formed(what, &r)?;
        let d = lib(|| g.dom()).map_err(|p| ctx.panic_fail(what, &p))?;
        if ((d.1 - d.0) - w.len()).abs() > 1e-9 * (w.len() + d.0.abs()) {
            fail!(&format!("span domain after {what}"), "{what}: span {i} covers {:?}, its width must be {}", d, w.len());
        }
        let mut fs = vec![0., 1.];
        for k in 0..9 {
            fs.push((k as f64 + 0.31) / 9.);
        }
        for f in fs {
            let t = d.0 + (d.1 - d.0) * f;
            let p = lib(|| g.pt(t)).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
            let q = w.at(f);
            if !(dist(&p, &q) <= tol) {
                fail!(&format!("outline after {what}"), "{what}: span {i} at {t} ({f} of its domain) is at {:?}, must be {:?}", p, q);
            }
        }
    }
    Ok(())
}

fn check<C: Cmp>(ctx: &mut Ctx, what: &str, c: &C, m: &Chain) -> R {
    let sc = m.scale();
    let tol = 1e-7 * sc.max(1e-3);
    let parts = c.parts();
    same_pieces(ctx, what, parts, &m.v, tol)?;
    let el = 1e-9 * (m.end() - m.t0 + m.t0.abs()).max(1.);
    let mut s = m.t0;
    for (i, g) in parts.iter().enumerate() {
        use crate::cv::Cv;
        let d = g.dom();
        if (d.0 - s).abs() > el {
            fail!(&format!("parameters after {what}"), "{what}: span {i} starts at {}, the one before ended at {s}", d.0);
        }
        s = d.1;
    }
    for i in 1..parts.len() {
        use crate::cv::Cv;
        let (a, b) = (parts[i - 1].pt(parts[i - 1].dom().1), parts[i].pt(parts[i].dom().0));
        if dist(&a, &b) > m.gap + tol {
            fail!(&format!("connectivity after {what}"), "{what}: span {} ends at {:?}, span {i} starts at {:?}", i - 1, a, b);
        }
    }
    // as one curve
    let end = m.end();
    for _ in 0..6 {
        let t = m.t0 + (end - m.t0) * ctx.frac();
        let Some(p) = lib(|| c.pt(t)).map_err(|p| ctx.panic_fail("point_at", &p))? else {
            fail!("no point inside the domain", "{what}: point_at({t}) is None on {}..{end}", m.t0);
        };
        let (i, f) = m.locate(t);
        let q = m.v[i].at(f);
        if !(dist(&p, &q) <= tol + m.gap) {
            fail!("point_at", "after {what}: point_at({t}) is {:?}, must be {:?}", p, q);
        }
    }
    let w = (end - m.t0) * 0.1;
    for t in [m.t0 - w, end + w] {
        if lib(|| c.pt(t)).map_err(|p| ctx.panic_fail("point_at", &p))?.is_some() {
            fail!("point outside the domain", "{what}: point_at({t}) on {}..{end}", m.t0);
        }
    }
    let (a, b) = lib(|| c.ends()).map_err(|p| ctx.panic_fail("end_points", &p))?;
    let (x, y) = (m.v[0].at(0.), m.v[m.v.len() - 1].at(1.));
    if dist(&a, &x) > tol || dist(&b, &y) > tol {
        fail!("end points", "after {what}: {:?} {:?}, must be {:?} {:?}", a, b, x, y);
    }
    let apart = dist(&x, &y);
    let is = lib(|| c.closed()).map_err(|p| ctx.panic_fail("is_closed", &p))?;
    if is && apart > 1e-3 * sc {
        fail!("closedness", "after {what}: closed, but the ends are {apart} apart");
    }
    if !is && apart < 1e-12 * sc {
        fail!("closedness", "after {what}: not closed, but the ends are {apart} apart");
    }
    // measurements
    if ctx.d(2) == 0 {
        let l = lib(|| c.len()).map_err(|p| ctx.panic_fail("length", &p))?.map_err(|e| Fail::new("length refused", e.to_string()))?;
        let mut want = 0.;
        let mut slack = 0.;
        for p in &m.v {
            let (v, s) = c16::length(&p.base, p.a.min(p.b), p.a.max(p.b));
            want += v;
            slack += s;
        }
        if !((l - want).abs() <= slack) {
            fail!("length", "after {what}: {l}, must be {want} within {slack:e}");
        }
        ctx.fb(l);
    }
    if ctx.d(2) == 0 {
        use crate::cv::Cv;
        let i = ctx.d(m.v.len());
        if let Some((q, want)) = c16::clear_point(ctx, &parts.iter().map(|p| p.r()).collect::<Vec<_>>(), i) {
            // only where the nearest point belongs to the stretches that are left
            let near = m.v.iter().map(|p| c16::stretch_distance(&p.base, p.a.min(p.b), p.a.max(p.b), &q)).fold(f64::INFINITY, f64::min);
            if near <= want * (1. + 1e-9) + 1e-12 {
                ctx.probe("closest_point_judged");
                let p = lib(|| c.closest(&q)).map_err(|p| ctx.panic_fail("closest point", &p))?.map_err(|e| Fail::new("closest point refused", e.to_string()))?;
                let d = dist(&p, &q);
                if !(d <= want * (1. + 1e-3) + 1e-6 * sc) {
                    fail!("closest point", "after {what}: {:?} for {:?} is {d} away, the outline {want}", p, q);
                }
                let on = m.v.iter().map(|s| c16::stretch_distance(&s.base, s.a.min(s.b), s.a.max(s.b), &p)).fold(f64::INFINITY, f64::min);
                if on > 1e-6 * sc {
                    fail!("closest point", "after {what}: {:?} is {on} off the outline", p);
                }
            }
        }
    }
    let _ = Path::new;
    Ok(())
}

fn wild(ctx: &mut Ctx, dim: usize, a: &[f64], b: &[f64], spread: f64) -> RCurve {
    // a clamped curve between two points
    let mut r = rcurve(ctx, dim, Knots::Clamped, 4);
    let n = r.cps.len();
    let m = r.scale();
    for (i, c) in r.cps.iter_mut().enumerate() {
        let w = c[dim];
        let f = i as f64 / (n - 1) as f64;
        for d in 0..dim {
            let base = a[d] + (b[d] - a[d]) * f;
            let x = if i == 0 { a[d] } else if i == n - 1 { b[d] } else { base + spread * c[d] / w / m };
            c[d] = x * w;
        }
    }
    if ctx.d(4) == 0 {
        let k = &mut r.knots;
        let (a, b) = (k[0], k[k.len() - 1]);
        let (t0, len) = [(0., 0.05), (-3., 0.3), (100., 200.), (1., 1.)][ctx.d(4)];
        for x in k {
            *x = t0 + (*x - a) / (b - a) * len;
        }
    }
    r
}

fn session<C: Cmp>(ctx: &mut Ctx, dim: usize) -> R
where
    C::S: crate::cv::Cv,
{
    use crate::cv::Cv;
    let scale = *ctx.pick(&[1., 0.1, 10., 100.]);
    let k = ctx.range(1, 5);
    let closed = k > 1 && ctx.d(2) == 0;
    // joints well apart
    let mut joints: Vec<Vec<f64>> = vec![];
    while joints.len() < k + 1 {
        let mut q: Vec<f64> = (0..dim).map(|_| 2. * scale * ctx.unit()).collect();
        for (d, x) in q.iter_mut().enumerate() {
            if d == 0 {
                *x += scale * joints.len() as f64;
            }
        }
        if joints.iter().all(|j| dist(j, &q) > 0.3 * scale) {
            joints.push(q);
        } else if ctx.d(8) == 0 {
            // shrinks to a row of joints
            joints.push((0..dim).map(|d| if d == 0 { 10. * scale + 3. * scale * joints.len() as f64 } else { 0. }).collect());
        }
    }
    if closed {
        joints[k] = joints[0].clone();
    }
    let gap = if ctx.d(4) == 0 { 1e-5 } else { 0. };
    let mut m = Chain { v: vec![], closed, t0: 0., gap: 2. * gap };
    for i in 0..k {
        let off = |ctx: &mut Ctx, p: &[f64]| p.iter().map(|x| x + 0.5 * gap * ctx.unit()).collect::<Vec<f64>>();
        let (a, b) = if gap > 0. && !(closed && (i == 0 || i == k - 1)) { (off(ctx, &joints[i]), off(ctx, &joints[i + 1])) } else { (joints[i].clone(), joints[i + 1].clone()) };
        let r = wild(ctx, dim, &a, &b, scale);
        let d = r.domain();
        m.v.push(Piece { base: r, a: d.0, b: d.1 });
    }
    // hand over in any order and direction
    let mut order: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() {
        let j = ctx.d(i + 1);
        order.swap(i, j);
    }
    if order.len() > 1 && ctx.d(3) == 0 {
        order = (0..k).collect();
    }
    let mut spans: Vec<C::S> = vec![];
    let mut flips = vec![];
    for &i in &order {
        let mut s = C::S::from_r(&m.v[i].base);
        let f = ctx.d(2) == 1;
        if f {
            s.inv();
        }
        flips.push(f);
        spans.push(s);
    }
    ctx.ev(|| format!("{k} spans, closed {closed}, gap {gap}, order {:?}, reversed {:?}", order, flips));
    for p in &m.v {
        ctx.ev(|| show_curve(&p.base));
    }
    // strangers
    if ctx.d(4) == 0 {
        let n = ctx.range(1, 2);
        for _ in 0..n {
            let far: Vec<f64> = (0..dim).map(|d| 50. * scale * (1. + d as f64) + scale * ctx.unit()).collect();
            let far2: Vec<f64> = far.iter().map(|x| x + scale).collect();
            let r = wild(ctx, dim, &far, &far2, 0.1 * scale);
            let at = 1 + ctx.d(spans.len());
            spans.insert(at, C::S::from_r(&r));
            ctx.fault("span_that_does_not_connect");
            ctx.ev(|| format!("a span that does not connect, at {at}"));
        }
    }
    let mut c = lib(|| C::build(spans.clone())).map_err(|p| ctx.panic_fail("construction", &p))?;
    if flips[0] {
        m.reverse();
    }
    adopt(&c, &mut m)?;
    check(ctx, "construction", &c, &m)?;
    if k > 1 {
        ctx.nontrivial = true;
    }
    let mut disk: Option<(Vec<u8>, Chain)> = None;
    for _ in 0..ctx.d(6) {
        let end = m.end();
        // the joints as they are
        let mut js: Vec<f64> = c.parts().iter().map(|p| p.dom().0).collect();
        js.extend(c.parts().last().map(|p| p.dom().1));
        let par = |ctx: &mut Ctx, m: &Chain| -> f64 {
            // a joint, near one, or anywhere
            match ctx.d(3) {
                0 => *ctx.pick(&js),
                _ => {
                    let i = ctx.d(m.v.len());
                    js[i] + m.v[i].len() * (0.03 + 0.94 * ctx.frac())
                }
            }
        };
        match ctx.d(9) {
            0 => {
                ctx.ev(|| "reverse".into());
                let keep = m.t0;
                if ctx.d(2) == 0 {
                    lib(|| c.inv()).map_err(|p| ctx.panic_fail("reversal", &p))?;
                } else {
                    c = lib(|| c.inved()).map_err(|p| ctx.panic_fail("reversal", &p))?;
                }
                m.reverse();
                m.t0 = keep;
                check(ctx, "reversal", &c, &m)?;
            }
            1 => {
                let (a, s) = affine(ctx, dim);
                // keep the gaps within what connects
                if m.gap > 0. && s > 1.2 {
                    continue;
                }
                let mut moved = m.v.clone();
                moved.iter_mut().for_each(|p| p.base.cps.iter_mut().for_each(|q| *q = apply(&a, q)));
                if unclear(&moved, m.closed) {
                    continue;
                }
                ctx.ev(|| format!("transform {:?}", a));
                lib(|| c.xform(&a)).map_err(|p| ctx.panic_fail("transformation", &p))?;
                for p in &mut m.v {
                    for q in &mut p.base.cps {
                        *q = apply(&a, q);
                    }
                }
                m.gap *= s.max(1.);
                check(ctx, "transformation", &c, &m)?;
            }
            2 | 3 => {
                let (a, b) = (par(ctx, &m), par(ctx, &m));
                if (a - b).abs() < 0.02 * (end - m.t0) {
                    continue;
                }
                ctx.ev(|| format!("trim {a} {b}"));
                let got = lib(|| c.trim(a, b)).map_err(|p| ctx.panic_fail("trimming", &p))?.map_err(|e| Fail::new("trimming refused", e.to_string()))?;
                let tol = 1e-7 * m.scale().max(1e-3);
                if a < b {
                    let want = m.cut(a, b);
                    same_pieces(ctx, "trimming", &got, &want, tol)?;
                    ctx.probe("trimmed_inside");
                    if unclear(&want, false) {
                        continue;
                    }
                    c = lib(|| C::build(got)).map_err(|p| ctx.panic_fail("construction", &p))?;
                    m.v = want;
                    m.closed = false;
                } else {
                    let (head, tail) = (m.cut(m.t0, b), m.cut(a, end));
                    // the pieces, whichever part comes first
                    let mut want: Vec<Piece> = tail.iter().chain(&head).cloned().collect();
                    if same_pieces(ctx, "trimming", &got, &want, tol).is_err() {
                        let other: Vec<Piece> = head.iter().chain(&tail).cloned().collect();
                        if same_pieces(ctx, "trimming", &got, &other, tol).is_err() {
                            same_pieces(ctx, "trimming", &got, &want, tol)?;
                        }
                        want = other;
                    }
                    ctx.probe("trimmed_outside");
                    if want.is_empty() || unclear(&head, false) || unclear(&tail, false) || unclear(&want, false) {
                        continue;
                    }
                    let c2 = lib(|| C::build(got)).map_err(|p| ctx.panic_fail("construction", &p))?;
                    if m.closed || head.is_empty() || tail.is_empty() {
                        m.v = tail.into_iter().chain(head).collect();
                        m.closed = false;
                        c = c2;
                    } else {
                        // two parts: what remains is the one that came first
                        let first = &want[0];
                        let keep = if head.first().map(|h| (h.a, h.b)) == Some((first.a, first.b)) && dist(&head[0].at(0.3), &first.at(0.3)) == 0. { head } else { tail };
                        let mut want = m.clone();
                        want.v = keep;
                        want.closed = false;
                        m = want;
                        c = c2;
                    }
                }
                m.t0 = 0.;
                adopt(&c, &mut m)?;
                check(ctx, "trimming", &c, &m)?;
            }
            4 => {
                // cut in two at a parameter, and join again
                let t = par(ctx, &m);
                ctx.ev(|| format!("split at {t} and rejoin"));
                let mut all = vec![];
                for (a, b) in [(m.t0, t), (t, end)] {
                    if b - a < 1e-9 * (end - m.t0) {
                        continue;
                    }
                    all.extend(lib(|| c.trim(a, b)).map_err(|p| ctx.panic_fail("trimming", &p))?.map_err(|e| Fail::new("trimming refused", e.to_string()))?);
                }
                let mut want = m.clone();
                want.v = m.cut(m.t0, t).into_iter().chain(m.cut(t, end)).collect();
                same_pieces(ctx, "splitting", &all, &want.v, 1e-7 * m.scale().max(1e-3))?;
                if all.len() > 12 || unclear(&want.v, m.closed) {
                    continue;
                }
                let mut o: Vec<usize> = (0..all.len()).collect();
                for i in (1..o.len()).rev() {
                    let j = ctx.d(i + 1);
                    o.swap(i, j);
                }
                let all: Vec<C::S> = o.iter().map(|i| all[*i].clone()).collect();
                c = lib(|| C::build(all)).map_err(|p| ctx.panic_fail("construction", &p))?;
                m = want;
                m.t0 = 0.;
                adopt(&c, &mut m)?;
                check(ctx, "splitting and rejoining", &c, &m)?;
            }
            5 => {
                if m.closed || m.v.len() > 8 {
                    continue;
                }
                // one more span at either end, in either direction
                let tail = ctx.d(2) == 0;
                let from = if tail { m.v[m.v.len() - 1].at(1.) } else { m.v[0].at(0.) };
                let sc = m.scale();
                let to: Vec<f64> = from.iter().enumerate().map(|(d, x)| if d == 0 { x + (if tail { 1. } else { -1. }) * 20. * sc } else { x + 0.3 * scale * ctx.unit() }).collect();
                let (a, b) = if tail { (from, to) } else { (to, from) };
                let r = wild(ctx, dim, &a, &b, 0.3 * scale);
                let mut s = C::S::from_r(&r);
                let f = ctx.d(2) == 1;
                if f {
                    s.inv();
                }
                let mut all = c.parts().to_vec();
                let at = 1 + ctx.d(all.len());
                all.insert(at, s);
                ctx.ev(|| format!("append {} at the {}, reversed {f}, as span {at}", show_curve(&r), if tail { "tail" } else { "head" }));
                c = lib(|| C::build(all)).map_err(|p| ctx.panic_fail("construction", &p))?;
                let d = r.domain();
                let p = Piece { base: r, a: d.0, b: d.1 };
                if tail {
                    m.v.push(p);
                } else {
                    m.v.insert(0, p);
                }
                m.t0 = 0.;
                adopt(&c, &mut m)?;
                check(ctx, "appending", &c, &m)?;
            }
            6 => {
                ctx.ev(|| "save".into());
                let b = lib(|| c.save()).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
                let back = lib(|| C::load(&b)).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
                if format!("{:?}", back) != format!("{:?}", c) {
                    fail!("save is not exact", "{:?} and {:?}", c, back);
                }
                if ctx.d(2) == 0 {
                    // torn
                    let n = ctx.d(b.len());
                    ctx.fault("torn_save");
                    if lib(|| C::load(&b[..n])).map_err(|p| ctx.panic_fail("restore of a torn save", &p))?.is_ok() {
                        fail!("torn save accepted", "{n} of {} bytes", b.len());
                    }
                }
                disk = Some((b, m.clone()));
            }
            7 => {
                if let Some((b, mm)) = &disk {
                    ctx.ev(|| "crash and restart from the last save".into());
                    ctx.fault("crash_restart");
                    c = lib(|| C::load(b)).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
                    m = mm.clone();
                    check(ctx, "restore", &c, &m)?;
                }
            }
            _ => {
                // collected as they are
                ctx.ev(|| "collect the spans".into());
                let c2 = lib(|| C::gather(c.parts().to_vec())).map_err(|p| ctx.panic_fail("collecting", &p))?;
                if format!("{:?}", c2) != format!("{:?}", c) {
                    fail!("collecting changes spans", "{:?} {:?}", c, c2);
                }
                c = c2;
            }
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

/// joints so close that the order of the spans is not clear
fn unclear(v: &[Piece], closed: bool) -> bool {
    let mut j: Vec<Vec<f64>> = v.iter().map(|p| p.at(0.)).collect();
    if !closed && !v.is_empty() {
        j.push(v[v.len() - 1].at(1.));
    }
    (0..j.len()).any(|a| (0..a).any(|b| dist(&j[a], &j[b]) < 2e-3))
}

/// the chain may be built from any of its joints on where it is closed
fn adopt<C: Cmp>(c: &C, m: &mut Chain) -> R
where
    C::S: crate::cv::Cv,
{
    use crate::cv::Cv;
    if !m.closed || m.v.is_empty() {
        return Ok(());
    }
    let Some(p) = c.parts().first() else { return Ok(()) };
    let d = p.dom();
    let q = p.pt(d.0 + 0.37 * (d.1 - d.0));
    let best = (0..m.v.len()).min_by(|i, j| dist(&m.v[*i].at(0.37), &q).partial_cmp(&dist(&m.v[*j].at(0.37), &q)).unwrap()).unwrap();
    m.v.rotate_left(best);
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    if ctx.d(3) < 2 {
        session::<CompoundCurve<f64, nalgebra::Const<3>>>(ctx, 2)
    } else {
        session::<CompoundCurve<f64, nalgebra::Const<4>>>(ctx, 3)
    }
}
