//! Uniform face over 2D and 3D curves, so that each session runs over both.
use crate::gen::*;
use crate::refmodel::*;
use curvo::prelude::*;
use std::io::{Read, Write};

pub trait Cv: Clone + Send + Sync + 'static {
    const DIM: usize;
    fn from_r(r: &RCurve) -> Self;
    fn r(&self) -> RCurve;
    fn pt(&self, t: f64) -> Vec<f64>;
    fn tan(&self, t: f64) -> Vec<f64>;
    fn pt_tan(&self, t: f64) -> (Vec<f64>, Vec<f64>);
    fn second(&self, t: f64) -> Vec<f64>;
    fn dom(&self) -> (f64, f64);
    fn add_knot(&mut self, t: f64) -> anyhow::Result<()>;
    fn refine(&mut self, t: Vec<f64>) -> anyhow::Result<()>;
    fn remove(&mut self, t: f64, tol: Option<f64>) -> anyhow::Result<usize>;
    fn elevate(&self, d: usize) -> anyhow::Result<Self>;
    fn clampk(&mut self) -> anyhow::Result<()>;
    fn normalize(&mut self);
    fn inv(&mut self);
    fn inved(&self) -> Self;
    fn xform(&mut self, m: &[Vec<f64>]);
    fn split(&self, t: f64) -> anyhow::Result<(Self, Self)>;
    fn trim(&self, a: f64, b: f64) -> anyhow::Result<Vec<Self>>;
    fn bezier(&self) -> anyhow::Result<Vec<Self>>;
    fn length(&self) -> anyhow::Result<f64>;
    fn param_at_length(&self, l: f64, tol: Option<f64>) -> anyhow::Result<f64>;
    fn divide_len(&self, l: f64) -> anyhow::Result<Vec<(f64, f64)>>;
    fn divide_count(&self, n: usize) -> anyhow::Result<Vec<(f64, f64)>>;
    fn closest(&self, q: &[f64]) -> anyhow::Result<(f64, Vec<f64>)>;
    fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>>;
    fn samples(&self, a: f64, b: f64, n: usize) -> Vec<(f64, Vec<f64>)>;
    fn ends(&self) -> (Vec<f64>, Vec<f64>);
    fn closed(&self) -> bool;
    fn clamped(&self) -> bool;
    fn elevated_dim(&self) -> RCurve;
    fn bbox(&self) -> (Vec<f64>, Vec<f64>);
    fn save(&self, w: &mut dyn Write) -> Result<(), serde_json::Error>;
    fn load(r: &mut dyn Read) -> Result<Self, serde_json::Error>;
    fn load_slice(b: &[u8]) -> Result<Self, serde_json::Error>;
    fn cast32_pt(&self, t: f64) -> Vec<f64>;
    fn intersect(&self, o: &Self, opt: Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<crate::props::c08::Hit>>;
}

macro_rules! cv {
    ($t:ty, $dim:expr, $mk:ident, $r:ident, $p:ident, $f32:ty) => {
        impl Cv for $t {
            const DIM: usize = $dim;
            fn from_r(r: &RCurve) -> Self { $mk(r) }
            fn r(&self) -> RCurve { $r(self) }
            fn pt(&self, t: f64) -> Vec<f64> { pv(&self.point_at(t)) }
            fn tan(&self, t: f64) -> Vec<f64> { self.tangent_at(t).as_slice().to_vec() }
            fn pt_tan(&self, t: f64) -> (Vec<f64>, Vec<f64>) { let (p, v) = self.point_tangent_at(t); (pv(&p), v.as_slice().to_vec()) }
            fn second(&self, t: f64) -> Vec<f64> { self.second_derivative_at(t).as_slice().to_vec() }
            fn dom(&self) -> (f64, f64) { self.knots_domain() }
            fn add_knot(&mut self, t: f64) -> anyhow::Result<()> { self.try_add_knot(t) }
            fn refine(&mut self, t: Vec<f64>) -> anyhow::Result<()> { self.try_refine_knot(t) }
            fn remove(&mut self, t: f64, tol: Option<f64>) -> anyhow::Result<usize> { self.try_remove_knot(t, tol) }
            fn elevate(&self, d: usize) -> anyhow::Result<Self> { self.try_elevate_degree(d) }
            fn clampk(&mut self) -> anyhow::Result<()> { self.try_clamp() }
            fn normalize(&mut self) { self.normalize_knots() }
            fn inv(&mut self) { self.invert() }
            fn inved(&self) -> Self { self.inverse() }
            fn xform(&mut self, m: &[Vec<f64>]) {
                let mm = nalgebra::SMatrix::<f64, { $dim + 1 }, { $dim + 1 }>::from_fn(|i, j| m[i][j]);
                self.transform(&mm);
            }
            fn split(&self, t: f64) -> anyhow::Result<(Self, Self)> { self.try_split(t) }
            fn trim(&self, a: f64, b: f64) -> anyhow::Result<Vec<Self>> { self.try_trim_range((a, b)) }
            fn bezier(&self) -> anyhow::Result<Vec<Self>> { self.try_decompose_bezier_segments() }
            fn length(&self) -> anyhow::Result<f64> { self.try_length() }
            fn param_at_length(&self, l: f64, tol: Option<f64>) -> anyhow::Result<f64> { self.try_parameter_at_length(l, tol) }
            fn divide_len(&self, l: f64) -> anyhow::Result<Vec<(f64, f64)>> {
                Ok(self.try_divide_by_length(l)?.iter().map(|x| (x.parameter(), x.length())).collect())
            }
            fn divide_count(&self, n: usize) -> anyhow::Result<Vec<(f64, f64)>> {
                Ok(self.try_divide_by_count(n)?.iter().map(|x| (x.parameter(), x.length())).collect())
            }
            fn closest(&self, q: &[f64]) -> anyhow::Result<(f64, Vec<f64>)> {
                let u = self.find_closest_parameter(&$p(q))?;
                Ok((u, pv(&self.find_closest_point(&$p(q))?)))
            }
            fn tess(&self, tol: Option<f64>) -> Vec<Vec<f64>> { self.tessellate(tol).iter().map(|p| pv(p)).collect() }
            fn samples(&self, a: f64, b: f64, n: usize) -> Vec<(f64, Vec<f64>)> {
                self.sample_regular_range_with_parameter(a, b, n).iter().map(|(t, p)| (*t, pv(p))).collect()
            }
            fn ends(&self) -> (Vec<f64>, Vec<f64>) { let (a, b) = self.end_points(); (pv(&a), pv(&b)) }
            fn closed(&self) -> bool { self.is_closed() }
            fn clamped(&self) -> bool { self.is_clamped() }
            fn elevated_dim(&self) -> RCurve {
                let c = self.elevate_dimension();
                RCurve { p: c.degree(), knots: c.knots().to_vec(), cps: c.control_points().iter().map(|p| p.coords.as_slice().to_vec()).collect() }
            }
            fn bbox(&self) -> (Vec<f64>, Vec<f64>) { let b: BoundingBox<f64, _> = self.into(); (b.min().as_slice().to_vec(), b.max().as_slice().to_vec()) }
            fn save(&self, w: &mut dyn Write) -> Result<(), serde_json::Error> { serde_json::to_writer(w, self) }
            fn load(r: &mut dyn Read) -> Result<Self, serde_json::Error> { serde_json::from_reader(r) }
            fn load_slice(b: &[u8]) -> Result<Self, serde_json::Error> { serde_json::from_slice(crate::core::Aligned::new(b).bytes()) }
            fn intersect(&self, o: &Self, opt: Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<Vec<crate::props::c08::Hit>> {
                Ok(self
                    .find_intersections(o, opt)?
                    .into_iter()
                    .map(|i| crate::props::c08::Hit { ia: 0, ib: 0, ta: i.a().1, tb: i.b().1, pa: pv(&i.a().0), pb: pv(&i.b().0) })
                    .collect())
            }
            fn cast32_pt(&self, t: f64) -> Vec<f64> {
                let c: $f32 = self.cast();
                c.point_at(t as f32).coords.iter().map(|x| *x as f64).collect()
            }
        }
    };
}

cv!(C2, 2, mk2, r2, p2, NurbsCurve2D<f32>);
cv!(C3, 3, mk3, r3, p3, NurbsCurve3D<f32>);
