//! C02: surface editing sessions.
use super::c01::{affine, apply};
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use curvo::prelude::*;
use nalgebra::{Point3, Vector3};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        run,
        quick: 50000,
        thorough: 300000,
        steps: 100_000_000,
        rule: "one run = one editing session on a seeded surface (free-form or constructed), up to 10 seeded operations; non-trivial = at least two shape-preserving edits took effect",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["f64 arithmetic; degrees <= 4, <= 24 control points per direction; splitting, isocurves and derivatives away from near-coincident knots"],
    }
}

#[derive(Clone)]
pub struct SModel {
    pub base: RSurface,
    pub s: [f64; 2],
    pub o: [f64; 2],
    pub dom: [(f64, f64); 2],
}
impl SModel {
    pub fn new(base: RSurface) -> Self {
        let d = base.domain();
        SModel { base, s: [1., 1.], o: [0., 0.], dom: [d.0, d.1] }
    }
    pub fn uv(&self, u: f64, v: f64) -> (f64, f64) {
        (self.s[0] * u + self.o[0], self.s[1] * v + self.o[1])
    }
    pub fn at(&self, u: f64, v: f64) -> Vec<f64> {
        let (a, b) = self.uv(u, v);
        self.base.at(a, b)
    }
    pub fn tol(&self) -> f64 {
        1e-6 * self.base.scale().max(1.)
    }
    pub fn reverse(&mut self, d: usize, sum: f64) {
        // t' = sum - t
        self.s[d] = -self.s[d];
        self.o[d] -= self.s[d] * sum;
        let (a, b) = self.dom[d];
        self.dom[d] = (sum - b, sum - a);
    }
    fn lerp(&self, d: usize, f: f64) -> f64 {
        (self.dom[d].0 + (self.dom[d].1 - self.dom[d].0) * f).clamp(self.dom[d].0, self.dom[d].1)
    }
}

pub fn well_formed(what: &str, r: &RSurface) -> R {
    let (nu, nv) = (r.cps.len(), r.cps.first().map(|x| x.len()).unwrap_or(0));
    if r.ku.len() != nu + r.pu + 1 || r.kv.len() != nv + r.pv + 1 || nu <= r.pu || nv <= r.pv || r.cps.iter().any(|x| x.len() != nv) {
        fail!("malformed surface", "{what}: {}x{} control points, degrees {} {}, knots {} {}", nu, nv, r.pu, r.pv, r.ku.len(), r.kv.len());
    }
    for k in [&r.ku, &r.kv] {
        if k.windows(2).any(|w| !(w[0] <= w[1])) {
            fail!("malformed surface", "{what}: knots not in order {:?}", k);
        }
    }
    if r.cps.iter().flatten().any(|c| c.iter().any(|x| !x.is_finite()) || c[c.len() - 1] <= 0.) {
        fail!("malformed surface", "{what}: bad control point");
    }
    Ok(())
}

pub fn check_surface(ctx: &mut Ctx, what: &str, s: &S3, m: &SModel) -> R {
    well_formed(what, &rs(s))?;
    let d = lib(|| s.knots_domain()).map_err(|p| ctx.panic_fail(what, &p))?;
    for (i, d) in [d.0, d.1].iter().enumerate() {
        let el = (m.dom[i].1 - m.dom[i].0).max(1.) * 1e-9;
        if (d.0 - m.dom[i].0).abs() > el || (d.1 - m.dom[i].1).abs() > el {
            fail!(&format!("domain after {what}"), "{what}: domain {:?} must be {:?}", d, m.dom[i]);
        }
    }
    let n = 6;
    let f = |i: usize| if i == n + 1 { 1. } else if i == 0 { 0. } else { (i as f64 - 0.37) / n as f64 };
    for i in 0..=n + 1 {
        for j in 0..=n + 1 {
            let (u, v) = (m.lerp(0, f(i)), m.lerp(1, f(j)));
            let (u, v) = (u.clamp(d.0 .0, d.0 .1), v.clamp(d.1 .0, d.1 .1));
            let got = lib(|| pv(&s.point_at(u, v))).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
            let want = m.at(u, v);
            let e = dist(&got, &want);
            if !(e <= m.tol()) {
                fail!(&format!("shape changed by {what}"), "{what}: point at ({u}, {v}) is {:?}, the original surface has {:?} (off by {e:e})", got, want);
            }
            if i == j {
                ctx.fb(got[2]);
            }
        }
    }
    Ok(())
}

pub fn crowded_k(k: &[f64], d: (f64, f64), t: f64) -> bool {
    k.iter().any(|k| *k != t && (k - t).abs() < 1e-3 * (d.1 - d.0))
}

/// a free-form or constructed surface, constructed ones checked against their definition
pub fn start_surface(ctx: &mut Ctx, unclamped: bool) -> Result<S3, Fail> {
    let k = ctx.d(8);
    Ok(match k {
        0..=3 => {
            let r = rsurface(ctx, if unclamped { Knots::Any } else { Knots::Clamped }, 4);
            ctx.ev(|| format!("free-form surface {:?}", r));
            mks(&r)
        }
        4 => {
            let r = rcurve(ctx, 3, Knots::Clamped, 3);
            let t = [1. + ctx.unit(), ctx.unit(), 1.5 + ctx.unit()];
            ctx.ev(|| format!("extrude {} by {:?}", show_curve(&r), t));
            let c = mk3(&r);
            lib(|| NurbsSurface3D::extrude(&c, &Vector3::new(t[0], t[1], t[2]))).map_err(|p| ctx.panic_fail("extrusion", &p))?
        }
        5 => {
            let r = 0.5 + ctx.frac();
            ctx.ev(|| format!("sphere of radius {r}"));
            lib(|| NurbsSurface3D::try_sphere(&Point3::new(0.1, 0.2, 0.3), &Vector3::z(), &Vector3::x(), r)).map_err(|p| ctx.panic_fail("sphere", &p))?.map_err(|e| Fail::new("sphere refused", e.to_string()))?
        }
        6 => {
            let mut r = rcurve(ctx, 3, Knots::Clamped, 3);
            // keep the profile off the axis
            for (i, c) in r.cps.iter_mut().enumerate() {
                let w = c[3];
                c[0] = w * (2. + (c[0] / w / 12.).clamp(-0.9, 0.9));
                c[1] = 0.;
                c[2] = w * i as f64;
            }
            let th = [1., 2.5, 4.2, std::f64::consts::TAU][ctx.d(4)];
            ctx.ev(|| format!("revolve {} by {th}", show_curve(&r)));
            let c = mk3(&r);
            lib(|| NurbsSurface3D::try_revolve(&c, &Point3::origin(), &Vector3::z(), th)).map_err(|p| ctx.panic_fail("revolution", &p))?.map_err(|e| Fail::new("revolution refused", e.to_string()))?
        }
        _ => {
            ctx.ev(|| "plane".to_string());
            lib(|| NurbsSurface3D::plane(Point3::origin(), Vector3::x() * 2., Vector3::y() * 3.)).map_err(|p| ctx.panic_fail("plane", &p))?
        }
    })
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let mut cur = start_surface(ctx, true)?;
    let mut r = rs(&cur);
    rescale(ctx, &mut r.ku);
    rescale(ctx, &mut r.kv);
    cur = mks(&r);
    let mut m = SModel::new(rs(&cur));
    check_surface(ctx, "construction", &cur, &m)?;
    let mut disk: Option<(Vec<u8>, SModel)> = None;
    let mut edits = 0;
    let nops = ctx.range(1, 10);
    for _ in 0..nops {
        let before = rs(&cur);
        if before.cps.len() > 24 || before.cps[0].len() > 24 {
            break;
        }
        let op = ctx.d(13);
        // a direction, its knots, and a parameter that may be an existing knot
        let d = ctx.d(2);
        let dir = [UVDirection::U, UVDirection::V][d];
        let (k, p) = if d == 0 { (before.ku.clone(), before.pu) } else { (before.kv.clone(), before.pv) };
        let dom = m.dom[d];
        let inner: Vec<f64> = k.iter().copied().filter(|x| *x > dom.0 + 1e-3 * (dom.1 - dom.0) && *x < dom.1 - 1e-3 * (dom.1 - dom.0)).collect();
        let pickt = |ctx: &mut Ctx| {
            if !inner.is_empty() && ctx.d(3) == 0 {
                *ctx.pick(&inner)
            } else {
                dom.0 + (dom.1 - dom.0) * (0.03 + 0.94 * ctx.frac())
            }
        };
        match op {
            0 | 1 => {
                let n = ctx.range(1, 3);
                let mut ts: Vec<f64> = (0..n).map(|_| pickt(ctx)).collect();
                if ctx.d(3) == 0 {
                    let x = ts[0];
                    ts.iter_mut().for_each(|t| *t = x);
                }
                ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let mut all = k.clone();
                all.extend(&ts);
                all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if ts.iter().any(|t| all.iter().filter(|x| *x == t).count() > p || crowded_k(&all, dom, *t)) {
                    continue;
                }
                ctx.ev(|| format!("refine {:?} with {:?}", dir, ts));
                lib(|| cur.try_refine_knot(ts.clone(), dir)).map_err(|p| ctx.panic_fail("refinement", &p))?.map_err(|e| Fail::new("refinement refused", e.to_string()))?;
                let now = rs(&cur);
                let nk = if d == 0 { &now.ku } else { &now.kv };
                if nk.len() != k.len() + n || ts.iter().any(|t| !nk.contains(t)) {
                    fail!("refinement count", "{:?} -> {:?}", k, nk);
                }
                check_surface(ctx, "refinement", &cur, &m)?;
                edits += 1;
            }
            2 | 3 => {
                let t = pickt(ctx);
                if crowded_k(&k, dom, t) {
                    continue;
                }
                ctx.ev(|| format!("split {:?} at {t}", dir));
                let opt = || SurfaceSplit { d: dir, t };
                let (a, b) = lib(|| cur.try_split(split_opt(opt()))).map_err(|p| ctx.panic_fail("split", &p))?.map_err(|e| Fail::new("split refused", e.to_string()))?;
                let mut ma = m.clone();
                ma.dom[d].1 = t;
                let mut mb = m.clone();
                mb.dom[d].0 = t;
                check_surface(ctx, "split (first part)", &a, &ma)?;
                check_surface(ctx, "split (second part)", &b, &mb)?;
                if rs(&cur).cps != before.cps {
                    fail!("split changed the original", "");
                }
                (cur, m) = if ctx.d(2) == 0 { (a, ma) } else { (b, mb) };
                edits += 1;
            }
            4 => {
                let f = ctx.d(3);
                ctx.ev(|| format!("flip {f}"));
                cur = lib(|| cur.flip([FlipDirection::U, FlipDirection::V, FlipDirection::UV][f])).map_err(|p| ctx.panic_fail("flip", &p))?;
                if f != 1 {
                    m.reverse(0, before.ku[0] + before.ku[before.ku.len() - 1]);
                }
                if f != 0 {
                    m.reverse(1, before.kv[0] + before.kv[before.kv.len() - 1]);
                }
                check_surface(ctx, "flip", &cur, &m)?;
                edits += 1;
            }
            5 => {
                ctx.ev(|| "invert".to_string());
                if ctx.d(2) == 0 {
                    lib(|| cur.invert()).map_err(|p| ctx.panic_fail("inversion", &p))?;
                } else {
                    cur = lib(|| cur.inverse()).map_err(|p| ctx.panic_fail("inversion", &p))?;
                }
                m.reverse(0, before.ku[0] + before.ku[before.ku.len() - 1]);
                m.reverse(1, before.kv[0] + before.kv[before.kv.len() - 1]);
                check_surface(ctx, "inversion", &cur, &m)?;
                edits += 1;
            }
            6 => {
                if m.base.scale() > 500. {
                    continue;
                }
                let (mx, _) = affine(ctx, 3);
                ctx.ev(|| format!("transform {:?}", mx));
                let mm = nalgebra::Matrix4::from_fn(|i, j| mx[i][j]);
                lib(|| cur.transform(&mm)).map_err(|p| ctx.panic_fail("transform", &p))?;
                for c in m.base.cps.iter_mut().flatten() {
                    *c = apply(&mx, c);
                }
                check_surface(ctx, "transform", &cur, &m)?;
                edits += 1;
            }
            7 => {
                let buf = lib(|| serde_json::to_vec(&cur)).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
                ctx.ev(|| format!("save {} bytes", buf.len()));
                disk = Some((buf, m.clone()));
            }
            8 => {
                if let Some((buf, mm)) = disk.clone() {
                    ctx.fault("crash_restart");
                    ctx.ev(|| "crash and restart from the save".to_string());
                    cur = lib(|| serde_json::from_slice::<S3>(Aligned::new(&buf).bytes())).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
                    m = mm;
                    check_surface(ctx, "restore", &cur, &m)?;
                }
            }
            9 => {
                let t = match ctx.d(5) {
                    0 => dom.0,
                    1 => dom.1,
                    _ => pickt(ctx),
                };
                if crowded_k(&k, dom, t) {
                    continue;
                }
                ctx.ev(|| format!("isocurve {:?} at {t} (multiplicity {})", dir, k.iter().filter(|x| **x == t).count()));
                if k.iter().filter(|x| **x == t).count() > 1 && t > dom.0 && t < dom.1 {
                    ctx.probe("isocurve_at_repeated_knot");
                }
                let c = lib(|| cur.try_isocurve(t, dir)).map_err(|p| ctx.panic_fail("isocurve", &p))?.map_err(|e| Fail::new("isocurve refused", e.to_string()))?;
                check_iso(ctx, "isocurve", &c, &m, d, t)?;
            }
            10 => {
                ctx.ev(|| "boundary curves".to_string());
                let cs = lib(|| cur.try_boundary_curves()).map_err(|p| ctx.panic_fail("boundary curves", &p))?.map_err(|e| Fail::new("boundary curves refused", e.to_string()))?;
                for (c, (d, t)) in cs.iter().zip([(0, m.dom[0].0), (1, m.dom[1].0), (0, m.dom[0].1), (1, m.dom[1].1)]) {
                    check_iso(ctx, "boundary curve", c, &m, d, t)?;
                }
            }
            11 => {
                let (nu, nv) = (ctx.range(1, 6), ctx.range(1, 6));
                ctx.ev(|| format!("regular samples {nu}x{nv}"));
                let pts = lib(|| cur.regular_sample_points(nu, nv)).map_err(|p| ctx.panic_fail("regular samples", &p))?;
                if pts.len() != nu + 1 || pts.iter().any(|r| r.len() != nv + 1) {
                    fail!("regular sample count", "{}", pts.len());
                }
                let ders = lib(|| cur.regular_sample_rational_derivatives(nu, nv, 1)).map_err(|p| ctx.panic_fail("regular derivatives", &p))?;
                let der2 = ctx.d(2) == 1;
                let hom = if der2 { Some(lib(|| cur.regular_sample_derivatives(nu, nv, 2)).map_err(|p| ctx.panic_fail("regular second derivatives", &p))?) } else { None };
                let rat = if der2 { Some(lib(|| cur.regular_sample_rational_derivatives(nu, nv, 2)).map_err(|p| ctx.panic_fail("regular second derivatives", &p))?) } else { None };
                let nrm = lib(|| cur.regular_sample_normals(nu, nv)).map_err(|p| ctx.panic_fail("regular normals", &p))?;
                for i in 0..=nu {
                    for j in 0..=nv {
                        let (u, v) = (m.lerp(0, i as f64 / nu as f64), m.lerp(1, j as f64 / nv as f64));
                        if dist(&pv(&pts[i][j]), &m.at(u, v)) > 10. * m.tol() {
                            fail!("regular sample", "({u}, {v}): {:?}, reference {:?}", pts[i][j], m.at(u, v));
                        }
                        check_ders(ctx, "regular derivatives", &m, &before, u, v, ders[i][j][1][0].as_slice(), ders[i][j][0][1].as_slice())?;
                        if let (Some(h), Some(r)) = (&hom, &rat) {
                            let g = |k: usize, l: usize| h[i][j][k][l].as_slice().to_vec();
                            check_higher("regular homogeneous derivatives", &m, &before, u, v, 2, true, &g)?;
                            let g = |k: usize, l: usize| r[i][j][k][l].as_slice().to_vec();
                            check_higher("regular rational derivatives", &m, &before, u, v, 2, false, &g)?;
                        }
                        let want = ders[i][j][1][0].cross(&ders[i][j][0][1]);
                        if want.norm() > 1e-6 && !((nrm[i][j] - want / want.norm()).norm() < 1e-6) {
                            fail!("regular normal", "({u}, {v}): {:?} {:?}", nrm[i][j], want);
                        }
                    }
                }
            }
            _ => {
                let u = m.lerp(0, 0.02 + 0.96 * ctx.frac());
                let v = m.lerp(1, 0.02 + 0.96 * ctx.frac());
                let n = ctx.range(1, 3);
                ctx.ev(|| format!("derivatives of order {n} at ({u}, {v})"));
                let ders = lib(|| cur.rational_derivatives(u, v, n)).map_err(|p| ctx.panic_fail("derivatives", &p))?;
                if dist(ders[0][0].as_slice(), &m.at(u, v)) > m.tol() {
                    fail!("derivative of order zero", "({u}, {v})");
                }
                check_ders(ctx, "derivatives", &m, &before, u, v, ders[1][0].as_slice(), ders[0][1].as_slice())?;
                let g = |k: usize, l: usize| ders[k][l].as_slice().to_vec();
                check_higher("derivatives of higher order", &m, &before, u, v, n, false, &g)?;
                let nr = lib(|| cur.normal_at(u, v)).map_err(|p| ctx.panic_fail("normal", &p))?;
                let want = ders[1][0].cross(&ders[0][1]);
                if (nr - want).norm() > 1e-6 * (1. + want.norm()) {
                    fail!("normal", "({u}, {v}): {:?} {:?}", nr, want);
                }
            }
        }
    }
    if edits >= 2 {
        ctx.nontrivial = true;
    }
    Ok(())
}

struct SurfaceSplit {
    d: UVDirection,
    t: f64,
}
fn split_opt(s: SurfaceSplit) -> SplitSurfaceOption<f64> {
    SplitSurfaceOption::new(s.t, s.d)
}

fn check_iso(ctx: &mut Ctx, what: &str, c: &C3, m: &SModel, d: usize, t: f64) -> R {
    super::c01::well_formed(what, &r3(c))?;
    let od = m.dom[1 - d];
    let cd = lib(|| c.knots_domain()).map_err(|p| ctx.panic_fail(what, &p))?;
    if (cd.0 - od.0).abs() > 1e-9 * (1. + od.0.abs()) || (cd.1 - od.1).abs() > 1e-9 * (1. + od.1.abs()) {
        fail!(&format!("{what} domain"), "{:?} must be {:?}", cd, od);
    }
    for i in 0..=12 {
        let x = (od.0 + (od.1 - od.0) * i as f64 / 12.).clamp(cd.0, cd.1);
        let g = lib(|| pv(&c.point_at(x))).map_err(|p| ctx.panic_fail(what, &p))?;
        let w = if d == 0 { m.at(t, x) } else { m.at(x, t) };
        if dist(&g, &w) > m.tol() {
            fail!(&format!("{what} off the surface"), "direction {d} at {t}: curve at {x} is {:?}, the surface has {:?}", g, w);
        }
    }
    Ok(())
}

fn check_ders(ctx: &mut Ctx, what: &str, m: &SModel, r: &RSurface, u: f64, v: f64, du: &[f64], dv: &[f64]) -> R {
    let _ = ctx;
    // one-sided derivatives at knots are either-or: skip them
    let near = |k: &[f64], t: f64, d: (f64, f64)| k.iter().any(|x| (x - t).abs() < 1e-5 * (d.1 - d.0));
    let inside = |k: &[f64], t: f64, d: (f64, f64)| near(k, t, d);
    if inside(&r.ku, u, m.dom[0]) || inside(&r.kv, v, m.dom[1]) {
        return Ok(());
    }
    let (bu, bv) = m.uv(u, v);
    let bd = m.base.domain();
    if near(&m.base.ku, bu, bd.0) || near(&m.base.kv, bv, bd.1) {
        return Ok(());
    }
    let wu: Vec<f64> = m.base.du(bu, bv).iter().map(|x| x * m.s[0]).collect();
    let wv: Vec<f64> = m.base.dv(bu, bv).iter().map(|x| x * m.s[1]).collect();
    let tol = |w: &[f64]| 1e-5 * (norm(w) + m.base.scale());
    if dist(&wu, du) > tol(&wu) || dist(&wv, dv) > tol(&wv) {
        fail!(&format!("{what} differ from the reference"), "({u}, {v}): {:?} {:?}, reference {:?} {:?}", du, dv, wu, wv);
    }
    Ok(())
}

/// all derivatives up to a total order of n against the reference
fn check_higher(what: &str, m: &SModel, r: &RSurface, u: f64, v: f64, n: usize, hom: bool, got: &dyn Fn(usize, usize) -> Vec<f64>) -> R {
    let near = |k: &[f64], t: f64, d: (f64, f64)| k.iter().any(|x| (x - t).abs() < 1e-5 * (d.1 - d.0));
    let (bu, bv) = m.uv(u, v);
    let bd = m.base.domain();
    if near(&r.ku, u, m.dom[0]) || near(&r.kv, v, m.dom[1]) || near(&m.base.ku, bu, bd.0) || near(&m.base.kv, bv, bd.1) {
        return Ok(());
    }
    let ref_ders = if hom { m.base.hom_ders(bu, bv, n) } else { m.base.ders(bu, bv, n) };
    // steepness of the narrowest span: what rounding errors of control points are multiplied by
    let (hu, hv) = r.narrowest();
    let (ku, kv) = (4. * r.pu as f64 / hu, 4. * r.pv as f64 / hv);
    for k in 0..=n {
        for l in 0..=n - k {
            let f = m.s[0].powi(k as i32) * m.s[1].powi(l as i32);
            let want: Vec<f64> = ref_ders[k][l].iter().map(|x| x * f).collect();
            let steep = ku.powi(k as i32) * kv.powi(l as i32);
            let tol = 1e-6 * norm(&want) + 1e-11 * m.base.scale() * (1. + steep);
            let g = got(k, l);
            if !(dist(&g, &want) <= tol) {
                fail!(&format!("{what} differ from the reference"), "({u}, {v}), order ({k}, {l}): {:?}, reference {:?}, off by {:e}, allowed {tol:e}", g, want, dist(&g, &want));
            }
        }
    }
    Ok(())
}
