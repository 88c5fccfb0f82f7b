//! C01: curve editing sessions, with rejected edits, saves, crashes and restarts.
use crate::core::*;
use crate::cv::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        run,
        quick: 80000,
        thorough: 400000,
        steps: 60_000_000,
        rule: "one run = one editing session: a seeded random 2D/3D rational or polynomial curve, then up to 14 seeded operations; non-trivial = at least two shape-preserving edits took effect",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["f64 arithmetic; degree <= 7, <= 60 control points, coordinates up to ~1e3"],
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    if ctx.d(2) == 0 {
        session::<C2>(ctx)
    } else {
        session::<C3>(ctx)
    }
}

/// The reference: the original curve, the affine parameter map and the window
/// of parameters where the edited curve must equal it.
#[derive(Clone)]
pub struct Model {
    pub base: RCurve,
    pub s: f64,
    pub o: f64,
    pub dom: (f64, f64),
    pub win: (f64, f64),
    pub slack: f64,
}

impl Model {
    pub fn new(base: RCurve) -> Self {
        let d = base.domain();
        Model { base, s: 1., o: 0., dom: d, win: d, slack: 0. }
    }
    pub fn at(&self, t: f64) -> Vec<f64> {
        self.base.at(self.s * t + self.o)
    }
    pub fn tol(&self) -> f64 {
        1e-6 * self.base.scale().max(1.) + self.slack
    }
    /// new parameter t' = a t + b
    pub fn reparam(&mut self, a: f64, b: f64) {
        let f = |t: f64| a * t + b;
        self.s /= a;
        self.o -= self.s * b;
        let (x, y) = (f(self.dom.0), f(self.dom.1));
        self.dom = (x.min(y), x.max(y));
        let (x, y) = (f(self.win.0), f(self.win.1));
        self.win = (x.min(y), x.max(y));
    }
}

pub fn well_formed(what: &str, r: &RCurve) -> R {
    if r.knots.len() != r.cps.len() + r.p + 1 {
        fail!("malformed curve", "{what}: {} knots for {} control points of degree {}", r.knots.len(), r.cps.len(), r.p);
    }
    if r.cps.len() <= r.p {
        fail!("malformed curve", "{what}: {} control points for degree {}", r.cps.len(), r.p);
    }
    if r.knots.windows(2).any(|w| !(w[0] <= w[1])) {
        fail!("malformed curve", "{what}: knots not in order {:?}", r.knots);
    }
    for c in &r.cps {
        if c.iter().any(|x| !x.is_finite()) || c[c.len() - 1] <= 0. {
            fail!("malformed curve", "{what}: control point {:?}", c);
        }
    }
    Ok(())
}

pub fn check_shape<C: Cv>(ctx: &mut Ctx, what: &str, c: &C, m: &Model) -> R {
    well_formed(what, &c.r())?;
    let d = lib(|| c.dom()).map_err(|p| ctx.panic_fail(what, &p))?;
    let el = (m.dom.1 - m.dom.0).max(1.) * 1e-9;
    if (d.0 - m.dom.0).abs() > el || (d.1 - m.dom.1).abs() > el {
        fail!(&format!("domain after {what}"), "{what}: domain is {:?}, must be {:?}", d, m.dom);
    }
    let tol = m.tol();
    let n = 24;
    let phase = 0.37;
    for i in 0..=n + 1 {
        let f = if i == n + 1 { 1. } else if i == 0 { 0. } else { (i as f64 - phase) / n as f64 };
        let t = m.win.0 + (m.win.1 - m.win.0) * f;
        let t = t.clamp(d.0, d.1);
        let got = lib(|| c.pt(t)).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
        let want = m.at(t);
        let e = dist(&got, &want);
        if !(e <= tol) {
            fail!(&format!("shape changed by {what}"), "{what}: point at {t} (domain {:?}) is {:?}, the original curve has {:?} there (off by {e:e}, allowed {tol:e})", d, got, want);
        }
        if i == 0 || i == n + 1 {
            ctx.fb(got[0]);
        }
    }
    Ok(())
}

pub fn affine(ctx: &mut Ctx, dim: usize) -> (Vec<Vec<f64>>, f64) {
    // rotation x scale + translation, homogeneous
    let mut m = vec![vec![0.; dim + 1]; dim + 1];
    let a = ctx.unit() * 3.2;
    let kind = ctx.d(3);
    let s: Vec<f64> = (0..dim)
        .map(|_| match kind {
            0 => 1.,
            1 => 1.5,
            _ => 0.6 + ctx.frac(),
        })
        .collect();
    let (sn, cs) = a.sin_cos();
    m[0][0] = cs * s[0];
    m[0][1] = -sn * s[1];
    m[1][0] = sn * s[0];
    m[1][1] = cs * s[1];
    if dim == 3 {
        m[2][2] = s[2];
        if ctx.d(2) == 1 {
            m.swap(1, 2);
        }
    }
    for i in 0..dim {
        m[i][dim] = ctx.unit() * 5.;
    }
    m[dim][dim] = 1.;
    (m, s.iter().fold(0f64, |x, y| x.max(*y)))
}

pub fn apply(m: &[Vec<f64>], c: &[f64]) -> Vec<f64> {
    m.iter().map(|r| r.iter().zip(c).map(|(a, b)| a * b).sum()).collect()
}

pub struct Disk {
    pub file: Option<(Vec<u8>, Model)>,
}

/// a different knot almost coincides with t: ill-conditioned, out of scope
pub fn crowded(r: &RCurve, t: f64) -> bool {
    let (a, b) = r.domain();
    r.knots.iter().any(|k| *k != t && (k - t).abs() < 1e-3 * (b - a))
}

/// pick a parameter strictly inside the window, away from its ends
fn inner(ctx: &mut Ctx, m: &Model) -> f64 {
    m.win.0 + (m.win.1 - m.win.0) * (0.03 + 0.94 * ctx.frac())
}

fn session<C: Cv>(ctx: &mut Ctx) -> R {
    let mut r = rcurve(ctx, C::DIM, Knots::Any, 5);
    rescale(ctx, &mut r.knots);
    ctx.ev(|| format!("new {}D curve {}", C::DIM, show_curve(&r)));
    let mut cur: C = C::from_r(&r);
    let mut m = Model::new(r);
    check_shape(ctx, "construction", &cur, &m)?;
    let mut disk: Option<(Vec<u8>, Model)> = None;
    let nops = ctx.range(1, 14);
    let mut edits = 0;
    for _ in 0..nops {
        if cur.r().cps.len() > 60 {
            break;
        }
        let op = ctx.d(16);
        let before = cur.r();
        match op {
            0 => {
                // insert one knot: anywhere inside, or again at an existing one
                let t = if ctx.d(3) == 0 {
                    let ks = before.interior_knots();
                    if ks.is_empty() { inner(ctx, &m) } else { *ctx.pick(&ks) }
                } else {
                    inner(ctx, &m)
                };
                let mult = before.knots.iter().filter(|k| **k == t).count();
                if mult >= before.p || !(t > m.dom.0 && t < m.dom.1) || crowded(&before, t) {
                    continue;
                }
                ctx.ev(|| format!("insert knot {t}"));
                lib(|| cur.add_knot(t)).map_err(|p| ctx.panic_fail("knot insertion", &p))?.map_err(|e| Fail::new("knot insertion refused", e.to_string()))?;
                if cur.r().knots.len() != before.knots.len() + 1 || !cur.r().knots.contains(&t) {
                    fail!("knot insertion count", "knots {:?} -> {:?}", before.knots, cur.r().knots);
                }
                check_shape(ctx, "knot insertion", &cur, &m)?;
                edits += 1;
            }
            1 => {
                let n = ctx.range(1, 4);
                let mut ts: Vec<f64> = (0..n).map(|_| inner(ctx, &m)).collect();
                if ctx.d(3) == 0 {
                    let x = ts[0];
                    for t in ts.iter_mut().take(before.p.min(n)) {
                        *t = x;
                    }
                }
                if ctx.d(3) == 0 {
                    let ks = before.interior_knots();
                    if !ks.is_empty() {
                        ts[0] = *ctx.pick(&ks);
                    }
                }
                ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                // no knot may end up with more copies than the degree, or nearly coincide
                let mut all = before.knots.clone();
                all.extend(&ts);
                all.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if ts.iter().any(|t| all.iter().filter(|k| *k == t).count() > before.p || !(*t > m.dom.0 && *t < m.dom.1))
                    || all.windows(2).any(|w| w[0] != w[1] && w[1] - w[0] < 1e-3 * (m.dom.1 - m.dom.0))
                {
                    continue;
                }
                ctx.ev(|| format!("refine with {:?}", ts));
                let l = ts.len();
                lib(|| cur.refine(ts)).map_err(|p| ctx.panic_fail("refinement", &p))?.map_err(|e| Fail::new("refinement refused", e.to_string()))?;
                if cur.r().knots.len() != before.knots.len() + l {
                    fail!("refinement count", "{} knots -> {}", before.knots.len(), cur.r().knots.len());
                }
                check_shape(ctx, "refinement", &cur, &m)?;
                edits += 1;
            }
            2 => {
                let ks = before.interior_knots();
                if ks.is_empty() {
                    continue;
                }
                let t = *ctx.pick(&ks);
                let tol = if ctx.d(2) == 0 { 1e-9 } else { 1e-6 };
                ctx.ev(|| format!("remove knot {t} within {tol}"));
                let n = lib(|| cur.remove(t, if tol == 1e-6 { None } else { Some(tol) })).map_err(|p| ctx.panic_fail("knot removal", &p))?;
                match n {
                    Ok(n) => {
                        if cur.r().knots.len() + n != before.knots.len() || cur.r().cps.len() + n != before.cps.len() {
                            fail!("knot removal count", "reported {n}, knots {} -> {}", before.knots.len(), cur.r().knots.len());
                        }
                        if n > 0 {
                            ctx.probe("knot_removed");
                            edits += 1;
                            m.slack += 100. * tol * n as f64 * m.base.scale().max(1.);
                        }
                        check_shape(ctx, "knot removal", &cur, &m)?;
                    }
                    Err(_) => {
                        ctx.fault("rejected_operation");
                        if cur.r().knots != before.knots || cur.r().cps != before.cps {
                            fail!("rejected removal changed the curve", "knot {t}");
                        }
                    }
                }
            }
            3 => {
                if before.p >= 6 {
                    continue;
                }
                let d = before.p + ctx.range(1, 2);
                ctx.ev(|| format!("elevate degree {} -> {d}", before.p));
                let n = lib(|| cur.elevate(d)).map_err(|p| ctx.panic_fail("degree elevation", &p))?.map_err(|e| Fail::new("degree elevation refused", e.to_string()))?;
                if n.r().p != d {
                    fail!("degree elevation degree", "asked {d} got {}", n.r().p);
                }
                check_shape(ctx, "degree elevation", &n, &m)?;
                cur = n;
                edits += 1;
            }
            4 => {
                ctx.ev(|| "clamp".to_string());
                lib(|| cur.clampk()).map_err(|p| ctx.panic_fail("clamping", &p))?.map_err(|e| Fail::new("clamping refused", e.to_string()))?;
                if !cur.clamped() {
                    fail!("clamping", "not clamped afterwards: {:?}", cur.r().knots);
                }
                let k = cur.r().knots;
                m.dom = (k[0], k[k.len() - 1]);
                check_shape(ctx, "clamping", &cur, &m)?;
                edits += 1;
            }
            5 => {
                ctx.ev(|| "normalize".to_string());
                lib(|| cur.normalize()).map_err(|p| ctx.panic_fail("normalisation", &p))?;
                let l = m.dom.1 - m.dom.0;
                let d0 = m.dom.0;
                m.reparam(1. / l, -d0 / l);
                check_shape(ctx, "normalisation", &cur, &m)?;
                edits += 1;
            }
            6 => {
                ctx.ev(|| "reverse".to_string());
                let (f, l) = (before.knots[0], before.knots[before.knots.len() - 1]);
                if ctx.d(2) == 0 {
                    lib(|| cur.inv()).map_err(|p| ctx.panic_fail("reversal", &p))?;
                } else {
                    cur = lib(|| cur.inved()).map_err(|p| ctx.panic_fail("reversal", &p))?;
                }
                m.reparam(-1., f + l);
                check_shape(ctx, "reversal", &cur, &m)?;
                edits += 1;
            }
            7 => {
                if m.base.scale() > 500. {
                    continue;
                }
                let (mx, _) = affine(ctx, C::DIM);
                ctx.ev(|| format!("transform {:?}", mx));
                lib(|| cur.xform(&mx)).map_err(|p| ctx.panic_fail("transform", &p))?;
                for c in m.base.cps.iter_mut() {
                    *c = apply(&mx, c);
                }
                m.slack *= 2.;
                check_shape(ctx, "transform", &cur, &m)?;
                edits += 1;
            }
            8 => {
                let t = if ctx.d(3) == 0 {
                    let ks = before.interior_knots();
                    if ks.is_empty() { inner(ctx, &m) } else { *ctx.pick(&ks) }
                } else {
                    inner(ctx, &m)
                };
                if t - m.win.0 < 1e-3 || m.win.1 - t < 1e-3 || crowded(&before, t) {
                    continue;
                }
                ctx.ev(|| format!("split at {t}"));
                let (a, b) = lib(|| cur.split(t)).map_err(|p| ctx.panic_fail("split", &p))?.map_err(|e| Fail::new("split refused", e.to_string()))?;
                let mut ma = m.clone();
                ma.dom.1 = t;
                ma.win.1 = t;
                let mut mb = m.clone();
                mb.dom.0 = t;
                mb.win.0 = t;
                check_shape(ctx, "split (first part)", &a, &ma)?;
                check_shape(ctx, "split (second part)", &b, &mb)?;
                if cur.r().cps != before.cps || cur.r().knots != before.knots {
                    fail!("split changed the original", "");
                }
                if ctx.d(2) == 0 {
                    cur = a;
                    m = ma;
                } else {
                    cur = b;
                    m = mb;
                }
                edits += 1;
            }
            9 => {
                let mut x = inner(ctx, &m);
                let mut y = inner(ctx, &m);
                if x > y {
                    std::mem::swap(&mut x, &mut y);
                }
                if y - x < 0.02 * (m.win.1 - m.win.0) || crowded(&before, x) || crowded(&before, y) || before.knots.contains(&x) || before.knots.contains(&y) {
                    continue;
                }
                let inside = ctx.d(2) == 0;
                ctx.ev(|| format!("trim {x}..{y} keep_inside={inside}"));
                let parts = lib(|| if inside { cur.trim(x, y) } else { cur.trim(y, x) }).map_err(|p| ctx.panic_fail("trim", &p))?.map_err(|e| Fail::new("trim refused", e.to_string()))?;
                let ranges: Vec<(f64, f64)> = if inside { vec![(x, y)] } else { vec![(y, m.win.1), (m.win.0, x)] };
                if parts.len() != ranges.len() {
                    fail!("trim pieces", "{} pieces, must be {}", parts.len(), ranges.len());
                }
                let mut ms = vec![];
                for (c, rg) in parts.iter().zip(&ranges) {
                    let mut mm = m.clone();
                    if rg.0 != m.win.0 {
                        mm.dom.0 = rg.0;
                    }
                    if rg.1 != m.win.1 {
                        mm.dom.1 = rg.1;
                    }
                    mm.win = *rg;
                    check_shape(ctx, "trim", c, &mm)?;
                    ms.push(mm);
                }
                if cur.r().cps != before.cps || cur.r().knots != before.knots {
                    fail!("trim changed the original", "");
                }
                let i = ctx.d(parts.len());
                cur = parts[i].clone();
                m = ms[i].clone();
                edits += 1;
            }
            10 => {
                if m.win != m.dom || !cur.clamped() {
                    continue;
                }
                ctx.ev(|| "decompose into Bezier pieces".to_string());
                let parts = lib(|| cur.bezier()).map_err(|p| ctx.panic_fail("decomposition", &p))?.map_err(|e| Fail::new("decomposition refused", e.to_string()))?;
                let br = before.breaks();
                if parts.len() != br.len() - 1 {
                    fail!("decomposition pieces", "{} pieces for {} spans: knots {:?}", parts.len(), br.len() - 1, before.knots);
                }
                for (c, w) in parts.iter().zip(br.windows(2)) {
                    if c.r().cps.len() != before.p + 1 {
                        fail!("decomposition pieces", "a piece has {} control points, degree {}", c.r().cps.len(), before.p);
                    }
                    let mut mm = m.clone();
                    mm.dom = (w[0], w[1]);
                    mm.win = mm.dom;
                    check_shape(ctx, "decomposition", c, &mm)?;
                }
                ctx.probe("decomposed");
            }
            11 => {
                // operations that must be refused, and must not damage the curve
                ctx.fault("rejected_operation");
                let k = &before.knots;
                let (f, l) = (k[0], k[k.len() - 1]);
                let which = ctx.d(6);
                ctx.ev(|| format!("invalid operation {which}"));
                let r = lib(|| match which {
                    0 => cur.add_knot(f - 0.5).map(|_| ()),
                    1 => cur.add_knot(l + 0.5).map(|_| ()),
                    2 => cur.remove(l + 1., None).map(|_| ()),
                    3 => cur.remove(f, None).map(|_| ()),
                    4 => cur.remove(l, None).map(|_| ()),
                    _ => cur.divide_len(-1.).map(|_| ()),
                })
                .map_err(|p| ctx.panic_fail("invalid operation", &p))?;
                if r.is_ok() {
                    fail!("invalid operation accepted", "case {which}");
                }
                if cur.r().knots != before.knots || cur.r().cps != before.cps {
                    fail!("rejected operation changed the curve", "case {which}");
                }
            }
            12 => {
                let mut buf = vec![];
                lib(|| cur.save(&mut buf)).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
                ctx.ev(|| format!("save {} bytes", buf.len()));
                disk = Some((buf, m.clone()));
            }
            13 => {
                // crash: everything in memory is gone; restart from the last save
                if let Some((buf, mm)) = disk.clone() {
                    ctx.fault("crash_restart");
                    ctx.ev(|| "crash and restart from the save".to_string());
                    cur = lib(|| C::load_slice(&buf)).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
                    m = mm;
                    check_shape(ctx, "restore", &cur, &m)?;
                }
            }
            14 => {
                // derivative queries on whatever state the history has reached
                let t = inner(ctx, &m);
                if before.knots.iter().any(|k| (k - t).abs() < 1e-4) {
                    continue;
                }
                let bt = m.s * t + m.o;
                if m.base.knots.iter().any(|k| (k - bt).abs() < 1e-4) {
                    continue;
                }
                ctx.ev(|| format!("tangent query at {t}"));
                let (g, (gp, gt)) = lib(|| (cur.tan(t), cur.pt_tan(t))).map_err(|p| ctx.panic_fail("tangent", &p))?;
                let w: Vec<f64> = m.base.der(bt).iter().map(|x| x * m.s).collect();
                let tol = 1e-5 * (norm(&w) + m.base.scale()) + m.slack * 1e3 * (1. + m.s.abs());
                if dist(&g, &w) > tol || dist(&gt, &w) > tol || dist(&gp, &m.at(t)) > m.tol() {
                    fail!("tangent differs from the reference", "at {t}: {:?} / {:?}, reference {:?}", g, gt, w);
                }
                if m.slack == 0. {
                    let g = lib(|| cur.second(t)).map_err(|p| ctx.panic_fail("second derivative", &p))?;
                    let w: Vec<f64> = m.base.ders(bt, 2)[2].iter().map(|x| x * m.s * m.s).collect();
                    let steep = 4. * before.p as f64 / before.narrowest();
                    let tol = 1e-6 * norm(&w) + 1e-11 * m.base.scale() * (1. + steep * steep);
                    if !(dist(&g, &w) <= tol) {
                        fail!("second derivative differs from the reference", "at {t}: {:?}, reference {:?}", g, w);
                    }
                }
            }
            _ => {
                // sampling and end points
                let n = ctx.range(2, 9);
                let (a, b) = m.win;
                ctx.ev(|| format!("sample {n} points"));
                let s = lib(|| cur.samples(a, b, n)).map_err(|p| ctx.panic_fail("sampling", &p))?;
                if s.len() != n {
                    fail!("sampling count", "{} of {n}", s.len());
                }
                for (i, (t, p)) in s.iter().enumerate() {
                    let tt = a + (b - a) * i as f64 / (n - 1) as f64;
                    if (t - tt).abs() > 1e-9 * (b - a).abs().max(1.) || dist(p, &m.at(tt.clamp(a, b))) > m.tol() + 1e-8 * m.base.speed_max() * m.s.abs() {
                        fail!("sampling", "sample {i}: {t} {:?}, reference {tt} {:?}", p, m.at(tt));
                    }
                }
                if m.win == m.dom {
                    let (p, q) = lib(|| cur.ends()).map_err(|p| ctx.panic_fail("end points", &p))?;
                    if dist(&p, &m.at(m.win.0)) > m.tol() || dist(&q, &m.at(m.win.1)) > m.tol() {
                        fail!("end points", "{:?} {:?}", p, q);
                    }
                }
            }
        }
    }
    if edits >= 2 {
        ctx.nontrivial = true;
    }
    Ok(())
}
