//! C16: length, division, bounding box and closest point after any history of edits.
use super::c01::{affine, apply, well_formed};
use crate::core::*;
use crate::cv::Cv;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        run,
        quick: 6000,
        thorough: 800000,
        steps: 2_000_000_000,
        rule: "one run = a seeded 2D or 3D curve of a seeded scale, put through 0-4 edits (some refused), then 2-5 measurements (length, parameter at a length, division by length and by count, bounding box, closest point), some repeated on a restored copy, compared with an independent evaluation of the edited curve; non-trivial = a measurement was judged",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["lengths are judged as tightly as 24-point quadrature per span allows, closest points where one stretch is clearly nearest"],
    }
}

/// arc length, and how far quadrature with few points may be off
pub fn length(r: &RCurve, a: f64, b: f64) -> (f64, f64) {
    let mut br = vec![a];
    br.extend(r.interior_knots().into_iter().filter(|k| *k > a && *k < b));
    br.push(b);
    let (mut sum, mut e) = (0., 0.);
    for w in br.windows(2) {
        let fine = r.length(w[0], w[1], 48);
        sum += fine;
        e += [1, 2, 3].iter().map(|n| (r.length(w[0], w[1], *n) - fine).abs() * [0., 5., 20., 20.][*n]).fold(0., f64::max);
    }
    (sum, e + 1e-7 * sum + 1e-12)
}

/// distance from the stretch [a, b]
pub fn stretch_distance(r: &RCurve, a: f64, b: f64, q: &[f64]) -> f64 {
    let n = 24 * r.breaks().len();
    let at = |i: usize| a + (b - a) * i as f64 / n as f64;
    let d: Vec<f64> = (0..=n).map(|i| dist(&r.at(at(i)), q)).collect();
    let mut best = f64::INFINITY;
    for i in 0..=n {
        if (i > 0 && d[i - 1] < d[i]) || (i < n && d[i + 1] < d[i]) {
            continue;
        }
        let (mut x, mut y) = (at(i.saturating_sub(1)), at((i + 1).min(n)));
        for _ in 0..70 {
            let (m1, m2) = (x + (y - x) * 0.381966, x + (y - x) * 0.618034);
            if dist(&r.at(m1), q) < dist(&r.at(m2), q) {
                y = m2
            } else {
                x = m1
            }
        }
        best = best.min(d[i]).min(dist(&r.at(0.5 * (x + y)), q));
    }
    best
}

/// a point beside curve `i` of the set whose nearest point is beyond doubt, and its distance
pub fn clear_point(ctx: &mut Ctx, all: &[RCurve], i: usize) -> Option<(Vec<f64>, f64)> {
    let r = &all[i];
    let (a, b) = r.domain();
    let n = (r.cps.len() * r.p).max(2);
    let dt = (b - a) / (n - 1) as f64;
    let t = a + (b - a) * ctx.frac();
    let side: Vec<f64> = (0..r.cps[0].len() - 1).map(|_| ctx.unit()).collect();
    let h = ctx.frac();
    let v = r.der(t.min(b - 1e-9 * (b - a)));
    let sp = norm(&v);
    let size = r.scale();
    if sp * (b - a) < 1e-2 * size {
        return None;
    }
    // across the tangent
    let k = dot(&side, &v) / (sp * sp);
    let side: Vec<f64> = side.iter().zip(&v).map(|(s, x)| s - k * x).collect();
    let l = norm(&side);
    if l < 1e-3 {
        return None;
    }
    // no corner nearby, on either side of which there would be a nearest point
    let k = &r.knots;
    if (1..k.len() - r.p).any(|i| k[i] > a && k[i] < b && (k[i] - t).abs() <= 3. * dt && k[i + r.p - 1] == k[i]) {
        return None;
    }
    // the stretch around t is nearly straight and evenly run through
    for j in 0..=24 {
        let u = t + 2. * dt * (j as f64 / 12. - 1.);
        if u < a || u >= b {
            continue;
        }
        let w = r.der(u);
        let s = norm(&w);
        if s < 0.5 * sp || s > 2. * sp || dot(&w, &v) < 0.9 * s * sp {
            return None;
        }
    }
    let h = 0.2 * h * sp * dt;
    let p = r.at(t);
    let q: Vec<f64> = p.iter().zip(&side).map(|(x, s)| x + h * s / l).collect();
    // everything else is clearly farther away
    let m = 12 * n;
    let pts: Vec<Vec<f64>> = (0..=m).map(|j| r.at(a + (b - a) * j as f64 / m as f64)).collect();
    let sag = sp * dt * 0.5;
    for (j, x) in pts.iter().enumerate() {
        let u = a + (b - a) * j as f64 / m as f64;
        if (u - t).abs() > 2. * dt && dist(x, &q) < 3. * h + 2. * sag {
            return None;
        }
    }
    // chords of the coarse sampling elsewhere do not come close either
    for j in 0..n - 1 {
        let (x, y) = (a + dt * j as f64, a + dt * (j + 1) as f64);
        if (x > t + 2. * dt || y < t - 2. * dt) && super::c05::point_seg(&q, &r.at(x), &r.at(y)) < 2. * h + sag {
            return None;
        }
    }
    let d = stretch_distance(r, a, b, &q);
    if all.iter().enumerate().any(|(j, o)| j != i && o.distance(&q, 16).0 < d * 1.01 + 1e-9 * size) {
        return None;
    }
    Some((q, d))
}

/// puts the curve through edits; what it is afterwards is taken from its own knots and control points
fn edits<C: Cv>(ctx: &mut Ctx, c: &mut C, n: usize) -> R {
    for _ in 0..n {
        let r = c.r();
        let (a, b) = r.domain();
        let t = a + (b - a) * (0.05 + 0.9 * ctx.frac());
        let k = ctx.d(9);
        let what = ["insert a knot", "refine", "elevate", "split and keep a half", "trim", "reverse", "affine map", "normalise", "refused edit"][k];
        ctx.ev(|| format!("{what} at {t}"));
        if r.knots.iter().any(|x| (x - t).abs() < 2e-2 * (b - a)) && k < 5 {
            continue;
        }
        let f = |e: anyhow::Error| Fail::new(&format!("{what} refused"), e.to_string());
        let p = |ctx: &Ctx, p: &Panicked| ctx.panic_fail(what, p);
        match k {
            0 => lib(|| c.add_knot(t)).map_err(|e| p(ctx, &e))?.map_err(f)?,
            1 => lib(|| c.refine(vec![t; r.p.min(2)])).map_err(|e| p(ctx, &e))?.map_err(f)?,
            2 if r.p < 5 => *c = lib(|| c.elevate(r.p + 1)).map_err(|e| p(ctx, &e))?.map_err(f)?,
            3 => {
                let (x, y) = lib(|| c.split(t)).map_err(|e| p(ctx, &e))?.map_err(f)?;
                *c = if ctx.d(2) == 0 { x } else { y };
            }
            4 => *c = lib(|| c.trim(a + 0.04 * (b - a), t.max(a + 0.3 * (b - a)))).map_err(|e| p(ctx, &e))?.map_err(f)?.remove(0),
            5 => lib(|| c.inv()).map_err(|e| p(ctx, &e))?,
            6 => {
                let (m, _) = affine(ctx, C::DIM);
                lib(|| c.xform(&m)).map_err(|e| p(ctx, &e))?
            }
            7 => lib(|| c.normalize()).map_err(|e| p(ctx, &e))?,
            8 => {
                ctx.fault("rejected_operation");
                let _ = lib(|| c.add_knot(b + (b - a) + 1.));
                let _ = lib(|| c.divide_len(-1.));
            }
            _ => {}
        }
        well_formed(what, &c.r())?;
    }
    Ok(())
}

/// the same point, twice, in float distance of each other
fn session<C: Cv>(ctx: &mut Ctx) -> R {
    let mut r = rcurve(ctx, C::DIM, Knots::Any, 5);
    rescale(ctx, &mut r.knots);
    // other sizes
    let s = *ctx.pick(&[1., 1., 1e-3, 1e-2, 0.1, 10., 1e3, 1e4]);
    if s != 1. {
        let m: Vec<Vec<f64>> = (0..=C::DIM).map(|i| (0..=C::DIM).map(|j| if i == j { if i == C::DIM { 1. } else { s } } else { 0. }).collect()).collect();
        for c in &mut r.cps {
            *c = apply(&m, c);
        }
    }
    ctx.ev(|| format!("{}D curve of scale {s}: {}", C::DIM, show_curve(&r)));
    let mut c = C::from_r(&r);
    let n = ctx.d(5);
    edits(ctx, &mut c, n)?;
    if n > 0 && ctx.d(4) == 0 {
        let mut b = vec![];
        lib(|| c.save(&mut b)).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
        c = lib(|| C::load_slice(&b)).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
        ctx.fault("crash_restart");
        ctx.ev(|| "restart from a save".into());
    }
    for _ in 0..ctx.range(2, 5) {
        measure(ctx, &c)?;
        if ctx.d(3) == 0 {
            edits(ctx, &mut c, 1)?;
        }
    }
    Ok(())
}

fn measure<C: Cv>(ctx: &mut Ctx, c: &C) -> R {
    let r = c.r();
    let (a, b) = r.domain();
    let (total, slack) = length(&r, a, b);
    let sure = slack < 0.02 * total;
    let el = 1e-9 * (b - a + a.abs());
    match ctx.d(6) {
        0 => {
            ctx.ev(|| "length".into());
            let l = lib(|| c.length()).map_err(|p| ctx.panic_fail("length", &p))?.map_err(|e| Fail::new("length refused", e.to_string()))?;
            if sure {
                ctx.nontrivial = true;
                ctx.probe("length_judged");
                if !((l - total).abs() <= slack) {
                    fail!("length", "{l}, must be {total} within {slack:e}");
                }
            }
            ctx.fb(l);
        }
        1 => {
            let l = total * [0.5, 0., 1., 1.5, -0.1][ctx.d(5)] * if ctx.d(2) == 0 { 1. } else { ctx.frac() * 2. };
            let tol = [None, Some(1e-3), Some(1e-6), Some(1e-8)][ctx.d(4)].map(|t| t * total);
            ctx.ev(|| format!("parameter at length {l} of {total}, tolerance {:?}", tol));
            let got = lib(|| c.param_at_length(l, tol)).map_err(|p| ctx.panic_fail("parameter at length", &p))?;
            if !sure {
                return Ok(());
            }
            ctx.nontrivial = true;
            ctx.probe("parameter_at_length_judged");
            match got {
                Ok(u) => {
                    if l > total + slack {
                        fail!("parameter at length", "{u} for {l}, which is beyond the length {total}");
                    }
                    if !(u >= a - el && u <= b + el) {
                        fail!("parameter at length", "{u} lies outside of the domain {a}..{b}");
                    }
                    let w = r.length(a, u.clamp(a, b), 48);
                    let allowed = tol.unwrap_or(1e-4) + 2. * slack;
                    if !((w - l.clamp(0., total)).abs() <= allowed) {
                        fail!("parameter at length", "{u} for {l} of {total}, but the curve has length {w} there (allowed {allowed:e})");
                    }
                    ctx.fb(u);
                }
                Err(e) => {
                    if l < total - slack {
                        fail!("parameter at length", "refused {l} of {total}: {e}");
                    }
                }
            }
        }
        2 => {
            let n = 0.3 + 12. * ctx.frac();
            let l = total / n;
            ctx.ev(|| format!("divide by length {l} of {total}"));
            let got = lib(|| c.divide_len(l)).map_err(|p| ctx.panic_fail("division by length", &p))?;
            if !sure {
                return Ok(());
            }
            ctx.nontrivial = true;
            ctx.probe("division_judged");
            match got {
                Ok(v) => {
                    if n < 1. - slack / total {
                        fail!("division by length", "{} parts although the curve is shorter", v.len());
                    }
                    divided(&r, &v, l, total, slack, false)?;
                }
                Err(e) => {
                    if n > 1. + slack / total {
                        fail!("division by length", "refused {l} of {total}: {e}");
                    }
                }
            }
        }
        3 => {
            let n = 1 + ctx.d(12);
            ctx.ev(|| format!("divide by count {n}"));
            let got = lib(|| c.divide_count(n)).map_err(|p| ctx.panic_fail("division by count", &p))?;
            if !sure {
                return Ok(());
            }
            ctx.nontrivial = true;
            ctx.probe("division_judged");
            match got {
                Ok(v) => {
                    if v.len() != n + 1 {
                        fail!("division by count", "{} parameters for {n} parts", v.len());
                    }
                    divided(&r, &v, total / n as f64, total, slack, true)?;
                }
                Err(e) => fail!("division by count", "refused {n}: {e}"),
            }
        }
        4 => {
            ctx.ev(|| "bounding box".into());
            let (lo, hi) = lib(|| c.bbox()).map_err(|p| ctx.panic_fail("bounding box", &p))?;
            let tol = 1e-9 * r.scale();
            ctx.nontrivial = true;
            for (t, p) in r.sample(20) {
                for d in 0..C::DIM {
                    if !(p[d] >= lo[d] - tol && p[d] <= hi[d] + tol) {
                        fail!("bounding box", "{:?} at {t} lies outside of {:?} {:?}", p, lo, hi);
                    }
                }
            }
            // no larger than the control points span
            for d in 0..C::DIM {
                let v: Vec<f64> = r.cps.iter().map(|c| proj(c)[d]).collect();
                let (x, y) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                if lo[d] < x - tol || hi[d] > y + tol {
                    fail!("bounding box", "{:?} {:?} is larger than the control points {x} {y} in dimension {d}", lo, hi);
                }
            }
        }
        _ => {
            let clear = clear_point(ctx, &[r.clone()], 0);
            let q = match &clear {
                Some(x) => x.0.clone(),
                None => (0..C::DIM).map(|_| r.scale() * 1.5 * ctx.unit()).collect(),
            };
            ctx.ev(|| format!("closest point to {:?}, clear {}", q, clear.is_some()));
            let (u, p) = lib(|| c.closest(&q)).map_err(|p| ctx.panic_fail("closest point", &p))?.map_err(|e| Fail::new("closest point refused", e.to_string()))?;
            if !(u >= a - el && u <= b + el) {
                fail!("closest parameter", "{u} lies outside of the domain {a}..{b}");
            }
            let x = r.at(u.clamp(a, b));
            if !(dist(&x, &p) <= 1e-8 * r.scale()) {
                fail!("closest point", "{:?} is not the point at the closest parameter {u}: {:?}", p, x);
            }
            if let Some((_, want)) = clear {
                ctx.nontrivial = true;
                ctx.probe("closest_point_judged");
                let d = dist(&p, &q);
                if !(d <= want * (1. + 1e-3) + 1e-6 * r.scale()) {
                    fail!("closest point", "{:?} for {:?} is {d} away, the curve {want}", p, q);
                }
            }
            ctx.fb(u);
        }
    }
    Ok(())
}

/// parameters at multiples of l
fn divided(r: &RCurve, v: &[(f64, f64)], l: f64, total: f64, slack: f64, count: bool) -> R {
    let (a, b) = r.domain();
    let el = 1e-9 * (b - a + a.abs());
    let tol = 2.5e-3 * l.min(1.) + 2. * slack;
    let parts = total / l;
    let (lo, hi) = ((parts - (slack / l + 1e-3)).floor(), (parts + slack / l + 1e-3).floor());
    if !count && ((v.len() as f64) < lo + 1. || v.len() as f64 > hi + 1.) {
        fail!("division", "{} parameters, {lo}..{hi} parts expected", v.len());
    }
    for (k, (u, s)) in v.iter().enumerate() {
        if !((s - k as f64 * l).abs() <= slack + 1e-9 * total) {
            fail!("division", "length {s} of parameter {k}, must be {}", k as f64 * l);
        }
        if !(*u >= a - el && *u <= b + el) {
            fail!("division", "parameter {u} lies outside of the domain {a}..{b}");
        }
        if k > 0 && !(*u > v[k - 1].0) {
            fail!("division", "parameters {} and {u} do not increase", v[k - 1].0);
        }
        let w = r.length(a, u.clamp(a, b), 48);
        if !((w - k as f64 * l).abs() <= tol) {
            fail!("division", "parameter {u} of division {k} is at length {w}, must be at {} (allowed {tol:e}; total {total})", k as f64 * l);
        }
    }
    if v.is_empty() || (v[0].0 - a).abs() > el {
        fail!("division", "does not start at the start: {:?}", v.first());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    if ctx.d(2) == 0 {
        session::<crate::gen::C2>(ctx)
    } else {
        session::<crate::gen::C3>(ctx)
    }
}
