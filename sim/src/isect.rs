//! Reference crossings of planar spline curves: dense polylines, then Newton.
use crate::refmodel::*;

#[derive(Clone, Debug)]
pub struct Cross {
    /// span index and parameter on each side
    pub ia: usize,
    pub ib: usize,
    pub ta: f64,
    pub tb: f64,
    pub p: Vec<f64>,
    /// |sin| of the angle between the tangents, and the speeds
    pub sin: f64,
    pub va: f64,
    pub vb: f64,
}

fn newton(a: &RCurve, b: &RCurve, mut ta: f64, mut tb: f64, da: f64, db: f64) -> Option<(f64, f64)> {
    let (a0, a1) = a.domain();
    let (b0, b1) = b.domain();
    let (sa, sb) = (ta, tb);
    for _ in 0..40 {
        let (p, q) = (a.at(ta), b.at(tb));
        let r = sub(&q, &p);
        let (u, v) = (a.der(ta), b.der(tb));
        let den = u[0] * v[1] - u[1] * v[0];
        if den == 0. {
            return None;
        }
        let x = (r[0] * v[1] - r[1] * v[0]) / den;
        let y = (r[0] * u[1] - r[1] * u[0]) / den;
        // stay near the polyline's crossing
        let nta = (ta + x).clamp(a0.max(sa - 2. * da), a1.min(sa + 2. * da));
        let ntb = (tb + y).clamp(b0.max(sb - 2. * db), b1.min(sb + 2. * db));
        let step = ((nta - ta) / (a1 - a0)).abs() + ((ntb - tb) / (b1 - b0)).abs();
        ta = nta;
        tb = ntb;
        if step < 1e-14 {
            break;
        }
    }
    if dist(&a.at(ta), &b.at(tb)) < 1e-9 * a.scale().max(b.scale()) {
        Some((ta, tb))
    } else {
        None
    }
}

/// all crossings found on polylines of `per` pieces per span
pub fn crossings(sa: &[RCurve], sb: &[RCurve], per: usize) -> Vec<Cross> {
    let mut out: Vec<Cross> = vec![];
    for (ia, a) in sa.iter().enumerate() {
        let pa = a.sample(per);
        for (ib, b) in sb.iter().enumerate() {
            let pb = b.sample(per);
            let (a0, a1) = a.domain();
            let (b0, b1) = b.domain();
            for x in pa.windows(2) {
                let (p, q) = (&x[0].1, &x[1].1);
                let e = 0.05 * dist(p, q);
                let (lo0, hi0) = (p[0].min(q[0]) - e, p[0].max(q[0]) + e);
                let (lo1, hi1) = (p[1].min(q[1]) - e, p[1].max(q[1]) + e);
                for y in pb.windows(2) {
                    let (r, s) = (&y[0].1, &y[1].1);
                    if r[0].min(s[0]) > hi0 || r[0].max(s[0]) < lo0 || r[1].min(s[1]) > hi1 || r[1].max(s[1]) < lo1 {
                        continue;
                    }
                    let (d, f) = (sub(q, p), sub(s, r));
                    let den = d[0] * f[1] - d[1] * f[0];
                    if den == 0. {
                        continue;
                    }
                    let g = sub(r, p);
                    let (u, v) = ((g[0] * f[1] - g[1] * f[0]) / den, (g[0] * d[1] - g[1] * d[0]) / den);
                    if !(-0.05..=1.05).contains(&u) || !(-0.05..=1.05).contains(&v) {
                        continue;
                    }
                    let ta = (x[0].0 + (x[1].0 - x[0].0) * u).clamp(a0, a1);
                    let tb = (y[0].0 + (y[1].0 - y[0].0) * v).clamp(b0, b1);
                    let Some((ta, tb)) = newton(a, b, ta, tb, x[1].0 - x[0].0, y[1].0 - y[0].0) else { continue };
                    if out.iter().any(|c| c.ia == ia && c.ib == ib && (c.ta - ta).abs() < 1e-7 * (a1 - a0) && (c.tb - tb).abs() < 1e-7 * (b1 - b0)) {
                        continue;
                    }
                    let (da, db) = (a.der(ta), b.der(tb));
                    let (va, vb) = (norm(&da), norm(&db));
                    let sin = if va * vb > 0. { (da[0] * db[1] - da[1] * db[0]).abs() / (va * vb) } else { 0. };
                    out.push(Cross { ia, ib, ta, tb, p: a.at(ta), sin, va, vb });
                }
            }
        }
    }
    out
}

/// crossings a query has to report: transversal, away from the ends of their
/// spans, and separated from every other crossing in both parameters
pub fn must_find<'a>(all: &'a [Cross], sa: &[RCurve], sb: &[RCurve]) -> Vec<&'a Cross> {
    all.iter()
        .filter(|c| {
            let (a, b) = (&sa[c.ia], &sb[c.ib]);
            let (da, db) = (a.domain(), b.domain());
            let (la, lb) = (da.1 - da.0, db.1 - db.0);
            let (ea, eb) = ((0.02 * la).max(0.02), (0.02 * lb).max(0.02));
            let clear = |t: f64, d: (f64, f64), e: f64| t - d.0 > e && d.1 - t > e;
            // the speed must neither vanish nor be extreme where they meet
            let slow = c.va < 0.02 * a.scale() / la || c.vb < 0.02 * b.scale() / lb || c.va < 0.01 || c.vb < 0.01;
            c.sin > 0.3
                && !slow
                && clear(c.ta, da, ea)
                && clear(c.tb, db, eb)
                && gentle(a, c.ta)
                && gentle(b, c.tb)
                && all.iter().all(|o| {
                    std::ptr::eq(*c, o)
                        || ((o.ia != c.ia || (o.ta - c.ta).abs() > 0.03 * la && (o.ta - c.ta).abs() > 5e-3)
                            && (o.ib != c.ib || (o.tb - c.tb).abs() > 0.03 * lb && (o.tb - c.tb).abs() > 5e-3))
                })
        })
        .collect()
}

/// around t the curve turns and accelerates little: the solver's quadratic model holds
pub fn gentle(a: &RCurve, t: f64) -> bool {
    let d = a.domain();
    let l = d.1 - d.0;
    let v = a.der(t);
    let n = norm(&v);
    (-6..=6).all(|i| {
        let s = t + l * 0.05 * i as f64 / 6.;
        if s <= d.0 || s >= d.1 {
            return true;
        }
        let w = a.der(s);
        let m = norm(&w);
        m < 1.7 * n && n < 1.7 * m && dot(&v, &w) > 0.8 * n * m
    })
}
