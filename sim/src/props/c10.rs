//! C10: containment against the winding number of the boundary.
use super::c01::{affine, apply};
use super::c08::failing_query;
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use crate::shapes::*;
use curvo::prelude::*;
use nalgebra::Point2;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        run,
        quick: 40000,
        thorough: 400000,
        steps: 2_000_000_000,
        rule: "one run = one seeded closed boundary (10 kinds of simple outline, or a self-crossing polygon or spline), edited, reversed, transformed, and 4-12 points tested against it (anywhere, next to the boundary, exactly or almost level with its vertices and extremes), each under its own entropy stream, some after an aborted call; non-trivial = points on both sides were judged",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["points closer to the boundary than 1e-3 of its size are not judged, nor those closer than the length of the boundary between two divisions of the query"],
    }
}

/// closed, self-crossing as it comes
fn tangle(ctx: &mut Ctx) -> C2 {
    let p = ctx.range(1, 4);
    let n = p + 1 + ctx.range(2, 6);
    let grid = ctx.d(2) == 0;
    let w = if p > 1 { weights(ctx, n + 1) } else { vec![1.; n + 1] };
    let mut v: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let (x, y) = (3. * ctx.unit(), 3. * ctx.unit());
            let (x, y) = if grid { (x.round(), y.round()) } else { (x, y) };
            vec![x * w[i], y * w[i], w[i]]
        })
        .collect();
    v.push(v[0].clone());
    // no repeated neighbours
    for i in 1..v.len() {
        if dist(&v[i], &v[i - 1]) < 1e-3 && i + 1 < v.len() {
            let w = v[i][2];
            v[i][0] += 0.7 * w;
        }
    }
    if p > 1 && ctx.d(3) == 0 {
        let pts: Vec<Point2<f64>> = v[..n].iter().map(|q| Point2::new(q[0] / q[2], q[1] / q[2])).collect();
        return C2::try_periodic(&pts, p).unwrap();
    }
    let k = knots(ctx, p, v.len(), Knots::Clamped);
    mk2(&RCurve { p, knots: k, cps: v })
}

fn options(ctx: &mut Ctx) -> Option<CurveIntersectionSolverOptions<f64>> {
    match ctx.d(4) {
        0 => None,
        1 => Some(CurveIntersectionSolverOptions::default().with_minimum_distance([1e-4, 1e-5, 1e-6][ctx.d(3)])),
        _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(ctx.range(100, 500)).with_minimum_distance([1e-4, 1e-5, 1e-6][ctx.d(3)])),
    }
}

pub fn contains(r: &Rep, p: &Point2<f64>, o: &Option<CurveIntersectionSolverOptions<f64>>) -> anyhow::Result<bool> {
    match r {
        Rep::Single(c) => c.contains(p, o.clone()),
        Rep::Compound(c) => c.contains(p, o.clone()),
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let mut sh = if ctx.d(4) == 0 {
        let rep = Rep::Single(tangle(ctx));
        let lp = Loop::new(rep.rcurves(), 64);
        Shape { rep, lp, kind: "tangle", ccw: true, center: [0., 0.] }
    } else {
        let far = [5., 5., 300.][ctx.d(3)];
        let c = if ctx.d(3) == 0 { [0., 0.] } else { [ctx.unit() * far, ctx.unit() * far] };
        let r = [1., 0.3 + 3. * ctx.frac(), 10. + 90. * ctx.frac()][ctx.d(3)];
        shape(ctx, c, r, 0x3ff)
    };
    sh.edit(ctx, true)?;
    let flat = ctx.d(4) == 0;
    if flat || ctx.d(4) == 0 {
        let (mut m, _) = affine(ctx, 2);
        if flat {
            // drawn out one way
            let k = ctx.between(3., 20.);
            let k = if ctx.d(2) == 0 { k } else { 1. / k };
            for j in 0..2 {
                for i in 0..3 {
                    m[j][i] = if i != j { 0. } else if j == 0 { k } else { 1. };
                }
            }
        }
        let mm = nalgebra::Matrix3::from_fn(|i, j| m[i][j]);
        ctx.ev(|| format!("transform {:?}", m));
        match &mut sh.rep {
            Rep::Single(c) => lib(|| c.transform(&mm)),
            Rep::Compound(c) => lib(|| c.transform(&mm)),
        }
        .map_err(|p| ctx.panic_fail("transformation", &p))?;
        let _ = apply;
    }
    if ctx.d(3) == 0 {
        // the same outline as a compound, from another start
        let mut spans = sh.rep.compound().spans().to_vec();
        let k = ctx.d(spans.len());
        spans.rotate_left(k);
        let cut = ctx.d(spans.len());
        let d = spans[cut].knots_domain();
        let t = d.0 + (d.1 - d.0) * (0.1 + 0.8 * ctx.frac());
        let near = spans[cut].knots().iter().any(|k| (k - t).abs() < 1e-3 * (d.1 - d.0));
        if !near && ctx.d(2) == 0 {
            let s = spans.remove(cut);
            let (a, b) = lib(|| s.try_split(t)).map_err(|p| ctx.panic_fail("split", &p))?.map_err(|e| Fail::new("split refused", e.to_string()))?;
            spans.insert(cut, b);
            spans.insert(cut, a);
        }
        ctx.ev(|| format!("as a compound of {} from span {k}", spans.len()));
        sh.rep = Rep::Compound(spans.into_iter().collect());
    }
    sh.lp = Loop::new(sh.rep.rcurves(), 96);
    let lp = &sh.lp;
    let size = lp.size();
    let (a, b) = lp.bbox();
    ctx.ev(|| format!("boundary {}", sh.describe()));
    // deviation of the sampled outline
    let mut dev = 0f64;
    for c in &lp.spans {
        if c.p > 1 {
            let v = c.sample(96);
            for w in v.windows(2) {
                let q = c.at(0.5 * (w[0].0 + w[1].0));
                dev = dev.max(seg_dist(&q, &[w[0].1[0], w[0].1[1]], &[w[1].1[0], w[1].1[1]]));
            }
        }
    }
    let near0 = (1e-3 * size).max(8. * dev);
    let o = options(ctx);
    // length of the longest piece between two divisions of the boundary
    let division = o.as_ref().map_or(64, |o| o.knot_domain_division);
    let mut piece = 0f64;
    for c in &lp.spans {
        if c.p > 1 {
            let (d0, d1) = c.domain();
            let n = 4 * division;
            let v: Vec<Vec<f64>> = (0..=n).map(|i| c.at(d0 + (d1 - d0) * i as f64 / n as f64)).collect();
            let l: Vec<f64> = v.windows(2).map(|w| dist(&w[0], &w[1])).collect();
            for i in 0..l.len() {
                piece = piece.max(l[i..(i + 5).min(l.len())].iter().sum());
            }
        }
    }
    let near = near0.max(piece);
    if piece > near0 {
        ctx.probe("coarse_division");
    }
    // heights worth probing: ends of spans, knots, extremes of the sample
    let mut ys: Vec<f64> = vec![];
    for c in &lp.spans {
        ys.extend(c.breaks().iter().map(|t| c.at(*t)[1]));
        ys.extend(c.cps.iter().map(|q| q[1] / q[2]));
    }
    ys.push(a[1]);
    ys.push(b[1]);
    let boundary = match &sh.rep {
        Rep::Single(c) if c.degree() == 1 => {
            let v = c.dehomogenized_control_points();
            Some(PolygonBoundary::new(v[..v.len() - 1].to_vec()))
        }
        _ => None,
    };
    let mut sides = [0usize; 2];
    let n = ctx.range(4, 12);
    for _ in 0..n {
        let wide = |ctx: &mut Ctx, i: usize| {
            let e = 0.2 * (b[i] - a[i]);
            a[i] - e + (b[i] - a[i] + 2. * e) * ctx.frac()
        };
        let q = match ctx.d(5) {
            0 => [wide(ctx, 0), wide(ctx, 1)],
            1 | 2 => {
                let y = *ctx.pick(&ys);
                let off = [0., 1e-9, -1e-9, 1e-6, -1e-6, 1e-5, -1e-5, 1e-3, -1e-3][ctx.d(9)];
                [wide(ctx, 0), y + off]
            }
            3 => {
                let k = ctx.d(lp.poly.len());
                let p = lp.poly[k];
                let al = ctx.unit() * std::f64::consts::PI;
                let r = near * (1.05 + 10. * ctx.frac());
                [p[0] + r * al.cos(), p[1] + r * al.sin()]
            }
            _ => [a[0] + (b[0] - a[0]) * ctx.frac(), a[1] + (b[1] - a[1]) * ctx.frac()],
        };
        let d = lp.dist(&q);
        if d < near {
            ctx.probe("too_near");
            continue;
        }
        let want = lp.inside(&q);
        let p = Point2::new(q[0], q[1]);
        if ctx.d(6) == 0 {
            failing_query(ctx, "containment", || contains(&sh.rep, &p, &o).map(|_| ()))?;
        }
        ctx.entropy(0);
        ctx.env();
        let got = lib(|| contains(&sh.rep, &p, &o)).map_err(|p| ctx.panic_fail("containment", &p))?.map_err(|e| Fail::new("containment refused", e.to_string()))?;
        ctx.bits(got as u64);
        if got != want {
            fail!(
                if want { "inner point reported outside" } else { "outer point reported inside" },
                "{:?}, {} from the boundary, winding number {}, options {:?}",
                q, d, lp.winding(&q), o
            );
        }
        if let Some(pb) = &boundary {
            let g = lib(|| pb.contains(&p, ())).map_err(|p| ctx.panic_fail("containment in a polygon", &p))?.map_err(|e| Fail::new("containment refused", e.to_string()))?;
            // a polygon is judged by non-zero winding
            if g != (lp.winding(&q) != 0) {
                fail!("polygon containment disagrees with the winding number", "{:?} in {:?}: {}", q, pb, g);
            }
        }
        sides[want as usize] += 1;
    }
    ctx.nontrivial = sides[0] > 0 && sides[1] > 0;
    ctx.probe(&format!("kind_{}", sh.kind));
    Ok(())
}
