//! C11: boolean operations against pointwise set operations.
use super::c01::affine;
use super::c08::failing_query;
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::isect::*;
use crate::refmodel::*;
use crate::shapes::*;
use curvo::prelude::operation::BooleanOperation;
use curvo::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        run,
        quick: 20000,
        thorough: 200000,
        steps: 4_000_000_000,
        rule: "one run = one seeded pair of simple closed outlines (12 kinds each, among them long, bent and toothed ones that cross up to 8 times, as curve or compound, any start, direction and knot structure, crossing, nested or apart), a third of the time as regions with up to three holes, all three operations under seeded entropy, sometimes after an aborted call, 60 points judged for each; non-trivial = boundaries in general position that cross",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["general position: crossings at more than 17 degrees, more than 2% of a span away from its ends, well separated, boundaries gently curved there and nowhere else near each other", "points closer than 4e-3 of the size to either boundary are not judged"],
    }
}

type O = Option<CurveIntersectionSolverOptions<f64>>;

pub fn boolean(a: &Rep, b: &Rep, op: BooleanOperation, o: &O) -> anyhow::Result<Vec<Region<f64>>> {
    Ok(match (a, b) {
        (Rep::Single(a), Rep::Single(b)) => a.boolean(op, b, o.clone())?,
        (Rep::Single(a), Rep::Compound(b)) => a.boolean(op, b, o.clone())?,
        (Rep::Compound(a), Rep::Single(b)) => a.boolean(op, b, o.clone())?,
        (Rep::Compound(a), Rep::Compound(b)) => a.boolean(op, b, o.clone())?,
    }
    .into_regions())
}

pub fn name(op: BooleanOperation) -> &'static str {
    match op {
        BooleanOperation::Union => "union",
        BooleanOperation::Intersection => "intersection",
        BooleanOperation::Difference => "difference",
    }
}

pub const OPS: [BooleanOperation; 3] = [BooleanOperation::Union, BooleanOperation::Intersection, BooleanOperation::Difference];

pub fn want(op: BooleanOperation, a: bool, b: bool) -> bool {
    match op {
        BooleanOperation::Union => a || b,
        BooleanOperation::Intersection => a && b,
        BooleanOperation::Difference => a && !b,
    }
}

pub fn options(ctx: &mut Ctx) -> O {
    match ctx.d(4) {
        0 => None,
        1 => Some(CurveIntersectionSolverOptions::default().with_minimum_distance([1e-4, 1e-5][ctx.d(2)])),
        _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(ctx.range(100, 500)).with_minimum_distance([1e-4, 1e-5][ctx.d(2)])),
    }
}

/// boundaries that meet at well behaved crossings only
pub fn general(a: &[&Loop], b: &[&Loop], size: f64) -> Option<usize> {
    let spans = |v: &[&Loop]| -> Vec<RCurve> { v.iter().flat_map(|l| l.spans.clone()).collect() };
    let (sa, sb) = (spans(a), spans(b));
    let all = crossings(&sa, &sb, 64);
    let ok = must_find(&all, &sa, &sb);
    if ok.len() != all.len() {
        return None;
    }
    // elsewhere they keep apart
    let clear = |p: &[f64; 2], o: &[&Loop]| {
        let d = o.iter().map(|l| l.dist(p)).fold(f64::MAX, f64::min);
        d > 0.02 * size || all.iter().any(|c| dist(&c.p, p) < 8. * d.max(1e-3 * size))
    };
    (a.iter().all(|l| l.poly.iter().all(|p| clear(p, b))) && b.iter().all(|l| l.poly.iter().all(|p| clear(p, a)))).then_some(all.len())
}

/// a region around an outline, with up to three holes well inside of it and apart
fn holed(ctx: &mut Ctx, outer: &Shape) -> Result<(Region<f64>, Vec<Loop>), Fail> {
    let lp = Loop::new(outer.rep.rcurves(), 48);
    let (a, b) = lp.bbox();
    let mut loops = vec![];
    let mut holes: Vec<Cc2> = vec![];
    let n = ctx.d(4);
    for _ in 0..n {
        // the roomiest of some places
        let mut best = ([0., 0.], 0.);
        for _ in 0..6 {
            let q = [a[0] + (b[0] - a[0]) * ctx.frac(), a[1] + (b[1] - a[1]) * ctx.frac()];
            if !lp.inside(&q) || loops.iter().any(|l: &Loop| l.inside(&q)) {
                continue;
            }
            let d = loops.iter().map(|l| l.dist(&q)).fold(lp.dist(&q), f64::min);
            if d > best.1 {
                best = (q, d);
            }
        }
        if best.1 < 0.08 * lp.size() {
            continue;
        }
        let f = 0.4 + 0.4 * ctx.frac();
        let mut s = shape(ctx, best.0, best.1 * f, 0x3ff);
        s.edit(ctx, true)?;
        loops.push(Loop::new(s.rep.rcurves(), 48));
        // a bulge reaches out of the radius
        if loops.last().unwrap().poly.iter().any(|p| dist(p, &best.0) > 0.9 * best.1) {
            loops.pop();
            continue;
        }
        ctx.ev(|| format!("hole {}", s.describe()));
        holes.push(s.rep.compound());
    }
    loops.insert(0, lp);
    Ok((Region::new(outer.rep.compound(), holes), loops))
}

fn in_region(l: &[Loop], q: &[f64]) -> bool {
    l[0].inside(q) && !l[1..].iter().any(|h| h.inside(q))
}

/// regions with holes as operands
fn regions(ctx: &mut Ctx, a: Shape, b: Shape) -> R {
    ctx.ev(|| format!("subject {}", a.describe()));
    let (ra, la) = holed(ctx, &a)?;
    ctx.ev(|| format!("clip {}", b.describe()));
    let as_region = ctx.d(2) == 0;
    let (rb, lb) = if as_region { holed(ctx, &b)? } else { (Region::new(b.rep.compound(), vec![]), vec![Loop::new(b.rep.rcurves(), 48)]) };
    let (va, vb): (Vec<&Loop>, Vec<&Loop>) = (la.iter().collect(), lb.iter().collect());
    let size = va[0].size().max(vb[0].size());
    let Some(n) = general(&va, &vb, size) else {
        ctx.probe("not_general");
        return Ok(());
    };
    ctx.probe(&format!("holes_{}_{}", la.len() - 1, lb.len() - 1));
    ctx.nontrivial = n > 0 && la.len() + lb.len() > 2;
    let o = options(ctx);
    ctx.ev(|| format!("options {:?}", o));
    let call = |op: BooleanOperation| -> anyhow::Result<Vec<Region<f64>>> {
        Ok(match (&b.rep, as_region) {
            (_, true) => ra.boolean(op, &rb, o.clone())?,
            (Rep::Single(c), _) => ra.boolean(op, c, o.clone())?,
            (Rep::Compound(c), _) => ra.boolean(op, c, o.clone())?,
        }
        .into_regions())
    };
    let mut areas = [0f64; 3];
    let all: Vec<&Loop> = va.iter().chain(vb.iter()).copied().collect();
    for (k, op) in OPS.into_iter().enumerate() {
        failing_query(ctx, name(op), || call(op).map(|_| ()))?;
        ctx.entropy(0);
        ctx.env();
        let res = lib(|| call(op)).map_err(|p| ctx.panic_fail(name(op), &p))?.map_err(|e| Fail::new("boolean operation on regions failed", format!("{} of regions with {} crossings: {}", name(op), n, e)))?;
        ctx.bits(res.len() as u64);
        for r in &res {
            ctx.bits((r.exterior().spans().len() * 16 + r.interiors().len()) as u64);
        }
        let what = format!("{} of regions", name(op));
        let j = outlines(&what, &res, 2.5e-4)?;
        membership(ctx, &what, &j, &all, size, &|q| want(op, in_region(&la, q), in_region(&lb, q)))?;
        areas[k] = j.iter().map(|r| r.area()).sum();
    }
    let area = |l: &[Loop]| l[0].area().abs() - l[1..].iter().map(|h| h.area().abs()).sum::<f64>();
    let (sa, sb) = (area(&la), area(&lb));
    let tol = 2e-3 * size * size;
    if (areas[0] + areas[1] - sa - sb).abs() > tol || (areas[2] + areas[1] - sa).abs() > tol {
        fail!("areas do not add up", "regions: union {} intersection {} difference {}, operands {} {}", areas[0], areas[1], areas[2], sa, sb);
    }
    Ok(())
}

pub struct Judged {
    pub outer: Loop,
    pub inner: Vec<Loop>,
}

impl Judged {
    pub fn inside(&self, q: &[f64]) -> bool {
        self.outer.inside(q) && !self.inner.iter().any(|l| l.inside(q))
    }
    pub fn area(&self) -> f64 {
        self.outer.area().abs() - self.inner.iter().map(|l| l.area().abs()).sum::<f64>()
    }
}

/// outlines of the result, closed and connected
pub fn outlines(what: &str, regions: &[Region<f64>], gap: f64) -> Result<Vec<Judged>, Fail> {
    let lp = |c: &Cc2| -> Result<Loop, Fail> {
        let spans: Vec<RCurve> = c.spans().iter().map(r2).collect();
        if spans.is_empty() {
            fail!("result without spans", "{what}");
        }
        for i in 0..spans.len() {
            let (x, y) = (&spans[i], &spans[(i + 1) % spans.len()]);
            let d = dist(&x.at(x.domain().1), &y.at(y.domain().0));
            if !(d <= gap) {
                fail!("result boundary not closed", "{what}: gap of {d} after span {i} of {}: {}", spans.len(), spans.iter().map(show_curve).collect::<Vec<_>>().join(" | "));
            }
        }
        Ok(Loop::new(spans, 48))
    };
    let mut out = vec![];
    for r in regions {
        let outer = lp(r.exterior())?;
        let inner = r.interiors().iter().map(lp).collect::<Result<Vec<_>, _>>()?;
        for h in &inner {
            if let Some(p) = h.poly.iter().find(|p| outer.dist(&p[..]) > gap && !outer.inside(&p[..])) {
                fail!("hole outside its exterior", "{what}: {:?}", p);
            }
        }
        out.push(Judged { outer, inner });
    }
    Ok(out)
}

/// membership of points away from all boundaries
pub fn membership(ctx: &mut Ctx, what: &str, res: &[Judged], loops: &[&Loop], size: f64, truth: &dyn Fn(&[f64]) -> bool) -> R {
    let near = 4e-3 * size;
    let (mut lo, mut hi) = ([f64::MAX; 2], [f64::MIN; 2]);
    for l in loops {
        let (a, b) = l.bbox();
        for i in 0..2 {
            lo[i] = lo[i].min(a[i]);
            hi[i] = hi[i].max(b[i]);
        }
    }
    for i in 0..60 {
        let q = if i % 2 == 0 {
            let e = 0.05 * size;
            [lo[0] - e + (hi[0] - lo[0] + 2. * e) * ctx.frac(), lo[1] - e + (hi[1] - lo[1] + 2. * e) * ctx.frac()]
        } else {
            let l = loops[ctx.d(loops.len())];
            let p = l.poly[ctx.d(l.poly.len())];
            let al = ctx.unit() * std::f64::consts::PI;
            let r = near * (1.01 + 6. * ctx.frac());
            [p[0] + r * al.cos(), p[1] + r * al.sin()]
        };
        if loops.iter().any(|l| l.dist(&q) < near) {
            continue;
        }
        let w = truth(&q);
        let g = res.iter().filter(|r| r.inside(&q)).count();
        if g != w as usize {
            fail!("wrong membership", "{what}: {:?} is in {} of the {} regions, should be in {}", q, g, res.len(), w as usize);
        }
    }
    Ok(())
}

/// two outlines; a good part of them long, bent or toothed, so that they cross many times
pub fn pair(ctx: &mut Ctx, ca: [f64; 2], ra: f64, cb: [f64; 2], rb: f64) -> Result<(Shape, Shape), Fail> {
    let many = ctx.d(2) == 0;
    let mut one = |c: [f64; 2], r: f64| -> Result<Shape, Fail> {
        let k = if many { ctx.d(4) } else { 0 };
        let mut s = if k == 1 { bent(ctx, c, r) } else { shape(ctx, c, r, 0x3ff) };
        if k > 1 || k == 1 && ctx.d(3) == 0 {
            let k = ctx.between(1.5, 4.);
            s.stretch(ctx, k)?;
        }
        Ok(s)
    };
    if !many {
        return Ok((one(ca, ra)?, one(cb, rb)?));
    }
    let cb = [ca[0] + 0.5 * (cb[0] - ca[0]), ca[1] + 0.5 * (cb[1] - ca[1])];
    Ok((one(ca, ra)?, one(cb, ra)?))
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let ra = 1. + 2. * ctx.frac();
    let rb = ra * [1., 0.4 + 1.2 * ctx.frac(), 0.2][ctx.d(3)];
    let ca = if ctx.d(2) == 0 { [0., 0.] } else { [ctx.unit() * 5., ctx.unit() * 5.] };
    let far = (ra + rb) * [0.6, 0.3, 1.1][ctx.d(3)];
    let cb = [ca[0] + far * ctx.unit(), ca[1] + far * ctx.unit()];
    let (mut a, mut b) = pair(ctx, ca, ra, cb, rb)?;
    a.edit(ctx, true)?;
    b.edit(ctx, true)?;
    if ctx.d(6) == 0 {
        let (m, _) = affine(ctx, 2);
        let mm = nalgebra::Matrix3::from_fn(|i, j| m[i][j]);
        ctx.ev(|| format!("transform both {:?}", m));
        for s in [&mut a, &mut b] {
            match &mut s.rep {
                Rep::Single(c) => lib(|| c.transform(&mm)),
                Rep::Compound(c) => lib(|| c.transform(&mm)),
            }
            .map_err(|p| ctx.panic_fail("transformation", &p))?;
        }
    }
    for s in [&mut a, &mut b] {
        if ctx.d(5) == 0 {
            ctx.ev(|| "as a compound".into());
            let c = lib(|| s.rep.compound()).map_err(|p| ctx.panic_fail("conversion", &p))?;
            s.rep = Rep::Compound(c);
        }
        s.lp = Loop::new(s.rep.rcurves(), 48);
    }
    if ctx.d(3) == 0 {
        return regions(ctx, a, b);
    }
    ctx.ev(|| format!("subject {}", a.describe()));
    ctx.ev(|| format!("clip {}", b.describe()));
    let size = a.lp.size().max(b.lp.size());
    let Some(n) = general(&[&a.lp], &[&b.lp], size) else {
        ctx.probe("not_general");
        return Ok(());
    };
    ctx.ev(|| format!("crossings {:?}", crossings(&a.lp.spans, &b.lp.spans, 64)));
    ctx.nontrivial = n > 0;
    ctx.probe(&format!("crossings_{}", n.min(8)));
    let o = options(ctx);
    ctx.ev(|| format!("options {:?}", o));
    let gap = 2.5e-4;
    let mut areas = [0f64; 3];
    for (k, op) in OPS.into_iter().enumerate() {
        failing_query(ctx, name(op), || boolean(&a.rep, &b.rep, op, &o).map(|_| ()))?;
        ctx.entropy(0);
        ctx.env();
        let res = lib(|| boolean(&a.rep, &b.rep, op, &o)).map_err(|p| ctx.panic_fail(name(op), &p))?.map_err(|e| Fail::new("boolean operation failed", format!("{} of boundaries with {} crossings: {}", name(op), n, e)))?;
        ctx.bits(res.len() as u64);
        for r in &res {
            ctx.bits(r.exterior().spans().len() as u64);
        }
        let j = outlines(name(op), &res, gap)?;
        membership(ctx, name(op), &j, &[&a.lp, &b.lp], size, &|q| want(op, a.lp.inside(q), b.lp.inside(q)))?;
        areas[k] = j.iter().map(|r| r.area()).sum();
    }
    // areas add up
    let (sa, sb) = (a.lp.area().abs(), b.lp.area().abs());
    let tol = 2e-3 * size * size;
    if (areas[0] + areas[1] - sa - sb).abs() > tol || (areas[2] + areas[1] - sa).abs() > tol {
        fail!("areas do not add up", "union {} intersection {} difference {}, operands {} {}", areas[0], areas[1], areas[2], sa, sb);
    }
    Ok(())
}
