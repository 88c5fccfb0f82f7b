//! C06: triangulation of regions with holes.
use super::c05::*;
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use crate::shapes::*;
use curvo::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        run,
        quick: 8000,
        thorough: 250000,
        steps: 200_000_000,
        rule: "one run = one seeded region (10 kinds of outline, 0-3 holes, any directions, edited and transformed) triangulated 1-2 times under seeded entropy, clock and hash seeds, sometimes after an aborted call; non-trivial = a mesh of at least 4 triangles was judged",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["holes keep a distance to each other and to the exterior larger than the tessellation tolerance; outlines are simple"],
    }
}

/// outline and holes, disjoint
pub fn region(ctx: &mut Ctx) -> Result<(Region<f64>, Loop, Vec<Loop>), Fail> {
    let size = 1. + 4. * ctx.frac();
    let c = [ctx.unit() * 4., ctx.unit() * 4.];
    let mut ext = shape(ctx, c, size, 0x3ff);
    let mut holes: Vec<Shape> = vec![];
    let n = ctx.d(4);
    let (a, b) = ext.lp.bbox();
    for _ in 0..n {
        let q = [a[0] + (b[0] - a[0]) * ctx.frac(), a[1] + (b[1] - a[1]) * ctx.frac()];
        if !ext.lp.inside(&q) {
            continue;
        }
        let mut room = ext.lp.dist(&q);
        for h in &holes {
            if h.lp.inside(&q) {
                room = 0.;
            }
            room = room.min(h.lp.dist(&q));
        }
        if room < 0.35 {
            continue;
        }
        let r = (room - 0.25) * (0.4 + 0.5 * ctx.frac());
        if r < 0.2 {
            continue;
        }
        holes.push(shape(ctx, q, r, 0x3ff));
    }
    ext.edit(ctx, true)?;
    for h in holes.iter_mut() {
        h.edit(ctx, true)?;
    }
    ctx.ev(|| format!("exterior {}", ext.describe()));
    for h in &holes {
        ctx.ev(|| format!("hole {}", h.describe()));
    }
    let mut reg = Region::new(ext.rep.compound(), holes.iter().map(|h| h.rep.compound()).collect());
    if ctx.d(4) == 1 {
        ctx.ev(|| "reverse the region".into());
        lib(|| reg.invert()).map_err(|p| ctx.panic_fail("reversal", &p))?;
    }
    let lp = |c: &Cc2| Loop::new(c.spans().iter().map(r2).collect(), 64);
    let e = lp(reg.exterior());
    let i = reg.interiors().iter().map(lp).collect();
    Ok((reg, e, i))
}

/// vertices of a mesh that lie on the loop, in the order of the loop
fn trace(vs: &[[f64; 2]], lp: &Loop, eps: f64) -> Result<(Vec<usize>, Vec<f64>, Path), Fail> {
    let path = Path::new(lp.spans.clone(), 64);
    let mut on: Vec<(f64, usize)> = vec![];
    for (i, v) in vs.iter().enumerate() {
        if lp.dist(v) > 0.02 {
            continue;
        }
        if let Some(t) = path.next_hit(v, 0., eps) {
            on.push((t, i));
        }
    }
    on.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    Ok((on.iter().map(|x| x.1).collect(), on.iter().map(|x| x.0).collect(), path))
}

pub fn cross(a: &[f64; 2], b: &[f64; 2], c: &[f64; 2]) -> f64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

pub fn check_mesh(ctx: &mut Ctx, what: &str, vs: &[[f64; 2]], fs: &[[usize; 3]], ext: &Loop, holes: &[Loop], tol: f64) -> R {
    let sc = ext.size() + ext.bbox().1.iter().chain(ext.bbox().0.iter()).fold(0f64, |a, b| a.max(b.abs()));
    let eps = 1e-7 * sc.max(1.);
    if vs.iter().flatten().any(|x| !x.is_finite()) {
        fail!("mesh vertex", "{what}: not finite");
    }
    for f in fs {
        if f.iter().any(|i| *i >= vs.len()) || f[0] == f[1] || f[1] == f[2] || f[0] == f[2] {
            fail!("mesh face index", "{what}: face {:?} of {} vertices", f, vs.len());
        }
        if !(cross(&vs[f[0]], &vs[f[1]], &vs[f[2]]) > -1e-12 * sc * sc) {
            fail!("mesh face orientation", "{what}: face {:?} at {:?} {:?} {:?} is not counter-clockwise", f, vs[f[0]], vs[f[1]], vs[f[2]]);
        }
    }
    // the polygons the mesh must fill
    let mut polys: Vec<Vec<[f64; 2]>> = vec![];
    let mut used = vec![false; vs.len()];
    for (k, lp) in std::iter::once(ext).chain(holes).enumerate() {
        let (idx, ts, path) = trace(vs, lp, eps)?;
        if idx.len() < 3 {
            fail!("mesh misses a boundary", "{what}: {} vertices on loop {k}", idx.len());
        }
        for i in &idx {
            used[*i] = true;
        }
        let mut pts: Vec<Vec<f64>> = idx.iter().map(|i| vs[*i].to_vec()).collect();
        // joints of the outline must be vertices
        for i in 0..path.spans.len() {
            let j = path.at(i as f64);
            if !pts.iter().any(|p| dist(p, &j) <= eps) {
                fail!("mesh misses a corner", "{what}: no vertex at {:?}", j);
            }
        }
        polys.push(pts.iter().map(|p| [p[0], p[1]]).collect());
        // deviation of the polygon from the outline
        let convex_spans = lp.convex();
        if convex_spans {
            let mut t2 = ts.clone();
            if t2[0] > 1e-9 {
                fail!("mesh misses a corner", "{what}: the outline's start is no vertex");
            }
            pts.push(pts[0].clone());
            t2.push(path.spans.len() as f64);
            let (r, i) = deviation(&pts, &t2, &path, tol);
            if r > 400. {
                fail!("mesh boundary too far from the outline", "{what}: tolerance {tol}: from {:?} to {:?} the polygon is {r:.1} times the tolerance away", pts[i], pts[i + 1]);
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        fail!("mesh vertex off the outline", "{what}: vertex {i} {:?}", vs[i]);
    }
    // exact cover: areas, and random points
    let want = poly_area(&polys[0]).abs() - polys[1..].iter().map(|p| poly_area(p).abs()).sum::<f64>();
    let got: f64 = fs.iter().map(|f| 0.5 * cross(&vs[f[0]], &vs[f[1]], &vs[f[2]])).sum();
    if (want - got).abs() > 1e-6 * sc.max(1.) * ext.size() {
        fail!("mesh area", "{what}: triangles cover {got}, the polygons enclose {want} ({} triangles, {} holes)", fs.len(), holes.len());
    }
    let (a, b) = ext.bbox();
    for _ in 0..24 {
        let q = [a[0] + (b[0] - a[0]) * (1.1 * ctx.frac() - 0.05), a[1] + (b[1] - a[1]) * (1.1 * ctx.frac() - 0.05)];
        let near = polys.iter().any(|p| (0..p.len()).any(|i| seg_dist(&q, &p[i], &p[(i + 1) % p.len()]) < 1e-4 * sc));
        if near {
            continue;
        }
        let inside = winding(&polys[0], &q) != 0 && polys[1..].iter().all(|p| winding(p, &q) == 0);
        let mut n = 0;
        let mut edge = false;
        for f in fs {
            let c = [cross(&vs[f[0]], &vs[f[1]], &q), cross(&vs[f[1]], &vs[f[2]], &q), cross(&vs[f[2]], &vs[f[0]], &q)];
            if c.iter().all(|x| *x > 0.) {
                n += 1;
            }
            edge |= c.iter().any(|x| x.abs() < 1e-9 * sc * sc) && c.iter().all(|x| *x > -1e-9 * sc * sc);
        }
        if !edge && n != inside as usize {
            fail!("mesh cover", "{what}: point {:?} is {} the region but in {n} triangles", q, if inside { "inside" } else { "outside" });
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let (reg, ext, holes) = region(ctx)?;
    let tol = match ctx.d(3) {
        0 => None,
        1 => Some(1e-3 * 10f64.powf(-ctx.frac())),
        _ => Some(5e-3),
    };
    ctx.ev(|| format!("tolerance {:?}", tol));
    let before = format!("{:?}", reg);
    failing_first(ctx, || reg.tessellate(tol).is_ok())?;
    ctx.entropy(0);
    ctx.hash_seed();
    for _ in 0..1 + ctx.d(2) {
        let mesh = lib(|| reg.tessellate(tol)).map_err(|p| ctx.panic_fail("region tessellation", &p))?.map_err(|e| Fail::new("region tessellation failed", e.to_string()))?;
        let vs: Vec<[f64; 2]> = mesh.vertices().iter().map(|p| [p.x, p.y]).collect();
        ctx.bits(mesh.faces().len() as u64);
        if mesh.faces().len() > 3 {
            ctx.nontrivial = true;
        }
        ctx.probe(&format!("holes_{}", holes.len()));
        check_mesh(ctx, "region", &vs, mesh.faces(), &ext, &holes, tol.unwrap_or(1e-3))?;
        let a = lib(|| mesh.area()).map_err(|p| ctx.panic_fail("area", &p))?;
        // area within the tolerance of the polylines
        let exact = ext.area().abs() - holes.iter().map(|h| h.area().abs()).sum::<f64>();
        let per = ext.size() * 4. * (1. + holes.len() as f64);
        if (a - exact).abs() > per * tol.unwrap_or(1e-3).sqrt() * 4. {
            fail!("region area", "mesh area {a}, exact {exact}");
        }
    }
    if format!("{:?}", reg) != before {
        fail!("tessellation changed the region", "");
    }
    Ok(())
}
