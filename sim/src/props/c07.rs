//! C07: surface and trimmed-surface tessellation.
use super::c02::start_surface;
use super::c05::*;
use super::c06::cross;
use crate::core::*;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::refmodel::*;
use crate::shapes::*;
use curvo::prelude::*;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        run,
        quick: 9000,
        thorough: 200000,
        steps: 600_000_000,
        rule: "one run = one seeded surface (free-form, extruded, revolved, sphere, plane; edited) tessellated plainly, adaptively, with boundary constraints, or trimmed with outline and holes, twice in two environments; non-trivial = a mesh of at least 8 triangles was judged",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["trimming curves are simple, disjoint and inside the domain; boundary constraints contain both ends and the constrained surface is open and gently curved"],
    }
}

pub struct Mesh {
    pub p: Vec<Vec<f64>>,
    pub n: Vec<Vec<f64>>,
    pub uv: Vec<[f64; 2]>,
    pub f: Vec<[usize; 3]>,
}
impl Mesh {
    pub fn of(t: &SurfaceTessellation3D<f64>) -> Mesh {
        Mesh {
            p: t.points().iter().map(pv).collect(),
            n: t.normals().iter().map(|n| n.as_slice().to_vec()).collect(),
            uv: t.uvs().iter().map(|u| [u.x, u.y]).collect(),
            f: t.faces().clone(),
        }
    }
    fn bits(&self) -> u64 {
        let mut h = 17u64;
        let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        for v in self.p.iter().chain(self.n.iter()) {
            v.iter().for_each(|x| add(x.to_bits()));
        }
        self.uv.iter().flatten().for_each(|x| add(x.to_bits()));
        self.f.iter().flatten().for_each(|x| add(*x as u64));
        h
    }
}

/// vertices, uvs and normals correspond; indices in range
fn correspond(what: &str, m: &Mesh, s: &RSurface, snapped: &dyn Fn(&[f64; 2]) -> bool) -> R {
    if m.p.len() != m.uv.len() || m.n.len() != m.uv.len() {
        fail!("mesh arrays differ in length", "{what}: {} points, {} normals, {} uvs", m.p.len(), m.n.len(), m.uv.len());
    }
    if m.f.is_empty() {
        fail!("mesh without faces", "{what}");
    }
    let (du, dv) = s.domain();
    let eps = 1e-7 * s.scale().max(1.);
    let (lu, lv) = (du.1 - du.0, dv.1 - dv.0);
    for (i, uv) in m.uv.iter().enumerate() {
        if !(uv[0] >= du.0 - 1e-9 * lu && uv[0] <= du.1 + 1e-9 * lu && uv[1] >= dv.0 - 1e-9 * lv && uv[1] <= dv.1 + 1e-9 * lv) {
            fail!("mesh uv outside the domain", "{what}: vertex {i} {:?}", uv);
        }
        let (u, v) = (uv[0].clamp(du.0, du.1), uv[1].clamp(dv.0, dv.1));
        let w = s.at(u, v);
        if !(dist(&w, &m.p[i]) <= eps) {
            fail!("mesh vertex off the surface", "{what}: vertex {i} at uv {:?} is {:?}, the surface has {:?}", uv, m.p[i], w);
        }
        if m.n[i].iter().any(|x| !x.is_finite()) {
            fail!("mesh normal not finite", "{what}: vertex {i} at uv {:?}: {:?}", uv, m.n[i]);
        }
        // near a knot the one-sided derivatives may differ
        let near = |k: &[f64], t: f64, d: (f64, f64)| k.iter().any(|x| *x > d.0 && *x < d.1 && (x - t).abs() < 1e-6 * (d.1 - d.0));
        if near(&s.ku, u, du) || near(&s.kv, v, dv) {
            continue;
        }
        let (a, b) = (s.du(u, v), s.dv(u, v));
        let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let l = norm(&c);
        if l < 1e-4 * norm(&a) * norm(&b) || l < 1e-6 {
            continue;
        }
        let nl = norm(&m.n[i]);
        if nl == 0. || dot(&c, &m.n[i]) / (l * nl) < 1. - 1e-6 {
            fail!("mesh normal", "{what}: vertex {i} at uv {:?}: normal {:?}, the surface's is {:?}", uv, m.n[i], c);
        }
    }
    for f in &m.f {
        if f.iter().any(|i| *i >= m.p.len()) {
            fail!("mesh face index", "{what}: face {:?} of {} vertices", f, m.p.len());
        }
        let a = cross(&m.uv[f[0]], &m.uv[f[1]], &m.uv[f[2]]);
        if !(a > -1e-9 * lu * lv) {
            if f.iter().any(|i| snapped(&m.uv[*i])) {
                fail!("constrained mesh folds over", "{what}: face {:?} uv {:?} {:?} {:?}", f, m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]);
            }
            fail!("mesh face orientation", "{what}: face {:?} uv {:?} {:?} {:?}", f, m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]);
        }
    }
    Ok(())
}

fn key(uv: &[f64; 2], d: ((f64, f64), (f64, f64))) -> (i64, i64) {
    let (lu, lv) = (d.0 .1 - d.0 .0, d.1 .1 - d.1 .0);
    (((uv[0] - d.0 .0) / lu * 1e9).round() as i64, ((uv[1] - d.1 .0) / lv * 1e9).round() as i64)
}

/// no crack, overlap or T-joint: every edge has its mate, or lies on the domain's border
fn conforming(what: &str, m: &Mesh, s: &RSurface) -> R {
    let d = s.domain();
    const E: i64 = 1_000_000_000;
    let mut edges: HashMap<((i64, i64), (i64, i64)), i32> = HashMap::new();
    let mut area = 0.;
    for f in &m.f {
        let k: Vec<_> = f.iter().map(|i| key(&m.uv[*i], d)).collect();
        area += 0.5 * cross(&m.uv[f[0]], &m.uv[f[1]], &m.uv[f[2]]);
        if k[0] == k[1] || k[1] == k[2] || k[0] == k[2] {
            continue;
        }
        for i in 0..3 {
            *edges.entry((k[i], k[(i + 1) % 3])).or_default() += 1;
        }
    }
    let want = (d.0 .1 - d.0 .0) * (d.1 .1 - d.1 .0);
    if (area - want).abs() > 1e-7 * want {
        fail!("mesh does not cover the domain", "{what}: uv area {area} of {want}");
    }
    let mut bad: Vec<_> = vec![];
    for ((a, b), n) in &edges {
        let back = edges.get(&(*b, *a)).copied().unwrap_or(0);
        let border = |i: i64, j: i64| i == j && ((i).abs() <= 2 || (i - E).abs() <= 2);
        let on_border = border(a.0, b.0) || border(a.1, b.1);
        if (*n > 1 && *n != back) || (back == 0 && !on_border) {
            bad.push((*a, *b, *n, back));
        }
    }
    bad.sort();
    if let Some((a, b, n, back)) = bad.first() {
        let g = |k: &(i64, i64)| (k.0 as f64 / 1e9, k.1 as f64 / 1e9);
        fail!("mesh crack", "{what}: the edge from {:?} to {:?} (fractions of the uv domain) occurs {n} times, {back} times in the other direction ({} such edges)", g(a), g(b), bad.len());
    }
    Ok(())
}

fn options(ctx: &mut Ctx) -> Option<AdaptiveTessellationOptions<f64>> {
    if ctx.d(4) == 0 {
        return None;
    }
    let o = AdaptiveTessellationOptions {
        norm_tolerance: [2.5e-2, 1e-1, 1e-2, 10.][ctx.d(4)],
        min_divs_u: ctx.range(1, 5),
        min_divs_v: ctx.range(1, 5),
        min_depth: [0, 0, 1, 2][ctx.d(4)],
        max_depth: [8, 3, 5, 0][ctx.d(4)],
    };
    Some(o)
}

fn gentle(ctx: &mut Ctx) -> S3 {
    let pu = ctx.range(1, 3);
    let pv_ = ctx.range(1, 3);
    let nu = pu + 1 + ctx.d(3);
    let nv = pv_ + 1 + ctx.d(3);
    let ku = knots(ctx, pu, nu, Knots::Clamped);
    let kv = knots(ctx, pv_, nv, Knots::Clamped);
    let cps = (0..nu).map(|i| (0..nv).map(|j| vec![2. * i as f64, 2. * j as f64, 0.6 * ctx.unit(), 1.]).collect()).collect();
    mks(&RSurface { pu, pv: pv_, ku, kv, cps })
}

/// sorted parameters on an edge, both ends included
fn edge_parameters(ctx: &mut Ctx, d: (f64, f64)) -> Vec<f64> {
    let n = ctx.range(1, 7);
    let mut f: Vec<f64> = (0..=n).map(|i| i as f64 / n as f64).collect();
    if ctx.d(2) == 1 {
        for x in f[1..n].iter_mut() {
            *x += (ctx.frac() - 0.5) * 0.6 / n as f64;
        }
    }
    let m = f.len();
    let mut v: Vec<f64> = f.iter().map(|f| d.0 + (d.1 - d.0) * f).collect();
    v[0] = d.0;
    v[m - 1] = d.1;
    v
}

/// run twice, in two environments: bit-identical
fn twice(ctx: &mut Ctx, what: &str, f: impl Fn() -> anyhow::Result<SurfaceTessellation3D<f64>>) -> Result<Mesh, Fail> {
    let a = lib(&f).map_err(|p| ctx.panic_fail(what, &p))?.map_err(|e| Fail::new(&format!("{what} failed"), e.to_string()))?;
    ctx.clock();
    ctx.hash_seed();
    ctx.entropy(0);
    let b = lib(&f).map_err(|p| ctx.panic_fail(what, &p))?.map_err(|e| Fail::new(&format!("{what} failed"), e.to_string()))?;
    let (a, b) = (Mesh::of(&a), Mesh::of(&b));
    if a.bits() != b.bits() {
        fail!("mesh depends on the environment", "{what}: {} / {} vertices, {} / {} faces", a.p.len(), b.p.len(), a.f.len(), b.f.len());
    }
    ctx.bits(a.bits());
    if a.f.len() >= 8 {
        ctx.nontrivial = true;
    }
    Ok(a)
}

fn grid_lines(m: &Mesh, d: usize, dom: (f64, f64)) -> usize {
    let mut v: Vec<f64> = m.uv.iter().map(|u| u[d]).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup_by(|a, b| (*a - *b).abs() < 1e-9 * (dom.1 - dom.0));
    v.len()
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    match ctx.d(8) {
        0..=2 => plain(ctx),
        3 | 4 => constrained(ctx),
        _ => trimmed(ctx),
    }
}

fn plain(ctx: &mut Ctx) -> R {
    let mut s = if ctx.d(3) == 0 { gentle(ctx) } else { start_surface(ctx, true)? };
    if ctx.d(3) == 0 {
        ctx.ev(|| "flip".into());
        lib(|| s.invert()).map_err(|p| ctx.panic_fail("flip", &p))?;
    }
    let r = rs(&s);
    if ctx.d(5) == 0 {
        let (nu, nv) = (ctx.range(1, 9), ctx.range(1, 9));
        ctx.ev(|| format!("regular tessellation {nu} x {nv}"));
        let m = twice(ctx, "regular tessellation", || Ok(s.regular_tessellate(nu, nv)))?;
        correspond("regular tessellation", &m, &r, &|_| false)?;
        conforming("regular tessellation", &m, &r)?;
        if m.f.len() != 2 * nu * nv || m.p.len() != (nu + 1) * (nv + 1) {
            fail!("regular tessellation count", "{nu} x {nv}: {} faces, {} vertices", m.f.len(), m.p.len());
        }
        return Ok(());
    }
    let o = options(ctx);
    ctx.ev(|| format!("degrees {} {} options {:?}", r.pu, r.pv, o));
    let m = twice(ctx, "surface tessellation", || Ok(s.tessellate(o.clone())))?;
    correspond("surface", &m, &r, &|_| false)?;
    conforming("surface", &m, &r)?;
    let (du, dv) = r.domain();
    let oo = o.clone().unwrap_or_default();
    if r.pu > 1 && grid_lines(&m, 0, du) < oo.min_divs_u + 1 || r.pv > 1 && grid_lines(&m, 1, dv) < oo.min_divs_v + 1 {
        fail!("minimum divisions ignored", "{:?}: {} x {} lines", o, grid_lines(&m, 0, du), grid_lines(&m, 1, dv));
    }
    // the normal tolerance must have stopped the refinement, or the depth
    if let Some(o) = &o {
        let (lu, lv) = (du.1 - du.0, dv.1 - dv.0);
        let smallest = m.f.iter().map(|f| cross(&m.uv[f[0]], &m.uv[f[1]], &m.uv[f[2]])).filter(|a| *a > 1e-9 * lu * lv).fold(f64::MAX, f64::min);
        let br = |k: &[f64], d: (f64, f64)| k.iter().filter(|x| **x > d.0 && **x < d.1).count();
        let (cu, cv) = (oo.min_divs_u.max(2 * (r.cps.len() - 1)), oo.min_divs_v.max(2 * (r.cps[0].len() - 1)));
        let cu = if r.pu <= 1 { r.cps.len() - 1 } else { cu };
        let cv = if r.pv <= 1 { r.cps[0].len() - 1 } else { cv };
        let grid = lu * lv / (cu * cv) as f64;
        let uniform = r.pu > 1 && r.pv > 1 && br(&r.ku, du) == 0 && br(&r.kv, dv) == 0;
        if uniform && o.max_depth >= 5 && smallest > grid / 2f64.powi(o.max_depth as i32 - 1) && m.n.iter().all(|n| norm(n) > 0.5) {
            for f in &m.f {
                for i in 0..3 {
                    let (a, b) = (f[i], f[(i + 1) % 3]);
                    let (x, y) = (m.uv[a], m.uv[b]);
                    if x[0] == y[0] || x[1] == y[1] {
                        let d = dist(&m.n[a], &m.n[b]);
                        if d * d > 16. * o.norm_tolerance {
                            fail!("normal tolerance ignored", "{:?}: the normals at {:?} and {:?}, ends of one edge, differ by {d}", o, x, y);
                        }
                    }
                }
            }
            ctx.probe("normal_tolerance_checked");
        }
        if o.max_depth == 0 && o.min_depth == 0 && m.f.len() != 2 * (grid_lines(&m, 0, du) - 1) * (grid_lines(&m, 1, dv) - 1) {
            fail!("maximum depth ignored", "{:?}: {} faces", o, m.f.len());
        }
        if o.norm_tolerance > 4. && o.min_depth == 0 && m.n.iter().all(|n| norm(n) > 0.5) && m.f.len() > 2 * cu * cv {
            fail!("surface refined without need", "{:?}: {} faces, the grid has {}", o, m.f.len(), 2 * cu * cv);
        }
    }
    Ok(())
}

/// the lines the constrained tessellation starts from in one direction
fn grid(r: &RSurface, o: &Option<AdaptiveTessellationOptions<f64>>, u: bool) -> Vec<f64> {
    let o = o.clone().unwrap_or_default();
    let (p, k, n, m) = if u { (r.pu, &r.ku, r.cps.len(), o.min_divs_u) } else { (r.pv, &r.kv, r.cps[0].len(), o.min_divs_v) };
    if p <= 1 {
        return k[1..k.len() - 1].to_vec();
    }
    let d = (k[p], k[k.len() - p - 1]);
    let divs = m.max(n - 1);
    let h = (d.1 - d.0) / divs as f64;
    (0..=divs).map(|i| d.0 + h * i as f64).collect()
}

/// no vertex of the grid has to move to meet the constraints
fn grid_met(r: &RSurface, o: &Option<AdaptiveTessellationOptions<f64>>, want: &[Option<Vec<f64>>; 4]) -> bool {
    (0..4).all(|i| {
        let Some(w) = &want[i] else { return true };
        let mut g = grid(r, o, i < 2);
        if let Some(x) = &want[i ^ 1] {
            g.extend(x);
        }
        g.iter().all(|x| w.iter().any(|y| (x - y).abs() < 1e-9 * (w[w.len() - 1] - w[0])))
    })
}

fn constrained(ctx: &mut Ctx) -> R {
    let s = gentle(ctx);
    let r = rs(&s);
    let (du, dv) = r.domain();
    let mut c = BoundaryConstraints::default();
    let mut want: [Option<Vec<f64>>; 4] = [None, None, None, None];
    let mut o = options(ctx);
    if let Some(o) = &mut o {
        o.min_depth = 0;
    }
    let superset = ctx.d(2) == 1;
    for i in 0..4 {
        if ctx.d(2) == 1 {
            let mut p = edge_parameters(ctx, if i < 2 { du } else { dv });
            if superset {
                // every line of the grid, and on opposite edges the same
                p = match &want[i ^ 1] {
                    Some(q) if i % 2 == 1 => q.clone(),
                    _ => {
                        p.extend(grid(&r, &o, i < 2));
                        p.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        let w = p[p.len() - 1] - p[0];
                        p.dedup_by(|a, b| (*a - *b).abs() < 1e-9 * w);
                        p
                    }
                };
            }
            c = match i {
                0 => c.with_u_parameters_at_v_min(p.clone()),
                1 => c.with_u_parameters_at_v_max(p.clone()),
                2 => c.with_v_parameters_at_u_min(p.clone()),
                _ => c.with_v_parameters_at_u_max(p.clone()),
            };
            want[i] = Some(p);
        }
    }
    ctx.ev(|| format!("surface {:?} constraints {:?} options {:?}", r, c, o));
    let m = twice(ctx, "constrained surface tessellation", || Ok(s.constrained_tessellate(c.clone(), o.clone())))?;
    // vertices moved along a constrained border
    let exact = grid_met(&r, &o, &want);
    let snapped = |uv: &[f64; 2]| !exact && (0..4).any(|i| want[i].is_some() && uv[1 - i / 2] == [dv.0, dv.1, du.0, du.1][i]);
    let known = correspond("constrained surface", &m, &r, &snapped);
    if let Err(f) = &known {
        if f.kind != "constrained mesh folds over" {
            return known;
        }
    }
    for (i, w) in want.iter().enumerate() {
        let Some(w) = w else { continue };
        // v_min: vertices with v = v0; and so on
        let (fix, at, along, d) = match i {
            0 => (1, dv.0, 0, du),
            1 => (1, dv.1, 0, du),
            2 => (0, du.0, 1, dv),
            _ => (0, du.1, 1, dv),
        };
        let ex = if fix == 0 { du.1 - du.0 } else { dv.1 - dv.0 };
        let mut on: Vec<f64> = m.uv.iter().filter(|u| (u[fix] - at).abs() < 1e-9 * ex).map(|u| u[along]).collect();
        on.sort_by(|a, b| a.partial_cmp(b).unwrap());
        on.dedup_by(|a, b| (*a - *b).abs() < 1e-9 * (d.1 - d.0));
        let same = on.len() == w.len() && on.iter().zip(w).all(|(a, b)| (a - b).abs() < 1e-8 * (d.1 - d.0));
        if !same {
            fail!("boundary constraint not met", "{}: vertices at {:?}, constrained to {:?}", ["v min", "v max", "u min", "u max"][i], on, w);
        }
    }
    conforming("constrained surface", &m, &r)?;
    ctx.probe("constrained");
    known
}

fn lift(uv: &RCurve, s: &RSurface) -> impl Fn(f64) -> Vec<f64> {
    let (uv, s) = (uv.clone(), s.clone());
    move |t| {
        let p = uv.at(t);
        s.at(p[0], p[1])
    }
}

/// outline and holes in the domain of a surface
pub fn trim_shapes(ctx: &mut Ctx, r: &RSurface) -> Result<(Option<Shape>, Vec<Shape>), Fail> {
    let (du, dv) = r.domain();
    let (lu, lv) = (du.1 - du.0, dv.1 - dv.0);
    let l = lu.min(lv);
    // outline and holes in uv
    let mut ext: Option<Shape> = None;
    let mut holes: Vec<Shape> = vec![];
    if ctx.d(3) != 0 {
        let c = [(du.0 + du.1) / 2. + 0.02 * l * ctx.unit(), (dv.0 + dv.1) / 2. + 0.02 * l * ctx.unit()];
        let rad = l * (0.25 + 0.2 * ctx.frac());
        let mut e = shape(ctx, c, rad, 0x3f);
        e.edit(ctx, true)?;
        ext = Some(e);
    }
    for _ in 0..ctx.d(3) {
        let q = [du.0 + lu * ctx.frac(), dv.0 + lv * ctx.frac()];
        let mut room = (q[0] - du.0).min(du.1 - q[0]).min(q[1] - dv.0).min(dv.1 - q[1]);
        for x in ext.iter().chain(holes.iter()) {
            room = room.min(x.lp.dist(&q));
        }
        if ext.as_ref().is_some_and(|e| !e.lp.inside(&q)) || holes.iter().any(|h| h.lp.inside(&q)) || room < 0.1 * l {
            continue;
        }
        let mut h = shape(ctx, q, room * 0.6, 0x3f);
        h.edit(ctx, true)?;
        holes.push(h);
    }
    Ok((ext, holes))
}

pub fn trimmed_model(ctx: &mut Ctx) -> Result<TrimmedSurface<f64>, Fail> {
    let s = if ctx.d(2) == 0 { gentle(ctx) } else { start_surface(ctx, false)? };
    let (ext, holes) = trim_shapes(ctx, &rs(&s))?;
    let single = |s: &Shape| match &s.rep {
        Rep::Single(c) => c.clone(),
        _ => unreachable!(),
    };
    Ok(TrimmedSurface::new(s, ext.as_ref().map(single), holes.iter().map(single).collect()))
}

fn trimmed(ctx: &mut Ctx) -> R {
    let mut s = if ctx.d(2) == 0 { gentle(ctx) } else { start_surface(ctx, false)? };
    let r = rs(&s);
    let (du, dv) = r.domain();
    let (lu, lv) = (du.1 - du.0, dv.1 - dv.0);
    let l = lu.min(lv);
    let (mut ext, mut holes) = trim_shapes(ctx, &r)?;
    let mut o = options(ctx);
    if let Some(o) = &mut o {
        o.max_depth = o.max_depth.min(3);
        o.norm_tolerance = o.norm_tolerance.min(0.1);
    }
    // the refinement of a trimming curve compares tangents with the tolerance as they are: a slow curve is not refined
    let tol = o.as_ref().map(|o| o.norm_tolerance).unwrap_or(1e-2);
    let slow = |x: &Shape| x.rep.rcurves().iter().all(|c| {
        let d = c.domain();
        c.p > 1 && (0..=32).all(|i| norm(&c.der(d.0 + (d.1 - d.0) * i as f64 / 32.)) < 20. * tol)
    });
    if ext.as_ref().is_some_and(&slow) {
        ext = None;
    }
    holes.retain(|h| !slow(h));
    if ext.is_none() && holes.is_empty() {
        return Ok(());
    }
    let single = |s: &Shape| match &s.rep {
        Rep::Single(c) => c.clone(),
        _ => unreachable!(),
    };
    let (ec, hc): (Option<C2>, Vec<C2>) = (ext.as_ref().map(single), holes.iter().map(single).collect());
    let mut t = TrimmedSurface::new(s.clone(), ec.clone(), hc.clone());
    if ctx.d(4) == 0 {
        let (m, _) = super::c01::affine(ctx, 3);
        let mm = nalgebra::Matrix4::from_fn(|i, j| m[i][j]);
        ctx.ev(|| format!("transform {:?}", m));
        lib(|| {
            t.transform(&mm);
            s.transform(&mm);
        })
        .map_err(|p| ctx.panic_fail("transform", &p))?;
    }
    let r = rs(&s);
    for x in ext.iter() {
        ctx.ev(|| format!("exterior {}", x.describe()));
    }
    for x in &holes {
        ctx.ev(|| format!("hole {}", x.describe()));
    }
    // constraints on some trimming curves
    let constrain = ctx.d(3) == 0;
    let pick = |ctx: &mut Ctx, c: &C2| -> Option<Vec<f64>> {
        if c.degree() == 1 || ctx.d(3) == 0 {
            return None;
        }
        let n = ctx.range(24, 40);
        let d = c.knots_domain();
        let mut v: Vec<f64> = (0..=n).map(|i| (d.0 + (d.1 - d.0) * i as f64 / n as f64).min(d.1)).collect();
        v[n] = d.1;
        Some(v)
    };
    let pe = if constrain { ec.as_ref().and_then(|c| pick(ctx, c)) } else { None };
    let ph: Vec<Option<Vec<f64>>> = hc.iter().map(|c| if constrain { pick(ctx, c) } else { None }).collect();
    ctx.ev(|| format!("surface {:?} options {:?} constrained {constrain}: {:?} {:?}", r, o, pe, ph));
    let m = twice(ctx, "trimmed surface tessellation", || {
        if constrain {
            t.constrained_tessellate(TrimmedSurfaceConstraints::new(pe.clone(), ph.clone()), o.clone())
        } else {
            t.tessellate(o.clone())
        }
    })?;
    correspond("trimmed surface", &m, &r, &|_| false)?;
    if constrain {
        // a wrong number of interior constraints is refused
        ctx.fault("inadmissible_request");
        let mut bad = ph.clone();
        bad.push(None);
        let e = lib(|| t.constrained_tessellate(TrimmedSurfaceConstraints::new(pe.clone(), bad), o.clone()).is_ok()).map_err(|p| ctx.panic_fail("mismatched constraints", &p))?;
        if e {
            fail!("mismatched constraints accepted", "");
        }
        for (c, p) in ec.iter().zip(std::iter::once(&pe)).chain(hc.iter().zip(&ph)) {
            let Some(p) = p else { continue };
            let at = lift(&r2(c), &r);
            for x in p {
                let q = at(*x);
                if !m.p.iter().any(|v| dist(v, &q) < 1e-6 * r.scale().max(1.)) {
                    fail!("trim constraint not met", "no vertex at parameter {x}, point {:?}", q);
                }
            }
        }
        ctx.probe("trim_constrained");
    }
    // the polygons in uv that must be covered
    let eps = 1e-7 * l;
    let mut polys: Vec<Vec<[f64; 2]>> = vec![];
    match &ext {
        None => polys.push(vec![[du.0, dv.0], [du.1, dv.0], [du.1, dv.1], [du.0, dv.1]]),
        Some(_) => {}
    }
    let params: Vec<&Option<Vec<f64>>> = ext.iter().map(|_| &pe).chain(ph.iter()).collect();
    for (x, par) in ext.iter().chain(holes.iter()).zip(params) {
        let lp = Loop::new(x.rep.rcurves(), 64);
        let path = Path::new(lp.spans.clone(), 64);
        let mut on: Vec<(f64, [f64; 2])> = m.uv.iter().filter(|v| lp.dist(*v) < 0.02 * l).filter_map(|v| path.next_hit(v, 0., eps).map(|t| (t, *v))).collect();
        on.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if on.len() < 3 {
            fail!("trimmed mesh misses a boundary", "{} vertices on {}", on.len(), x.kind);
        }
        let poly: Vec<[f64; 2]> = on.iter().map(|x| x.1).collect();
        if par.is_none() && lp.convex() && lp.spans[0].p > 1 {
            let mut pts: Vec<Vec<f64>> = poly.iter().map(|p| p.to_vec()).collect();
            let mut ts: Vec<f64> = on.iter().map(|x| x.0).collect();
            pts.push(pts[0].clone());
            ts.push(1.);
            let (d, i) = deviation(&pts, &ts, &path, tol);
            if d > 200. || !(d >= 0.) {
                fail!("trim boundary too far from the trimming curve", "{}: from {:?} to {:?}: {d:.1} times the tolerance {tol}", x.kind, pts[i], pts[i + 1]);
            }
        }
        polys.push(poly);
    }
    let area: f64 = m.f.iter().map(|f| 0.5 * cross(&m.uv[f[0]], &m.uv[f[1]], &m.uv[f[2]])).sum();
    let want = poly_area(&polys[0]).abs() - polys[1..].iter().map(|p| poly_area(p).abs()).sum::<f64>();
    if (area - want).abs() > 1e-6 * lu * lv {
        fail!("trimmed mesh area", "triangles cover {area} of the uv domain, the trimming polygons enclose {want}");
    }
    for _ in 0..24 {
        let q = [du.0 + lu * ctx.frac(), dv.0 + lv * ctx.frac()];
        if polys.iter().any(|p| (0..p.len()).any(|i| seg_dist(&q, &p[i], &p[(i + 1) % p.len()]) < 1e-4 * l)) {
            continue;
        }
        let inside = winding(&polys[0], &q) != 0 && polys[1..].iter().all(|p| winding(p, &q) == 0);
        let (mut n, mut edge) = (0, false);
        for f in &m.f {
            let c = [cross(&m.uv[f[0]], &m.uv[f[1]], &q), cross(&m.uv[f[1]], &m.uv[f[2]], &q), cross(&m.uv[f[2]], &m.uv[f[0]], &q)];
            n += c.iter().all(|x| *x > 0.) as usize;
            edge |= c.iter().any(|x| x.abs() < 1e-9 * lu * lv) && c.iter().all(|x| *x > -1e-9 * lu * lv);
        }
        if !edge && n != inside as usize {
            fail!("trimmed mesh cover", "uv {:?} is {} the trimmed domain but in {n} triangles", q, if inside { "inside" } else { "outside" });
        }
    }
    ctx.probe("trimmed");
    Ok(())
}
