//! A set of shared models, and queries over them whose results are reduced to digests.
use crate::core::*;
use crate::gen::*;
use crate::props::{c02, c06, c07, c08, c10, c11};
use crate::shapes::*;
use curvo::prelude::*;
use nalgebra::{Matrix3, Matrix4, Point3, Vector2, Vector3};
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub struct Pool {
    pub c2: Vec<C2>,
    pub c3: Vec<C3>,
    /// closed outlines, either representation
    pub closed: Vec<Rep>,
    pub surf: Vec<S3>,
    pub region: Vec<Region<f64>>,
    pub trimmed: Vec<TrimmedSurface<f64>>,
}

pub const FAMILIES: [&str; 6] = ["curve2d", "curve3d", "outline", "surface", "region", "trimmed surface"];

impl Pool {
    /// models of the families in the mask
    pub fn new(ctx: &mut Ctx, mask: u32) -> Result<Pool, Fail> {
        let mut p = Pool { c2: vec![], c3: vec![], closed: vec![], surf: vec![], region: vec![], trimmed: vec![] };
        let on = |k: u32| mask >> k & 1 == 1;
        if on(0) {
            for _ in 0..2 {
                let r = rcurve(ctx, 2, Knots::Clamped, 4);
                p.c2.push(mk2(&r));
            }
            let r = rcurve(ctx, 2, Knots::Any, 3);
            p.c2.push(mk2(&r));
        }
        if on(1) {
            for _ in 0..2 {
                let r = rcurve(ctx, 3, Knots::Clamped, 4);
                p.c3.push(mk3(&r));
            }
        }
        if on(2) {
            let a = shape(ctx, [0., 0.], 2., 0x3ff);
            let c = [1.5 + ctx.unit(), ctx.unit()];
            let b = shape(ctx, c, 1.5, 0x3ff);
            p.closed = vec![a.rep, b.rep];
        }
        if on(3) {
            p.surf.push(c02::start_surface(ctx, false)?);
            let r = rsurface(ctx, Knots::Clamped, 3);
            p.surf.push(mks(&r));
        }
        if on(4) {
            p.region.push(c06::region(ctx)?.0);
        }
        if on(5) {
            p.trimmed.push(c07::trimmed_model(ctx)?);
        }
        ctx.ev(|| format!("{:?}", p));
        Ok(p)
    }
    pub fn print(&self) -> u64 {
        hash_str(&format!("{:?}", self))
    }
}

/// one query: what, and on what
#[derive(Clone, Debug)]
pub struct Query {
    pub kind: &'static str,
    pub fam: usize,
    pub i: usize,
    pub j: usize,
    pub n: usize,
    pub x: f64,
    pub y: f64,
    pub z: f64,
}

/// kind, family, draws entropy
pub const KINDS: &[(&str, usize, bool)] = &[
    ("evaluate", 0, false),
    ("sample", 0, false),
    ("length", 0, false),
    ("parameter at length", 0, false),
    ("divide", 0, false),
    ("closest point", 0, false),
    ("bounding box", 0, false),
    ("tessellate", 0, true),
    ("split", 0, false),
    ("trim", 0, false),
    ("elevate", 0, false),
    ("bezier segments", 0, false),
    ("insert a knot into a copy", 0, false),
    ("refine a copy", 0, false),
    ("remove a knot from a copy", 0, false),
    ("clamp a copy", 0, false),
    ("reverse and transform a copy", 0, false),
    ("intersect", 0, true),
    ("save", 0, false),
    ("restore", 0, false),
    ("cast", 0, false),
    ("evaluate", 1, false),
    ("length", 1, false),
    ("closest point", 1, false),
    ("tessellate", 1, true),
    ("frenet frames", 1, false),
    ("split", 1, false),
    ("elevate", 1, false),
    ("refine a copy", 1, false),
    ("bezier segments", 1, false),
    ("parameter at length", 1, false),
    ("intersect", 1, true),
    ("loft", 1, false),
    ("sweep", 1, false),
    ("interpolate", 1, false),
    ("circle", 1, false),
    ("contains", 2, true),
    ("contains", 2, true),
    ("boolean", 2, true),
    ("boolean", 2, true),
    ("outline intersection", 2, true),
    ("outline length", 2, false),
    ("outline closest point", 2, false),
    ("outline tessellation", 2, true),
    ("outline from spans", 2, false),
    ("evaluate", 3, false),
    ("derivatives", 3, false),
    ("isocurve", 3, false),
    ("boundary", 3, false),
    ("split", 3, false),
    ("refine a copy", 3, false),
    ("flip", 3, false),
    ("closest point", 3, false),
    ("regular tessellation", 3, false),
    ("adaptive tessellation", 3, false),
    ("constrained tessellation", 3, false),
    ("intersect with a line", 3, true),
    ("region tessellation", 4, true),
    ("region copy", 4, false),
    ("trimmed tessellation", 5, true),
    ("trimmed save", 5, false),
];

pub fn query(ctx: &mut Ctx, mask: u32) -> Query {
    let ok: Vec<usize> = (0..KINDS.len()).filter(|k| mask >> KINDS[*k].1 & 1 == 1).collect();
    let k = *ctx.pick(&ok);
    let q = Query { kind: KINDS[k].0, fam: KINDS[k].1, i: ctx.d(6), j: ctx.d(6), n: ctx.d(8), x: ctx.frac(), y: ctx.frac(), z: ctx.frac() };
    ctx.ev(|| format!("query {:?}", q));
    q
}

pub fn uses_entropy(q: &Query) -> bool {
    KINDS.iter().any(|k| k.0 == q.kind && k.1 == q.fam && k.2)
}

fn h<T: Debug>(out: &mut Vec<u64>, v: T) {
    out.push(hash_str(&format!("{:?}", v)));
}

fn res<T: Debug>(out: &mut Vec<u64>, r: anyhow::Result<T>) {
    match r {
        Ok(v) => h(out, v),
        Err(e) => h(out, format!("refused: {e}")),
    }
}

fn opts(q: &Query) -> Option<CurveIntersectionSolverOptions<f64>> {
    match q.n % 3 {
        0 => None,
        k => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(50 * k)),
    }
}

fn lerp(d: (f64, f64), f: f64) -> f64 {
    d.0 + (d.1 - d.0) * f
}

fn tess_options(q: &Query) -> Option<AdaptiveTessellationOptions<f64>> {
    match q.n % 4 {
        0 => None,
        k => Some(AdaptiveTessellationOptions { norm_tolerance: [5e-2, 1e-2, 0.2][k - 1], min_divs_u: q.j + 1, min_divs_v: k, min_depth: q.j % 2, max_depth: 2 + q.n % 3 }),
    }
}

/// the result of a query, reduced to a digest; deterministic in the pool, the query and the entropy stream
pub fn exec(p: &Pool, q: &Query) -> Vec<u64> {
    let mut o = vec![];
    macro_rules! curve {
        ($v:expr, $mk:expr) => {{
            let c = &$v[q.i % $v.len()];
            let d = c.knots_domain();
            let t = lerp(d, q.x);
            match q.kind {
                "evaluate" => {
                    h(&mut o, (c.point_at(t), c.tangent_at(t), c.second_derivative_at(t), c.point_tangent_at(t), c.is_closed(), c.is_clamped(), c.knots_constrain(t + q.y)));
                }
                "sample" => h(&mut o, (c.sample_regular_range_with_parameter(lerp(d, 0.5 * q.y), t.max(lerp(d, 0.6)), 2 + q.n), c.dehomogenized_control_points(), c.weights())),
                "length" => res(&mut o, c.try_length()),
                "parameter at length" => {
                    let l = c.try_length().unwrap_or(1.);
                    res(&mut o, c.try_parameter_at_length(l * q.x, if q.n == 0 { None } else { Some(1e-6) }))
                }
                "divide" => {
                    res(&mut o, c.try_divide_by_count(1 + q.n));
                    let l = c.try_length().unwrap_or(1.);
                    res(&mut o, c.try_divide_by_length(l * (0.2 + q.x)));
                }
                "closest point" => res(&mut o, c.find_closest_parameter(&$mk(4. * q.x - 1., 4. * q.y - 2., q.z))),
                "bounding box" => {
                    let b: BoundingBox<f64, _> = c.into();
                    h(&mut o, b)
                }
                "tessellate" => h(&mut o, c.tessellate([None, Some(1e-2), Some(1e-3)][q.n % 3])),
                "split" => res(&mut o, c.try_split(t)),
                "trim" => res(&mut o, c.try_trim_range((t, lerp(d, q.y)))),
                "elevate" => res(&mut o, c.try_elevate_degree(c.degree() + q.n % 3)),
                "bezier segments" => res(&mut o, c.try_decompose_bezier_segments()),
                "insert a knot into a copy" => {
                    let mut k = c.clone();
                    res(&mut o, k.try_add_knot(t));
                    h(&mut o, k)
                }
                "refine a copy" => {
                    let mut k = c.clone();
                    let mut v = vec![t, lerp(d, q.y), lerp(d, q.z)];
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    res(&mut o, k.try_refine_knot(v));
                    h(&mut o, k)
                }
                "remove a knot from a copy" => {
                    let mut k = c.clone();
                    let t = k.knots()[q.n % k.knots().len()];
                    res(&mut o, k.try_remove_knot(t, Some(0.5)));
                    h(&mut o, k)
                }
                "clamp a copy" => {
                    let mut k = c.clone();
                    res(&mut o, k.try_clamp());
                    k.normalize_knots();
                    h(&mut o, k)
                }
                "save" => res(&mut o, serde_json::to_string(c).map_err(|e| e.into())),
                "restore" => {
                    let s = serde_json::to_string(c).unwrap();
                    let b = if q.n % 2 == 0 { s.as_bytes() } else { &s.as_bytes()[..(s.len() as f64 * q.x) as usize] };
                    let mut k = c.clone();
                    match serde_json::from_slice(Aligned::new(b).bytes()) {
                        Ok(v) => k = v,
                        Err(e) => h(&mut o, e.to_string()),
                    }
                    h(&mut o, k)
                }
                "intersect" => {
                    let e = &$v[q.j % $v.len()];
                    if std::ptr::eq(c, e) {
                        h(&mut o, "same");
                        return o;
                    }
                    res(&mut o, c.find_intersections(e, opts(q)).map(|v| v.iter().map(|i| (i.a().1, i.b().1, i.a().0, i.b().0)).collect::<Vec<_>>()))
                }
                _ => return other(p, q),
            }
        }};
    }
    match q.fam {
        0 => curve!(p.c2, |x, y, _z| nalgebra::Point2::new(x, y)),
        1 => curve!(p.c3, |x, y, z| Point3::new(x, y, z)),
        _ => return other(p, q),
    }
    o
}

fn other(p: &Pool, q: &Query) -> Vec<u64> {
    let mut o = vec![];
    match (q.fam, q.kind) {
        (0, "reverse and transform a copy") => {
            let mut k = p.c2[q.i % p.c2.len()].clone();
            k.invert();
            k.transform(&Matrix3::new(q.x, -q.y, q.z, q.y, q.x, 1., 0., 0., 1.));
            h(&mut o, (k.inverse(), k));
        }
        (0, "cast") => {
            let k: NurbsCurve2D<f32> = p.c2[q.i % p.c2.len()].cast();
            h(&mut o, (k.point_at(lerp(p.c2[q.i % p.c2.len()].knots_domain(), q.x) as f32), p.c2[q.i % p.c2.len()].elevate_dimension()))
        }
        (1, "frenet frames") => {
            let c = &p.c3[q.i % p.c3.len()];
            let d = c.knots_domain();
            h(&mut o, c.compute_frenet_frames(&(0..=q.n + 1).map(|i| lerp(d, i as f64 / (q.n + 1) as f64)).collect::<Vec<_>>()))
        }
        (1, "loft") => res(&mut o, NurbsSurface3D::try_loft(&p.c3, if q.n == 0 { None } else { Some(1 + q.n % 3) })),
        (1, "sweep") => res(&mut o, NurbsSurface3D::try_sweep(&p.c3[0], &p.c3[1], Some(2 + q.n % 2))),
        (1, "interpolate") => {
            let pts: Vec<Point3<f64>> = (0..5 + q.n).map(|i| Point3::new(i as f64, q.x * (i % 3) as f64, q.y * (i % 2) as f64)).collect();
            res(&mut o, NurbsCurve3D::try_interpolate(&pts, 1 + q.j % 3));
            res(&mut o, NurbsCurve3D::try_periodic(&pts, 2 + q.j % 2));
        }
        (1, "circle") => {
            let (a, b) = (Vector3::x(), Vector3::y());
            res(&mut o, NurbsCurve3D::try_circle(&Point3::new(q.x, q.y, q.z), &a, &b, 0.1 + q.x));
            res(&mut o, NurbsCurve3D::try_arc(&Point3::new(q.x, q.y, q.z), &a, &b, 0.1 + q.x, q.y, q.y + 6. * q.z + 0.01));
            res(&mut o, NurbsCurve3D::try_ellipse(&Point3::new(q.x, q.y, q.z), &(a * 2.), &b));
        }
        (2, kind) => {
            let a = &p.closed[q.i % p.closed.len()];
            let b = &p.closed[(q.i + 1) % p.closed.len()];
            let pt = nalgebra::Point2::new(6. * q.x - 3., 6. * q.y - 3.);
            match kind {
                "contains" => res(&mut o, c10::contains(a, &pt, &opts(q))),
                "boolean" => res(&mut o, c11::boolean(a, b, c11::OPS[q.j % 3], &opts(q))),
                "outline intersection" => res(&mut o, c08::rep_intersect(a, b, opts(q))),
                "outline length" => {
                    let c = a.compound();
                    res(&mut o, c.try_length());
                    h(&mut o, (c.is_closed(), c.point_at(4. * q.x)))
                }
                "outline closest point" => res(&mut o, a.compound().find_closest_point(&pt)),
                "outline tessellation" => h(&mut o, a.compound().tessellate([None, Some(1e-2)][q.n % 2])),
                _ => {
                    let mut spans = a.compound().spans().to_vec();
                    let k = spans.len();
                    spans.rotate_left(q.n % k);
                    if q.j % 2 == 1 {
                        spans[0].invert();
                    }
                    let mut c = Cc2::new(spans);
                    h(&mut o, &c);
                    c.invert();
                    h(&mut o, &c);
                    res(&mut o, c.try_trim_range((q.x, 2. * q.y)));
                    res(&mut o, serde_json::to_string(&c).map_err(|e| e.into()));
                }
            }
        }
        (3, kind) => {
            let s = &p.surf[q.i % p.surf.len()];
            let (du, dv) = s.knots_domain();
            let (u, v) = (lerp(du, q.x), lerp(dv, q.y));
            let dir = if q.j % 2 == 0 { UVDirection::U } else { UVDirection::V };
            match kind {
                "evaluate" => h(&mut o, (s.point_at(u, v), s.normal_at(u, v), s.regular_sample_points(2 + q.n, 3), s.regular_sample_normals(3, 2 + q.n))),
                "derivatives" => h(&mut o, s.rational_derivatives(u, v, q.n % 4)),
                "isocurve" => res(&mut o, s.try_isocurve(if q.j % 2 == 0 { u } else { v }, dir)),
                "boundary" => res(&mut o, s.try_boundary_curves()),
                "split" => res(&mut o, s.try_split(SplitSurfaceOption::new(if q.j % 2 == 0 { u } else { v }, dir))),
                "refine a copy" => {
                    let mut k = s.clone();
                    let mut t = vec![if q.j % 2 == 0 { u } else { v }; 1 + q.n % 2];
                    t.push(t[0]);
                    res(&mut o, k.try_refine_knot(t, dir));
                    h(&mut o, k)
                }
                "flip" => {
                    h(&mut o, s.flip([FlipDirection::U, FlipDirection::V, FlipDirection::UV][q.n % 3]));
                    let mut k = s.clone();
                    k.invert();
                    k.transform(&Matrix4::new(q.x, 0., 0., 1., 0., 1., q.y, 0., 0., 0., 1., 2., 0., 0., 0., 1.));
                    h(&mut o, k)
                }
                "closest point" => res(&mut o, s.find_closest_parameter(&Point3::new(4. * q.x, 4. * q.y, 2. * q.z))),
                "regular tessellation" => h(&mut o, s.regular_tessellate(1 + q.n, 2 + q.j)),
                "adaptive tessellation" => h(&mut o, s.tessellate(tess_options(q))),
                "constrained tessellation" => {
                    let n = 3 + q.n;
                    let c = BoundaryConstraints::default().with_u_parameters_at_v_min((0..=n).map(|i| lerp(du, i as f64 / n as f64)).collect());
                    h(&mut o, s.constrained_tessellate(c, tess_options(q)))
                }
                _ => {
                    let c = s.point_at(u, v);
                    let e = Vector3::new(q.x - 0.5, q.z, 1.);
                    let l = NurbsCurve3D::polyline(&[c - e * (1. + q.z), c + e * 2.], true);
                    res(&mut o, super::props::c09::hits(s, &l, opts(q)))
                }
            }
        }
        (4, "region tessellation") => res(&mut o, p.region[q.i % p.region.len()].tessellate([None, Some(1e-2)][q.n % 2])),
        (4, _) => {
            let mut r = p.region[q.i % p.region.len()].clone();
            r.invert();
            r.transform(&Matrix3::new(1., q.y, q.z, 0., 1. + q.x, 1., 0., 0., 1.));
            h(&mut o, r)
        }
        (5, "trimmed tessellation") => {
            let mut t = tess_options(q);
            if let Some(t) = &mut t {
                t.max_depth = t.max_depth.min(3);
            }
            res(&mut o, p.trimmed[q.i % p.trimmed.len()].tessellate(t))
        }
        (5, _) => res(&mut o, serde_json::to_string(&p.trimmed[q.i % p.trimmed.len()]).map_err(|e| e.into())),
        _ => unreachable!("{:?}", q),
    }
    let _ = Vector2::<f64>::zeros;
    o
}
