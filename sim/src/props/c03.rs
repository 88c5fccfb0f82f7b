//! C03: refused and aborted calls leave their models as they were.
use super::c01::{affine, well_formed};
use super::c02;
use crate::core::*;
use crate::cv::Cv;
use crate::engine::Prop;
use crate::fail;
use crate::fresh::*;
use crate::gen::*;
use crate::pool::*;
use curvo::prelude::*;
use nalgebra::Matrix4;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        run,
        quick: 12000,
        thorough: 600000,
        steps: 8_000_000_000,
        rule: "one run = an editing session on a seeded curve or surface with 4-14 calls, most of them with inadmissible arguments (out of range, not finite, not in order, unknown), or a set of models read by queries with wild arguments while the entropy source fails at a seeded draw; after each call that was refused, panicked or only reads, the model is compared bit for bit with what it was and edited further next to an untouched twin; non-trivial = a call was refused or aborted",
        real: super::LIB,
        stub: super::STUB,
        assumptions: &["models are compared through their Debug output (bit-exact for floats other than NaN)", "transformations are affine and finite"],
    }
}

const ODD: [f64; 9] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e-12, -0., f64::MAX, f64::MIN];

/// a parameter, admissible or not
fn param(ctx: &mut Ctx, knots: &[f64], dom: (f64, f64)) -> f64 {
    let (a, b) = dom;
    let w = b - a;
    match ctx.d(12) {
        0..=3 => a + w * ctx.frac(),
        4..=5 => *ctx.pick(knots),
        6 => *ctx.pick(&[a, b, knots[0], knots[knots.len() - 1]]),
        7 => b + w * ctx.frac(),
        8 => a - w * ctx.frac(),
        9 => {
            // next to a knot
            let k = *ctx.pick(knots);
            k + w * ctx.unit() * *ctx.pick(&[1e-9, 1e-15, 1e-12])
        }
        _ => *ctx.pick(&ODD),
    }
}

fn list(ctx: &mut Ctx, knots: &[f64], dom: (f64, f64)) -> Vec<f64> {
    let n = ctx.d(5);
    let mut v: Vec<f64> = (0..n).map(|_| param(ctx, knots, dom)).collect();
    if ctx.d(2) == 0 {
        v.sort_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal));
    }
    if ctx.d(4) == 0 && !v.is_empty() {
        let x = v[0];
        v.insert(0, x);
    }
    v
}

fn tolerance(ctx: &mut Ctx) -> Option<f64> {
    *ctx.pick(&[None, Some(1e-3), Some(0.), Some(-1.), Some(f64::NAN), Some(1e-9)])
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Out {
    Done,
    Refused,
    Panicked,
}

fn show<C: Cv>(c: &C) -> String {
    let r = c.r();
    format!("{} {:?} {:?}", r.p, r.knots, r.cps)
}

/// multiplicities beyond which there is no curve any more
fn overfull(knots: &[f64], p: usize, more: &[f64]) -> bool {
    let mut v = knots.to_vec();
    v.extend_from_slice(more);
    v.iter().any(|x| v.iter().filter(|y| *y == x).count() > p + 1)
}

fn curve<C: Cv>(ctx: &mut Ctx) -> R {
    let mut r = rcurve(ctx, C::DIM, Knots::Any, 5);
    rescale(ctx, &mut r.knots);
    ctx.ev(|| show_curve(&r));
    let mut c = C::from_r(&r);
    for _ in 0..ctx.range(4, 14) {
        let r = c.r();
        if r.cps.len() > 60 {
            break;
        }
        let dom = r.domain();
        let before = show(&c);
        let mut twin = c.clone();
        let k = ctx.d(20);
        let (t, u) = (param(ctx, &r.knots, dom), param(ctx, &r.knots, dom));
        let tol = tolerance(ctx);
        let v = list(ctx, &r.knots, dom);
        let n = ctx.d(8);
        let q: Vec<f64> = (0..C::DIM).map(|_| if ctx.d(3) == 0 { *ctx.pick(&ODD) } else { 3. * ctx.unit() }).collect();
        let mut writes = true;
        let mut none = false;
        let out = |x: Result<anyhow::Result<()>, Panicked>| match x {
            Ok(Ok(())) => Out::Done,
            Ok(Err(_)) => Out::Refused,
            Err(_) => Out::Panicked,
        };
        let (what, o): (&str, Out) = match k {
            0..=2 => {
                if overfull(&r.knots, r.p, &[t]) {
                    continue;
                }
                ctx.ev(|| format!("insert {t:?}"));
                ("insert a knot", out(lib(|| c.add_knot(t))))
            }
            3..=5 => {
                ctx.ev(|| format!("remove {t:?} tolerance {tol:?}"));
                let x = lib(|| c.remove(t, tol));
                if let Ok(Ok(n)) = &x {
                    none = *n == 0;
                    if c.r().knots.len() + n != r.knots.len() {
                        fail!("removal count", "{n} removed, {} knots left of {}", c.r().knots.len(), r.knots.len());
                    }
                }
                ("remove a knot", out(x.map(|x| x.map(|_| ()))))
            }
            6..=8 => {
                if overfull(&r.knots, r.p, &v) {
                    continue;
                }
                ctx.ev(|| format!("refine {v:?}"));
                none = v.is_empty();
                ("refine", out(lib(|| c.refine(v.clone()))))
            }
            9 => {
                ctx.ev(|| "clamp".into());
                none = lib(|| c.clamped()).unwrap_or(false);
                ("clamp", out(lib(|| c.clampk())))
            }
            10 => {
                ctx.ev(|| "reverse".into());
                ("reverse", out(lib(|| Ok(c.inv()))))
            }
            11 => {
                let (m, _) = affine(ctx, C::DIM);
                ctx.ev(|| format!("transform {:?}", m));
                ("transform", out(lib(|| Ok(c.xform(&m)))))
            }
            12 => {
                ctx.ev(|| "normalise".into());
                ("normalise", out(lib(|| Ok(c.normalize()))))
            }
            _ => {
                writes = false;
                let d = ctx.d(8);
                let len = [0., -1., f64::NAN, 0.3, 1e9, f64::INFINITY][ctx.d(6)];
                let what = ["elevate", "split", "trim", "parameter at length", "divide", "closest point", "evaluate", "sample"][d];
                ctx.ev(|| format!("{what} with {t:?} {u:?} {tol:?} {n} {len:?} {q:?}"));
                let x = lib(|| -> anyhow::Result<()> {
                    match d {
                        0 => drop(c.elevate(n)?),
                        1 => drop(c.split(t)?),
                        2 => drop(c.trim(t, u)?),
                        3 => drop(c.param_at_length(len, tol.filter(|x| !(*x <= 0.)))?),
                        4 => {
                            if n < 4 {
                                drop(c.divide_count(n)?)
                            } else {
                                drop(c.divide_len(len)?)
                            }
                        }
                        5 => drop(c.closest(&q)?),
                        6 => drop((c.pt(t), c.tan(u), c.second(t))),
                        _ => drop(c.samples(t, u, n)),
                    }
                    Ok(())
                });
                (what, out(x))
            }
        };
        if o != Out::Done {
            ctx.nontrivial = true;
            ctx.fault(if o == Out::Refused { "refused_call" } else { "aborted_call" });
        }
        ctx.probe(&format!("{what}: {}", match o { Out::Done => "done", Out::Refused => "refused", Out::Panicked => "panicked" }));
        if o != Out::Done || !writes || none {
            let after = show(&c);
            if after != before {
                fail!(&format!("{what} changed its curve"), "{what} was {}: {before} became {after}", if o == Out::Refused { "refused" } else if o == Out::Panicked { "aborted" } else { "done, but must not change it" });
            }
            if o != Out::Done && ctx.d(2) == 0 {
                // as usable as a copy that was never touched
                let t = dom.0 + (dom.1 - dom.0) * (0.1 + 0.8 * ctx.frac());
                if !overfull(&r.knots, r.p, &[t]) {
                    ctx.ev(|| format!("then insert {t:?}"));
                    let a = out(lib(|| c.add_knot(t)));
                    let b = out(lib(|| twin.add_knot(t)));
                    if a != b || show(&c) != show(&twin) {
                        fail!("not usable after a refused call", "{what}: inserting {t} afterwards {a:?}, without it {b:?}");
                    }
                }
            }
        } else {
            well_formed(what, &c.r())?;
            let dom = lib(|| c.dom()).map_err(|p| ctx.panic_fail(what, &p))?;
            if !(dom.0 < dom.1) {
                fail!("no domain left", "{what}: {:?}", dom);
            }
            for f in [0., 0.37, 1.] {
                let x = dom.0 + (dom.1 - dom.0) * f;
                let p = lib(|| c.pt(x)).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
                if p.iter().any(|x| !x.is_finite()) {
                    fail!("evaluation fails", "after {what}: {:?} at {x}", p);
                }
            }
        }
        ctx.fb(c.r().knots.iter().sum());
    }
    Ok(())
}

fn surface(ctx: &mut Ctx) -> R {
    let mut s = if ctx.d(2) == 0 { c02::start_surface(ctx, true)? } else { mks(&rsurface(ctx, Knots::Clamped, 4)) };
    ctx.ev(|| format!("{:?}", s));
    for _ in 0..ctx.range(4, 10) {
        let r = rs(&s);
        if r.cps.len() * r.cps[0].len() > 200 {
            break;
        }
        let before = format!("{:?}", s);
        let mut twin = s.clone();
        let dom = lib(|| s.knots_domain()).map_err(|p| ctx.panic_fail("domain", &p))?;
        let along_u = ctx.d(2) == 0;
        let (knots, p, d) = if along_u { (&r.ku, r.pu, dom.0) } else { (&r.kv, r.pv, dom.1) };
        let dir = || if along_u { UVDirection::U } else { UVDirection::V };
        let v = list(ctx, knots, d);
        let (t, u) = (param(ctx, knots, d), param(ctx, knots, d));
        let k = ctx.d(10);
        let mut writes = true;
        let mut none = false;
        let (what, x) = match k {
            0..=3 => {
                if overfull(knots, p, &v) {
                    continue;
                }
                none = v.is_empty();
                ctx.ev(|| format!("refine {v:?} along u {along_u}"));
                ("refine", lib(|| s.try_refine_knot(v.clone(), dir())))
            }
            4 => {
                ctx.ev(|| "reverse".into());
                ("reverse", lib(|| Ok(s.invert())))
            }
            5 => {
                let (m, _) = affine(ctx, 3);
                ctx.ev(|| format!("transform {:?}", m));
                let mm = Matrix4::from_fn(|i, j| m[i][j]);
                ("transform", lib(|| Ok(s.transform(&mm))))
            }
            _ => {
                writes = false;
                let q = nalgebra::Point3::new(2. * ctx.unit(), *ctx.pick(&ODD), ctx.unit());
                let what = ["split", "isocurve", "evaluate", "closest point", "derivatives"][ctx.d(5)];
                ctx.ev(|| format!("{what} with {t:?} {u:?} {q:?} along u {along_u}"));
                let x = lib(|| -> anyhow::Result<()> {
                    match what {
                        "split" => drop(s.try_split(SplitSurfaceOption::new(t, dir()))?),
                        "isocurve" => drop(s.try_isocurve(t, dir())?),
                        "evaluate" => drop((s.point_at(t, u), s.normal_at(u, t))),
                        "closest point" => drop(s.find_closest_parameter(&q)?),
                        _ => drop(s.rational_derivatives(t, u, 2)),
                    }
                    Ok(())
                });
                (what, x)
            }
        };
        let o = match x {
            Ok(Ok(())) => Out::Done,
            Ok(Err(_)) => Out::Refused,
            Err(_) => Out::Panicked,
        };
        if o != Out::Done {
            ctx.nontrivial = true;
            ctx.fault(if o == Out::Refused { "refused_call" } else { "aborted_call" });
        }
        ctx.probe(&format!("surface {what}: {}", match o { Out::Done => "done", Out::Refused => "refused", Out::Panicked => "panicked" }));
        if o != Out::Done || !writes || none {
            let after = format!("{:?}", s);
            if after != before {
                fail!(&format!("{what} changed its surface"), "{what}, {o:?}: {before} became {after}");
            }
            if o != Out::Done && ctx.d(2) == 0 {
                let t = d.0 + (d.1 - d.0) * (0.1 + 0.8 * ctx.frac());
                if !overfull(knots, p, &[t]) {
                    ctx.ev(|| format!("then refine {t:?} along u {along_u}"));
                    let a = lib(|| s.try_refine_knot(vec![t], dir())).map(|x| x.is_ok());
                    let b = lib(|| twin.try_refine_knot(vec![t], dir())).map(|x| x.is_ok());
                    if a.is_ok() != b.is_ok() || format!("{:?}", s) != format!("{:?}", twin) {
                        fail!("not usable after a refused call", "{what}: refining {t} afterwards gives {:?}, without it {:?}", s, twin);
                    }
                }
            }
        } else {
            c02::well_formed(what, &rs(&s))?;
        }
    }
    Ok(())
}

fn queries(ctx: &mut Ctx) -> R {
    let mask = (1u32 << ctx.d(6)) | (1 << ctx.d(6));
    let pool = Pool::new(ctx, mask)?;
    let before = pool.print();
    for _ in 0..ctx.range(1, 3) {
        let mut q = query(ctx, mask);
        if ctx.d(3) == 0 {
            for x in [&mut q.x, &mut q.y, &mut q.z] {
                match ctx.d(4) {
                    0 => *x = *ctx.pick(&[f64::NAN, f64::INFINITY, 1e12, -1., 2., -1e-9]),
                    1 => *x = -2. + 5. * ctx.frac(),
                    _ => {}
                }
            }
            ctx.ev(|| format!("as {:?}", q));
            ctx.fault("wild_arguments");
        }
        let e = Env::draw(ctx);
        let p = &pool;
        let a = fresh(ctx, 2_000_000_000, q.kind, || {
            e.apply(0);
            outcome(|| exec(p, &q))
        })?;
        let mut broken = e.clone();
        broken.fail_at = ctx.d(a.draws.min(200) as usize + 1) as u64;
        ctx.ev(|| format!("in {:?}, then with the entropy source failing at draw {}", e, broken.fail_at));
        let b = fresh(ctx, 6_000_000_000, q.kind, || {
            broken.apply(0);
            let first = outcome(|| exec(p, &q));
            let mut v = vec![(first.first() == Some(&0xdead)) as u64, p.print()];
            e.apply(0);
            v.extend(outcome(|| exec(p, &q)));
            v
        })?;
        if a.draws > 0 {
            ctx.fault("entropy_failed");
        }
        if b.v[0] == 1 || a.v.first() == Some(&0xdead) {
            ctx.nontrivial = true;
            ctx.fault("aborted_call");
        }
        ctx.probe(&format!("query {}", FAMILIES[q.fam]));
        if b.v[1] != before {
            fail!("query changes its model", "{:?}", q);
        }
        if b.v[2..] != a.v[..] {
            fail!("result depends on an aborted call", "{:?}: {:x?}, after an aborted call {:x?}", q, a.v, &b.v[2..]);
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    match ctx.d(8) {
        0..=1 => curve::<C2>(ctx),
        2..=3 => curve::<C3>(ctx),
        4..=5 => surface(ctx),
        _ => queries(ctx),
    }
}
