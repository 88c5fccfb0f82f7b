//! C04: saving and restoring under short and failing I/O, crashes and damage.
use super::{c02, c06, c07};
use crate::core::*;
use crate::cv::Cv;
use crate::engine::Prop;
use crate::fail;
use crate::gen::*;
use crate::shapes::*;
use curvo::prelude::*;
use std::io::{self, Read, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        run,
        quick: 40000,
        thorough: 800000,
        steps: 4_000_000_000,
        rule: "one run = a seeded model (curve, surface, compound curve, region, trimmed surface), edited or not, saved through a simulated writer and restored through a simulated reader (short and interrupted transfers, errors and full disks at a seeded byte), then either damaged saves (truncated, torn, bit flips, lost and repeated sectors, altered fields) restored, or a sequence of saves to a simulated disk in a process crashed at a seeded basic block or operation, with unsynced writes lost or torn, and restarted; non-trivial = a fault took effect",
        real: super::LIB,
        stub: &["rand's OS-seeded ThreadRng core (simulated entropy)", "getrandom (hash seeds)", "clock_gettime", "readers and writers handed to serde_json", "the disk: a log of cached and synced bytes with atomic renames"],
        assumptions: &["serde_json is built with float_roundtrip, so that the format itself is exact", "renames on the simulated disk are atomic"],
    }
}

#[derive(Clone, Debug)]
pub enum M {
    C2(C2),
    C3(C3),
    S(S3),
    Cc(Cc2),
    R(Region<f64>),
    T(TrimmedSurface<f64>),
}

pub const NAMES: [&str; 6] = ["curve2d", "curve3d", "surface", "compound curve", "region", "trimmed surface"];

impl M {
    fn kind(&self) -> usize {
        match self {
            M::C2(_) => 0,
            M::C3(_) => 1,
            M::S(_) => 2,
            M::Cc(_) => 3,
            M::R(_) => 4,
            M::T(_) => 5,
        }
    }
    fn save(&self, w: &mut dyn Write, pretty: bool) -> serde_json::Result<()> {
        macro_rules! s {
            ($x:expr) => {
                if pretty { serde_json::to_writer_pretty(w, $x) } else { serde_json::to_writer(w, $x) }
            };
        }
        match self {
            M::C2(x) => s!(x),
            M::C3(x) => s!(x),
            M::S(x) => s!(x),
            M::Cc(x) => s!(x),
            M::R(x) => s!(x),
            M::T(x) => s!(x),
        }
    }
    fn read(kind: usize, r: &mut dyn Read) -> serde_json::Result<M> {
        Ok(match kind {
            0 => M::C2(serde_json::from_reader(r)?),
            1 => M::C3(serde_json::from_reader(r)?),
            2 => M::S(serde_json::from_reader(r)?),
            3 => M::Cc(serde_json::from_reader(r)?),
            4 => M::R(serde_json::from_reader(r)?),
            _ => M::T(serde_json::from_reader(r)?),
        })
    }
    pub fn slice(kind: usize, b: &[u8]) -> serde_json::Result<M> {
        let b = Aligned::new(b);
        Ok(match kind {
            0 => M::C2(serde_json::from_slice(b.bytes())?),
            1 => M::C3(serde_json::from_slice(b.bytes())?),
            2 => M::S(serde_json::from_slice(b.bytes())?),
            3 => M::Cc(serde_json::from_slice(b.bytes())?),
            4 => M::R(serde_json::from_slice(b.bytes())?),
            _ => M::T(serde_json::from_slice(b.bytes())?),
        })
    }
    fn value(kind: usize, v: serde_json::Value) -> serde_json::Result<M> {
        Ok(match kind {
            0 => M::C2(serde_json::from_value(v)?),
            1 => M::C3(serde_json::from_value(v)?),
            2 => M::S(serde_json::from_value(v)?),
            3 => M::Cc(serde_json::from_value(v)?),
            4 => M::R(serde_json::from_value(v)?),
            _ => M::T(serde_json::from_value(v)?),
        })
    }
    fn print(&self) -> String {
        format!("{:?}", self)
    }
    /// its parts fit together, and it can be evaluated
    fn sound(&self, ctx: &mut Ctx, what: &str) -> R {
        fn fits(what: &str, k: &[f64], p: usize, n: usize) -> R {
            if n <= p || k.len() != n + p + 1 {
                fail!("restored parts do not fit", "{what}: {} knots for {n} control points of degree {p}", k.len());
            }
            if k.windows(2).any(|w| !(w[0] <= w[1])) {
                fail!("restored parts do not fit", "{what}: knots not in order {:?}", k);
            }
            Ok(())
        }
        fn curve<C: Cv>(ctx: &mut Ctx, what: &str, c: &C) -> R {
            let r = c.r();
            fits(what, &r.knots, r.p, r.cps.len())?;
            if r.cps.iter().any(|c| !(c[c.len() - 1] > 0.)) {
                // any weight can be told a curve: such have no point everywhere
                return Ok(());
            }
            let (a, b) = lib(|| c.dom()).map_err(|p| ctx.panic_fail(what, &p))?;
            for f in [0., 0.21, 0.5, 0.83, 1.] {
                lib(|| c.pt_tan(a + (b - a) * f)).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
            }
            Ok(())
        }
        fn compound(ctx: &mut Ctx, what: &str, c: &Cc2) -> R {
            for s in c.spans() {
                curve(ctx, what, s)?;
            }
            if !c.spans().is_empty() && c.spans().iter().all(|s| s.r().cps.iter().all(|c| c[c.len() - 1] > 0.)) {
                lib(|| c.point_at(0.5)).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
            }
            Ok(())
        }
        fn surface(ctx: &mut Ctx, what: &str, s: &S3) -> R {
            let r = rs(s);
            let n = r.cps.first().map_or(0, |x| x.len());
            fits(what, &r.ku, r.pu, r.cps.len())?;
            fits(what, &r.kv, r.pv, n)?;
            if r.cps.iter().any(|x| x.len() != n) {
                fail!("restored parts do not fit", "{what}: rows of control points of different lengths");
            }
            if r.cps.iter().flatten().any(|c| !(c[c.len() - 1] > 0.)) {
                return Ok(());
            }
            let d = lib(|| s.knots_domain()).map_err(|p| ctx.panic_fail(what, &p))?;
            for f in [0., 0.21, 0.83, 1.] {
                let (u, v) = (d.0 .0 + (d.0 .1 - d.0 .0) * f, d.1 .0 + (d.1 .1 - d.1 .0) * (1. - f) * 0.99);
                lib(|| (s.point_at(u, v), s.normal_at(u, v))).map_err(|p| ctx.panic_fail(&format!("evaluation after {what}"), &p))?;
            }
            Ok(())
        }
        match self {
            M::C2(c) => curve(ctx, what, c),
            M::C3(c) => curve(ctx, what, c),
            M::S(s) => surface(ctx, what, s),
            M::Cc(c) => compound(ctx, what, c),
            M::R(r) => {
                compound(ctx, what, r.exterior())?;
                for c in r.interiors() {
                    compound(ctx, what, c)?;
                }
                Ok(())
            }
            M::T(t) => {
                surface(ctx, what, t.surface())?;
                if let Some(c) = t.exterior() {
                    curve(ctx, what, c)?;
                }
                for c in t.interiors() {
                    curve(ctx, what, c)?;
                }
                Ok(())
            }
        }
    }
}

fn compound(ctx: &mut Ctx) -> Cc2 {
    let a = shape(ctx, [0.3, -0.2], 2., 0x3ff);
    match a.rep {
        Rep::Compound(c) => c,
        Rep::Single(c) => CompoundCurve::new(vec![c]),
    }
}

pub fn model(ctx: &mut Ctx) -> Result<M, Fail> {
    let mut m = match ctx.d(6) {
        0 => {
            let mut r = rcurve(ctx, 2, Knots::Any, 5);
            rescale(ctx, &mut r.knots);
            M::C2(mk2(&r))
        }
        1 => {
            let mut r = rcurve(ctx, 3, Knots::Any, 5);
            rescale(ctx, &mut r.knots);
            M::C3(mk3(&r))
        }
        2 => M::S(if ctx.d(2) == 0 { c02::start_surface(ctx, true)? } else { mks(&rsurface(ctx, Knots::Any, 3)) }),
        3 => M::Cc(compound(ctx)),
        4 => M::R(c06::region(ctx)?.0),
        _ => M::T(c07::trimmed_model(ctx)?),
    };
    edit(ctx, &mut m);
    Ok(m)
}

/// leaves odd floats behind
fn edit(ctx: &mut Ctx, m: &mut M) {
    let f = 0.1 + 0.8 * ctx.frac();
    let scale = *ctx.pick(&[1., 1., 1e-3, 1. / 3., 1e9, 1e-12]);
    let k = ctx.d(4);
    ctx.ev(|| format!("edit {k} at {f}, scale {scale}"));
    let at = |d: (f64, f64)| d.0 + (d.1 - d.0) * f;
    let _ = lib(|| match m {
        M::C2(c) => match k {
            0 => drop(c.try_add_knot(at(c.knots_domain()))),
            1 => c.normalize_knots(),
            2 => c.transform(&nalgebra::Matrix3::new_scaling(scale)),
            _ => c.invert(),
        },
        M::C3(c) => match k {
            0 => drop(c.try_add_knot(at(c.knots_domain()))),
            1 => c.normalize_knots(),
            2 => c.transform(&nalgebra::Matrix4::new_scaling(scale)),
            _ => c.invert(),
        },
        M::S(s) => match k {
            0 => drop(s.try_refine_knot(vec![at(s.knots_domain().0)], UVDirection::U)),
            1 => s.transform(&nalgebra::Matrix4::new_scaling(scale)),
            _ => s.invert(),
        },
        M::Cc(c) => match k {
            0 => c.transform(&nalgebra::Matrix3::new_scaling(scale)),
            _ => c.invert(),
        },
        M::R(_) => {}
        M::T(t) => match k {
            0 => t.transform(&nalgebra::Matrix4::new_scaling(scale)),
            1 => t.invert(),
            _ => {}
        },
    });
}

// the I/O seam ---------------------------------------------------------------------------------

/// what a transfer meets
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub seed: u64,
    /// largest transfer
    pub chunk: usize,
    /// one in so many calls is interrupted (0: none)
    pub eintr: u64,
    /// fails when it gets there
    pub fail: Option<(usize, u8)>,
}

const ERRORS: [io::ErrorKind; 6] = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::StorageFull];

impl Plan {
    fn draw(ctx: &mut Ctx) -> Plan {
        let chunk = *ctx.pick(&[1, 2, 3, 7, 16, 100, 1000, 1 << 20]);
        let eintr = *ctx.pick(&[0, 0, 2, 5, 50]);
        if chunk < 1000 {
            ctx.fault("short_transfer");
        }
        if eintr > 0 {
            ctx.fault("interrupted_call");
        }
        Plan { seed: ctx.seed64(), chunk, eintr, fail: None }
    }
    /// how much of `want` goes through at `pos`
    fn step(&mut self, pos: usize, want: usize) -> io::Result<usize> {
        let x = splitmix(&mut self.seed);
        if self.eintr > 0 && x % self.eintr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = want.min(1 + (x >> 32) as usize % self.chunk);
        if let Some((at, kind)) = self.fail {
            if pos >= at {
                return if kind as usize == ERRORS.len() { Ok(0) } else { Err(ERRORS[kind as usize].into()) };
            }
            n = n.min(at - pos);
        }
        Ok(n)
    }
}

struct SimReader<'a> {
    b: &'a [u8],
    pos: usize,
    plan: Plan,
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let want = buf.len().min(self.b.len() - self.pos);
        if want == 0 && self.plan.fail.is_none() {
            return Ok(0);
        }
        let n = self.plan.step(self.pos, want)?;
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct SimWriter {
    out: Vec<u8>,
    plan: Plan,
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.plan.step(self.out.len(), buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// the save of a model, written in one go
fn plain(ctx: &mut Ctx, m: &M, pretty: bool) -> Result<Vec<u8>, Fail> {
    let mut b = vec![];
    lib(|| m.save(&mut b, pretty)).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
    Ok(b)
}

fn transfers(ctx: &mut Ctx, m: &M, b: &[u8], pretty: bool) -> R {
    // through a slow disk and back
    let mut w = SimWriter { out: vec![], plan: Plan::draw(ctx) };
    ctx.ev(|| format!("save with {:?}", w.plan));
    lib(|| m.save(&mut w, pretty)).map_err(|p| ctx.panic_fail("save", &p))?.map_err(|e| Fail::new("save failed", e.to_string()))?;
    if w.out != b {
        fail!("save depends on the transfer", "{} and {}", show(&w.out), show(b));
    }
    let plan = Plan::draw(ctx);
    ctx.ev(|| format!("restore with {:?}", plan));
    let back = lib(|| M::read(m.kind(), &mut SimReader { b, pos: 0, plan })).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
    exact(ctx, m, &back, b, pretty)?;
    ctx.nontrivial = true;
    // a writer that fails
    if ctx.d(2) == 0 {
        let at = ctx.d(b.len());
        let kind = ctx.d(ERRORS.len() + 1) as u8;
        let mut w = SimWriter { out: vec![], plan: Plan { fail: Some((at, kind)), ..Plan::draw(ctx) } };
        ctx.ev(|| format!("save with {:?}", w.plan));
        ctx.fault(if kind as usize == ERRORS.len() { "writer_accepts_nothing" } else { "write_error" });
        if lib(|| m.save(&mut w, pretty)).map_err(|p| ctx.panic_fail("save with a failing writer", &p))?.is_ok() {
            fail!("write error not reported", "{} of {} bytes written", w.out.len(), b.len());
        }
        if w.out[..] != b[..w.out.len()] {
            fail!("failing save wrote something else", "{}", show(&w.out));
        }
        torn(ctx, m, &w.out)?;
    }
    // a reader that fails, or ends early
    if ctx.d(2) == 0 {
        let at = ctx.d(b.len());
        let kind = ctx.d(ERRORS.len() + 1) as u8;
        let plan = Plan { fail: Some((at, kind)), ..Plan::draw(ctx) };
        ctx.ev(|| format!("restore with {:?}", plan));
        ctx.fault(if kind as usize == ERRORS.len() { "early_end" } else { "read_error" });
        if let Ok(x) = lib(|| M::read(m.kind(), &mut SimReader { b, pos: 0, plan })).map_err(|p| ctx.panic_fail("restore from a failing reader", &p))? {
            fail!("read error not reported", "after {at} of {} bytes: {:?}", b.len(), x);
        }
    }
    Ok(())
}

fn exact(ctx: &mut Ctx, m: &M, back: &M, b: &[u8], pretty: bool) -> R {
    if back.print() != m.print() {
        fail!("restored model differs", "{:?} became {:?}", m, back);
    }
    let again = plain(ctx, back, pretty)?;
    if again != b {
        fail!("second save differs", "{} and {}", show(b), show(&again));
    }
    Ok(())
}

/// what a torn save restores
fn torn(ctx: &mut Ctx, m: &M, b: &[u8]) -> R {
    if let Ok(x) = lib(|| M::slice(m.kind(), b)).map_err(|p| ctx.panic_fail("restore of a torn save", &p))? {
        fail!("torn save accepted", "{} restores {:?}", show(b), x);
    }
    Ok(())
}

// damage ---------------------------------------------------------------------------------------

fn bytes_damage(ctx: &mut Ctx, b: &[u8], old: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let at = ctx.d(v.len());
    match ctx.d(7) {
        0 => {
            let n = ctx.range(1, 3);
            for _ in 0..n {
                let (i, k) = (ctx.d(v.len()), ctx.d(8));
                v[i] ^= 1 << k;
                ctx.ev(|| format!("bit {k} of byte {i} flipped"));
            }
            ctx.fault("bit_flip");
        }
        1 => {
            let c = *ctx.pick(b"0123456789.-+eE,[]{}:\" nx");
            ctx.ev(|| format!("byte {at} becomes {:?}", c as char));
            v[at] = c;
            ctx.fault("byte_altered");
        }
        2 => {
            let n = 1 + ctx.d(64);
            let end = (at + n).min(v.len());
            ctx.ev(|| format!("bytes {at}..{end} zeroed"));
            v[at..end].fill(if ctx.d(2) == 0 { 0 } else { b' ' });
            ctx.fault("sector_zeroed");
        }
        3 => {
            let end = (at + 1 + ctx.d(64)).min(v.len());
            ctx.ev(|| format!("bytes {at}..{end} lost"));
            v.drain(at..end);
            ctx.fault("sector_lost");
        }
        4 => {
            let end = (at + 1 + ctx.d(64)).min(v.len());
            ctx.ev(|| format!("bytes {at}..{end} twice"));
            let x = v[at..end].to_vec();
            v.splice(at..at, x);
            ctx.fault("sector_repeated");
        }
        5 => {
            // an older save shows through
            ctx.ev(|| format!("the older save from byte {at} on"));
            v.truncate(at);
            v.extend_from_slice(&old[at.min(old.len())..]);
            ctx.fault("older_save_shows_through");
        }
        _ => {
            ctx.ev(|| format!("truncated to {at}"));
            v.truncate(at);
            ctx.fault("truncated");
        }
    }
    v
}

/// walks down to a value
fn descend<'a>(ctx: &mut Ctx, mut v: &'a mut serde_json::Value, path: &mut String) -> &'a mut serde_json::Value {
    loop {
        let stop = ctx.d(4) == 0;
        let n = v.as_array().map_or(0, |a| a.len());
        let keys: Vec<String> = v.as_object().map_or(vec![], |o| o.keys().cloned().collect());
        if n > 0 && !stop {
            let i = ctx.d(n);
            path.push_str(&format!("/{i}"));
            v = &mut v[i];
        } else if !keys.is_empty() && (!stop || path.is_empty()) {
            let k = &keys[ctx.d(keys.len())];
            path.push_str(&format!("/{k}"));
            v = &mut v[k.as_str()];
        } else {
            return v;
        }
    }
}

/// alters one value; true: what is left cannot be the save of a model
fn value_damage(ctx: &mut Ctx, v: &mut serde_json::Value) -> (String, bool) {
    use serde_json::{json, Value};
    let mut path = String::new();
    let root = ctx.d(6) == 0 && v.as_object().is_some_and(|o| !o.is_empty());
    let x = if root { v } else { descend(ctx, v, &mut path) };
    ctx.fault("value_altered");
    let optional = path.ends_with("/exterior");
    match if root { 2 } else { ctx.d(4) } {
        0 => {
            // of another type
            let y = match ctx.d(6) {
                0 => json!("7"),
                1 => json!({}),
                2 => json!([]),
                3 => json!(true),
                4 => json!({"a": 1}),
                _ => Value::Null,
            };
            let list = x.is_array() && y.is_array();
            let wrong = !list && !(optional && y.is_null());
            *x = y;
            (format!("{path} becomes {x}"), wrong)
        }
        1 if x.is_array() => {
            let a = x.as_array_mut().unwrap();
            if a.is_empty() {
                return (String::new(), false);
            }
            let (i, j) = (ctx.d(a.len()), ctx.d(a.len()));
            match ctx.d(4) {
                0 => {
                    a.remove(i);
                    (format!("{path}/{i} left out"), false)
                }
                1 => {
                    let y = a[i].clone();
                    a.insert(j, y);
                    (format!("{path}/{i} again at {j}"), false)
                }
                2 => {
                    a.swap(i, j);
                    (format!("{path}/{i} and {j} swapped"), false)
                }
                _ => {
                    a.truncate(i);
                    (format!("{path} truncated to {i}"), false)
                }
            }
        }
        2 if x.is_object() => {
            let o = x.as_object_mut().unwrap();
            if o.is_empty() {
                return (String::new(), false);
            }
            let i = ctx.d(o.len());
            let k = o.keys().nth(i).unwrap().clone();
            let y = o.remove(&k).unwrap();
            let renamed = ctx.d(2) == 0;
            let exterior = k == "exterior" && o.contains_key("surface");
            if renamed {
                o.insert(format!("{k}x"), y);
            }
            (format!("{path}/{k} gone, renamed {renamed}"), !exterior)
        }
        _ => {
            let num = x.is_number();
            let y = match ctx.d(8) {
                0 => json!(0),
                1 => json!(-1),
                2 => json!(1e300),
                3 => json!(u64::MAX),
                4 => json!(1.5),
                5 => json!(1),
                6 => json!(-1e-300),
                _ => json!(ctx.d(12)),
            };
            *x = y;
            (format!("{path} becomes {x}"), !num)
        }
    }
}

fn damage(ctx: &mut Ctx, m: &M, b: &[u8], pretty: bool) -> R {
    let old = {
        let mut o = m.clone();
        edit(ctx, &mut o);
        plain(ctx, &o, pretty)?
    };
    for _ in 0..ctx.range(1, 4) {
        let back;
        let mut wrong = false;
        if ctx.d(2) == 0 {
            let d = bytes_damage(ctx, b, &old);
            if d.len() < b.len() && b.starts_with(&d) {
                torn(ctx, m, &d)?;
                continue;
            }
            if ctx.d(2) == 0 {
                let plan = Plan::draw(ctx);
                back = lib(|| M::read(m.kind(), &mut SimReader { b: &d, pos: 0, plan })).map_err(|p| ctx.panic_fail("restore of a damaged save", &p))?;
            } else {
                back = lib(|| M::slice(m.kind(), &d)).map_err(|p| ctx.panic_fail("restore of a damaged save", &p))?;
            }
        } else {
            let mut v: serde_json::Value = serde_json::from_slice(Aligned::new(b).bytes()).unwrap();
            let (what, w) = value_damage(ctx, &mut v);
            wrong = w;
            ctx.ev(|| what.clone());
            if ctx.d(2) == 0 {
                let d = serde_json::to_vec(&v).unwrap();
                back = lib(|| M::slice(m.kind(), &d)).map_err(|p| ctx.panic_fail("restore of a damaged save", &p))?;
            } else {
                back = lib(|| M::value(m.kind(), v)).map_err(|p| ctx.panic_fail("restore of a damaged save", &p))?;
            }
        }
        ctx.nontrivial = true;
        match back {
            Ok(x) => {
                ctx.probe("damaged_save_restored");
                if wrong {
                    fail!("wrong value accepted", "restored {:?}", x);
                }
                x.sound(ctx, "restore of a damaged save")?;
                let c = plain(ctx, &x, false)?;
                let y = lib(|| M::slice(m.kind(), &c)).map_err(|p| ctx.panic_fail("restore", &p))?.map_err(|e| Fail::new("restore failed", e.to_string()))?;
                if y.print() != x.print() {
                    fail!("restored model differs", "{:?} became {:?}", x, y);
                }
            }
            Err(_) => ctx.probe("damaged_save_refused"),
        }
    }
    Ok(())
}

// crashes --------------------------------------------------------------------------------------

const CAP: usize = 1 << 16;

/// what survives the process
#[repr(C)]
struct Disk {
    /// version under the name, slot it is in
    version: u64,
    slot: u64,
    /// operations completed
    ops: u64,
    /// cached length and synced length of either slot
    len: [u64; 2],
    synced: [u64; 2],
    data: [[u8; CAP]; 2],
}

struct SlotWriter {
    d: *mut Disk,
    slot: usize,
    plan: Plan,
    stop_at: u64,
}
unsafe fn op(d: *mut Disk, stop_at: u64) {
    if (*d).ops >= stop_at {
        libc::_exit(94);
    }
    (*d).ops += 1;
}
impl Write for SlotWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        unsafe {
            op(self.d, self.stop_at);
            let d = &mut *self.d;
            let at = d.len[self.slot] as usize;
            if at + buf.len() > CAP {
                return Err(io::ErrorKind::StorageFull.into());
            }
            let n = self.plan.step(at, buf.len())?;
            d.data[self.slot][at..at + n].copy_from_slice(&buf[..n]);
            d.len[self.slot] = (at + n) as u64;
            Ok(n)
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn crashes(ctx: &mut Ctx, m: &M, pretty: bool) -> R {
    // the versions the client saves, one after the other
    let mut versions = vec![m.clone()];
    for _ in 0..ctx.range(1, 3) {
        let mut x = versions[versions.len() - 1].clone();
        edit(ctx, &mut x);
        versions.push(x);
    }
    let mut bytes = vec![];
    for v in &versions {
        bytes.push(plain(ctx, v, pretty)?);
    }
    if bytes.iter().any(|b| b.len() > CAP) {
        return Ok(());
    }
    let d = unsafe { sim_shared(std::mem::size_of::<Disk>()) } as *mut Disk;
    assert!(!d.is_null());
    let r = crash_run(ctx, m.kind(), &versions, &bytes, pretty, d);
    unsafe { libc::munmap(d as *mut _, std::mem::size_of::<Disk>()) };
    r
}

fn crash_run(ctx: &mut Ctx, kind: usize, versions: &[M], bytes: &[Vec<u8>], pretty: bool, d: *mut Disk) -> R {
    // a run without a crash tells how long the sequence is
    let plans: Vec<Plan> = versions.iter().map(|_| Plan::draw(ctx)).collect();
    let session = |at_step: u64, at_op: u64| -> (i32, u64) {
        unsafe {
            std::ptr::write_bytes(d as *mut u8, 0, std::mem::offset_of!(Disk, data));
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::alarm(100);
                let s0 = sim_steps;
                if at_step != u64::MAX {
                    sim_set_crash(s0 + at_step);
                }
                for (i, v) in versions.iter().enumerate() {
                    let slot = i % 2;
                    (*d).len[slot] = 0;
                    (*d).synced[slot] = 0;
                    let mut w = SlotWriter { d, slot, plan: plans[i], stop_at: at_op };
                    match lib(|| v.save(&mut w, pretty)) {
                        Ok(Ok(())) => {}
                        _ => libc::_exit(7),
                    }
                    op(d, at_op);
                    (*d).synced[slot] = (*d).len[slot];
                    op(d, at_op);
                    (*d).slot = slot as u64;
                    (*d).version = i as u64 + 1;
                }
                (*d).ops += (sim_steps - s0) << 32;
                libc::_exit(0);
            }
            let mut st = 0i32;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            (*sim_status).code = 0;
            (if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -1 }, (*d).ops)
        }
    };
    let (code, n) = session(u64::MAX, u64::MAX);
    if code != 0 {
        fail!("saving failed", "status {code}");
    }
    let (steps, ops) = (n >> 32, n & 0xffff_ffff);
    for _ in 0..ctx.range(1, 4) {
        let by_step = ctx.d(2) == 0;
        let at = if by_step { ctx.d(steps.max(1) as usize) } else { ctx.d(ops.max(1) as usize) } as u64;
        ctx.ev(|| format!("crash at {} {at} of {}", if by_step { "basic block" } else { "operation" }, if by_step { steps } else { ops }));
        let (code, _) = if by_step { session(at, u64::MAX) } else { session(u64::MAX, at) };
        if code != 94 {
            fail!("harness", "crash at {at} did not happen: status {code}");
        }
        ctx.fault("crash");
        ctx.nontrivial = true;
        let (version, slot) = unsafe { ((*d).version as usize, (*d).slot as usize) };
        let read = |s: usize| unsafe { (&(*d).data)[s][..(*d).len[s] as usize].to_vec() };
        // restart: the last completed save
        if version > 0 {
            let b = read(slot);
            let plan = Plan::draw(ctx);
            let back = lib(|| M::read(kind, &mut SimReader { b: &b, pos: 0, plan })).map_err(|p| ctx.panic_fail("restart", &p))?.map_err(|e| Fail::new("restart failed", e.to_string()))?;
            if back.print() != versions[version - 1].print() {
                fail!("restart from another model", "version {version}: {:?} instead of {:?}", back, versions[version - 1]);
            }
            ctx.probe("restarted");
        }
        // the unfinished one, of which the disk kept what it liked
        let other = if version == 0 { 0 } else { 1 - slot };
        let mut b = read(other);
        let synced = unsafe { (*d).synced[other] as usize };
        if synced < b.len() {
            let keep = synced + ctx.d(b.len() - synced + 1);
            if keep < b.len() && ctx.d(2) == 0 {
                // its length got there, this part did not
                let end = keep + 1 + ctx.d(b.len() - keep);
                b[keep..end].fill(0);
                ctx.fault("unsynced_tail_torn");
            } else if keep < b.len() {
                b.truncate(keep);
                ctx.fault("unsynced_tail_lost");
            }
        }
        let next = if version < bytes.len() { &bytes[version] } else { &bytes[version - 1] };
        let got = lib(|| M::slice(kind, &b)).map_err(|p| ctx.panic_fail("restore of a torn save", &p))?;
        let complete = b.len() == next.len() && b == *next;
        match got {
            Ok(x) => {
                // a complete one, of this or of an earlier round
                if !versions.iter().any(|v| v.print() == x.print()) {
                    fail!("torn save accepted", "{} restores {:?}", show(&b), x);
                }
                ctx.probe("complete_unrenamed_save");
            }
            Err(e) => {
                if complete {
                    fail!("restore failed", "a complete save: {e}");
                }
                ctx.probe("torn_save_refused");
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.env();
    let m = model(ctx)?;
    let pretty = ctx.d(4) == 0;
    ctx.ev(|| format!("{:?}, pretty {pretty}", m));
    ctx.probe(NAMES[m.kind()]);
    let b = plain(ctx, &m, pretty)?;
    ctx.bits(hash_str(&show(&b)));
    match ctx.d(8) {
        0..=2 => transfers(ctx, &m, &b, pretty),
        3..=5 => damage(ctx, &m, &b, pretty),
        _ => crashes(ctx, &m, pretty),
    }
}
