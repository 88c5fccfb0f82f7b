//! Independent executable reference model: plain de Boor evaluation of
//! rational B-splines in homogeneous coordinates. Shares no code with curvo.

#[derive(Clone, Debug)]
pub struct RCurve {
    pub p: usize,
    pub knots: Vec<f64>,
    /// homogeneous control points (x*w, y*w, .., w)
    pub cps: Vec<Vec<f64>>,
}

/// span k with knots[k] <= t < knots[k+1], inside the domain
fn span(p: usize, n: usize, knots: &[f64], t: f64) -> usize {
    // n = number of control points
    let mut k = p;
    while k + 1 < n && knots[k + 1] <= t {
        k += 1;
    }
    // t at (or past) the end: last non-empty span
    while k > p && knots[k] >= knots[k + 1] {
        k -= 1;
    }
    k
}

fn de_boor(p: usize, knots: &[f64], cps: &[Vec<f64>], t: f64) -> Vec<f64> {
    let k = span(p, cps.len(), knots, t);
    let mut d: Vec<Vec<f64>> = (0..=p).map(|j| cps[k - p + j].clone()).collect();
    for r in 1..=p {
        for j in (r..=p).rev() {
            let i = k - p + j;
            let den = knots[i + p + 1 - r] - knots[i];
            let a = if den == 0. { 0. } else { (t - knots[i]) / den };
            for c in 0..d[j].len() {
                d[j][c] = (1. - a) * d[j - 1][c] + a * d[j][c];
            }
        }
    }
    d[p].clone()
}

pub fn proj(h: &[f64]) -> Vec<f64> {
    let w = h[h.len() - 1];
    h[..h.len() - 1].iter().map(|x| x / w).collect()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}

impl RCurve {
    pub fn domain(&self) -> (f64, f64) {
        (self.knots[self.p], self.knots[self.cps.len()])
    }
    pub fn hom(&self, t: f64) -> Vec<f64> {
        de_boor(self.p, &self.knots, &self.cps, t)
    }
    pub fn at(&self, t: f64) -> Vec<f64> {
        proj(&self.hom(t))
    }
    fn hodograph(&self) -> RCurve {
        let p = self.p;
        let n = self.cps.len();
        let cps = (0..n - 1)
            .map(|i| {
                let den = self.knots[i + p + 1] - self.knots[i + 1];
                let f = if den == 0. { 0. } else { p as f64 / den };
                self.cps[i].iter().zip(&self.cps[i + 1]).map(|(a, b)| (b - a) * f).collect()
            })
            .collect();
        RCurve { p: p - 1, knots: self.knots[1..self.knots.len() - 1].to_vec(), cps }
    }
    /// first derivative with respect to t
    pub fn der(&self, t: f64) -> Vec<f64> {
        let h = self.hom(t);
        let d = self.hodograph().hom(t);
        let w = h[h.len() - 1];
        let dw = d[d.len() - 1];
        (0..h.len() - 1).map(|i| (d[i] - dw * h[i] / w) / w).collect()
    }
    /// homogeneous derivatives of orders 0..=n with respect to t
    pub fn hom_ders(&self, t: f64, n: usize) -> Vec<Vec<f64>> {
        let mut h = self.clone();
        let mut out = vec![];
        for k in 0..=n {
            if k > self.p {
                out.push(vec![0.; self.cps[0].len()]);
                continue;
            }
            if k > 0 {
                h = h.hodograph();
            }
            out.push(h.hom(t));
        }
        out
    }
    /// derivatives of orders 0..=n with respect to t
    pub fn ders(&self, t: f64, n: usize) -> Vec<Vec<f64>> {
        let h: Vec<Vec<Vec<f64>>> = self.hom_ders(t, n).into_iter().map(|x| vec![x]).collect();
        quotient(&h, n, 0).into_iter().map(|mut x| x.remove(0)).collect()
    }
    /// narrowest span
    pub fn narrowest(&self) -> f64 {
        self.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min)
    }
    pub fn interior_knots(&self) -> Vec<f64> {
        let (a, b) = self.domain();
        let mut v: Vec<f64> = self.knots.iter().copied().filter(|k| *k > a && *k < b).collect();
        v.dedup();
        v
    }
    pub fn breaks(&self) -> Vec<f64> {
        let (a, b) = self.domain();
        let mut v = vec![a];
        v.extend(self.interior_knots());
        v.push(b);
        v
    }
    /// size of the control polygon (scale for tolerances)
    pub fn scale(&self) -> f64 {
        self.cps.iter().map(|c| proj(c).iter().fold(0f64, |a, b| a.max(b.abs()))).fold(0., f64::max).max(1e-9)
    }
    /// upper bound of |C'| between breaks: sampled maximum with margin
    pub fn speed_max(&self) -> f64 {
        let b = self.breaks();
        let mut m: f64 = 0.;
        for w in b.windows(2) {
            for i in 0..=24 {
                let t = w[0] + (w[1] - w[0]) * (i as f64 / 24.);
                let t = t.min(w[1] - (w[1] - w[0]) * 1e-9);
                m = m.max(norm(&self.der(t)));
            }
        }
        m
    }
    /// arc length on [a, b] by composite Gauss-Legendre (8 points x pieces)
    pub fn length(&self, a: f64, b: f64, pieces: usize) -> f64 {
        const X: [f64; 4] = [0.1834346424956498, 0.525532409916329, 0.7966664774136267, 0.9602898564975363];
        const W: [f64; 4] = [0.362683783378362, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763];
        let mut br = vec![a];
        br.extend(self.interior_knots().into_iter().filter(|k| *k > a && *k < b));
        br.push(b);
        let mut s = 0.;
        for w in br.windows(2) {
            let h = (w[1] - w[0]) / pieces as f64;
            if h <= 0. {
                continue;
            }
            for i in 0..pieces {
                let m = w[0] + h * (i as f64 + 0.5);
                for q in 0..4 {
                    for sg in [-1., 1.] {
                        s += W[q] * norm(&self.der(m + sg * X[q] * h * 0.5)) * h * 0.5;
                    }
                }
            }
        }
        s
    }
    /// dense polyline: (t, point), `per` pieces per span
    pub fn sample(&self, per: usize) -> Vec<(f64, Vec<f64>)> {
        let b = self.breaks();
        let mut v = vec![];
        for w in b.windows(2) {
            for i in 0..per {
                let t = w[0] + (w[1] - w[0]) * (i as f64 / per as f64);
                v.push((t, self.at(t)));
            }
        }
        let e = self.domain().1;
        v.push((e, self.at(e)));
        v
    }
    /// distance from a point, by dense sampling and local refinement
    pub fn distance(&self, q: &[f64], per: usize) -> (f64, f64) {
        let s = self.sample(per);
        let mut best = (f64::MAX, 0.);
        let d: Vec<f64> = s.iter().map(|x| dist(&x.1, q)).collect();
        for i in 0..s.len() {
            let l = i == 0 || d[i - 1] >= d[i];
            let r = i + 1 == s.len() || d[i + 1] >= d[i];
            if l && r {
                let mut a = s[i.saturating_sub(1)].0;
                let mut b = s[(i + 1).min(s.len() - 1)].0;
                for _ in 0..60 {
                    let m1 = a + (b - a) * 0.381966;
                    let m2 = a + (b - a) * 0.618034;
                    if dist(&self.at(m1), q) < dist(&self.at(m2), q) {
                        b = m2
                    } else {
                        a = m1
                    }
                }
                let t = (a + b) * 0.5;
                let dd = dist(&self.at(t), q).min(d[i]);
                if dd < best.0 {
                    best = (dd, if dd == d[i] { s[i].0 } else { t });
                }
            }
        }
        best
    }
}

/// derivatives of A/w from those of A and w (Leibniz' rule for A = S w), orders k + l <= nu or nv
fn quotient(h: &[Vec<Vec<f64>>], nu: usize, nv: usize) -> Vec<Vec<Vec<f64>>> {
    let dim = h[0][0].len() - 1;
    let binom = |n: usize, k: usize| (0..k).fold(1., |a, i| a * (n - i) as f64 / (i + 1) as f64);
    let mut s: Vec<Vec<Vec<f64>>> = vec![vec![vec![]; nv + 1]; nu + 1];
    for k in 0..=nu {
        for l in 0..=nv {
            let mut v: Vec<f64> = h[k][l][..dim].to_vec();
            for i in 0..=k {
                for j in 0..=l {
                    if i + j > 0 {
                        let c = binom(k, i) * binom(l, j) * h[i][j][dim];
                        for d in 0..dim {
                            v[d] -= c * s[k - i][l - j][d];
                        }
                    }
                }
            }
            for x in &mut v {
                *x /= h[0][0][dim];
            }
            s[k][l] = v;
        }
    }
    s
}

#[derive(Clone, Debug)]
pub struct RSurface {
    pub pu: usize,
    pub pv: usize,
    pub ku: Vec<f64>,
    pub kv: Vec<f64>,
    /// cps[i][j]: i along u, j along v
    pub cps: Vec<Vec<Vec<f64>>>,
}

impl RSurface {
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        ((self.ku[self.pu], self.ku[self.cps.len()]), (self.kv[self.pv], self.kv[self.cps[0].len()]))
    }
    pub fn hom(&self, u: f64, v: f64) -> Vec<f64> {
        let col: Vec<Vec<f64>> = self.cps.iter().map(|row| de_boor(self.pv, &self.kv, row, v)).collect();
        de_boor(self.pu, &self.ku, &col, u)
    }
    pub fn at(&self, u: f64, v: f64) -> Vec<f64> {
        proj(&self.hom(u, v))
    }
    /// homogeneous derivatives, [k][l]: k times along u, l times along v
    pub fn hom_ders(&self, u: f64, v: f64, n: usize) -> Vec<Vec<Vec<f64>>> {
        let rows: Vec<Vec<Vec<f64>>> = self.cps.iter().map(|row| RCurve { p: self.pv, knots: self.kv.clone(), cps: row.clone() }.hom_ders(v, n)).collect();
        let mut out = vec![vec![vec![]; n + 1]; n + 1];
        for l in 0..=n {
            let col = RCurve { p: self.pu, knots: self.ku.clone(), cps: rows.iter().map(|r| r[l].clone()).collect() };
            for (k, d) in col.hom_ders(u, n).into_iter().enumerate() {
                out[k][l] = d;
            }
        }
        out
    }
    pub fn ders(&self, u: f64, v: f64, n: usize) -> Vec<Vec<Vec<f64>>> {
        quotient(&self.hom_ders(u, v, n), n, n)
    }
    /// narrowest spans in both directions
    pub fn narrowest(&self) -> (f64, f64) {
        let f = |p: usize, k: &[f64]| k[p..k.len() - p].windows(2).map(|w| w[1] - w[0]).filter(|x| *x > 0.).fold(f64::INFINITY, f64::min);
        (f(self.pu, &self.ku), f(self.pv, &self.kv))
    }
    /// partial derivatives by the iso-curves' exact derivative
    pub fn du(&self, u: f64, v: f64) -> Vec<f64> {
        let col: Vec<Vec<f64>> = self.cps.iter().map(|row| de_boor(self.pv, &self.kv, row, v)).collect();
        RCurve { p: self.pu, knots: self.ku.clone(), cps: col }.der(u)
    }
    pub fn dv(&self, u: f64, v: f64) -> Vec<f64> {
        let n = self.cps[0].len();
        let row: Vec<Vec<f64>> = (0..n)
            .map(|j| {
                let c: Vec<Vec<f64>> = self.cps.iter().map(|r| r[j].clone()).collect();
                de_boor(self.pu, &self.ku, &c, u)
            })
            .collect();
        RCurve { p: self.pv, knots: self.kv.clone(), cps: row }.der(v)
    }
    pub fn scale(&self) -> f64 {
        self.cps.iter().flatten().map(|c| proj(c).iter().fold(0f64, |a, b| a.max(b.abs()))).fold(0., f64::max).max(1e-9)
    }
}
