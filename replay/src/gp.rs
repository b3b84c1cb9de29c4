use crate::ctx::*;
use egobox_gp::correlation_models::*;
use egobox_gp::mean_models::*;
use egobox_gp::metrics::*;
use egobox_gp::*;
use linfa::prelude::*;
use ndarray::{Array, Array1, Array2, Axis, array};

/// Closed forms of the documented correlation models
pub fn kernel(kind: usize, d: &[f64], th: &[f64], w: &Array2<f64>) -> f64 {
    let (nx, h) = w.dim();
    let mut e = 0.;
    let mut p = 1.;
    for j in 0..nx { for k in 0..h {
        let (t, a, x) = (th[k], w[[j, k]].abs(), d[j].abs());
        match kind {
            0 => e += 0.5 * (t * a) * (t * a) * x * x,
            1 => e += t * a * x,
            2 => { let s = 3f64.sqrt(); e += s * t * a * x; p *= 1. + s * t * a * x; }
            _ => { let s = 5f64.sqrt(); let v = t * a * x; e += s * v; p *= 1. + s * v + 5. / 3. * v * v; }
        }
    } }
    p * (-e).exp()
}
pub fn trend(kind: usize, x: &[f64]) -> Vec<f64> {
    let mut v = vec![1.];
    if kind >= 1 { v.extend_from_slice(x); }
    if kind >= 2 { for i in 0..x.len() { for j in i..x.len() { v.push(x[i] * x[j]); } } }
    v
}
pub const CORR: [&str; 4] = ["SquaredExponential", "AbsoluteExponential", "Matern32", "Matern52"];
pub const MEAN: [&str; 3] = ["Constant", "Linear", "Quadratic"];

macro_rules! with_corr { ($k:expr, $c:ident, $b:expr) => { match $k { 0 => { let $c = SquaredExponentialCorr(); $b } 1 => { let $c = AbsoluteExponentialCorr(); $b } 2 => { let $c = Matern32Corr(); $b } _ => { let $c = Matern52Corr(); $b } } } }
macro_rules! with_mean { ($k:expr, $c:ident, $b:expr) => { match $k { 0 => { let $c = ConstantMean(); $b } 1 => { let $c = LinearMean(); $b } _ => { let $c = QuadraticMean(); $b } } } }

// dense helpers, written apart from the code under test
pub fn chol(a: &Array2<f64>) -> Option<Array2<f64>> {
    let n = a.nrows(); let mut l = Array2::zeros((n, n));
    for i in 0..n { for j in 0..=i {
        let mut s = a[[i, j]]; for k in 0..j { s -= l[[i, k]] * l[[j, k]]; }
        if i == j { if s <= 0. { return None; } l[[i, i]] = s.sqrt(); } else { l[[i, j]] = s / l[[j, j]]; }
    } }
    Some(l)
}
pub fn spd_solve(l: &Array2<f64>, b: &Array2<f64>) -> Array2<f64> {
    let n = l.nrows(); let mut x = b.clone();
    for c in 0..b.ncols() {
        for i in 0..n { let mut s = x[[i, c]]; for k in 0..i { s -= l[[i, k]] * x[[k, c]]; } x[[i, c]] = s / l[[i, i]]; }
        for i in (0..n).rev() { let mut s = x[[i, c]]; for k in i + 1..n { s -= l[[k, i]] * x[[k, c]]; } x[[i, c]] = s / l[[i, i]]; }
    }
    x
}

fn table(c: &mut Ctx, n: usize, nx: usize) -> Array2<f64> {
    let scale: Vec<(f64, f64)> = (0..nx).map(|_| (c.f(-20., 20.), [1., 10., 0.01, 3.][c.u(0, 3)])).collect();
    // spread points so that the correlation matrix is well conditioned
    let mut perms: Vec<Vec<usize>> = vec![];
    for _ in 0..nx { let mut p: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = c.u(0, i); p.swap(i, j); } perms.push(p); }
    Array2::from_shape_fn((n, nx), |(i, j)| scale[j].0 + scale[j].1 * (perms[j][i] as f64 + 0.37 * ((i * 7 + j * 3) % 5) as f64 / 5.) / n as f64)
}

pub fn k01(c: &mut Ctx) {
    let n = c.n(200);
    for it in 0..n {
        if c.over() { break; }
        let kind = it % 4;
        let (nr, nx) = (c.u(1, 6), c.u(1, 5));
        let h = if c.b(0.5) { nx } else { c.u(1, nx) };
        let d = Array2::from_shape_fn((nr, nx), |_| if c.b(0.15) { 0. } else { c.f(-3., 3.) });
        let th = Array1::from_shape_fn(h, |_| if c.b(0.1) { 0. } else { c.f(0., 2.) });
        let w = if h == nx && c.b(0.5) { Array2::eye(nx) } else { Array2::from_shape_fn((nx, h), |_| c.f(-1., 1.)) };
        let inp = c.case("kernel", format!("{} d={d:?} theta={th:?} w={w:?}", CORR[kind]));
        let Some(v) = c.guard("K01/value", &inp, || with_corr!(kind, k, k.value(&d, &th, &w))) else { continue };
        if !c.check(v.dim() == (nr, 1), "K01/shape", &inp, || format!("{:?}", v.dim())) { continue; }
        for i in 0..nr {
            let e = kernel(kind, d.row(i).as_slice().unwrap(), th.as_slice().unwrap(), &w);
            c.close(v[[i, 0]], e, 1e-10, "K01/closed-form", &inp);
            c.check(v[[i, 0]] > 0. && v[[i, 0]] <= 1. + 1e-12, "K01/range", &inp, || format!("{}", v[[i, 0]]));
        }
        let nd = d.mapv(|v| -v);
        if let Some(v2) = c.guard("K01/value", &inp, || with_corr!(kind, k, k.value(&nd, &th, &w))) { for i in 0..nr { c.close(v2[[i, 0]], v[[i, 0]], 1e-12, "K01/symmetry", &inp); } }
        let z = Array2::<f64>::zeros((1, nx));
        if let Some(v3) = c.guard("K01/value", &inp, || with_corr!(kind, k, k.value(&z, &th, &w))) { c.close(v3[[0, 0]], 1., 1e-14, "K01/one-at-zero", &inp); }
    }
}

pub fn k02(c: &mut Ctx) {
    let n = c.n(200);
    for it in 0..n {
        if c.over() { break; }
        let kind = it % 4;
        let (nt, nx) = (c.u(1, 5), c.u(1, 5));
        let h = if c.b(0.5) { nx } else { c.u(1, nx) };
        let xt = Array2::from_shape_fn((nt, nx), |_| c.f(-2., 2.));
        let mut x = Array1::from_shape_fn(nx, |_| c.f(-2., 2.));
        // a training point itself, for the models that are smooth there
        let at = kind != 1 && c.b(0.2);
        if at { x.assign(&xt.row(0)); }
        let th = Array1::from_shape_fn(h, |_| c.f(0.05, 1.5));
        let w = if h == nx && c.b(0.5) { Array2::eye(nx) } else { Array2::from_shape_fn((nx, h), |_| c.f(-1., 1.)) };
        let inp = c.case("kernel jacobian", format!("{} x={x:?} xt={xt:?} theta={th:?} w={w:?}", CORR[kind]));
        let Some(jac) = c.guard("K02/jacobian", &inp, || with_corr!(kind, k, k.jacobian(&x, &xt, &th, &w))) else { continue };
        let Some((v, j2)) = c.guard("K02/valjac", &inp, || with_corr!(kind, k, k.valjac(&x, &xt, &th, &w))) else { continue };
        if !c.check(jac.dim() == (nt, nx) && j2.dim() == (nt, nx) && v.len() == nt, "K02/shape", &inp, || format!("{:?}", jac.dim())) { continue; }
        for i in 0..nt {
            let d: Vec<f64> = (0..nx).map(|j| x[j] - xt[[i, j]]).collect();
            let f = |d: &[f64]| kernel(kind, d, th.as_slice().unwrap(), &w);
            c.close(v[[i, 0]], f(&d), 1e-10, "K02/valjac-value", &inp);
            for j in 0..nx {
                c.close(jac[[i, j]], j2[[i, j]], 1e-12, "K02/valjac-jacobian", &inp);
                if d[j] == 0. && kind != 1 { c.close(jac[[i, j]], 0., 1e-12, "K02/jacobian-at-zero", &inp); continue; }
                let hh = 1e-6;
                if d[j].abs() < 10. * hh { continue; }
                let (mut a, mut b) = (d.clone(), d.clone()); a[j] += hh; b[j] -= hh;
                c.close(jac[[i, j]], (f(&a) - f(&b)) / (2. * hh), 1e-6, "K02/jacobian", &inp);
            }
        }
    }
    for it in 0..c.n(60) {
        if c.over() { break; }
        let kind = it % 3;
        let (nr, nx) = (c.u(1, 4), c.u(1, 6));
        let x = Array2::from_shape_fn((nr, nx), |_| c.f(-3., 3.));
        let inp = c.case("trend", format!("{} x={x:?}", MEAN[kind]));
        let Some(v) = c.guard("K02/trend", &inp, || with_mean!(kind, m, m.value(&x))) else { continue };
        for i in 0..nr {
            let e = trend(kind, x.row(i).as_slice().unwrap());
            if !c.check(v.dim() == (nr, e.len()), "K02/trend-shape", &inp, || format!("{:?}", v.dim())) { break; }
            for k in 0..e.len() { c.close(v[[i, k]], e[k], 1e-12, "K02/trend", &inp); }
            let Some(jac) = c.guard("K02/trend-jacobian", &inp, || with_mean!(kind, m, m.jacobian(&x.row(i)))) else { continue };
            if !c.check(jac.dim() == (e.len(), nx), "K02/trend-jacobian-shape", &inp, || format!("{:?}", jac.dim())) { continue; }
            for j in 0..nx {
                let (mut a, mut b) = (x.row(i).to_vec(), x.row(i).to_vec()); a[j] += 1e-4; b[j] -= 1e-4;
                let (fa, fb) = (trend(kind, &a), trend(kind, &b));
                for k in 0..e.len() { c.close(jac[[k, j]], (fa[k] - fb[k]) / 2e-4, 1e-8, "K02/trend-jacobian", &inp); }
            }
        }
    }
}

pub fn n01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for _ in 0..c.n(300) {
        if c.over() { break; }
        use egobox_gp::vp_hooks::*;
        let (n, m, n2) = (c.u(2, 8), c.u(1, 5), c.u(1, 5));
        let mut x = Array2::from_shape_fn((n, m), |_| c.f(-5., 5.));
        for j in 0..m { if c.b(0.2) { let v = [0., 1., 2., 0.5][c.u(0, 3)]; x.column_mut(j).fill(v); } }
        let y = Array2::from_shape_fn((n2, m), |_| c.f(-5., 5.));
        let inp = c.case("tables", format!("x={x:?} y={y:?}"));
        if let Some((d, mean, std)) = c.guard("N01/normalize", &inp, || normalize(&x)) {
            for j in 0..m {
                let col = x.column(j); let mu = col.sum() / n as f64;
                let s = (col.iter().map(|v| (v - mu) * (v - mu)).sum::<f64>() / (n - 1) as f64).sqrt();
                let s = if s == 0. { 1. } else { s };
                c.close(mean[j], mu, 1e-12, "N01/mean", &inp); c.close(std[j], s, 1e-12, "N01/std", &inp);
                for i in 0..n { c.close(d[[i, j]] * std[j] + mean[j], x[[i, j]], 1e-10, "N01/undo", &inp); }
            }
        }
        if let Some((d, ix, no)) = c.guard("N01/diff", &inp, || diff_matrix(&x)) {
            let mut seen = std::collections::HashSet::new();
            let ok = no == n && d.dim() == (n * (n - 1) / 2, m) && ix.dim() == (n * (n - 1) / 2, 2);
            if c.check(ok, "N01/diff-shape", &inp, || format!("{:?} {:?} {no}", d.dim(), ix.dim())) {
                for r in 0..d.nrows() {
                    let (a, b) = (ix[[r, 0]], ix[[r, 1]]);
                    c.check(a < n && b < n && a != b && seen.insert((a.min(b), a.max(b))), "N01/diff-pairs", &inp, || format!("row {r}: pair {a},{b}"));
                    if a < n && b < n { for j in 0..m { c.close(d[[r, j]], (x[[a, j]] - x[[b, j]]).abs(), 1e-13, "N01/diff", &inp); } }
                }
            }
        }
        if let Some(d) = c.guard("N01/pairwise", &inp, || pairwise_differences(&x, &y)) {
            if c.check(d.dim() == (n * n2, m), "N01/pairwise-shape", &inp, || format!("{:?}", d.dim())) {
                for i in 0..n { for k in 0..n2 { for j in 0..m { c.close(d[[i * n2 + k, j]], x[[i, j]] - y[[k, j]], 1e-13, "N01/pairwise", &inp); } } }
            }
        }
    }
    let _ = &c;
}

/// kriging equations with given correlation lengths
pub struct Oracle { pub kind: usize, mean: usize, th: Vec<f64>, xm: Vec<f64>, xs: Vec<f64>, ym: f64, ys: f64, xn: Array2<f64>, l: Array2<f64>, beta: Vec<f64>, gamma: Vec<f64>, s2: f64, rif: Array2<f64>, lb: Array2<f64>, pub cond: f64 }
impl Oracle {
    pub fn new(x: &Array2<f64>, y: &Array1<f64>, th: &Array1<f64>, kind: usize, mean: usize, nugget: f64) -> Option<Oracle> {
        let (n, nx) = x.dim();
        let (mut xm, mut xs) = (vec![], vec![]);
        for j in 0..nx {
            let m = x.column(j).sum() / n as f64;
            let s = (x.column(j).iter().map(|v| (v - m) * (v - m)).sum::<f64>() / (n as f64 - 1.)).sqrt();
            xm.push(m); xs.push(if s == 0. { 1. } else { s });
        }
        let ym = y.sum() / n as f64;
        let ys = (y.iter().map(|v| (v - ym) * (v - ym)).sum::<f64>() / (n as f64 - 1.)).sqrt();
        let ys = if ys == 0. { 1. } else { ys };
        let xn = Array2::from_shape_fn((n, nx), |(i, j)| (x[[i, j]] - xm[j]) / xs[j]);
        let yn = Array2::from_shape_fn((n, 1), |(i, _)| (y[i] - ym) / ys);
        let w = Array2::eye(nx);
        let r = Array2::from_shape_fn((n, n), |(a, b)| if a == b { 1. + nugget } else { let d: Vec<f64> = (0..nx).map(|j| xn[[a, j]] - xn[[b, j]]).collect(); kernel(kind, &d, th.as_slice().unwrap(), &w) });
        let l = chol(&r)?;
        let cond = l.diag().iter().fold(f64::INFINITY, |a, b| a.min(*b));
        let p = trend(mean, &vec![0.; nx]).len();
        let f = Array2::from_shape_fn((n, p), |(i, k)| trend(mean, xn.row(i).as_slice().unwrap())[k]);
        let rif = spd_solve(&l, &f);
        let b = f.t().dot(&rif);
        let lb = chol(&b)?;
        let cond = cond.min(lb.diag().iter().fold(f64::INFINITY, |a, b| a.min(*b)));
        let beta = spd_solve(&lb, &rif.t().dot(&yn));
        let e = &yn - &f.dot(&beta);
        let gamma = spd_solve(&l, &e);
        let s2 = e.t().dot(&gamma)[[0, 0]] / n as f64 * ys * ys;
        Some(Oracle { kind, mean, th: th.to_vec(), xm, xs, ym, ys, xn, l, beta: beta.column(0).to_vec(), gamma: gamma.column(0).to_vec(), s2, rif, lb, cond })
    }
    /// (mean, unfloored variance)
    pub fn at(&self, x: &[f64]) -> (f64, f64) {
        let nx = x.len(); let n = self.xn.nrows();
        let u: Vec<f64> = (0..nx).map(|j| (x[j] - self.xm[j]) / self.xs[j]).collect();
        let w = Array2::eye(nx);
        let r = Array2::from_shape_fn((n, 1), |(i, _)| { let d: Vec<f64> = (0..nx).map(|j| u[j] - self.xn[[i, j]]).collect(); kernel(self.kind, &d, &self.th, &w) });
        let f = trend(self.mean, &u);
        let m = f.iter().zip(&self.beta).map(|(a, b)| a * b).sum::<f64>() + r.iter().zip(&self.gamma).map(|(a, b)| a * b).sum::<f64>();
        let rir = r.t().dot(&spd_solve(&self.l, &r))[[0, 0]];
        let a = Array2::from_shape_fn((f.len(), 1), |(k, _)| f[k]) - self.rif.t().dot(&r);
        let q = a.t().dot(&spd_solve(&self.lb, &a))[[0, 0]];
        (m * self.ys + self.ym, self.s2 * (1. - rir + q))
    }
}

struct Case { x: Array2<f64>, y: Array1<f64>, th: Array1<f64>, kind: usize, mean: usize, q: Array2<f64>, inp: String }
fn gp_case(c: &mut Ctx, it: usize) -> Case {
    let (kind, mean) = (it % 4, (it / 4) % 3);
    let nx = if it < 24 { 1 + it % 3 } else { c.u(1, 4) };
    let p = trend(mean, &vec![0.; nx]).len();
    let n = p + c.u(3, 9);
    let x = table(c, n, nx);
    let (a, b, ph) = (c.f(0.5, 3.), c.f(-50., 50.), c.f(0., 3.));
    let sc: Vec<f64> = (0..nx).map(|j| { let col = x.column(j); let (l, u) = (col.fold(f64::INFINITY, |a, b| a.min(*b)), col.fold(f64::NEG_INFINITY, |a, b| a.max(*b))); if u > l { u - l } else { 1. } }).collect();
    let y = Array1::from_shape_fn(n, |i| b + a * (0..nx).map(|j| (x[[i, j]] / sc[j] * 3. + ph + j as f64).sin() * (1. + j as f64)).sum::<f64>());
    let th = Array1::from_shape_fn(nx, |_| c.f(0.6, 3.));
    let nq = c.u(1, 4);
    let q = Array2::from_shape_fn((nq, nx), |(_, j)| { let i = c.u(0, n - 1); x[[i, j]] + c.f(-0.4, 0.4) * sc[j] });
    let inp = c.case("gp", format!("{} {} theta={th:?} x={x:?} y={y:?} at {q:?}", CORR[kind], MEAN[mean]));
    Case { x, y, th, kind, mean, q, inp }
}
macro_rules! fitted { ($c:expr, $k:expr, $g:ident, $b:block) => { with_corr!($k.kind, co, with_mean!($k.mean, me, {
    let (xx, yy, tt) = ($k.x.clone(), $k.y.clone(), $k.th.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| GpParams::<f64, _, _>::new(me, co).theta_tuning(ThetaTuning::Fixed(tt)).fit(&Dataset::new(xx, yy))));
    match r { Ok(Ok($g)) => $b, Ok(Err(_)) => {}, Err(_) => { $c.fail("gp/fit-panic", &$k.inp, "fit panicked") } }
})) } }

pub fn g01(c: &mut Ctx) {
    for it in 0..c.n(120) {
        if c.over() { break; }
        let k = gp_case(c, it);
        let Some(o) = Oracle::new(&k.x, &k.y, &k.th, k.kind, k.mean, 100. * f64::EPSILON) else { continue };
        if o.cond < 1e-2 { continue; }
        fitted!(c, k, gp, {
            let (p, v) = (gp.predict(&k.q).unwrap(), gp.predict_var(&k.q).unwrap());
            let (p2, v2) = gp.predict_valvar(&k.q).unwrap();
            let s = k.y.iter().fold(0f64, |a, b| a.max((b - o.ym).abs())) + 1e-12;
            c.close(gp.variance() / (s * s), o.s2 / (s * s), 1e-6, "G01/process-variance", &k.inp);
            for i in 0..k.q.nrows() {
                let (m, var) = o.at(k.q.row(i).as_slice().unwrap());
                c.check((p[i] - m).abs() <= 1e-6 * (s + m.abs()), "G01/mean", &k.inp, || format!("row {i}: {} expected {m}", p[i]));
                c.check((v[i] - var.max(0.)).abs() <= 1e-6 * o.s2.max(1e-300), "G01/variance", &k.inp, || format!("row {i}: {} expected {}", v[i], var.max(0.)));
                c.check(v[i] >= 0., "G01/variance-sign", &k.inp, || format!("{}", v[i]));
                c.check((p[i] - p2[i]).abs() <= 1e-10 * (s + m.abs()) && (v[i] - v2[i]).abs() <= 1e-10 * o.s2, "G01/joint", &k.inp, || format!("row {i}: joint {} {}, separate {} {}", p2[i], v2[i], p[i], v[i]));
                let row = k.q.row(i).to_owned().insert_axis(Axis(0));
                let (pr, vr) = gp.predict_valvar(&row).unwrap();
                c.check((p[i] - pr[0]).abs() <= 1e-10 * (s + m.abs()) && (v[i] - vr[0]).abs() <= 1e-10 * o.s2, "G01/row", &k.inp, || format!("row {i} alone: {} {}", pr[0], vr[0]));
            }
            // at the training points: interpolation, variance floored at zero
            let vt = gp.predict_var(&k.x).unwrap();
            c.check(vt.iter().all(|v| *v >= 0.), "G01/variance-sign", &k.inp, || format!("{vt:?}"));
        });
        // reduced dimension: joint and row consistency only
        if k.x.ncols() > 1 && it % 3 == 0 {
            let (x, y, q) = (k.x.clone(), k.y.clone(), k.q.clone());
            let inp = c.case("gp kpls", k.inp.clone());
            let r = with_corr!(k.kind, co, with_mean!(k.mean, me, std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| GpParams::<f64, _, _>::new(me, co).theta_tuning(ThetaTuning::Fixed(array![1.])).kpls_dim(Some(1)).fit(&Dataset::new(x, y)).ok().map(|g| { let (a, b) = g.predict_valvar(&q).unwrap(); (g.predict(&q).unwrap(), g.predict_var(&q).unwrap(), a, b, g.variance()) })))));
            match r { Ok(Some((p, v, p2, v2, s2))) => for i in 0..p.len() {
                c.check((p[i] - p2[i]).abs() <= 1e-8 * (1. + p[i].abs()) && (v[i] - v2[i]).abs() <= 1e-8 * s2.max(1e-300) && v[i] >= 0., "G01/joint", &inp, || format!("kpls row {i}"));
            }, Ok(None) => {}, Err(_) => c.fail("G01/kpls-panic", &inp, "panicked") }
        }
    }
}

pub fn g02(c: &mut Ctx) {
    for it in 0..c.n(120) {
        if c.over() { break; }
        let k = gp_case(c, it);
        let Some(o) = Oracle::new(&k.x, &k.y, &k.th, k.kind, k.mean, 100. * f64::EPSILON) else { continue };
        if o.cond < 1e-2 { continue; }
        fitted!(c, k, gp, {
            let Some((g, v, (g2, v2))) = c.guard("G02", &k.inp, || (gp.predict_gradients(&k.q), gp.predict_var_gradients(&k.q), gp.predict_valvar_gradients(&k.q))) else { continue };
            if !c.check(g.dim() == k.q.dim() && v.dim() == k.q.dim(), "G02/shape", &k.inp, || format!("{:?}", g.dim())) { continue; }
            for i in 0..k.q.nrows() { for j in 0..k.q.ncols() {
                let h = 1e-5 * o.xs[j];
                if k.x.column(j).iter().any(|t| (t - k.q[[i, j]]).abs() < 3. * h) { continue; }
                let (mut a, mut b) = (k.q.row(i).to_vec(), k.q.row(i).to_vec()); a[j] += h; b[j] -= h;
                let ((ma, va), (mb, vb)) = (o.at(&a), o.at(&b));
                let (fm, fv) = ((ma - mb) / (2. * h), (va - vb) / (2. * h));
                let (sm, sv) = (o.ys / o.xs[j], o.s2 / o.xs[j]);
                c.check((g[[i, j]] - fm).abs() <= 1e-4 * (sm + fm.abs()), "G02/mean-gradient", &k.inp, || format!("row {i} coordinate {j}: {} expected {fm}", g[[i, j]]));
                c.check((v[[i, j]] - fv).abs() <= 1e-4 * (sv + fv.abs()), "G02/variance-gradient", &k.inp, || format!("row {i} coordinate {j}: {} expected {fv}", v[[i, j]]));
                c.check((g[[i, j]] - g2[[i, j]]).abs() <= 1e-9 * (sm + fm.abs()) && (v[[i, j]] - v2[[i, j]]).abs() <= 1e-9 * (sv + fv.abs()), "G02/joint", &k.inp, || format!("row {i} coordinate {j}: joint {} {}", g2[[i, j]], v2[[i, j]]));
            } }
        });
        if k.x.ncols() > 1 && it % 2 == 0 {
            let kd = c.u(1, k.x.ncols() - 1);
            let inp = c.case("gp kpls gradients", format!("kpls {kd} {}", k.inp));
            let (x, y, q) = (k.x.clone(), k.y.clone(), k.q.clone());
            let r = with_corr!(k.kind, co, with_mean!(k.mean, me, std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| GpParams::<f64, _, _>::new(me, co).theta_tuning(ThetaTuning::Fixed(array![1.])).kpls_dim(Some(kd)).fit(&Dataset::new(x, y)).ok().map(|gp| {
                let mut out = vec![];
                let (g, v) = gp.predict_valvar_gradients(&q);
                for i in 0..q.nrows() { for j in 0..q.ncols() {
                    let h = 1e-5 * o.xs[j];
                    let (mut a, mut b) = (q.row(i).to_owned().insert_axis(Axis(0)), q.row(i).to_owned().insert_axis(Axis(0))); a[[0, j]] += h; b[[0, j]] -= h;
                    let ((ma, va), (mb, vb)) = (gp.predict_valvar(&a).unwrap(), gp.predict_valvar(&b).unwrap());
                    let near = k.x.column(j).iter().any(|t| (t - q[[i, j]]).abs() < 3. * h);
                    // the floored variance is no longer the differentiated quantity
                    if !near { out.push((i, j, g[[i, j]], (ma[0] - mb[0]) / (2. * h), v[[i, j]], (va[0] - vb[0]) / (2. * h), va[0] > 1e-6 * gp.variance() && vb[0] > 1e-6 * gp.variance(), gp.variance() / o.xs[j])); }
                } }
                out
            })))));
            match r { Ok(Some(o2)) => for (i, j, g, fg, v, fv, okv, sv) in o2 {
                let sm = o.ys / o.xs[j];
                c.check((g - fg).abs() <= 1e-3 * (sm + fg.abs()), "G02/mean-gradient", &inp, || format!("row {i} coordinate {j}: {g} expected {fg}"));
                if okv { c.check((v - fv).abs() <= 2e-3 * (sv + fv.abs()), "G02/variance-gradient", &inp, || format!("row {i} coordinate {j}: {v} expected {fv}")); }
            }, Ok(None) => {}, Err(_) => c.fail("G02/kpls-panic", &inp, "panicked") }
        }
    }
}

pub fn g03(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for _ in 0..c.n(150) {
        if c.over() { break; }
        let d = c.u(1, 6);
        let ns = c.u(0, 8);
        let th = Array1::from_shape_fn(d, |_| 10f64.powf(c.f(-3., 2.)));
        let bounds: Vec<(f64, f64)> = (0..d).map(|_| { let a = c.f(-6., 1.); let b = a + c.f(0.1, 5.); (10f64.powf(a), 10f64.powf(b)) }).collect();
        let inp = c.case("multistart", format!("n_start={ns} theta0={th:?} bounds={bounds:?}"));
        if let Some((t, b)) = c.guard("G03/multistart", &inp, || egobox_gp::vp_hooks::prepare_multistart(ns, &th, &bounds)) {
            if !c.check(t.dim() == (ns + 1, d) && b.len() == d, "G03/multistart-shape", &inp, || format!("{:?}", t.dim())) { continue; }
            for k in 0..d {
                c.close(t[[0, k]], th[k].log10(), 1e-12, "G03/initial-guess", &inp);
                c.close(b[k].0, bounds[k].0.log10(), 1e-12, "G03/bounds", &inp); c.close(b[k].1, bounds[k].1.log10(), 1e-12, "G03/bounds", &inp);
                for r in 1..=ns { c.check(t[[r, k]] >= b[k].0 - 1e-9 && t[[r, k]] <= b[k].1 + 1e-9, "G03/start-in-bounds", &inp, || format!("start {r} component {k}: {} not in {:?}", t[[r, k]], b[k])); }
            }
        }
    }
    for it in 0..c.n(60) {
        if c.over() { break; }
        let mut k = gp_case(c, it);
        let nx = k.x.ncols();
        let kp = if nx > 1 && it % 4 == 3 { Some(c.u(1, nx - 1)) } else { None };
        let dim = kp.unwrap_or(nx);
        k.th = Array1::from_shape_fn(dim, |_| c.f(0.1, 2.));
        let single = it % 3 == 1;
        let init = if single { array![k.th[0]] } else { k.th.clone() };
        let full: Array1<f64> = if single { Array1::from_elem(dim, k.th[0]) } else { k.th.clone() };
        let nb = if c.b(0.5) { 1 } else { dim };
        let bounds = Array1::from_shape_fn(nb, |_| { let a = c.f(0.02, 0.1); (a, a + c.f(2., 9.)) });
        let mut act: Vec<usize> = (0..dim).filter(|_| c.b(0.5)).collect();
        if act.is_empty() { act.push(c.u(0, dim - 1)); }
        if c.b(0.4) { act.reverse(); }
        let mode = it % 3;
        let ns = [0, 1, 4][c.u(0, 2)];
        let tuning = match (it / 2) % 3 { 0 => ThetaTuning::Fixed(init.clone()), 1 => ThetaTuning::Full { init: init.clone(), bounds: bounds.clone() }, _ => ThetaTuning::Partial { init: init.clone(), bounds: bounds.clone(), active: act.clone() } };
        let inp = c.case("tuning", format!("{tuning:?} kpls={kp:?} n_start={ns} mode {mode} {}", k.inp));
        let (x, y, t2) = (k.x.clone(), k.y.clone(), tuning.clone());
        let r = with_corr!(k.kind, co, c.guard("G03/fit", &inp, move || GpParams::<f64, _, _>::new(ConstantMean(), co).theta_tuning(t2).kpls_dim(kp).n_start(ns).max_eval(25).fit(&Dataset::new(x, y)).ok().map(|g| g.theta().to_owned())));
        let Some(Some(th)) = r else { continue };
        if !c.check(th.len() == dim, "G03/length", &inp, || format!("{th:?}")) { continue; }
        let inside = |i: usize, v: f64| { let b = if nb == 1 { bounds[0] } else { bounds[i] }; v >= b.0 * (1. - 1e-6) && v <= b.1 * (1. + 1e-6) };
        for i in 0..dim { match &tuning {
            ThetaTuning::Fixed(_) => { c.check(th[i] == full[i], "G03/fixed", &inp, || format!("theta[{i}]={} given {}", th[i], full[i])); }
            ThetaTuning::Full { .. } => { c.check(inside(i, th[i]), "G03/full-bounds", &inp, || format!("theta[{i}]={}", th[i])); }
            ThetaTuning::Partial { active, .. } => if active.contains(&i) { c.check(inside(i, th[i]), "G03/partial-bounds", &inp, || format!("theta[{i}]={} (active)", th[i])); } else { c.check(th[i] == full[i], "G03/partial-frozen", &inp, || format!("theta[{i}]={} initial {}", th[i], full[i])); },
        } }
    }
}

pub fn l01(c: &mut Ctx) {
    for it in 0..c.n(80) {
        if c.over() { break; }
        let kind = it % 4;
        let nx = c.u(1, 3);
        let n = c.u(6, 14);
        let x = table(c, n, nx);
        let sc: Vec<f64> = (0..nx).map(|j| { let col = x.column(j); col.fold(f64::NEG_INFINITY, |a, b| a.max(*b)) - col.fold(f64::INFINITY, |a, b| a.min(*b)) }).collect();
        let y = Array1::from_shape_fn(n, |i| 2. + (0..nx).map(|j| (x[[i, j]] / sc[j] * 3. + j as f64).sin()).sum::<f64>());
        let th = Array1::from_shape_fn(nx, |j| c.f(1., 4.) / sc[j]);
        let m = c.u(1, 6);
        let vfe = c.b(0.5);
        let noise = [1e-3, 1e-2, 0.3][c.u(0, 2)];
        let located = c.b(0.4);
        let seed = c.u(0, 1000) as u64;
        let z = Array2::from_shape_fn((m, nx), |(i, j)| x[[i.min(n - 1), j]]);
        let q = Array2::from_shape_fn((3, nx), |(_, j)| { let i = c.u(0, n - 1); x[[i, j]] + c.f(-0.3, 0.3) * sc[j] });
        let mut nreq = m; if !located && c.b(0.2) { nreq = n + 3; }
        let ind = if located { Inducings::Located(z.clone()) } else { Inducings::Randomized(nreq) };
        let inp = c.case("sgp", format!("{} {} theta={th:?} noise={noise} inducings={ind:?} seed={seed} x={x:?} y={y:?} at {q:?}", CORR[kind], if vfe { "VFE" } else { "FITC" }));
        let (x1, y1, th1) = (x.clone(), y.clone(), th.clone());
        let q1 = q.clone();
        let r = with_corr!(kind, co, c.guard("L01/fit", &inp, move || SgpParams::<f64, _>::new(co, ind).sparse_method(if vfe { SparseMethod::Vfe } else { SparseMethod::Fitc }).theta_tuning(ThetaTuning::Fixed(th1)).noise_variance(ParamTuning::Fixed(noise)).seed(Some(seed)).n_start(2).fit(&Dataset::new(x1, y1)).ok().map(|g| (g.theta().to_owned(), g.variance(), g.noise_variance(), g.inducings().to_owned(), g.predict(&q1).unwrap(), g.predict_var(&q1).unwrap()))));
        let Some(Some((gth, s2, nz, z1, p, v))) = r else { continue };
        c.check((0..nx).all(|j| (gth[j] - th[j]).abs() <= 1e-9 * th[j]), "L01/theta", &inp, || format!("{gth:?}"));
        c.check(nz == noise, "L01/noise", &inp, || format!("{nz}"));
        if located { c.check(z1 == z, "L01/located", &inp, || format!("{z1:?}")); }
        else {
            c.check(z1.nrows() <= nreq.min(n) && z1.ncols() == nx, "L01/inducing-count", &inp, || format!("{} inducing points", z1.nrows()));
            let idx: Vec<Option<usize>> = z1.rows().into_iter().map(|r| (0..n).find(|i| x.row(*i) == r)).collect();
            c.check(idx.iter().all(|i| i.is_some()), "L01/inducing-rows", &inp, || format!("{z1:?}"));
            let mut u = idx.clone(); u.sort(); u.dedup();
            c.check(u.len() == idx.len(), "L01/inducing-distinct", &inp, || format!("{idx:?}"));
        }
        // reference equations
        let w = Array2::eye(nx);
        let k = |a: &[f64], b: &[f64]| { let d: Vec<f64> = (0..nx).map(|j| a[j] - b[j]).collect(); s2 * kernel(kind, &d, gth.as_slice().unwrap(), &w) };
        let mz = z1.nrows();
        let row = |a: &Array2<f64>, i: usize| a.row(i).to_vec();
        let nugget = 100. * f64::EPSILON;
        let kmm = Array2::from_shape_fn((mz, mz), |(a, b)| k(&row(&z1, a), &row(&z1, b)) + if a == b { nugget } else { 0. });
        let kmn = Array2::from_shape_fn((mz, n), |(a, b)| k(&row(&z1, a), &row(&x, b)));
        let Some(l) = chol(&kmm) else { continue };
        if l.diag().iter().any(|d| *d < 1e-2 * s2.sqrt()) { continue; }
        let kin = spd_solve(&l, &kmn);
        let lam = Array1::from_shape_fn(n, |i| if vfe { noise.max(nugget) } else { s2 - kmn.column(i).dot(&kin.column(i)) + noise });
        let s = &kmm + &Array2::from_shape_fn((mz, mz), |(a, b)| (0..n).map(|i| kmn[[a, i]] * kmn[[b, i]] / lam[i]).sum::<f64>());
        let Some(ls) = chol(&s) else { continue };
        let rhs = Array2::from_shape_fn((mz, 1), |(a, _)| (0..n).map(|i| kmn[[a, i]] * y[i] / lam[i]).sum::<f64>());
        let al = spd_solve(&ls, &rhs);
        let ys = y.iter().fold(0f64, |a, b| a.max(b.abs()));
        for i in 0..q.nrows() {
            let ks = Array2::from_shape_fn((mz, 1), |(a, _)| k(&row(&z1, a), &row(&q, i)));
            let m = ks.t().dot(&al)[[0, 0]];
            let var = s2 - ks.t().dot(&(spd_solve(&l, &ks) - spd_solve(&ls, &ks)))[[0, 0]];
            let var = var.max(1e-15) + noise;
            c.check((p[i] - m).abs() <= 1e-5 * (ys + m.abs()), "L01/mean", &inp, || format!("row {i}: {} expected {m} (sigma2 {s2})", p[i]));
            c.check((v[i] - var).abs() <= 1e-5 * (s2 + noise), "L01/variance", &inp, || format!("row {i}: {} expected {var}", v[i]));
            c.check(v[i] > 0. && v[i] >= noise * (1. - 1e-12), "L01/variance-floor", &inp, || format!("{}", v[i]));
        }
    }
}

pub fn q01(c: &mut Ctx) {
    for it in 0..c.n(24) {
        if c.over() { break; }
        let k = gp_case(c, it);
        let n = k.x.nrows();
        let kf = if it % 3 == 0 { n } else { c.u(2, n.min(6)) };
        let inp = c.case("q2", format!("kfold {kf} {}", k.inp));
        let sz = n / kf;
        // contiguous folds of floor(n / kfold) rows, the held-out rows predicted by a model fitted on the others
        let r = with_corr!(k.kind, co, { let (x, y, th) = (k.x.clone(), k.y.clone(), k.th.clone()); let p = GpParams::<f64, _, _>::new(ConstantMean(), co).theta_tuning(ThetaTuning::Fixed(th)); c.guard("Q01/q2", &inp, move || {
            let g = p.clone().fit(&Dataset::new(x.clone(), y.clone())).ok()?;
            let q = if kf == n { g.looq2_score() } else { g.q2_score(kf) };
            let (mut press, mut tss) = (0., 0.);
            let ym = y.mean().unwrap();
            for f in 0..kf {
                let held: Vec<usize> = (0..n).filter(|i| *i >= f * sz && *i < (f + 1) * sz).collect();
                let rest: Vec<usize> = (0..n).filter(|i| !held.contains(i)).collect();
                let m = p.clone().fit(&Dataset::new(x.select(Axis(0), &rest), y.select(Axis(0), &rest))).ok()?;
                let pr = m.predict(&x.select(Axis(0), &held)).unwrap();
                for (a, i) in held.iter().enumerate() { press += (y[*i] - pr[a]).powi(2); tss += (y[*i] - ym).powi(2); }
            }
            Some((q, 1. - press / tss))
        }) });
        if let Some(Some((q, e))) = r { c.close(q, e, 1e-6, "Q01/q2", &inp); }
    }
    let _ = Array::<f64, _>::zeros(1);
}
