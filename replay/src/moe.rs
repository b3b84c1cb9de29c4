use crate::ctx::*;
use crate::gp::*;
use egobox_gp::{GpParams, ThetaTuning, correlation_models::*, mean_models::*};
use egobox_moe::*;
use linfa::prelude::*;
use ndarray::{Array1, Array2, Array3, Axis, s};

/// One expert with a given trend and kernel
fn expert(kind: usize, mean: usize, th: &Array1<f64>, x: &Array2<f64>, y: &Array1<f64>) -> Option<Box<dyn FullGpSurrogate>> {
    let t = ThetaTuning::Fixed(th.clone());
    let y = y.clone().insert_axis(Axis(1));
    macro_rules! mk { ($p:ident, $m:expr, $c:expr) => { $p::new(GpParams::new($m, $c).theta_tuning(t)).train(&x.view(), &y.view()).ok() } }
    match (mean, kind) {
        (0, 0) => mk!(GpConstantSquaredExponentialSurrogateParams, ConstantMean(), SquaredExponentialCorr()),
        (0, 1) => mk!(GpConstantAbsoluteExponentialSurrogateParams, ConstantMean(), AbsoluteExponentialCorr()),
        (0, 2) => mk!(GpConstantMatern32SurrogateParams, ConstantMean(), Matern32Corr()),
        (0, _) => mk!(GpConstantMatern52SurrogateParams, ConstantMean(), Matern52Corr()),
        (1, 0) => mk!(GpLinearSquaredExponentialSurrogateParams, LinearMean(), SquaredExponentialCorr()),
        (1, 1) => mk!(GpLinearAbsoluteExponentialSurrogateParams, LinearMean(), AbsoluteExponentialCorr()),
        (1, 2) => mk!(GpLinearMatern32SurrogateParams, LinearMean(), Matern32Corr()),
        (1, _) => mk!(GpLinearMatern52SurrogateParams, LinearMean(), Matern52Corr()),
        (_, 0) => mk!(GpQuadraticSquaredExponentialSurrogateParams, QuadraticMean(), SquaredExponentialCorr()),
        (_, 1) => mk!(GpQuadraticAbsoluteExponentialSurrogateParams, QuadraticMean(), AbsoluteExponentialCorr()),
        (_, 2) => mk!(GpQuadraticMatern32SurrogateParams, QuadraticMean(), Matern32Corr()),
        (_, _) => mk!(GpQuadraticMatern52SurrogateParams, QuadraticMean(), Matern52Corr()),
    }
}

struct Mix { m: GpMixture, w: Array1<f64>, mu: Array2<f64>, cov: Array3<f64>, nx: usize, k: usize, hard: bool, inp: String, kinds: Vec<(usize, usize)>, x: Array2<f64> }

fn mixture(c: &mut Ctx, it: usize) -> Option<Mix> {
    let nx = c.u(1, 3);
    let k = [1, 2, 3, 4][c.u(0, 3)];
    let hard = it % 2 == 1;
    let mut experts = vec![]; let mut kinds = vec![]; let mut desc = vec![];
    let mut x0 = None;
    for _ in 0..k {
        let mean = c.u(0, 2); let kind = c.u(0, 3);
        let n = (nx + 1) * (nx + 2) / 2 + c.u(3, 6);
        let x = Array2::from_shape_fn((n, nx), |(i, _)| (i as f64 + c.f(0., 0.8)) / n as f64 * 2. - 1.);
        let mut x = x;
        for j in 1..nx { for i in (1..n).rev() { let r = c.u(0, i); x.swap([i, j], [r, j]); } }
        let (a, b, d) = (c.f(-2., 2.), c.f(-3., 3.), c.f(0.5, 3.));
        let y = x.map_axis(Axis(1), |r| a + r.iter().enumerate().map(|(j, v)| b * v + (d * v * (j + 1) as f64).sin()).sum::<f64>());
        let th = Array1::from_shape_fn(nx, |_| c.f(0.3, 2.));
        desc.push(format!("{} {} n={n} theta={th}", MEAN[mean], CORR[kind]));
        experts.push(expert(kind, mean, &th, &x, &y)?); kinds.push((kind, mean));
        if x0.is_none() { x0 = Some((x, y)); }
    }
    let (x, y) = x0?;
    let mut w = Array1::from_shape_fn(k, |_| c.f(0.1, 1.)); let sw = w.sum(); w /= sw;
    let mu = Array2::from_shape_fn((k, nx), |_| c.f(-1., 1.));
    let mut cov = Array3::zeros((k, nx, nx));
    for q in 0..k {
        let a = Array2::from_shape_fn((nx, nx), |_| c.f(-0.6, 0.6));
        let m = a.dot(&a.t()) + Array2::<f64>::eye(nx) * c.f(0.05, 0.6);
        cov.slice_mut(s![q, .., ..]).assign(&m);
    }
    let base = GpMixture::params().n_clusters(NbClusters::fixed(1)).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL)
        .theta_tunings(&[ThetaTuning::Fixed(Array1::from_elem(nx, 1.))]).fit(&Dataset::new(x.clone(), y)).ok()?;
    let m = base.set_gmx(w.clone(), mu.clone(), cov.clone()).set_experts(experts).set_recombination(if hard { Recombination::Hard } else { Recombination::Smooth(Some(1.)) });
    let inp = format!("k={k} nx={nx} {} weights={w} means={mu:?} covs={cov:?} experts={desc:?}", if hard { "hard" } else { "smooth" });
    Some(Mix { m, w, mu, cov, nx, k, hard, inp, kinds, x })
}

/// log of w_k N(x; mu_k, f cov_k) up to a constant
fn logw(w: &Array1<f64>, mu: &Array2<f64>, cov: &Array3<f64>, f: f64, x: &[f64]) -> Vec<f64> {
    let nx = mu.ncols();
    (0..w.len()).map(|k| {
        let l = chol(&(&cov.slice(s![k, .., ..]).to_owned() * f)).unwrap();
        let d = Array2::from_shape_fn((nx, 1), |(j, _)| x[j] - mu[[k, j]]);
        let q = (d.t().dot(&spd_solve(&l, &d)))[[0, 0]];
        w[k].ln() - 0.5 * q - (0..nx).map(|i| l[[i, i]].ln()).sum::<f64>()
    }).collect()
}
fn probas(w: &Array1<f64>, mu: &Array2<f64>, cov: &Array3<f64>, f: f64, x: &[f64]) -> Vec<f64> {
    let l = logw(w, mu, cov, f, x);
    let m = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let e: Vec<f64> = l.iter().map(|v| (v - m).exp()).collect(); let s: f64 = e.iter().sum();
    e.iter().map(|v| v / s).collect()
}

fn points(c: &mut Ctx, nx: usize, far: bool) -> Array2<f64> {
    let n = c.u(1, 5);
    Array2::from_shape_fn((n, nx), |_| if far && c.b(0.3) { c.f(-60., 60.) } else { c.f(-1.5, 1.5) })
}

pub fn run(pid: &str, c: &mut Ctx) { match pid { "X01" => x01(c), "X02" => x02(c), _ => x03(c) } }

fn x01(c: &mut Ctx) {
    // memberships, with the smoothness factor
    for _ in 0..c.n(150) {
        if c.over() { break; }
        let (k, nx) = (c.u(1, 4), c.u(1, 3));
        let mut w = Array1::from_shape_fn(k, |_| c.f(0.05, 1.)); let sw = w.sum(); w /= sw;
        let mu = Array2::from_shape_fn((k, nx), |_| c.f(-2., 2.));
        let mut cov = Array3::zeros((k, nx, nx));
        for q in 0..k { let a = Array2::from_shape_fn((nx, nx), |_| c.f(-0.6, 0.6)); let m = a.dot(&a.t()) + Array2::<f64>::eye(nx) * c.f(0.02, 0.6); cov.slice_mut(s![q, .., ..]).assign(&m); }
        let f = if c.b(0.3) { 1. } else { c.f(0.1, 2.1) };
        let x = points(c, nx, true);
        let inp = c.case("memberships", format!("factor={f} weights={w} means={mu:?} covs={cov:?} x={x:?}"));
        let Some(Ok(g)) = c.guard("X01/gmx", &inp, || GaussianMixture::new(w.clone(), mu.clone(), cov.clone()).map(|g| g.heaviside_factor(f))) else { continue };
        let Some(p) = c.guard("X01/memberships", &inp, || g.predict_probas(&x)) else { continue };
        let Some(h) = c.guard("X01/labels", &inp, || g.predict(&x)) else { continue };
        if !c.check(p.dim() == (x.nrows(), k), "X01/shape", &inp, || format!("{:?}", p.dim())) { continue; }
        for i in 0..x.nrows() {
            let e = probas(&w, &mu, &cov, f, x.row(i).as_slice().unwrap());
            let s = p.row(i).sum();
            c.check((s - 1.).abs() < 1e-9, "X01/sum", &inp, || format!("memberships of row {i} sum to {s}"));
            c.check(p.row(i).iter().all(|v| (0. ..=1. + 1e-12).contains(v)), "X01/range", &inp, || format!("{}", p.row(i)));
            for q in 0..k { c.close(p[[i, q]], e[q], 1e-7, "X01/membership", &inp); }
            let mx = e.iter().cloned().fold(0., f64::max);
            c.check(e[h[i]] >= mx - 1e-7, "X01/label", &inp, || format!("row {i} labelled {} with memberships {e:?}", h[i]));
        }
    }
    for it in 0..c.n(60) {
        if c.over() { break; }
        let Some(mx) = mixture(c, it) else { continue };
        let x = points(c, mx.nx, false);
        let inp = c.case(if mx.hard { "hard" } else { "smooth" }, format!("{} x={x:?}", mx.inp));
        let m = &mx.m;
        let Some((a, b, jt)) = c.guard("X01/predict", &inp, || (m.predict(&x).unwrap(), m.predict_var(&x).unwrap(), m.predict_valvar(&x).unwrap())) else { continue };
        for i in 0..x.nrows() {
            let xi = x.slice(s![i..i + 1, ..]).to_owned();
            let (mut e, mut v) = (0., 0.);
            let ps: Vec<(f64, f64)> = m.experts().iter().map(|g| (g.predict(&xi.view()).unwrap()[0], g.predict_var(&xi.view()).unwrap()[0])).collect();
            if mx.k == 1 { e = ps[0].0; v = ps[0].1; }
            else {
                let p = probas(&mx.w, &mx.mu, &mx.cov, 1., x.row(i).as_slice().unwrap());
                if mx.hard {
                    let mut o: Vec<usize> = (0..mx.k).collect(); o.sort_by(|a, b| p[*b].partial_cmp(&p[*a]).unwrap());
                    if p[o[0]] - p[o[1]] < 1e-9 { continue; }
                    e = ps[o[0]].0; v = ps[o[0]].1;
                } else { for q in 0..mx.k { e += p[q] * ps[q].0; v += p[q] * p[q] * ps[q].1; } }
            }
            c.close(a[i], e, 1e-7, if mx.hard { "X01/hard-mean" } else { "X01/smooth-mean" }, &inp);
            c.close(b[i], v, 1e-7, if mx.hard { "X01/hard-variance" } else { "X01/smooth-variance" }, &inp);
            c.close(jt.0[i], a[i], 1e-9, "X01/joint-mean", &inp);
            c.close(jt.1[i], b[i], 1e-9, "X01/joint-variance", &inp);
        }
    }
    // trained mixtures
    for it in 0..c.n(6) {
        if c.over() { break; }
        let nx = 1 + it % 2; let n = 36;
        let x = Array2::from_shape_fn((n, nx), |(i, j)| if j == 0 { (i as f64 + c.f(0., 0.7)) / n as f64 * 10. } else { c.f(0., 10.) });
        let y = x.map_axis(Axis(1), |r| if r[0] < 5. { r.sum() } else { 30. - 2. * r.sum() });
        let nb = 1 + it % 3;
        let hard = it % 2 == 0;
        let rec = if hard { Recombination::Hard } else { Recombination::Smooth(Some(1.)) };
        let inp = c.case("trained", format!("nb={nb} {rec:?} x={x:?}"));
        let Some(Ok(m)) = c.guard("X01/fit", &inp, || GpMixture::params().n_clusters(NbClusters::fixed(nb)).recombination(rec).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL).n_start(2).fit(&Dataset::new(x.clone(), y.clone()))) else { continue };
        let xt = Array2::from_shape_fn((9, nx), |_| c.f(0., 10.));
        let Some((a, b)) = c.guard("X01/predict", &inp, || m.predict_valvar(&xt).unwrap()) else { continue };
        let p = m.gmx().predict_probas(&xt);
        for i in 0..9 {
            let xi = xt.slice(s![i..i + 1, ..]).to_owned();
            let ps: Vec<(f64, f64)> = m.experts().iter().map(|g| (g.predict(&xi.view()).unwrap()[0], g.predict_var(&xi.view()).unwrap()[0])).collect();
            let (e, v) = if hard && ps.len() > 1 {
                let q = (0..ps.len()).fold(0, |b, q| if p[[i, q]] > p[[i, b]] { q } else { b }); ps[q]
            } else { ps.iter().enumerate().fold((0., 0.), |t, (q, z)| (t.0 + p[[i, q]] * z.0, t.1 + p[[i, q]] * p[[i, q]] * z.1)) };
            c.close(a[i], e, 1e-8, "X01/trained-mean", &inp);
            c.close(b[i], v, 1e-8, "X01/trained-variance", &inp);
        }
    }
}

fn x02(c: &mut Ctx) {
    // membership derivatives
    for _ in 0..c.n(80) {
        if c.over() { break; }
        let (k, nx) = (c.u(1, 4), c.u(1, 4));
        let mut w = Array1::from_shape_fn(k, |_| c.f(0.05, 1.)); let sw = w.sum(); w /= sw;
        let mu = Array2::from_shape_fn((k, nx), |_| c.f(-1., 1.));
        let mut cov = Array3::zeros((k, nx, nx));
        for q in 0..k { let a = Array2::from_shape_fn((nx, nx), |_| c.f(-0.6, 0.6)); let m = a.dot(&a.t()) + Array2::<f64>::eye(nx) * c.f(0.1, 0.6); cov.slice_mut(s![q, .., ..]).assign(&m); }
        let f = if c.b(0.3) { 1. } else { c.f(0.2, 2.1) };
        let x = points(c, nx, false);
        let inp = c.case("membership-derivatives", format!("factor={f} weights={w} means={mu:?} covs={cov:?} x={x:?}"));
        let Some(Ok(g)) = c.guard("X02/gmx", &inp, || GaussianMixture::new(w.clone(), mu.clone(), cov.clone()).map(|g| g.heaviside_factor(f))) else { continue };
        let Some(d) = c.guard("X02/derivatives", &inp, || g.predict_probas_derivatives(&x)) else { continue };
        if !c.check(d.dim() == (x.nrows(), k, nx), "X02/shape", &inp, || format!("{:?}", d.dim())) { continue; }
        for i in 0..x.nrows() { for j in 0..nx {
            let h = 1e-5; let mut r = x.row(i).to_vec(); r[j] += h; let a = probas(&w, &mu, &cov, f, &r); r[j] -= 2. * h; let b = probas(&w, &mu, &cov, f, &r);
            for q in 0..k { c.close(d[[i, q, j]], if k == 1 { 0. } else { (a[q] - b[q]) / (2. * h) }, 1e-4, "X02/membership-derivative", &inp); }
        } }
    }
    for it in 0..c.n(60) {
        if c.over() { break; }
        let Some(mx) = mixture(c, it) else { continue };
        let x = points(c, mx.nx, false);
        let inp = c.case(if mx.hard { "hard" } else { "smooth" }, format!("{} x={x:?}", mx.inp));
        let m = &mx.m;
        let Some((g, vg, jt)) = c.guard("X02/gradients", &inp, || (m.predict_gradients(&x).unwrap(), m.predict_var_gradients(&x).unwrap(), m.predict_valvar_gradients(&x).unwrap())) else { continue };
        if !c.check(g.dim() == x.dim() && vg.dim() == x.dim(), "X02/shape", &inp, || format!("{:?}", g.dim())) { continue; }
        for i in 0..x.nrows() {
            let xi = x.slice(s![i..i + 1, ..]).to_owned();
            let p = probas(&mx.w, &mx.mu, &mx.cov, 1., x.row(i).as_slice().unwrap());
            let mut o: Vec<usize> = (0..mx.k).collect(); o.sort_by(|a, b| p[*b].partial_cmp(&p[*a]).unwrap());
            if mx.hard && mx.k > 1 && p[o[0]] - p[o[1]] < 1e-6 { continue; }
            for j in 0..mx.nx {
                c.close(jt.0[[i, j]], g[[i, j]], 1e-8, "X02/joint-mean", &inp);
                c.close(jt.1[[i, j]], vg[[i, j]], 1e-8, "X02/joint-variance", &inp);
            }
            let eg: Vec<(Array2<f64>, Array2<f64>, f64, f64)> = m.experts().iter().map(|e| (e.predict_gradients(&xi.view()).unwrap(), e.predict_var_gradients(&xi.view()).unwrap(), e.predict(&xi.view()).unwrap()[0], e.predict_var(&xi.view()).unwrap()[0])).collect();
            for j in 0..mx.nx {
                let h = 1e-6; let mut r = x.row(i).to_vec(); r[j] += h; let a = probas(&mx.w, &mx.mu, &mx.cov, 1., &r); r[j] -= 2. * h; let b = probas(&mx.w, &mx.mu, &mx.cov, 1., &r);
                let (mut e, mut v) = (0., 0.);
                if mx.k == 1 { e = eg[0].0[[0, j]]; v = eg[0].1[[0, j]]; }
                else if mx.hard { e = eg[o[0]].0[[0, j]]; v = eg[o[0]].1[[0, j]]; }
                else { for q in 0..mx.k { let dp = (a[q] - b[q]) / (2. * h); e += p[q] * eg[q].0[[0, j]] + dp * eg[q].2; v += p[q] * p[q] * eg[q].1[[0, j]] + 2. * p[q] * dp * eg[q].3; } }
                c.close(g[[i, j]], e, 1e-5, if mx.hard { "X02/hard-mean" } else { "X02/smooth-mean" }, &inp);
                c.close(vg[[i, j]], v, 1e-5, if mx.hard { "X02/hard-variance" } else { "X02/smooth-variance" }, &inp);
                // against the predictions themselves, away from kernel kinks
                if mx.kinds.iter().all(|k| k.0 != 1) && (0..mx.x.nrows()).all(|t| (0..mx.nx).all(|u| (mx.x[[t, u]] - x[[i, u]]).abs() > 1e-3)) {
                    let h = 1e-5; let mut xp = xi.clone(); xp[[0, j]] += h; let mut xm = xi.clone(); xm[[0, j]] -= h;
                    if mx.hard && mx.k > 1 { let lp = m.gmx().predict(&xp)[0]; let lm = m.gmx().predict(&xm)[0]; if lp != lm { continue; } }
                    let (ap, bp) = m.predict_valvar(&xp).unwrap(); let (am, bm) = m.predict_valvar(&xm).unwrap();
                    let sc = 1. + eg.iter().map(|e| e.2.abs()).fold(0., f64::max);
                    c.check(((ap[0] - am[0]) / (2. * h) - g[[i, j]]).abs() < 2e-3 * sc * (1. + g[[i, j]].abs()), "X02/mean-difference", &inp, || format!("row {i} component {j}: gradient {} difference {}", g[[i, j]], (ap[0] - am[0]) / (2. * h)));
                    let sv = 1. + eg.iter().map(|e| e.3.abs()).fold(0., f64::max);
                    c.check(((bp[0] - bm[0]) / (2. * h) - vg[[i, j]]).abs() < 5e-3 * sv * (1. + vg[[i, j]].abs()), "X02/variance-difference", &inp, || format!("row {i} component {j}: gradient {} difference {}", vg[[i, j]], (bp[0] - bm[0]) / (2. * h)));
                }
            }
        }
    }
}

fn x03(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    {
        use egobox_moe::vp_hooks as h;
        for _ in 0..c.n(200) {
            let (k, n, d) = (c.u(1, 5), c.u(0, 14), c.u(1, 4));
            let data = Array2::from_shape_fn((n, d), |_| c.f(-9., 9.));
            let lab = Array1::from_shape_fn(n, |_| c.u(0, k - 1));
            let inp = c.case("split", format!("k={k} labels={lab} data={data:?}"));
            let Some(r) = c.guard("X03/split", &inp, || h::sort_by_cluster(k, &data, &lab)) else { continue };
            if !c.check(r.len() == k, "X03/count", &inp, || format!("{}", r.len())) { continue; }
            for q in 0..k {
                let rows: Vec<usize> = (0..n).filter(|i| lab[*i] == q).collect();
                c.check(r[q] == data.select(Axis(0), &rows), "X03/rows", &inp, || format!("cluster {q} is {:?}, expected rows {rows:?}", r[q]));
            }
        }
        for _ in 0..c.n(200) {
            let (n, d, q) = (c.u(1, 60), c.u(1, 3), c.u(2, 9));
            let data = Array2::from_shape_fn((n, d), |_| c.f(-9., 9.));
            let inp = c.case("hold-out", format!("q={q} n={n} data={data:?}"));
            let Some((te, tr)) = c.guard("X03/hold-out", &inp, || h::extract_part(&data, q)) else { continue };
            let (a, b): (Vec<usize>, Vec<usize>) = (0..n).partition(|i| i % q == 0);
            c.check(te.nrows() + tr.nrows() == n, "X03/hold-out-cover", &inp, || format!("{} + {} rows", te.nrows(), tr.nrows()));
            let mut all: Vec<Vec<u64>> = te.rows().into_iter().chain(tr.rows()).map(|r| r.iter().map(|v| v.to_bits()).collect()).collect(); all.sort();
            let mut exp: Vec<Vec<u64>> = data.rows().into_iter().map(|r| r.iter().map(|v| v.to_bits()).collect()).collect(); exp.sort();
            c.check(all == exp, "X03/hold-out-partition", &inp, || format!("held out {te:?} kept {tr:?}"));
            let _ = (a, b);
        }
        for _ in 0..c.n(200) {
            let (k, d) = (c.u(1, 4), c.u(1, 4));
            let sizes: Vec<usize> = (0..k).map(|_| c.u(0, (d + 1) * (d + 2) / 2 + 2)).collect();
            let reg = [RegressionSpec::CONSTANT, RegressionSpec::LINEAR, RegressionSpec::QUADRATIC, RegressionSpec::ALL][c.u(0, 3)];
            let cl: Vec<Array2<f64>> = sizes.iter().map(|n| Array2::zeros((*n, d + 1))).collect();
            let inp = c.case("sizes", format!("sizes={sizes:?} d={d} {reg:?}"));
            let min = if reg.contains(RegressionSpec::QUADRATIC) { (d + 1) * (d + 2) / 2 } else if reg.contains(RegressionSpec::LINEAR) { d + 1 } else { 1 };
            let Some(r) = c.guard("X03/sizes", &inp, || h::check_number_of_points(&cl, d, reg).is_ok()) else { continue };
            let e = k == 1 || sizes.iter().all(|s| *s >= min);
            c.check(r == e, "X03/minimum", &inp, || format!("accepted {r}, at least {min} rows needed"));
        }
    }
    // every training row reaches the expert of its label
    for it in 0..c.n(20) {
        if c.over() { break; }
        let (nx, k) = (c.u(1, 2), 2 + it % 2);
        let n = 10 * k + c.u(0, 6);
        let x = Array2::from_shape_fn((n, nx), |(i, j)| if j == 0 { (i as f64 + c.f(0.1, 0.6)) / n as f64 * 6. } else { c.f(0., 1.) });
        let y = x.map_axis(Axis(1), |r| (r[0] * 1.3).sin() + r.sum());
        let mu = Array2::from_shape_fn((k, nx), |(q, j)| if j == 0 { (q as f64 + 0.5) * 6. / k as f64 } else { 0.5 });
        let mut cov = Array3::zeros((k, nx, nx)); for q in 0..k { for j in 0..nx { cov[[q, j, j]] = 0.4; } }
        let w = Array1::from_elem(k, 1. / k as f64);
        let g = GaussianMixture::new(w, mu, cov).unwrap();
        let lab = g.predict(&x);
        let inp = c.case("train-on-clusters", format!("k={k} x={x:?}"));
        let th = Array1::from_elem(nx, 1.5);
        let cl = Clustering::new(g, Recombination::Hard);
        let (x2, y2, th2) = (x.clone(), y.clone(), th.clone());
        let Some(Ok(m)) = c.guard("X03/train", &inp, move || GpMixture::params().n_clusters(NbClusters::fixed(k)).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::MATERN32).theta_tunings(&vec![ThetaTuning::Fixed(th2); k]).check().unwrap().train_on_clusters(&x2, &y2, &cl)) else { continue };
        for q in 0..k {
            let rows: Vec<usize> = (0..n).filter(|i| lab[*i] == q).collect();
            let Some(e) = expert(2, 0, &th, &x.select(Axis(0), &rows), &y.select(Axis(0), &rows)) else { continue };
            let xt = points(c, nx, false);
            let (a, b) = (m.experts()[q].predict(&xt.view()).unwrap(), e.predict(&xt.view()).unwrap());
            for i in 0..xt.nrows() { c.close(a[i], b[i], 1e-7, "X03/expert-data", &inp); }
        }
    }
}

fn ppf(p: f64) -> f64 {
    let (mut a, mut b) = (-40., 40.);
    for _ in 0..200 { let m = 0.5 * (a + b); if 0.5 * libm::erfc(-m / 2f64.sqrt()) < p { a = m } else { b = m } }
    0.5 * (a + b)
}

pub fn q01(c: &mut Ctx) {
    for it in 0..c.n(24) {
        if c.over() { break; }
        let (nx, n) = (c.u(1, 2), c.u(8, 14));
        let x = Array2::from_shape_fn((n, nx), |(i, j)| if j == 0 { ((i * 5 % n) as f64 + c.f(0., 0.7)) / n as f64 } else { c.f(0., 1.) });
        let y = x.map_axis(Axis(1), |r| (7. * r[0]).sin() + 2. * r.sum()) + Array1::from_shape_fn(n, |_| c.f(-0.4, 0.4));
        let th = Array1::from_shape_fn(nx, |_| c.f(0.5, 3.));
        let kf = if it % 3 == 0 { n } else { c.u(2, 5) };
        let sz = n / kf;
        let inp = c.case("mixture-metrics", format!("kfold {kf} theta {th} x={x:?} y={y}"));
        let par = GpMixture::params().n_clusters(NbClusters::fixed(1)).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::MATERN52).theta_tunings(&[ThetaTuning::Fixed(th.clone())]);
        let Some(Ok(m)) = c.guard("Q01/fit", &inp, || par.clone().fit(&Dataset::new(x.clone(), y.clone()))) else { continue };
        let Some(r) = c.guard("Q01/mixture", &inp, || {
            let s = |g| GpQualityAssurance::score(&m, g, kf);
            let p = s(GpMetric::IAEAlphaWithPlot);
            let loo = if kf == n { Some((GpQualityAssurance::q2(&m), GpQualityAssurance::pva(&m), GpQualityAssurance::iae_alpha(&m))) } else { None };
            (s(GpMetric::Q2).value, s(GpMetric::Pva).value, s(GpMetric::IAEAlpha).value, p.value, p.plot_data, loo)
        }) else { continue };
        let al: Vec<f64> = (0..20).map(|i| 0.02 + 0.96 * i as f64 / 19.).collect();
        let (mut press, mut tss, mut pva, mut np, mut iae) = (0., 0., 0., 0, 0.);
        let mut dl = vec![0.; 20];
        let ym = y.mean().unwrap();
        let mut margin = f64::INFINITY;
        let mut okf = true;
        for f in 0..kf {
            let held: Vec<usize> = (0..n).filter(|i| *i >= f * sz && *i < (f + 1) * sz).collect();
            let rest: Vec<usize> = (0..n).filter(|i| !held.contains(i)).collect();
            let Some(e) = expert(3, 0, &th, &x.select(Axis(0), &rest), &y.select(Axis(0), &rest)) else { okf = false; break };
            let xh = x.select(Axis(0), &held);
            let (p, v) = (e.predict(&xh.view()).unwrap(), e.predict_var(&xh.view()).unwrap());
            for (a, i) in held.iter().enumerate() { press += (y[*i] - p[a]).powi(2); tss += (y[*i] - ym).powi(2); pva += (y[*i] - p[a]).powi(2) / v[a]; np += 1; }
            let mut s = 0.;
            for (t, a) in al.iter().enumerate() {
                let q = ppf(1. - a / 2.);
                let cov = held.iter().enumerate().filter(|(b, i)| { let o = v[*b].sqrt() * q; let z = y[**i] - p[*b]; margin = margin.min((z.abs() - o).abs()); z.abs() <= o }).count() as f64 / held.len() as f64;
                s += (cov - (1. - a)).abs(); dl[t] += cov / kf as f64;
            }
            iae += s / 20. / kf as f64;
        }
        if !okf { continue; }
        c.close(r.0, 1. - press / tss, 1e-6, "Q01/mixture-q2", &inp);
        c.close(r.1, (pva / np as f64).ln().abs(), 1e-6, "Q01/mixture-pva", &inp);
        if margin > 1e-7 {
            c.close(r.2, iae, 1e-8, "Q01/mixture-iae", &inp);
            c.close(r.3, iae, 1e-8, "Q01/mixture-iae-plot", &inp);
            if let Some(pd) = &r.4 { for t in 0..20 { c.close(pd.alphas[t], al[t], 1e-9, "Q01/plot-alpha", &inp); c.close(pd.deltas[t], dl[t], 1e-8, "Q01/plot-coverage", &inp); } }
        }
        if let Some((q, p, i)) = r.5 { c.close(q, r.0, 1e-12, "Q01/loo-q2", &inp); c.close(p, r.1, 1e-12, "Q01/loo-pva", &inp); c.close(i, r.2, 1e-12, "Q01/loo-iae", &inp); }
    }
}
