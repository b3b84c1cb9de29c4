use crate::ctx::*;
use argmin::core::{CostFunction, Problem, Solver, State};
use egobox_doe::{FullFactorial, Lhs, Random, SamplingMethod};
use egobox_ego::criteria::{EI, InfillCriterion, LOG_EI, WB2, WB2S};
use egobox_ego::gpmix::mixint::*;
use egobox_ego::*;
use egobox_moe::{GpMixture, GpMixtureParams, GpSurrogate, GpSurrogateExt, MixtureGpSurrogate, NbClusters, Recombination, ThetaTuning};
use linfa::prelude::*;
use ndarray::{Array1, Array2, ArrayView2, Axis, array, concatenate, s};
use std::sync::{Arc, Mutex};
#[cfg(feature = "hooks")]
use egobox_ego::vp_hooks as vp;

pub fn run(p: &str, c: &mut Ctx) {
    unsafe { std::env::set_var("EGOBOX_LOG", "off"); }
    match p {
        "M01" => m01(c), "M02" => m02(c), "B01" => b01(c), "H01" => h01(c), "S01" => s01(c), "T01" => t01(c), "C01" => c01(c),
        "I01" => i01(c), "I02" => i02(c), "F01" => f01(c), "P01" => p01(c), "V01" => v01(c), "U01" => u01(c), _ => {}
    }
}

// ---------------------------------------------------------------- mixed-integer spaces

fn xtypes(c: &mut Ctx, nmax: usize, safe: bool) -> Vec<XType> {
    let n = c.u(1, nmax);
    let mut seen = false;
    (0..n).map(|_| {
        let mut k = c.u(0, 3);
        if safe && seen { if k == 3 { k = 0; } }
        match k {
            0 => { let a = c.f(-4., 2.); XType::Float(a, a + c.f(0.5, 5.)) }
            1 => { let a = c.u(0, 8) as i32 - 5; XType::Int(a, a + c.u(1, 6) as i32) }
            2 => { let m = c.u(2, 4); let mut v: Vec<f64> = vec![]; while v.len() < m { let w = (c.u(0, 40) as f64 - 20.) / 4.; if !v.contains(&w) { v.push(w); } } XType::Ord(v) }
            _ => { seen = true; XType::Enum(c.u(2, 4)) }
        }
    }).collect()
}
fn widths(t: &[XType]) -> Vec<usize> { t.iter().map(|x| if let XType::Enum(v) = x { *v } else { 1 }).collect() }
fn admissible(c: &mut Ctx, t: &XType) -> f64 {
    match t { XType::Float(a, b) => c.f(*a, *b), XType::Int(a, b) => c.u(0, (b - a) as usize) as f64 + *a as f64, XType::Ord(v) => v[c.u(0, v.len() - 1)], XType::Enum(n) => c.u(0, n - 1) as f64 }
}
fn is_adm(t: &XType, v: f64) -> bool {
    match t { XType::Float(_, _) => true, XType::Int(a, b) => v.fract() == 0. && v >= *a as f64 && v <= *b as f64, XType::Ord(l) => l.contains(&v), XType::Enum(n) => v.fract() == 0. && v >= 0. && v < *n as f64 }
}
fn limits(t: &[XType]) -> Vec<(f64, f64)> {
    t.iter().flat_map(|x| match x {
        XType::Float(a, b) => vec![(*a, *b)], XType::Int(a, b) => vec![(*a as f64, *b as f64)],
        XType::Ord(v) => vec![(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))],
        XType::Enum(n) => vec![(0., 1.); *n],
    }).collect()
}
fn relaxed(c: &mut Ctx, t: &[XType], n: usize) -> Array2<f64> {
    let l = limits(t);
    Array2::from_shape_fn((n, l.len()), |(_, j)| { let (a, b) = l[j]; if c.b(0.1) { a } else if c.b(0.1) { b } else { c.f(a, b) } })
}
fn argmax(v: &[f64]) -> usize { let mut b = 0; for i in 1..v.len() { if v[i] > v[b] { b = i; } } b }

fn m01(c: &mut Ctx) {
    for _ in 0..c.n(300) {
        let t = xtypes(c, 6, false);
        let w = widths(&t); let n = c.u(1, 5);
        let inp = c.case("encode and decode", format!("types={t:?} n={n}"));
        let x = Array2::from_shape_fn((n, t.len()), |(_, j)| admissible(c, &t[j]));
        let l = as_continuous_limits::<f64>(&t); let el = limits(&t);
        c.check(l.nrows() == el.len() && el.iter().enumerate().all(|(i, e)| l[[i, 0]] == e.0 && l[[i, 1]] == e.1), "M01/limits", &inp, || format!("limits {l:?}"));
        let Some(e) = c.guard("M01/encode", &inp, || to_continuous_space(&t, &x)) else { continue };
        let exp = encode(&t, &x);
        if !c.check(e == exp, "M01/encode", &inp, || format!("encode {x:?} gives {e:?}")) { continue; }
        let Some(d) = c.guard("M01/decode", &inp, || to_discrete_space(&t, &e)) else { continue };
        cmp_fold(c, &t, &w, &e, &d, &x, "round trip", &inp);
        let r = relaxed(c, &t, n);
        #[cfg(feature = "hooks")]
        {
            let f = vp::fold_with_enum_index(&t, &r);
            let ex = Array2::from_shape_fn((n, t.len()), |(i, j)| { let o: usize = w[..j].iter().sum(); if let XType::Enum(v) = &t[j] { argmax(&r.slice(s![i, o..o + v]).to_vec()) as f64 } else { r[[i, o]] } });
            cmp_fold(c, &t, &w, &r, &f, &ex, "own columns", &inp);
        }
        let Some(d) = c.guard("M01/decode", &inp, || to_discrete_space(&t, &r)) else { continue };
        let cast = cast_oracle(&t, &r);
        let ex = Array2::from_shape_fn((n, t.len()), |(i, j)| { let o: usize = w[..j].iter().sum(); if let XType::Enum(v) = &t[j] { argmax(&cast.slice(s![i, o..o + v]).to_vec()) as f64 } else { cast[[i, o]] } });
        cmp_fold(c, &t, &w, &cast, &d, &ex, "relaxed", &inp);
    }
}
/// compares folded points; the categorical variables after another categorical one are the recorded finding when they show its formula
fn cmp_fold(c: &mut Ctx, t: &[XType], _w: &[usize], relaxed: &Array2<f64>, got: &Array2<f64>, exp: &Array2<f64>, what: &str, inp: &str) {
    if got.dim() != exp.dim() { c.fail("M01/shape", inp, format!("{what}: {got:?}")); return; }
    for i in 0..got.nrows() { for j in 0..t.len() {
        if got[[i, j]] == exp[[i, j]] { continue; }
        let known = if let XType::Enum(v) = &t[j] { t[..j].iter().any(|u| matches!(u, XType::Enum(_))) && argmax(&relaxed.slice(s![i, j..j + v]).to_vec()) as f64 == got[[i, j]] } else { false };
        c.fail(if known { "M01/fold-after-enum" } else { "M01/decode" }, inp, format!("{what}: row {} column {j} decodes to {} instead of {}", relaxed.row(i), got[[i, j]], exp[[i, j]]));
    } }
}
fn encode(t: &[XType], x: &Array2<f64>) -> Array2<f64> {
    let w = widths(t); let d: usize = w.iter().sum();
    let mut r = Array2::zeros((x.nrows(), d));
    for i in 0..x.nrows() { let mut o = 0; for (j, u) in t.iter().enumerate() { if let XType::Enum(_) = u { r[[i, o + x[[i, j]] as usize]] = 1.; } else { r[[i, o]] = x[[i, j]]; } o += w[j]; } }
    r
}
fn cast_oracle(t: &[XType], x: &Array2<f64>) -> Array2<f64> {
    let w = widths(t); let mut r = x.clone();
    for i in 0..x.nrows() { let mut o = 0; for (j, u) in t.iter().enumerate() {
        match u {
            XType::Float(_, _) => {}
            XType::Int(_, _) => r[[i, o]] = x[[i, o]].round(),
            XType::Ord(l) => { let v = x[[i, o]]; let mut b = 0; for k in 1..l.len() { if (l[k] - v).abs() < (l[b] - v).abs() { b = k; } } r[[i, o]] = l[b]; }
            XType::Enum(n) => { let m = argmax(&x.slice(s![i, o..o + n]).to_vec()); for k in 0..*n { r[[i, o + k]] = (k == m) as u8 as f64; } }
        }
        o += w[j];
    } }
    r
}

fn m02(c: &mut Ctx) {
    for _ in 0..c.n(200) {
        let t = xtypes(c, 6, false);
        let w = widths(&t); let n = c.u(1, 6);
        let x = relaxed(c, &t, n);
        let inp = c.case("discretise", format!("types={t:?} x={x:?}"));
        let Some(d) = c.guard("M02/discretise", &inp, || to_discrete_space(&t, &x)) else { continue };
        let cast = cast_oracle(&t, &x);
        for i in 0..n { for j in 0..t.len() {
            let o: usize = w[..j].iter().sum();
            c.check(is_adm(&t[j], d[[i, j]]), "M02/admissible", &inp, || format!("point {i} component {j} is {}", d[[i, j]]));
            match &t[j] {
                XType::Float(_, _) => { c.check(d[[i, j]] == x[[i, o]], "M02/float", &inp, || format!("continuous {} became {}", x[[i, o]], d[[i, j]])); }
                XType::Int(_, _) => { c.check((d[[i, j]] - x[[i, o]]).abs() <= 0.5, "M02/nearest-int", &inp, || format!("{} became {}", x[[i, o]], d[[i, j]])); }
                XType::Ord(l) => { let m = l.iter().map(|v| (v - x[[i, o]]).abs()).fold(f64::INFINITY, f64::min); c.check((d[[i, j]] - x[[i, o]]).abs() == m, "M02/nearest-ord", &inp, || format!("{} became {}", x[[i, o]], d[[i, j]])); }
                XType::Enum(_) => {}
            }
        } }
        #[cfg(feature = "hooks")]
        {
            let g = vp::cast_to_discrete_values(&t, &x);
            c.check(g == cast, "M02/cast", &inp, || format!("cast gives {g:?}"));
            let g2 = vp::cast_to_discrete_values(&t, &g);
            c.check(g2 == g, "M02/stable", &inp, || format!("second cast gives {g2:?}"));
        }
        let _ = &cast;
        if t.iter().filter(|u| matches!(u, XType::Enum(_))).count() < 2 {
            let Some(d2) = c.guard("M02/stable", &inp, || to_discrete_space(&t, &to_continuous_space(&t, &d))) else { continue };
            c.check(d2 == d, "M02/stable", &inp, || format!("{d:?} became {d2:?}"));
        }
    }
    for it in 0..c.n(40) {
        let t = xtypes(c, 4, false);
        let n = c.u(2, 12);
        let fold = c.b(0.5);
        let inp = c.case("sampling", format!("types={t:?} n={n} folded={fold} kind={}", it % 3));
        let lim = as_continuous_limits::<f64>(&t);
        macro_rules! smp { ($m:expr) => { c.guard("M02/sampling", &inp, || { let mut s = MixintSampling::new($m, t.clone()); s.work_in_folded_space(fold); s.sample(n) }) } }
        let x = match it % 3 { 0 => smp!(Lhs::new(&lim)), 1 => smp!(FullFactorial::new(&lim)), _ => smp!(Random::new(&lim)) };
        let Some(x) = x else { continue };
        let single = t.iter().filter(|u| matches!(u, XType::Enum(_))).count() < 2;
        c.check(x.nrows() == n, "M02/sampling-count", &inp, || format!("{} points", x.nrows()));
        if fold { for r in x.rows() { for j in 0..t.len() { if single || !matches!(t[j], XType::Enum(_)) { c.check(is_adm(&t[j], r[j]), "M02/sampling", &inp, || format!("sample {r}")); } } } }
        else { let y = cast_oracle(&t, &x); c.check(y == x, "M02/sampling", &inp, || format!("samples {x:?}")); }
    }
    for it in 0..c.n(10) {
        let t = xtypes(c, 3, true);
        let lim = as_continuous_limits::<f64>(&t);
        let nx = lim.nrows();
        let x = Lhs::new(&lim).sample(5 * nx + 6);
        let x = cast_oracle(&t, &x);
        let mut keep: Vec<usize> = vec![];
        for i in 0..x.nrows() { if keep.iter().all(|&k| (&x.row(k) - &x.row(i)).mapv(f64::abs).sum() > 1e-9) { keep.push(i); } }
        let x = x.select(Axis(0), &keep);
        if x.nrows() < 3 { continue; }
        let y = x.map_axis(Axis(1), |r| r.iter().enumerate().map(|(j, v)| (0.3 * v * (j + 1) as f64).sin() + 0.2 * v).sum::<f64>());
        let folded = it % 2 == 0;
        let inp = c.case("surrogate", format!("types={t:?} n={} folded={folded}", x.nrows()));
        let xt = if folded { to_discrete_space(&t, &x) } else { relax_near(c, &t, &x) };
        let gpp = GpMixture::params().n_clusters(NbClusters::fixed(1)).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL).theta_tunings(&[ThetaTuning::Fixed(Array1::from_elem(nx, 0.7))]);
        let ds = Dataset::new(xt.clone(), y.clone());
        let mut mp = MixintGpMixtureParams::new(&t, &gpp);
        let mp = mp.work_in_folded_space(folded);
        let Some(Ok(m)) = c.guard("M02/surrogate", &inp, || mp.fit(&ds)) else { continue };
        let Ok(refm) = gpp.fit(&Dataset::new(x.clone(), y.clone())) else { continue };
        let q = relaxed(c, &t, 6);
        let qc = cast_oracle(&t, &q);
        let arg = if folded { to_discrete_space(&t, &q) } else { q.clone() };
        let Ok(e) = refm.predict(&qc) else { continue };
        let Ok(ev) = refm.predict_var(&qc) else { continue };
        let p = GpSurrogate::predict(&m, &arg.view()); let v = m.predict_var(&arg.view()); let pv = m.predict_valvar(&arg.view());
        let (Ok(p), Ok(v), Ok(pv)) = (p, v, pv) else { c.fail("M02/surrogate-predict", &inp, "prediction error"); continue };
        let lp: Array1<f64> = linfa::traits::Predict::predict(&m, &arg);
        for i in 0..6 {
            c.close(p[i], e[i], 1e-7, "M02/surrogate-predict", &inp);
            c.close(lp[i], e[i], 1e-7, "M02/surrogate-linfa-predict", &inp);
            c.close(v[i], ev[i], 1e-6, "M02/surrogate-variance", &inp);
            c.close(pv.0[i], e[i], 1e-7, "M02/surrogate-valvar", &inp); c.close(pv.1[i], ev[i], 1e-6, "M02/surrogate-valvar", &inp);
        }
        if !folded {
            let (Ok(g), Ok(eg)) = (GpSurrogateExt::predict_gradients(&m, &q.view()), refm.predict_gradients(&qc)) else { c.fail("M02/surrogate-gradients", &inp, "error"); continue };
            let (Ok(vg), Ok(evg)) = (GpSurrogateExt::predict_var_gradients(&m, &q.view()), refm.predict_var_gradients(&qc)) else { c.fail("M02/surrogate-gradients", &inp, "error"); continue };
            for i in 0..6 { for j in 0..nx { c.close(g[[i, j]], eg[[i, j]], 1e-6, "M02/surrogate-gradients", &inp); c.close(vg[[i, j]], evg[[i, j]], 1e-6, "M02/surrogate-gradients", &inp); } }
        }
    }
}
/// a relaxed point whose discretisation is x
fn relax_near(c: &mut Ctx, t: &[XType], x: &Array2<f64>) -> Array2<f64> {
    let w = widths(t); let mut r = x.clone();
    for i in 0..x.nrows() { let mut o = 0; for (j, u) in t.iter().enumerate() {
        match u { XType::Int(_, _) => r[[i, o]] += c.f(-0.4, 0.4), XType::Enum(n) => for k in 0..*n { if r[[i, o + k]] == 1. { r[[i, o + k]] = c.f(0.6, 1.) } else { r[[i, o + k]] = c.f(0., 0.5) } }, _ => {} }
        o += w[j];
    } }
    r
}

// ---------------------------------------------------------------- best point

fn viol(r: &[f64], tol: &[f64]) -> f64 { r.iter().zip(tol).map(|(v, t)| if v > t { v - t } else { 0. }).sum() }
/// best rank of a table: (violation, objective)
fn rank(y: &Array2<f64>, cd: &Array2<f64>, tol: &Array1<f64>, i: usize) -> (f64, f64) {
    let mut r = y.row(i).to_vec()[1..].to_vec(); r.extend(cd.row(i).iter());
    let v = viol(&r, tol.as_slice().unwrap());
    if v > 0. { (v, 0.) } else { (0., y[[i, 0]]) }
}
fn best_rank(y: &Array2<f64>, cd: &Array2<f64>, tol: &Array1<f64>) -> (f64, f64) {
    (0..y.nrows()).map(|i| rank(y, cd, tol, i)).fold((f64::INFINITY, f64::INFINITY), |a, b| if b.0 < a.0 || (b.0 == a.0 && b.1 < a.1) { b } else { a })
}

fn table(c: &mut Ctx) -> (Array2<f64>, Array2<f64>, Array1<f64>) {
    let n = c.u(1, 9); let nc = c.u(0, 2); let nf = c.u(0, 2);
    let infeas = c.b(0.25);
    let shift = [0., 0., -20.][c.u(0, 2)];
    let y = Array2::from_shape_fn((n, 1 + nc), |(_, j)| if j == 0 { c.u(0, 6) as f64 - 3. + shift } else if infeas { c.u(3, 8) as f64 / 4. } else { (c.u(0, 8) as f64 - 4.) / 4. });
    let cd = Array2::from_shape_fn((n, nf), |_| if infeas { c.u(3, 8) as f64 / 4. } else { (c.u(0, 8) as f64 - 4.) / 4. });
    let tol = Array1::from_shape_fn(nc + nf, |_| [0., 1e-4, 0.25, 0.5][c.u(0, 3)]);
    (y, cd, tol)
}
fn b01(c: &mut Ctx) {
    for _ in 0..c.n(1500) {
        let (y, cd, tol) = table(c);
        let inp = c.case("best of a table", format!("y={y:?} c={cd:?} tol={tol}"));
        let Some(i) = c.guard("B01/best", &inp, || find_best_result_index(&y, &cd, &tol)) else { continue };
        if !c.check(i < y.nrows(), "B01/best", &inp, || format!("index {i}")) { continue; }
        let (e, g) = (best_rank(&y, &cd, &tol), rank(&y, &cd, &tol, i));
        c.check(near(g.0, e.0, 1e-12) && (e.0 > 0. || g.1 == e.1), "B01/best", &inp, || format!("index {i} ranks {g:?}, the best rank is {e:?}"));
        #[cfg(feature = "hooks")]
        {
            let n = y.nrows(); let tolv = tol.to_vec();
            let all = concatenate![Axis(1), y.view(), cd.view()];
            for i in 0..n {
                let f = vp::is_feasible(&y.row(i), &cd.row(i), &tol);
                let v = viol(&all.row(i).to_vec()[1..], &tolv);
                c.check(f == (v == 0.), "B01/feasible", &inp, || format!("row {i} feasible={f} with violation {v}"));
                for j in 0..n {
                    let o = vp::cstr_min((i, &all.row(i)), (j, &all.row(j)), &tol);
                    let (a, b) = (rank(&y, &cd, &tol, i), rank(&y, &cd, &tol, j));
                    let eo = a.0.partial_cmp(&b.0).unwrap().then(a.1.partial_cmp(&b.1).unwrap());
                    c.check(o == eo || near(a.0, b.0, 1e-12), "B01/order", &inp, || format!("rows {i} {j} compare {o:?}, expected {eo:?}"));
                }
            }
            // incremental selection
            let mut k = c.u(1, n);
            let mut best = find_best_result_index(&y.slice(s![..k, ..]), &cd.slice(s![..k, ..]), &tol);
            while k < n {
                let k2 = c.u(k + 1, n);
                let (ys, cs) = (y.slice(s![..k2, ..]).to_owned(), cd.slice(s![..k2, ..]).to_owned());
                let Some(b) = c.guard("B01/incremental", &inp, || vp::find_best_result_index_from(best, k, &ys, &cs, &tol)) else { break };
                let (e, g) = (best_rank(&ys, &cs, &tol), rank(&ys, &cs, &tol, b));
                if !c.check(near(g.0, e.0, 1e-12) && (e.0 > 0. || g.1 == e.1), "B01/incremental", &inp, || format!("from {best} with {k} of {k2} rows: {b} ranks {g:?}, the best rank is {e:?}")) { break; }
                best = b; k = k2;
            }
        }
    }
}

// ---------------------------------------------------------------- runs

type Rec = Arc<Mutex<Vec<(Array2<f64>, Array2<f64>)>>>;
fn fval(kind: usize, nc: usize, x: &ArrayView2<f64>) -> Array2<f64> {
    let mut y = Array2::zeros((x.nrows(), 1 + nc));
    for (i, r) in x.rows().into_iter().enumerate() {
        let o: f64 = match kind { 0 => r.iter().enumerate().map(|(j, v)| (v - 0.3 - 0.2 * j as f64).powi(2)).sum(), 1 => r.iter().enumerate().map(|(j, v)| (2. * v + j as f64).sin() + 0.1 * v * v).sum::<f64>(), _ => r.iter().map(|v| v * v).sum::<f64>() + 5. };
        y[[i, 0]] = o;
        for k in 0..nc { y[[i, 1 + k]] = r.iter().enumerate().map(|(j, v)| if (j + k) % 2 == 0 { *v } else { -v }).sum::<f64>() - 0.4; }
    }
    y
}
fn fc0(x: &[f64], g: Option<&mut [f64]>, _u: &mut InfillObjData<f64>) -> f64 { if let Some(g) = g { for v in g.iter_mut() { *v = 1.; } } x.iter().sum::<f64>() - 0.9 }

struct Cfg { t: Vec<XType>, nx: usize, n_doe: usize, q: usize, nc: usize, fc: usize, kind: usize, crit: usize, cobyla: bool, trego: bool, coego: usize, seed: u64, iters: usize, tol: Option<Array1<f64>>, ci: bool, utb: bool, qei: usize, doe: Option<Array2<f64>>, target: f64, rep: bool }
fn cfg(c: &mut Ctx, mixint: bool) -> Cfg {
    let t = if mixint { let mut t = xtypes(c, 2, true); if let XType::Enum(_) = t[0] { t.push(XType::Float(-1., 2.)); } t } else { (0..c.u(1, 3)).map(|_| { let a = c.f(-2., 0.); XType::Float(a, a + c.f(1., 3.)) }).collect() };
    let nx = limits(&t).len();
    let nc = if c.b(0.4) { c.u(1, 2) } else { 0 };
    Cfg { nx, n_doe: nx + c.u(3, 6), q: if c.b(0.3) { 2 } else { 1 }, nc, fc: if c.b(0.25) && !mixint { 1 } else { 0 }, kind: c.u(0, 2), crit: c.u(0, 3), cobyla: c.b(0.3), trego: false, coego: 0, seed: c.u(0, 9999) as u64, iters: c.u(2, 4),
        tol: if nc > 0 && c.b(0.5) { Some(Array1::from_elem(nc, 0.05)) } else { None }, ci: nc > 0 && c.b(0.3), utb: c.b(0.3), qei: c.u(0, 3), doe: None, target: f64::MIN, rep: false, t }
}
impl Cfg {
    fn desc(&self) -> String { format!("types={:?} n_doe={} q={} cstr={} fcstr={} objective={} criterion={} {} trego={} coego={} seed={} iters={} tol={:?} cstr_infill={} utb={} qei={} doe={} target={:e}", self.t, self.n_doe, self.q, self.nc, self.fc, self.kind, ["EI", "LogEI", "WB2", "WB2S"][self.crit], if self.cobyla { "cobyla" } else { "slsqp" }, self.trego, self.coego, self.seed, self.iters, self.tol, self.ci, self.utb, self.qei, self.doe.is_some(), self.target) }
    fn config(&self, e: EgorConfig) -> EgorConfig {
        let mut e = e.n_doe(self.n_doe).q_points(self.q).n_cstr(self.nc).seed(self.seed).max_iters(self.iters).n_start(2).trego(self.trego).target(self.target)
            .infill_strategy([InfillStrategy::EI, InfillStrategy::LogEI, InfillStrategy::WB2, InfillStrategy::WB2S][self.crit].clone())
            .infill_optimizer(if self.cobyla { InfillOptimizer::Cobyla } else { InfillOptimizer::Slsqp }).cstr_infill(self.ci)
            .cstr_strategy(if self.utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .qei_strategy([QEiStrategy::KrigingBeliever, QEiStrategy::KrigingBelieverLowerBound, QEiStrategy::KrigingBelieverUpperBound, QEiStrategy::ConstantLiarMinimum][self.qei].clone())
            .configure_gp(|g| g.regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL).n_start(1).max_eval(15));
        if self.coego > 0 { e = e.coego(CoegoStatus::Enabled(self.coego)); }
        if let Some(t) = &self.tol { e = e.cstr_tol(t.clone()); }
        if let Some(d) = &self.doe { e = e.doe(d); }
        e
    }
    fn rec(&self) -> (Rec, impl GroupFunc) {
        let r: Rec = Arc::new(Mutex::new(vec![]));
        let (r2, k, n) = (r.clone(), self.kind, self.nc);
        let rep = self.rep; let dim = self.t.len(); let _ = (rep, dim);
        (r, move |x: &ArrayView2<f64>| { let y = fval(k, n, x); r2.lock().unwrap().push((x.to_owned(), y.clone())); y })
    }
    fn fcs(&self) -> Vec<Cstr> { if self.fc > 0 { vec![fc0 as Cstr] } else { vec![] } }
    fn valid(&self) -> Option<ValidEgorConfig> { self.config(EgorConfig::default()).xtypes(&self.t).check().ok() }
}
/// runs a solver iteration by iteration
fn drive<SB: SurrogateBuilder + serde::de::DeserializeOwned, O: CostFunction<Param = Array2<f64>, Output = Array2<f64>> + DomainConstraints<Cstr>>(mut sv: EgorSolver<SB, Cstr>, o: O, iters: usize, sigma: Option<f64>, mut each: impl FnMut(usize, &EgorState<f64>)) -> Vec<EgorState<f64>> {
    let mut pb = Problem::new(o);
    let mut st = EgorState::new();
    if let Some(g) = sigma { st.sigma = g; }
    let mut r = vec![];
    let (mut st, _) = sv.init(&mut pb, st).expect("init");
    st.update();
    each(0, &st);
    r.push(st.clone());
    for k in 0..iters {
        let (s2, _) = sv.next_iter(&mut pb, st).expect("iteration");
        st = s2;
        st.func_counts(&pb);
        st.update();
        st.increment_iter();
        each(k + 1, &st);
        r.push(st.clone());
        if st.terminated() { break; }
    }
    r
}
fn go(g: &Cfg, sigma: Option<f64>, cfg: Option<ValidEgorConfig>, each: impl FnMut(usize, &EgorState<f64>)) -> (Vec<EgorState<f64>>, Vec<(Array2<f64>, Array2<f64>)>) {
    let v = cfg.unwrap_or_else(|| g.valid().unwrap());
    let (r, f) = g.rec();
    let o = ObjFunc::<_, Cstr>::new(f).subject_to(g.fcs());
    let disc = g.t.iter().any(|t| !matches!(t, XType::Float(_, _)));
    let st = if disc { drive(EgorSolver::<MixintGpMixtureParams, Cstr>::new(v), o, g.iters, sigma, each) } else { drive(EgorSolver::<GpMixtureParams<f64>, Cstr>::new(v), o, g.iters, sigma, each) };
    let r = r.lock().unwrap().clone();
    (st, r)
}
/// history facts shared by H01, S01, T01, C01
fn history(c: &mut Ctx, p: &str, g: &Cfg, st: &[EgorState<f64>], calls: &[(Array2<f64>, Array2<f64>)], inp: &str) {
    let mut prev: Option<&EgorState<f64>> = None;
    let lim = limits(&g.t);
    for (k, s) in st.iter().enumerate() {
        let (x, y, cd) = s.data.as_ref().unwrap();
        if p == "H01" {
            c.check(x.nrows() == y.nrows() && x.nrows() == cd.nrows() && x.ncols() == lim.len() && y.ncols() == 1 + g.nc && cd.ncols() == g.fc, "H01/aligned", inp, || format!("iteration {k}: {:?} {:?} {:?}", x.dim(), y.dim(), cd.dim()));
            if let Some(q) = prev {
                let (px, py, pc) = q.data.as_ref().unwrap(); let n = px.nrows();
                c.check(x.nrows() >= n && x.slice(s![..n, ..]) == px && y.slice(s![..n, ..]) == py && cd.slice(s![..n, ..]) == pc, "H01/append-only", inp, || format!("iteration {k} changed earlier rows"));
                for i in n..x.nrows() { for j in 0..i { let d: f64 = (&x.row(i) - &x.row(j)).mapv(f64::abs).sum(); c.check(d >= 100. * f64::EPSILON, "H01/duplicate", inp, || format!("iteration {k}: rows {i} and {j}")); } }
            }
            let xd = fold_oracle(&g.t, &cast_oracle(&g.t, x));
            let ey = fval(g.kind, g.nc, &xd.view());
            let n0 = prev.map(|q| q.data.as_ref().unwrap().0.nrows()).unwrap_or(0);
            for i in n0..x.nrows() { for j in 0..ey.ncols() { c.close(y[[i, j]], ey[[i, j]], 1e-12, "H01/evaluated", inp); } }
            if g.fc > 0 { for i in n0..x.nrows() {
                let e = fc0(xd.row(i).to_vec().as_slice(), None, &mut InfillObjData::default());
                if near(cd[[i, 0]], e, 1e-12) { continue; }
                let sc = e / cd[[i, 0]];
                let mx = lim.iter().map(|l| l.1).sum::<f64>() - 0.9; let mn = lim.iter().map(|l| l.0).sum::<f64>() - 0.9; let big = mx.abs().max(mn.abs());
                c.fail(if k > 0 && sc > 0.3 * big && sc <= big * 1.0001 { "H01/fcstr-scaled" } else { "H01/fcstr" }, inp, format!("row {i} stores {} for {}", cd[[i, 0]], e));
            } }
        }
        if p == "S01" {
            c.check(s.added >= x.nrows() && s.doe_size == st[0].data.as_ref().unwrap().0.nrows(), "S01/counts", inp, || format!("iteration {k}: added {} of {} rows, doe {}", s.added, x.nrows(), s.doe_size));
            let b = s.best_index.unwrap();
            let tol = &s.cstr_tol;
            if !c.check(tol.len() == g.nc + g.fc, "S01/tolerances", inp, || format!("{} tolerances", tol.len())) { return; }
            let (e, r) = (best_rank(y, cd, tol), rank(y, cd, tol, b));
            c.check(near(r.0, e.0, 1e-12) && (e.0 > 0. || near(r.1, e.1, 1e-12)), "S01/best", inp, || format!("iteration {k}: best row {b} ranks {r:?}, the best rank is {e:?}"));
            c.check(s.best_param.as_ref().unwrap() == &x.row(b) && s.best_cost.as_ref().unwrap() == &y.row(b), "S01/reported", inp, || format!("iteration {k}: reported {:?} {:?} instead of row {b}", s.best_param, s.best_cost));
            if let Some(q) = prev {
                let (px, py, pc) = q.data.as_ref().unwrap();
                let (pr, _) = (rank(py, pc, tol, q.best_index.unwrap()), px);
                c.check(r.0 <= pr.0 + 1e-12 && (r.0 > 0. || pr.0 > 0. || r.1 <= pr.1), "S01/worse", inp, || format!("iteration {k}: {pr:?} then {r:?}"));
                c.check(x.nrows() - px.nrows() <= g.q, "S01/batch", inp, || format!("iteration {k} adds {} rows", x.nrows() - px.nrows()));
                if b != q.best_index.unwrap() { c.check(s.last_best_iter == k as u64, "S01/last-best", inp, || format!("iteration {k}: last best {}", s.last_best_iter)); }
                else { c.check(s.last_best_iter == q.last_best_iter, "S01/last-best", inp, || format!("iteration {k}: last best {} without improvement (was {})", s.last_best_iter, q.last_best_iter)); }
            }
        }
        prev = Some(s);
    }
    if p == "S01" {
        let s = st.last().unwrap(); let n = s.data.as_ref().unwrap().0.nrows();
        let ev: usize = calls.iter().map(|r| r.0.nrows()).sum();
        let e = if g.doe.as_ref().map(|d| d.ncols() > lim.len()).unwrap_or(false) { n - g.doe.as_ref().unwrap().nrows() } else { n };
        c.check(if g.trego { ev >= e } else { ev == e }, "S01/evaluations", inp, || format!("{ev} evaluations for {e} rows"));
    }
    for (x, _) in calls { for r in x.rows() { for (j, t) in g.t.iter().enumerate() {
        let ok = is_adm(t, r[j]) && match t { XType::Float(a, b) => r[j] >= a - 1e-9 * (1. + a.abs()) && r[j] <= b + 1e-9 * (1. + b.abs()), _ => true };
        c.check(ok, &format!("{p}/domain"), inp, || format!("evaluated at {r}"));
    } } }
}
fn fold_oracle(t: &[XType], x: &Array2<f64>) -> Array2<f64> {
    let w = widths(t);
    Array2::from_shape_fn((x.nrows(), t.len()), |(i, j)| { let o: usize = w[..j].iter().sum(); if let XType::Enum(v) = &t[j] { argmax(&x.slice(s![i, o..o + v]).to_vec()) as f64 } else { x[[i, o]] } })
}
fn doe(c: &mut Ctx, g: &mut Cfg) {
    let lim = as_continuous_limits::<f64>(&g.t);
    let x = Lhs::new(&lim).with_rng({ use ndarray_rand::rand::SeedableRng; rand_xoshiro::Xoshiro256Plus::seed_from_u64(g.seed + 1) }).sample(g.n_doe);
    if c.b(0.5) { g.doe = Some(x); } else {
        let xd = fold_oracle(&g.t, &cast_oracle(&g.t, &x));
        let y = fval(g.kind, g.nc, &xd.view());
        g.doe = Some(concatenate![Axis(1), x, y]);
    }
}

fn h01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for _ in 0..c.n(400) {
        let (n, m, d, ny, nc) = (c.u(1, 6), c.u(0, 5), c.u(1, 3), c.u(1, 2), c.u(0, 2));
        let g = |c: &mut Ctx| c.u(0, 2) as f64 / 2.;
        let x = Array2::from_shape_fn((n, d), |_| g(c));
        let xn = Array2::from_shape_fn((m, d), |_| g(c) + if c.b(0.2) { [1e-15, 1e-13, 3e-14][c.u(0, 2)] } else { 0. });
        let y = Array2::from_shape_fn((n, ny), |_| c.f(-1., 1.)); let yn = Array2::from_shape_fn((m, ny), |_| c.f(-1., 1.));
        let k = Array2::from_shape_fn((n, nc), |_| c.f(-1., 1.)); let kn = Array2::from_shape_fn((m, nc), |_| c.f(-1., 1.));
        let inp = c.case("append", format!("x={x:?} new={xn:?}"));
        let (mut ax, mut ay, mut ak) = (x.clone(), y.clone(), k.clone());
        let Some(ids) = c.guard("H01/append", &inp, || vp::update_data(&mut ax, &mut ay, &mut ak, &xn, &yn, &kn)) else { continue };
        let (mut ex, mut ey, mut ek, mut ei) = (x.clone(), y.clone(), k.clone(), vec![]);
        for i in 0..m {
            let dup = ex.rows().into_iter().any(|r| (0..d).map(|j| (r[j] - xn[[i, j]]).abs()).sum::<f64>() < 100. * f64::EPSILON);
            c.check(vp::is_update_ok(&ex, &xn.row(i)) != dup, "H01/duplicate", &inp, || format!("candidate {i} duplicate={dup}"));
            if !dup { ei.push(i); ex.push_row(xn.row(i)).unwrap(); ey.push_row(yn.row(i)).unwrap(); ek.push_row(kn.row(i)).unwrap(); }
        }
        c.check(ids == ei && ax == ex && ay == ey && ak == ek, "H01/append", &inp, || format!("added {ids:?}, expected {ei:?}; x {ax:?} y {ay:?} c {ak:?}"));
    }
    for it in 0..c.n(10) {
        let mut g = cfg(c, it % 3 == 2);
        if it % 4 == 3 { g.trego = true; g.iters += 2; }
        if it % 5 == 4 { doe(c, &mut g); }
        if it == 0 { g.fc = 1; }
        let inp = c.case("run", g.desc());
        if let Some((st, calls)) = c.guard("H01/run", &inp, || go(&g, None, None, |_, _| {})) { history(c, "H01", &g, &st, &calls, &inp); }
        if c.over() { break; }
    }
}
fn s01(c: &mut Ctx) {
    for it in 0..c.n(10) {
        let mut g = cfg(c, it % 3 == 2);
        if it % 4 == 3 { g.trego = true; g.iters += 2; }
        if it % 4 == 1 { doe(c, &mut g); }
        if it % 5 == 4 && g.nx > 1 { g.coego = 2; g.fc = 0; g.ci = false; }
        if it == 0 { g.fc = 0; }
        if g.fc > 0 { g.nc = 0; g.tol = None; g.ci = false; }
        let inp = c.case("run by steps", g.desc());
        if let Some((st, calls)) = c.guard("S01/run", &inp, || go(&g, None, None, |_, _| {})) { history(c, "S01", &g, &st, &calls, &inp); }
        if c.over() { break; }
    }
    for it in 0..c.n(5) {
        let mut g = cfg(c, it % 3 == 1);
        g.fc = 0; g.ci = false;
        if it % 2 == 0 { g.target = 6.5; g.kind = 2; g.iters = 4; }
        let inp = c.case("whole run", g.desc());
        let disc = g.t.iter().any(|t| !matches!(t, XType::Float(_, _)));
        let (r, f) = g.rec();
        let fac = EgorFactory::<_, Cstr>::optimize(f).configure(|e| g.config(e));
        let res = c.guard("S01/whole-run", &inp, || if disc { fac.min_within_mixint_space(&g.t).and_then(|e| e.run()) } else { fac.min_within(&as_continuous_limits::<f64>(&g.t)).and_then(|e| e.run()) });
        let Some(Ok(res)) = res else { if let Some(Err(e)) = res { c.fail("S01/whole-run", &inp, format!("{e}")); } continue };
        let ev: usize = r.lock().unwrap().iter().map(|v| v.0.nrows()).sum();
        let n = res.x_doe.nrows();
        c.check(ev == n && res.y_doe.nrows() == n, "S01/evaluations", &inp, || format!("{ev} evaluations, {n} rows"));
        c.check(n <= g.n_doe + g.iters * g.q && res.state.get_iter() <= g.iters as u64, "S01/budget", &inp, || format!("{n} rows, {} iterations", res.state.get_iter()));
        let tol = res.state.cstr_tol.clone();
        let none = Array2::zeros((n, 0));
        let b = (0..n).find(|&i| res.x_doe.row(i) == res.x_opt && res.y_doe.row(i) == res.y_opt);
        if c.check(b.is_some(), "S01/optimum-row", &inp, || format!("optimum {} {} is no row", res.x_opt, res.y_opt)) {
            let (e, k) = (best_rank(&res.y_doe, &none, &tol), rank(&res.y_doe, &none, &tol, b.unwrap()));
            c.check(near(k.0, e.0, 1e-12) && (e.0 > 0. || k.1 == e.1), "S01/best", &inp, || format!("optimum ranks {k:?}, the best rank is {e:?}"));
        }
        let ey = fval(g.kind, g.nc, &res.x_doe.view());
        for i in 0..n { for j in 0..ey.ncols() { c.close(res.y_doe[[i, j]], ey[[i, j]], 1e-12, "S01/rows", &inp); } }
        // rows evaluated before the last iteration never reach the target
        if g.target > f64::MIN && g.nc == 0 {
            let hit = (0..n).find(|&i| res.y_doe[[i, 0]] <= g.target);
            if let Some(i) = hit { let last = if i < g.n_doe { g.n_doe } else { g.n_doe + ((i - g.n_doe) / g.q + 1) * g.q }; c.check(n <= last, "S01/target", &inp, || format!("row {i} reaches the target, {n} rows evaluated")); }
        }
        if c.over() { break; }
    }
}

fn t01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for _ in 0..c.n(150) {
        let nx = c.u(1, 4);
        let lim = Array2::from_shape_fn((nx, 2), |(i, j)| { let _ = i; if j == 0 { -c.f(0., 2.) } else { c.f(0.2, 3.) } });
        let o = Array1::from_shape_fn(nx, |i| if c.b(0.2) { lim[[i, c.u(0, 1)]] } else { c.f(lim[[i, 0]], lim[[i, 1]]) });
        let d = (c.f(1e-6, 1.), c.f(0.01, 1.5)); let n = c.u(1, 6);
        let mut act: Vec<usize> = (0..nx).collect(); for i in (1..nx).rev() { let r = c.u(0, i); act.swap(i, r); } act.truncate(c.u(1, nx)); if c.b(0.3) { act.push(nx); }
        let seed = c.u(0, 999) as u64;
        let inp = c.case("local starts", format!("limits={lim:?} origin={o} d={d:?} n={n} active={act:?}"));
        let Some(x) = c.guard("T01/starts", &inp, || vp::vp_local_starts(&lim, &o, d, seed, n, &act)) else { continue };
        let a: Vec<usize> = act.iter().cloned().filter(|&i| i < nx).collect();
        if !c.check(x.dim() == (n, a.len()), "T01/starts", &inp, || format!("{:?}", x.dim())) { continue; }
        for r in x.rows() { for (k, &i) in a.iter().enumerate() {
            let e = 1e-9;
            c.check(r[k] >= lim[[i, 0]] - e && r[k] <= lim[[i, 1]] + e && r[k] >= o[i] - d.0 - e && r[k] <= o[i] + d.1 + e, "T01/starts", &inp, || format!("start {r}"));
        } }
    }
    for it in 0..c.n(8) {
        let mut g = cfg(c, false); g.trego = true; g.iters = 5; g.q = 1; g.fc = 0;
        if it % 2 == 0 { g.nc = 0; g.tol = None; g.ci = false; g.nx = 1; g.t.truncate(1); g.n_doe = 5; }
        let (nl, beta, gamma) = (c.u(0, 3) as u64, c.f(0.5, 0.95), c.f(1.05, 2.));
        let sg = [0.1, 1e-3, 0.5][c.u(0, 2)];
        let inp = c.case("trust region run", format!("{} n_local={nl} beta={beta} gamma={gamma} sigma={sg}", g.desc()));
        let mut j = serde_json::to_value(g.valid().unwrap()).unwrap();
        let tr = &mut j["trego"]; tr["n_local_steps"] = nl.into(); tr["beta"] = beta.into(); tr["gamma"] = gamma.into();
        j["target"] = (-1e300).into();
        let Ok(v) = serde_json::from_value::<ValidEgorConfig>(j) else { continue };
        let Some((st, calls)) = c.guard("T01/run", &inp, || go(&g, Some(sg), Some(v), |_, _| {})) else { continue };
        history(c, "T01", &g, &st, &calls, &inp);
        for k in 1..st.len() {
            let (p, s) = (&st[k - 1], &st[k]);
            let y = &p.data.as_ref().unwrap().1;
            let (b, pb) = (p.best_index.unwrap(), p.prev_best_index.unwrap());
            let succ = y[[b, 0]] < y[[pb, 0]] - p.sigma * p.sigma;
            let it = k as u64 - 1;
            let es = if it == 0 { p.sigma } else if succ { p.sigma * gamma } else if p.prev_step_ego { p.sigma } else { p.sigma * beta };
            c.check(near(s.sigma, es, 1e-12), "T01/sigma", &inp, || format!("iteration {it}: sigma {} -> {}, expected {es} (success={succ} global={})", p.sigma, s.sigma, p.prev_step_ego));
            let eg = (succ && p.prev_step_ego) || it % (1 + nl) == 0;
            c.check(s.prev_step_ego == eg || s.terminated(), "T01/phase", &inp, || format!("iteration {it}: global={} expected {eg}", s.prev_step_ego));
            c.check(s.prev_best_index == p.best_index || s.added == p.added, "T01/previous-best", &inp, || format!("iteration {it}: {:?} instead of {:?}", s.prev_best_index, p.best_index));
            let (e, r) = (best_rank(&s.data.as_ref().unwrap().1, &s.data.as_ref().unwrap().2, &s.cstr_tol), rank(&s.data.as_ref().unwrap().1, &s.data.as_ref().unwrap().2, &s.cstr_tol, s.best_index.unwrap()));
            c.check(near(r.0, e.0, 1e-12) && (e.0 > 0. || near(r.1, e.1, 1e-12)), "T01/best", &inp, || format!("iteration {it}: best ranks {r:?}, expected {e:?}"));
        }
        if c.over() { break; }
    }
}

// ---------------------------------------------------------------- surrogate-based criteria

fn model(c: &mut Ctx, nx: usize, n: usize, k: usize) -> Option<(GpMixture, Array2<f64>, Array1<f64>, String)> {
    let x = Lhs::new(&Array2::from_shape_fn((nx, 2), |(_, j)| if j == 0 { -1. } else { 1. })).with_rng({ use ndarray_rand::rand::SeedableRng; rand_xoshiro::Xoshiro256Plus::seed_from_u64(c.u(0, 1 << 30) as u64) }).sample(n);
    let (a, b) = (c.f(-1., 1.), c.f(0.5, 3.));
    let y = x.map_axis(Axis(1), |r| a + r.iter().enumerate().map(|(j, v)| (b * v + j as f64 + k as f64).sin()).sum::<f64>());
    let th = Array1::from_shape_fn(nx, |_| c.f(0.3, 1.5));
    let corr = [CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::MATERN52][c.u(0, 1)];
    let m = GpMixture::params().n_clusters(NbClusters::fixed(1)).recombination(Recombination::Hard).regression_spec(RegressionSpec::CONSTANT).correlation_spec(corr).theta_tunings(&[ThetaTuning::Fixed(th.clone())]).fit(&Dataset::new(x.clone(), y.clone())).ok()?;
    Some((m, x, y, format!("nx={nx} n={n} offset={a} freq={b} theta={th} {corr:?}")))
}
fn boxed(m: &GpMixture) -> Box<dyn MixtureGpSurrogate> { let m: GpMixture = serde_json::from_str(&serde_json::to_string(m).unwrap()).unwrap(); Box::new(m) }
fn cdf(t: f64) -> f64 { 0.5 * libm::erfc(-t / std::f64::consts::SQRT_2) }
fn pdf(t: f64) -> f64 { (-0.5 * t * t).exp() / (2. * std::f64::consts::PI).sqrt() }
/// log of phi(u) + u Phi(u)
fn log_h(u: f64) -> f64 {
    if u > -4. { (pdf(u) + u * cdf(u)).ln() } else {
        // h(u)/phi(u) = 1 - t m(t) with the Mills ratio m as a continued fraction, t = -u
        let t = -u; let mut k = 0.; for j in (2..400).rev() { k = j as f64 / (t + k); } let k = 1. / (t + k);
        -0.5 * u * u - 0.5 * (2. * std::f64::consts::PI).ln() + (k / (t + k)).ln()
    }
}
fn log_key(base: &str, u: f64, got: f64) -> String { if u < -37. && (got.is_nan() || got == f64::NEG_INFINITY || got == f64::INFINITY) { format!("{base}/logei-below-37") } else { format!("{base}/logei") } }

fn i01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for i in 0..c.n(600) {
        let u = if i % 3 == 0 { c.f(-5., 5.) } else if i % 3 == 1 { c.f(-37., 3.) } else { -(10f64.powf(c.f(0., 3.))) };
        let inp = c.case("log h", format!("u={u:e}"));
        let g = vp::log_ei_helper(u);
        if !near(g, log_h(u), 1e-6) { c.fail(&log_key("I01", u, g), &inp, format!("log_ei_helper gives {g:e}, expected {:e}", log_h(u))); }
        c.close(vp::norm_cdf(u), cdf(u), 1e-12, "I01/cdf", &inp); c.close(vp::norm_pdf(u), pdf(u), 1e-12, "I01/pdf", &inp);
        let v = u + c.f(0.001, 0.5);
        if u > -37. { c.check(vp::log_ei_helper(v) > g - 1e-9, "I01/monotone", &inp, || format!("log h({v}) < log h({u})")); }
    }
    for _ in 0..c.n(25) {
        let nx = c.u(1, 2);
        let n_ = c.u(4, 9);
        let Some((m, xt, y, d)) = model(c, nx, n_, 0) else { continue };
        let ymin = y.iter().cloned().fold(f64::INFINITY, f64::min);
        for q in 0..10 {
            let x = if q == 0 { xt.row(0).to_vec() } else { (0..nx).map(|_| c.f(-1., 1.)).collect() };
            let fmin = ymin + [0., -0.5, 1., -5.][c.u(0, 3)];
            let w = [None, Some(1.), Some(0.4), Some(3.)][c.u(0, 3)];
            let sc = [None, Some(2.5)][c.u(0, 1)];
            let inp = c.case("criteria", format!("{d} x={x:?} fmin={fmin} weight={w:?} scale={sc:?}"));
            let xv = Array2::from_shape_vec((1, nx), x.clone()).unwrap();
            let (p, v) = (m.predict(&xv).unwrap()[0], m.predict_var(&xv).unwrap()[0]);
            let zero = v < f64::EPSILON;
            let sg = v.sqrt(); let k = w.unwrap_or(1.); let u = (fmin - p) / (k * sg);
            let ei = if zero { 0. } else { k * sg * (u * cdf(u) + pdf(u)) };
            let ge = EI.value(&x, &m, fmin, w, sc);
            c.close(ge, ei, 1e-9, "I01/ei", &inp); c.check(ge >= -1e-12, "I01/ei-sign", &inp, || format!("EI {ge:e}"));
            let gw = WB2.value(&x, &m, fmin, w, sc);
            c.close(gw, sc.unwrap_or(1.) * ei - p, 1e-9, "I01/wb2", &inp);
            let gs = WB2S.value(&x, &m, fmin, w, sc);
            c.close(gs, sc.unwrap_or(1.) * ei - p, 1e-9, "I01/wb2s", &inp);
            let gl = LOG_EI.value(&x, &m, fmin, w, sc);
            if zero { c.check(gl == f64::MIN, "I01/logei-zero", &inp, || format!("LogEI {gl:e} at zero variance")); }
            else { let u = (fmin - p) / sg; let e = log_h(u) + sg.ln(); if !near(gl, e, 1e-6) { c.fail(&log_key("I01", u, gl), &inp, format!("LogEI {gl:e}, expected {e:e}")); } }
        }
        // scale of WB2S
        let pts = Array2::from_shape_fn((12, nx), |_| c.f(-1., 1.));
        let inp = c.case("wb2s scale", format!("{d} points={pts:?}"));
        let eis: Vec<f64> = pts.rows().into_iter().map(|r| EI.value(&r.to_vec(), &m, ymin, None, None)).collect();
        let im = argmax(&eis);
        let pm = m.predict(&pts.slice(s![im..im + 1, ..])).unwrap()[0];
        let e = if eis[im].abs() > 100. * f64::EPSILON { 100. * pm.abs() / eis[im] } else { 1. };
        let g = WB2S.scaling(&pts.view(), &m, ymin, None);
        c.close(g, e, 1e-9, "I01/wb2s-scale", &inp);
    }
}
/// central difference with two steps, None when they disagree
fn fd(f: &dyn Fn(&[f64]) -> f64, x: &[f64], j: usize) -> Option<f64> {
    let d = |h: f64| { let mut a = x.to_vec(); let mut b = x.to_vec(); a[j] += h; b[j] -= h; (f(&a) - f(&b)) / (2. * h) };
    let (a, b) = (d(1e-4), d(5e-5));
    let r = (4. * b - a) / 3.;
    if (a - b).abs() > 1e-5 * (1. + r.abs()) || !r.is_finite() { None } else { Some(r) }
}
fn cmp_grad(c: &mut Ctx, key: &str, inp: &str, f: &dyn Fn(&[f64]) -> f64, x: &[f64], g: &[f64], tol: f64) {
    if !c.check(g.len() == x.len(), key, inp, || format!("{} components", g.len())) { return; }
    for j in 0..x.len() { if let Some(e) = fd(f, x, j) { if !near(g[j], e, tol) { c.fail(key, inp, format!("component {j}: {:e}, finite differences give {e:e}", g[j])); } } }
}
fn solver(crit: usize, nx: usize, ci: bool) -> EgorSolver<GpMixtureParams<f64>, Cstr> {
    let v = EgorConfig::default().infill_strategy([InfillStrategy::EI, InfillStrategy::LogEI, InfillStrategy::WB2, InfillStrategy::WB2S][crit].clone()).cstr_infill(ci).xtypes(&vec![XType::Float(-1., 1.); nx]).check().unwrap();
    EgorSolver::new(v)
}
fn i02(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for i in 0..c.n(300) {
        let u = if i % 2 == 0 { c.f(-6., 5.) } else { -(10f64.powf(c.f(0., 2.5))) };
        let inp = c.case("derivative of log h", format!("u={u:e}"));
        let h = 1e-4 * (1. + u.abs());
        let e = (log_h(u + h) - log_h(u - h)) / (2. * h);
        let g = vp::d_log_ei_helper(u);
        if !near(g, e, 1e-4) { c.fail(&log_key("I02", u, g), &inp, format!("d_log_ei_helper gives {g:e}, expected {e:e}")); }
    }
    for _ in 0..c.n(25) {
        let nx = c.u(1, 2);
        let n = c.u(4, 8);
        let (Some((m, _, y, d)), Some((k1, ..)), Some((k2, ..))) = (model(c, nx, n, 0), model(c, nx, n, 1), model(c, nx, n, 2)) else { continue };
        let ymin = y.iter().cloned().fold(f64::INFINITY, f64::min);
        for _ in 0..6 {
            let x: Vec<f64> = (0..nx).map(|_| c.f(-1., 1.)).collect();
            let fmin = ymin + [0., 0.5, -0.3][c.u(0, 2)]; let w = [None, Some(0.6), Some(2.)][c.u(0, 2)]; let sc = [None, Some(3.)][c.u(0, 1)];
            let xv = Array2::from_shape_vec((1, nx), x.clone()).unwrap();
            let v = m.predict_var(&xv).unwrap()[0]; if v < 1e-4 { continue; }
            let u = (fmin - m.predict(&xv).unwrap()[0]) / v.sqrt(); if u < -25. { continue; }
            let inp = c.case("criteria gradients", format!("{d} x={x:?} fmin={fmin} weight={w:?} scale={sc:?}"));
            let crits: [&dyn InfillCriterion; 4] = [&EI, &LOG_EI, &WB2, &WB2S];
            for (k, cr) in crits.iter().enumerate() {
                let g = cr.grad(&x, &m, fmin, w, sc).to_vec();
                cmp_grad(c, ["I02/ei", "I02/logei", "I02/wb2", "I02/wb2s"][k], &inp, &|z| cr.value(z, &m, fmin, w, sc), &x, &g, 2e-4);
            }
            #[cfg(feature = "hooks")]
            for k in 0..4 {
                let sv = solver(k, nx, true);
                let (scale, sic, sw) = (c.f(0.5, 3.), c.f(0.5, 2.), [1., 0.5][c.u(0, 1)]);
                let g = sv.eval_grad_infill_obj(&x, &m, fmin, scale, sic, sw);
                cmp_grad(c, "I02/objective", &inp, &|z| sv.vp_eval_infill_obj(z, &m, fmin, scale, sic, sw), &x, &g, 2e-4);
                let cs: Vec<Box<dyn MixtureGpSurrogate>> = match c.u(0, 2) { 0 => vec![], 1 => vec![boxed(&k1)], _ => vec![boxed(&k1), boxed(&k2)] };
                let tol = Array1::from_shape_fn(cs.len(), |_| c.f(0., 0.3));
                if cs.iter().any(|q| q.predict_var(&xv.view()).unwrap()[0] < 1e-4 ) || vp::pofs(&x, &cs, tol.as_slice().unwrap()) < 1e-6 { continue; }
                for feas in [true, false] {
                    let g = sv.eval_grad_infill_obj_with_cstrs(&x, &m, &cs, &tol, fmin, scale, sic, feas, sw);
                    cmp_grad(c, &format!("I02/constrained-{}", ["ei", "logei", "wb2", "wb2s"][k]), &format!("{inp} constraints={} tol={tol} feasible={feas}", cs.len()), &|z| sv.eval_infill_obj_with_cstrs(z, &m, &cs, &tol, fmin, scale, sic, feas, sw), &x, &g, 2e-4);
                    // value
                    let io = if feas { sv.vp_eval_infill_obj(&x, &m, fmin, scale, sic, sw) } else if k == 1 { 0. } else { -1. };
                    let pf = vp::pofs(&x, &cs, tol.as_slice().unwrap());
                    let e = if k == 1 { io - pf.ln() } else { io * pf };
                    let gv = sv.eval_infill_obj_with_cstrs(&x, &m, &cs, &tol, fmin, scale, sic, feas, sw);
                    c.close(gv, e, 1e-6, "I02/constrained-value", &inp);
                }
                let e = -[EI.value(&x, &m, fmin, Some(sw), Some(sic)), LOG_EI.value(&x, &m, fmin, Some(sw), Some(sic)), WB2.value(&x, &m, fmin, Some(sw), Some(sic)), WB2S.value(&x, &m, fmin, Some(sw), Some(sic))][k] / scale;
                c.close(sv.vp_eval_infill_obj(&x, &m, fmin, scale, sic, sw), e, 1e-9, "I02/objective-value", &inp);
            }
        }
    }
    let _ = boxed;
}
fn f01(c: &mut Ctx) {
    type S = EgorSolver<GpMixtureParams<f64>, Cstr>;
    for _ in 0..c.n(30) {
        let nx = c.u(1, 3); let n = c.u(4, 9); let nm = c.u(1, 3);
        let mut ms = vec![]; let mut d = String::new(); let mut xt = None;
        for k in 0..nm { if let Some((m, x, _, s)) = model(c, nx, n, k) { d += &format!("[{s}]"); ms.push(m); xt = Some(x); } }
        if ms.is_empty() { continue; }
        let xt = xt.unwrap();
        let bx: Vec<Box<dyn MixtureGpSurrogate>> = ms.iter().map(boxed).collect();
        let tol: Vec<f64> = ms.iter().map(|_| [0., 1e-4, 0.3, -0.2][c.u(0, 3)]).collect();
        for q in 0..8 {
            let x: Vec<f64> = if q == 0 { xt.row(c.u(0, n - 1)).to_vec() } else { (0..nx).map(|_| c.f(-1., 1.)).collect() };
            let inp = c.case("feasibility", format!("{d} x={x:?} tol={tol:?}"));
            let xv = Array2::from_shape_vec((1, nx), x.clone()).unwrap();
            let pv: Vec<(f64, f64)> = ms.iter().map(|m| (m.predict(&xv).unwrap()[0], m.predict_var(&xv).unwrap()[0])).collect();
            let small = pv.iter().any(|v| v.1 < 1e-4);
            #[cfg(feature = "hooks")]
            {
                let e: Vec<f64> = pv.iter().zip(&tol).map(|(v, t)| if v.1 < f64::EPSILON { 0. } else { cdf((t - v.0) / v.1.sqrt()) }).collect();
                let g = vp::pofs(&x, &bx, &tol);
                c.close(g, e.iter().product(), 1e-9, "F01/pof", &inp);
                c.check((0. ..=1.).contains(&g), "F01/range", &inp, || format!("probability {g}"));
                let lg = vp::logpofs(&x, &bx, &tol);
                c.close(lg, e.iter().map(|v| v.max(f64::EPSILON).ln()).sum(), 1e-9, "F01/logpof", &inp);
                if !small {
                    let gr = vp::pofs_grad(&x, &bx, &tol).to_vec();
                    cmp_grad(c, "F01/pof-gradient", &inp, &|z| vp::pofs(z, &bx, &tol), &x, &gr, 2e-4);
                    if e.iter().all(|v| *v > 1e-6) { let gr = vp::logpofs_grad(&x, &bx, &tol).to_vec(); cmp_grad(c, "F01/logpof-gradient", &inp, &|z| vp::logpofs(z, &bx, &tol), &x, &gr, 2e-4); }
                } else if pv.iter().all(|v| v.1 < f64::EPSILON) { let gr = vp::pofs_grad(&x, &bx, &tol); c.check(gr.iter().all(|v| *v == 0.), "F01/zero-variance", &inp, || format!("{gr}")); }
            }
            let sc = c.f(0.3, 4.);
            let mut act: Vec<usize> = (0..nx).collect(); for i in (1..nx).rev() { let r = c.u(0, i); act.swap(i, r); } act.truncate(c.u(1, nx));
            let inp = format!("{inp} scale={sc} active={act:?}");
            let na = act.len(); if c.b(0.3) { act.push(nx); }
            let m = &*bx[0];
            for utb in [false, true] {
                let f = |z: &[f64], g: Option<&mut [f64]>| if utb { S::upper_trust_bound_cstr(m, z, g, sc, &act) } else { S::mean_cstr(m, z, g, sc, &act) };
                let e = if utb { (pv[0].0 + 3. * pv[0].1.max(0.).sqrt()) / sc } else { pv[0].0 / sc };
                c.close(f(&x, None), e, if utb { 1e-5 } else { 1e-9 }, if utb { "F01/upper-bound" } else { "F01/mean" }, &inp);
                if utb && small { continue; }
                let mut g = vec![0.; na];
                if c.guard("F01/gradient", &inp, || f(&x, Some(&mut g))).is_none() { continue; }
                for (k, &i) in act[..na].iter().enumerate() { if let Some(e) = fd(&|z| f(z, None), &x, i) { if !near(g[k], e, 2e-4) { c.fail(if utb { "F01/upper-bound-gradient" } else { "F01/mean-gradient" }, &inp, format!("component {i}: {:e}, finite differences give {e:e}", g[k])); } } }
            }
        }
        #[cfg(feature = "hooks")]
        {
            let pts = Array2::from_shape_fn((7, nx), |_| c.f(-1., 1.));
            let inp = c.case("constraint scales", format!("{d} points={pts:?}"));
            let g = vp::compute_cstr_scales(&pts.view(), &bx);
            for (k, m) in ms.iter().enumerate() { let e = m.predict(&pts).unwrap().iter().map(|v| v.abs()).fold(0., f64::max); c.close(g[k], e, 1e-5, "F01/scales", &inp); }
        }
    }
}

// ---------------------------------------------------------------- cooperative groups

fn c01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for _ in 0..c.n(400) {
        let (nx, g, seed) = (c.u(1, 24), c.u(1, 12), c.u(0, 9999) as u64);
        let inp = c.case("groups", format!("nx={nx} groups={g} seed={seed}"));
        let v = EgorConfig::default().coego(CoegoStatus::Enabled(g)).xtypes(&vec![XType::Float(0., 1.); nx]).check().unwrap();
        let mut sv = EgorSolver::<GpMixtureParams<f64>, Cstr>::new(v);
        let Some(a) = c.guard("C01/groups", &inp, || sv.vp_random_activity(seed)) else { continue };
        c.check(a.nrows() == g.min(nx), "C01/group-count", &inp, || format!("{} groups", a.nrows()));
        let mut seen = vec![0; nx];
        for v in a.iter() { if *v < nx { seen[*v] += 1; } else if *v > nx { c.fail("C01/marker", &inp, format!("index {v}")); } }
        c.check(seen.iter().all(|v| *v == 1), "C01/partition", &inp, || format!("{a:?}"));
        let sz: Vec<usize> = a.rows().into_iter().map(|r| r.iter().filter(|v| **v < nx).count()).collect();
        c.check(sz.iter().all(|v| *v >= 1 && *v <= nx.div_ceil(g.min(nx))), "C01/group-size", &inp, || format!("{a:?}"));
        let f = sv.vp_full_activity();
        c.check(f.dim() == (1, nx) && f.iter().enumerate().all(|(i, v)| *v == i), "C01/full", &inp, || format!("{f:?}"));
        for r in a.rows() {
            let act = r.to_vec();
            let st = EgorSolver::<GpMixtureParams<f64>, Cstr>::strip(&act, nx);
            let own: Vec<usize> = act.iter().cloned().filter(|&i| i < nx).collect();
            c.check(st == own, "C01/strip", &inp, || format!("{st:?} of {act:?}"));
            let x = Array2::from_shape_fn((2, nx), |_| c.f(-1., 1.));
            let gx = vp::get_active_x(&x, &act);
            c.check(gx.dim() == (2, own.len()) && own.iter().enumerate().all(|(k, &i)| gx[[0, k]] == x[[0, i]] && gx[[1, k]] == x[[1, i]]), "C01/read", &inp, || format!("{gx:?}"));
            let vals: Vec<f64> = own.iter().map(|_| c.f(2., 3.)).collect();
            let mut w = x.row(0).to_vec();
            vp::set_active_x(&mut w, &act, &vals);
            for i in 0..nx { let e = own.iter().position(|&k| k == i).map(|k| vals[k]).unwrap_or(x[[0, i]]); c.check(w[i] == e, "C01/write", &inp, || format!("coordinate {i} is {} instead of {e}", w[i])); }
        }
    }
    for it in 0..c.n(6) {
        let mut g = cfg(c, false);
        g.nx = c.u(2, 4); g.t = (0..g.nx).map(|j| XType::Float(-1. - 0.1 * j as f64, 1. + 0.3 * j as f64)).collect();
        g.n_doe = g.nx + 4; g.coego = c.u(1, g.nx); g.fc = 0; g.iters = 2; g.trego = it % 3 == 2; g.q = 1;
        let inp = c.case("cooperative run", g.desc());
        let mut acts: Vec<Array2<usize>> = vec![];
        let Some((st, calls)) = c.guard("C01/run", &inp, || go(&g, None, None, |_, s| if let Some(a) = &s.activity { acts.push(a.clone()) })) else { continue };
        history(c, "C01", &g, &st, &calls, &inp);
        for a in &acts { let mut seen = vec![0; g.nx]; for v in a.iter() { if *v < g.nx { seen[*v] += 1; } } c.check(seen.iter().all(|v| *v == 1) && a.nrows() == g.coego.min(g.nx), "C01/partition", &inp, || format!("{a:?}")); }
        c.check(acts.len() == st.len(), "C01/activity", &inp, || format!("{} groupings for {} states", acts.len(), st.len()));
        if c.over() { break; }
    }
    // order of gradients
    type S = EgorSolver<GpMixtureParams<f64>, Cstr>;
    for _ in 0..c.n(10) {
        let nx = c.u(2, 4); let n_ = c.u(5, 9);
        let Some((m, _, _, d)) = model(c, nx, n_, 1) else { continue };
        let b = boxed(&m);
        let mut act: Vec<usize> = (0..nx).collect(); for i in (1..nx).rev() { let r = c.u(0, i); act.swap(i, r); }
        let x: Vec<f64> = (0..nx).map(|_| c.f(-1., 1.)).collect();
        let inp = c.case("gradient order", format!("{d} x={x:?} active={act:?}"));
        for utb in [false, true] {
            let f = |z: &[f64], g: Option<&mut [f64]>| if utb { S::upper_trust_bound_cstr(&*b, z, g, 1., &act) } else { S::mean_cstr(&*b, z, g, 1., &act) };
            let xv = Array2::from_shape_vec((1, nx), x.clone()).unwrap(); if m.predict_var(&xv).unwrap()[0] < 1e-4 { continue; }
            let mut g = vec![0.; nx];
            if c.guard("C01/gradient", &inp, || f(&x, Some(&mut g))).is_none() { continue; }
            for (k, &i) in act.iter().enumerate() { if let Some(e) = fd(&|z| f(z, None), &x, i) { if !near(g[k], e, 2e-4) { c.fail("C01/gradient-order", &inp, format!("position {k} (coordinate {i}): {:e}, finite differences give {e:e}", g[k])); } } }
        }
    }
}

// ---------------------------------------------------------------- persistence

/// equal up to the last digits (checkpoints are written in decimal)
fn close_dbg<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
    let f = |s: &str| s.split(", strides").map(|p| p.split_once("const ndim").map_or(p, |q| q.1)).collect::<String>().split(|c: char| "[](), \n".contains(c)).filter(|w| !w.is_empty()).map(String::from).collect::<Vec<_>>();
    let (a, b) = (f(&a), f(&b));
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || matches!((x.parse::<f64>(), y.parse::<f64>()), (Ok(u), Ok(v)) if (u - v).abs() <= 1e-12 * u.abs().max(1.)))
}
fn close_arr(a: &Array2<f64>, b: &Array2<f64>) -> bool { a.nrows() >= b.nrows() && b.indexed_iter().all(|((i, j), v)| (a[[i, j]] - v).abs() <= 1e-11) }
fn p01(c: &mut Ctx) {
    use egobox_gp::{GaussianProcess, correlation_models::*, mean_models::*};
    use egobox_moe::GpFileFormat;
    for it in 0..c.n(6) {
        let nx = c.u(1, 2); let n_ = c.u(5, 9);
        let Some((m, x, y, d)) = model(c, nx, n_, 0) else { continue };
        let q = Array2::from_shape_fn((5, nx), |_| c.f(-1.5, 1.5));
        for fmt in [0, 1] {
            let inp = c.case("save and load", format!("{d} format={}", ["json", "binary"][fmt]));
            let f = || if fmt == 0 { GpFileFormat::Json } else { GpFileFormat::Binary };
            let path = format!("m{it}.{}", ["json", "bin"][fmt]);
            let Some(Ok(())) = c.guard("P01/save", &inp, || GpSurrogate::save(&m, &path, f())) else { c.fail("P01/save", &inp, "save failed"); continue };
            let Some(Ok(l)) = c.guard("P01/load", &inp, || GpMixture::load(&path, f())) else { c.fail("P01/load", &inp, "load failed"); continue };
            same(c, "P01/mixture", &inp, &m, &*l, &q);
            let _ = m.predict_gradients(&q);
        }
        // plain GP
        let ds = Dataset::new(x.clone(), y.clone());
        if let Ok(gp) = GaussianProcess::<f64, ConstantMean, SquaredExponentialCorr>::params(ConstantMean::default(), SquaredExponentialCorr::default()).theta_init(array![0.5]).n_start(1).max_eval(10).fit(&ds) {
            let inp = c.case("gp round trip", d.clone());
            let j = serde_json::to_string(&gp).unwrap();
            match serde_json::from_str::<GaussianProcess<f64, ConstantMean, SquaredExponentialCorr>>(&j) {
                Ok(g2) => { let (a, b) = (gp.predict(&q).unwrap(), g2.predict(&q).unwrap()); let (va, vb) = (gp.predict_var(&q).unwrap(), g2.predict_var(&q).unwrap()); for i in 0..5 { c.close(b[i], a[i], 1e-8, "P01/gp", &inp); c.close(vb[i], va[i], 1e-8, "P01/gp", &inp); } }
                Err(e) => c.fail("P01/gp", &inp, format!("{e}")),
            }
        }
        // mixed integer mixture
        let t = vec![XType::Int(-2, 3), XType::Float(-1., 1.)];
        let lim = as_continuous_limits::<f64>(&t);
        let xm = Lhs::new(&lim).sample(9);
        let ym = xm.map_axis(Axis(1), |r| r[0].round() * 0.5 + (2. * r[1]).sin());
        let gpp = GpMixture::params().n_clusters(NbClusters::fixed(1)).regression_spec(RegressionSpec::CONSTANT).correlation_spec(CorrelationSpec::SQUAREDEXPONENTIAL).theta_tunings(&[ThetaTuning::Fixed(array![0.4, 0.8])]);
        if let Ok(mm) = MixintGpMixtureParams::new(&t, &gpp).fit(&Dataset::new(xm, ym)) {
            let qm = relaxed(c, &t, 5);
            for fmt in [0, 1] {
                let inp = c.case("mixed-integer save and load", format!("format={}", ["json", "binary"][fmt]));
                let f = || if fmt == 0 { GpFileFormat::Json } else { GpFileFormat::Binary };
                let path = format!("x{it}.{}", ["json", "bin"][fmt]);
                let Some(Ok(())) = c.guard("P01/save", &inp, || GpSurrogate::save(&mm, &path, f())) else { c.fail("P01/save", &inp, "save failed"); continue };
                let Some(Ok(l)) = c.guard("P01/load", &inp, || MixintGpMixture::load(&path, f())) else { c.fail("P01/load", &inp, "load failed"); continue };
                same(c, "P01/mixint", &inp, &mm, &*l, &qm);
            }
        }
    }
    // checkpoint
    for it in 0..c.n(3) {
        let mut g = cfg(c, it % 2 == 1); g.fc = 0; g.iters = 2; g.trego = it == 2;
        let inp = c.case("checkpoint", g.desc());
        let Some((st, _)) = c.guard("P01/run", &inp, || go(&g, None, None, |_, _| {})) else { continue };
        for s in st.iter().skip(1).cloned() {
        let sv = EgorSolver::<MixintGpMixtureParams, Cstr>::new(g.valid().unwrap());
        for (mode, ext) in [(HotStartMode::Enabled, 0), (HotStartMode::ExtendedIters(7), 7)] {
            let ck = HotStartCheckpoint::new(format!("ck{it}"), CHECKPOINT_FILE.to_string(), CheckpointingFrequency::Always, mode);
            let r = c.guard("P01/checkpoint", &inp, || { Checkpoint::<EgorSolver<MixintGpMixtureParams, Cstr>, EgorState<f64>>::save(&ck, &sv, &s).map_err(|e| e.to_string())?; Checkpoint::<EgorSolver<MixintGpMixtureParams, Cstr>, EgorState<f64>>::load(&ck).map_err(|e| e.to_string()) });
            match r { Some(Ok(Some((_, l)))) => {
                c.check(l.max_iters == s.max_iters + ext, "P01/checkpoint-budget", &inp, || format!("{} iterations instead of {}", l.max_iters, s.max_iters + ext));
                let diff: Vec<&str> = [("data", match (&l.data, &s.data) { (Some(a), Some(b)) => close_arr(&a.0, &b.0) && close_arr(&a.1, &b.1) && close_arr(&a.2, &b.2) && a.0.nrows() == b.0.nrows(), (None, None) => true, _ => false }), ("best_index", l.best_index == s.best_index), ("prev_best_index", l.prev_best_index == s.prev_best_index), ("added", l.added == s.added), ("prev_added", l.prev_added == s.prev_added), ("doe_size", l.doe_size == s.doe_size), ("sigma", l.sigma == s.sigma), ("prev_step_ego", l.prev_step_ego == s.prev_step_ego), ("cstr_tol", l.cstr_tol == s.cstr_tol), ("iter", l.iter == s.iter), ("feasibility", l.feasibility == s.feasibility), ("theta_inits", close_dbg(&l.theta_inits, &s.theta_inits)), ("last_best_iter", l.last_best_iter == s.last_best_iter), ("activity", l.activity == s.activity), ("no_point_added_retries", l.no_point_added_retries == s.no_point_added_retries), ("best_param", close_dbg(&l.best_param, &s.best_param)), ("best_cost", close_dbg(&l.best_cost, &s.best_cost))].iter().filter(|f| !f.1).map(|f| f.0).collect();
                c.check(diff.is_empty(), "P01/checkpoint-state", &inp, || format!("{diff:?} differ: {l:?} instead of {s:?}"));
                c.check(format!("{:?}", l.rng) == format!("{:?}", s.rng), "P01/checkpoint-rng", &inp, || "random generator differs".into());
            }, Some(Ok(None)) => c.fail("P01/checkpoint", &inp, "no checkpoint found"), Some(Err(e)) => c.fail("P01/checkpoint", &inp, e), None => {} }
        }
        }
    }
    // warm and hot start
    for it in 0..c.n(3) {
        let mut g = cfg(c, false); g.q = 1; g.iters = 2; g.fc = it % 2; g.nc = c.u(0, 1); g.tol = None; g.ci = false;
        let dir = format!("w{it}"); let _ = std::fs::remove_dir_all(&dir);
        let inp = c.case("warm start", g.desc());
        let lim = as_continuous_limits::<f64>(&g.t);
        let (_r, f) = g.rec();
        let Some(Ok(r1)) = c.guard("P01/warm", &inp, || EgorFactory::<_, Cstr>::optimize(f).configure(|e| g.config(e).outdir(dir.clone())).subject_to(g.fcs()).min_within(&lim).and_then(|e| e.run())) else { continue };
        let (r2, f) = g.rec();
        let res = c.guard("P01/warm", &inp, || EgorFactory::<_, Cstr>::optimize(f).configure(|e| g.config(e).outdir(dir.clone()).warm_start(true)).subject_to(g.fcs()).min_within(&lim).and_then(|e| e.run()));
        match res { Some(Ok(r)) => {
            let n = r1.x_doe.nrows();
            c.check(r.x_doe.nrows() >= n && r.x_doe.slice(s![..n, ..]) == r1.x_doe && r.y_doe.slice(s![..n, ..]) == r1.y_doe, "P01/warm", &inp, || "saved points are not the initial design".into());
            let ev: usize = r2.lock().unwrap().iter().map(|v| v.0.nrows()).sum();
            c.check(ev == r.x_doe.nrows() - n, "P01/warm-evaluations", &inp, || format!("{ev} evaluations"));
        }, Some(Err(e)) => c.fail("P01/warm", &inp, format!("{e}")), None => {} }
        // interrupted run resumed equals the uninterrupted one
        let inp = c.case("hot start", g.desc());
        let full = { let (_r, f) = g.rec(); let gl = Cfg { iters: 4, ..cl(&g) }; c.guard("P01/hot", &inp, || EgorFactory::<_, Cstr>::optimize(f).configure(|e| gl.config(e)).subject_to(g.fcs()).min_within(&lim).and_then(|e| e.run())) };
        let hd = format!("h{it}"); let _ = std::fs::remove_dir_all(&hd);
        let (_r, f) = g.rec();
        let a = c.guard("P01/hot", &inp, || EgorFactory::<_, Cstr>::optimize(f).configure(|e| g.config(e).outdir(hd.clone()).hot_start(HotStartMode::Enabled)).subject_to(g.fcs()).min_within(&lim).and_then(|e| e.run()));
        let (_r, f) = g.rec();
        let b = c.guard("P01/hot", &inp, || EgorFactory::<_, Cstr>::optimize(f).configure(|e| g.config(e).outdir(hd.clone()).hot_start(HotStartMode::ExtendedIters(2))).subject_to(g.fcs()).min_within(&lim).and_then(|e| e.run()));
        if let (Some(Ok(full)), Some(Ok(a)), Some(Ok(b))) = (full, a, b) {
            let n = a.x_doe.nrows();
            c.check(b.x_doe.nrows() >= n && close_arr(&b.x_doe, &a.x_doe), "P01/hot-prefix", &inp, || format!("resumed run lost points: {} then {}", a.x_doe, b.x_doe));
            let k = a.x_doe.nrows().min(full.x_doe.nrows());
            c.check(k >= g.n_doe && close_arr(&full.x_doe, &a.x_doe.slice(s![..k, ..]).to_owned()), "P01/hot-same", &inp, || format!("saving checkpoints changes the run: {} and {}", full.x_doe, a.x_doe));
        }
        if c.over() { break; }
    }
}
fn cl(g: &Cfg) -> Cfg { Cfg { t: g.t.clone(), tol: g.tol.clone(), doe: g.doe.clone(), ..*g } }
fn same(c: &mut Ctx, key: &str, inp: &str, a: &dyn MixtureGpSurrogate, b: &dyn MixtureGpSurrogate, q: &Array2<f64>) {
    let (pa, pb) = (a.predict(&q.view()).unwrap(), b.predict(&q.view()).unwrap());
    let (va, vb) = (a.predict_var(&q.view()).unwrap(), b.predict_var(&q.view()).unwrap());
    let (ga, gb) = (a.predict_gradients(&q.view()).unwrap(), b.predict_gradients(&q.view()).unwrap());
    for i in 0..q.nrows() { c.close(pb[i], pa[i], 1e-7, key, inp); c.close(vb[i], va[i], 1e-7, key, inp); for j in 0..q.ncols() { c.close(gb[[i, j]], ga[[i, j]], 1e-7, key, inp); } }
}

// ---------------------------------------------------------------- configuration

fn v01(c: &mut Ctx) {
    for _ in 0..c.n(300) {
        let (mi, ns, nd, nc, q, qo, seed) = (c.u(0, 50), c.u(1, 9), c.u(0, 40), c.u(0, 3), c.u(1, 4), c.u(1, 5), c.u(0, 1 << 20) as u64);
        let tl = if c.b(0.6) { Some(c.u(0, 4)) } else { None };
        let (co, kp) = (if c.b(0.5) { c.u(1, 9) } else { 0 }, if c.b(0.4) { Some(c.u(1, 4)) } else { None });
        let (tr, ci, ws) = (c.b(0.5), c.b(0.5), c.b(0.5)); let tg = c.f(-5., 5.);
        let crit = c.u(0, 3); let qe = c.u(0, 3); let utb = c.b(0.5); let cob = c.b(0.5);
        let (gns, gme) = (c.u(0, 9), c.u(10, 99));
        let th = c.f(0.1, 2.);
        let inp = c.case("configuration", format!("iters={mi} n_start={ns} n_doe={nd} n_cstr={nc} q={q} optmod={qo} seed={seed} tol={tl:?} coego={co} kpls={kp:?} trego={tr} cstr_infill={ci} crit={crit} qei={qe}"));
        let mut e = EgorConfig::default().max_iters(mi).n_start(ns).n_doe(nd).n_cstr(nc).q_points(q).q_optmod(qo).seed(seed).trego(tr).cstr_infill(ci).warm_start(ws).target(tg)
            .infill_strategy([InfillStrategy::EI, InfillStrategy::LogEI, InfillStrategy::WB2, InfillStrategy::WB2S][crit].clone())
            .qei_strategy([QEiStrategy::KrigingBeliever, QEiStrategy::KrigingBelieverLowerBound, QEiStrategy::KrigingBelieverUpperBound, QEiStrategy::ConstantLiarMinimum][qe].clone())
            .cstr_strategy(if utb { ConstraintStrategy::UpperTrustBound } else { ConstraintStrategy::MeanConstraint })
            .infill_optimizer(if cob { InfillOptimizer::Cobyla } else { InfillOptimizer::Slsqp })
            .outdir("some/dir").hot_start(HotStartMode::ExtendedIters(3))
            .coego(if co > 0 { CoegoStatus::Enabled(co) } else { CoegoStatus::Disabled })
            .configure_gp(|g| g.kpls_dim(kp).n_start(gns).max_eval(gme).n_clusters(NbClusters::fixed(2)).recombination(Recombination::Smooth(Some(0.7))).regression_spec(RegressionSpec::LINEAR).correlation_spec(CorrelationSpec::MATERN32).theta_tuning(ThetaTuning::Fixed(array![th])))
            .xtypes(&[XType::Float(0., 1.), XType::Int(1, 4)]);
        let d = Array2::from_shape_fn((3, 2), |_| c.f(0., 1.));
        let has_doe = c.b(0.5); if has_doe { e = e.doe(&d); }
        if let Some(l) = tl { e = e.cstr_tol(Array1::from_elem(l, 0.25)); }
        let bad = (nc > 0 && tl.map(|l| l != nc).unwrap_or(false)) || (co > 0 && kp.is_some());
        let r = c.guard("V01/check", &inp, || e.check());
        let Some(r) = r else { continue };
        if !c.check(r.is_err() == bad, "V01/check", &inp, || format!("accepted={} expected {}", r.is_ok(), !bad)) || bad { continue; }
        let j = serde_json::to_value(r.unwrap()).unwrap();
        let mut want: Vec<(&str, serde_json::Value)> = vec![("max_iters", mi.into()), ("n_start", ns.into()), ("n_doe", nd.into()), ("n_cstr", nc.into()), ("q_points", q.into()), ("q_optmod", qo.into()), ("seed", seed.into()), ("cstr_infill", ci.into()), ("warm_start", ws.into()), ("target", tg.into()), ("outdir", "some/dir".into())];
        want.push(("q_ei", ["KrigingBeliever", "KrigingBelieverLowerBound", "KrigingBelieverUpperBound", "ConstantLiarMinimum"][qe].into()));
        want.push(("cstr_strategy", if utb { "UpperTrustBound" } else { "MeanConstraint" }.into()));
        want.push(("infill_optimizer", if cob { "Cobyla" } else { "Slsqp" }.into()));
        want.push(("hot_start", serde_json::json!({"ExtendedIters": 3})));
        for (k, v) in want { c.check(j[k] == v, "V01/setting", &inp, || format!("{k} is {} instead of {v}", j[k])); }
        c.check(j["trego"]["activated"] == tr && j["coego"]["activated"] == (co > 0) && (co == 0 || j["coego"]["n_coop"] == co), "V01/mode", &inp, || format!("{} {}", j["trego"], j["coego"]));
        c.check(j["gp"]["n_start"] == gns && j["gp"]["max_eval"] == gme && j["gp"]["kpls_dim"] == serde_json::json!(kp), "V01/gp", &inp, || format!("{}", j["gp"]));
        c.check(j["gp"]["n_clusters"].to_string().contains('2') && j["gp"]["recombination"].to_string().contains("0.7"), "V01/gp", &inp, || format!("{}", j["gp"]));
        c.check(j["xtypes"] == serde_json::to_value(vec![XType::Float(0., 1.), XType::Int(1, 4)]).unwrap(), "V01/xtypes", &inp, || format!("{}", j["xtypes"]));
        c.check(has_doe != j["doe"].is_null(), "V01/doe", &inp, || format!("{}", j["doe"]));
        if has_doe { c.check(j["doe"] == serde_json::to_value(&d).unwrap(), "V01/doe", &inp, || format!("{}", j["doe"])); }
        c.check(j["cstr_tol"] == serde_json::to_value(tl.map(|l| Array1::from_elem(l, 0.25))).unwrap(), "V01/tol", &inp, || format!("{}", j["cstr_tol"]));
        c.check(j["infill_criterion"].to_string().contains(["ExpectedImprovement", "LogExpectedImprovement", "WB2Criterion", "WB2Criterion"][crit]), "V01/criterion", &inp, || format!("{}", j["infill_criterion"]));
    }
    // tolerances in force during a run
    for it in 0..c.n(3) {
        let mut g = cfg(c, false); g.iters = 1; g.nc = c.u(0, 2); g.fc = it % 2; g.q = 1; g.ci = false;
        g.tol = if g.nc > 0 && c.b(0.6) { Some(Array1::from_shape_fn(g.nc, |_| c.f(0.01, 0.2))) } else { None };
        let inp = c.case("tolerances", g.desc());
        let Some((st, _)) = c.guard("V01/run", &inp, || go(&g, None, None, |_, _| {})) else { continue };
        let t = &st[0].cstr_tol;
        let e = Array1::from_shape_fn(g.nc + g.fc, |i| g.tol.as_ref().and_then(|t| t.get(i).cloned()).unwrap_or(1e-4));
        c.check(t == &e, "V01/tolerances", &inp, || format!("{t} instead of {e}"));
        c.check(st[0].doe_size == g.n_doe && st[0].max_iters == g.iters as u64, "V01/run", &inp, || format!("doe {} iters {}", st[0].doe_size, st[0].max_iters));
        if c.over() { break; }
    }
    // default design size
    for _ in 0..c.n(4) {
        let mut g = cfg(c, false); g.n_doe = 0; g.iters = 0; g.fc = 0; g.nx = c.u(1, 8); g.t = vec![XType::Float(-1., 1.); g.nx];
        let inp = c.case("default design", g.desc());
        let Some((st, _)) = c.guard("V01/run", &inp, || go(&g, None, None, |_, _| {})) else { continue };
        c.check(st[0].doe_size == (g.nx + 1).max(5), "V01/default-doe", &inp, || format!("{} points for {} inputs", st[0].doe_size, g.nx));
    }
}

// ---------------------------------------------------------------- suggestions and starting points

fn u01(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    {
        for _ in 0..c.n(200) {
            let dim = c.u(1, 60);
            let spec = [CorrelationSpec::SQUAREDEXPONENTIAL, CorrelationSpec::ABSOLUTEEXPONENTIAL, CorrelationSpec::MATERN32, CorrelationSpec::MATERN52, CorrelationSpec::ALL][c.u(0, 4)];
            let nb = [1, dim][c.u(0, 1)];
            let own = Array1::from_shape_fn(nb, |_| { let a = c.f(1e-4, 1.); (a, a + c.f(0.1, 10.)) });
            let (tun, want) = match c.u(0, 2) { 0 => (ThetaTuning::Fixed(array![0.3]), None), 1 => (ThetaTuning::Full { init: array![0.3], bounds: own.clone() }, Some(own.clone())), _ => (ThetaTuning::default(), None) };
            let inp = c.case("theta bounds", format!("dim={dim} {spec:?} {tun:?}"));
            let Some(b) = c.guard("U01/theta-bounds", &inp, || vp::theta_bounds(&tun, dim, spec)) else { continue };
            c.check(!b.is_empty() && b.iter().all(|v| v.0 > 0. && v.0 <= v.1 && v.1.is_finite()), "U01/theta-bounds", &inp, || format!("{b:?}"));
            if let Some(w) = want { c.check(b == w, "U01/theta-bounds-given", &inp, || format!("{b:?}")); }
        }
        for _ in 0..c.n(100) {
            let (a, b, n) = (c.f(1e-3, 10.), c.f(1e-3, 100.), c.u(2, 20));
            let inp = c.case("logspace", format!("{a} {b} {n}"));
            let v = vp::logspace(a, b, n);
            c.check(v.len() == n && near(v[0], a, 1e-9) && near(v[n - 1], b, 1e-9), "U01/logspace", &inp, || format!("{v}"));
            for i in 0..n { c.close(v[i].ln(), a.ln() + (b.ln() - a.ln()) * i as f64 / (n - 1) as f64, 1e-9, "U01/logspace", &inp); }
        }
        for _ in 0..c.n(150) {
            let (nx, n, ns) = (c.u(1, 4), c.u(1, 30), c.u(1, 8));
            let lim = Array2::from_shape_fn((nx, 2), |(_, j)| if j == 0 { -c.f(0.1, 2.) } else { c.f(0.2, 3.) });
            let x = Array2::from_shape_fn((n, nx), |(_, j)| c.f(lim[[j, 0]], lim[[j, 1]]));
            let mut act: Vec<usize> = (0..nx).collect(); for i in (1..nx).rev() { let r = c.u(0, i); act.swap(i, r); } act.truncate(c.u(1, nx)); if c.b(0.3) { act.push(nx); }
            let inp = c.case("starting points", format!("limits={lim:?} x={x:?} n_start={ns} active={act:?}"));
            let seed = c.u(0, 999) as u64;
            let a: Vec<usize> = act.iter().cloned().filter(|&i| i < nx).collect();
            let Some(g) = c.guard("U01/starts", &inp, || vp::global_starts(&lim, &x, seed, ns, &act)) else { continue };
            c.check(g.dim() == (ns, a.len()), "U01/starts", &inp, || format!("{:?}", g.dim()));
            for r in g.rows() { for (k, &i) in a.iter().enumerate().take(r.len()) { c.check(r[k] >= lim[[i, 0]] - 1e-9 && r[k] <= lim[[i, 1]] + 1e-9, "U01/starts", &inp, || format!("start {r}")); } }
            let mx = [None, Some(ns)][c.u(0, 1)];
            let Some(s) = c.guard("U01/midpoints", &inp, || vp::start_points(&x, &lim.column(0), &lim.column(1), mx)) else { continue };
            if let Some(k) = mx { c.check(s.nrows() <= k, "U01/midpoints", &inp, || format!("{} points", s.nrows())); }
            let rg = &lim.column(1) - &lim.column(0);
            for r in s.rows() {
                let mut ok = false; for i in 0..n { for j in 0..i { if (0..nx).all(|k| near(r[k], (x[[i, k]] + x[[j, k]]) / 2., 1e-12)) {
                    let d2 = |p: &[f64]| (0..nx).map(|k| ((p[k] - r[k]) / rg[k]).powi(2)).sum::<f64>();
                    let dij = d2(x.row(i).to_vec().as_slice()); if (0..n).all(|k| d2(x.row(k).to_vec().as_slice()) >= dij * (1. - 1e-9)) { ok = true; } } } }
                c.check(ok, "U01/midpoints", &inp, || format!("{r} is no isolated midpoint"));
            }
        }
    }
    for it in 0..c.n(8) {
        let mut g = cfg(c, it % 3 == 1); g.fc = 0;
        let lim = as_continuous_limits::<f64>(&g.t);
        let x = Lhs::new(&lim).with_rng({ use ndarray_rand::rand::SeedableRng; rand_xoshiro::Xoshiro256Plus::seed_from_u64(c.u(0, 9999) as u64) }).sample(g.n_doe + 2);
        let xd = fold_oracle(&g.t, &cast_oracle(&g.t, &x));
        let y = fval(g.kind, g.nc, &xd.view());
        let inp = c.case("suggest", g.desc());
        let disc = g.t.iter().any(|t| !matches!(t, XType::Float(_, _)));
        let go1 = || if disc { EgorServiceBuilder::optimize().configure(|e| g.config(e)).min_within_mixint_space(&g.t).unwrap().suggest(&xd, &y) } else { EgorServiceBuilder::optimize().configure(|e| g.config(e)).min_within(&lim).unwrap().suggest(&xd, &y) };
        let Some(p) = c.guard("U01/suggest", &inp, go1) else { continue };
        c.check(p.nrows() >= 1 && p.nrows() <= g.q && p.ncols() == g.t.len(), "U01/suggest", &inp, || format!("{:?}", p.dim()));
        for r in p.rows() { for (j, t) in g.t.iter().enumerate() { c.check(is_adm(t, r[j]) && match t { XType::Float(a, b) => r[j] >= a - 1e-9 && r[j] <= b + 1e-9, _ => true }, "U01/suggest-domain", &inp, || format!("suggested {r}")); } }
        let Some(p2) = c.guard("U01/suggest", &inp, go1) else { continue };
        c.check(p == p2, "U01/suggest-seed", &inp, || format!("{p:?} then {p2:?} with the same seed"));
        if c.over() { break; }
    }
}
