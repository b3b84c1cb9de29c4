use crate::ctx::*;
use egobox_doe::*;
use ndarray::{Array1, Array2};
use ndarray_rand::rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

pub const KINDS: [LhsKind; 5] = [LhsKind::Classic, LhsKind::Centered, LhsKind::Maximin, LhsKind::CenteredMaximin, LhsKind::Optimized];

pub fn xlimits(c: &mut Ctx, nx: usize) -> Array2<f64> {
    let mut x = Array2::zeros((nx, 2));
    for j in 0..nx {
        let lo = match c.u(0, 4) { 0 => 0., 1 => c.f(-1e3, 1e3), 2 => c.f(-1., 1.), 3 => -c.f(0., 1e-3), _ => c.f(-50., 50.) };
        let w = match c.u(0, 5) { 0 => 1., 1 => c.f(0., 1e3), 2 => c.f(0., 1e-4), 3 => 0., _ => c.f(0.1, 20.) };
        x[[j, 0]] = lo; x[[j, 1]] = lo + w;
    }
    x
}

fn designs(c: &mut Ctx, x: &Array2<f64>, ns: usize, seed: u64, which: usize) -> Option<(String, Array2<f64>, Array2<f64>)> {
    let x = x.clone();
    let name = if which < 5 { format!("{:?}", KINDS[which]) } else if which == 5 { "FullFactorial".into() } else { "Random".to_string() };
    let inp = format!("{name} ns={ns} seed={seed} xlimits={x:?}");
    let r = c.guard_t(&format!("doe/{name}"), &inp, 10, move || match which {
        0..=4 => {
            let mk = || Lhs::new_with_rng(&x, Xoshiro256Plus::seed_from_u64(seed)).kind(KINDS[which]);
            (mk().normalized_sample(ns), mk().sample(ns))
        }
        5 => { let f = FullFactorial::new(&x); (f.normalized_sample(ns), f.sample(ns)) }
        _ => { let mk = || Random::new(&x).with_rng(Xoshiro256Plus::seed_from_u64(seed)); (mk().normalized_sample(ns), mk().sample(ns)) }
    })?;
    Some((inp, r.0, r.1))
}

pub fn d01(c: &mut Ctx) {
    let n = c.n(60);
    for it in 0..n {
        if c.over() { break; }
        let nx = if it < 6 { it + 1 } else { c.u(1, 9) };
        let ns = match it % 6 { 0 => 1, 1 => 2, 2 => 3, 3 => c.u(4, 20), 4 => c.u(1, 40), _ => c.u(2, 12) };
        let seed = c.u(0, 1 << 30) as u64;
        let x = xlimits(c, nx);
        for w in 0..7 {
            if w == 4 && nx * ns > 120 { continue; }
            let Some((inp, u, s)) = designs(c, &x, ns, seed, w) else { continue };
            let inp = c.case("design", inp);
            c.check(u.dim() == (ns, nx) && s.dim() == (ns, nx), "D01/shape", &inp, || format!("shapes {:?} {:?}", u.dim(), s.dim()));
            if u.dim() != (ns, nx) || s.dim() != (ns, nx) { continue; }
            for i in 0..ns { for j in 0..nx {
                let (lo, hi) = (x[[j, 0]], x[[j, 1]]);
                let tol = 1e-12 * (1. + lo.abs().max(hi.abs()));
                let (a, b) = (u[[i, j]], s[[i, j]]);
                c.check((0. ..=1.).contains(&a), "D01/unit-range", &inp, || format!("normalized[{i},{j}]={a}"));
                c.check(b >= lo - tol && b <= hi + tol, "D01/domain", &inp, || format!("sample[{i},{j}]={b} not in [{lo},{hi}]"));
                c.check((b - (lo + a * (hi - lo))).abs() <= 10. * tol, "D01/affine", &inp, || format!("sample[{i},{j}]={b}, affine image of {a} in [{lo},{hi}] is {}", lo + a * (hi - lo)));
            } }
        }
    }
}

pub fn d02(c: &mut Ctx) {
    let n = c.n(60);
    for it in 0..n {
        if c.over() { break; }
        let nx = if it < 5 { it + 1 } else { c.u(1, 7) };
        let ns = match it % 5 { 0 => 2, 1 => c.u(2, 5), 2 => c.u(1, 15), 3 => 1, _ => c.u(5, 30) };
        let seed = c.u(0, 1 << 30) as u64;
        let mut x = xlimits(c, nx);
        for j in 0..nx { if x[[j, 1]] - x[[j, 0]] < 1e-2 { x[[j, 1]] = x[[j, 0]] + 1.; } }
        for w in 0..5 {
            if w == 4 && nx * ns > 120 { continue; }
            let Some((inp, u, s)) = designs(c, &x, ns, seed, w) else { continue };
            let inp = c.case("lhs", inp);
            for j in 0..nx {
                for (nm, a) in [("unit", &u), ("domain", &s)] {
                    let mut cnt = vec![0usize; ns];
                    for i in 0..ns {
                        let t = if nm == "unit" { a[[i, j]] } else { (a[[i, j]] - x[[j, 0]]) / (x[[j, 1]] - x[[j, 0]]) };
                        let k = ((t * ns as f64) - if nm == "domain" { 0. } else { 0. }).floor();
                        let fr = t * ns as f64 - k;
                        // a point within rounding of a slice border counts for the slice that still misses one
                        let mut k = k.max(0.).min(ns as f64 - 1.) as usize;
                        if cnt[k] > 0 && fr < 1e-9 && k > 0 && cnt[k - 1] == 0 { k -= 1 } else if cnt[k] > 0 && fr > 1. - 1e-9 && k + 1 < ns && cnt[k + 1] == 0 { k += 1 }
                        cnt[k] += 1;
                        if w == 1 || w == 3 {
                            let m = t * ns as f64;
                            c.check((m - m.floor() - 0.5).abs() < 1e-6, "D02/centered", &inp, || format!("point {i} variable {j}: {m} slices from the lower bound"));
                        }
                    }
                    c.check(cnt.iter().all(|v| *v == 1), "D02/strata", &inp, || format!("{nm} variable {j}: slice counts {cnt:?}"));
                }
            }
        }
    }
}

pub fn d03(c: &mut Ctx) {
    let lim = if c.thorough { 300 } else { 90 };
    for nx in 1..=6usize {
        for ns in 1..=lim {
            if c.over() { return; }
            let x = xlimits(c, nx);
            let Some((inp, u, _)) = designs(c, &x, ns, 0, 5) else { continue };
            let inp = c.case("full factorial", inp);
            if !c.check(u.dim() == (ns, nx), "D03/shape", &inp, || format!("{:?}", u.dim())) { continue; }
            let mut rows: Vec<Vec<i64>> = u.rows().into_iter().map(|r| r.iter().map(|v| (v * 1e9).round() as i64).collect()).collect();
            let all = rows.clone();
            rows.sort(); rows.dedup();
            c.check(rows.len() == ns, "D03/distinct", &inp, || format!("{} distinct points of {ns}", rows.len()));
            // the expected level counts: as balanced as possible, product >= ns
            // a truncated grid may not show all levels, so every coordinate must be k/(n-1) for the n of a valid grid
            let ok = grids(nx, ns).iter().any(|g| all.iter().all(|r| r.iter().zip(g).all(|(v, n)| on_level(*v, *n))));
            c.check(ok, "D03/grid", &inp, || format!("points are not on any regular balanced grid of at least {ns} nodes: {:?}", all));
        }
    }
}
fn on_level(v: i64, n: usize) -> bool {
    (0..n).any(|k| (v - if n > 1 { (k as f64 / (n - 1) as f64 * 1e9).round() as i64 } else { 0 }).abs() <= 2)
}
fn grids(nx: usize, ns: usize) -> Vec<Vec<usize>> {
    // all grids whose level counts differ by at most one and whose size is at least ns, but minimal in total level count
    let mut best: Vec<Vec<usize>> = vec![];
    let mut total = nx;
    loop {
        let (q, r) = (total / nx, total % nx);
        for mask in 0..(1u32 << nx) {
            if mask.count_ones() as usize != r { continue; }
            let g: Vec<usize> = (0..nx).map(|j| q + ((mask >> j) & 1) as usize).collect();
            if g.iter().product::<usize>() >= ns { best.push(g); }
        }
        if !best.is_empty() { return best; }
        total += 1;
    }
}

pub fn d04(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    {
        use egobox_doe::vp_hooks::*;
        let n = c.n(400);
        for it in 0..n {
            if c.over() { break; }
            let (na, nb, nx) = (c.u(1, 9), c.u(1, 9), c.u(1, 6));
            let dup = c.b(0.2);
            let mut mk = |n: usize| { let mut a = Array2::from_shape_fn((n, nx), |_| 0.); for v in a.iter_mut() { *v = if dup { c.u(0, 2) as f64 } else { c.f(-5., 5.) }; } a };
            let (a, b) = (mk(na), mk(nb));
            let inp = c.case("distances", format!("a={a:?} b={b:?}"));
            let d = |r: ndarray::ArrayView1<f64>, s: ndarray::ArrayView1<f64>| r.iter().zip(s.iter()).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
            if let Some(p) = c.guard("D04/pdist", &inp, || pdist(&a)) {
                let mut want = vec![];
                for i in 0..na { for j in i + 1..na { want.push(d(a.row(i), a.row(j))); } }
                c.check(p.len() == want.len() && p.iter().zip(&want).all(|(x, y)| near(*x, *y, 1e-12)), "D04/pdist", &inp, || format!("{p:?} expected {want:?}"));
            }
            if let Some(m) = c.guard("D04/cdist", &inp, || cdist(&a, &b)) {
                c.check(m.dim() == (na, nb), "D04/cdist", &inp, || format!("{:?}", m.dim()));
                if m.dim() == (na, nb) { for i in 0..na { for j in 0..nb { c.close(m[[i, j]], d(a.row(i), b.row(j)), 1e-12, "D04/cdist", &inp); } } }
            }
            // swap update of the criterion on a latin hypercube
            let ns = c.u(2, 9);
            let x = Array2::from_shape_fn((nx, 2), |(_, j)| j as f64);
            let seed = it as u64;
            let l = Lhs::new_with_rng(&x, Xoshiro256Plus::seed_from_u64(seed)).kind(LhsKind::Classic);
            let x0 = l.normalized_sample(ns);
            let k = c.u(0, nx - 1);
            let p = [2., 5., 10.][c.u(0, 2)];
            let inp = c.case("phip swap", format!("x={x0:?} column={k} p={p} seed={seed}"));
            let phi = |x: &Array2<f64>| -> f64 { let mut s = 0.; for i in 0..ns { for j in i + 1..ns { s += d(x.row(i), x.row(j)).powf(-p); } } s.powf(1. / p) };
            if let Some((x1, r)) = c.guard("D04/phip-swap", &inp, || phip_swap(&x0, k, phi(&x0), p, seed)) {
                c.close(r, phi(&x1), 1e-6, "D04/phip-swap", &inp);
                let mut diff: Vec<(usize, usize)> = vec![];
                for i in 0..ns { for j in 0..nx { if x0[[i, j]] != x1[[i, j]] { diff.push((i, j)); } } }
                c.check(diff.len() == 2 && diff[0].1 == k && diff[1].1 == k && x1[diff[0]] == x0[diff[1]] && x1[diff[1]] == x0[diff[0]], "D04/swap-frame", &inp, || format!("changed entries {diff:?}"));
                c.close(phip(&x0, p), phi(&x0), 1e-9, "D04/phip", &inp);
            }
        }
    }
    let _ = (c, Array1::<f64>::zeros(0));
}
