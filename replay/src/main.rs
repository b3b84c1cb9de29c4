//! Executable form of the contracts, run on the compiled crates with generated inputs.
mod ctx;
mod doe;
#[cfg(feature = "gp")]
mod gp;
#[cfg(feature = "moe")]
mod moe;
#[cfg(feature = "ego")]
mod ego;
use ctx::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx::new(seed, thorough, if thorough { 600 } else { 60 });
    match pid.as_str() {
        "D01" => doe::d01(&mut c),
        "D02" => doe::d02(&mut c),
        "D03" => doe::d03(&mut c),
        "D04" => doe::d04(&mut c),
        #[cfg(feature = "gp")]
        "K01" => gp::k01(&mut c),
        #[cfg(feature = "gp")]
        "K02" => gp::k02(&mut c),
        #[cfg(feature = "gp")]
        "N01" => gp::n01(&mut c),
        #[cfg(feature = "gp")]
        "G01" => gp::g01(&mut c),
        #[cfg(feature = "gp")]
        "G02" => gp::g02(&mut c),
        #[cfg(feature = "gp")]
        "G03" => gp::g03(&mut c),
        #[cfg(feature = "gp")]
        "L01" => gp::l01(&mut c),
        #[cfg(all(feature = "gp", not(feature = "moe")))]
        "Q01" => gp::q01(&mut c),
        #[cfg(feature = "moe")]
        "Q01" => { gp::q01(&mut c); moe::q01(&mut c) }
        #[cfg(feature = "moe")]
        "X01" | "X02" | "X03" => moe::run(&pid, &mut c),
        #[cfg(feature = "ego")]
        p => ego::run(p, &mut c),
        #[cfg(not(feature = "ego"))]
        _ => {}
    }
    println!("{}", serde_json::json!({"summary": {"evaluations": c.evals, "distinct": c.distinct.len(), "probes": c.probes, "samples": c.samples, "s": c.start.elapsed().as_secs_f64()}}));
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}
