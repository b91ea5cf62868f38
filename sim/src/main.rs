#[macro_use]
mod kernel;
mod codec;
mod icd;
mod link;
mod types;
mod usb;
mod runner;
mod worlds;

use std::path::Path;

fn main() {
    kernel::install_panic_hook();
    if std::env::var("PRPC_SIM_NO_PREEMPT").is_ok() {
        runner::no_preempt();
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let checks = worlds::checks();
    let env = |n: &str, d: &str| std::env::var(n).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string());
    let vseed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let code = match g(0) {
        "check" => {
            let tier = env("VERIF_TIER", "quick");
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let scale: f64 = env("PRPC_SIM_SCALE", "1").parse().unwrap_or(1.0);
            runner::check(&checks, g(1), vseed, tier, scale)
        }
        "work" => runner::work(&checks, g(1), num(2, 1), num(3, 0), num(4, 1), num(5, 1) as usize, Path::new(g(6))),
        "replay" => runner::replay(&checks, Path::new(g(1)), g(2) != "-q"),
        "one" => runner::one(&checks, g(1), vseed, num(2, 0), g(3) != "-q"),
        "chain" => {
            runner::chain_only(&checks, vseed, num(1, 200), num(2, 4) as usize);
            0
        }
        "list" => {
            for c in &checks {
                println!("{} {:?}", c.prop, c.scns.iter().map(|s| s.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: prpc-sim check PROP | replay FILE | one PROP IDX | chain N THREADS | list");
            2
        }
    };
    std::process::exit(code);
}
