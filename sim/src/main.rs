#[macro_use]
extern crate serde_derive;
mod model;
mod orch;
mod props;

fn main() {
    simrt::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|x| !x.is_empty()).unwrap_or(d.to_string());
    let code = match &a[..] {
        ["check", id] => {
            let Some(p) = props::find(id) else {
                println!("unknown property {id}");
                std::process::exit(2)
            };
            let tier = env("VERIF_TIER", "quick");
            let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
            let th = tier == "thorough";
            let runs = env("KSIM_RUNS", "").parse().unwrap_or(if th { p.thorough } else { p.quick }).min(orch::MAX_RUNS as u64);
            orch::check(orch::Batch {
                prop: p,
                seed,
                tier: if th { "thorough".into() } else { "quick".into() },
                runs,
                workers: env("KSIM_WORKERS", "8").parse().unwrap_or(8).clamp(1, 64),
                secs: env("KSIM_SECS", "").parse().unwrap_or(if th { 660.0 } else { 150.0 }),
                dir: env("VERIF_DIR", "/verif"),
            })
        }
        ["replay", f] => orch::replay(f, false),
        ["one", id, seed, idx] => {
            let p = props::find(id).expect("property");
            simrt::use_shared(simrt::new_shared());
            let v = orch::execute(p, simrt::Source::Random(orch::run_seed(seed.parse().unwrap(), p.id, idx.parse().unwrap())), true, false);
            print!("{}", simrt::shared().log_str());
            println!("{v:?}");
            0
        }
        ["selftest", id, seeds, runs] => orch::selftest(props::find(id).expect("property"), seeds.parse().unwrap(), runs.parse().unwrap()),
        _ => {
            println!("usage: ksim check ID | replay FILE | one ID SEED RUN | selftest ID SEEDS RUNS");
            2
        }
    };
    std::process::exit(code)
}
