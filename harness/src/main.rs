#[macro_use]
mod core;
mod chan;
mod curve;
mod dkgped;
mod dkgrab;
mod dss;
mod field;
mod keys;
mod poly;
mod rnd;
mod sig;
mod toy;
mod vss;
mod vsskind;
mod xof;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let out = get("--out").expect("--out");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    core::install_hooks(out.clone(), 60);
    core::seed_store(seed);
    let mut log = core::Log::new();
    let rows: Vec<serde_json::Value> = get("--script")
        .map(|p| serde_json::from_str(&std::fs::read_to_string(p).expect("script")).expect("script"))
        .unwrap_or_default();
    match a[1].as_str() {
        "poly" => poly::run(seed, thorough, &mut log),
        "vssped" => vss::run::<vsskind::Ped>(seed, thorough, &rows, &mut log),
        "vssrab" => vss::run::<vsskind::Rab>(seed, thorough, &rows, &mut log),
        "dkgped" => {
            dkgped::run_fresh(seed, thorough, &mut log);
            dkgped::run_scripts(&rows, &mut log)
        }
        "dkgrab" => {
            dkgrab::run(seed, thorough, &mut log);
            dkgrab::run_scripts(&rows, &mut log)
        }
        "dss" => dss::run(seed, thorough, &rows, &mut log),
        "sig" => sig::run(seed, thorough, &mut log),
        "chan" => chan::run(seed, thorough, &mut log),
        "xof" => xof::run(seed, thorough, &rows, &mut log),
        "keys" => keys::run(seed, thorough, &mut log),
        "rand" => rnd::run(seed, thorough, &mut log),
        "curve" => curve::run(seed, thorough, &mut log),
        "scalar" => field::run_ed(seed, thorough, &mut log),
        "int" => field::run_int(seed, thorough, &mut log),
        "dkgre" => {
            dkgped::run_reshare(seed, thorough, &mut log);
            dkgped::run_scripts(&rows, &mut log)
        }
        x => {
            eprintln!("unknown engine {x}");
            std::process::exit(2)
        }
    }
    log.write(&out);
}
