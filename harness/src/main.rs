mod api;
mod gen;
mod hist;
mod model;
mod props;
mod rng;
mod run;
mod shadow;
mod snap;
mod spec;
mod view;
mod xml;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props::ALL.iter().find(|p| p.id == id).copied();
    let usage = || -> ! { eprintln!("usage: monitor Cxx [quick|thorough] | monitor Cxx --replay FILE | monitor Cxx --case N"); std::process::exit(2) };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            run::worker(find(&args[2]).expect("property"), &args[3], n(4), n(5) as usize, n(6) as usize, std::path::Path::new(&args[7]))
        }
        Some("sub") => props::sub(&args[2..]),
        Some("list") => { for p in props::ALL { println!("{}", p.id); } 0 }
        Some(id) => {
            let prop = match find(id) { Some(p) => p, None => usage() };
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let root = std::env::var("VERIF_ROOT").map(std::path::PathBuf::from).unwrap_or_else(|_| std::path::PathBuf::from("/verif"));
            match args.get(2).map(|s| s.as_str()) {
                Some("--replay") => run::replay(prop, &args[3]),
                Some("--case") => run::one(prop, "quick", seed, args[3].parse().unwrap()),
                tier => {
                    let tier = tier.map(|s| s.to_string()).or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
                    run::check(prop, &tier, seed, &root)
                }
            }
        }
        None => usage(),
    };
    std::process::exit(code);
}
