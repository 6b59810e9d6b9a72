use harness::pbt;
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = harness::props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = args.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let scale = std::env::var("SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0);
            let only = args.get(4).map(|s| s.as_str());
            let cap = if tier == "thorough" { 3000 } else { 420 };
            let id = &args[2];
            let mut ok = true;
            let mut found = false;
            for p in props.iter().filter(|p| p.id == id || id == "all") {
                found = true;
                ok &= pbt::run(p, &tier, seed, Duration::from_secs(cap), only, scale);
            }
            if !found {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            }
            std::process::exit(if ok { 0 } else { 1 });
        }
        Some("replay") => {
            std::process::exit(if pbt::replay(&props, &args[2]) { 0 } else { 1 })
        }
        _ => {
            for p in &props {
                println!("{}", p.id);
            }
        }
    }
}
