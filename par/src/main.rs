mod mc;
mod cases;

use mc::*;

fn main() {
    hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => match cases::props(tier == "thorough").into_iter().find(|p| p.id == args[2]) {
            Some(p) => run(&p, tier),
            None => eprintln!("unknown property {}", args[2]),
        },
        Some("replay") => replay(&args[2], &cases::props),
        Some("list") => {
            for t in [false, true] {
                println!("{}:", if t { "thorough" } else { "quick" });
                for p in cases::props(t) {
                    for s in &p.scns {
                        println!("{} {}: {} ({} cases)", p.id, s.name, s.bound(), s.cases.len());
                    }
                }
            }
            return;
        }
        _ => eprintln!("usage: run ID | replay FILE | list"),
    }
    std::process::exit(2)
}
