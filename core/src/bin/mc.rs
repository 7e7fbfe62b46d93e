//! The dynamic checks. `mc <property> quick|thorough`, `mc replay <file>`.
use mcore::{alloc::CheckAlloc, report};

#[global_allocator]
static A: CheckAlloc = CheckAlloc;

#[path = "../mc/mod.rs"]
mod mc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => report::Tier::Thorough,
        _ => report::Tier::Quick,
    };
    if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("replay file");
        let kvs = mcore::text::parse_case(&text);
        let prop = kvs.iter().find(|x| x.0 == "property").expect("property line").1.clone();
        report::init(&prop, report::Tier::Quick, "model_checking");
        mc::replay(&prop, &kvs);
        println!("REPLAY PASSES property={}", prop);
        std::process::exit(0);
    }
    if args[1] == "probe" {
        mc::c12_hostile::probe(&args[2]);
    }
    mc::run(&args[1], tier);
}
