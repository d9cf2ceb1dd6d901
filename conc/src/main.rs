#[path = "../../mc/src/ctx.rs"]
#[allow(dead_code)]
mod ctx;
mod jconc;
mod pconc;
mod sched;

use ctx::*;
use serde_json::Value;

struct Fixed;
impl ahash::random_state::RandomSource for Fixed {
    fn gen_hasher_seed(&self) -> usize {
        sched::HASH_SEED.with(|s| s.get())
    }
}

fn main() {
    // hash maps of the code under test iterate in the same order in every execution
    let _ = ahash::random_state::set_random_source(Fixed);
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let tier = if args.iter().any(|a| a == "thorough") { Tier::Thorough } else { tier };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let deadline = std::env::var("MC_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 5400 });
    install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = &args[2];
            let ctx = Ctx::new(id, tier, seed, &verif, deadline);
            unguarded(&ctx, || match id.as_str() {
                "J17" => jconc::run(&ctx),
                "P10" => pconc::run(&ctx),
                _ => std::process::exit(2),
            });
            std::process::exit(ctx.finish());
        }
        Some("replay") => {
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("read replay")).expect("json");
            let id = doc["property"].as_str().unwrap().to_string();
            let mut ctx = Ctx::new(&id, tier, seed, &verif, deadline);
            ctx.replaying = true;
            let case = &doc["case"];
            unguarded(&ctx, || match (id.as_str(), case.get("schedule").is_some()) {
                ("J17", true) => jconc::replay_case(&ctx, case),
                ("P10", true) => pconc::replay_case(&ctx, case),
                ("J17", _) => jconc::run(&ctx),
                _ => pconc::run(&ctx),
            });
            std::process::exit(ctx.finish());
        }
        _ => std::process::exit(2),
    }
}
