mod ctx;
mod jchecks;
mod jcore;
mod jdry;
mod jnode;
mod jproofs;
mod jfault;
mod jrestore;
mod jser;
mod jstore;
mod jvar;
mod pchecks;
mod pcore;
mod pfault;
mod pmiss;
mod phand;
mod pmpt;
mod pproof;
mod plans;
mod smt;

use ctx::*;
use jcore::*;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;

fn jcheck(id: &str, ctx: &Ctx) -> Option<Box<dyn Check>> {
    let q = ctx.quick();
    Some(match id {
        "J01" => Box::new(jchecks::J01),
        "J02" => Box::<jchecks::J02>::default(),
        "J03" => Box::new(jchecks::J03 { seqs: jchecks::j03_seqs(q) }),
        "J04" => Box::new(jchecks::J04),
        "J06" => Box::new(jchecks::J06),
        "J08" => Box::new(jchecks::J08),
        "J09" => Box::new(jchecks::J09),
        "J19" => Box::new(jchecks::J19),
        "J10" => Box::new(jchecks::J10 { probe_sets: jchecks::j10_sets(), deep: !q }),
        "J15" => Box::new(jser::J15 { wide: !q }),
        "J05" => Box::new(jproofs::J05 { wide: !q }),
        _ => return None,
    })
}

fn pcheck(id: &str) -> Option<Box<dyn pcore::PCheck>> {
    Some(match id {
        "P01" => Box::new(pchecks::P01),
        "P02" => Box::new(pchecks::P02),
        "P03" => Box::new(pchecks::P03),
        "P04" => Box::new(pchecks::P04),
        "P05" => Box::new(pchecks::P05),
        "P14" => Box::new(pchecks::P14),
        "P15" => Box::new(pmiss::P15),
        "P07" => Box::new(pchecks::P07),
        "P11" => Box::new(phand::P11 { onwards: true }),
        _ => return None,
    })
}

fn run(id: &str, ctx: &Ctx) -> bool {
    match id {
        "J18" => {
            jdry::run(ctx);
            return true;
        }
        "P11" => {
            phand::run11(ctx);
            return true;
        }
        "P12" => {
            phand::run12(ctx);
            return true;
        }
        "P13" => {
            phand::run13(ctx);
            return true;
        }
        _ => {}
    }
    if id == "P15" {
        pmiss::run15(ctx);
        return true;
    }
    if let Some(ck) = pcheck(id) {
        pchecks::run(id, ctx, ck.as_ref());
        return true;
    }
    match id {
        "P08" => {
            pfault::run08(ctx);
            return true;
        }
        "P09" => {
            pfault::run09(ctx);
            return true;
        }
        "P06" => {
            pproof::run(ctx);
            return true;
        }
        "J07" => {
            for (u, pre) in jproofs::j07_universes(false) {
                let n = u.keys.len();
                let sets = all_sets(n, u.vals.len());
                explore(ctx, &Plan::closed(u, sets), &jproofs::J07 { pre });
            }
            let more = jproofs::j07_more(ctx.quick());
            ctx::par(ctx, &more, |(p, pre)| {
                explore_quiet(ctx, p, &jproofs::J07 { pre: pre.clone() }, false);
            });
            ctx.scope(json!({"universes of other sizes": more.len(), "kinds": "keys and values of every length to 70 and around powers of two to 65536, values of every byte, first versions around every power of two, up to 300 (600) entries"}));
            ctx.assume("the ics23 crate's verifier is correct; trees deeper than the mining bound are not reached");
            return true;
        }
        "J14" => {
            jstore::run_j14(ctx);
            return true;
        }
        "J16" => {
            jfault::j16_run(ctx);
            return true;
        }
        "J11" => {
            jrestore::run_j11(ctx);
            jvar::run(ctx, id);
            return true;
        }
        "J12" => {
            jrestore::run_j12(ctx);
            return true;
        }
        "J13" => {
            jrestore::run_j13(ctx);
            jvar::run(ctx, id);
            return true;
        }
        _ => {}
    }
    if let Some(ck) = jcheck(id, ctx) {
        if id == "J15" {
            jser::j15_short(ctx);
            jnode::run15(ctx);
        }
        if id == "J04" {
            jnode::run(ctx);
        }
        let plans = match id {
            "J03" => jchecks::j03_plans(ctx),
            "J05" => jproofs::j05_plans(ctx),
            "J15" => jser::j15_plans(ctx),
            "J01" | "J02" | "J09" => plans::standard(ctx, plans::Opts::default()),
            "J10" => plans::standard(ctx, plans::Opts { nvals: 1, ..Default::default() }),
            _ => plans::standard(ctx, plans::Opts { nvals: 1, ..Default::default() }),
        };
        for p in &plans {
            let t = std::time::Instant::now();
            explore(ctx, p, ck.as_ref());
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("  plan {} sets={} depth={} dedupe={}: {:.1}s", p.uni.name, p.sets.len(), p.depth, p.dedupe, t.elapsed().as_secs_f64());
            }
        }
        plans::sweep(ctx, id, ck.as_ref());
        let t = std::time::Instant::now();
        plans::large(ctx, id, ck.as_ref());
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("  large {:.1}s", t.elapsed().as_secs_f64());
        }
        if ["J02", "J04", "J06", "J08", "J09", "J10"].contains(&id) {
            jvar::run(ctx, id);
        }
        ctx.assume("storage behaves as the bundled in-memory store does; SHA-256 has no collisions");
        return true;
    }
    false
}

fn do_replay(id: &str, ctx: &Ctx, case: &Value) {
    if case.get("configuration").is_some() {
        return jvar::replay(ctx, id, case);
    }
    if case.get("fault_trie").is_some() {
        return pfault::replay08(ctx, case);
    }
    if case.get("crash_trie").is_some() {
        return pfault::replay09(ctx, case);
    }
    if case.get("trie").is_some() {
        if let Some(ck) = pcheck(id) {
            pcore::replay(ctx, case, ck.as_ref());
            return;
        }
    }
    if case.get("hist").is_some() {
        if id == "J07" {
            let u = Uni::from_json(&case["uni"]);
            for q in [true, false] {
                for (x, pre) in jproofs::j07_universes(q).into_iter().chain(jproofs::j07_more(q).into_iter().map(|(p, pre)| (p.uni, pre))) {
                    if x.keys == u.keys {
                        replay(ctx, case, &jproofs::J07 { pre });
                        return;
                    }
                }
            }
        }
        if id == "J18" {
            let u = Uni::from_json(&case["uni"]);
            replay(ctx, case, &jdry::check_for(&u));
            return;
        }
        if let Some(ck) = jcheck(id, ctx) {
            replay(ctx, case, ck.as_ref());
            return;
        }
    }
    // cases of exhaustive side scopes: run the whole property again
    run(id, ctx);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let tier = if args.iter().any(|a| a == "thorough") { Tier::Thorough } else { tier };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let deadline = std::env::var("MC_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 5400 });
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match mode {
        "inner" => {
            let id = &args[2];
            install_panic_hook();
            let ctx = Ctx::new(id, tier, seed, &verif, deadline);
            let mut known = true;
            unguarded(&ctx, || known = run(id, &ctx));
            if !known {
                eprintln!("no such check: {}", id);
                std::process::exit(2);
            }
            std::process::exit(ctx.finish());
        }
        "inner-replay" => {
            install_panic_hook();
            let doc: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("read replay")).expect("json");
            let id = doc["property"].as_str().unwrap().to_string();
            let mut ctx = Ctx::new(&id, tier, seed, &verif, deadline);
            ctx.replaying = true;
            unguarded(&ctx, || do_replay(&id, &ctx, &doc["case"]));
            std::process::exit(ctx.finish());
        }
        "check" | "replay" => {
            let exe = std::env::current_exe().unwrap();
            let what = args[2].clone();
            let inner = if mode == "check" { "inner" } else { "inner-replay" };
            let tier_arg = if tier == Tier::Thorough { "thorough" } else { "quick" };
            let run1 = |bc: Option<&str>| {
                let mut c = Command::new(&exe);
                c.arg(inner).arg(&what).arg(tier_arg).env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0");
                if let Some(b) = bc {
                    c.env("MC_BREADCRUMB", b);
                }
                c.status().expect("run")
            };
            let st = run1(None);
            if let Some(code) = st.code() {
                std::process::exit(code);
            }
            // killed by a signal: stack overflow or abort inside the code under test? find the case, single-threaded
            eprintln!("check process died ({:?}); locating the case", st.signal());
            let _ = std::fs::create_dir_all(format!("{}/replays", verif));
            let bc = format!("{}/replays/.breadcrumb-{}", verif, std::process::id());
            let st2 = run1(Some(&bc));
            let case: Value = std::fs::read_to_string(&bc).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
            let _ = std::fs::remove_file(&bc);
            match st2.code() {
                // died for want of memory, not of itself
                Some(0) if st.signal() == Some(9) => std::process::exit(2),
                Some(0) | None => {}
                Some(code) => std::process::exit(code),
            }
            let id = if mode == "check" { what.clone() } else { "?".into() };
            let path = format!("{}/replays/{}-crash.json", verif, id);
            if mode == "check" {
                let doc = json!({"property": id, "sig": "crash", "msg": format!("the process died with signal {:?}", st.signal()), "case": case});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
                let ev = json!({"property": id, "tier": tier_arg, "seed": seed, "level": "model_checking",
                    "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [case], "exhaustive": false},
                    "assumptions": [], "wall_s": 0, "violations": 1});
                let _ = std::fs::write(format!("{}/evidence/{}.json", verif, id), ev.to_string());
            }
            println!("  sig=crash the code under test killed the process (signal {:?})", st.signal());
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        }
        _ => {
            eprintln!("usage: mc check <ID> [quick|thorough] | mc replay <file>");
            std::process::exit(2);
        }
    }
}
