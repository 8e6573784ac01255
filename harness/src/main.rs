//! Runtime monitors for miniboosts. See ../../DESIGN.md.
#![allow(clippy::type_complexity, clippy::too_many_arguments, clippy::needless_range_loop)]
mod rng;
mod clock;
#[macro_use]
mod ctx;
mod data;
mod learn;
mod booster;
mod refopt;
mod checks;

use ctx::*;
use std::path::PathBuf;

fn env(k: &str, d: &str) -> String { std::env::var(k).unwrap_or_else(|_| d.to_string()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: vmon <property> | vmon replay <file> | vmon case <property> <family> <index> | vmon list";
    let cmd = args.get(1).cloned().unwrap_or_else(|| { eprintln!("{usage}"); std::process::exit(2) });
    let thorough = env("VERIF_TIER", "quick") == "thorough";
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let root = PathBuf::from(env("VMON_ROOT", "/verif"));
    let scratch = PathBuf::from(env("VMON_SCRATCH", "/tmp"));
    let budget_s: u64 = env("VMON_BUDGET", if thorough { "600" } else { "240" }).parse().unwrap();
    let threads: usize = env("VMON_THREADS", "8").parse().unwrap();
    let scale: f64 = env("VMON_SCALE", "1").parse().unwrap();
    let variant = std::env::var("VMON_VARIANT").ok();
    let mut o = Opts { seed, thorough, root, scratch, budget_s, threads, scale, variant };
    install_hook();
    let all = checks::all();
    match cmd.as_str() {
        "list" => { for c in &all { println!("{} {:?}", c.id, c.families.iter().map(|f| f.name).collect::<Vec<_>>()); } }
        "replay" | "case" => {
            let (id, family, index);
            if cmd == "replay" {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
                id = v["property"].as_str().unwrap().to_string();
                family = v["family"].as_str().unwrap().to_string();
                index = v["index"].as_u64().unwrap() as usize;
                o.seed = v["seed"].as_u64().unwrap();
                o.thorough = v["thorough"].as_bool().unwrap_or(false);
            } else {
                id = args[2].clone(); family = args[3].clone(); index = args[4].parse().unwrap();
            }
            let c = all.iter().find(|c| c.id == id).expect("unknown property");
            let f = c.families.iter().find(|f| f.name == family).expect("unknown family");
            let mut cx = make_cx(c.id, f.name, index, &o);
            cx.verbose = true;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.f)(&mut cx))).map(|r| match c.judge { Some(j) => j(r), None => r });
            match r {
                Ok(Ok(())) => println!("held; counters {:?} maxima {:?}", cx.counters, cx.maxima),
                Ok(Err(Stop::Inconclusive(m))) => println!("inconclusive: {m}"),
                Ok(Err(Stop::Viol(v))) => { println!("VIOLATED [{}] {}", v.sig, v.msg); std::process::exit(1); }
                Err(_) => { println!("harness panic"); std::process::exit(2); }
            }
        }
        "console" => {
            let mut cx = make_cx("P21", "console", 0, &o);
            std::process::exit(checks::research::console_child(&mut cx, args[2].parse().expect("seed"), &args[3]));
        }
        "selftest" => checks::conc::selftest(&args[2]),
        id => {
            let c = all.iter().find(|c| c.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}; {usage}"); std::process::exit(2) });
            divert_stdout();
            let code = run_check(c, &o);
            std::process::exit(code);
        }
    }
}
