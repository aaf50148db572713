// (what the pool prints is captured per thread: RUSTC_BOOTSTRAP=vp in run.sh)
#![feature(internal_output_capture)]
mod core;
mod num;
mod dec;
mod d_props;
mod pool;
mod p_props;
mod m_props;
mod chain;
mod o_props;
mod x_props;
mod py;
mod r_props;

use crate::core::*;
use serde_json::Value;
use std::time::Instant;

fn subs(id: &str) -> Option<Vec<Box<dyn SubCheck>>> {
    d_props::subs(id).or_else(|| py::subs(id)).or_else(|| r_props::subs(id)).or_else(|| m_props::subs(id)).or_else(|| o_props::subs(id)).or_else(|| x_props::subs(id)).or_else(|| p_props::subs(id))
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let real = Real::take();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args[2].clone();
            let tier = match args.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let threads = std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
            });
            let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            // quick runs of the cheap properties get more cases than their sub-checks ask for
            let scale = scale
                * match (tier, id[1..].parse::<u32>().unwrap_or(0)) {
                    (Tier::Quick, 1..=13 | 28..=39 | 42 | 44) => 4.0,
                    (Tier::Quick, 14..=26) => 1.5,
                    _ => 1.0,
                };
            let known: Vec<KnownFinding> = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir()))
                .ok()
                .and_then(|s| serde_json::from_str::<Value>(&s).ok())
                .and_then(|v| serde_json::from_value(v["findings"].clone()).ok())
                .unwrap_or_default();
            let ctx = Ctx {
                id: id.clone(),
                tier,
                seed,
                real,
                verif: verif_dir(),
                threads,
                scale,
                only: args.get(4).cloned(),
                known,
                t0: Instant::now(),
            };
            let list = match subs(&id) {
                Some(l) => l,
                None => {
                    ctx.real.say(&format!("no such check {}", id));
                    std::process::exit(2);
                }
            };
            let mut st = Stats::default();
            let mut rules = vec![];
            // known findings are re-run from their recorded input every time
            for k in ctx.known.iter().filter(|k| k.property == id) {
                if let Some(s) = list.iter().find(|s| s.name() == k.sub) {
                    match s.replay(&k.input) {
                        Out::Known(key) if key == k.key => {
                            ctx.real.say(&format!("KNOWN-FINDING: property={} {}", id, k.what));
                            *st.known.entry(k.key.clone()).or_insert(0) += 1;
                        }
                        Out::Bad(r) => {
                            let f = Failure { sub: k.sub.clone(), reason: r, input: k.input.clone() };
                            finish(&ctx, &st, &rules, Some(f));
                        }
                        _ => {}
                    }
                }
            }
            for s in &list {
                if let Some(o) = &ctx.only {
                    if o != s.name() {
                        continue;
                    }
                }
                let t = Instant::now();
                rules.push(format!("{}: {}", s.name(), s.rule()));
                let before = st.evals;
                let f = s.search(&ctx, &mut st);
                if std::env::var("VP_VERBOSE").is_ok() {
                    ctx.real.say(&format!("  {} {} cases {:.1}s", s.name(), st.evals - before, t.elapsed().as_secs_f64()));
                }
                // a known finding may only be met if it is listed
                for k in st.known.keys() {
                    if !ctx.known.iter().any(|x| &x.key == k && x.property == id) {
                        let f = Failure {
                            sub: s.name().to_string(),
                            reason: format!("failure with signature {} is not in known_findings.json", k),
                            input: Value::Null,
                        };
                        finish(&ctx, &st, &rules, Some(f));
                    }
                }
                if f.is_some() {
                    finish(&ctx, &st, &rules, f);
                }
            }
            if std::env::var("VP_VERBOSE").is_ok() {
                for (k, v) in &st.labels {
                    ctx.real.say(&format!("    {} = {}", k, v));
                }
            }
            finish(&ctx, &st, &rules, None)
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let id = v["property"].as_str().unwrap().to_string();
            let sub = v["sub"].as_str().unwrap().to_string();
            let list = subs(&id).expect("property");
            let s = list.iter().find(|s| s.name() == sub).expect("sub-check");
            match s.replay(&v["input"]) {
                Out::Bad(r) => {
                    real.say(&format!("{}/{}: {}", id, sub, r));
                    real.say(&format!("VIOLATION property={} replay={}", id, args[2]));
                    std::process::exit(1);
                }
                Out::Known(k) => real.say(&format!("known finding {}", k)),
                Out::Ok(..) => real.say("held"),
            }
        }
        Some("selftest") => {
            num::selftest(&real);
        }
        _ => {
            real.say("usage: vp check <ID> [quick|thorough] [sub] | vp replay <file>");
            std::process::exit(2);
        }
    }
}
