mod conform;
mod explore;
mod grammar;
mod job;
mod model;
mod props;
mod resp;
mod scen;
mod sys;

#[global_allocator]
static GLOBAL: sys::Arena = sys::Arena;

use job::*;
use serde_json::json;

fn main() {
    // symbolising backtraces in every execution would dominate the cost
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::remove_var("RUST_LIB_BACKTRACE");
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match a.get(1).map(|s| &s[..]) {
        Some("check") => {
            let id = &a[2];
            let tier = match a.iter().position(|x| x == "--tier").and_then(|i| a.get(i + 1)).map(|s| &s[..]) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
            check(p, tier)
        }
        Some("replay") => replay_file(&a[2], &props),
        Some("list") => {
            for p in &props {
                for t in [Tier::Quick, Tier::Thorough] {
                    for j in (p.jobs)(t) {
                        match j {
                            Job::Sched(f) => println!("{} {t:?} {} threads {} scenarios {}", p.id, f.name, f.threads, f.count),
                            Job::Direct(d) => println!("{} {t:?} {} cases {}", p.id, d.name, d.count),
                        }
                    }
                }
            }
            0
        }
        // default execution of one scenario, with its trace
        Some("trace") => {
            let p = props.iter().find(|p| p.id == a[2]).expect("property");
            for j in (p.jobs)(if a.len() > 5 { Tier::Thorough } else { Tier::Quick }) {
                if let Job::Sched(f) = j {
                    if f.name == a[3] {
                        let mut g = explore::Group::init(&f.key(), vec![]).expect("start");
                        let (r, tr) = g.replay(&f, a[4].parse().unwrap(), &[], true);
                        println!("{tr}{r:?}");
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROP [--tier quick|thorough] | replay FILE | list | trace PROP FAMILY SCENARIO");
            2
        }
    };
    std::process::exit(code);
}

fn check(p: &Prop, tier: Tier) -> i32 {
    let t0 = std::time::Instant::now();
    let limit = std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(300u64, 7200));
    let r = run_prop(p, tier, Some(limit));
    let tname = tier.pick("quick", "thorough");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known = known_findings();
    for k in &r.known {
        for f in known.iter().filter(|f| f.prop == p.id && f.sig == *k) {
            println!("KNOWN-FINDING: property={} {}", p.id, f.what);
        }
    }
    let mut cov = json!({
        "exhaustive": r.complete,
        "samples": r.samples,
        "outcomes": r.outcomes,
        "pruned": r.pruned,
        "families": r.families,
        "notes": r.notes,
        "known_findings_hit": r.known,
        "rule": p.rule,
    });
    let m = cov.as_object_mut().unwrap();
    m.insert("evaluations".into(), json!(r.evaluations));
    m.insert("distinct_nontrivial".into(), json!(r.nontrivial));
    if p.level == "model_checking" {
        m.insert("states".into(), json!(r.states));
        m.insert("transitions".into(), json!(r.transitions));
        m.insert("traces_validated_against_impl".into(), json!(r.traces));
        m.insert("traces_tried".into(), json!(r.trace_total));
    }
    let mut code = 0;
    if let Some(v) = &r.violation {
        let dir = std::path::Path::new("/verif/replays");
        let _ = std::fs::create_dir_all(dir);
        let f = dir.join(format!("{}-{}.json", p.id, tname));
        let doc = json!({"property": p.id, "tier": tname, "violation": v});
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: {}", v["sig"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
        println!("{}", v["trace"].as_str().unwrap_or(""));
        if v["start"] == true && v["must_start"] != true {
            println!("no verdict: {}", v["msg"]);
            code = 2;
        } else {
            println!("VIOLATION property={} replay={}", p.id, f.display());
            code = 1;
        }
    } else if r.evaluations == 0 || r.notes.iter().any(|n| n.starts_with("NO VERDICT")) {
        println!("no verdict: {:?}", r.notes);
        code = 2;
    }
    let ev = json!({"property": p.id, "tier": tname, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": (code == 1) as u32});
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for n in r.notes.iter().take(10) {
        println!("note: {n}");
    }
    println!(
        "{} {}: {} executions, {} states, {} transitions, {} outcomes, complete={}, {} of {} traces agree with the real kernel, {:.1}s",
        p.id, tname, r.evaluations, r.states, r.transitions, r.outcomes, r.complete, r.traces, r.trace_total, t0.elapsed().as_secs_f64()
    );
    code
}
