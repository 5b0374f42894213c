mod alloc;
mod clock;
#[cfg(feature = "main")]
mod drive;
mod gen;
mod props;
mod refcodec;
#[macro_use]
mod runner;
mod sim;
mod util;

use runner::Runner;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    runner::install_panic_hook();
    runner::start_watchdog(Duration::from_secs(
        env("BVT_WATCHDOG").and_then(|v| v.parse().ok()).unwrap_or(700),
    ));
    let known_file = env("BVT_KNOWN").unwrap_or_else(|| "/verif/known_findings.txt".into());
    let mut r = Runner {
        property: String::new(),
        seed: env("VERIF_SEED").and_then(|v| v.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        scale: env("BVT_SCALE").and_then(|v| v.parse().ok()).unwrap_or(1.0),
        replay: None,
        only: env("BVT_PART"),
        prefix: String::new(),
        known: runner::load_known(&known_file),
        evaluations: 0,
        nontrivial: Default::default(),
        samples: vec![],
        labels: Default::default(),
        parts: vec![],
        rules: vec![],
        known_seen: Default::default(),
        failures: vec![],
        replayed: false,
    };
    match args.first().map(|s| s.as_str()) {
        Some("run") => r.property = args[1].clone(),
        Some("replay") => {
            let doc: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&args[1]).expect("replay file")).expect("replay file");
            r.property = doc["property"].as_str().unwrap().to_string();
            r.replay = Some((doc["part"].as_str().unwrap().to_string(), doc["case"].clone()));
        }
        #[cfg(feature = "main")]
        Some("ids") => return props::ids::fresh(&args[1..]),
        #[cfg(feature = "encryption")]
        Some("secrets") => return props::keys::fresh(&args[1..]),
        #[cfg(feature = "main")]
        Some("serve") => props::transports::serve(&args[1..]),
        _ => {
            eprintln!("usage: bvt run <property> [out.json] | bvt replay <file>");
            std::process::exit(2);
        }
    }
    let started = Instant::now();
    let property = r.property.clone();
    let ran = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&property, &mut r)));
    let Ok(known) = ran else {
        // outside of any case: not a violation
        eprintln!("harness: {}", runner::stray_panics().join("; "));
        std::process::exit(3);
    };
    if !known {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    }
    if r.replay.is_some() {
        if !r.replayed {
            eprintln!("no such part in this variant");
            std::process::exit(2);
        }
        std::process::exit(if r.failures.is_empty() { 0 } else { 1 });
    }
    let doc = serde_json::json!({
        "property": property,
        "evaluations": r.evaluations,
        "distinct_nontrivial": r.nontrivial.len(),
        "rule": r.rules.join(" "),
        "samples": r.samples,
        "labels": r.labels,
        "parts": r.parts,
        "known_seen": r.known_seen,
        "failures": r.failures.iter().map(|(p, f, m)| serde_json::json!({"part": p, "replay": f, "message": m})).collect::<Vec<_>>(),
        "wall_s": started.elapsed().as_secs_f64(),
    });
    if let Some(out) = args.get(2) {
        std::fs::write(out, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
    }
    for (part, path, msg) in &r.failures {
        println!("FAILURE part={part} replay={path}\n  {msg}");
    }
    std::process::exit(if r.failures.is_empty() { 0 } else { 1 });
}
