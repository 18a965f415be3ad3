//! Runtime monitors for monolith: `mon <property> --seed N --tier quick|thorough`.
#![allow(dead_code)]
mod backends;
mod chaos;
mod checks;
mod child;
mod core;
mod gen;
mod history;
mod http;
mod mem;
mod model;
mod proto;

use crate::core::*;
use serde_json::{json, Value as J};
use std::path::{Path, PathBuf};

#[global_allocator]
static ALLOC: chaos::Alloc = chaos::Alloc;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    install_panic_hook();
    chaos::install_logger();
    tikv_client::stub::set_pause(chaos::point);
    if cmd == "child" {
        std::process::exit(child::main(&args[2..]));
    }
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier").map(|t| t == "thorough").unwrap_or(false);
    let verif = PathBuf::from(arg(&args, "--verif").unwrap_or_else(|| "/verif".into()));
    let scratch = PathBuf::from(arg(&args, "--scratch").unwrap_or_else(|| format!("/tmp/mon-{}", std::process::id())));
    let known = load_known(&verif.join("known-findings.jsonl"), &cmd);
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut ctx = Ctx::new(&cmd, seed, thorough, scratch.clone());
    ctx.known = known.iter().map(|k| k.0.clone()).collect();
    let spec = match checks::ALL.iter().find(|c| c.id == cmd) {
        Some(s) => s,
        None => {
            eprintln!("no such check: {}", cmd);
            std::process::exit(3)
        }
    };
    // The run itself; a watchdog notices when nothing completes any more.
    let ctx = std::sync::Arc::new(ctx);
    let (tx, rx) = std::sync::mpsc::channel();
    {
        let ctx = ctx.clone();
        let run = spec.run;
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let r = guard(|| run(&ctx));
                let _ = tx.send(r);
            })
            .unwrap();
    }
    let mut last = (ctx.beats(), std::time::Instant::now());
    let ran = loop {
        match rx.recv_timeout(std::time::Duration::from_millis(500)) {
            Ok(r) => break r,
            Err(_) => {
                let b = ctx.beats();
                if b != last.0 {
                    last = (b, std::time::Instant::now());
                } else if last.1.elapsed().as_secs() > 150 {
                    ctx.violation("no-progress", json!({"what": "no operation completed for 150 s: the code under test is stuck (deadlock or endless loop)",
                        "panics": panics_seen()}));
                    break Ok(());
                }
            }
        }
    };
    let mut code = 0;
    let mut nviol = 0;
    let mut known_seen: Vec<String> = vec![];
    let viols = ctx.take_violations();
    let dir = verif.join("evidence").join("replays");
    let mut printed = std::collections::BTreeSet::new();
    for (i, v) in viols.iter().enumerate() {
        if let Some(k) = known.iter().find(|k| k.0 == v.sig) {
            if !known_seen.contains(&v.sig) {
                println!("KNOWN-FINDING: property={} {}", cmd, k.1);
                known_seen.push(v.sig.clone());
            }
            continue;
        }
        nviol += 1;
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}-{}.json", cmd, seed, i));
        let j = json!({"property": cmd, "signature": v.sig, "seed": seed, "tier": if thorough {"thorough"} else {"quick"},
            "detail": v.detail, "rerun": format!("VERIF_SEED={} VERIF_TIER={} ./check {}", seed, if thorough {"thorough"} else {"quick"}, cmd)});
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
        if printed.insert(v.sig.clone()) {
            println!("VIOLATION property={} replay={}", cmd, f.display());
            let d = serde_json::to_string(&v.detail).unwrap();
            println!("  [{}] {}", v.sig, d.chars().take(900).collect::<String>());
        }
        code = 1;
    }
    if let Err(p) = ran {
        if code == 0 {
            eprintln!("check {} could not finish: {}", cmd, p);
            code = 4;
        }
    }
    if code == 0 && ctx.evaluations() == 0 {
        eprintln!("check {} observed nothing: inconclusive", cmd);
        code = 5;
    }
    let ev = ctx.evidence(spec.level, spec.rule, spec.assumptions, nviol, &known_seen);
    let evd = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{}.json", cmd)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("evidence: {}", e);
        code = if code == 0 { 6 } else { code };
    }
    println!(
        "{} seed={} evaluations={} distinct={} wall={:.1}s -> {}",
        cmd,
        seed,
        ctx.evaluations(),
        ctx.distinct(),
        ctx.t0.elapsed().as_secs_f64(),
        if code == 0 { "held on everything observed" } else { "exit " }.to_string() + &if code == 0 { String::new() } else { code.to_string() }
    );
    rm_rf(&scratch);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// (signature, description) of the listed findings of a property.
fn load_known(p: &Path, id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Ok(j) = serde_json::from_str::<J>(l) {
            if j["status"] == "known" && j["property"] == id {
                out.push((j["signature"].as_str().unwrap_or("").to_string(), j["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    out
}
