//! C07: a crash at any moment leaves a database that opens again, keeps what had
//! reached the disk, and invents nothing.
use super::Spec;
use crate::backends::*;
use crate::child;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http;
use crate::mem::Shared;
use crate::proto;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C07",
    level: "fault_enumeration",
    rule: "one evaluation = one process ended at one enumerated file operation (before it, in the middle of a write, or after it), at one \
           enumerated key-value operation, or by SIGKILL at a random time, and the recovered database judged against the log of writes and \
           acknowledgements; also one operation on a metadata file or directory failing without a crash; non-trivial = the fault happened \
           and something had been invoked or created before it; distinct by (backend, phase, operation, path kind, mode)",
    assumptions: &[
        "process crash: what the operating system was given is kept (no power loss)",
        "a sample acknowledged more than 2.2 s before the crash has reached the operating system (sled writes its buffers every 500 ms)",
        "recovery inside sled itself is part of what is observed",
    ],
    run,
};

const MARGIN: u64 = 2200;

struct Plan {
    kind: Kind,
    at: u64,
    mode: u64,
    long: bool,
    tikv_at: u64,
    only: Option<&'static str>,
    fail: bool,
}

fn shim() -> PathBuf {
    std::env::var_os("MON_SHIM").map(PathBuf::from).unwrap_or_else(|| http::self_dir().join("../../crash.so"))
}

fn env(dir: &Path, top: &Path, p: &Plan) -> Vec<(&'static str, String)> {
    let mut v = vec![
        ("LD_PRELOAD", shim().canonicalize().expect("crash shim").display().to_string()),
        ("CRASH_PREFIX", dir.display().to_string()),
        ("CRASH_INFO", top.join("info").display().to_string()),
        ("CRASH_AT", p.at.to_string()),
        ("CRASH_MODE", p.mode.to_string()),
    ];
    if let Some(o) = p.only {
        v.push(("CRASH_ONLY", o.into()));
    }
    if p.fail {
        // sled's own reaction to a full disk is not the subject
        v.push(("CRASH_SKIP", "databases".into()));
    }
    v
}

fn run(ctx: &Ctx) {
    // how many operations are there?
    let mut plans: Vec<Plan> = vec![];
    for kind in REAL {
        let (short, tikv_short) = measure(ctx, kind, false);
        if ctx.has_violation() {
            return;
        }
        ctx.count(&format!("file_operations_while_opening:{}", kind.name()), short);
        // every operation of the opening; then a sample of the running phase
        let step = ctx.n(if kind == Kind::SledSled { 1 } else { 2 }, 1);
        let mut r = ctx.rng("plan", kind as u64);
        let mut k = 1 + r.below(step);
        while k <= short + 2 {
            let mode = if ctx.thorough { k % 3 } else { r.below(3) };
            plans.push(Plan { kind, at: k, mode, long: false, tikv_at: 0, only: None, fail: false });
            if ctx.thorough {
                plans.push(Plan { kind, at: k, mode: (k + 1) % 3, long: false, tikv_at: 0, only: None, fail: false });
                plans.push(Plan { kind, at: k, mode: (k + 2) % 3, long: false, tikv_at: 0, only: None, fail: false });
            }
            k += step;
        }
        if kind.uses_tikv() {
            for t in 1..=tikv_short + 1 {
                plans.push(Plan { kind, at: 0, mode: 0, long: false, tikv_at: t, only: None, fail: false });
            }
        }
        let (long, tikv_long) = measure(ctx, kind, true);
        if ctx.has_violation() {
            return;
        }
        ctx.count(&format!("file_operations_while_running:{}", kind.name()), long);
        for _ in 0..ctx.n(if kind == Kind::SledSled { 14 } else { 6 }, 150) {
            plans.push(Plan { kind, at: r.range(short, long + 3), mode: r.below(3), long: true, tikv_at: 0, only: None, fail: false });
        }
        // the rotation's metadata files
        for _ in 0..ctx.n(4, 40) {
            plans.push(Plan { kind, at: r.range(3, 16), mode: r.below(3), long: true, tikv_at: 0, only: Some("metadata"), fail: false });
        }
        for k in 1..=ctx.n(6, 14) {
            plans.push(Plan { kind, at: k, mode: 3, long: k > 7, tikv_at: 0, only: None, fail: true });
        }
        if kind.uses_tikv() {
            for _ in 0..ctx.n(4, 60) {
                plans.push(Plan { kind, at: 0, mode: 0, long: true, tikv_at: r.range(tikv_short, tikv_long + 3), only: None, fail: false });
            }
        }
    }
    let mut r = ctx.rng("order", 0);
    r.shuffle(&mut plans);
    // the long ones mostly sleep
    plans.sort_by_key(|p| !p.long);
    let kills = ctx.n(6, 60);
    let n = plans.len() as u64;
    parallel(32, n + kills, |i| {
        if ctx.stop() {
            return;
        }
        if i < kills {
            killed(ctx, i)
        } else {
            crash(ctx, i, &plans[(i - kills) as usize])
        }
    });
}

fn spec(kind: Kind, top: &Path, dir: &Path, seed: u64, long: bool, tikv_at: u64) -> J {
    json!({"id": "C07", "seed": seed, "kind": kind.name(), "dir": dir, "top": top, "long": long, "tikv_at": tikv_at})
}

fn measure(ctx: &Ctx, kind: Kind, long: bool) -> (u64, u64) {
    let top = ctx.dir("c07m");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let p = Plan { kind, at: 0, mode: 0, long, tikv_at: 0, only: None, fail: false };
    let e = child::run(&top.join("work"), "crashrun", &spec(kind, &top, &dir, 1, long, 0), &env(&dir, &top, &p), None, Duration::from_secs(90));
    let n = info(&top).map(|x| x.0).unwrap_or(0);
    let t = e.report.as_ref().and_then(|r| r["extra"]["tikv_ops"].as_u64()).unwrap_or(0);
    if e.code == Some(0) && n < 3 {
        panic!("the crash shim counts nothing");
    }
    if e.code != Some(0) {
        ctx.violation("run-without-faults", json!({"backend": kind.name(), "what": e.told(), "operations": n}));
    }
    rm_rf(&top);
    (n, t)
}

fn info(top: &Path) -> Option<(u64, u64, String, String)> {
    let s = std::fs::read_to_string(top.join("info")).ok()?;
    let v: Vec<&str> = s.trim().splitn(4, ' ').collect();
    Some((v.first()?.parse().ok()?, v.get(1)?.parse().ok()?, v.get(2)?.to_string(), v.get(3).unwrap_or(&"").to_string()))
}

/// The kind of path an operation was on: chunk names and numbers taken out.
fn path_kind(dir: &Path, p: &str) -> String {
    let rest = p.strip_prefix(&dir.display().to_string()).unwrap_or(p);
    rest.split('/')
        .map(|c| {
            if c.len() > 12 && c.chars().all(|x| x.is_ascii_hexdigit()) {
                "<chunk>".to_string()
            } else {
                c.chars().filter(|x| !x.is_ascii_digit()).collect()
            }
        })
        .collect::<Vec<_>>()
        .join("/")
}

fn crash(ctx: &Ctx, i: u64, p: &Plan) {
    let mut r = ctx.rng("crash", i);
    let top = ctx.dir("c07");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let seed = r.next();
    let e = child::run(&top.join("work"), "crashrun", &spec(p.kind, &top, &dir, seed, p.long, p.tikv_at), &env(&dir, &top, p), None, Duration::from_secs(90));
    ctx.beat();
    let (n, at_ms, op, path) = info(&top).unwrap_or((0, now_ms(), "none".into(), "".into()));
    let pk = path_kind(&dir, &path);
    let happened = op != "end" && op != "none" || p.tikv_at > 0 && e.code != Some(0);
    let mode = ["before", "in the middle of", "after", "instead of"][p.mode as usize];
    let what = json!({"backend": p.kind.name(), "fault": if p.fail {"fails once"} else {"process ends"}, "mode": mode,
        "operation": op, "number": n, "path": pk, "kv_operation": p.tikv_at});
    let place = format!("{}:{}", if p.fail { "fault" } else { "crash" }, p.kind.name());
    if e.code.is_none() {
        ctx.violation(&format!("{}:hung", place), json!({"fault": what, "what": "the process did not end"}));
    }
    if p.fail {
        ctx.count("operations_made_to_fail", happened as u64);
        if let Some(rep) = &e.report {
            if rep["panic"].is_string() {
                ctx.violation(&format!("{}:panic", place), json!({"fault": what, "what": rep["panic"]}));
            }
        } else {
            ctx.violation(&format!("{}:died", place), json!({"fault": what, "what": e.told()}));
        }
    } else {
        ctx.count(if happened { "crashes" } else { "runs_that_ended_before_the_fault" }, 1);
    }
    let at_ms = if happened && !p.fail { at_ms } else { now_ms() };
    let events = std::fs::read_to_string(top.join("acks")).map(|s| s.lines().count()).unwrap_or(0);
    ctx.eval(&(p.kind, p.long, &op, &pk, p.mode, p.tikv_at, p.fail), happened && (events > 0 || n > 1));
    recover(ctx, &place, &what, &top, &dir, p.kind, at_ms, i % 4 == 0);
    if i % 29 == 0 {
        ctx.sample(json!({"fault": what, "invoked_and_acknowledged": events}));
    }
    if !ctx.has_violation() {
        rm_rf(&top);
    }
}

fn recover(ctx: &Ctx, place: &str, what: &J, top: &Path, dir: &Path, kind: Kind, at_ms: u64, twice: bool) {
    let log = std::fs::read_to_string(top.join("acks")).unwrap_or_default();
    let mut inv: BTreeMap<(String, u64, u64), Option<u64>> = BTreeMap::new();
    let mut by_k: BTreeMap<String, (String, u64, u64)> = BTreeMap::new();
    let mut acked = 0;
    for l in log.lines() {
        let v: Vec<&str> = l.split(' ').collect();
        match v[0] {
            "I" if v.len() == 5 => {
                let k = (v[2].to_string(), v[3].parse().unwrap(), v[4].parse().unwrap());
                inv.insert(k.clone(), None);
                by_k.insert(v[1].into(), k);
            }
            "A" if v.len() == 3 => {
                acked += 1;
                inv.insert(by_k[v[1]].clone(), Some(v[2].parse().unwrap()));
            }
            _ => {}
        }
    }
    let mut required: BTreeSet<(String, u64, u64)> =
        inv.iter().filter(|(_, a)| a.map(|t| t + MARGIN < at_ms || !kind.uses_sled()).unwrap_or(false)).map(|(k, _)| k.clone()).collect();
    ctx.count("writes_acknowledged_before_the_fault", acked);
    ctx.count("writes_that_had_to_survive", required.len() as u64);
    let mut extra: BTreeSet<(String, u64, u64)> = Default::default();
    for round in 0..if twice { 2 } else { 1 } {
        let sp = json!({"id": "C07", "seed": 1, "kind": kind.name(), "dir": dir, "top": top, "round": round, "stay": twice && round == 0 && kind.uses_sled()});
        let e = child::run(&top.join("work"), "recover", &sp, &[], None, Duration::from_secs(90));
        ctx.beat();
        let rep = match &e.report {
            Some(r) if r["panic"].is_null() && e.code == Some(0) => r,
            _ => {
                let panic = e.report.as_ref().map(|r| r["panic"].clone());
                let tree = tree(dir);
                return ctx.violation(&format!("{}:does-not-open", place), json!({"fault": what, "round": round, "what": "the database could not be opened and read after the fault", "panic": panic, "child": e.told(), "files": tree}));
            }
        };
        if let Some(err) = rep["extra"]["error"].as_str() {
            return ctx.violation(&format!("{}:does-not-open", place), json!({"fault": what, "round": round, "what": err, "files": tree(dir)}));
        }
        let got: Vec<(String, u64, u64)> = serde_json::from_value(rep["extra"]["got"].clone()).unwrap();
        ctx.count("samples_recovered", got.len() as u64);
        let mut seen = BTreeSet::new();
        for g in &got {
            if !seen.insert(g.clone()) {
                return ctx.violation(&format!("{}:sample-twice", place), json!({"fault": what, "round": round, "sample": g}));
            }
            if !inv.contains_key(g) && !extra.contains(g) {
                return ctx.violation(&format!("{}:invented", place), json!({"fault": what, "round": round, "sample": g}));
            }
        }
        if let Some(m) = required.iter().find(|k| !seen.contains(k)) {
            return ctx.violation(
                &format!("{}:lost", place),
                json!({"fault": what, "round": round, "sample": m, "acknowledged_at": inv.get(m), "fault_at": at_ms, "had_to_survive": required.len(), "recovered": got.len()}),
            );
        }
        let wrote: Vec<(String, u64, u64)> = serde_json::from_value(rep["extra"]["wrote"].clone()).unwrap();
        if rep["extra"]["rotating"] == json!(true) {
            ctx.count("recovered_databases_that_rotated", 1);
            if rep["extra"]["windows"].as_u64().unwrap_or(0) < 1 {
                return ctx.violation(&format!("{}:no-rotation-after", place), json!({"fault": what, "what": "the recovered database does not rotate", "files": tree(dir)}));
            }
        }
        if wrote.is_empty() {
            return ctx.violation(&format!("{}:no-writes-after", place), json!({"fault": what, "what": "the recovered database accepts no samples", "extra": rep["extra"]["refused"]}));
        }
        // from now on everything that was recovered stays
        required = seen;
        required.extend(wrote.iter().cloned());
        extra.extend(wrote);
    }
}

fn tree(d: &Path) -> Vec<String> {
    fn walk(d: &Path, top: &Path, out: &mut Vec<String>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let n = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
                out.push(format!("{} {}", p.strip_prefix(top).unwrap().display(), if p.is_dir() { "/".into() } else { n.to_string() }));
                if p.is_dir() {
                    walk(&p, top, out)
                }
            }
        }
    }
    let mut v = vec![];
    walk(d, d, &mut v);
    v.sort();
    v
}

fn sets() -> Vec<LabelSet> {
    let mut r = Rng::new(4242);
    let mut v = gen::population(&mut r, 5, 4, false);
    for x in v.iter_mut() {
        x.push(("zz_all".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    v
}
fn name(l: &LabelSet) -> String {
    format!("{:016x}", hash_of(l))
}

fn cluster(s: &J) -> PathBuf {
    PathBuf::from(s["top"].as_str().unwrap()).join("cluster")
}
fn load_journal(s: &J) {
    let c = tikv_client::stub::cluster("c07");
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(cluster(s)).unwrap_or_default().lines() {
        if let Some((k, v)) = l.split_once(' ') {
            m.insert(child::unhex(k), child::unhex(v));
        }
    }
    c.load(m);
    c.set_journal(std::fs::OpenOptions::new().create(true).append(true).open(cluster(s)).unwrap());
}

/// The process that will be ended.
pub fn crashrun(_ctx: &Ctx, s: &J, extra: &mut J) {
    let kind = Kind::from_name(s["kind"].as_str().unwrap());
    let dir = PathBuf::from(s["dir"].as_str().unwrap());
    let top = PathBuf::from(s["top"].as_str().unwrap());
    let long = s["long"].as_bool().unwrap();
    let mut r = Rng::derive(s["seed"].as_u64().unwrap(), "crashrun", 0);
    load_journal(s);
    let c = tikv_client::stub::cluster("c07");
    let at = s["tikv_at"].as_u64().unwrap_or(0);
    if at > 0 {
        let info = top.join("info");
        c.set_plan(Some(Box::new(move |seq, kind, _| {
            if seq >= at {
                std::fs::write(&info, format!("{} {} kv-{:?} -\n", seq, now_ms(), kind)).unwrap();
                std::process::abort()
            }
            tikv_client::stub::Verdict::Pass
        })));
    }
    let sh = Arc::new(Shared::default());
    let size = if long { 900 } else { 3_600_000 };
    let db = match open_db(kind, &dir, Duration::from_millis(size), "c07", &sh) {
        Ok(d) => d,
        Err(x) => {
            *extra = json!({"refused": x.to_string()});
            return;
        }
    };
    let mut ack = std::fs::OpenOptions::new().create(true).append(true).open(top.join("acks")).unwrap();
    let sets = sets();
    let t0 = Instant::now();
    let life = if long { 4200 } else { 25 };
    let mut k = 0u64;
    let mut last = vec![0u64; sets.len()];
    while (t0.elapsed().as_millis() as u64) < life || k < 12 {
        let i = r.below(sets.len() as u64) as usize;
        let ts = now_ms();
        if ts <= last[i] {
            sleep_ms(1);
            if t0.elapsed().as_secs() > 30 {
                break;
            }
            continue;
        }
        k += 1;
        let v = k as f64;
        ack.write_all(format!("I {} {} {} {}\n", k, name(&sets[i]), ts, v.to_bits()).as_bytes()).unwrap();
        if let Ok(()) = db.write1(&sets[i], (ts, v)) {
            ack.write_all(format!("A {} {}\n", k, now_ms()).as_bytes()).unwrap();
            last[i] = ts;
        }
        if long {
            std::thread::sleep(Duration::from_micros(r.below(24_000)));
        }
    }
    if !long && kind.uses_sled() {
        // one round of sled's periodic writing
        sleep_ms(700);
    }
    *extra = json!({"tikv_ops": c.ops()});
}

/// The process that finds what is left.
pub fn recover_child(_ctx: &Ctx, s: &J, extra: &mut J) {
    let kind = Kind::from_name(s["kind"].as_str().unwrap());
    let dir = PathBuf::from(s["dir"].as_str().unwrap());
    load_journal(s);
    let sh = Arc::new(Shared::default());
    let stay = s["stay"].as_bool().unwrap_or(false);
    let window = if stay { 900 } else { 3_600_000 };
    let db = match open_db(kind, &dir, Duration::from_millis(window), "c07", &sh) {
        Ok(d) => d,
        Err(x) => {
            *extra = json!({"error": format!("opening: {}", x)});
            return;
        }
    };
    let sets = sets();
    let got = match db.query(&[("zz_all".into(), "1".into())], 0, u64::MAX) {
        Ok(g) => g,
        Err(x) => {
            *extra = json!({"error": format!("reading: {}", x)});
            return;
        }
    };
    let mut out: Vec<(String, u64, u64)> = vec![];
    for (l, p) in &got {
        for x in p {
            out.push((name(l), x.0, x.1.to_bits()));
        }
    }
    // every series alone gives the same
    for l in &sets {
        let alone = match db.query(l, 0, u64::MAX) {
            Ok(g) => g.into_iter().find(|x| &x.0 == l).map(|x| x.1.len()).unwrap_or(0),
            Err(x) => {
                *extra = json!({"error": format!("reading: {}", x)});
                return;
            }
        };
        let n = name(l);
        let together = out.iter().filter(|x| x.0 == n).count();
        if alone != together {
            *extra = json!({"error": format!("a series has {} samples by all of its labels and {} by the common one", alone, together)});
            return;
        }
    }
    let mut wrote = vec![];
    let mut refused = vec![];
    let t0 = Instant::now();
    let mut passes = 0u64;
    let count = || std::fs::read_dir(&dir).map(|d| d.flatten().filter(|e| e.path().join("metadata.json").exists()).count()).unwrap_or(0);
    let first = count();
    let mut windows;
    let mut last = t0;
    let mut i = 0;
    loop {
        let before = wrote.len();
        for l in &sets {
            i += 1;
            let (ts, v) = (now_ms() + if stay { 0 } else { 1 }, 1e6 + i as f64 + s["round"].as_f64().unwrap() * 1e4);
            match db.write1(l, (ts, v)) {
                Ok(()) => wrote.push((name(l), ts, v.to_bits())),
                Err(x) => refused.push(x.to_string()),
            }
        }
        passes += 1;
        refused.truncate(20);
        windows = count();
        if !stay {
            break;
        }
        // it rotates on, and takes what is written then (samples of the time between two windows are refused)
        let done = t0.elapsed().as_millis() > 1000 && wrote.len() > before && windows > first;
        if wrote.len() > before {
            last = Instant::now();
        }
        if done || t0.elapsed().as_secs() > 25 {
            if last.elapsed().as_secs() > 6 {
                *extra = json!({"error": format!("after {} rounds of writes the recovered database takes no more", passes), "refused": refused});
                return;
            }
            break;
        }
        sleep_ms(120);
    }
    if stay {
        // what was written reaches the disk
        sleep_ms(MARGIN);
    }
    *extra = json!({"got": out, "wrote": wrote, "refused": refused, "windows": windows - first, "rotating": stay});
}

/// The real server, killed.
fn killed(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("kill", i);
    let top = ctx.dir("c07k");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let o = http::Opts { chunk_size: *r.pick(&[1u64, 2, 3600]), ..Default::default() };
    let mut s = match http::Server::start(&dir, &o) {
        Ok(s) => s,
        Err(x) => return ctx.violation("server:start", json!({"what": x})),
    };
    let sets = sets();
    let mut ack = std::fs::File::create(top.join("acks")).unwrap();
    let t0 = Instant::now();
    let life = r.range(400, 5200);
    let mut k = 0;
    while (t0.elapsed().as_millis() as u64) < life {
        let mut batch = vec![];
        let mut ids = vec![];
        for _ in 0..r.us(1, 4) {
            k += 1;
            let l = r.pick(&sets).clone();
            let (ts, v) = (now_ms() + r.below(3), k as f64);
            ack.write_all(format!("I {} {} {} {}\n", k, name(&l), ts, v.to_bits()).as_bytes()).unwrap();
            ids.push((k, l.clone(), ts));
            batch.push(proto::wire(&l, &[(ts, v)]));
        }
        match s.write(&batch) {
            Ok(200) => {
                // a sample outside of the window is dropped: only what can be read back was accepted
                if k % 5 == 0 || o.chunk_size > 100 {
                    let t = now_ms();
                    if o.chunk_size > 100 {
                        for (k, _, _) in &ids {
                            ack.write_all(format!("A {} {}\n", k, t).as_bytes()).unwrap();
                        }
                    } else if let Ok((200, res)) = s.read(&[proto::query_eq(&[("zz_all".into(), "1".into())], 0, i64::MAX)]) {
                        for (k, l, ts) in &ids {
                            let there = res.iter().flatten().any(|x| {
                                let mut y = x.labels.clone();
                                y.sort();
                                &y == l && x.samples.iter().any(|p| p.0 as u64 == *ts && p.1 == *k as f64)
                            });
                            if there {
                                ack.write_all(format!("A {} {}\n", k, t).as_bytes()).unwrap();
                            }
                        }
                    }
                }
            }
            x => {
                ctx.violation("server:write", json!({"what": format!("{:?}", x)}));
                return;
            }
        }
        ctx.beat();
        sleep_ms(r.below(30));
    }
    let at = now_ms();
    s.kill();
    ctx.count("servers_killed", 1);
    ctx.eval(&("kill", i, life, o.chunk_size), k > 0);
    let what = json!({"fault": "SIGKILL of the server", "after_ms": life, "chunk_s": o.chunk_size});
    recover(ctx, "kill:sled/sled", &what, &top, &dir, Kind::SledSled, at, i % 2 == 0);
    rm_rf(&top);
}
