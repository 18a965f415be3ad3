//! C23: a disk that fails for a while costs only what could not be stored.
use super::c09::windows;
use super::c22::S;
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::mem::Shared;
use serde_json::json;
use std::collections::BTreeSet;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C23",
    level: "fault_enumeration",
    rule: "one evaluation = one answer to a read of the real server binary while, or after, operations on the files below its directory fail (no \
           space, quota, I/O error, no rights; also writes done in part), or one query of a database whose backends fail or panic when a chunk \
           is made, compared with everything that was sent and everything that was readable or durable before; non-trivial = the answer holds \
           samples; distinct by (server, case, life, step)",
    assumptions: &[
        "operations fail at the C library's interface (LD_PRELOAD); reading and deleting goes on working",
        "sled 0.22 cannot go on after one of its own writes failed (it aborts, hangs, or keeps everything in memory): where its files fail, the server \
         may end or stop answering, and only what was readable 2.5 s before the failure has to be there after a restart",
        "a TiKV storage may refuse samples that are not later than the series' last one",
    ],
    run,
};

/// Which operations fail: making directories, making files, writing, renaming, syncing, truncating.
fn which(r: &mut Rng) -> i64 {
    *r.pick(&[0b111111i64, 0b111111, 0b111110, 0b111100, 0b000100, 0b001000, 0b010000, 0b000010, 0b000001]) << 16
}

const ERRORS: [(i64, &str); 7] = [(28, "no space"), (1028, "no space, in the middle"), (5, "I/O error"), (122, "quota"), (30, "read-only"), (13, "no rights"), (1005, "I/O error, in the middle")];

struct Disk(std::fs::File, PathBuf);
impl Disk {
    fn new(p: &Path) -> Disk {
        let f = std::fs::File::create(p).unwrap();
        f.write_all_at(&0i64.to_ne_bytes(), 0).unwrap();
        Disk(f, p.into())
    }
    fn set(&self, e: i64) {
        self.0.write_all_at(&e.to_ne_bytes(), 0).unwrap();
    }
}

fn run(ctx: &Ctx) {
    let (strict, weak, mem) = (ctx.n(24, 200), ctx.n(18, 150), ctx.n(6, 40));
    parallel(32, strict + weak + mem, |i| {
        if ctx.stop() {
            return;
        }
        if i < strict {
            server(ctx, i, REAL[(i % 4) as usize], true)
        } else if i < strict + weak {
            server(ctx, i, [Kind::SledSled, Kind::SledTikv, Kind::TikvSled][(i % 3) as usize], false)
        } else {
            backends(ctx, i)
        }
    });
}

/// What failed last: how many in all, and the operation.
fn failures(top: &Path) -> (u64, String) {
    let s = std::fs::read_to_string(top.join("info")).unwrap_or_default();
    let v: Vec<&str> = s.trim().splitn(4, ' ').collect();
    if v.len() < 3 || v[2] == "end" {
        return (0, String::new());
    }
    (v[0].parse().unwrap_or(0), v[2].to_string())
}

fn server(ctx: &Ctx, i: u64, kind: Kind, strict: bool) {
    let mut r = ctx.rng("disk", i);
    let size = [1u64, 2, 1, 3600, 1][(i / 4 % 5) as usize];
    let place = format!("{}:{}", if strict { "server" } else { "embedded-store" }, kind.name());
    let top = ctx.dir("c23");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let disk = Disk::new(&top.join("disk"));
    let conf = top.join("tikv.yaml");
    std::fs::write(&conf, "pd_endpoints:\n  - 10.1.2.3:2379\ndry_run: false\n").unwrap();
    let s_of = |p: &Path| p.to_str().unwrap().to_string();
    let mut env = vec![
        ("LD_PRELOAD".to_string(), s_of(&self_dir().join("../../crash.so"))),
        ("CRASH_PREFIX".into(), s_of(&dir)),
        ("CRASH_INFO".into(), s_of(&top.join("info"))),
        ("CRASH_STATE".into(), s_of(&disk.1)),
        ("MON_TIKV_DIR".into(), s_of(&top.join("tikv"))),
    ];
    if strict {
        env.push(("CRASH_SKIP".into(), "embedded stores".into()));
    }
    let opts = Opts { storage: st, indexer: ix, chunk_size: size, extra: vec!["--tikv_config".into(), s_of(&conf)], env, ..Opts::default() };
    let sets: Vec<LabelSet> = gen::population(&mut r, 4, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let mut s: Option<S> = None;
    let mut story: Vec<String> = vec![];
    let lives = ctx.n(if strict { 3 } else { 2 }, 5) + 1;
    for life in 0..lives {
        if ctx.stop() {
            return;
        }
        let opens = |r: &mut Rng, story: &mut Vec<String>| -> Option<Server> {
            if strict && r.chance(1, 3) {
                let (e, what) = *r.pick(&ERRORS);
                disk.set(e | which(r));
                let o = Server::start(&dir, &opts);
                story.push(format!("life {}: opened while the disk fails ({}): {}", life, what, if o.is_ok() { "serves" } else { "refused" }));
                ctx.count(if o.is_ok() { "starts_on_a_failing_disk_that_served" } else { "starts_on_a_failing_disk_that_were_refused" }, 1);
                if let Ok(x) = o {
                    return Some(x);
                }
                disk.set(0);
            }
            match Server::start(&dir, &opts) {
                Ok(x) => Some(x),
                Err(e) => {
                    ctx.violation(&format!("{}:does-not-open", place), json!({"where": place, "case": i, "life": life, "windows": windows(&dir), "what": e.chars().take(600).collect::<String>(), "story": story}));
                    None
                }
            }
        };
        let mut story0 = s.as_ref().map(|s| s.story.clone()).unwrap_or(std::mem::take(&mut story));
        let Some(srv) = opens(&mut r, &mut story0) else { return };
        match s.as_mut() {
            Some(s) => {
                s.srv = srv;
                s.story = story0
            }
            None => {
                s = Some(S {
                    ctx,
                    srv,
                    place: place.clone(),
                    i,
                    any_order: kind.any_order(),
                    dir: dir.clone(),
                    sets: sets.clone(),
                    last: Default::default(),
                    sent: Default::default(),
                    seen: Default::default(),
                    no: 0,
                    story: story0,
                    weak: false,
                    failed: false,
                })
            }
        }
        let s = s.as_mut().unwrap();
        let mut step = life * 1000;
        if s.read(step).is_none() {
            return;
        }
        let ok = if strict { failing(ctx, s, &mut r, &disk, &mut step, size) } else { failing_store(ctx, s, &mut r, &disk, &mut step, size, &top, life + 1 == lives) };
        let (n, op) = failures(&top);
        ctx.count("operations_that_failed", n);
        if n > 0 {
            ctx.count(&format!("lives_whose_last_failure_was_{}", op), 1);
        }
        let _ = std::fs::remove_file(top.join("info"));
        disk.set(0);
        if !ok {
            return;
        }
        s.srv.kill();
    }
    if i % 12 == 0 {
        let s = s.as_ref().unwrap();
        ctx.sample(json!({"server": place, "chunk_size_s": size, "samples_seen": s.seen.values().map(|x| x.len()).sum::<usize>(), "story": s.story.iter().take(6).collect::<Vec<_>>()}));
    }
    rm_rf(&top);
}

fn some(s: &mut S, r: &mut Rng, step: &mut u64) -> Option<usize> {
    let n = r.us(1, 3);
    let now = now_ms();
    let times: Vec<u64> = (0..n as u64).map(|k| now + k).collect();
    if !s.write(r, &times) {
        return None;
    }
    if s.failed {
        return Some(0);
    }
    *step += 1;
    s.read(*step)
}

/// Samples are accepted (again).
fn accepts(s: &mut S, r: &mut Rng, step: &mut u64, when: &str) -> bool {
    let t0 = Instant::now();
    loop {
        match some(s, r, step) {
            Some(0) if t0.elapsed() > Duration::from_secs(30) => return s.bad("no-more-samples", json!({"when": when, "windows": windows(&s.dir)})),
            Some(0) => sleep_ms(60),
            Some(_) => return true,
            None => return false,
        }
    }
}

/// Everything but the embedded stores' own files fails: the server goes on as if nothing had been, but for rotation.
fn failing(ctx: &Ctx, s: &mut S, r: &mut Rng, disk: &Disk, step: &mut u64, size: u64) -> bool {
    disk.set(0);
    let t0 = Instant::now();
    let mut until: Option<Instant> = None;
    while t0.elapsed() < Duration::from_millis(if size < 10 { ctx.n(6500, 20_000) } else { 800 }) {
        match until {
            Some(t) if t < Instant::now() => {
                disk.set(0);
                until = None;
                s.story.push(format!("{}: the disk works", now_ms()));
            }
            None if r.chance(1, 18) => {
                let (e, what) = *r.pick(&ERRORS);
                let ms = *r.pick(&[5u64, 100, 700, 1300, 1300, 2500]);
                disk.set(e | which(r));
                ctx.count("outages", 1);
                s.story.push(format!("{}: the disk fails for {} ms: {}", now_ms(), ms, what));
                until = Some(Instant::now() + Duration::from_millis(ms));
            }
            _ => {}
        }
        if some(s, r, step).is_none() {
            return false;
        }
        sleep_ms(r.below(50));
    }
    disk.set(0);
    if !accepts(s, r, step, "the disk works again") {
        return false;
    }
    let before = windows(&s.dir).len();
    let t0 = Instant::now();
    while size < 10 && windows(&s.dir).len() == before {
        if t0.elapsed() > Duration::from_secs(30) {
            return s.bad("no-rotation-after", json!({"windows": windows(&s.dir)}));
        }
        sleep_ms(50);
    }
    sleep_ms(2200); // sled writes its buffers every half second
    *step += 1;
    if s.read(*step).is_none() {
        return false;
    }
    if !s.srv.alive() {
        return s.bad("ended", json!({}));
    }
    true
}

/// The embedded store's files fail, too.
fn failing_store(ctx: &Ctx, s: &mut S, r: &mut Rng, disk: &Disk, step: &mut u64, size: u64, top: &Path, last: bool) -> bool {
    let t0 = Instant::now();
    let before = r.range(100, 2500);
    while t0.elapsed() < Duration::from_millis(before) {
        if some(s, r, step).is_none() {
            return false;
        }
        sleep_ms(r.below(50));
    }
    if !accepts(s, r, step, "after a restart") {
        return false;
    }
    if last {
        return true;
    }
    sleep_ms(2500);
    *step += 1;
    if s.read(*step).is_none() {
        return false;
    }
    let durable = s.seen.clone();
    let n = r.below(30);
    for _ in 0..n {
        if some(s, r, step).is_none() {
            return false;
        }
        sleep_ms(r.below(30));
    }
    s.weak = true;
    s.srv.patience = Duration::from_secs(5);
    let (e, what) = *r.pick(&ERRORS);
    let ms = *r.pick(&[1u64, 20, 300, 700, 1300, 2500]);
    disk.set(e | which(r));
    ctx.count("outages_of_embedded_stores", 1);
    s.story.push(format!("{}: the disk fails for {} ms: {}", now_ms(), ms, what));
    let t0 = Instant::now();
    let life = ms + r.below(2 * size.min(2) * 1000);
    let mut works = false;
    while t0.elapsed() < Duration::from_millis(life) && !s.failed {
        if t0.elapsed() > Duration::from_millis(ms) && !works {
            works = true;
            disk.set(0);
            s.story.push(format!("{}: the disk works", now_ms()));
        }
        if some(s, r, step).is_none() {
            return false;
        }
        if r.chance(1, 3) {
            sleep_ms(r.below(60));
        }
    }
    if s.failed {
        ctx.count("servers_that_failed_with_their_embedded_store", 1);
        s.story.push(format!("{}: the server {}", now_ms(), if s.srv.alive() { "does not answer" } else { "ended" }));
    }
    ctx.count("embedded_stores_that_saw_failures", (failures(top).0 > 0) as u64);
    s.story.push(format!("{}: killed", now_ms()));
    s.srv.kill();
    s.weak = false;
    s.failed = false;
    s.seen = durable;
    true
}

/// Backends that fail or panic when they are to make a chunk.
fn backends(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("backends", i);
    let top = ctx.dir("c23m");
    let sh = Arc::new(Shared::default());
    let size = r.range(300, 700);
    let db = match open_db(Kind::Mem, &top, Duration::from_millis(size), "c23", &sh) {
        Ok(d) => d,
        Err(e) => return ctx.violation("memory:open", json!({"what": e.to_string()})),
    };
    let l: LabelSet = vec![("a".into(), "b".into())];
    let mut accepted: BTreeSet<(u64, u64)> = BTreeSet::new();
    let mut no = 0u64;
    let t0 = Instant::now();
    let mut faults = 0;
    let mut last = Instant::now();
    let life = Duration::from_millis(ctx.n(10_000, 30_000));
    let mut told = String::new();
    let pending = || sh.panic_builds.load(Ordering::SeqCst) + sh.fail_builds.load(Ordering::SeqCst);
    let mut recovered = true;
    while t0.elapsed() < life || !recovered {
        if t0.elapsed() < life && recovered && r.chance(1, 60) {
            recovered = false;
            let n = r.range(1, 3);
            let panics = r.chance(1, 2);
            if panics { &sh.panic_builds } else { &sh.fail_builds }.fetch_add(n, Ordering::SeqCst);
            faults += n;
            last = Instant::now();
            told = format!("{} ms: the next {} chunks {}", t0.elapsed().as_millis(), n, if panics { "panic" } else { "fail" });
        }
        no += 1;
        let p = (now_ms(), no as f64);
        match guard(|| db.write1(&l, p)) {
            Ok(Ok(())) => {
                accepted.insert((p.0, p.1.to_bits()));
                last = Instant::now();
                recovered |= pending() == 0;
            }
            Ok(Err(_)) => {} // the window is over
            Err(e) => return ctx.violation("memory:panic", json!({"what": e, "fault": told})),
        }
        if last.elapsed() > Duration::from_secs(20) {
            return ctx.violation("memory:no-more-samples", json!({"what": "no sample is accepted any more after a backend failed or panicked", "last_fault": told, "windows": windows(&top).len()}));
        }
        match guard(|| db.query(&l, 0, u64::MAX)) {
            Ok(Ok(q)) => {
                let got: Vec<(u64, u64)> = q.iter().flat_map(|x| x.1.iter().map(|p| (p.0, p.1.to_bits()))).collect();
                let set: BTreeSet<(u64, u64)> = got.iter().cloned().collect();
                ctx.eval(&("memory", i, no), !got.is_empty());
                if set.len() != got.len() || set != accepted {
                    return ctx.violation("memory:wrong-answer", json!({"returned": got.len(), "distinct": set.len(), "accepted": accepted.len(), "last_fault": told}));
                }
            }
            o => return ctx.violation("memory:query", json!({"what": format!("{:?}", o.map(|x| x.map(|_| ()))), "last_fault": told})),
        }
        sleep_ms(r.below(12));
    }
    // the chunk that is made once it works begins then, not when the one that failed did
    let lags: Vec<i64> = sh
        .made
        .lock()
        .unwrap()
        .iter()
        .filter(|m| m.2)
        .filter_map(|m| {
            let name = m.0.file_name()?.to_str()?.to_string();
            let w = monolith::utils::decode_chunk_dir(name).ok()?;
            Some(m.1 as i64 - w.0 as i64)
        })
        .collect();
    ctx.count("chunks_made_after_ones_that_failed", lags.len() as u64);
    if lags.len() >= 2 && lags.iter().all(|l| l.abs() > size as i64 * 4 / 5) {
        ctx.violation("memory:window", json!({"what": "the chunk that is made after one that could not be made does not begin when it is made: samples go on being refused", "chunk_ms": size, "made_after_its_window_began_ms": lags}));
    }
    ctx.count("chunks_whose_making_failed_or_panicked", faults - pending().min(faults));
    sh.stopped.store(true, Ordering::SeqCst);
    rm_rf(&top);
}
