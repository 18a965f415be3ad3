//! C06: a database that is opened again has everything that was stored.
use super::Spec;
use crate::backends::*;
use crate::child;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::Shared;
use crate::model::*;
use serde_json::{json, Value as J};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C06",
    level: "exploration",
    rule: "one evaluation = one query of a database that an earlier process wrote and ended, compared exactly with everything the earlier \
           processes (and this one) stored; non-trivial = the expected result has samples of at least one earlier process; distinct by \
           (case, session, query)",
    assumptions: &[
        "a process ends at least 2 s after its last write (sled writes its buffers every 500 ms)",
        "the TiKV stand-in's contents are carried from process to process by the harness",
    ],
    run,
};

fn run(ctx: &Ctx) {
    let n = ctx.n(24, 300);
    parallel(24, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
    let n = ctx.n(48, 800);
    parallel(8, n, |i| {
        if !ctx.stop() {
            windows(ctx, i)
        }
    });
}

/// Chunks of any window, as databases left them that ran at another time (or by another clock)
/// and with other chunk sizes: old, in the future, next to each other, overlapping, nested.
fn windows(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("windows", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("db:{}", kind.name());
    let top = ctx.dir("c06w");
    let dir = top.join(*r.pick(&["db", "データ", "0a", "a b", "db ", " db", "d'b\"", "db.", "d\\b", "100%25"]));
    std::fs::create_dir_all(&dir).unwrap();
    let cl = format!("c06w-{}", i);
    const HOUR: u64 = 3_600_000;
    let now = now_ms();
    let mut wins: Vec<(u64, u64)> = vec![];
    // far more than usual, where they cost no files
    let n = if kind == Kind::TikvTikv && i % 16 == 1 { r.us(260, 300) } else if i % 12 == 11 { r.us(20, 40) } else { r.us(1, 7) };
    let size = *r.pick(&[1u64, 50, 12_000, HOUR, 12_000_000, 720 * HOUR]);
    while wins.len() < n {
        let w = match (r.below(9), wins.last().cloned()) {
            (0, _) => (0, size),
            (1, _) => (now + r.range(1, 9000) * HOUR, now + 20_000 * HOUR),
            (2, _) => (u64::MAX - r.range(0, 5000), u64::MAX),
            (3, Some((_, b))) if b < u64::MAX / 2 => (b, b + size),
            (4, Some((_, b))) if b < u64::MAX / 2 => (b + 1, b + 1 + size),
            (5, Some((a, b))) => (a + (b - a) / 3, a + (b - a) / 2),
            (6, Some((a, b))) => (a, a + (b - a) / 2),
            (7, _) => (r.range(1, 1 << 40), 1 << 41),
            _ => {
                let a = now - r.range(1, 24 * 365 * 20) * HOUR;
                (a, a + size)
            }
        };
        if !wins.contains(&w) {
            wins.push(w)
        }
    }
    let mut sets = gen::population(&mut r, 5, 4, i % 2 == 0);
    for x in sets.iter_mut() {
        x.push(("zz_all".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    let mut m = Model::default();
    for (a, b) in wins.iter().cloned() {
        let c = match guard(|| forge(kind, &dir, a, b, &cl)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation(&format!("{}:make-chunk", place), json!({"where": place, "window": [a, b], "what": format!("{:?}", o.err())})),
        };
        for s in &sets {
            if r.chance(1, 4) {
                continue;
            }
            let mut ts: Vec<u64> = (0..r.us(1, 6)).map(|_| r.range(a, b)).collect();
            if r.chance(1, 2) {
                ts.push(a);
                ts.push(b);
            }
            ts.sort();
            ts.dedup();
            for t in ts {
                let v = gen::value(&mut r);
                match guard(|| c.insert(s, (t, v))) {
                    Ok(Ok(())) => m.accept(s, (t, v)),
                    o => return ctx.violation(&format!("{}:write-failed", place), json!({"where": place, "window": [a, b], "timestamp": t, "labels": short(s), "what": format!("{:?}", o)})),
                }
            }
        }
        ctx.beat();
    }
    plant(&mut r, &dir);
    let old = m.clone();
    let sh = Arc::new(Shared::default());
    let db = match guard(|| open_db(kind, &dir, Duration::from_secs(86_400), &cl, &sh)) {
        Ok(Ok(d)) => d,
        o => return ctx.violation(&format!("{}:open", place), json!({"where": place, "windows": wins, "what": format!("{:?}", o.map(|x| x.err()))})),
    };
    let tag = (json!(format!("windows-{}", i)), json!(wins));
    verify(ctx, &mut r, (&tag.0, &tag.1, 0), &*db, &m, &old, 16, &place);
    let t = now_ms() + 1000;
    for (k, s) in sets.iter().enumerate() {
        match guard(|| db.write1(s, (t + k as u64, 1.5))) {
            Ok(Ok(())) => m.accept(s, (t + k as u64, 1.5)),
            o => ctx.violation(&format!("{}:write-failed", place), json!({"where": place, "windows": wins, "labels": short(s), "what": format!("{:?}", o)})),
        }
    }
    verify(ctx, &mut r, (&tag.0, &tag.1, 1), &*db, &m, &old, 8, &place);
    ctx.count("foreign_windows", wins.len() as u64);
    tikv_client::stub::cluster(&cl).clear();
}

/// Things that are not the database's, in its directory.
fn plant(r: &mut Rng, dir: &Path) {
    for _ in 0..r.below(4) {
        let _ = match r.below(7) {
            0 => std::fs::write(dir.join("notes.txt"), b"hello"),
            1 => std::fs::create_dir_all(dir.join("lost+found")),
            2 => std::fs::write(dir.join("deadbeef"), b"not a chunk"),
            3 => std::fs::create_dir_all(dir.join("abc123")),
            4 => std::fs::create_dir_all(dir.join("ffffffffffffffffffffffffffffffffff")),
            5 => std::fs::write(dir.join(std::ffi::OsStr::from_bytes(b"bad\xff\xfename")), b"x"),
            _ => std::fs::write(dir.join("日本"), b"x"),
        };
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("case", i);
    let kind = REAL[(i % 4) as usize];
    let top = ctx.dir("c06");
    let name = *r.pick(&["db", "данные", "with space", "a/b/c", "日本/x", "dead", "db.d"]);
    let dir = top.join(name);
    std::fs::create_dir_all(&dir).unwrap();
    let relative = r.chance(1, 4);
    let given: PathBuf = if relative { PathBuf::from(name) } else { dir.clone() };
    let sessions = r.us(3, 4);
    let seed = r.next();
    let plain = r.chance(1, 2);
    for s in 0..sessions {
        if s > 0 || r.chance(1, 2) {
            plant(&mut r, &dir);
        }
        let size = match r.below(3) {
            0 => r.range(120, 400),
            1 => 3_600_000,
            _ => r.range(1000, 4000),
        };
        let spec = json!({"id": "C06", "seed": seed, "kind": kind.name(), "dir": given, "watch": dir, "size": size, "session": s, "last": s + 1 == sessions,
            "plain": plain, "model": top.join("model"), "cluster": top.join("cluster"), "case": i});
        let e = child::run(&top.join("work"), "session", &spec, &[], Some(&top), Duration::from_secs(100));
        ctx.beat();
        if let Some(rep) = &e.report {
            ctx.absorb(rep);
            if rep["panic"].is_string() {
                ctx.violation("session:panic", json!({"backend": kind.name(), "session": s, "what": rep["panic"]}));
            }
        } else {
            ctx.violation("session:died", json!({"backend": kind.name(), "session": s, "dir": name, "what": e.told()}));
        }
        if ctx.has_violation() {
            return;
        }
    }
    ctx.count("databases", 1);
    ctx.count("sessions", sessions as u64);
    if i < 4 {
        ctx.sample(json!({"backend": kind.name(), "directory": name, "relative": relative, "sessions": sessions}));
    }
    rm_rf(&top);
}

fn verify(ctx: &Ctx, r: &mut Rng, tag: (&J, &J, u32), db: &dyn TDb, m: &Model, old: &Model, n: usize, place: &str) {
    let all: Vec<LabelSet> = m.series.keys().cloned().collect();
    let mut cuts: Vec<u64> = m.series.values().flat_map(|v| v.iter().map(|p| p.0)).collect();
    cuts.sort();
    for k in 0..n {
        let q: LabelSet = if k == 0 || all.is_empty() || r.chance(1, 3) {
            vec![("zz_all".into(), "1".into())]
        } else {
            let s = r.pick(&all).clone();
            if r.chance(1, 2) {
                s
            } else {
                vec![r.pick(&s).clone()]
            }
        };
        let (a, b) = if k < 2 || cuts.is_empty() || r.chance(1, 2) {
            (0, u64::MAX)
        } else {
            let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
            (a.min(b), a.max(b))
        };
        let exp = m.expect(&q, a, b);
        let prev: usize = old.expect(&q, a, b).values().map(|v| v.len()).sum();
        ctx.eval(&(tag.0.to_string(), tag.1.to_string(), tag.2, k, &q, a, b), prev > 0);
        ctx.count("samples_of_earlier_processes_compared", prev as u64);
        let d = |w: String| json!({"where": place, "query": jq(&q, a, b), "what": w, "case": tag.0, "session": tag.1,
            "samples_of_earlier_processes": prev, "stored_series": m.series.len()});
        match guard(|| db.query(&q, a, b)) {
            Ok(Ok(got)) => {
                if let Err(x) = compare(&exp, &got) {
                    ctx.violation(&format!("{}:{}", place, x.class), d(x.what));
                    return;
                }
            }
            o => {
                ctx.violation(&format!("{}:query-failed", place), d(format!("{:?}", o.map(|x| x.map(|_| ())))));
                return;
            }
        }
    }
}

/// One process's life with the database.
pub fn session(ctx: &Ctx, s: &J, _extra: &mut J) {
    let kind = Kind::from_name(s["kind"].as_str().unwrap());
    let dir = PathBuf::from(s["dir"].as_str().unwrap());
    let size = s["size"].as_u64().unwrap();
    let no = s["session"].as_u64().unwrap();
    let place = format!("db:{}", kind.name());
    let mf = PathBuf::from(s["model"].as_str().unwrap());
    let cf = PathBuf::from(s["cluster"].as_str().unwrap());
    child::load_cluster("c06", &cf);
    let mut m = child::load_model(&mf);
    let old = m.clone();
    let mut sr = Rng::derive(ctx.seed, "sets", 0);
    let mut sets = gen::population(&mut sr, 8, 5, s["plain"].as_bool().unwrap());
    if !s["plain"].as_bool().unwrap() {
        for f in gen::collision_family(&mut sr) {
            if !sets.contains(&f) {
                sets.push(f)
            }
        }
    }
    for x in sets.iter_mut() {
        x.push(("zz_all".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    let mut r = Rng::derive(ctx.seed, "session", no);
    let sh = Arc::new(Shared::default());
    let db = match guard(|| open_db(kind, &dir, Duration::from_millis(size), "c06", &sh)) {
        Ok(Ok(d)) => d,
        o => {
            ctx.violation(&format!("{}:open", place), json!({"where": place, "session": no, "dir": dir, "what": format!("{:?}", o.map(|x| x.err()))}));
            return;
        }
    };
    verify(ctx, &mut r, (&s["case"], &s["session"], 0), &*db, &m, &old, 14, &place);
    if ctx.has_violation() {
        return;
    }
    // some series are new, some were there before
    let mine: Vec<LabelSet> = sets.iter().filter(|_| r.chance(2, 3)).cloned().collect();
    let t0 = Instant::now();
    let life = if size < 500 { size * r.range(2, 5) } else { r.range(5, 60) };
    let mut last: std::collections::HashMap<LabelSet, u64> = Default::default();
    let mut wrote = 0;
    while (t0.elapsed().as_millis() as u64) < life || wrote < 10 {
        if t0.elapsed().as_secs() > 40 {
            break;
        }
        if mine.is_empty() {
            break;
        }
        let l = r.pick(&mine).clone();
        let mut ts = now_ms();
        // ahead of now: where samples come in order, so close that the next ones are not before it
        if r.chance(1, 2) {
            ts += r.below(if kind.any_order() { size } else { 3 });
        }
        let lt = last.entry(l.clone()).or_insert(0);
        if !kind.any_order() && ts <= *lt {
            ts = *lt + 1;
        }
        let v = gen::value(&mut r);
        match guard(|| db.write1(&l, (ts, v))) {
            Ok(Ok(())) => {
                m.accept(&l, (ts, v));
                *lt = ts;
                wrote += 1;
            }
            Ok(Err(E::OutOfRange)) => {
                sleep_ms(1);
            }
            o => {
                ctx.violation(&format!("{}:write-failed", place), json!({"where": place, "session": no, "timestamp": ts, "labels": short(&l), "what": format!("{:?}", o)}));
                return;
            }
        }
        if size < 500 {
            std::thread::sleep(Duration::from_micros(r.below(6000)));
        }
    }
    ctx.count("writes_accepted", wrote);
    verify(ctx, &mut r, (&s["case"], &s["session"], 1), &*db, &m, &old, 4, &place);
    child::save_model(&m, &mf);
    if s["last"].as_bool().unwrap() {
        return;
    }
    if kind.uses_sled() {
        sleep_ms(2000);
    }
    child::save_cluster("c06", &cf);
}
