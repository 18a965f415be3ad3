//! C26: a second server on a directory in use loses nothing.
use super::c09::qout;
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::{self, Opts, Server};
use crate::mem::Shared;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C26",
    level: "exploration",
    rule: "one evaluation = one attempt to start a second server on (or, in one process, to open a second time) a directory that a running server holds and \
           writes to, which has to end with an error or to serve, or one query of the first server, of a second one that serves, or of the one that is \
           started after all of them, compared exactly with what they acknowledged; non-trivial = the directory was being written to, or held \
           chunks of earlier runs; distinct by (case, attempt or query)",
    assumptions: &[
        "TiKV is a stand-in, shared by the processes through files",
        "embedded stores keep what was acknowledged at least 1.5 s before a kill (their flush interval is 0.5 s)",
        "between the operations on files at which one server is held, others run freely",
    ],
    run,
};

fn all() -> LabelSet {
    vec![("zz_all".into(), "1".into())]
}

/// Other names of a directory.
fn alias(r: &mut Rng, top: &Path, dir: &Path) -> PathBuf {
    match r.below(5) {
        0 => {
            let l = top.join("link");
            let _ = std::os::unix::fs::symlink(dir, &l);
            l
        }
        1 => dir.join("."),
        2 => top.join("other").join("..").join("db"),
        _ => dir.to_path_buf(),
    }
}

fn read_all(s: &Server, m: &[(String, String)]) -> Result<QOut, String> {
    match s.read(&[query_eq(m, 0, i64::MAX)]) {
        Ok((200, g)) if g.len() == 1 => Ok(qout(&g[0])),
        o => Err(format!("{:?}", o.map(|x| x.0))),
    }
}

/// What the server must hold at least, and nothing that was never sent.
fn within(low: &Model, high: &Model, got: &QOut) -> Result<(), String> {
    for (l, p) in got {
        if let Some(w) = p.windows(2).find(|w| w[0].0 >= w[1].0) {
            return Err(format!("{}: {} is followed by {}", short(l), w[0].0, w[1].0));
        }
        for x in p {
            if !high.series.get(l).map(|v| v.contains(&(x.0, x.1.to_bits()))).unwrap_or(false) {
                return Err(format!("{}: {:?} was never sent", short(l), x));
            }
        }
    }
    for (l, v) in &low.series {
        let g = got.iter().find(|g| &g.0 == l).map(|g| &g.1[..]).unwrap_or(&[]);
        if let Some(x) = v.iter().find(|x| !g.iter().any(|p| (p.0, p.1.to_bits()) == **x)) {
            return Err(format!("{}: {:?}, acknowledged before, is missing", short(l), x));
        }
    }
    Ok(())
}

fn servers(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("servers", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("server:{}", kind.name());
    let top = ctx.dir("c26");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(top.join("other")).unwrap();
    let tikv = top.join("tikv.yaml");
    std::fs::write(&tikv, "pd_endpoints:\n  - 127.0.0.1:2379\ndry_run: false\n").unwrap();
    let opts = |kind: Kind| {
        let (st, ix) = kind.name().split_once('/').unwrap();
        Opts {
            storage: st,
            indexer: ix,
            workers: Some(4),
            extra: if kind.uses_tikv() { vec!["--tikv_config".into(), tikv.to_str().unwrap().into()] } else { vec![] },
            env: vec![("MON_TIKV_DIR".into(), top.join("tikv").to_str().unwrap().into())],
            ..Opts::default()
        }
    };
    let bad = |class: &str, d: serde_json::Value| ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "case": i, "detail": d}));
    let start = |d: &Path| Server::start(d, &opts(kind));
    let sets: Vec<LabelSet> = gen::population(&mut r, 6, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let mut m = Model::default();
    let earlier = r.us(0, 2);
    // lives before
    for life in 0..earlier {
        let mut s = match start(&dir) {
            Ok(s) => s,
            Err(e) => return bad("start", json!(e)),
        };
        let base = now_ms() + 20;
        for l in &sets {
            let p: Vec<Pt> = (0..r.range(1, 12)).map(|k| (base + k * 3, unsigned(gen::value(&mut r)))).collect();
            match s.write(&[wire(l, &p)]) {
                Ok(200) => p.iter().for_each(|p| m.accept(l, *p)),
                o => return bad("write", json!({"life": life, "what": format!("{:?}", o)})),
            }
        }
        sleep_ms(1500);
        s.kill();
    }
    let mut a = match start(&dir) {
        Ok(s) => s,
        Err(e) => return bad("start", json!(e)),
    };
    sleep_ms(150);
    let base = now_ms() + 1000;
    // two that write to the first one, each its own series, and one that reads
    let known = Mutex::new((m.clone(), m.clone())); // acknowledged, sent
    let stop = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..3).map(|_| r.next()).collect();
    let mut seconds: Vec<(Server, Vec<(LabelSet, Pt)>)> = vec![];
    std::thread::scope(|sc| {
        for w in 0..2usize {
            let (a, sets, known, stop, bad, seed) = (&a, &sets, &known, &stop, &bad, seeds[w]);
            sc.spawn(move || {
                let mut r = Rng::new(seed);
                let mut t = base;
                while !stop.load(Ordering::SeqCst) && !ctx.stop() {
                    let k = r.us(0, sets.len() / 2 - 1) * 2 + w;
                    let l = gen::normal([&sets[k][..], &[("zz_w".to_string(), w.to_string())]].concat());
                    let p: Vec<Pt> = (0..r.range(1, 4)).map(|_| { t += 1 + r.below(3); (t, unsigned(gen::value(&mut r))) }).collect();
                    p.iter().for_each(|p| known.lock().unwrap().1.accept(&l, *p));
                    match a.write(&[wire(&l, &p)]) {
                        Ok(200) => p.iter().for_each(|p| known.lock().unwrap().0.accept(&l, *p)),
                        o => return bad("write-refused", json!({"what": format!("{:?}", o)})),
                    }
                    ctx.count("samples_written_meanwhile", p.len() as u64);
                    sleep_ms(r.below(12));
                }
            });
        }
        {
            let (a, known, stop, bad, place) = (&a, &known, &stop, &bad, &place);
            sc.spawn(move || {
                let mut n = 0;
                while !stop.load(Ordering::SeqCst) && !ctx.stop() {
                    let low = known.lock().unwrap().0.clone();
                    let got = read_all(a, &all());
                    let high = known.lock().unwrap().1.clone();
                    n += 1;
                    ctx.eval(&(place, i, "while", n), true);
                    if let Err(e) = got.and_then(|g| within(&low, &high, &g)) {
                        return bad("read-meanwhile", json!({"what": e}));
                    }
                    sleep_ms(25);
                }
            });
        }
        sleep_ms(120);
        let attempts = ctx.n(5, 12);
        for k in 0..attempts {
            if ctx.stop() || ctx.has_violation() {
                break;
            }
            let low = known.lock().unwrap().0.clone();
            let name = alias(&mut r, &top, &dir);
            let what = r.below(6);
            ctx.eval(&(&place, i, "attempt", k), true);
            if what == 0 {
                // on the first one's port as well
                let mut c = Command::new(http::self_dir().join("monolith-server"));
                let o = opts(kind);
                c.args(["--port", &a.port.to_string(), "--chunk_size", "86400", "--storage", o.storage, "--indexer", o.indexer]).arg("--file_dir").arg(&name);
                c.args(&o.extra).envs(o.env.iter().cloned()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                http::die_with_parent(&mut c);
                let mut ch = c.spawn().unwrap();
                let t0 = Instant::now();
                let end = loop {
                    if let Ok(Some(s)) = ch.try_wait() {
                        break Some(s);
                    }
                    if t0.elapsed() > Duration::from_secs(40) {
                        break None;
                    }
                    ctx.beat();
                    sleep_ms(10);
                };
                let _ = ch.kill();
                let _ = ch.wait();
                ctx.count("attempts_on_the_same_port", 1);
                match end {
                    Some(s) if !s.success() => {}
                    Some(_) => bad("no-error", json!({"attempt": k, "what": "a second server on the same port and directory ended without an error"})),
                    None => bad("no-end", json!({"attempt": k, "what": "a second server on the same port does not end"})),
                }
                continue;
            }
            if what == 1 {
                // with other backends
                let other = *r.pick(&REAL);
                if other != kind {
                    ctx.count("attempts_with_other_backends", 1);
                    if let Ok(mut s) = Server::start(&name, &opts(other)) {
                        s.kill();
                        bad("other-backends", json!({"attempt": k, "with": other.name()}));
                    }
                    continue;
                }
            }
            match Server::start(&name, &opts(kind)) {
                Err(e) if e.contains("ended at its start") => {
                    ctx.count("second_servers_refused", 1);
                    if e.contains("exit status: 0") {
                        bad("no-error", json!({"attempt": k, "what": "a second server ended without an error"}));
                    }
                }
                Err(e) => bad("no-end", json!({"attempt": k, "what": e})),
                Ok(b) => {
                    ctx.count("second_servers_that_serve", 1);
                    match read_all(&b, &all()) {
                        Ok(g) => {
                            let mut high = known.lock().unwrap().1.clone();
                            for (l, p) in seconds.iter().flat_map(|s| s.1.iter()) {
                                high.accept(l, *p)
                            }
                            ctx.eval(&(&place, i, "second", k), true);
                            if let Err(e) = within(&low, &high, &g) {
                                bad("second-misses", json!({"attempt": k, "what": e}));
                            }
                        }
                        Err(e) => bad("second-read", json!({"attempt": k, "what": e})),
                    }
                    // a series of its own, and one of the first's
                    let t = now_ms() + 60_000 + k * 1000;
                    let mut its = vec![];
                    for l in [gen::normal([&all()[..], &[("zz_second".to_string(), k.to_string())]].concat()), sets[r.us(0, sets.len() - 1)].clone()] {
                        let p: Vec<Pt> = (0..3).map(|n| (t + n, unsigned(gen::value(&mut r)))).collect();
                        match b.write(&[wire(&l, &p)]) {
                            Ok(200) => p.iter().for_each(|p| its.push((l.clone(), *p))),
                            o => bad("second-write", json!({"attempt": k, "what": format!("{:?}", o)})),
                        }
                    }
                    seconds.push((b, its));
                }
            }
            sleep_ms(r.below(60));
        }
        stop.store(true, Ordering::SeqCst);
    });
    let (mut due, sent) = known.into_inner().unwrap();
    if ctx.stop() || ctx.has_violation() {
        return;
    }
    if !a.alive() {
        return bad("ended", json!("the first server ended"));
    }
    match read_all(&a, &all()) {
        Ok(g) => {
            ctx.eval(&(&place, i, "first at the end"), true);
            if let Err(e) = within(&due, &sent, &g) {
                bad("first-lost", json!({"what": e}));
            }
        }
        Err(e) => bad("first-read", json!(e)),
    }
    sleep_ms(1500);
    a.kill();
    for (mut b, its) in seconds {
        if !b.alive() {
            bad("second-ended", json!("a second server that served has ended"));
        }
        b.kill();
        its.iter().for_each(|(l, p)| due.accept(l, *p));
    }
    // two that follow
    for life in 0..2 {
        ctx.beat();
        let mut s = match start(&dir) {
            Ok(s) => s,
            Err(e) => return bad("does-not-open", json!({"life": life, "what": e})),
        };
        let mut queries = vec![all()];
        queries.extend(due.series.keys().cloned());
        for q in queries {
            ctx.eval(&(&place, i, "after", life, &q), true);
            match read_all(&s, &q) {
                Ok(g) => {
                    if let Err(x) = compare(&due.expect(&q, 0, u64::MAX), &g) {
                        return bad(&format!("afterwards:{}", x.class), json!({"life": life, "query": q, "what": x.what}));
                    }
                }
                Err(e) => return bad("afterwards:read", json!({"life": life, "query": q, "what": e})),
            }
        }
        let p = (now_ms() + 500_000 + life * 100_000, 2.5);
        match s.write(&[wire(&sets[0], &[p])]) {
            Ok(200) => due.accept(&sets[0], p),
            o => return bad("afterwards:write", json!({"what": format!("{:?}", o)})),
        }
        sleep_ms(1500);
        s.kill();
    }
    if i < 2 {
        ctx.sample(json!({"server": place, "earlier lives": earlier, "samples": due.points()}));
    }
    rm_rf(&top);
}

/// The same in one process.
fn library(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("library", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("library:{}", kind.name());
    let dir = ctx.dir("c26l");
    let cl = format!("c26-{}", i);
    let sh = Arc::new(Shared::default());
    let hour = Duration::from_secs(3600);
    let bad = |class: &str, d: serde_json::Value| ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "case": i, "detail": d}));
    let sets: Vec<LabelSet> = gen::population(&mut r, 5, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let db = match guard(|| open_db(kind, &dir, hour, &cl, &sh)) {
        Ok(Ok(d)) => d,
        o => return bad("open", json!(format!("{:?}", o.err()))),
    };
    let mut m = Model::default();
    let mut t = now_ms() + 1000;
    let mut others = vec![];
    let mut theirs: Vec<(LabelSet, Pt)> = vec![];
    for k in 0..ctx.n(6, 20) {
        if ctx.stop() {
            return;
        }
        for _ in 0..r.us(1, 6) {
            let l = r.pick(&sets);
            t += 1 + r.below(3);
            let p = (t, gen::value(&mut r));
            match guard(|| db.write1(l, p)) {
                Ok(Ok(())) => m.accept(l, p),
                o => return bad("write", json!(format!("{:?}", o))),
            }
        }
        sleep_ms(2);
        ctx.eval(&(&place, i, "attempt", k), true);
        if let Ok(Ok(d)) = guard(|| open_db(kind, &dir, hour, &cl, &sh)) {
            ctx.count("second_openings_that_serve", 1);
            let mut exp = m.clone();
            theirs.iter().for_each(|(l, p)| exp.accept(l, *p));
            match guard(|| d.query(&all(), 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    if let Err(x) = compare(&exp.expect(&all(), 0, u64::MAX), &g) {
                        bad(&format!("second:{}", x.class), json!({"attempt": k, "what": x.what}));
                    }
                }
                o => bad("second-read", json!(format!("{:?}", o.map(|x| x.map(|_| ()))))),
            }
            let l = r.pick(&sets).clone();
            let p = (now_ms() + 1_000_000 + k, 1.5);
            match guard(|| d.write1(&l, p)) {
                Ok(Ok(())) => theirs.push((l, p)),
                o => bad("second-write", json!(format!("{:?}", o))),
            }
            others.push(d);
        } else {
            ctx.count("second_openings_refused", 1);
        }
        ctx.eval(&(&place, i, "first", k), true);
        match guard(|| db.query(&all(), 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(&all(), 0, u64::MAX), &g) {
                    return bad(&format!("first:{}", x.class), json!({"attempt": k, "what": x.what}));
                }
            }
            o => return bad("first-read", json!(format!("{:?}", o.map(|x| x.map(|_| ()))))),
        }
    }
}

/// One that goes on rotating after another was opened, or refused.
fn rotating(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("rotating", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("rotating:{}", kind.name());
    let dir = ctx.dir("c26r");
    let cl = format!("c26r-{}", i);
    let sh = Arc::new(Shared::default());
    let size = 1500u64;
    let bad = |class: &str, d: serde_json::Value| ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "case": i, "detail": d}));
    let starts = || -> Vec<u64> { super::c09::windows(&dir).iter().map(|w| w.0).collect() };
    let db = match guard(|| open_db(kind, &dir, Duration::from_millis(size), &cl, &sh)) {
        Ok(Ok(d)) => d,
        o => return bad("open", json!(format!("{:?}", o.err()))),
    };
    let mut m = Model::default();
    let l: LabelSet = gen::normal([&all()[..], &[("case".to_string(), i.to_string())]].concat());
    let (mut second, mut tried) = (None, false);
    let (mut before, mut after) = (0u64, 0u64);
    let t0 = Instant::now();
    let mut last = 0;
    let delay = r.range(250, 800);
    let mut taken: std::collections::BTreeMap<u64, u64> = Default::default();
    // the windows of the first: its own begin one size apart, those of a second one in between
    while t0.elapsed() < Duration::from_secs(12) {
        if ctx.stop() {
            return;
        }
        ctx.beat();
        let w = starts();
        if !tried && w.len() >= 2 && now_ms() >= w[w.len() - 1] + delay && now_ms() < w[w.len() - 1] + delay + 300 {
            tried = true;
            ctx.eval(&(&place, i, "attempt"), true);
            match guard(|| open_db(kind, &dir, Duration::from_millis(size), &cl, &sh)) {
                Ok(Ok(d)) => {
                    ctx.count("second_openings_that_serve", 1);
                    second = Some(d)
                }
                _ => ctx.count("second_openings_refused", 1),
            }
        }
        let p = (now_ms().max(last + 1), gen::value(&mut r));
        last = p.0;
        match guard(|| db.write1(&l, p)) {
            Ok(Ok(())) => {
                m.accept(&l, p);
                *taken.entry(t0.elapsed().as_millis() as u64 / size).or_default() += 1;
                if tried { after += 1 } else { before += 1 }
            }
            Ok(Err(E::OutOfRange)) => {}
            o => return bad("write", json!(format!("{:?}", o))),
        }
        ctx.eval(&(&place, i, "first", last), tried);
        match guard(|| db.query(&l, 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(&l, 0, u64::MAX), &g) {
                    return bad(&format!("first:{}", x.class), json!({"tried": tried, "what": x.what}));
                }
            }
            o => return bad("first-read", json!(format!("{:?}", o.map(|x| x.map(|_| ()))))),
        }
        sleep_ms(6);
    }
    ctx.count("samples_taken_by_a_first_one_that_rotates", before + after);
    if !tried {
        return bad("no-rotation", json!({"windows": starts()}));
    }
    // 12 s are 8 windows; it must have taken samples in most, but for what a loaded machine is late
    if taken.len() < 5 {
        bad("takes-none", json!({"taken in periods of 1.5 s": format!("{:?}", taken), "windows": starts()}));
    }
    sh.stopped.store(true, Ordering::SeqCst);
    drop(second);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::write(&dir, b""); // it goes on rotating into nothing
}

/// Several that are opened at the same moment.
fn together(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("together", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("together:{}", kind.name());
    let dir = ctx.dir("c26t");
    let cl = format!("c26t-{}", i);
    let sh = Arc::new(Shared::default());
    let hour = Duration::from_secs(3600);
    let bad = |class: &str, d: serde_json::Value| ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "case": i, "detail": d}));
    if i % 5 != 0 {
        // one that has been opened before
        let first = ctx.dir("c26t0");
        if let Ok(Ok(_)) = guard(|| open_db(kind, &first, hour, &cl, &sh)) {
            let _ = std::fs::copy(first.join("metadata.json"), dir.join("metadata.json"));
        }
    }
    let n = r.us(2, 4);
    let barrier = std::sync::Barrier::new(n);
    let set = |k: usize| -> LabelSet { gen::normal(vec![("zz_all".into(), "1".into()), ("by".into(), k.to_string())]) };
    // each of those that serve takes samples, and has them
    let got: Vec<Result<Option<(Arc<dyn TDb>, Model)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (dir, cl, sh, barrier, set) = (&dir, &cl, &sh, &barrier, &set);
                s.spawn(move || {
                    barrier.wait();
                    let d = match guard(|| open_db(kind, dir, hour, cl, sh)) {
                        Ok(Ok(d)) => d,
                        _ => return Ok(None),
                    };
                    let mut m = Model::default();
                    for j in 0..4u64 {
                        let p = (now_ms() + 1000 + j, k as f64);
                        match guard(|| d.write1(&set(k), p)) {
                            Ok(Ok(())) => m.accept(&set(k), p),
                            o => return Err(format!("a write to number {}: {:?}", k, o)),
                        }
                    }
                    Ok(Some((d, m)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ctx.eval(&(&place, i, n), true);
    let mut all_m = Model::default();
    let mut dbs = vec![];
    for g in got {
        match g {
            Err(e) => return bad("write", json!(e)),
            Ok(None) => ctx.count("simultaneous_openings_refused", 1),
            Ok(Some((d, m))) => {
                ctx.count("simultaneous_openings_that_serve", 1);
                match guard(|| d.query(&all(), 0, u64::MAX)) {
                    Ok(Ok(g)) => {
                        for (l, v) in &m.series {
                            if g.iter().find(|x| &x.0 == l).map(|x| x.1.len()) != Some(v.len()) {
                                return bad("lost", json!(short(l)));
                            }
                        }
                    }
                    o => return bad("read", json!(format!("{:?}", o.map(|x| x.map(|_| ()))))),
                }
                for (l, v) in &m.series {
                    for (t, b) in v {
                        all_m.accept(l, (*t, f64::from_bits(*b)))
                    }
                }
                dbs.push(d)
            }
        }
    }
    if kind.uses_sled() {
        return; // the stores of the ones that serve stay locked in this process
    }
    match guard(|| open_db(kind, &dir, hour, &cl, &sh)) {
        Ok(Ok(d)) => match guard(|| d.query(&all(), 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&all_m.expect(&all(), 0, u64::MAX), &g) {
                    bad(&format!("after:{}", x.class), json!({"opened at a time": n, "served": dbs.len(), "what": x.what, "windows": super::c09::windows(&dir)}));
                }
            }
            o => bad("read-after", json!(format!("{:?}", o.map(|x| x.map(|_| ()))))),
        },
        o => bad("open-after", json!(format!("{:?}", o.err()))),
    }
}

/// Which operation of which files a process waits at.
fn held(info: &Path) -> Option<(String, String)> {
    let s = std::fs::read_to_string(info).ok()?;
    let w: Vec<&str> = s.trim_end_matches('\n').splitn(4, ' ').collect();
    (w.len() == 4 && s.ends_with('\n') && w[2] != "end").then(|| (w[2].into(), w[3].into()))
}

/// One that is held at its n-th operation on files while another is started, at the same time of the clock.
///
/// `other`: the second one has other backends.  Returns whether the first one has come to this operation.
fn held_at(ctx: &Ctx, kind: Kind, other: Option<Kind>, fresh: bool, rotates: bool, n: u64) -> bool {
    let mut r = ctx.rng("held", n + if fresh { 1000 } else { 0 });
    let place = format!("held:{}{}", kind.name(), other.map(|k| format!("+{}", k.name())).unwrap_or_default());
    let top = ctx.dir("c26h");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let tikv = top.join("tikv.yaml");
    std::fs::write(&tikv, "pd_endpoints:\n  - 127.0.0.1:2379\ndry_run: false\n").unwrap();
    let now = now_ms();
    let clock = top.join("clock");
    std::fs::write(&clock, (now as i64 * 2 + 1).to_le_bytes()).unwrap();
    let (info, go) = (top.join("info"), top.join("go"));
    let text = |p: &Path| p.to_str().unwrap().to_string();
    let shims = ["clock.so", "crash.so"].map(|f| text(&http::self_dir().join("../..").join(f))).join(":");
    let opts = |kind: Kind, at: u64| {
        let (st, ix) = kind.name().split_once('/').unwrap();
        Opts {
            storage: st,
            indexer: ix,
            workers: Some(2),
            chunk_size: if rotates { 1 } else { 3600 },
            extra: if kind.uses_tikv() { vec!["--tikv_config".into(), text(&tikv)] } else { vec![] },
            env: [
                ("LD_PRELOAD", shims.clone()),
                ("MON_CLOCK", text(&clock)),
                ("CRASH_PREFIX", text(&dir)),
                ("CRASH_SKIP", "embedded stores".into()),
                ("CRASH_INFO", text(&top.join(format!("info{}", if at == 0 { "0" } else { "" })))),
                ("CRASH_AT", at.to_string()),
                ("CRASH_MODE", "4".into()),
                ("CRASH_GO", text(&go)),
                ("MON_TIKV_DIR", text(&top.join("tikv"))),
            ]
            .map(|(k, v)| (k.to_string(), v))
            .to_vec(),
            ..Opts::default()
        }
    };
    let bad = |class: &str, d: serde_json::Value| {
        ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "fresh": fresh, "rotates": rotates, "held at": n, "operation": format!("{:?}", held(&info)), "detail": d}))
    };
    let set = |by: &str| -> LabelSet { gen::normal(vec![("zz_all".into(), "1".into()), ("by".into(), by.into())]) };
    let mut m = Model::default();
    let mut t = now + 300; // within each of their windows, which begin some milliseconds apart
    // what a server takes, it has
    let mut use_it = |s: &Server, by: &str, m: &mut Model, r: &mut Rng| -> Result<(), String> {
        let mut own = Model::default();
        for l in [set(by), set("both")] {
            let p: Vec<Pt> = (0..r.range(1, 3))
                .map(|_| {
                    t += 1;
                    (t, unsigned(gen::value(r)))
                })
                .collect();
            match s.write(&[wire(&l, &p)]) {
                Ok(200) => p.iter().for_each(|p| {
                    own.accept(&l, *p);
                    m.accept(&l, *p)
                }),
                o => return Err(format!("a write: {:?}", o)),
            }
        }
        let g = read_all(s, &all())?;
        within(&own, m, &g)
    };
    if !fresh {
        match Server::start(&dir, &opts(kind, 0)) {
            Ok(mut s) => {
                if let Err(e) = use_it(&s, "earlier", &mut m, &mut r) {
                    bad("earlier", json!(e));
                    return true;
                }
                if kind.uses_sled() {
                    sleep_ms(1500)
                }
                s.kill()
            }
            Err(e) => {
                bad("start", json!(e));
                return true;
            }
        }
    }
    let done = AtomicBool::new(false);
    let was_held = std::thread::scope(|sc| {
        let (tx, rx) = std::sync::mpsc::channel();
        let (dir, opts, done) = (&dir, &opts, &done);
        sc.spawn(move || {
            let _ = tx.send(Server::start(dir, &opts(kind, n)));
            // it ends with the thread that started it
            while !done.load(Ordering::SeqCst) {
                sleep_ms(10)
            }
        });
        let mut a = None;
        let t0 = Instant::now();
        while held(&info).is_none() {
            if a.is_none() {
                a = rx.try_recv().ok();
            }
            let limit = if rotates { 4000 } else { 300 };
            if t0.elapsed() > Duration::from_secs(30) || a.is_some() && t0.elapsed() > Duration::from_millis(limit) {
                done.store(true, Ordering::SeqCst);
                if let Some(Err(e)) = &a {
                    bad("start", json!(e));
                }
                return false;
            }
            sleep_ms(5);
        }
        ctx.eval(&(&place, fresh, rotates, n), true);
        ctx.count("operations_held_while_another_starts", 1);
        let at_db = held(&info).map(|h| Path::new(&h.1).parent() == Some(dir) && h.1.contains("metadata")).unwrap_or(false);
        let b = Server::start(dir, &opts(other.unwrap_or(kind), 0));
        ctx.count(if b.is_ok() { "second_servers_that_serve_beside_a_held_one" } else { "second_servers_refused_beside_a_held_one" }, 1);
        let early = r.chance(1, 2);
        let mut why = None;
        if let (Ok(b), true) = (&b, early) {
            why = use_it(b, "b", &mut m, &mut r).err().map(|e| ("second", e));
        }
        let _ = std::fs::write(&go, b"");
        let a = a.or_else(|| rx.recv_timeout(Duration::from_secs(60)).ok()).unwrap_or(Err("it does not end its start".into()));
        ctx.count(if a.is_ok() { "held_servers_that_serve" } else { "held_servers_refused" }, 1);
        if let (Ok(b), false, None) = (&b, early, &why) {
            why = use_it(b, "b", &mut m, &mut r).err().map(|e| ("second", e));
        }
        if let (Ok(a), None) = (&a, &why) {
            why = use_it(a, "a", &mut m, &mut r).err().map(|e| ("first", e));
        }
        if let (Ok(b), None) = (&b, &why) {
            why = use_it(b, "b2", &mut m, &mut r).err().map(|e| ("second-later", e));
        }
        if kind.uses_sled() || other.map(|k| k.uses_sled()).unwrap_or(false) {
            sleep_ms(1500)
        }
        let served = (a.is_ok(), b.is_ok());
        drop((a, b));
        done.store(true, Ordering::SeqCst);
        if let Some((c, e)) = why {
            bad(c, json!(e));
            return true;
        }
        let mut again = Server::start(dir, &opts(kind, 0));
        if let (Err(_), Some(k)) = (&again, other) {
            again = Server::start(dir, &opts(k, 0));
        }
        let what = match again {
            Err(e) => format!("it does not start again: {}", e),
            Ok(s) => match read_all(&s, &all()) {
                Ok(g) => match compare(&m.expect(&all(), 0, i64::MAX as u64), &g) {
                    Ok(_) => return true,
                    Err(x) => x.what,
                },
                Err(e) => e,
            },
        };
        if other.is_some() && at_db {
            ctx.violation("first-opening:other-backends", json!({"kinds": place, "held": format!("{:?}", held(&info)), "served": served, "what": what}));
        } else {
            bad("after", json!({"served": served, "what": what}));
        }
        true
    });
    rm_rf(&top);
    was_held
}

fn unsigned(v: f64) -> f64 {
    if v == 0.0 {
        0.0
    } else {
        v
    }
}

fn run(ctx: &Ctx) {
    // all operations of a start, in a new directory and in one in use, and those of a first rotation
    let mut cases = vec![];
    for kind in REAL {
        (1..=12).for_each(|n| cases.push((kind, true, false, n)));
        (1..=8).for_each(|n| cases.push((kind, false, false, n)));
        (9..=ctx.n(16, 32)).for_each(|n| cases.push((kind, true, true, n)));
    }
    ctx.rng("held", 1 << 40).shuffle(&mut cases);
    parallel(12, cases.len() as u64, |i| {
        let (kind, fresh, rotates, n) = cases[i as usize];
        if !ctx.stop() && !ctx.has_violation() && !held_at(ctx, kind, None, fresh, rotates, n) {
            ctx.count("operations_that_do_not_occur", 1)
        }
    });
    parallel(6, 6, |i| {
        held_at(ctx, REAL[(i % 2) as usize], Some(REAL[1 - (i % 2) as usize]), true, false, 1 + i / 2 * 2);
    });
    parallel(3, ctx.n(60, 600), |i| {
        if !ctx.stop() {
            together(ctx, i)
        }
    });
    parallel(8, ctx.n(16, 120), |i| {
        if !ctx.stop() && !ctx.has_violation() {
            servers(ctx, i)
        }
    });
    parallel(4, ctx.n(4, 24), |i| {
        if !ctx.stop() {
            rotating(ctx, i)
        }
    });
    parallel(4, ctx.n(8, 40), |i| {
        if !ctx.stop() {
            library(ctx, i)
        }
    });
}
