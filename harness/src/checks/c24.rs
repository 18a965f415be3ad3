//! C24: reading changes nothing.
use super::c09::{qout, tikv_args};
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::net::Shutdown;
use std::path::Path;

pub const SPEC: Spec = Spec {
    id: "C24",
    level: "exploration",
    rule: "one evaluation = one read request (of any kind, also refused ones, cut ones, and writes that store nothing) to the real server binary; after each \
           batch of them every file below the server's directory, every entry of its embedded stores and its TiKV cluster, and the answers to a fixed set of queries, are compared with \
           those before, and the answers also after a restart; non-trivial = it was answered; distinct by request bytes and server",
    assumptions: &["no rotation falls into the comparison (chunks of a day)", "the server is idle when bytes are compared (sled writes its buffers every 500 ms)"],
    run,
};

fn run(ctx: &Ctx) {
    parallel(16, ctx.n(16, 120), |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
}

/// What an embedded store holds: sled rearranges its files on reads, so its files are opened, and their contents compared.
fn content_of(d: &Path, work: &Path) -> (u64, u64) {
    let copy = work.join("copy");
    rm_rf(&copy);
    std::fs::create_dir_all(&copy).unwrap();
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.path().is_file() {
            let _ = std::fs::copy(e.path(), copy.join(e.file_name()));
        }
    }
    let mut all: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    if let Ok(db) = sled::Db::start(sled::ConfigBuilder::default().path(&copy).build()) {
        for t in db.tree_names() {
            if let Ok(tree) = db.open_tree(t.clone()) {
                all.extend(tree.iter().flatten().map(|(k, v)| (t.to_vec(), k.to_vec(), v.to_vec())));
            }
        }
    }
    all.sort();
    (all.len() as u64, hash_of(&all))
}

/// Files with length and hash; stores with entries and hash.
fn bytes_below(d: &Path) -> BTreeMap<String, (u64, u64)> {
    fn walk(d: &Path, top: &Path, out: &mut BTreeMap<String, (u64, u64)>) {
        if d.join("db").is_file() && d.join("conf").is_file() {
            out.insert(format!("{}/ (store)", d.strip_prefix(top).unwrap().display()), content_of(d, top.parent().unwrap()));
            return;
        }
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            let name = p.strip_prefix(top).unwrap().display().to_string();
            if name == "db.server-log" {
                continue;
            }
            if p.is_dir() {
                out.insert(name + "/", (0, 0));
                walk(&p, top, out);
            } else {
                let b = std::fs::read(&p).unwrap_or_default();
                out.insert(name, (b.len() as u64, hash_of(&b)));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(d, d, &mut out);
    out
}
fn difference(a: &BTreeMap<String, (u64, u64)>, b: &BTreeMap<String, (u64, u64)>) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{} is gone", k)),
            Some(y) if x != y => v.push(format!("{} changed ({} bytes or entries, now {})", k, x.0, y.0)),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{} is new", k))
        }
    }
    v.truncate(8);
    v
}

type Asked = Vec<(LabelSet, i64, i64)>;
fn answers(srv: &Server, q: &Asked) -> Result<Vec<Vec<(LabelSet, Vec<(u64, u64)>)>>, String> {
    let qs: Vec<WireQuery> = q.iter().map(|(m, a, b)| query_eq(m, *a, *b)).collect();
    match srv.read(&qs)? {
        (200, g) if g.len() == q.len() => Ok(g
            .iter()
            .map(|x| {
                let mut v: Vec<_> = qout(x).into_iter().map(|(l, p)| (l, p.into_iter().map(|p| (p.0, p.1.to_bits())).collect())).collect();
                v.sort();
                v
            })
            .collect()),
        (c, g) => Err(format!("status {}, {} results", c, g.len())),
    }
}

/// A request that reads, or that must not change anything.
fn request(r: &mut Rng, sets: &[LabelSet], t: (u64, u64), batch: u64) -> (&'static str, &'static str, Vec<u8>) {
    let matcher = |r: &mut Rng| -> LabelSet {
        let l = r.pick(sets);
        let mut m: LabelSet = vec![];
        for _ in 0..r.below(4) {
            m.push(match r.below(4) {
                0 => (gen::name(r), gen::label_value(r)),
                1 => (r.pick(l).0.clone(), gen::label_value(r)),
                2 => (gen::name(r), r.pick(l).1.clone()),
                _ => r.pick(l).clone(),
            })
        }
        if r.chance(1, 4) {
            m = l.clone();
        }
        if r.chance(1, 6) {
            // a label set that no series has
            m.push((gen::name(r), gen::label_value(r)));
        }
        m
    };
    let time = |r: &mut Rng| match r.below(6) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => 0,
        3 => -(r.below(1 << 40) as i64),
        _ => r.range(t.0.saturating_sub(1000), t.1 + 1000) as i64,
    };
    let query = |r: &mut Rng| {
        let m = matcher(r);
        let (a, b) = (time(r), time(r));
        let (a, b) = if r.chance(9, 10) { (a.min(b), a.max(b)) } else { (a, b) };
        query_eq(&m, a, b)
    };
    let k = match batch % 3 {
        0 => *r.pick(&[0u64, 1, 4, 5, 6, 7, 8, 9]),
        1 => *r.pick(&[2u64, 3, 10]),
        _ => r.below(11),
    };
    match k {
        0 => ("undecodable read", "/read", (0..r.us(1, 60)).map(|_| r.next() as u8).collect()),
        1 => {
            let mut b = snappy(&read_request(&[query(r)]));
            let n = r.below(b.len() as u64) as usize;
            b.truncate(n);
            ("cut read", "/read", b)
        }
        2 => ("undecodable write", "/write", (0..r.us(1, 60)).map(|_| r.next() as u8 | 0x80).collect()),
        3 => {
            // all of its samples are outside of the window
            let l = if r.chance(1, 2) { r.pick(sets).clone() } else { gen::label_set(r, 3, false) };
            let p: Vec<Pt> = (0..r.us(1, 4)).map(|_| (if r.chance(1, 2) { 1 + r.below(1_000_000) } else { t.1 + 90_000_000 + r.below(1_000_000) }, gen::value(r))).collect();
            let l = if l.is_empty() { r.pick(sets).clone() } else { l };
            ("write outside of the window", "/write", snappy(&write_request(&[wire(&l, &p)])))
        }
        10 => {
            // series without samples, if any
            let v: Vec<WireSeries> = (0..r.below(4)).map(|_| wire(&if r.chance(1, 2) { r.pick(sets).clone() } else { gen::label_set(r, 3, false) }, &[])).collect();
            ("write of no samples", "/write", snappy(&write_request(&v)))
        }
        4 => {
            let n = r.us(2, 30);
            let v: Vec<_> = (0..n).map(|_| query(r)).collect();
            ("read of many", "/read", snappy(&read_request(&v)))
        }
        5 => ("read of nothing", "/read", snappy(&[])),
        _ => ("read", "/read", snappy(&read_request(&[query(r)]))),
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("readonly", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("server:{}", kind.name());
    let top = ctx.dir("c24");
    let dir = top.join("all").join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let all = top.join("all");
    let (st, ix) = kind.name().split_once('/').unwrap();
    let opts = Opts {
        storage: st,
        indexer: ix,
        extra: tikv_args(&top, &mut r, kind),
        env: vec![("MON_TIKV_DIR".into(), all.join("tikv").to_str().unwrap().into())],
        ..Opts::default()
    };
    let sets: Vec<LabelSet> = gen::population(&mut r, 12, 4, false).into_iter().filter(|l| !l.is_empty()).collect();
    let t0 = now_ms();
    let mut no = 0u64;
    // some chunks
    let lives = 2 + i / 4 % 3;
    let mut last = None;
    for life in 0..lives {
        let mut s = match Server::start(&dir, &opts) {
            Ok(s) => s,
            Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
        };
        let base = now_ms();
        for l in &sets {
            if r.chance(1, 4) {
                continue;
            }
            let mut p: Vec<Pt> = (0..r.us(1, 20) as u64)
                .map(|k| {
                    no += 1;
                    (base + 1 + k * 7, no as f64)
                })
                .collect();
            if st == "sled" && r.chance(1, 2) {
                // in any order, and times more than once
                for _ in 0..p.len() {
                    let (a, b) = (r.below(p.len() as u64) as usize, r.below(p.len() as u64) as usize);
                    p.swap(a, b);
                    if r.chance(1, 6) {
                        p[a].0 = p[b].0
                    }
                }
            }
            match s.write(&[wire(l, &p)]) {
                Ok(200) => {}
                o => return ctx.violation(&format!("{}:write", place), json!({"what": format!("{:?}", o)})),
            }
        }
        sleep_ms(2300);
        if life + 1 == lives {
            last = Some(s);
        } else {
            s.kill();
        }
    }
    let mut s = last.unwrap();
    let span = (t0, now_ms());
    let mut asked: Asked = vec![];
    for l in &sets {
        asked.push((l.clone(), 0, i64::MAX));
        asked.push((vec![r.pick(l).clone()], 0, i64::MAX));
        let (a, b) = (r.range(span.0, span.1), r.range(span.0, span.1));
        asked.push((vec![r.pick(l).clone()], a.min(b) as i64, a.max(b) as i64));
    }
    asked.push((vec![("no such".into(), "label".into())], 0, i64::MAX));
    // the server comes to rest
    let mut before = bytes_below(&all);
    for _ in 0..12 {
        sleep_ms(900);
        let b = bytes_below(&all);
        if b == before {
            break;
        }
        ctx.count("waits_for_the_server_to_rest", 1);
        before = b;
    }
    let old = match answers(&s, &asked) {
        Ok(a) => a,
        Err(e) => return ctx.violation(&format!("{}:read", place), json!({"what": e})),
    };
    ctx.count("samples_in_the_fixed_answers", old.iter().flatten().map(|x| x.1.len() as u64).sum());
    for batch in 0..ctx.n(3, 12) {
        let seeds: Vec<u64> = (0..4).map(|_| r.next()).collect();
        let told = std::sync::Mutex::new(BTreeMap::<&'static str, u64>::new());
        std::thread::scope(|sc| {
            for seed in &seeds {
                let (s, sets, told, place) = (&s, &sets, &told, &place);
                sc.spawn(move || {
                    let mut r = Rng::new(*seed);
                    for _ in 0..ctx.n(60, 200) {
                        let (what, path, body) = request(&mut r, sets, span, batch);
                        let answered = if r.chance(1, 12) {
                            // cut off
                            if let Ok(mut c) = s.connect() {
                                let head = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", path, body.len());
                                let mut b = head.into_bytes();
                                b.extend_from_slice(&body);
                                let n = r.below(b.len() as u64) as usize;
                                let _ = c.write_all(&b[..n]);
                                let _ = c.shutdown(Shutdown::Both);
                            }
                            false
                        } else {
                            match s.post(path, &body) {
                                Ok(_) => true,
                                Err(e) => {
                                    ctx.violation(&format!("{}:no-answer", place), json!({"request": what, "what": e}));
                                    return;
                                }
                            }
                        };
                        ctx.eval(&(place, &body), answered);
                        *told.lock().unwrap().entry(what).or_default() += 1;
                    }
                });
            }
        });
        for (k, v) in told.lock().unwrap().iter() {
            ctx.count(&format!("requests:{}", k.replace(' ', "_")), *v);
        }
        match answers(&s, &asked) {
            Ok(a) if a == old => {}
            Ok(a) => {
                let q = a.iter().zip(&old).position(|(x, y)| x != y).unwrap();
                return ctx.violation(
                    &format!("{}:answers-changed", place),
                    json!({"where": place, "case": i, "batch": batch, "query": format!("{:?}", asked[q]).chars().take(400).collect::<String>(),
                        "series": [old[q].len(), a[q].len()], "samples": [old[q].iter().map(|x| x.1.len()).sum::<usize>(), a[q].iter().map(|x| x.1.len()).sum::<usize>()]}),
                );
            }
            Err(e) => return ctx.violation(&format!("{}:read", place), json!({"what": e})),
        }
        sleep_ms(1300);
        let now = bytes_below(&all);
        ctx.count("files_compared", now.len() as u64);
        ctx.count("entries_of_stores_compared", now.iter().filter(|x| x.0.ends_with("(store)")).map(|x| x.1 .0).sum());
        if now != before {
            return ctx.violation(&format!("{}:bytes-changed", place), json!({"where": place, "case": i, "batch": batch, "what": difference(&before, &now), "requests": *told.lock().unwrap()}));
        }
        ctx.beat();
    }
    s.kill();
    match Server::start(&dir, &opts).and_then(|s| answers(&s, &asked)) {
        Ok(a) if a == old => ctx.count("restarts_with_the_same_answers", 1),
        // its TiKV is within the process
        Ok(_) if kind.uses_tikv() && opts.extra.is_empty() => {}
        Ok(a) => {
            let q = a.iter().zip(&old).position(|(x, y)| x != y).unwrap();
            let show = |x: &Vec<(LabelSet, Vec<(u64, u64)>)>| format!("{:?}", x).chars().take(1500).collect::<String>();
            return ctx.violation(
                &format!("{}:answers-changed-after-restart", place),
                json!({"where": place, "case": i, "query": format!("{:?}", asked[q]).chars().take(400).collect::<String>(), "before": show(&old[q]), "after": show(&a[q])}),
            );
        }
        Err(e) => return ctx.violation(&format!("{}:restart", place), json!({"what": e})),
    }
    if i < 4 {
        ctx.sample(json!({"server": place, "files_and_directories": before.len(), "fixed_queries": asked.len()}));
    }
    rm_rf(&top);
}
