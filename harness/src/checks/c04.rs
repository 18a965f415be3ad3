//! C04: concurrent reads and writes look as if they had happened one at a time.
use super::Spec;
use crate::backends::*;
use crate::chaos;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::history::*;
use crate::mem::Shared;
use serde_json::json;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C04",
    level: "exploration",
    rule: "one evaluation = one query of a recorded concurrent history (writers and readers on one chunk or database, randomly delayed at \
           backend calls, log statements and allocations), judged offline against all writes of the history; non-trivial = the query \
           overlapped at least one write; distinct by (history's order of invocations and responses, query)",
    assumptions: &[
        "interleavings are sampled: real threads, randomly delayed",
        "TiKV is replaced by an in-memory raw key-value store with the client's API",
    ],
    run,
};

/// What the threads of a round work on.
pub struct Target<'a> {
    pub insert: &'a (dyn Fn(&LabelSet, Pt) -> Result<(), E> + Sync),
    pub query: &'a (dyn Fn(&LabelSet, u64, u64) -> Result<QOut, E> + Sync),
}

pub fn bits(q: QOut) -> Vec<(LabelSet, Vec<(u64, u64)>)> {
    q.into_iter().map(|(l, p)| (l, p.into_iter().map(|x| (x.0, x.1.to_bits())).collect())).collect()
}

fn run(ctx: &Ctx) {
    let rounds = ctx.n(300, 3300);
    parallel(4, rounds, |i| {
        if !ctx.stop() {
            round(ctx, i)
        }
    });
    if ctx.counter("queries_during_writes") * 20 < ctx.evaluations() && !ctx.has_violation() {
        panic!("almost no query overlapped a write: nothing to judge");
    }
}

fn round(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("round", i);
    let kind = *r.pick(&[Kind::Mem, Kind::Mem, Kind::Mem, Kind::TikvTikv, Kind::TikvTikv, Kind::SledSled, Kind::SledTikv, Kind::TikvSled]);
    let on_db = r.chance(1, 3);
    let place = format!("{}:{}", if on_db { "db" } else { "chunk" }, kind.name());
    let dir = ctx.dir("c04");
    let cl = format!("c04-{}", i);
    let sh = Arc::new(Shared::default());
    let base = now_ms() + 1000;
    let (chunk, db) = if on_db {
        match guard(|| open_db(kind, &dir, Duration::from_secs(86_400), &cl, &sh)) {
            Ok(Ok(c)) => (None, Some(c)),
            o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
        }
    } else {
        match guard(|| open_chunk(kind, &dir, base - 10, base + 80_000_000, &cl, &sh)) {
            Ok(Ok(c)) => (Some(c), None),
            o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
        }
    };
    let insert = |l: &LabelSet, p: Pt| match (&chunk, &db) {
        (Some(c), _) => c.insert(l, p),
        (_, Some(d)) => {
            if p.0 % 3 == 0 {
                d.write(l, &[p])
            } else {
                d.write1(l, p)
            }
        }
        _ => unreachable!(),
    };
    let query = |m: &LabelSet, a: u64, b: u64| match (&chunk, &db) {
        (Some(c), _) => c.query(m, a, b),
        (_, Some(d)) => d.query(m, a, b),
        _ => unreachable!(),
    };
    let nw = r.us(2, 5);
    let nr = r.us(1, 3);
    // label sets: some raced for by all writers, the rest owned by one writer each
    let nset = r.us(3, 9);
    let mut sets = gen::population(&mut r, nset, 4, true);
    let pair = ("zz_all".to_string(), "1".to_string());
    for (k, s) in sets.iter_mut().enumerate() {
        s.push(pair.clone());
        s.push(("zz_n".into(), (k % 2).to_string()));
        *s = gen::normal(s.clone());
    }
    let shared_sets = if kind.any_order() { r.us(1, sets.len()) } else { 0 };
    let per = r.us(6, 40);
    let hist = History::default();
    let go = Barrier::new(nw + nr);
    let done = AtomicBool::new(false);
    let rate = *r.pick(&[0u32, 20, 200, 1500]);
    let errors: std::sync::Mutex<Vec<(String, String)>> = Default::default();
    let left = std::sync::atomic::AtomicUsize::new(nw);
    std::thread::scope(|s| {
        for t in 0..nw {
            let mut r = r.clone();
            for _ in 0..=t {
                r = Rng::new(r.next());
            }
            let (hist, go, sets, errors, insert, done, left, db) = (&hist, &go, &sets, &errors, &insert, &done, &left, &db);
            s.spawn(move || {
                chaos::enable(r.next(), rate);
                go.wait();
                let mut log = vec![];
                for k in 0..per {
                    // the racing creations come first
                    let own: Vec<usize> = (0..sets.len()).filter(|x| *x < shared_sets || x % nw == t).collect();
                    if own.is_empty() {
                        break;
                    }
                    let set = if k < shared_sets { k } else { *r.pick(&own) };
                    let ts = base + (k * nw + t) as u64;
                    let v = (t * 100_000 + k) as f64;
                    let mut l = sets[set].clone();
                    r.shuffle(&mut l);
                    if db.is_some() && r.chance(1, 5) {
                        // a batch is several writes at once
                        let step = (nw * per) as u64 * if kind.any_order() { 1 } else { 0 };
                        let n = if kind.any_order() { r.range(2, 6) } else { 1 };
                        let b: Vec<Pt> = (0..n).map(|j| (ts + j * step, v + j as f64 / 8.0)).collect();
                        let inv = hist.tick();
                        let res = guard(|| db.as_ref().unwrap().write(&l, &b));
                        let resp = hist.tick();
                        let ok = matches!(res, Ok(Ok(())));
                        if !ok {
                            errors.lock().unwrap().push(("write".into(), format!("{:?}", res)));
                        }
                        for p in b {
                            log.push(W { inv, resp, set, ts: p.0, bits: p.1.to_bits(), ok })
                        }
                        ctx.count("batches", 1);
                        ctx.beat();
                        continue;
                    }
                    let inv = hist.tick();
                    let res = guard(|| insert(&l, (ts, v)));
                    let resp = hist.tick();
                    let ok = matches!(res, Ok(Ok(())));
                    if !ok {
                        errors.lock().unwrap().push(("write".into(), format!("{:?}", res)));
                    }
                    log.push(W { inv, resp, set, ts, bits: v.to_bits(), ok });
                    ctx.beat();
                }
                chaos::disable();
                hist.add_writes(log);
                if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                    done.store(true, Ordering::SeqCst);
                }
            });
        }
        for t in 0..nr {
            let mut r = Rng::new(r.next() ^ t as u64);
            let (hist, go, errors, query, done, pair) = (&hist, &go, &errors, &query, &done, &pair);
            s.spawn(move || {
                chaos::enable(r.next(), rate);
                go.wait();
                let mut log = vec![];
                let mut last = false;
                while log.len() < 120 {
                    let m: LabelSet = match r.below(4) {
                        0 => vec![("zz_n".into(), "0".into())],
                        1 => vec![("zz_n".into(), "1".into()), pair.clone()],
                        _ => vec![pair.clone()],
                    };
                    let (a, b) = if r.chance(3, 4) { (0, u64::MAX) } else { (base, base + (per * nw) as u64 / 2) };
                    let inv = hist.tick();
                    let res = guard(|| query(&m, a, b));
                    let resp = hist.tick();
                    match res {
                        Ok(Ok(q)) => log.push(Q { inv, resp, matcher: m, range: (a, b), got: bits(q) }),
                        o => {
                            errors.lock().unwrap().push(("query".into(), format!("{:?}", o.map(|x| x.map(|_| ())))));
                            break;
                        }
                    }
                    ctx.beat();
                    if last {
                        break;
                    }
                    last = done.load(Ordering::SeqCst);
                }
                chaos::disable();
                hist.add_queries(log);
            });
        }
    });
    // the state everything ended in
    let inv = hist.tick();
    match guard(|| query(&vec![pair.clone()], 0, u64::MAX)) {
        Ok(Ok(q)) => {
            let resp = hist.tick();
            hist.add_queries(vec![Q { inv, resp, matcher: vec![pair.clone()], range: (0, u64::MAX), got: bits(q) }]);
        }
        o => errors.lock().unwrap().push(("query".into(), format!("{:?}", o.map(|x| x.map(|_| ()))))),
    }
    let shape = hist.shape();
    let over = hist.overlapping();
    ctx.count("histories", 1);
    ctx.count("writes", hist.writes.lock().unwrap().len() as u64);
    ctx.count("queries_during_writes", over as u64);
    {
        let w = hist.writes.lock().unwrap();
        for (n, q) in hist.queries.lock().unwrap().iter().enumerate() {
            let o = w.iter().any(|w| w.inv < q.resp && q.inv < w.resp);
            ctx.eval(&(shape, n), o);
        }
    }
    if let Some((k, e)) = errors.into_inner().unwrap().first() {
        ctx.violation(&format!("{}:{}-failed", place, k), json!({"where": place, "what": format!("a {} failed though nothing was wrong: {}", k, e), "threads": [nw, nr]}));
    }
    for p in hist.check(&sets) {
        ctx.violation(&format!("{}:{}", place, p.class), json!({"where": place, "writers": nw, "readers": nr, "detail": p.detail}));
    }
    if let Some(c) = &chunk {
        // one series per label set, whoever created it
        if let Ok(Ok(v)) = guard(|| c.query_ids(&[pair.clone()], 0, u64::MAX)) {
            let ids: std::collections::BTreeSet<u64> = v.iter().map(|x| x.0).collect();
            let ls: std::collections::BTreeSet<&LabelSet> = v.iter().map(|x| &x.1).collect();
            if ids.len() != v.len() || ls.len() != v.len() {
                ctx.violation(&format!("{}:series-created-twice", place), json!({"where": place, "what": format!("{} series, {} ids, {} label sets", v.len(), ids.len(), ls.len())}));
            }
        }
    }
    if i < 3 {
        ctx.sample(json!({"where": place, "writers": nw, "readers": nr, "writes": hist.writes.lock().unwrap().len(), "overlapping_queries": over, "raced_series": shared_sets}));
    }
    tikv_client::stub::cluster(&cl).clear();
    drop(chunk);
    if !on_db {
        rm_rf(&dir);
    }
}
