//! C05: rotation neither loses nor repeats samples.
use super::c04::bits;
use super::Spec;
use crate::backends::*;
use crate::chaos;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::history::*;
use crate::mem::Shared;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C05",
    level: "exploration",
    rule: "one evaluation = one query of a history recorded while the database rotates its chunks under concurrent writers and readers \
           (with failing rotations in some runs), judged offline against all writes acknowledged; non-trivial = the result spans samples \
           of at least two chunks; distinct by (order of invocations and responses, query)",
    assumptions: &[
        "rotation is driven by the database's own timer with a chunk length of 40 to 400 ms",
        "the instrumented in-memory backend, the TiKV stand-in and sled",
    ],
    run,
};

fn windows(dir: &std::path::Path) -> Vec<(u64, u64)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if let Ok(x) = u128::from_str_radix(&e.file_name().to_string_lossy(), 16) {
                v.push(((x >> 64) as u64, x as u64));
            }
        }
    }
    v.sort();
    v
}

/// A batch, and the times of the single samples accepted before and after it by the same thread.
struct Bulk {
    before: u64,
    after: Option<u64>,
    acked: bool,
    samples: Vec<W>,
}

fn run(ctx: &Ctx) {
    let n = ctx.n(18, 126);
    parallel(9, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
    if ctx.counter("chunks") < 60 && !ctx.has_violation() {
        panic!("hardly any rotation happened ({} chunks)", ctx.counter("chunks"));
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("run", i);
    let kind = [Kind::Mem, Kind::TikvTikv, Kind::Mem, Kind::Mem, Kind::SledSled, Kind::Mem, Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled][(i % 9) as usize];
    let place = format!("db:{}", kind.name());
    let long = i % 9 == 2; // far more chunks than usual
    let size = match kind {
        Kind::Mem if long => 40,
        Kind::Mem => *r.pick(&[40u64, 60, 90, 150]),
        Kind::TikvTikv => *r.pick(&[80u64, 150]),
        _ => 400,
    };
    let target_chunks = match kind {
        Kind::Mem if long => 140,
        Kind::Mem => 30,
        Kind::TikvTikv => 20,
        _ => 8,
    };
    let mem_like = !kind.uses_sled();
    let faults = kind == Kind::Mem && i % 2 == 0;
    let dir = ctx.dir("c05");
    let cl = format!("c05-{}", i);
    let sh = Arc::new(Shared::default());
    let nset = r.us(2, 5);
    let mut sets = gen::population(&mut r, nset, 3, true);
    let pair = ("zz_all".to_string(), "1".to_string());
    let nw = r.us(1, 3);
    for (k, s) in sets.iter_mut().enumerate() {
        s.push(pair.clone());
        s.push(("zz_w".into(), (k % nw).to_string()));
        *s = gen::normal(s.clone());
    }
    let rate = *r.pick(&[0u32, 100, 800]);
    if mem_like {
        chaos::enable_all(60);
    }
    let db = match guard(|| open_db(kind, &dir, Duration::from_millis(size), &cl, &sh)) {
        Ok(Ok(c)) => c,
        o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
    };
    let hist = History::default();
    let stop = AtomicBool::new(false);
    let accepted = AtomicU64::new(0);
    let bulks: std::sync::Mutex<Vec<Bulk>> = Default::default();
    let errors: std::sync::Mutex<Vec<String>> = Default::default();
    let pace = (size * target_chunks as u64 * 1000 / 700).max(300); // µs between writes: bounds the history
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for t in 0..nw {
            let mut r = Rng::new(r.next() ^ t as u64);
            let (hist, sets, stop, accepted, errors, db, bulks) = (&hist, &sets, &stop, &accepted, &errors, &db, &bulks);
            s.spawn(move || {
                chaos::enable(r.next(), rate);
                let own: Vec<usize> = (0..sets.len()).filter(|x| x % nw == t).collect();
                let mut log = vec![];
                let mut k = 0u64;
                let mut last_ts = vec![0u64; sets.len()];
                let mut last_single = None; // the latest accepted one
                let mut open: Vec<Bulk> = vec![]; // batches since then
                while !stop.load(Ordering::SeqCst) && !own.is_empty() {
                    let set = *r.pick(&own);
                    // around now, some of it ahead, some behind
                    let mut ts = now_ms();
                    match r.below(6) {
                        0 => ts += r.below(size),
                        1 => ts -= r.below(size / 4),
                        _ => {}
                    }
                    ts = ts * 8 / 8;
                    if !kind.any_order() && ts <= last_ts[set] {
                        std::thread::sleep(Duration::from_micros(pace / 2));
                        continue;
                    }
                    if last_single.is_some() && r.chance(1, 4) {
                        // a batch: what of it was in the window is known once the next single one is accepted
                        let b: Vec<Pt> = (0..r.below(5))
                            .map(|j| {
                                k += 1;
                                (ts + if j == 3 && kind.any_order() { size } else { j }, (t as u64 * 10_000_000 + k) as f64)
                            })
                            .collect();
                        let inv = hist.tick();
                        let res = guard(|| db.write(&sets[set], &b));
                        let resp = hist.tick();
                        if !matches!(res, Ok(Ok(()))) && kind.any_order() {
                            errors.lock().unwrap().push(format!("batch: {:?}", res));
                        }
                        last_ts[set] = last_ts[set].max(b.iter().map(|p| p.0).max().unwrap_or(0));
                        open.push(Bulk {
                            before: last_single.unwrap(),
                            after: None,
                            acked: matches!(res, Ok(Ok(()))),
                            samples: b.iter().map(|p| W { inv, resp, set, ts: p.0, bits: p.1.to_bits(), ok: false }).collect(),
                        });
                        ctx.count("batches", 1);
                        ctx.beat();
                        std::thread::sleep(Duration::from_micros(r.below(2 * pace)));
                        continue;
                    }
                    k += 1;
                    let v = (t as u64 * 10_000_000 + k) as f64;
                    let inv = hist.tick();
                    let res = guard(|| db.write1(&sets[set], (ts, v)));
                    let resp = hist.tick();
                    let ok = match res {
                        Ok(Ok(())) => true,
                        Ok(Err(E::OutOfRange)) => {
                            ctx.count("writes_refused_out_of_window", 1);
                            ctx.beat();
                            std::thread::sleep(Duration::from_micros(pace));
                            continue; // refused: must not appear, and is not in the history
                        }
                        o => {
                            errors.lock().unwrap().push(format!("write: {:?}", o));
                            false
                        }
                    };
                    if ok {
                        accepted.fetch_add(1, Ordering::SeqCst);
                        last_ts[set] = last_ts[set].max(ts);
                        for mut b in open.drain(..) {
                            b.after = Some(ts);
                            bulks.lock().unwrap().push(b)
                        }
                        last_single = Some(ts);
                    }
                    log.push(W { inv, resp, set, ts, bits: v.to_bits(), ok });
                    ctx.beat();
                    std::thread::sleep(Duration::from_micros(r.below(2 * pace)));
                }
                chaos::disable();
                hist.add_writes(log);
                bulks.lock().unwrap().extend(open);
            });
        }
        for t in 0..2 {
            let mut r = Rng::new(r.next() ^ (77 + t as u64));
            let (hist, stop, errors, db, pair) = (&hist, &stop, &errors, &db, &pair);
            s.spawn(move || {
                chaos::enable(r.next(), rate);
                let mut log = vec![];
                while !stop.load(Ordering::SeqCst) && log.len() < 700 {
                    let m: LabelSet = vec![pair.clone()];
                    let inv = hist.tick();
                    let res = guard(|| db.query(&m, 0, u64::MAX));
                    let resp = hist.tick();
                    match res {
                        Ok(Ok(q)) => log.push(Q { inv, resp, matcher: m, range: (0, u64::MAX), got: bits(q) }),
                        o => {
                            errors.lock().unwrap().push(format!("query: {:?}", o.map(|x| x.map(|_| ()))));
                            break;
                        }
                    }
                    ctx.beat();
                    std::thread::sleep(Duration::from_micros(r.below(4 * pace)));
                }
                chaos::disable();
                hist.add_queries(log);
            });
        }
        // the conductor: waits for the rotations, and makes some of them fail
        let limit = Duration::from_millis(size * target_chunks as u64 * 3 + 20_000);
        loop {
            sleep_ms(size / 2 + 1);
            ctx.beat();
            if faults && r.chance(1, 6) && windows(&dir).len() < target_chunks - 4 {
                sh.fail_builds.fetch_add(1, Ordering::SeqCst);
                ctx.count("rotations_made_to_fail", 1);
            }
            let n = windows(&dir).len();
            if n >= target_chunks || t0.elapsed() > limit || !errors.lock().unwrap().is_empty() {
                if n < target_chunks && errors.lock().unwrap().is_empty() {
                    ctx.violation(
                        &format!("{}:rotation-stopped", place),
                        json!({"where": place, "what": format!("after {} ms with a chunk length of {} ms there are {} chunks", t0.elapsed().as_millis(), size, n)}),
                    );
                }
                break;
            }
        }
        stop.store(true, Ordering::SeqCst);
    });
    let ws = windows(&dir);
    ctx.count("chunks", ws.len() as u64);
    ctx.max("most_chunks_in_one_run", ws.len() as u64);
    let inv = hist.tick();
    match guard(|| db.query(&[pair.clone()], 0, u64::MAX)) {
        Ok(Ok(q)) => {
            let resp = hist.tick();
            hist.add_queries(vec![Q { inv, resp, matcher: vec![pair.clone()], range: (0, u64::MAX), got: bits(q) }]);
        }
        o => errors.lock().unwrap().push(format!("query: {:?}", o.map(|x| x.map(|_| ())))),
    }
    // partial ranges over the rotated chunks
    let mut cuts: Vec<u64> = hist.writes.lock().unwrap().iter().filter(|w| w.ok).map(|w| w.ts).collect();
    cuts.sort();
    for _ in 0..25 {
        if cuts.is_empty() {
            break;
        }
        let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
        let (a, b) = (a.min(b), a.max(b));
        let inv = hist.tick();
        match guard(|| db.query(&[pair.clone()], a, b)) {
            Ok(Ok(q)) => {
                let resp = hist.tick();
                hist.add_queries(vec![Q { inv, resp, matcher: vec![pair.clone()], range: (a, b), got: bits(q) }]);
            }
            o => errors.lock().unwrap().push(format!("query: {:?}", o.map(|x| x.map(|_| ())))),
        }
    }
    sh.stopped.store(true, Ordering::SeqCst);
    chaos::enable_all(0);
    // samples go where their time is
    let holder = |ts: u64| -> Vec<usize> { (0..ws.len()).filter(|k| ws[*k].0 <= ts && ts <= ws[*k].1).collect() };
    for w in hist.writes.lock().unwrap().iter().filter(|w| w.ok) {
        if holder(w.ts).is_empty() {
            ctx.violation(&format!("{}:accepted-outside", place), json!({"where": place, "timestamp": w.ts, "windows": ws, "what": "a write was accepted, and no chunk's window contains its time"}));
            break;
        }
    }
    // a batch between two single samples of one window was taken by that window's chunk
    let mut extra = vec![];
    for b in bulks.into_inner().unwrap() {
        let (x, y) = (holder(b.before), b.after.map(|t| holder(t)).unwrap_or_default());
        for mut w in b.samples {
            if b.acked && x.len() == 1 && x == y && holder(w.ts).contains(&x[0]) {
                w.ok = true;
                ctx.count("samples_of_batches_that_had_to_be_kept", 1);
            } else if holder(w.ts).is_empty() {
                continue; // dropped: must not appear
            }
            extra.push(w)
        }
    }
    hist.add_writes(extra);
    let shape = hist.shape();
    for (n, q) in hist.queries.lock().unwrap().iter().enumerate() {
        let mut in_chunks = std::collections::BTreeSet::new();
        for (_, p) in &q.got {
            for x in p {
                if let Some(k) = ws.iter().position(|w| x.0 >= w.0 && x.0 <= w.1) {
                    in_chunks.insert(k);
                }
            }
        }
        ctx.eval(&(shape, n), in_chunks.len() > 1);
        ctx.max("most_chunks_in_one_result", in_chunks.len() as u64);
    }
    ctx.count("writes_accepted", accepted.load(Ordering::SeqCst));
    ctx.count("queries_during_writes", hist.overlapping() as u64);
    if accepted.load(Ordering::SeqCst) < 20 && errors.lock().unwrap().is_empty() {
        ctx.violation(&format!("{}:no-writes", place), json!({"where": place, "what": "samples stamped with the current time are refused all along", "windows": ws.iter().take(5).collect::<Vec<_>>()}));
    }
    if let Some(e) = errors.into_inner().unwrap().first() {
        ctx.violation(&format!("{}:error", place), json!({"where": place, "what": e}));
    }
    for p in hist.check(&sets) {
        ctx.violation(&format!("{}:{}", place, p.class), json!({"where": place, "chunk_ms": size, "chunks": ws.len(), "detail": p.detail}));
    }
    if i < 3 {
        ctx.sample(json!({"where": place, "chunk_ms": size, "chunks": ws.len(), "accepted": accepted.load(Ordering::SeqCst), "queries": hist.queries.lock().unwrap().len()}));
    }
}
