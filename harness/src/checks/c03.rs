//! C03: series identity.
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::Shared;
use crate::model::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SPEC: Spec = Spec {
    id: "C03",
    level: "exploration",
    rule: "one evaluation = one series (label set) written several times with its labels in different orders among a population that \
           holds look-alikes, then looked up: exactly one series, its own samples, its own labels, an id no other series has; \
           non-trivial = the population holds another label set that differs from it in at most one pair or collides under a textual \
           encoding, or several threads raced for its creation; distinct by (backend, population, label set)",
    assumptions: &[
        "TiKV is replaced by an in-memory raw key-value store with the client's API",
        "label sets have distinct, Prometheus-valid names and non-empty values",
    ],
    run,
};

fn run(ctx: &Ctx) {
    // more series than 16 bits count, while the others run
    std::thread::scope(|s| {
        for i in if ctx.thorough { 0..4 } else { 1..4 } {
            s.spawn(move || many(ctx, i));
        }
        others(ctx)
    })
}

fn others(ctx: &Ctx) {
    let n = ctx.n(72, 1200);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("id", i);
        let kind = REAL[(i % 4) as usize];
        let place = format!("chunk:{}", kind.name());
        let mut sets: Vec<LabelSet> = vec![];
        for _ in 0..r.us(1, 6) {
            for s in gen::collision_family(&mut r) {
                if !sets.contains(&s) {
                    sets.push(s)
                }
            }
        }
        let extra = r.us(1, 12);
        for s in gen::population(&mut r, extra, 8, false) {
            if !sets.contains(&s) {
                sets.push(s)
            }
        }
        if i % 6 == 5 {
            for k in 0..r.us(60, 140) {
                let s = vec![("n".to_string(), k.to_string())];
                if !sets.contains(&s) {
                    sets.push(s)
                }
            }
        }
        r.shuffle(&mut sets);
        let dir = ctx.dir("c03");
        let cl = format!("c03-{}", i);
        let sh = Arc::new(Shared::default());
        let c = match guard(|| open_chunk(kind, &dir, 0, 1 << 40, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("chunk:open", json!({"backend": kind.name(), "what": format!("{:?}", o.err())})),
        };
        let mut m = Model::default();
        let mut ts = 10u64;
        for _ in 0..3 {
            let mut order: Vec<usize> = (0..sets.len()).collect();
            r.shuffle(&mut order);
            for k in order {
                let mut l = sets[k].clone();
                r.shuffle(&mut l);
                ts += 1;
                let p = (ts, k as f64);
                if r.chance(1, 6) {
                    // before and between its samples
                    let o = if r.chance(1, 2) { &sets[k] } else { r.pick(&sets) };
                    ctx.eval(&(&place, i, "between", ts), true);
                    match guard(|| c.query(o, 0, u64::MAX)) {
                        Ok(Ok(g)) => {
                            if let Err(x) = compare(&m.expect(o, 0, u64::MAX), &g) {
                                ctx.violation(&format!("{}:between-{}", place, x.class), json!({"where": place, "labels": o, "what": x.what}));
                            }
                        }
                        o => ctx.violation(&format!("{}:error", place), json!({"where": place, "what": format!("{:?}", o)})),
                    }
                }
                ctx.count("writes", 1);
                match guard(|| c.insert(&l, p)) {
                    Ok(Ok(())) => m.accept(&sets[k], p),
                    o => ctx.violation(&format!("{}:write", place), json!({"labels": short(&sets[k]), "what": format!("write to a valid series failed: {:?}", o)})),
                }
            }
        }
        let mut ids: BTreeMap<u64, LabelSet> = BTreeMap::new();
        for s in &sets {
            let look = sets.iter().any(|o| o != s && near(o, s));
            ctx.eval(&(&place, i, s), look);
            let mut q = s.clone();
            r.shuffle(&mut q);
            let d = |what: String| json!({"where": place, "labels": s, "what": what, "lookalikes": sets.iter().filter(|o| *o != s && near(o, s)).take(4).collect::<Vec<_>>()});
            let exp = m.expect(&q, 0, u64::MAX);
            match guard(|| c.query(&q, 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    if let Err(x) = compare(&exp, &g) {
                        ctx.violation(&format!("{}:{}", place, x.class), d(x.what));
                    }
                }
                o => ctx.violation(&format!("{}:error", place), d(format!("{:?}", o))),
            }
            if let Ok(Ok(v)) = guard(|| c.query_ids(&q, 0, u64::MAX)) {
                for (id, l) in v {
                    if let Some(o) = ids.get(&id) {
                        if o != &l {
                            ctx.violation(&format!("{}:id-shared", place), d(format!("id {} belongs to {} and to {}", id, short(o), short(&l))));
                        }
                    } else {
                        ids.insert(id, l);
                    }
                }
            }
        }
        if ids.len() != sets.len() && !ctx.has_violation() {
            ctx.violation(&format!("{}:id-count", place), json!({"what": format!("{} label sets, {} series ids", sets.len(), ids.len())}));
        }
        if i < 3 {
            ctx.sample(json!({"backend": kind.name(), "label_sets": sets.iter().take(4).collect::<Vec<_>>()}));
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(c);
        rm_rf(&dir);
    });
    // exact lookup in the indexers: equal sets are found in any order, others are not
    let n = ctx.n(40, 600);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("idx", i);
        let tikv = i % 2 == 1;
        let place = if tikv { "indexer:tikv" } else { "indexer:sled" };
        let mut sets: Vec<LabelSet> = vec![];
        let mut absent: Vec<LabelSet> = vec![];
        for _ in 0..r.us(2, 8) {
            for s in gen::collision_family(&mut r) {
                if !sets.contains(&s) && !absent.contains(&s) {
                    if r.chance(2, 3) {
                        sets.push(s)
                    } else {
                        absent.push(s)
                    }
                }
            }
        }
        let dir = ctx.dir("c03i");
        let cl = format!("c03i-{}", i);
        let ix = match guard(|| open_idx(tikv, &dir, &cl)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("indexer:open", json!({"where": place, "what": format!("{:?}", o.err())})),
        };
        let id0 = if i % 4 < 2 { 1 } else { *r.pick(&[(1u64 << 32) - 4, (1 << 53) - 3, i64::MAX as u64 - 5, u64::MAX - 200]) };
        for (k, s) in sets.iter().enumerate() {
            let mut l = s.clone();
            r.shuffle(&mut l);
            // looked up while it is not there yet, as each new series is
            if r.chance(2, 3) {
                ctx.eval(&(place, i, "before", &l), true);
                match guard(|| ix.exact(&l)) {
                    Ok(Ok(None)) => {}
                    o => ctx.violation(&format!("{}:exact-before", place), json!({"where": place, "labels": l, "indexed": sets[..k].iter().take(12).collect::<Vec<_>>(), "what": format!("exact lookup gave {:?} before the series was made", o)})),
                }
            }
            if !matches!(guard(|| ix.create(&l, k as u64 + id0)), Ok(Ok(()))) {
                ctx.violation(&format!("{}:create", place), json!({"labels": short(s), "what": "indexing a new series failed"}));
            }
        }
        for (s, want) in sets.iter().enumerate().map(|(k, s)| (s, Some(k as u64 + id0))).chain(absent.iter().map(|s| (s, None))) {
            for _ in 0..2 {
                let mut l = s.clone();
                r.shuffle(&mut l);
                ctx.eval(&(place, i, &l), true);
                match guard(|| ix.exact(&l)) {
                    Ok(Ok(g)) if g == want => {}
                    o => ctx.violation(
                        &format!("{}:exact", place),
                        json!({"where": place, "labels": l, "indexed": sets.iter().take(12).collect::<Vec<_>>(), "what": format!("exact lookup gave {:?}, expected {:?}", o, want)}),
                    ),
                }
            }
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(ix);
        rm_rf(&dir);
    });
    // first writes of the same new label sets from many threads
    let n = ctx.n(40, 600);
    parallel(4, n, |i| {
        if !ctx.stop() {
            raced(ctx, i)
        }
    });
    // and after the chunk was closed and opened again
    let n = ctx.n(16, 240);
    parallel(8, n, |i| {
        if !ctx.stop() {
            reopened(ctx, i)
        }
    });
    // ids handed out concurrently are distinct
    for round in 0..ctx.n(6, 60) {
        let init = ctx.rng("gen", round).range(0, 1 << 40);
        let g = Arc::new(monolith::IdGenerator::new(init));
        let mut hs = vec![];
        for _ in 0..8 {
            let g = g.clone();
            hs.push(std::thread::spawn(move || (0..20_000).map(|_| g.next()).collect::<Vec<u64>>()));
        }
        let mut all = BTreeSet::new();
        let mut total = 0;
        for h in hs {
            let v = h.join().unwrap();
            if v.windows(2).any(|w| w[0] >= w[1]) {
                ctx.violation("ids:order", json!({"what": "ids handed to one thread do not increase"}));
            }
            total += v.len();
            all.extend(v);
        }
        ctx.eval(&("ids", init), true);
        ctx.count("ids_generated", total as u64);
        if all.len() != total {
            ctx.violation("ids:repeated", json!({"what": format!("{} ids handed out, {} distinct", total, all.len())}));
        }
    }
}

fn family(r: &mut Rng, n: usize) -> Vec<LabelSet> {
    let mut sets: Vec<LabelSet> = vec![];
    while sets.len() < n {
        for s in gen::collision_family(r).into_iter().chain(gen::population(r, 2, 5, true)) {
            if !sets.contains(&s) && sets.len() < n {
                sets.push(s)
            }
        }
    }
    sets
}

fn raced(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("race", i);
    let kind = *r.pick(&[Kind::Mem, Kind::TikvTikv, Kind::SledSled, Kind::SledTikv, Kind::TikvSled]);
    let on_db = r.chance(1, 3);
    let place = format!("{}:{}", if on_db { "db" } else { "chunk" }, kind.name());
    let dir = ctx.dir("c03r");
    let cl = format!("c03r-{}", i);
    let sh = Arc::new(Shared::default());
    let base = now_ms() + 1000;
    let nset = r.us(2, 8);
    let sets = family(&mut r, nset);
    type Ins = Box<dyn Fn(&LabelSet, Pt) -> Result<(), E> + Sync>;
    type Que = Box<dyn Fn(&LabelSet) -> Result<QOut, E> + Sync>;
    let (ins, que, ids): (Ins, Que, Option<Arc<dyn TChunk>>) = if on_db {
        match guard(|| open_db(kind, &dir, std::time::Duration::from_secs(86_400), &cl, &sh)) {
            Ok(Ok(d)) => {
                let e = d.clone();
                (Box::new(move |l, p| d.write1(l, p)), Box::new(move |l| e.query(l, 0, u64::MAX)), None)
            }
            o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
        }
    } else {
        match guard(|| open_chunk(kind, &dir, base, base + 100_000, &cl, &sh)) {
            Ok(Ok(c)) => {
                let (a, b) = (c.clone(), c.clone());
                (Box::new(move |l, p| a.insert(l, p)), Box::new(move |l| b.query(l, 0, u64::MAX)), Some(c))
            }
            o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
        }
    };
    let threads = r.us(2, 8);
    let rate = *r.pick(&[0u32, 100, 1500]);
    let bar = std::sync::Barrier::new(threads);
    let log = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let mut r = Rng::derive(r.next(), "thread", t as u64);
            let (bar, log, sets, ins, place) = (&bar, &log, &sets, &ins, &place);
            s.spawn(move || {
                crate::chaos::enable(r.next(), rate);
                for (k, set) in sets.iter().enumerate() {
                    // one series after another, all threads at the same one
                    let p = (base + (k * threads + t) as u64, t as f64);
                    let mut l = set.clone();
                    r.shuffle(&mut l);
                    bar.wait();
                    let res = guard(|| ins(&l, p));
                    crate::chaos::point();
                    // in series that want ascending time order some are refused
                    match res {
                        Ok(Ok(())) => log.lock().unwrap().push((k, p)),
                        Ok(Err(_)) if !kind.any_order() => {}
                        o => ctx.violation(&format!("{}:raced-write", place), json!({"where": place, "labels": short(set), "threads": threads, "what": format!("{:?}", o)})),
                    }
                    ctx.beat();
                }
                crate::chaos::disable();
            });
        }
    });
    let mut m = Model::default();
    for (k, p) in log.lock().unwrap().iter() {
        m.accept(&sets[*k], *p)
    }
    ctx.count("raced_first_writes", m.points() as u64);
    for s in &sets {
        ctx.eval(&(&place, "raced", i, s), true);
        match guard(|| que(s)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(s, 0, u64::MAX), &g) {
                    ctx.violation(&format!("{}:raced-{}", place, x.class), json!({"where": place, "labels": short(s), "threads": threads, "what": x.what}));
                }
            }
            o => ctx.violation(&format!("{}:raced-error", place), json!({"where": place, "labels": short(s), "what": format!("{:?}", o)})),
        }
    }
    if let Some(c) = &ids {
        let mut seen: BTreeMap<u64, LabelSet> = BTreeMap::new();
        for s in &sets {
            for (id, l) in guard(|| c.query_ids(s, 0, u64::MAX)).ok().and_then(|x| x.ok()).unwrap_or_default() {
                if let Some(o) = seen.insert(id, l.clone()) {
                    if o != l {
                        ctx.violation(&format!("{}:raced-id-shared", place), json!({"where": place, "what": format!("id {} belongs to {} and to {}", id, short(&o), short(&l))}));
                    }
                }
            }
        }
    }
    tikv_client::stub::cluster(&cl).clear();
    if !on_db {
        drop((ins, que, ids));
        rm_rf(&dir);
    }
}

/// A chunk's series are found again by a new process's database: each once, with all its
/// samples, next to what the new process writes.
fn reopened(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("reopen", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("db:{}", kind.name());
    let dir = ctx.dir("c03o");
    let cl = format!("c03o-{}", i);
    let nset = r.us(4, 16);
    let sets = family(&mut r, nset);
    let mut m = Model::default();
    let now = now_ms();
    // the chunks of earlier processes, each with some of the label sets
    for c in 0..r.us(1, 3) as u64 {
        let a = now - 1_000_000 * (c + 1);
        let b = a + 900_000;
        let ch = match guard(|| forge(kind, &dir, a, b, &cl)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
        };
        let mut ts = a;
        for _ in 0..2 {
            for s in sets.iter() {
                if r.chance(2, 3) {
                    ts += r.range(1, 9);
                    let mut l = s.clone();
                    r.shuffle(&mut l);
                    match guard(|| ch.insert(&l, (ts, c as f64))) {
                        Ok(Ok(())) => m.accept(s, (ts, c as f64)),
                        o => return ctx.violation(&format!("{}:write", place), json!({"where": place, "labels": short(s), "what": format!("{:?}", o)})),
                    }
                }
            }
        }
        ctx.beat();
    }
    let sh = Arc::new(Shared::default());
    let db = match guard(|| open_db(kind, &dir, std::time::Duration::from_secs(86_400), &cl, &sh)) {
        Ok(Ok(d)) => d,
        o => return ctx.violation(&format!("{}:reopen", place), json!({"where": place, "what": format!("{:?}", o.err())})),
    };
    let t = now_ms() + 10_000;
    for (k, s) in sets.iter().enumerate() {
        if r.chance(1, 2) {
            let mut l = s.clone();
            r.shuffle(&mut l);
            match guard(|| db.write1(&l, (t + k as u64, 7.0))) {
                Ok(Ok(())) => m.accept(s, (t + k as u64, 7.0)),
                o => return ctx.violation(&format!("{}:write", place), json!({"where": place, "labels": short(s), "what": format!("{:?}", o)})),
            }
        }
    }
    for s in &sets {
        ctx.eval(&(&place, "reopened", i, s), sets.iter().any(|o| o != s && near(o, s)));
        let mut q = s.clone();
        r.shuffle(&mut q);
        match guard(|| db.query(&q, 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(s, 0, u64::MAX), &g) {
                    ctx.violation(&format!("{}:reopened-{}", place, x.class), json!({"where": place, "labels": short(s), "what": x.what}));
                }
            }
            o => ctx.violation(&format!("{}:reopened-error", place), json!({"where": place, "labels": short(s), "what": format!("{:?}", o)})),
        }
    }
    ctx.count("reopened_series", sets.len() as u64);
}

fn many(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("many", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("many:{}", kind.name());
    let dir = ctx.dir("c03m");
    let cl = format!("c03m-{}", i);
    let sh = Arc::new(Shared::default());
    let c = match guard(|| open_chunk(kind, &dir, 0, u64::MAX, &cl, &sh)) {
        Ok(Ok(c)) => c,
        o => return ctx.violation("open", json!({"where": place, "what": format!("{:?}", o.err())})),
    };
    let n = ctx.n(66_500, 200_000);
    let set = |k: u64| -> LabelSet {
        // alike, too: the first ones in pairs that differ in which of two names has the value
        if k < 2000 {
            vec![("a".into(), (k / 2 % 100).to_string()), (["b", "c"][(k % 2) as usize].into(), (k / 200).to_string())]
        } else {
            vec![("k".into(), k.to_string())]
        }
    };
    for round in 0..2u64 {
        for k in (0..n).filter(|k| round == 0 || k % 7 == 0 || *k > n - 1000) {
            if k % 1000 == 0 {
                ctx.beat();
                if ctx.stop() {
                    return;
                }
            }
            match guard(|| c.insert(&set(k), (k + round, k as f64))) {
                Ok(Ok(())) => {}
                o => return ctx.violation(&format!("{}:write", place), json!({"where": place, "series": k, "what": format!("{:?}", o)})),
            }
        }
    }
    ctx.max("most_series_of_a_chunk", n);
    let mut ids = std::collections::HashMap::new();
    for k in (0..n).filter(|k| *k < 400 || k % 11 == 0 || *k > 65_000) {
        if k % 500 == 0 {
            ctx.beat();
        }
        let l = set(k);
        ctx.eval(&(&place, i, k), true);
        let mut exp = vec![(k, k as f64)];
        if k % 7 == 0 || k > n - 1000 {
            exp.push((k + 1, k as f64));
        }
        match guard(|| c.query(&l, 0, u64::MAX)) {
            Ok(Ok(g)) if g.len() == 1 && gen::normal(g[0].0.clone()) == gen::normal(l.clone()) && g[0].1 == exp => {}
            o => return ctx.violation(&format!("{}:content", place), json!({"where": place, "labels": short(&l), "expected": exp, "what": format!("{:.300}", format!("{:?}", o))})),
        }
        if r.chance(1, 8) {
            match guard(|| c.query_ids(&l, 0, u64::MAX)) {
                Ok(Ok(g)) if g.len() == 1 => {
                    if let Some(o) = ids.insert(g[0].0, k) {
                        return ctx.violation(&format!("{}:id-shared", place), json!({"where": place, "series": [o, k], "id": g[0].0}));
                    }
                }
                o => return ctx.violation(&format!("{}:content", place), json!({"where": place, "labels": short(&l), "what": format!("{:.300}", format!("{:?}", o))})),
            }
        }
    }
    tikv_client::stub::cluster(&cl).clear();
    drop(c);
    rm_rf(&dir);
}

fn near(a: &LabelSet, b: &LabelSet) -> bool {
    let t = |l: &LabelSet| l.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",");
    let strip = |s: String| s.replace('\\', "").replace(',', "").replace('R', "").replace('=', "").replace(' ', "");
    if strip(t(a)) == strip(t(b)) {
        return true;
    }
    let common = a.iter().filter(|x| b.contains(x)).count();
    common + 1 >= a.len().max(b.len())
}
