//! C02: label selection is exact.
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::Shared;
use crate::model::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C02",
    level: "exploration",
    rule: "one evaluation = one selection by label pairs against an index, chunk or database holding a random population of series, \
           compared with set inclusion over the reference population; non-trivial = the population has both matching and non-matching \
           series, or the request names a pair no series has; distinct by (backend, population, request)",
    assumptions: &[
        "TiKV is replaced by an in-memory raw key-value store with the client's API",
        "label sets have distinct, Prometheus-valid names and non-empty values; requests name at least one pair",
    ],
    run,
};

/// A request: some pairs of a series, perhaps with pairs of another series or unknown ones.
fn request(r: &mut Rng, sets: &[LabelSet]) -> LabelSet {
    let s = r.pick(sets);
    let mut q: LabelSet = vec![];
    let k = match r.below(5) {
        0 => s.len(),
        1 => 1,
        _ => r.us(1, s.len()),
    };
    let mut idx: Vec<usize> = (0..s.len()).collect();
    r.shuffle(&mut idx);
    for i in idx.into_iter().take(k) {
        q.push(s[i].clone())
    }
    let put = |q: &mut LabelSet, p: (String, String)| {
        if let Some(x) = q.iter_mut().find(|x| x.0 == p.0) {
            x.1 = p.1
        } else {
            q.push(p)
        }
    };
    match r.below(10) {
        // a pair of some other series
        0 | 1 => {
            let o = r.pick(sets);
            let p = r.pick(o).clone();
            put(&mut q, p)
        }
        // known name, value no series has
        2 => {
            let i = r.below(q.len() as u64) as usize;
            q[i].1.push('~')
        }
        // unknown name
        3 => put(&mut q, (format!("nope_{}", r.below(100)), "1".into())),
        // known name, value of another name
        4 => {
            let o = r.pick(sets);
            let v = r.pick(o).1.clone();
            let i = r.below(q.len() as u64) as usize;
            q[i].1 = v
        }
        // a prefix or an extension of a real value, a different case
        5 => {
            let i = r.below(q.len() as u64) as usize;
            match r.below(4) {
                0 => {
                    if q[i].1.chars().count() > 1 {
                        q[i].1.pop();
                    }
                }
                1 => q[i].1.push_str("0"),
                2 => q[i].1 = format!("{},{}", q[i].1, q[i].1),
                _ => q[i].1 = q[i].1.to_uppercase(),
            }
        }
        _ => {}
    }
    // matchers repeated, or two for one name
    match r.below(12) {
        0 => {
            let p = r.pick(&q).clone();
            q.push(p)
        }
        1 => {
            let o = r.pick(sets);
            let p = r.pick(o).clone();
            q.push(p)
        }
        2 => {
            let name = r.pick(&q).0.clone();
            let others: Vec<&LabelSet> = sets.iter().filter(|s| s.iter().any(|p| p.0 == name)).collect();
            if !others.is_empty() {
                let p = r.pick(&others).iter().find(|p| p.0 == name).unwrap().clone();
                q.push(p)
            }
        }
        _ => {}
    }
    r.shuffle(&mut q);
    q
}

fn wanted(sets: &[LabelSet], q: &LabelSet) -> BTreeSet<usize> {
    (0..sets.len()).filter(|i| matches(&sets[*i], q)).collect()
}

fn pop(r: &mut Rng, i: u64) -> Vec<LabelSet> {
    let plain = i % 3 == 0;
    let (n, ml) = match i % 8 {
        0..=3 => (r.us(2, 14), r.us(2, 6)),
        4 | 5 => (r.us(20, 60), r.us(3, 8)),
        6 => (r.us(10, 30), r.us(12, 24)),
        _ => (r.us(120, 280), 6),
    };
    let mut sets = gen::population(r, n, ml, plain);
    if i % 2 == 0 {
        for s in gen::collision_family(r) {
            if !sets.contains(&s) {
                sets.push(s)
            }
        }
    }
    if i % 8 == 6 {
        // wide label sets: every series shares most of many pairs
        let wide = *r.pick(&[9, 12, 16, 17, 20, 31, 33, 40, 64, 65, 66]);
        let base: LabelSet = (0..wide).map(|k| (format!("w{}", k), format!("v{}", k % 3))).collect();
        let m = r.us(4, 12);
        for j in 0..m {
            let mut s = base.clone();
            for _ in 0..r.us(0, 3) {
                let k = r.below(s.len() as u64) as usize;
                s[k].1 = format!("x{}", r.below(3));
            }
            s.push(("uniq".into(), format!("{}", j)));
            let s = gen::normal(s);
            if !sets.contains(&s) {
                sets.push(s)
            }
        }
    }
    r.shuffle(&mut sets);
    sets
}

fn run(ctx: &Ctx) {
    // the indexers themselves
    let n = ctx.n(128, 1000);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("idx", i);
        let tikv = i % 2 == 1;
        let place = if tikv { "indexer:tikv" } else { "indexer:sled" };
        let sets = pop(&mut r, i / 2);
        let dir = ctx.dir("c02");
        let cl = format!("c02-{}", i);
        let ix = match guard(|| open_idx(tikv, &dir, &cl)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("indexer:open", json!({"where": place, "what": format!("{:?}", o.err())})),
        };
        let mut ids = vec![];
        // identifiers of every size
        let mut next = match i % 6 {
            0 | 1 | 2 => r.range(1, 200),
            _ => *r.pick(&[(1u64 << 31) - 4, (1 << 32) - 4, (1 << 40) + 1, (1 << 53) - 3, i64::MAX as u64 - 5, u64::MAX - 2000]),
        };
        let ask = |have: usize, ids: &Vec<u64>, q: &LabelSet| {
            let want = wanted(&sets[..have], q);
            let wids: BTreeSet<u64> = want.iter().map(|k| ids[*k]).collect();
            ctx.eval(&(place, i, have, q), want.len() < have && (!want.is_empty() || q.len() > 1));
            ctx.count("matching_series", want.len() as u64);
            ctx.max("widest_request", q.len() as u64);
            let d = |what: String| json!({"where": place, "population": have, "request": q, "expected": want.iter().take(5).map(|k| short(&sets[*k])).collect::<Vec<_>>(), "what": what});
            match guard(|| ix.ids(q)) {
                Ok(Ok(v)) => {
                    let g: BTreeSet<u64> = v.iter().cloned().collect();
                    if g.len() != v.len() {
                        ctx.violation(&format!("{}:ids-repeated", place), d(format!("{:?}", v)));
                    }
                    if g != wids {
                        let sig = if g.is_superset(&wids) { "ids-extra" } else { "ids-missing" };
                        ctx.violation(&format!("{}:{}", place, sig), d(format!("got ids {:?}, expected {:?}", g.iter().take(20).collect::<Vec<_>>(), wids.iter().take(20).collect::<Vec<_>>())));
                    }
                }
                o => ctx.violation(&format!("{}:ids-error", place), d(format!("{:?}", o))),
            }
            match guard(|| ix.meta(q)) {
                Ok(Ok(v)) => {
                    let mut g: Vec<(u64, LabelSet)> = v;
                    g.sort();
                    let mut w: Vec<(u64, LabelSet)> = want.iter().map(|k| (ids[*k], sets[*k].clone())).collect();
                    w.sort();
                    if g != w {
                        let bad = g.iter().find(|x| !w.contains(x)).map(|x| format!("unexpected {} {}", x.0, short(&x.1)));
                        let miss = w.iter().find(|x| !g.contains(x)).map(|x| format!("missing {} {}", x.0, short(&x.1)));
                        let sig = if g.len() > w.len() { "series-extra" } else if g.len() < w.len() { "series-missing" } else { "labels-differ" };
                        ctx.violation(&format!("{}:{}", place, sig), d(format!("{:?} {:?}", bad, miss)));
                    }
                }
                o => ctx.violation(&format!("{}:meta-error", place), d(format!("{:?}", o))),
            }
        };
        // requests come before, between and after the series they select
        let mut asked: Vec<LabelSet> = vec![];
        for (k, s) in sets.iter().enumerate() {
            if r.chance(1, 3) || k == 0 {
                let q = if asked.is_empty() || r.chance(1, 2) { request(&mut r, &sets) } else { r.pick(&asked).clone() };
                ask(k, &ids, &q);
                asked.push(q);
            }
            let mut l = s.clone();
            r.shuffle(&mut l);
            match guard(|| ix.create(&l, next)) {
                Ok(Ok(())) => {}
                o => ctx.violation(&format!("{}:create", place), json!({"labels": short(s), "what": format!("indexing a new series failed: {:?}", o)})),
            }
            ids.push(next);
            next += r.range(1, 3);
            ctx.beat();
        }
        asked.truncate(30);
        for q in &asked {
            ask(sets.len(), &ids, q);
        }
        for _ in 0..ctx.n(40, 60) {
            let q = request(&mut r, &sets);
            ask(sets.len(), &ids, &q);
        }
        if i < 2 {
            ctx.sample(json!({"where": place, "population": sets.len(), "first": short(&sets[0]), "request": request(&mut r, &sets)}));
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(ix);
        rm_rf(&dir);
    });
    // many series under one pair: lists of ids longer than any page
    let n = ctx.n(2, 4);
    parallel(4, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("many", i);
        let tikv = i % 2 == 1;
        let place = if tikv { "many:tikv" } else { "many:sled" };
        let cnt = if ctx.thorough { r.us(4200, 6000) } else { r.us(1100, 1400) };
        let sets: Vec<LabelSet> = (0..cnt)
            .map(|k| {
                let mut s: LabelSet = vec![("all".into(), "1".into()), ("k".into(), k.to_string())];
                if k % 3 != 1 {
                    s.push(("most".into(), "x".into()))
                }
                if k % 100 == 7 {
                    s.push(("some".into(), format!("{}", k % 200)))
                }
                gen::normal(s)
            })
            .collect();
        let dir = ctx.dir("c02m");
        let cl = format!("c02m-{}", i);
        let ix = match guard(|| open_idx(tikv, &dir, &cl)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("indexer:open", json!({"where": place, "what": format!("{:?}", o.err())})),
        };
        for (k, s) in sets.iter().enumerate() {
            ctx.beat();
            match guard(|| ix.create(s, k as u64 * 3 + 1)) {
                Ok(Ok(())) => {}
                o => ctx.violation(&format!("{}:create", place), json!({"labels": short(s), "what": format!("indexing a new series failed: {:?}", o)})),
            }
        }
        let last = sets[cnt - 1].clone();
        let pair = |a: &str, b: &str| (a.to_string(), b.to_string());
        let mut qs: Vec<LabelSet> = vec![
            vec![pair("all", "1")],
            vec![pair("most", "x")],
            vec![pair("all", "1"), pair("most", "x")],
            vec![pair("most", "x"), pair("all", "1"), pair("some", "107")],
            vec![pair("some", "7"), pair("all", "1")],
            vec![pair("all", "1"), pair("k", "0"), pair("most", "x")],
            vec![pair("all", "1"), pair("k", "1"), pair("most", "x")],
            last,
        ];
        qs.push(request(&mut r, &sets));
        for q in qs {
            let want = wanted(&sets, &q);
            ctx.eval(&(place, i, &q), want.len() < sets.len());
            ctx.count("matching_series", want.len() as u64);
            ctx.max("largest_selection", want.len() as u64);
            let d = |what: String| json!({"where": place, "population": sets.len(), "request": q, "expected": want.len(), "what": what});
            match guard(|| ix.ids(&q)) {
                Ok(Ok(v)) => {
                    let w: Vec<u64> = want.iter().map(|k| *k as u64 * 3 + 1).collect();
                    let mut g = v;
                    g.sort();
                    if g != w {
                        ctx.violation(&format!("{}:ids", place), d(format!("{} ids instead of {}", g.len(), w.len())));
                    }
                }
                o => ctx.violation(&format!("{}:ids-error", place), d(format!("{:?}", o))),
            }
            match guard(|| ix.meta(&q)) {
                Ok(Ok(mut g)) => {
                    g.sort();
                    let w: Vec<(u64, LabelSet)> = want.iter().map(|k| (*k as u64 * 3 + 1, sets[*k].clone())).collect();
                    if g != w {
                        ctx.violation(&format!("{}:series", place), d(format!("{} series instead of {}, or other labels", g.len(), w.len())));
                    }
                }
                o => ctx.violation(&format!("{}:meta-error", place), d(format!("{:?}", o))),
            }
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(ix);
        rm_rf(&dir);
    });
    // whole databases
    let n = ctx.n(20, 240);
    parallel(6, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("db", i);
        let kind = REAL[(i % 4) as usize];
        let place = format!("db:{}", kind.name());
        let sets = pop(&mut r, i / 4 + 1);
        let dir = ctx.dir("c02db");
        let cl = format!("c02db-{}", i);
        let sh = Arc::new(Shared::default());
        let db = match guard(|| open_db(kind, &dir, Duration::from_secs(12_000), &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("db:open", json!({"backend": kind.name(), "what": format!("{:?}", o.err())})),
        };
        let t0 = now_ms() + 10;
        let mut m = Model::default();
        let ask = |m: &Model, q: &LabelSet| {
            let want = wanted(&sets, q);
            ctx.eval(&(&place, i, m.points(), q), want.len() < sets.len());
            let exp = m.expect(q, 0, u64::MAX);
            let d = |what: String| json!({"where": place, "population": sets.len(), "request": q, "expected": want.len(), "what": what});
            match guard(|| db.query(q, 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    if let Err(x) = compare(&exp, &g) {
                        ctx.violation(&format!("{}:{}", place, x.class), d(x.what));
                    }
                }
                o => ctx.violation(&format!("{}:error", place), d(format!("{:?}", o))),
            }
        };
        let early: Vec<LabelSet> = (0..6).map(|_| request(&mut r, &sets)).collect();
        for round in 0..2u64 {
            for (k, s) in sets.iter().enumerate() {
                if k % 7 == 3 {
                    let q = r.pick(&early).clone();
                    ask(&m, &q);
                }
                let mut l = s.clone();
                r.shuffle(&mut l);
                let p = (t0 + round * 1000 + k as u64, k as f64 + 0.5);
                ctx.beat();
                match guard(|| db.write1(&l, p)) {
                    Ok(Ok(())) => m.accept(s, p),
                    o => ctx.violation(&format!("{}:write", place), json!({"labels": short(s), "what": format!("write failed: {:?}", o)})),
                }
            }
        }
        for k in 0..46 {
            let q = if k < 6 { early[k].clone() } else { request(&mut r, &sets) };
            ask(&m, &q);
        }
    });
}
