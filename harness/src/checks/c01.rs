//! C01: range reads are exact.
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::Shared;
use crate::model::*;
use serde_json::json;
use std::sync::Arc;
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C01",
    level: "exploration",
    rule: "one evaluation = one range query on a randomly filled database, chunk or storage, compared with a reference map; \
           non-trivial = at least one sample of the queried series is inside the range and at least one outside; distinct by \
           (backend, filling, range, matchers)",
    assumptions: &[
        "TiKV is replaced by an in-memory raw key-value store with the client's API",
        "label sets have distinct, Prometheus-valid names and non-empty values",
    ],
    run,
};

fn timestamps(r: &mut Rng, lo: u64, hi: u64, n: usize, any_order: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let style = r.below(6);
    let base = r.range(lo, hi);
    for i in 0..n {
        let t = match style {
            0 => lo.saturating_add(i as u64),
            1 => hi.saturating_sub((n - 1 - i) as u64),
            2 => r.range(lo, hi),
            3 => base.saturating_add(r.below(50)),
            4 => base.saturating_add(15_000u64.saturating_mul(i as u64)),
            _ => match r.below(4) {
                0 => lo,
                1 => hi,
                2 => lo.saturating_add(r.below(3)),
                _ => r.range(lo, hi),
            },
        };
        v.push(t.max(lo).min(hi));
    }
    if any_order {
        match r.below(3) {
            0 => r.shuffle(&mut v),
            1 => v.sort(),
            _ => {
                v.sort();
                v.dedup();
            }
        }
        // exact duplicates of a timestamp are separate accepted samples
        if r.chance(1, 3) && !v.is_empty() {
            let d = *r.pick(&v);
            for _ in 0..r.us(1, 3) {
                v.push(d);
            }
        }
    } else {
        v.sort();
        v.dedup();
    }
    v
}

fn ranges(r: &mut Rng, m: &Model, lo: u64, hi: u64, n: usize) -> Vec<(u64, u64)> {
    let mut all: Vec<u64> = m.series.values().flat_map(|v| v.iter().map(|p| p.0)).collect();
    all.sort();
    all.dedup();
    let mut edge = |r: &mut Rng| -> u64 {
        match r.below(10) {
            0 => lo,
            1 => hi,
            2 => *r.pick(&[0, u64::MAX, 1, u64::MAX - 1, i64::MAX as u64]),
            3 => r.range(lo, hi),
            _ if all.is_empty() => r.range(lo, hi),
            4 | 5 | 6 => *r.pick(&all),
            7 => r.pick(&all).saturating_add(1),
            8 => r.pick(&all).saturating_sub(1),
            _ => *r.pick(&[all[0], all[all.len() - 1]]),
        }
    };
    let mut out = vec![(0, u64::MAX), (lo, hi)];
    for _ in 0..n {
        let (a, b) = (edge(r), edge(r));
        let inverted = r.chance(1, 12);
        if inverted {
            out.push((a.max(b), a.min(b)))
        } else if r.chance(1, 8) {
            out.push((a, a))
        } else {
            out.push((a.min(b), a.max(b)))
        }
    }
    out
}

fn judge(ctx: &Ctx, place: &str, m: &Model, matchers: &LabelSet, a: u64, b: u64, got: Result<Result<QOut, E>, String>, fill: u64, may_reject: bool) {
    let exp = m.expect(matchers, a, b);
    let total: usize = m.series.iter().filter(|(l, _)| matches(l, matchers)).map(|(_, v)| v.len()).sum();
    let inside: usize = exp.values().map(|v| v.len()).sum();
    ctx.eval(&(place, fill, a, b, matchers), inside > 0 && inside < total);
    ctx.count("samples_returned_and_compared", inside as u64);
    ctx.max("largest_result", inside as u64);
    let d = |what: String| json!({"where": place, "query": jq(matchers, a, b), "series": m.series.len(), "samples": m.points(), "what": what,
        "stored": m.series.iter().take(4).map(|(l, p)| json!({"labels": short(l), "first": p.iter().take(6).collect::<Vec<_>>(), "n": p.len()})).collect::<Vec<_>>()});
    match got {
        Err(p) => ctx.violation(&format!("{}:panic", place), d(format!("query panicked: {}", p))),
        Ok(Err(x)) => {
            if !(may_reject && x == E::OutOfRange && exp.is_empty()) {
                ctx.violation(&format!("{}:error", place), d(format!("query failed: {}", x)))
            }
        }
        Ok(Ok(q)) => {
            if let Some((l, _)) = q.iter().find(|(_, p)| p.is_empty()) {
                ctx.violation(&format!("{}:empty-series", place), d(format!("series {} returned without samples", short(l))));
            }
            if let Err(x) = compare(&exp, &q) {
                ctx.violation(&format!("{}:{}", place, x.class), d(x.what));
            }
        }
    }
}

fn fill(
    ctx: &Ctx,
    r: &mut Rng,
    lo: u64,
    hi: u64,
    any_order: bool,
    big: bool,
    write: &mut dyn FnMut(&LabelSet, &[Pt]) -> Vec<bool>,
) -> (Model, Vec<LabelSet>) {
    let ns = if big { r.us(1, 3) } else { r.us(1, 12) };
    let mut sets = gen::population(r, ns, 5, true);
    if r.chance(1, 5) {
        sets.push(gen::wide(r));
    }
    for s in sets.iter_mut() {
        s.push(("zz_all".into(), "1".into()));
        *s = gen::normal(s.clone());
    }
    let mut m = Model::default();
    let mut pend: Vec<(usize, Vec<u64>)> = vec![];
    for i in 0..sets.len() {
        let n = if big {
            *r.pick(&[200usize, 257, 300, 512, 700])
        } else {
            *r.pick(&[1usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 40, 64, 65])
        };
        let mut ts = timestamps(r, lo, hi, n, any_order);
        ts.reverse();
        pend.push((i, ts));
    }
    // interleave the series
    while !pend.is_empty() {
        let k = r.below(pend.len() as u64) as usize;
        let burst = r.us(1, 8);
        let mut batch = vec![];
        for _ in 0..burst {
            if let Some(t) = pend[k].1.pop() {
                batch.push((t, gen::value(r)))
            }
        }
        let i = pend[k].0;
        if pend[k].1.is_empty() {
            pend.swap_remove(k);
        }
        if batch.is_empty() {
            continue;
        }
        ctx.beat();
        let mut shuffled = sets[i].clone();
        r.shuffle(&mut shuffled);
        for (ok, p) in write(&shuffled, &batch).into_iter().zip(batch) {
            ctx.count("writes", 1);
            if ok {
                ctx.count("writes_accepted", 1);
                m.accept(&sets[i], p)
            }
        }
    }
    (m, sets)
}

fn pick_matchers(r: &mut Rng, sets: &[LabelSet]) -> LabelSet {
    if r.chance(1, 2) {
        return vec![("zz_all".into(), "1".into())];
    }
    let s = r.pick(sets).clone();
    if r.chance(1, 3) {
        return s;
    }
    let i = r.below(s.len() as u64) as usize;
    vec![s[i].clone()]
}

fn run(ctx: &Ctx) {
    // chunks over arbitrary windows
    let n = ctx.n(180, 1500);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("chunk", i);
        let kinds = [Kind::SledSled, Kind::TikvTikv, Kind::Mem, Kind::SledTikv, Kind::TikvSled];
        let kind = kinds[(i % 5) as usize];
        let (lo, hi) = match r.below(6) {
            0 => (0, u64::MAX),
            1 => (0, 1000),
            2 => (1, 2),
            3 => (now_ms(), now_ms() + 7_200_000),
            4 => (u64::MAX - 5000, u64::MAX),
            _ => {
                let a = r.next() >> r.below(60);
                (a, a.saturating_add(r.next() >> r.range(20, 60)))
            }
        };
        let dir = ctx.dir("c01");
        let cl = format!("c01-{}", i);
        let sh = Arc::new(Shared::default());
        let c = match guard(|| open_chunk(kind, &dir, lo, hi, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("chunk:open", json!({"backend": kind.name(), "what": format!("{:?}", o.err())})),
        };
        let big = i % 9 == 4;
        // strictly inside the window unless it is tiny: what the window's own edges do is C18's
        let (flo, fhi) = if hi - lo > 2 { (lo + 1, hi - 1) } else { (lo, hi) };
        let (m, sets) = fill(ctx, &mut r, flo, fhi, kind.any_order(), big, &mut |l, b| {
            b.iter().map(|p| matches!(guard(|| c.insert(l, *p)), Ok(Ok(())))).collect()
        });
        let place = format!("chunk:{}", kind.name());
        for (a, b) in ranges(&mut r, &m, lo, hi, 40) {
            let q = pick_matchers(&mut r, &sets);
            let got = guard(|| c.query(&q, a, b));
            judge(ctx, &place, &m, &q, a, b, got, i, true);
        }
        if i < 3 {
            ctx.sample(json!({"backend": kind.name(), "window": [lo, hi], "series": m.series.len(), "samples": m.points()}));
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(c);
        rm_rf(&dir);
    });
    // long series: far more samples than a page, a buffer or a 16-bit count holds
    let n = ctx.n(15, 40);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("long", i);
        let kinds = [Kind::SledSled, Kind::TikvTikv, Kind::Mem, Kind::SledTikv, Kind::TikvSled];
        let kind = kinds[(i % 5) as usize];
        let len = *r.pick(if ctx.thorough { &[9000u64, 17_000, 34_000][..] } else { &[4200u64, 8500] });
        let dir = ctx.dir("c01l");
        let cl = format!("c01l-{}", i);
        let sh = Arc::new(Shared::default());
        let c = match guard(|| open_chunk(kind, &dir, 0, u64::MAX, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("chunk:open", json!({"backend": kind.name(), "what": format!("{:?}", o.err())})),
        };
        let (long, other): (LabelSet, LabelSet) = (vec![("a".into(), "1".into()), ("zz_all".into(), "1".into())], vec![("zz_all".into(), "1".into())]);
        let place = format!("long:{}", kind.name());
        let mut m = Model::default();
        let base = r.range(1, 1 << 40);
        let step = *r.pick(&[1u64, 2, 1000, 15_000]);
        // even, or with a stretch in which samples lie far apart, at any place
        let (from, till) = match i / 5 % 4 {
            0 => (0, 0),
            1 => (0, *r.pick(&[1, 20])),
            2 => (len - 20, len),
            _ => {
                let from = *r.pick(&[0, len / 4, len / 2, len - len / 10]);
                (from, from + *r.pick(&[1, 20, len / 10, len / 2]))
            }
        };
        let gap = *r.pick(&[100_000u64, 1 << 24, 1 << 38]);
        let times: Vec<u64> = (0..len)
            .scan(base, |t, k| {
                *t += if k >= from && k < till { gap } else { step };
                Some(*t)
            })
            .collect();
        for k in 0..len {
            ctx.beat();
            let t = times[k as usize];
            for (l, p) in [(&long, (t, gen::value(&mut r))), (&other, (t, gen::value(&mut r)))] {
                if k % 50 != 0 && l == &other {
                    continue;
                }
                ctx.count("writes", 1);
                match guard(|| c.insert(l, p)) {
                    Ok(Ok(())) => {
                        ctx.count("writes_accepted", 1);
                        m.accept(l, p)
                    }
                    o => ctx.violation(&format!("{}:write", place), json!({"what": format!("sample {} of {} refused: {:?}", k, len, o)})),
                }
            }
        }
        let mut asked = ranges(&mut r, &m, base, *times.last().unwrap(), 14);
        for _ in 0..8 {
            let a = times[r.below(len) as usize];
            asked.push((a, if r.chance(1, 2) { a } else { u64::MAX }));
            let x = r.below(len) as usize;
            asked.push((times[x], times[(x + r.us(0, 30)).min(len as usize - 1)]));
        }
        for (a, b) in asked {
            let q = pick_matchers(&mut r, &[long.clone(), other.clone()]);
            let got = guard(|| c.query(&q, a, b));
            judge(ctx, &place, &m, &q, a, b, got, i, true);
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(c);
        rm_rf(&dir);
    });
    // databases: batched and single writes inside the live window
    let n = ctx.n(20, 300);
    parallel(6, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("db", i);
        let kinds = [Kind::SledSled, Kind::TikvTikv, Kind::Mem, Kind::SledTikv, Kind::TikvSled];
        let kind = kinds[(i % 5) as usize];
        let dir = ctx.dir("c01db");
        let cl = format!("c01db-{}", i);
        let sh = Arc::new(Shared::default());
        let size = Duration::from_secs(*r.pick(&[3600u64, 12_000, 86_400]));
        let db = match guard(|| open_db(kind, &dir, size, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("db:open", json!({"backend": kind.name(), "what": format!("{:?}", o.err())})),
        };
        let lo = now_ms() + 1;
        let hi = lo + size.as_millis() as u64 - 2000;
        let single = r.chance(1, 2);
        let (m, sets) = fill(ctx, &mut r, lo, hi, kind.any_order(), i % 7 == 3, &mut |l, b| {
            if single {
                b.iter().map(|p| matches!(guard(|| db.write1(l, *p)), Ok(Ok(())))).collect()
            } else {
                // one batch is accepted as a whole: repeated timestamps are refused by one backend
                let mut b2 = b.to_vec();
                if !kind.any_order() {
                    b2.dedup_by_key(|p| p.0);
                }
                let ok = matches!(guard(|| db.write(l, &b2)), Ok(Ok(())));
                b.iter().map(|p| ok && b2.contains(p) || ok && b2.iter().any(|x| x.0 == p.0 && x.1.to_bits() == p.1.to_bits())).collect()
            }
        });
        let place = format!("db:{}", kind.name());
        for (a, b) in ranges(&mut r, &m, lo, hi, 60) {
            let q = pick_matchers(&mut r, &sets);
            let got = guard(|| db.query(&q, a, b));
            judge(ctx, &place, &m, &q, a, b, got, i, false);
        }
    });
    // storages on their own
    let n = ctx.n(30, 400);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("sto", i);
        let which = ["sled", "tikv", "mem"][(i % 3) as usize];
        let dir = ctx.dir("c01s");
        let cl = format!("c01s-{}", i);
        let sh = Arc::new(Shared::default());
        let s = match guard(|| open_sto(which, &dir, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation("storage:open", json!({"backend": which, "what": format!("{:?}", o.err())})),
        };
        let mut m = Model::default();
        let mut ids: Vec<u64> = vec![];
        while ids.len() < 5 {
            let id = *r.pick(&[0, 1, 2, 9, 10, 11, 255, 256, 65536, u64::MAX, 100, 123, 1 << 32]);
            if !ids.contains(&id) {
                ids.push(id)
            }
        }
        let (lo, hi) = (0, if r.chance(1, 2) { 5000 } else { u64::MAX });
        for id in &ids {
            let l = vec![("id".to_string(), id.to_string())];
            let cnt = r.us(1, 40);
            for t in timestamps(&mut r, lo, hi, cnt, which != "tikv") {
                let v = gen::value(&mut r);
                ctx.count("writes", 1);
                if let Ok(Ok(())) = guard(|| s.write(*id, (t, v))) {
                    m.accept(&l, (t, v));
                    ctx.count("writes_accepted", 1);
                }
            }
        }
        let place = format!("storage:{}", which);
        for (a, b) in ranges(&mut r, &m, lo, hi, 40) {
            let id = if r.chance(1, 10) { 77 } else { *r.pick(&ids) };
            let l = vec![("id".to_string(), id.to_string())];
            let got = guard(|| s.read(id, a, b)).map(|x| {
                x.map(|o| match o {
                    Some(v) if !v.is_empty() => vec![(l.clone(), v)],
                    _ => vec![],
                })
            });
            judge(ctx, &place, &m, &l, a, b, got, i, true);
        }
        tikv_client::stub::cluster(&cl).clear();
        drop(s);
        rm_rf(&dir);
    });
    if ctx.counter("writes_accepted") * 2 < ctx.counter("writes") && !ctx.has_violation() {
        panic!("fewer than half of the writes were accepted: nothing to judge");
    }
}
