//! C18: a window takes exactly the samples that lie in it.
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::Shared;
use crate::model::*;
use monolith::utils::{decode_chunk_dir, is_duration_overlap};
use serde_json::json;
use std::sync::Arc;
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C18",
    level: "exploration",
    rule: "one evaluation = one sample offered to a chunk or a database (accepted exactly if its timestamp lies in the window, both ends included, \
           and a refused one leaves no trace), or one range asked of it (answered exactly, the ends of window and range included), or one pair of \
           ranges tested for overlap; non-trivial = the timestamp, or an end of the range, is within 2 ms of an end of the window; distinct by \
           (place, window, timestamp or range)",
    assumptions: &["a bulk write to the database drops samples outside of the current window silently, by design; so does it samples at time 0"],
    run,
};

fn near(x: u64, lo: u64, hi: u64) -> bool {
    x.abs_diff(lo) <= 2 || x.abs_diff(hi) <= 2
}
fn around(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let e = if r.chance(1, 2) { lo } else { hi };
    match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => r.next(),
        3 => r.range(lo, hi),
        4 | 5 => e,
        6 => e.saturating_add(1),
        7 => e.saturating_sub(1),
        8 => e.saturating_add(r.below(3)),
        _ => e.saturating_sub(r.below(3)),
    }
}

fn check_queries(ctx: &Ctx, r: &mut Rng, place: &str, lo: u64, hi: u64, m: &Model, n: usize, chunk: bool, q: &dyn Fn(u64, u64) -> Result<QOut, E>) {
    let matcher: LabelSet = vec![("zz_all".into(), "1".into())];
    for _ in 0..n {
        let (a, b) = (around(r, lo, hi), around(r, lo, hi));
        let (a, b) = if r.chance(1, 10) { (a.max(b), a.min(b)) } else { (a.min(b), a.max(b)) };
        let exp = m.expect(&matcher, a, b);
        ctx.eval(&(place, lo, hi, "range", a, b), near(a, lo, hi) || near(b, lo, hi));
        let d = |w: String| json!({"where": place, "window": [lo, hi], "range": [a, b], "what": w, "stored": m.points()});
        match guard(|| q(a, b)) {
            Ok(Ok(got)) => {
                if let Err(x) = compare(&exp, &got) {
                    ctx.violation(&format!("{}:range:{}", place, x.class), d(x.what))
                }
            }
            Ok(Err(E::OutOfRange)) if chunk && exp.is_empty() => {
                if lo <= b && a <= hi && a <= b {
                    ctx.violation(&format!("{}:range:refused", place), d("a range that overlaps the window was refused".into()))
                }
            }
            o => ctx.violation(&format!("{}:range:error", place), d(format!("{:?}", o.map(|x| x.map(|_| ()))))),
        }
    }
}

fn run(ctx: &Ctx) {
    // overlap: all small pairs of ranges
    for a in 0..7u64 {
        for b in a..7 {
            for c in 0..7u64 {
                for d in c..7 {
                    let want = (a..=b).any(|x| c <= x && x <= d);
                    ctx.eval(&("overlap", a, b, c, d), true);
                    match guard(|| is_duration_overlap(a, b, c, d)) {
                        Ok(g) if g == want => {}
                        o => ctx.violation("overlap", json!({"ranges": [[a, b], [c, d]], "expected": want, "got": format!("{:?}", o)})),
                    }
                }
            }
        }
    }
    let n = ctx.n(160, 2500);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("chunk", i);
        let kind = [Kind::Mem, Kind::TikvTikv, Kind::SledSled, Kind::Mem, Kind::SledTikv, Kind::TikvSled, Kind::Mem, Kind::TikvTikv][(i % 8) as usize];
        let (lo, hi) = match r.below(7) {
            0 => (0, r.below(20)),
            1 => {
                let a = r.next();
                (a, a)
            }
            2 => (u64::MAX - r.below(20), u64::MAX),
            3 => (0, u64::MAX),
            _ => {
                let a = r.next() >> r.below(50);
                (a, a.saturating_add(r.next() >> r.range(10, 63)))
            }
        };
        let dir = ctx.dir("c18");
        let cl = format!("c18-{}", i);
        let sh = Arc::new(Shared::default());
        let place = format!("chunk:{}", kind.name());
        let c = match guard(|| open_chunk(kind, &dir, lo, hi, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation(&format!("{}:open", place), json!({"window": [lo, hi], "what": format!("{:?}", o.err())})),
        };
        let mut m = Model::default();
        let mut offers: Vec<u64> = (0..36).map(|_| around(&mut r, lo, hi)).collect();
        offers.extend([lo, hi, lo.saturating_sub(1), hi.saturating_add(1)]);
        if !kind.any_order() {
            offers.sort();
            offers.dedup();
        }
        let sets: Vec<LabelSet> = (0..3)
            .map(|k| {
                let mut l = gen::label_set(&mut r, 2, true);
                l.push(("zz_all".into(), "1".into()));
                l.push(("zz_k".into(), k.to_string()));
                gen::normal(l)
            })
            .collect();
        for ts in offers {
            // samples that will be refused come as series of their own as well
            let inside = lo <= ts && ts <= hi;
            let l = if !inside && r.chance(1, 2) {
                gen::normal(vec![("zz_all".into(), "1".into()), ("refused".into(), ts.to_string())])
            } else {
                r.pick(&sets).clone()
            };
            let v = gen::value(&mut r);
            ctx.eval(&(&place, lo, hi, "offer", ts), near(ts, lo, hi));
            ctx.count(if inside { "samples_inside_offered" } else { "samples_outside_offered" }, 1);
            let d = |w: String| json!({"where": place, "window": [lo, hi], "timestamp": ts, "what": w});
            match guard(|| c.insert(&l, (ts, v))) {
                Ok(Ok(())) if inside => m.accept(&l, (ts, v)),
                Ok(Err(E::OutOfRange)) if !inside => {
                    if let Ok(Ok(q)) = guard(|| c.query_ids(&[("refused".to_string(), ts.to_string())], lo, hi)) {
                        if !q.is_empty() {
                            ctx.violation(&format!("{}:refused-leaves-series", place), d("a refused sample created its series".into()));
                        }
                    }
                }
                o => {
                    ctx.violation(&format!("{}:{}", place, if inside { "inside-refused" } else { "outside-taken" }), d(format!("{:?}", o)));
                    return;
                }
            }
        }
        check_queries(ctx, &mut r, &place, lo, hi, &m, 40, true, &|a, b| c.query(&[("zz_all".into(), "1".into())], a, b));
        if i < 3 {
            ctx.sample(json!({"where": place, "window": [lo, hi], "accepted": m.points()}));
        }
        drop(c);
        tikv_client::stub::cluster(&cl).clear();
        rm_rf(&dir);
    });
    // chunks that are given one end of their window, or none
    parallel(8, ctx.n(24, 240), |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("default window", i);
        let kind = [Kind::Mem, Kind::TikvTikv, Kind::SledSled][(i % 3) as usize];
        let dir = ctx.dir("c18w");
        let cl = format!("c18w-{}", i);
        let sh = Arc::new(Shared::default());
        let place = format!("default-window:{}", kind.name());
        let size = monolith::DEFAULT_CHUNK_SIZE.parse::<u64>().unwrap() * 1000;
        let mut c = chunk_opts(0, 0);
        c.start_time = *r.pick(&[None, Some(0), Some(1), Some(u64::MAX), Some(u64::MAX - size), Some(u64::MAX - 12_001)]);
        if r.chance(1, 2) {
            c.start_time = c.start_time.map(|_| r.next() >> r.range(1, 50));
        }
        c.end_time = None;
        let start = c.start_time;
        let t0 = now_ms();
        let c = match guard(|| open_chunk_with(kind, &dir, c, &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation(&format!("{}:open", place), json!({"start": start, "what": format!("{:?}", o.err())})),
        };
        let t1 = now_ms();
        let (lo, hi) = c.window();
        let begins = match start {
            Some(s) => lo == s,
            None => t0 <= lo && lo <= t1,
        };
        if !begins || hi != lo.saturating_add(size) {
            return ctx.violation(&format!("{}:window", place), json!({"start": start, "made_between": [t0, t1], "window": [lo, hi], "default_ms": size}));
        }
        let l: LabelSet = vec![("job".into(), "a".into()), ("zz_all".into(), "1".into())];
        let mut offers: Vec<u64> = (0..12).map(|_| around(&mut r, lo, hi)).collect();
        offers.extend([lo, hi, lo.saturating_sub(1), hi.saturating_add(1), lo.saturating_add(size / 2)]);
        offers.sort();
        offers.dedup();
        for ts in offers {
            let inside = lo <= ts && ts <= hi;
            ctx.eval(&(&place, lo, hi, "offer", ts), near(ts, lo, hi));
            match guard(|| c.insert(&l, (ts, 1.5))) {
                Ok(Ok(())) if inside => {}
                Ok(Err(E::OutOfRange)) if !inside => {}
                o => {
                    ctx.violation(&format!("{}:offer", place), json!({"start": start, "window": [lo, hi], "timestamp": ts, "what": format!("{:?}", o)}));
                    break;
                }
            }
        }
        drop(c);
        tikv_client::stub::cluster(&cl).clear();
        rm_rf(&dir);
    });
    // databases: the window is the current chunk's
    let n = ctx.n(24, 160);
    parallel(4, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("db", i);
        let kind = [Kind::Mem, Kind::TikvTikv, Kind::Mem, Kind::SledSled][(i % 4) as usize];
        let dir = ctx.dir("c18");
        let cl = format!("c18d-{}", i);
        let sh = Arc::new(Shared::default());
        let place = format!("db:{}", kind.name());
        let size = *r.pick(&[3_600_000u64, 86_400_000, 1_000_000, 3_600_500, 999_999, 1_234_567]);
        let t0 = now_ms();
        let db = match guard(|| open_db(kind, &dir, Duration::from_millis(size), &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation(&format!("{}:open", place), json!({"what": format!("{:?}", o.err())})),
        };
        let t1 = now_ms();
        let w: Vec<(u64, u64)> =
            std::fs::read_dir(&dir).unwrap().flatten().filter_map(|e| decode_chunk_dir(e.file_name().to_string_lossy().to_string()).ok()).collect();
        if w.len() != 1 || w[0].0 < t0 || w[0].0 > t1 || w[0].1 != w[0].0.saturating_add(size) {
            return ctx.violation(&format!("{}:window", place), json!({"where": place, "chunk_ms": size, "opened_between": [t0, t1], "windows": w}));
        }
        let (lo, hi) = w[0];
        let mut m = Model::default();
        let mut offers: Vec<u64> = (0..60).map(|_| around(&mut r, lo, hi)).collect();
        offers.extend([lo, hi, lo - 1, hi + 1, 0]);
        offers.sort();
        offers.dedup();
        if kind.any_order() {
            r.shuffle(&mut offers);
        }
        let l: LabelSet = vec![("job".into(), "a".into()), ("zz_all".into(), "1".into())];
        let mut k = 0;
        while k < offers.len() {
            let bulk = r.chance(1, 2);
            let take = if bulk { r.us(1, 8).min(offers.len() - k) } else { 1 };
            let batch: Vec<Pt> = offers[k..k + take].iter().map(|t| (*t, gen::value(&mut r))).collect();
            k += take;
            let inside: Vec<Pt> = batch.iter().filter(|p| lo <= p.0 && p.0 <= hi).cloned().collect();
            for p in &batch {
                ctx.eval(&(&place, lo, hi, "offer", p.0, bulk), near(p.0, lo, hi));
            }
            let d = |w: String| json!({"where": place, "window": [lo, hi], "timestamps": batch.iter().map(|p| p.0).collect::<Vec<_>>(), "bulk": bulk, "what": w});
            let res = if bulk { guard(|| db.write(&l, &batch)) } else { guard(|| db.write1(&l, batch[0])) };
            match res {
                Ok(Ok(())) if bulk || inside.len() == 1 => inside.iter().for_each(|p| m.accept(&l, *p)),
                Ok(Err(E::OutOfRange)) if !bulk && inside.is_empty() => {}
                o => {
                    ctx.violation(&format!("{}:offer", place), d(format!("{:?}", o)));
                    return;
                }
            }
        }
        if i % 12 == 0 {
            // a large batch, with samples outside of the window among the others
            let n = *r.pick(&[1025usize, 4100, 12_000, 20_000]);
            let batch: Vec<Pt> =
                (0..n).map(|k| (if r.chance(1, 50) { around(&mut r, lo, hi) } else { lo + k as u64 % (hi - lo) }, gen::value(&mut r))).collect();
            for p in &batch {
                ctx.eval(&(&place, lo, hi, "large", p.0), near(p.0, lo, hi));
            }
            match guard(|| db.write(&l, &batch)) {
                Ok(Ok(())) => batch.iter().filter(|p| lo <= p.0 && p.0 <= hi).for_each(|p| m.accept(&l, *p)),
                o => return ctx.violation(&format!("{}:offer", place), json!({"where": place, "samples": n, "what": format!("{:?}", o)})),
            }
        }
        check_queries(ctx, &mut r, &place, lo, hi, &m, 60, false, &|a, b| db.query(&[("zz_all".into(), "1".into())], a, b));
        sh.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    // databases that rotate: every chunk begins at its creation and spans the chunk size
    parallel(8, ctx.n(8, 64), |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("rotating", i);
        let kind = [Kind::Mem, Kind::TikvTikv][(i % 2) as usize];
        let dir = ctx.dir("c18r");
        let cl = format!("c18r-{}", i);
        let sh = Arc::new(Shared::default());
        let place = format!("rotating:{}", kind.name());
        let size = r.range(80, 600);
        let t0 = now_ms();
        let db = match guard(|| open_db(kind, &dir, Duration::from_millis(size), &cl, &sh)) {
            Ok(Ok(c)) => c,
            o => return ctx.violation(&format!("{}:open", place), json!({"what": format!("{:?}", o.err())})),
        };
        let windows = || -> Vec<(u64, u64)> {
            let mut w: Vec<(u64, u64)> =
                std::fs::read_dir(&dir).unwrap().flatten().filter_map(|e| decode_chunk_dir(e.file_name().to_string_lossy().to_string()).ok()).collect();
            w.sort();
            w
        };
        let t = std::time::Instant::now();
        while windows().len() < 5 && t.elapsed().as_secs() < 40 {
            sleep_ms(10);
        }
        let w = windows();
        let t1 = now_ms();
        for (k, x) in w.iter().enumerate() {
            ctx.eval(&(&place, "rotated window", i, k), k > 0);
            // the next one is made when this one's size has passed, and begins then
            let after = if k == 0 { t0 } else { w[k - 1].0 + size };
            if x.1 != x.0 + size || x.0 < after || x.0 > t1 + 1 {
                ctx.violation(&format!("{}:window", place), json!({"chunk_ms": size, "windows": w, "opened_at": t0, "now": t1}));
                break;
            }
        }
        if w.len() < 5 {
            ctx.violation(&format!("{}:no-rotation", place), json!({"chunk_ms": size, "windows": w, "opened_at": t0, "now": t1}));
        }
        // a sample of now is taken, by the newest window, or refused if there is none right now
        for _ in 0..20 {
            let l: LabelSet = vec![("a".into(), "b".into())];
            let ts = now_ms();
            let (a, res, b) = (windows(), guard(|| db.write1(&l, (ts, 1.0))), windows());
            ctx.eval(&(&place, "offer", i, ts), true);
            let inside = |w: &(u64, u64)| w.0 <= ts && ts <= w.1;
            match res {
                Ok(Ok(())) if a.iter().chain(b.iter()).any(inside) => {}
                Ok(Err(E::OutOfRange)) if a != b || a.iter().rev().take(1).any(|w| !inside(w)) || a.len() > 1 && now_ms() - a[a.len() - 1].0 < 2000 => {}
                Ok(Err(E::Other(x))) if kind == Kind::TikvTikv && x.contains("earlier") => {}
                o => {
                    ctx.violation(&format!("{}:offer", place), json!({"chunk_ms": size, "timestamp": ts, "windows": a, "what": format!("{:?}", o)}));
                    break;
                }
            }
            sleep_ms(7);
        }
        sh.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::write(&dir, b""); // it goes on rotating into nothing
    });
}
