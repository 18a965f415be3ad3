//! C15: the intersection of identifier lists is the set intersection.
use super::Spec;
use crate::core::*;
use monolith::utils::intersect_time_series_id_vec;
use serde_json::json;
use std::collections::BTreeSet;

pub const SPEC: Spec = Spec {
    id: "C15",
    level: "exploration",
    rule: "one evaluation = one family of ascending identifier lists intersected and compared with the set intersection; non-trivial = at \
           least 3 lists with a non-empty intersection that is smaller than each list; distinct by the lists",
    assumptions: &["lists ascend without repetition, as the indexes keep them"],
    run,
};

fn one(ctx: &Ctx, lists: Vec<Vec<u64>>) {
    let sets: Vec<BTreeSet<u64>> = lists.iter().map(|l| l.iter().cloned().collect()).collect();
    let want: Vec<u64> = match sets.split_first() {
        None => vec![],
        Some((f, rest)) => f.iter().filter(|x| rest.iter().all(|s| s.contains(x))).cloned().collect(),
    };
    ctx.eval(&lists, lists.len() >= 3 && !want.is_empty() && lists.iter().all(|l| l.len() > want.len()));
    ctx.max("max_lists", lists.len() as u64);
    ctx.count("common_identifiers", want.len() as u64);
    let d = |w: String| json!({"lists": lists.iter().map(|l| l.iter().take(20).collect::<Vec<_>>()).collect::<Vec<_>>(), "expected": want.iter().take(20).collect::<Vec<_>>(), "what": w});
    match guard(|| intersect_time_series_id_vec(lists.clone())) {
        Err(p) => ctx.violation("panic", d(p)),
        Ok(Err(e)) => ctx.violation("error", d(e.to_string())),
        Ok(Ok(got)) if got != want => ctx.violation("differs", d(format!("got {:?}", got.iter().take(20).collect::<Vec<_>>()))),
        _ => {}
    }
}

fn run(ctx: &Ctx) {
    // every family of up to 3 lists over 3 identifiers, and of 4 over 2
    for k in 0..=3u32 {
        for m in 0..8u32.pow(k) {
            one(ctx, (0..k).map(|j| (0..3u64).filter(|b| (m / 8u32.pow(j)) >> b & 1 == 1).collect()).collect());
        }
    }
    for m in 0..256u32 {
        one(ctx, (0..4u32).map(|j| (0..2u64).filter(|b| (m / 4u32.pow(j)) >> b & 1 == 1).collect()).collect());
    }
    let n = ctx.n(3000, 100_000);
    parallel(6, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("lists", i);
        let long = i % 1000 == 7;
        let k = if i % 50 == 0 { r.us(10, 33) } else { r.us(0, if long { 5 } else { 10 }) };
        let dom = if long { *r.pick(&[70_000u64, 140_000]) } else { *r.pick(&[4u64, 16, 200, 3000]) };
        // also right up to the greatest identifier
        let top = *r.pick(&[0u64, 1, 255, 65_530, (1 << 32) - 3, 1 << 40, (1 << 63) - 2, u64::MAX - (dom - 1)]);
        let common: BTreeSet<u64> = (0..r.below(dom / 2 + 1)).map(|_| top + r.below(dom)).collect();
        let lists: Vec<Vec<u64>> = (0..k)
            .map(|_| {
                let mut s = common.clone();
                let n = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    _ => r.below(dom),
                };
                for _ in 0..n {
                    s.insert(top + r.below(dom));
                }
                if r.chance(1, 12) {
                    s = s.into_iter().filter(|_| r.chance(1, 2)).collect();
                }
                s.into_iter().collect()
            })
            .collect();
        if i < 3 {
            ctx.sample(json!(lists.iter().map(|l| l.iter().take(6).collect::<Vec<_>>()).collect::<Vec<_>>()));
        }
        one(ctx, lists);
    });
}
