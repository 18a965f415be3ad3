//! C19: the value types behave as values, and survive the wire types.
use super::Spec;
use crate::backends::labels;
use crate::core::*;
use crate::gen::{self, LabelSet};
use monolith::label::{Label, Labels};
use monolith::proto;
use monolith::storage::{SledStorage, Storage, TiKvStorage};
use monolith::time_point::TimePoint;
use monolith::time_series::TimeSeries;
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub const SPEC: Spec = Spec {
    id: "C19",
    level: "exploration",
    rule: "one evaluation = one law (reflexive, symmetric, equal-means-same-hash, equal-exactly-if-same-pairs, usable as a map key, sorted by \
           name) on one pair of label sets, labels or time points, or one trimming or conversion of a series; non-trivial = the two differ, or were \
           built differently, or the trimming drops and keeps some; distinct by the values",
    assumptions: &["time points are equal when their timestamps are and their values differ by less than the repository's margin of 1e-9"],
    run,
};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn raw(l: &Labels) -> Vec<(String, String)> {
    l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect()
}

fn variant(r: &mut Rng, a: &LabelSet) -> LabelSet {
    let mut b = a.clone();
    match r.below(7) {
        0 => {}
        1 if b.len() > 1 => {
            b.pop();
        }
        2 => b.push((gen::name(r), gen::label_value(r))),
        3 if !b.is_empty() => {
            let i = r.below(b.len() as u64) as usize;
            b[i].1 = gen::label_value(r)
        }
        4 if !b.is_empty() => {
            let i = r.below(b.len() as u64) as usize;
            b[i].0 = gen::name(r)
        }
        5 if b.len() > 1 => {
            let (i, j) = (0, b.len() - 1);
            let t = b[i].1.clone();
            b[i].1 = b[j].1.clone();
            b[j].1 = t;
        }
        _ if !b.is_empty() => {
            // move the boundary between name and value
            let i = r.below(b.len() as u64) as usize;
            let (k, v) = b[i].clone();
            if let Some(c) = k.chars().last() {
                if k.chars().count() > 1 {
                    let k2: String = k.chars().take(k.chars().count() - 1).collect();
                    b[i] = (k2, format!("{}{}", c, v));
                }
            }
        }
        _ => {}
    }
    b
}

fn run(ctx: &Ctx) {
    let n = ctx.n(400_000, 4_000_000);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("labels", i);
        let k = r.us(0, 6);
        let plain = r.chance(1, 2);
        let a = gen::label_set(&mut r, k, plain);
        let b = variant(&mut r, &a);
        let (la, lb) = (labels(&a), labels(&b));
        let same = a == b;
        ctx.eval(&(&a, &b), !same || a.len() > 1);
        let d = |w: &str| json!({"a": a, "b": b, "what": w});
        let res = guard(|| {
            let mut bad: Vec<&str> = vec![];
            if !(la == la.clone()) {
                bad.push("not equal to its clone");
            }
            if (la == lb) != (lb == la) {
                bad.push("equality is not symmetric");
            }
            if (la == lb) != same {
                bad.push(if same { "same pairs in the same order, and not equal" } else { "equal with different pairs" });
            }
            if la == lb && (h(&la) != h(&lb) || la.get_hash() != lb.get_hash()) {
                bad.push("equal with different hashes");
            }
            // as keys of a map: what the database merges the results of chunks with
            let mut m = HashMap::new();
            m.insert(la.clone(), 1);
            m.insert(lb.clone(), 2);
            if m.len() != if same { 1 } else { 2 } || m.get(&lb) != Some(&2) {
                bad.push("wrong as the key of a map");
            }
            // however it was built
            let mut l2 = Labels::new();
            for (k, v) in &a {
                l2.add(Label::new(k.clone(), v.clone()));
            }
            if l2 != la || h(&l2) != h(&la) || l2.len() != a.len() || raw(&l2) != a {
                bad.push("built pair by pair it is different");
            }
            let mut sh = a.clone();
            let mut rr = r.clone();
            rr.shuffle(&mut sh);
            let mut ls = labels(&sh);
            ls.sort();
            if raw(&ls) != a || ls != la {
                bad.push("sorting a permutation gives something else");
            }
            if let (Some(p), Some(x)) = (ls.pop(), a.last()) {
                if (p.key(), p.value()) != (&x.0, &x.1) || p.clone().key_value() != *x {
                    bad.push("taking the last label takes another");
                }
            }
            for x in &a {
                for y in &b {
                    let (p, q) = (Label::from_key_value(&x.0, &x.1), Label::new(y.0.clone(), y.1.clone()));
                    if (p == q) != (x == y) || (p == q && h(&p) != h(&q)) {
                        bad.push("labels: equality");
                    }
                    if p.cmp(&q) != x.0.cmp(&y.0) || p.partial_cmp(&q) != Some(p.cmp(&q)) {
                        bad.push("labels: order by name");
                    }
                }
            }
            bad.into_iter().map(String::from).collect::<Vec<_>>()
        });
        match res {
            Err(p) => ctx.violation("labels:panic", d(&p)),
            Ok(v) => {
                for w in v.into_iter().collect::<HashSet<_>>() {
                    ctx.violation(&format!("labels:{}", w.replace(' ', "-")), d(&w))
                }
            }
        }
        ctx.count("label_set_pairs", 1);
        // time points
        let t = r.next() >> r.below(64);
        let v = gen::value(&mut r);
        let (t2, v2) = match r.below(4) {
            0 => (t, v),
            1 => (t.wrapping_add(1), v),
            2 => (t, gen::value(&mut r)),
            _ => (r.next() >> r.below(64), gen::value(&mut r)),
        };
        let (p, q) = (TimePoint::new(t, v), TimePoint::new(t2, v2));
        ctx.eval(&(t, v.to_bits(), t2, v2.to_bits()), t != t2 || v.to_bits() != v2.to_bits());
        ctx.count("time_point_pairs", 1);
        let near = v == v2 || (v - v2).abs() < 1e-9;
        let mut bad = vec![];
        match guard(|| (p == q, q == p, p.cmp(&q), p.partial_cmp(&q), p.clone())) {
            Err(e) => bad.push(e),
            Ok((e1, e2, c, pc, cl)) => {
                if e1 != e2 {
                    bad.push("not symmetric".into())
                }
                if e1 && (t != t2 || !near) {
                    bad.push("equal and different".into())
                }
                if t == t2 && v == v2 && !e1 {
                    bad.push("same and not equal".into())
                }
                if c != t.cmp(&t2) || pc != Some(c) {
                    bad.push("order is not by time".into())
                }
                if cl.timestamp != t || cl.value.to_bits() != v.to_bits() {
                    bad.push("a clone differs".into())
                }
            }
        }
        for w in bad {
            ctx.violation("time-point", json!({"a": [t, v.to_bits()], "b": [t2, v2.to_bits()], "what": w}));
        }
        if i < 3 {
            ctx.sample(json!({"a": a, "b": b}));
        }
    });
    // trimming
    parallel(8, ctx.n(60_000, 600_000), |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("trim", i);
        let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 16, 17, 40]);
        let (lo, hi) = *r.pick(&[(0, u64::MAX), (0, 6), (1_700_000_000_000, 1_700_000_100_000), (u64::MAX - 9, u64::MAX)]);
        let mut pts: Vec<(u64, f64)> = (0..n).map(|_| (r.range(lo, hi), gen::value(&mut r))).collect();
        if r.chance(2, 3) {
            pts.sort_by_key(|p| p.0);
        }
        let edge = |r: &mut Rng| match r.below(5) {
            0 => r.range(lo, hi),
            1 => *r.pick(&[0, lo, hi, u64::MAX]),
            _ if pts.is_empty() => r.range(lo, hi),
            2 => r.pick(&pts).0.saturating_add(1),
            3 => r.pick(&pts).0.saturating_sub(1),
            _ => r.pick(&pts).0,
        };
        let (a, b) = (edge(&mut r), edge(&mut r));
        let want: Vec<(u64, u64)> = pts.iter().filter(|p| a <= p.0 && p.0 <= b).map(|p| (p.0, p.1.to_bits())).collect();
        ctx.eval(&(i, a, b), !want.is_empty() && want.len() < n);
        ctx.count("series_trimmed", 1);
        let series = || pts.iter().map(|p| TimePoint::new(p.0, p.1)).collect::<Vec<_>>();
        for (which, got) in [
            ("sled", guard(|| SledStorage::trim_time_series(series(), a, b).map_err(|e| e.to_string()))),
            ("tikv", guard(|| TiKvStorage::trim_time_series(series(), a, b).map_err(|e| e.to_string()))),
        ] {
            let got = got.map(|x| x.map(|v| v.iter().map(|p| (p.timestamp, p.value.to_bits())).collect::<Vec<_>>()));
            if got != Ok(Ok(want.clone())) {
                ctx.violation(&format!("trim:{}", which), json!({"series": pts.iter().map(|p| p.0).collect::<Vec<_>>(), "range": [a, b], "what": format!("{} of {} expected, got {:?}", want.len(), n, got)}));
            }
        }
    });
    // series and their parts, to the protocol's types and back
    parallel(8, ctx.n(60_000, 600_000), |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("wire", i);
        let k = r.us(0, 6);
        let plain = r.chance(1, 3);
        let mut l = gen::label_set(&mut r, k, plain);
        if r.chance(1, 8) {
            l.push(("".into(), "".into()));
        }
        r.shuffle(&mut l);
        let n = r.us(0, 6);
        let pts: Vec<(u64, f64)> = (0..n).map(|_| (r.next() >> r.below(64), gen::value(&mut r))).collect();
        let id = r.next();
        let tp: Vec<TimePoint> = pts.iter().map(|p| TimePoint::new(p.0, p.1)).collect();
        let bits: Vec<(u64, u64)> = pts.iter().map(|p| (p.0, p.1.to_bits())).collect();
        let of = |t: &TimeSeries| (raw(t.meta_data()), t.time_points().iter().map(|p| (p.timestamp, p.value.to_bits())).collect::<Vec<_>>());
        ctx.eval(&(&l, &bits), !l.is_empty() && n > 0);
        ctx.count("series_converted", 1);
        let res = guard(|| {
            let mut bad = vec![];
            let t = TimeSeries::from_data(id, labels(&l), tp.clone());
            if of(&t) != (l.clone(), bits.clone()) || t.id() != id {
                bad.push("a series does not hold what it was made of");
            }
            let mut u = TimeSeries::new(id, labels(&l));
            for p in &pts {
                u.add(p.0, p.1)
            }
            if of(&u) != of(&t) || u.id() != id || of(&t.clone()) != of(&t) {
                bad.push("a series made sample by sample differs");
            }
            let w = proto::TimeSeries::from(&t);
            let pair = proto::TimeSeries::from(&(labels(&l), tp.clone()));
            for w in [&w, &pair] {
                let wl: Vec<(String, String)> = w.get_labels().iter().map(|x| (x.get_name().to_string(), x.get_value().to_string())).collect();
                let ws: Vec<(i64, u64)> = w.get_samples().iter().map(|s| (s.get_timestamp(), s.get_value().to_bits())).collect();
                if wl != l || ws != bits.iter().map(|p| (p.0 as i64, p.1)).collect::<Vec<_>>() {
                    bad.push("the protocol form of a series differs");
                }
                if of(&TimeSeries::from(w)) != of(&t) {
                    bad.push("back from the protocol form, a series differs");
                }
            }
            for x in &l {
                let a = Label::from_key_value(&x.0, &x.1);
                let b = Label::from(&proto::Label::from(&a));
                let mut m = proto::LabelMatcher::new();
                m.set_name(x.0.clone());
                m.set_value(x.1.clone());
                let c = Label::from_label_matcher(&m);
                if (b.key(), b.value()) != (&x.0, &x.1) || (c.key(), c.value()) != (&x.0, &x.1) {
                    bad.push("a label differs after its protocol form");
                }
            }
            for p in &tp {
                let q = TimePoint::from(&proto::Sample::from(p));
                if (q.timestamp, q.value.to_bits()) != (p.timestamp, p.value.to_bits()) {
                    bad.push("a sample differs after its protocol form");
                }
            }
            bad
        });
        match res {
            Err(p) => ctx.violation("wire:panic", json!({"labels": l, "samples": bits, "what": p})),
            Ok(v) => {
                for w in v.into_iter().collect::<HashSet<_>>() {
                    ctx.violation(&format!("wire:{}", w.replace(' ', "-")), json!({"labels": l, "samples": bits, "what": w}))
                }
            }
        }
    });
}
