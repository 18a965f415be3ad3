//! Recorded histories of a grow-only set of samples under concurrent writes
//! and queries, and the offline check that they could have happened one
//! operation at a time.
use crate::gen::LabelSet;
use crate::model::{matches, short};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct W {
    pub inv: u64,
    pub resp: u64,
    pub set: usize, // index of the label set
    pub ts: u64,
    pub bits: u64,
    /// acknowledged; otherwise it may or may not have taken effect
    pub ok: bool,
}
#[derive(Clone, Debug)]
pub struct Q {
    pub inv: u64,
    pub resp: u64,
    pub matcher: LabelSet,
    pub range: (u64, u64),
    pub got: Vec<(LabelSet, Vec<(u64, u64)>)>,
}

#[derive(Default)]
pub struct History {
    clock: AtomicU64,
    pub writes: Mutex<Vec<W>>,
    pub queries: Mutex<Vec<Q>>,
}

pub struct Problem {
    pub class: &'static str,
    pub detail: J,
}

impl History {
    pub fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }
    pub fn add_writes(&self, v: Vec<W>) {
        self.writes.lock().unwrap().extend(v)
    }
    pub fn add_queries(&self, v: Vec<Q>) {
        self.queries.lock().unwrap().extend(v)
    }
    /// Queries that ran at the same time as at least one write.
    pub fn overlapping(&self) -> usize {
        let w = self.writes.lock().unwrap();
        self.queries.lock().unwrap().iter().filter(|q| w.iter().any(|w| w.inv < q.resp && q.inv < w.resp)).count()
    }
    /// The order of all invocations and responses, as one number.
    pub fn shape(&self) -> u64 {
        let mut ev: Vec<(u64, u8, usize)> = vec![];
        for w in self.writes.lock().unwrap().iter() {
            ev.push((w.inv, 0, w.set));
            ev.push((w.resp, 1, w.set));
        }
        for q in self.queries.lock().unwrap().iter() {
            ev.push((q.inv, 2, 0));
            ev.push((q.resp, 3, q.got.len()));
        }
        ev.sort();
        crate::core::hash_of(&ev.iter().map(|e| (e.1, e.2)).collect::<Vec<_>>())
    }

    pub fn check(&self, sets: &[LabelSet]) -> Vec<Problem> {
        let w = self.writes.lock().unwrap();
        let queries = self.queries.lock().unwrap();
        let mut out = vec![];
        let mut by_key: BTreeMap<(&LabelSet, u64, u64), usize> = BTreeMap::new();
        for (i, x) in w.iter().enumerate() {
            by_key.insert((&sets[x.set], x.ts, x.bits), i);
        }
        let tell = |i: usize| json!({"labels": short(&sets[w[i].set]), "timestamp": w[i].ts, "invoked": w[i].inv, "responded": w[i].resp, "acknowledged": w[i].ok});
        let mut seen: Vec<(usize, BTreeSet<usize>)> = vec![];
        for (qi, q) in queries.iter().enumerate() {
            if out.len() > 5 {
                break;
            }
            let qd = json!({"matchers": q.matcher, "range": [q.range.0, q.range.1], "invoked": q.inv, "responded": q.resp});
            let mut got = BTreeSet::new();
            let mut names = BTreeSet::new();
            for (l, pts) in &q.got {
                if !names.insert(l) {
                    out.push(Problem { class: "series-twice", detail: json!({"query": qd, "what": format!("{} appears twice in one result", short(l))}) });
                }
                if !matches(l, &q.matcher) {
                    out.push(Problem { class: "series-extra", detail: json!({"query": qd, "what": format!("{} does not match", short(l))}) });
                }
                for p in pts.windows(2) {
                    if p[0].0 > p[1].0 {
                        out.push(Problem { class: "unsorted", detail: json!({"query": qd, "what": format!("{}: {} before {}", short(l), p[0].0, p[1].0)}) });
                        break;
                    }
                }
                for p in pts {
                    match by_key.get(&(l, p.0, p.1)) {
                        None => out.push(Problem { class: "invented", detail: json!({"query": qd, "what": format!("{} has a sample nobody wrote: {:?}", short(l), p)}) }),
                        Some(i) => {
                            if !got.insert(*i) {
                                out.push(Problem { class: "sample-twice", detail: json!({"query": qd, "what": "a sample written once was returned twice", "write": tell(*i)}) });
                            }
                            if w[*i].inv > q.resp {
                                out.push(Problem { class: "from-the-future", detail: json!({"query": qd, "write": tell(*i)}) });
                            }
                            if p.0 < q.range.0 || p.0 > q.range.1 {
                                out.push(Problem { class: "out-of-range", detail: json!({"query": qd, "write": tell(*i)}) });
                            }
                        }
                    }
                }
            }
            // what had to be visible: acknowledged before the query began, or before
            // the beginning of a write that is visible
            let latest = got.iter().map(|i| w[*i].inv).max().unwrap_or(0).max(q.inv);
            for (i, x) in w.iter().enumerate() {
                if x.ok && x.resp < latest && x.ts >= q.range.0 && x.ts <= q.range.1 && !got.contains(&i) && matches(&sets[x.set], &q.matcher) {
                    let (class, why) = if x.resp < q.inv {
                        ("acknowledged-missing", "acknowledged before the query began, and missing")
                    } else {
                        ("half-visible", "missing, though a write that began after its acknowledgement is visible")
                    };
                    out.push(Problem { class, detail: json!({"query": qd, "write": tell(i), "what": why, "returned": got.len()}) });
                    break;
                }
            }
            seen.push((qi, got));
        }
        // queries over the same samples must be ordered by inclusion, in real-time order
        seen.sort_by_key(|(i, s)| (queries[*i].matcher.clone(), queries[*i].range, s.len(), queries[*i].inv));
        for p in seen.windows(2) {
            let (a, b) = (&queries[p[0].0], &queries[p[1].0]);
            if a.matcher != b.matcher || a.range != b.range || out.len() > 5 {
                continue;
            }
            if !p[0].1.is_subset(&p[1].1) {
                let i = *p[0].1.difference(&p[1].1).next().unwrap();
                let j = *p[1].1.difference(&p[0].1).next().unwrap_or(&i);
                out.push(Problem { class: "queries-disagree", detail: json!({"what": "each of two queries shows a sample the other lacks", "writes": [tell(i), tell(j)], "sizes": [p[0].1.len(), p[1].1.len()]}) });
            } else if p[0].1.len() < p[1].1.len() && b.resp < a.inv {
                let j = *p[1].1.difference(&p[0].1).next().unwrap();
                out.push(Problem { class: "vanished", detail: json!({"what": "a later query lacks a sample an earlier one showed", "write": tell(j)}) });
            }
        }
        out
    }
}
