//! The reference: a map from label sets to the samples accepted for them.
use crate::backends::{Pt, QOut};
use crate::gen::LabelSet;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Model {
    pub series: BTreeMap<LabelSet, Vec<(u64, u64)>>, // (timestamp, value bits)
}
pub type Expect = BTreeMap<LabelSet, Vec<(u64, u64)>>;

pub fn matches(set: &LabelSet, m: &[(String, String)]) -> bool {
    !m.is_empty() && m.iter().all(|x| set.contains(x))
}

impl Model {
    pub fn accept(&mut self, l: &LabelSet, p: Pt) {
        self.series.entry(l.clone()).or_default().push((p.0, p.1.to_bits()));
    }
    pub fn expect(&self, m: &[(String, String)], a: u64, b: u64) -> Expect {
        let mut out = Expect::new();
        for (l, pts) in &self.series {
            if !matches(l, m) {
                continue;
            }
            let mut v: Vec<_> = pts.iter().filter(|p| p.0 >= a && p.0 <= b).cloned().collect();
            if v.is_empty() {
                continue;
            }
            v.sort();
            out.insert(l.clone(), v);
        }
        out
    }
    pub fn points(&self) -> usize {
        self.series.values().map(|v| v.len()).sum()
    }
}

#[derive(Debug)]
pub struct Mismatch {
    pub class: &'static str,
    pub what: String,
}

pub fn short(l: &LabelSet) -> String {
    let s = format!("{:?}", l);
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

/// Exact agreement: the same series, each once, each with exactly the expected
/// samples (bit for bit) in ascending time order.
pub fn compare(exp: &Expect, got: &QOut) -> Result<(), Mismatch> {
    let mut seen: BTreeMap<&LabelSet, &Vec<Pt>> = BTreeMap::new();
    for (l, p) in got {
        if seen.insert(l, p).is_some() {
            return Err(Mismatch { class: "series-twice", what: format!("series {} appears twice in one result", short(l)) });
        }
    }
    for (l, e) in exp {
        match seen.get(l) {
            None => {
                return Err(Mismatch { class: "series-missing", what: format!("series {} with {} samples in range is missing", short(l), e.len()) })
            }
            Some(p) => {
                if let Some(w) = p.windows(2).find(|w| w[0].0 > w[1].0) {
                    return Err(Mismatch { class: "unsorted", what: format!("series {}: {} before {}", short(l), w[0].0, w[1].0) });
                }
                let mut g: Vec<(u64, u64)> = p.iter().map(|x| (x.0, x.1.to_bits())).collect();
                g.sort();
                if &g != e {
                    let miss: Vec<_> = diff(e, &g);
                    let extra: Vec<_> = diff(&g, e);
                    let class = if !miss.is_empty() && !extra.is_empty() {
                        "samples-differ"
                    } else if !miss.is_empty() {
                        "samples-missing"
                    } else {
                        "samples-extra"
                    };
                    return Err(Mismatch {
                        class,
                        what: format!(
                            "series {}: expected {} samples, got {}; missing {:?}, unexpected {:?} (timestamp, value bits)",
                            short(l),
                            e.len(),
                            g.len(),
                            &miss[..miss.len().min(4)],
                            &extra[..extra.len().min(4)]
                        ),
                    });
                }
            }
        }
    }
    for (l, p) in got {
        if !exp.contains_key(l) {
            return Err(Mismatch {
                class: "series-extra",
                what: format!("unexpected series {} with {} samples (first {:?})", short(l), p.len(), p.first()),
            });
        }
    }
    Ok(())
}

/// multiset difference of sorted vectors
fn diff(a: &[(u64, u64)], b: &[(u64, u64)]) -> Vec<(u64, u64)> {
    let (mut i, mut j) = (0, 0);
    let mut out = vec![];
    while i < a.len() {
        if j >= b.len() || a[i] < b[j] {
            out.push(a[i]);
            i += 1;
        } else if a[i] == b[j] {
            i += 1;
            j += 1;
        } else {
            j += 1;
        }
    }
    out
}

pub fn jq(m: &[(String, String)], a: u64, b: u64) -> J {
    json!({"matchers": m, "start": a, "end": b})
}
