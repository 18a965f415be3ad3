//! C09: what remote write put in is what remote read gives back.
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use monolith::utils::decode_chunk_dir;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub const SPEC: Spec = Spec {
    id: "C09",
    level: "exploration",
    rule: "one evaluation = one query of a remote-read request to the real server binary, its result at its position of the response compared \
           exactly with everything that acknowledged remote-write requests carried (in the window); non-trivial = the expected result has samples; \
           distinct by (server, query)",
    assumptions: &[
        "samples of one series come in ascending order where the storage is TiKV",
        "samples outside of the current chunk's window are dropped, by design",
    ],
    run,
};

fn run(ctx: &Ctx) {
    let n = ctx.n(28, 320);
    parallel(10, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
    parallel(4, ctx.n(2, 8), |i| {
        if !ctx.stop() {
            huge(ctx, i)
        }
    });
    parallel(4, ctx.n(4, 16), |i| {
        if !ctx.stop() {
            disorder(ctx, i)
        }
    });
    let n = ctx.n(4, 24);
    parallel(8, n, |i| {
        if !ctx.stop() {
            rotating(ctx, i)
        }
    });
}

pub fn tikv_args(top: &Path, r: &mut Rng, kind: Kind) -> Vec<String> {
    if kind.uses_tikv() && r.chance(2, 3) {
        let f = top.join("tikv.yaml");
        std::fs::write(&f, "pd_endpoints:\n  - 127.0.0.1:2379\n  - 127.0.0.1:2380\ndry_run: false\n").unwrap();
        vec!["--tikv_config".into(), f.to_str().unwrap().into()]
    } else {
        vec![]
    }
}
pub fn windows(dir: &Path) -> Vec<(u64, u64)> {
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter_map(|e| decode_chunk_dir(e.file_name().to_string_lossy().into_owned()).ok())
        .collect();
    v.sort();
    v
}
pub fn qout(v: &[WireSeries]) -> QOut {
    v.iter()
        .map(|s| {
            let mut l: LabelSet = s.labels.clone();
            l.sort();
            (l, s.samples.iter().map(|(t, v)| (*t as u64, *v)).collect())
        })
        .collect()
}

fn unsigned_zero(v: f64) -> f64 {
    if v == 0.0 {
        0.0
    } else {
        v
    }
}

struct Client<'a> {
    ctx: &'a Ctx,
    srv: &'a Server,
    place: String,
    case: u64,
    no: u64,
    any_order: bool,
    lo: u64,
    hi: u64,
    sets: Vec<LabelSet>,
    last: BTreeMap<LabelSet, u64>,
    m: Model,
    conn: Option<Conn>,
}
impl Client<'_> {
    fn bad(&self, class: &str, d: serde_json::Value) {
        self.ctx.violation(&format!("{}:{}", self.place, class), json!({"where": self.place, "case": self.case, "client": self.no, "window": [self.lo, self.hi], "detail": d}))
    }
    fn sample_times(&mut self, r: &mut Rng, l: &LabelSet, n: usize) -> Vec<u64> {
        let last = *self.last.get(l).unwrap_or(&0);
        let mut v: Vec<u64> = vec![];
        if self.any_order {
            for _ in 0..n {
                v.push(match r.below(8) {
                    0 => self.lo,
                    1 => self.hi,
                    2 => self.lo + r.below(3),
                    3 => self.hi - r.below(3),
                    _ => r.range(self.lo, self.hi),
                })
            }
            if r.chance(2, 3) {
                v.sort();
            }
        } else {
            let mut t = last.max(self.lo - 1);
            for _ in 0..n {
                let room = self.hi - t;
                if room == 0 {
                    break;
                }
                t += match r.below(40) {
                    0 => room,
                    1 if t < self.lo => 1,
                    _ => 1 + r.below((room / 200).max(1)),
                };
                v.push(t)
            }
            if let Some(x) = v.last() {
                self.last.insert(l.clone(), *x);
            }
        }
        v
    }
    /// As other clients write it.
    fn dressed(&self, r: &mut Rng, f: impl FnOnce(&mut Dress) -> Vec<u8>) -> Vec<u8> {
        let mut d = Dress { r, unknown: 0 };
        let b = f(&mut d);
        self.ctx.count("requests_in_other_encodings", 1);
        self.ctx.count("unknown_fields_sent", d.unknown);
        self.ctx.max("longest_request", b.len() as u64);
        if r.chance(1, 2) {
            snappy(&b)
        } else {
            snappy_literals(&b, *r.pick(&[1, 7, 60, 61, 300, 65_536]))
        }
    }
    fn write(&mut self, r: &mut Rng, big: bool) -> bool {
        let n = if big { *r.pick(&[20, 33, 60, 60, 130, 260]) } else { r.us(1, 6) };
        let mut req = vec![];
        let mut new = vec![];
        for _ in 0..n {
            let l = r.pick(&self.sets).clone();
            let k = if big && r.chance(1, 12) {
                r.us(100, 400)
            } else if big {
                r.us(10, 60)
            } else { *r.pick(&[0, 1, 1, 2, 5, 20]) };
            let ts = self.sample_times(r, &l, k);
            let mut samples: Vec<(i64, f64)> = vec![];
            for t in ts {
                // strays, which are to be dropped
                if r.chance(1, 12) {
                    let x = match r.below(6) {
                        0 => 0,
                        1 => -(r.below(1 << 40) as i64) - 1,
                        2 => self.lo as i64 - 1 - r.below(5) as i64,
                        3 => self.hi as i64 + 1 + r.below(5) as i64,
                        4 => i64::MAX - r.below(3) as i64,
                        _ => i64::MIN + r.below(3) as i64,
                    };
                    samples.push((x, gen::value(r)));
                    self.ctx.count("samples_outside_of_the_window_sent", 1);
                }
                let v = unsigned_zero(gen::value(r)); // the protocol does not carry the sign of a zero
                samples.push((t as i64, v));
                new.push((l.clone(), (t, v)));
            }
            let mut wl = l.clone();
            if r.chance(1, 4) {
                r.shuffle(&mut wl);
            }
            req.push(WireSeries { labels: wl, samples });
        }
        let chunked = r.chance(1, 6);
        let body = if r.chance(1, 2) { snappy(&write_request(&req)) } else { self.dressed(r, |d| { let pad = if d.r.chance(1, 300) { 18 << 20 } else { 0 }; d.write_request(&req, pad) }) };
        let res = match self.conn.as_mut() {
            Some(c) => c.post(&self.srv.write_path, &body, chunked),
            None => self.srv.post(&self.srv.write_path, &body),
        }
        .map(|x| x.0);
        self.ctx.count("write_requests", 1);
        match res {
            Ok(c) if (200..300).contains(&c) => {
                self.ctx.count("samples_written", new.len() as u64);
                for (l, p) in new {
                    self.m.accept(&l, p)
                }
                true
            }
            o => {
                self.bad("write-refused", json!({"answer": format!("{:?}", o), "series": req.len(), "first": req.first().map(|s| short(&s.labels))}));
                false
            }
        }
    }
    fn range(&self, r: &mut Rng, cuts: &[u64]) -> (i64, i64) {
        match r.below(10) {
            0 => (0, i64::MAX),
            1 => (i64::MIN, i64::MAX),
            2 => (-(r.below(1000) as i64), self.hi as i64 + 5),
            3 => (self.lo as i64, self.hi as i64),
            4 => (self.lo as i64 - 10, self.lo as i64 - 1),
            5 => (self.hi as i64 + 1, self.hi as i64 + 100),
            _ if cuts.is_empty() => (0, i64::MAX),
            6 => {
                let t = *r.pick(cuts) as i64;
                (t, t)
            }
            7 => {
                let (a, b) = (*r.pick(cuts) as i64, *r.pick(cuts) as i64);
                (a.max(b) + 1, a.min(b))
            }
            _ => {
                let (a, b) = (*r.pick(cuts), *r.pick(cuts));
                let (a, b) = (a.min(b) as i64, a.max(b) as i64);
                (a + r.below(3) as i64 - 1, b + r.below(3) as i64 - 1)
            }
        }
    }
    fn read(&mut self, r: &mut Rng) -> bool {
        let mut cuts: Vec<u64> = self.m.series.values().flat_map(|v| v.iter().map(|p| p.0)).collect();
        cuts.sort();
        let me: (String, String) = ("zz_client".into(), self.no.to_string());
        let nq = *r.pick(&[1, 1, 1, 1, 1, 2, 2, 3, 5, 17, 40, 130]);
        let mut qs = vec![];
        for _ in 0..nq {
            let s = r.pick(&self.sets).clone();
            let mut q: LabelSet = match r.below(8) {
                0 => vec![],
                1 => s.clone(),
                2 => vec![("zz_absent".into(), "1".into())],
                3 => vec![(s[0].0.clone(), format!("{}x", s[0].1))],
                4 => {
                    // the pairs of two different series
                    let t = r.pick(&self.sets).clone();
                    vec![r.pick(&s).clone(), r.pick(&t).clone()]
                }
                _ => (0..r.us(1, 3)).map(|_| r.pick(&s).clone()).collect(),
            };
            q.push(me.clone());
            r.shuffle(&mut q);
            let (a, b) = self.range(r, &cuts);
            qs.push((q, a, b));
        }
        let wq: Vec<WireQuery> = qs.iter().map(|(q, a, b)| query_eq(q, *a, *b)).collect();
        let chunked = r.chance(1, 6);
        let body = if r.chance(1, 2) { snappy(&read_request(&wq)) } else { self.dressed(r, |d| d.read_request(&wq)) };
        let res = match self.conn.as_mut() {
            Some(c) => c.post(&self.srv.read_path, &body, chunked),
            None => self.srv.post(&self.srv.read_path, &body),
        }
        .and_then(|(c, b)| parse_answer(c, &b));
        self.ctx.count("read_requests", 1);
        let got = match res {
            Ok((200, g)) => g,
            o => {
                self.bad("read-failed", json!({"answer": format!("{:?}", o), "queries": wq.len(), "first": qs.first().map(|q| jq(&q.0, q.1 as u64, q.2 as u64))}));
                return false;
            }
        };
        if got.len() != qs.len() {
            self.bad("results", json!({"queries": qs.len(), "results": got.len()}));
            return false;
        }
        for (k, (q, a, b)) in qs.iter().enumerate() {
            let exp = if *b < 0 || a > b { Expect::new() } else { self.m.expect(q, (*a).max(0) as u64, *b as u64) };
            let pts: usize = exp.values().map(|v| v.len()).sum();
            self.ctx.eval(&(self.case, self.no, q, a, b), pts > 0);
            self.ctx.count("samples_compared", pts as u64);
            if let Err(x) = compare(&exp, &qout(&got[k])) {
                self.bad(x.class, json!({"query": {"matchers": q, "start": a, "end": b}, "position": k, "queries": qs.len(), "what": x.what}));
                return false;
            }
        }
        true
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("case", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("server:{}", kind.name());
    let top = ctx.dir("c09");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let chunk = *r.pick(&[600u64, 3600, 12000, 86_400, 10_000_000]);
    let workers = *r.pick(&[1usize, 1, 2, 8]);
    let extra = tikv_args(&top, &mut r, kind);
    let opts = Opts { storage: st, indexer: ix, chunk_size: chunk, workers: Some(workers), extra: extra.clone(), ..Opts::default() };
    let srv = match Server::start(&dir, &opts) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let win = windows(&dir);
    if win.len() != 1 {
        // the window cannot be told from outside: stay well inside of it
        ctx.count("servers_without_a_readable_window", 1);
    }
    let (lo, hi) = if win.len() == 1 { win[0] } else { (now_ms(), now_ms() + chunk * 900) };
    let clients = if workers > 1 && r.chance(2, 3) { r.us(2, 4) } else { 1 };
    let plain = r.chance(1, 3);
    let mut pop = gen::population(&mut r, 4 + clients * 4, 6, plain);
    if !plain {
        for f in gen::collision_family(&mut r) {
            if !pop.contains(&f) {
                pop.push(f)
            }
        }
    }
    let srv_ref = &srv;
    let models: Vec<Model> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..clients as u64)
            .map(|no| {
                let mut r = Rng::derive(r.next(), "client", no);
                let sets: Vec<LabelSet> = pop
                    .iter()
                    .map(|x| {
                        let mut x = x.clone();
                        x.retain(|p| p.0 != "zz_client");
                        x.push(("zz_client".into(), no.to_string()));
                        gen::normal(x)
                    })
                    .collect();
                let place = place.clone();
                s.spawn(move || {
                    let mut c = Client {
                        ctx,
                        srv: srv_ref,
                        place,
                        case: i,
                        no,
                        any_order: kind.any_order(),
                        lo: lo.max(1),
                        hi,
                        sets,
                        last: Default::default(),
                        m: Default::default(),
                        conn: None,
                    };
                    for step in 0..ctx.n(36, 60) {
                        if ctx.stop() {
                            break;
                        }
                        if workers > clients && r.chance(1, 8) {
                            c.conn = if c.conn.is_some() { None } else { Conn::open(srv_ref).ok() };
                        }
                        let ok = if step % 3 == 0 || r.chance(1, 4) { c.write(&mut r, step == 9) } else { c.read(&mut r) };
                        if !ok {
                            break;
                        }
                    }
                    c.m
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if !ctx.has_violation() {
        matcher_types(ctx, &srv, &place, &models[0]);
    }
    let mut srv = srv;
    if !srv.alive() {
        ctx.violation(&format!("{}:ended", place), json!({"what": "the server process ended"}));
        return;
    }
    ctx.count("servers", 1);
    ctx.max("max_concurrent_clients", clients as u64);
    if kind == Kind::SledSled && i % 8 == 0 && !ctx.has_violation() {
        // another server on the same directory
        sleep_ms(2000);
        srv.kill();
        drop(srv);
        let srv = match Server::start(&dir, &opts) {
            Ok(s) => s,
            Err(e) => return ctx.violation(&format!("{}:restart", place), json!({"what": e})),
        };
        for (no, m) in models.iter().enumerate() {
            let q: LabelSet = vec![("zz_client".into(), no.to_string())];
            let exp = m.expect(&q, 0, u64::MAX);
            ctx.eval(&(i, no, "restart"), true);
            match srv.read(&[query_eq(&q, 0, i64::MAX)]) {
                Ok((200, g)) if g.len() == 1 => {
                    if let Err(x) = compare(&exp, &qout(&g[0])) {
                        ctx.violation(&format!("{}:restart:{}", place, x.class), json!({"what": x.what}))
                    }
                }
                o => ctx.violation(&format!("{}:restart:read-failed", place), json!({"what": format!("{:?}", o)})),
            }
        }
        ctx.count("server_restarts", 1);
    }
    if i < 3 {
        ctx.sample(json!({"server": place, "workers": workers, "clients": clients, "chunk_size_s": chunk, "series": models.iter().map(|m| m.series.len()).sum::<usize>(),
            "samples": models.iter().map(|m| m.points()).sum::<usize>()}));
    }
    rm_rf(&top);
}

/// Matchers that are no equalities: the only wrong answer seen so far is to take them for equalities.
fn matcher_types(ctx: &Ctx, srv: &Server, place: &str, m: &Model) {
    let stored: Vec<&LabelSet> = m.series.keys().collect();
    let me: (String, String) = ("zz_client".into(), "0".into());
    let Some(l) = stored.iter().find(|l| l.iter().any(|p| p.0 != "zz_client" && p.1.chars().all(|c| c.is_ascii_alphanumeric()))) else { return };
    let p = l.iter().find(|p| p.0 != "zz_client" && p.1.chars().all(|c| c.is_ascii_alphanumeric())).unwrap().clone();
    let val = |l: &LabelSet| l.iter().find(|x| x.0 == p.0).map(|x| x.1.clone()).unwrap_or_default();
    for (ty, name, pat) in [(1u64, "NEQ", p.1.clone()), (2, "RE", format!("{}|zz", p.1)), (3, "NRE", format!("{}|zz", p.1))] {
        let want = |v: &str| match ty {
            1 => v != p.1,
            2 => v == p.1 || v == "zz",
            _ => !(v == p.1 || v == "zz"),
        };
        let all = m.expect(&vec![me.clone()], 0, u64::MAX);
        let exp: Expect = all.iter().filter(|(l, _)| want(&val(l))).map(|(a, b)| (a.clone(), b.clone())).collect();
        let as_eq = m.expect(&vec![me.clone(), (p.0.clone(), pat.clone())], 0, u64::MAX);
        let q = WireQuery { start: 0, end: i64::MAX, matchers: vec![(ty, p.0.clone(), pat.clone()), (0, me.0.clone(), me.1.clone())] };
        ctx.eval(&(place, name, l), true);
        match srv.read(&[q]) {
            Ok((c, _)) if c >= 400 => {} // refused: nothing wrong was answered
            Ok((200, g)) if g.len() == 1 => {
                let got = qout(&g[0]);
                if let Err(x) = compare(&exp, &got) {
                    if compare(&as_eq, &got).is_ok() {
                        ctx.violation(&format!("matcher-taken-for-equality:{}", name), json!({"where": place, "matcher": [name, p.0, pat], "what": x.what}));
                    } else {
                        ctx.violation(&format!("{}:matcher:{}", place, name), json!({"where": place, "matcher": [name, p.0, pat], "what": x.what}));
                    }
                }
            }
            o => ctx.violation(&format!("{}:matcher:{}:failed", place, name), json!({"what": format!("{:?}", o)})),
        }
    }
    // `name=""` is for series that do not have the name
    let without = |n: &str| stored.iter().filter(|l| !l.iter().any(|x| x.0 == n)).count();
    let Some(name) = stored.iter().flat_map(|l| l.iter()).map(|p| p.0.clone()).find(|n| n != "zz_client" && without(n) > 0) else { return };
    let all = m.expect(&vec![me.clone()], 0, u64::MAX);
    let exp: Expect = all.iter().filter(|(l, _)| !l.iter().any(|x| x.0 == name)).map(|(a, b)| (a.clone(), b.clone())).collect();
    if exp.is_empty() {
        return;
    }
    ctx.eval(&(place, "EMPTY", &name), true);
    match srv.read(&[WireQuery { start: 0, end: i64::MAX, matchers: vec![(0, name.clone(), String::new()), (0, me.0.clone(), me.1.clone())] }]) {
        Ok((c, _)) if c >= 400 => {}
        Ok((200, g)) if g.len() == 1 => {
            if let Err(x) = compare(&exp, &qout(&g[0])) {
                let class = if g[0].is_empty() { "matcher-with-empty-value:nothing".to_string() } else { format!("{}:matcher:EMPTY", place) };
                ctx.violation(&class, json!({"where": place, "matcher": ["EQ", name, ""], "what": x.what}));
            }
        }
        o => ctx.violation(&format!("{}:matcher:EMPTY:failed", place), json!({"what": format!("{:?}", o)})),
    }
}

/// Requests with very many series, and with very many samples of one.
fn huge(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("huge", i);
    let kind = [Kind::SledSled, Kind::TikvTikv][(i % 2) as usize];
    let place = format!("huge:{}", kind.name());
    let top = ctx.dir("c09h");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let srv = match Server::start(&dir, &Opts { storage: st, indexer: ix, chunk_size: 86_400, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let now = now_ms() + 10_000;
    let mut m = Model::default();
    let n = r.us(1030, 1500);
    let sets: Vec<LabelSet> = (0..n).map(|k| gen::normal(vec![("all".into(), "1".into()), ("k".into(), k.to_string()), ("mod".into(), (k % 7).to_string())])).collect();
    let mut send = |m: &mut Model, req: Vec<(LabelSet, Vec<Pt>)>| -> bool {
        ctx.beat();
        let samples: usize = req.iter().map(|x| x.1.len()).sum();
        let wire: Vec<WireSeries> = req.iter().map(|(l, p)| wire(l, p)).collect();
        match srv.write(&wire) {
            Ok(200) => {
                ctx.max("most_series_in_one_request", req.len() as u64);
                ctx.max("most_samples_of_a_series_in_one_request", req.iter().map(|x| x.1.len()).max().unwrap_or(0) as u64);
                ctx.count("samples_written", samples as u64);
                for (l, p) in req {
                    p.iter().for_each(|p| m.accept(&l, *p));
                }
                true
            }
            o => {
                ctx.violation(&format!("{}:write-refused", place), json!({"what": format!("{:?}", o), "series": req.len(), "samples": samples}));
                false
            }
        }
    };
    let pts = |r: &mut Rng, from: u64, n: u64| -> Vec<Pt> { (0..n).map(|k| (from + k, unsigned_zero(gen::value(r)))).collect() };
    let some: Vec<(LabelSet, Vec<Pt>)> = sets.iter().map(|l| (l.clone(), pts(&mut r, now, 1))).collect();
    let len = *r.pick(&[8200u64, 10_100, 11_000]);
    let many = vec![(sets[n / 2].clone(), pts(&mut r, now + 1, len))];
    if !send(&mut m, some) || !send(&mut m, many) {
        return;
    }
    // one with much that the server does not know, before and behind what it does
    for pad in [1 << 20, 18 << 20, 35 << 20, 70 << 20] {
        let l = gen::normal(vec![("all".into(), "1".into()), ("k".into(), format!("pad{}", pad))]);
        let p = pts(&mut r, now, 3);
        let mut d = Dress { r: &mut r, unknown: 0 };
        let body = snappy(&d.write_request(&[wire(&l, &p)], pad));
        ctx.count("unknown_fields_sent", d.unknown + 1);
        match srv.post(&srv.write_path, &body).map(|x| x.0) {
            Ok(200) => p.iter().for_each(|p| m.accept(&l, *p)),
            o => ctx.violation(&format!("{}:write-refused", place), json!({"what": format!("{:?}", o), "padding": pad})),
        }
    }
    let pair = |k: &str, v: String| -> (String, String) { (k.into(), v) };
    let mut asks: Vec<(LabelSet, u64, u64)> = vec![(vec![pair("all", "1".into())], 0, i64::MAX as u64), (vec![pair("all", "1".into())], now, now)];
    for k in [0, 1, n - 1, n / 2, r.us(0, n - 1), r.us(0, n - 1)] {
        asks.push((vec![pair("k", k.to_string())], 0, i64::MAX as u64));
    }
    for k in 0..7 {
        asks.push((vec![pair("mod", k.to_string()), pair("all", "1".into())], now, now + r.below(len)));
    }
    // labels of a length that is a limit in places
    for (k, len) in [255usize, 256, 1023, 1024, 4096, 8191, 16_383, 16_384, 16_385, 32_768, 65_535, 65_536, 70_000, 262_145].iter().enumerate() {
        let text = |c: char| -> String { (0..*len - 1).map(|j| (b'a' + ((j / 7 + k) % 26) as u8) as char).chain(std::iter::once(c)).collect() };
        // two that differ in their last character only
        for c in ['x', 'y'] {
            let l = gen::normal(vec![pair("all", "1".into()), if k % 3 == 2 { pair(&text(c), "v".into()) } else { pair("long", text(c)) }]);
            if !send(&mut m, vec![(l.clone(), pts(&mut r, now, 2))]) {
                return;
            }
            asks.push((l, 0, i64::MAX as u64));
        }
    }
    // as many queries of one request, with as many matchers
    let many: Vec<(LabelSet, u64, u64)> = (0..[66_000u64, 9000, 1040, 2050][i as usize % 4])
        .map(|k| (vec![pair("k", (k % n as u64).to_string())], now, now + k % 3))
        .collect();
    let wq: Vec<WireQuery> = many.iter().map(|(q, a, b)| query_eq(q, *a as i64, *b as i64)).collect();
    match srv.read(&wq) {
        Ok((200, g)) if g.len() == wq.len() => {
            ctx.max("most_queries_in_one_request", wq.len() as u64);
            for (k, (q, a, b)) in many.iter().enumerate() {
                ctx.eval(&(&place, i, "of many", k), true);
                if let Err(x) = compare(&m.expect(q, *a, *b), &qout(&g[k])) {
                    ctx.violation(&format!("{}:{}", place, x.class), json!({"where": place, "query": q, "position": k, "queries": wq.len(), "what": x.what}));
                    return;
                }
            }
        }
        o => ctx.violation(&format!("{}:read-failed", place), json!({"queries": wq.len(), "what": format!("{:?}", o.map(|x| (x.0, x.1.len())))})),
    }
    // as large an answer: the same that is asked many times
    let wq: Vec<WireQuery> = (0..[12usize, 48, 24][i as usize % 3]).map(|_| query_eq(&[pair("all", "1".into())], now as i64, now as i64 + 1)).collect();
    let exp = m.expect(&[pair("all", "1".into())], now, now + 1);
    ctx.beat();
    match srv.read(&wq) {
        Ok((200, g)) if g.len() == wq.len() => {
            let size = |g: &[WireSeries]| -> usize { g.iter().flat_map(|s| &s.labels).map(|l| l.0.len() + l.1.len()).sum() };
            ctx.max("most_bytes_of_labels_in_one_answer", g.iter().map(|g| size(g)).sum::<usize>() as u64);
            for (k, g) in g.iter().enumerate() {
                ctx.eval(&(&place, i, "of large", k), true);
                if let Err(x) = compare(&exp, &qout(g)) {
                    ctx.violation(&format!("{}:{}", place, x.class), json!({"where": place, "position": k, "queries": wq.len(), "what": x.what}));
                    return;
                }
            }
        }
        o => ctx.violation(&format!("{}:read-failed", place), json!({"large answers": wq.len(), "what": format!("{:?}", o.map(|x| (x.0, x.1.len())))})),
    }
    for count in [130usize, 1030] {
        let mut q: LabelSet = vec![];
        while q.len() < count {
            q.push(pair("mod", "3".into()));
            q.push(pair("all", "1".into()));
        }
        ctx.max("most_matchers_of_a_query", q.len() as u64);
        asks.push((q, now, now));
    }
    for (q, a, b) in asks {
        ctx.beat();
        ctx.eval(&(&place, i, &q, a, b), true);
        let exp = m.expect(&q, a, b);
        match srv.read(&[query_eq(&q, a as i64, b as i64)]) {
            Ok((200, g)) if g.len() == 1 => {
                if let Err(x) = compare(&exp, &qout(&g[0])) {
                    ctx.violation(&format!("{}:{}", place, x.class), json!({"where": place, "query": q, "what": x.what}))
                }
            }
            o => ctx.violation(&format!("{}:read-failed", place), json!({"query": q, "what": format!("{:?}", o.map(|x| x.0))})),
        }
    }
    rm_rf(&top);
}

/// Samples that come late, which some storages refuse: a request that was answered with success is there, whole.
fn disorder(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("disorder", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("disorder:{}", kind.name());
    let top = ctx.dir("c09d");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let srv = match Server::start(&dir, &Opts { storage: st, indexer: ix, chunk_size: 86_400, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let sets = gen::population(&mut r, 4, 3, true);
    let base = now_ms() + 10_000;
    // what has to be there, and what may be there of the requests that failed
    let mut due: BTreeMap<LabelSet, BTreeMap<(u64, u64), u64>> = BTreeMap::new();
    let mut no = 0u64;
    for step in 0..ctx.n(60, 200) {
        if ctx.stop() {
            return;
        }
        let mut req = vec![];
        let mut late = false;
        let mut new: Vec<(LabelSet, (u64, u64))> = vec![];
        for _ in 0..r.us(1, 3) {
            let l = r.pick(&sets).clone();
            let mut last = due.get(&l).and_then(|d| d.keys().map(|p| p.0).max()).unwrap_or(base);
            last = new.iter().filter(|n| n.0 == l).map(|n| n.1 .0).chain([last]).max().unwrap();
            let mut samples = vec![];
            for _ in 0..r.us(0, 5) {
                no += 1;
                let t = match r.below(8) {
                    0 => r.range(base, base + 400),
                    1 => last,
                    2 => last - 1,
                    _ => last + 1 + r.below(4),
                };
                late |= t <= last;
                last = last.max(t);
                let v = no as f64 * 0.25;
                samples.push((t as i64, v));
                new.push((l.clone(), (t, v.to_bits())));
            }
            req.push(WireSeries { labels: l, samples });
        }
        let ok = match srv.write(&req) {
            Ok(c) if (200..300).contains(&c) => true,
            Ok(c) if c >= 400 && late => false,
            o => return ctx.violation(&format!("{}:write-refused", place), json!({"what": format!("{:?}", o), "step": step, "late": late})),
        };
        if ok {
            ctx.count("requests_with_late_samples_accepted", late as u64);
            new.iter().for_each(|(l, p)| *due.entry(l.clone()).or_default().entry(*p).or_default() += 1);
        } else {
            ctx.count("requests_with_late_samples_refused", 1);
        }
        for l in &sets {
            ctx.eval(&(&place, i, step, l), true);
            let got = match srv.read(&[query_eq(l, 0, i64::MAX)]) {
                Ok((200, g)) if g.len() == 1 => qout(&g[0]),
                o => return ctx.violation(&format!("{}:read-failed", place), json!({"what": format!("{:?}", o)})),
            };
            let mut have: BTreeMap<(u64, u64), u64> = BTreeMap::new();
            let mut times = vec![];
            for (s, pts) in &got {
                if s == l {
                    pts.iter().for_each(|p| *have.entry((p.0, p.1.to_bits())).or_default() += 1);
                    times.extend(pts.iter().map(|p| p.0));
                }
            }
            let d = due.entry(l.clone()).or_default();
            if let Some(p) = d.keys().find(|p| have.get(p).unwrap_or(&0) < &d[p]) {
                return ctx.violation(&format!("{}:accepted-and-missing", place), json!({"series": short(l), "sample": p, "step": step, "last_request": req.len()}));
            }
            let may = |p: &(u64, u64)| *d.get(p).unwrap_or(&0) + if ok { 0 } else { new.iter().filter(|n| n.0 == *l && n.1 == *p).count() as u64 };
            if let Some(p) = have.keys().find(|p| have[p] > may(p)) {
                return ctx.violation(&format!("{}:samples-extra", place), json!({"series": short(l), "sample": p, "times": have[p], "step": step}));
            }
            if times.windows(2).any(|w| w[0] > w[1]) {
                return ctx.violation(&format!("{}:not-ascending", place), json!({"series": short(l), "step": step}));
            }
            *d = have; // what a failed request left there stays there
        }
    }
    rm_rf(&top);
}

/// A server that replaces its chunk every second: what was seen once stays, once.
fn rotating(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("rotating", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("rotating:{}", kind.name());
    let top = ctx.dir("c09r");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let extra = tikv_args(&top, &mut r, kind);
    let srv = match Server::start(&dir, &Opts { storage: st, indexer: ix, chunk_size: 1, extra, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let sets = gen::population(&mut r, 4, 3, false);
    let t0 = std::time::Instant::now();
    let mut last = 0;
    let mut sent: BTreeMap<LabelSet, BTreeSet<(u64, u64)>> = BTreeMap::new();
    let mut seen: BTreeMap<LabelSet, BTreeSet<(u64, u64)>> = BTreeMap::new();
    let life = ctx.n(5500, 20_000) as u128;
    while t0.elapsed().as_millis() < life {
        let l = r.pick(&sets).clone();
        let ts = now_ms().max(last + 1);
        last = ts;
        let v = unsigned_zero(gen::value(&mut r));
        match srv.write(&[wire(&l, &[(ts, v)])]) {
            Ok(200) => {}
            o => return ctx.violation(&format!("{}:write-refused", place), json!({"what": format!("{:?}", o)})),
        }
        sent.entry(l.clone()).or_default().insert((ts, v.to_bits()));
        let l = r.pick(&sets).clone();
        let got = match srv.read(&[query_eq(&l, 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 => qout(&g[0]),
            o => return ctx.violation(&format!("{}:read-failed", place), json!({"what": format!("{:?}", o)})),
        };
        ctx.eval(&(i, &l, ts), got.len() > 0);
        let mut twice = BTreeSet::new();
        let mut here: BTreeMap<LabelSet, BTreeSet<(u64, u64)>> = BTreeMap::new();
        for (s, pts) in &got {
            if !twice.insert(s.clone()) {
                return ctx.violation(&format!("{}:series-twice", place), json!({"series": short(s)}));
            }
            if !matches(s, &l) {
                return ctx.violation(&format!("{}:series-extra", place), json!({"series": short(s), "query": l}));
            }
            let h = here.entry(s.clone()).or_default();
            for p in pts {
                let p = (p.0, p.1.to_bits());
                if !h.insert(p) || !sent.get(s).map(|x| x.contains(&p)).unwrap_or(false) {
                    return ctx.violation(&format!("{}:sample-twice-or-unknown", place), json!({"series": short(s), "sample": p}));
                }
            }
        }
        for (s, old) in &seen {
            if matches(s, &l) {
                if let Some(p) = old.iter().find(|p| !here.get(s).map(|h| h.contains(p)).unwrap_or(false)) {
                    return ctx.violation(&format!("{}:sample-lost", place), json!({"series": short(s), "sample": p, "windows": windows(&dir)}));
                }
            }
        }
        for (s, h) in here {
            seen.entry(s).or_default().extend(h)
        }
        sleep_ms(r.below(8));
    }
    let n: usize = seen.values().map(|v| v.len()).sum();
    ctx.count("samples_seen_across_rotations", n as u64);
    ctx.count("chunks_of_rotating_servers", windows(&dir).len() as u64);
    if n == 0 {
        ctx.violation(&format!("{}:nothing-stored", place), json!({"sent": sent.values().map(|v| v.len()).sum::<usize>()}));
    }
    rm_rf(&top);
}
