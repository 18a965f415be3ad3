//! C10: nothing a client sends stops the server or harms other data.
use super::c09::{qout, tikv_args};
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::io::{Read, Write};
use std::net::Shutdown;
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C10",
    level: "exploration",
    rule: "one evaluation = one hostile request to the real server binary (invalid HTTP, snappy or protobuf, cut or mutated messages, hostile labels and \
           timestamps, connections dropped at any byte), with the monitors: the process lives; a request that cannot be decoded is answered with an error \
           and, if it is a write, leaves no trace; and after each batch the well-behaved client's writes succeed and its reads are exact; non-trivial = a complete \
           answer was received or the connection was dropped on purpose; distinct by (server, request bytes)",
    assumptions: &["only truncation, impossible wire types, field number 0 and text that is not UTF-8 count as `cannot be decoded`"],
    run,
};

/// Is this no protobuf message of the given shape, whatever decoder is used?
/// Shape: names of nested message fields and text fields by path.
fn undecodable(b: &[u8], level: u32) -> bool {
    // write request: 1 = series; series: 1 = label, 2 = sample; label: 1, 2 = text
    // read request (from level 10): 1 = query; query: 3 = matcher; matcher: 2, 3 = text
    let mut at = 0usize;
    fn var(b: &[u8], at: &mut usize) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10u32 {
            let x = *b.get(*at)?;
            *at += 1;
            v |= ((x & 0x7f) as u64).wrapping_shl(7 * i);
            if x & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
    while at < b.len() {
        let Some(t) = var(b, &mut at) else { return true };
        if t > u32::MAX as u64 {
            return false; // some decoders take the low half: leave it open
        }
        if t >> 3 == 0 {
            return true;
        }
        match t & 7 {
            0 => {
                if var(b, &mut at).is_none() {
                    return true;
                }
            }
            1 => at += 8,
            5 => at += 4,
            2 => {
                let Some(n) = var(b, &mut at) else { return true };
                if n > u32::MAX as u64 {
                    return false; // likewise
                }
                let Some(x) = at.checked_add(n as usize).filter(|e| *e <= b.len()).map(|e| &b[at..e]) else { return true };
                at += n as usize;
                let f = t >> 3;
                let bad = match (level, f) {
                    (0, 1) => undecodable(x, 1),
                    (1, 1) => undecodable(x, 2),
                    (1, 2) => undecodable(x, 3),
                    (10, 1) => undecodable(x, 11),
                    (11, 3) => undecodable(x, 12),
                    (2, 1) | (2, 2) | (12, 2) | (12, 3) => std::str::from_utf8(x).is_err(),
                    _ => false,
                };
                if bad {
                    return true;
                }
            }
            3 | 4 => return false, // groups: leave it open
            _ => return true,
        }
        if at > b.len() {
            return true;
        }
    }
    false
}

fn run(ctx: &Ctx) {
    let n = ctx.n(12, 96);
    parallel(8, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
    newer_http(ctx);
    crowd(ctx);
    ctx.count("connections_left_waiting_by_the_http_library", LEFT_WAITING.load(std::sync::atomic::Ordering::SeqCst));
}

/// Requests of a newer HTTP: answered, as all others, and in nobody's way.
///
/// On a server of their own: the HTTP library never answers them, and keeps a thread for each (a known finding).
fn newer_http(ctx: &Ctx) {
    let mut r = ctx.rng("newer", 0);
    let dir = ctx.dir("c10n").join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let mut srv = match Server::start(&dir, &Opts::default()) {
        Ok(s) => s,
        Err(e) => return ctx.violation("newer-http:start", json!({"what": e})),
    };
    let base = now_ms() + 1000;
    let mut open = vec![];
    for (k, v) in ["PRI * HTTP/2.0", "DELETE /write HTTP/9.9", "POST /read HTTP/1.2"].iter().enumerate() {
        ctx.eval(v, true);
        if let Ok(mut s) = srv.connect() {
            let _ = s.set_read_timeout(Some(Duration::from_millis(1500)));
            let _ = s.write_all(format!("{}\r\nContent-Length: 0\r\n\r\n", v).as_bytes());
            match read_response(&mut s) {
                Err(e) if e.starts_with("receive:") => ctx.violation("http-version:no-answer", json!({"request": v, "what": e})),
                _ => {}
            }
            open.push(s)
        }
        // the others are served nevertheless
        let l: LabelSet = vec![("a".into(), gen::label_value(&mut r))];
        match srv.write(&[wire(&l, &[(base + k as u64, 1.0)])]) {
            Ok(200) => {}
            o => ctx.violation("newer-http:write", json!({"after": v, "what": format!("{:?}", o)})),
        }
        match srv.read(&[query_eq(&l, 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 && g[0].len() == 1 => {}
            o => ctx.violation("newer-http:read", json!({"after": v, "what": format!("{:?}", o)})),
        }
    }
    if !srv.alive() {
        ctx.violation("newer-http:server-ended", json!({}))
    }
}

/// Connections upon connections, at a server that can have few files open.
///
/// Ones that come and go leave nothing behind, however many they are. More at a time than the server can have open are
/// too many for it (a known finding), but it serves again when they have left.
fn crowd(ctx: &Ctx) {
    let mut r = ctx.rng("crowd", 0);
    let dir = ctx.dir("c10o").join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let mut srv = match Server::start(&dir, &Opts { files: Some(90), ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation("crowd:start", json!({"what": e})),
    };
    srv.patience = Duration::from_secs(30);
    let base = now_ms() + 1000;
    let mut seq = 0;
    let mut served = |srv: &mut Server, r: &mut Rng| -> Result<(), String> {
        seq += 1;
        if !srv.alive() {
            return Err("the server has ended".into());
        }
        let l: LabelSet = vec![("a".into(), format!("{}-{}", seq, gen::label_value(r)))];
        match srv.write(&[wire(&l, &[(base + seq, 1.0)])]) {
            Ok(200) => {}
            o => return Err(format!("write: {:?}", o)),
        }
        match srv.read(&[query_eq(&l, 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 && g[0].len() == 1 => Ok(()),
            o => Err(format!("read: {:?}", o)),
        }
    };
    // three times as many as fit, one after another, each left at another point of its request
    let whole = http("/write", "3", b"abc");
    for k in 0..ctx.n(270, 2700) {
        let n = r.below(whole.len() as u64 + 1) as usize;
        ctx.eval(&("crowd", k, n), true);
        if let Ok(mut s) = srv.connect() {
            let _ = s.write_all(&whole[..n]);
            if r.chance(1, 2) {
                let _ = s.shutdown(Shutdown::Write);
                // the end of what the server has to say
                let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
                let mut b = [0; 256];
                while matches!(s.read(&mut b), Ok(n) if n > 0) {}
            }
        }
        if k % 30 == 29 {
            if let Err(e) = served(&mut srv, &mut r) {
                return ctx.violation("crowd:left-behind", json!({"after": k + 1, "what": e}));
            }
        }
    }
    // all at a time
    let mut open = vec![];
    for k in 0..150 {
        ctx.eval(&("flood", k), true);
        match srv.connect() {
            Ok(s) => open.push(s),
            Err(_) => break,
        }
    }
    sleep_ms(500);
    drop(open);
    sleep_ms(500);
    srv.patience = Duration::from_secs(5);
    if let Err(e) = served(&mut srv, &mut r) {
        ctx.violation("flood:ended", json!({"what": e}))
    }
}

struct S<'a> {
    ctx: &'a Ctx,
    srv: Server,
    place: String,
    case: u64,
    log: std::path::PathBuf,
    any_order: bool,
    base: u64,
    next: u64,
    marks: u64,
    sets: Vec<LabelSet>,
    m: Model,
}

impl S<'_> {
    fn bad(&self, class: &str, d: serde_json::Value) {
        let log = std::fs::read_to_string(&self.log).unwrap_or_default();
        let tail: String = log.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
        self.ctx.violation(&format!("{}:{}", self.place, class), json!({"where": self.place, "case": self.case, "detail": d, "server_log_end": tail}))
    }
    /// The well-behaved client: its requests succeed, its data is exact.
    fn good(&mut self, r: &mut Rng, after: &str) -> bool {
        if !self.srv.alive() {
            self.bad("server-ended", json!({"after": after}));
            return false;
        }
        let l = r.pick(&self.sets).clone();
        self.next += 1;
        let p = (self.base + self.next, (self.next as f64) * 0.5);
        match self.srv.write(&[wire(&l, &[p])]) {
            Ok(c) if (200..300).contains(&c) => self.m.accept(&l, p),
            o => {
                self.bad("good-write", json!({"after": after, "answer": format!("{:?}", o)}));
                return false;
            }
        }
        let q: LabelSet = if r.chance(1, 2) { vec![("zz_good".into(), "1".into())] } else { l };
        let exp = self.m.expect(&q, 0, u64::MAX);
        match self.srv.read(&[query_eq(&q, 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 => {
                if let Err(x) = compare(&exp, &qout(&g[0])) {
                    self.bad(&format!("good-read:{}", x.class), json!({"after": after, "what": x.what}));
                    return false;
                }
            }
            o => {
                self.bad("good-read", json!({"after": after, "answer": format!("{:?}", o)}));
                return false;
            }
        }
        self.ctx.count("good_requests", 2);
        true
    }
    /// A message of series that all carry a fresh mark.
    fn marked(&mut self, r: &mut Rng, n: usize) -> (String, Vec<WireSeries>) {
        self.marks += 1;
        // far from all other marks: a flipped bit does not make one of another
        let mark = format!("m{:016x}", hash_of(&("mark", self.marks)));
        let v = (0..n)
            .map(|k| {
                let mut l = vec![("hh_mark".to_string(), mark.clone()), ("n".to_string(), k.to_string())];
                if r.chance(1, 2) {
                    l.push((gen::name(r) + "_h", gen::label_value(r)));
                }
                let s = (0..r.us(1, 3)).map(|j| ((self.base + j as u64 + 1) as i64, gen::value(r))).collect();
                WireSeries { labels: l, samples: s }
            })
            .collect();
        (mark, v)
    }
    fn mark_is_absent(&self, mark: &str) -> Result<(), String> {
        match self.srv.read(&[query_eq(&[("hh_mark".to_string(), mark.to_string())], 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 && g[0].is_empty() => Ok(()),
            Ok((200, g)) => Err(format!("{} series are there", g.iter().map(|x| x.len()).sum::<usize>())),
            o => Err(format!("{:?}", o)),
        }
    }
    /// A write whose body is undecodable: refused, without a trace.
    fn must_refuse(&mut self, body: &[u8], mark: &str, why: &str) -> bool {
        self.ctx.eval(&(self.case, why, body), true);
        self.ctx.count("undecodable_writes", 1);
        match self.srv.post(&self.srv.write_path, body) {
            Ok((c, _)) if c >= 400 => {}
            o => {
                self.bad("accepted-undecodable", json!({"request": why, "body": show_bytes(body), "answer": format!("{:?}", o.map(|x| x.0))}));
                return false;
            }
        }
        if !mark.is_empty() {
            if let Err(x) = self.mark_is_absent(mark) {
                self.bad("refused-but-stored", json!({"request": why, "body": show_bytes(body), "what": x}));
                return false;
            }
        }
        true
    }
    /// A read with this body: refused when it is undecodable.
    fn read_any(&mut self, msg: &[u8], why: &str) -> bool {
        let res = self.srv.post(&self.srv.read_path, &snappy(msg));
        if !undecodable(msg, 10) {
            return true;
        }
        self.ctx.eval(&(self.case, "read", why, msg), true);
        self.ctx.count("undecodable_reads", 1);
        match res {
            Ok((c, _)) if c >= 400 => true,
            o => {
                self.bad("answered-undecodable", json!({"request": why, "message": show_bytes(msg), "answer": format!("{:?}", o.map(|x| x.0))}));
                false
            }
        }
    }
    fn raw(&self, bytes: &[u8], wait: bool) {
        if let Ok(mut s) = self.srv.connect() {
            let _ = s.set_read_timeout(Some(Duration::from_millis(if wait { 300 } else { 20 })));
            let _ = s.write_all(bytes);
            if wait {
                let _ = read_response(&mut s);
            }
            let _ = s.shutdown(Shutdown::Both);
        }
    }
}

fn http(path: &str, len: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", path, len).into_bytes();
    v.extend_from_slice(body);
    v
}

fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..r.us(1, 4) {
        if v.is_empty() {
            v.push(r.next() as u8);
            continue;
        }
        let i = r.below(v.len() as u64) as usize;
        match r.below(6) {
            0 => v[i] ^= 1 << r.below(8),
            1 => v[i] = r.next() as u8,
            2 => {
                v.insert(i, r.next() as u8);
            }
            3 => {
                v.remove(i);
            }
            4 => {
                let mut w = vec![];
                varint(&mut w, r.next() >> r.below(64));
                v.splice(i..i, w);
            }
            _ => v.truncate(i),
        }
    }
    v
}

fn hostile_label(r: &mut Rng, good: &LabelSet) -> (String, String) {
    let odd = ["", ",", "=", "\\", "\\,", "R", "RR", "L", "I", "I1", "LR", "TS1", "TP", "\0", "a,b", "a=b", "=,", ",=", "\u{feff}", "é", "zz_good", "zz_good=1", "zz_good=1,zz", "hh_mark"];
    let g = r.pick(good).clone();
    let n = match r.below(6) {
        0 => format!("{}={},x", g.0, g.1),
        1 => format!("{},{}", g.0, g.0),
        2 => format!("R{}", g.0),
        3 => "x".repeat(r.us(1, 5000)),
        _ => r.pick(&odd).to_string(),
    };
    let v = match r.below(5) {
        0 => format!("{},{}={}", g.1, g.0, g.1),
        1 => format!("{}\\", g.1),
        2 => "".into(),
        3 => r.pick(&odd).to_string(),
        _ => gen::label_value(r),
    };
    // not a pair of the good client's own
    if n == "zz_good" && v == "1" {
        return (n, "2".into());
    }
    (n, v)
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("case", i);
    let kind = REAL[(i % 4) as usize];
    let top = ctx.dir("c10");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let extra = tikv_args(&top, &mut r, kind);
    let workers = *r.pick(&[1usize, 2, 4, 8]);
    let place = format!("server:{}", kind.name());
    let srv = match Server::start(&dir, &Opts { storage: st, indexer: ix, chunk_size: 86_400, workers: Some(workers), extra, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let mut sets = gen::population(&mut r, 5, 4, true);
    for x in sets.iter_mut() {
        x.push(("zz_good".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    let mut s = S {
        ctx,
        srv,
        place,
        case: i,
        log: dir.with_extension("server-log"),
        any_order: kind.any_order(),
        base: now_ms() + 1000,
        next: 0,
        marks: 0,
        sets,
        m: Default::default(),
    };
    for _ in 0..4 {
        if !s.good(&mut r, "the start") {
            return;
        }
    }
    let fds0 = fds(&s.srv);
    let rounds = ctx.n(26, 60);
    let names = ["bad snappy", "cut protobuf", "mutated protobuf", "random protobuf", "hostile labels", "hostile reads", "raw http", "dropped connections", "wrong paths", "big lengths", "invalid text"];
    for round in 0..rounds {
        let fam = ((round + i) % names.len() as u64) as usize;
        let what = names[fam];
        ctx.count(&format!("family_{}", what.replace(' ', "_")), 1);
        match fam {
            0 => {
                for _ in 0..12 {
                    let (mark, w) = s.marked(&mut r, 2);
                    let good = snappy(&write_request(&w));
                    let body = match r.below(5) {
                        0 => vec![],
                        1 => (0..r.us(1, 300)).map(|_| r.next() as u8 | 1).collect(),
                        2 => good[..r.us(0, good.len() - 1)].to_vec(),
                        3 => {
                            // the announced length is not the real one
                            let mut v = vec![];
                            varint(&mut v, 1 + r.below(1 << 20));
                            v.extend_from_slice(&good[2.min(good.len())..]);
                            v
                        }
                        _ => [&good[..], &[0xff, 0xff, 0xff]].concat(),
                    };
                    if unsnappy(&body).is_err() {
                        if !s.must_refuse(&body, &mark, what) {
                            return;
                        }
                    }
                    ctx.eval(&(i, what, &body), true);
                    match s.srv.post("/read", &body) {
                        Ok((c, _)) if c < 400 && unsnappy(&body).is_err() => {
                            s.bad("answered-undecodable", json!({"request": what, "body": show_bytes(&body), "answer": c}));
                            return;
                        }
                        _ => {}
                    }
                }
            }
            1 => {
                // every prefix of a message
                let msg = read_request(&[query_eq(&s.sets[0].clone(), 0, i64::MAX), query_eq(&[("zz_good".into(), "1".into())], 0, 1)]);
                for n in (1..msg.len()).step_by((msg.len() / 30).max(1)) {
                    if !s.read_any(&msg[..n], what) {
                        return;
                    }
                }
                let (mark, w) = s.marked(&mut r, 2);
                let msg = write_request(&w);
                let step = (msg.len() / 60).max(1);
                for n in (0..msg.len()).step_by(step) {
                    let cut = &msg[..n];
                    ctx.eval(&(i, what, cut), true);
                    if undecodable(cut, 0) {
                        if !s.must_refuse(&snappy(cut), &mark, what) {
                            return;
                        }
                    }
                }
            }
            2 => {
                for _ in 0..25 {
                    let (_, w) = s.marked(&mut r, 2);
                    let msg = mutate(&mut r, &write_request(&w));
                    ctx.eval(&(i, what, &msg), true);
                    if undecodable(&msg, 0) {
                        if !s.must_refuse(&snappy(&msg), "", what) {
                            return;
                        }
                    } else {
                        let _ = s.srv.post("/write", &snappy(&msg));
                    }
                    let q = read_request(&[query_eq(&s.sets[0], 0, i64::MAX), query_eq(&s.sets[0], 0, i64::MAX)]);
                    if !s.read_any(&mutate(&mut r, &q), what) {
                        return;
                    }
                }
            }
            3 => {
                for _ in 0..25 {
                    let msg: Vec<u8> = (0..r.us(1, 200)).map(|_| if r.chance(1, 3) { *r.pick(&[0x0a, 0x12, 0x08, 0x09, 0x0b, 0x0c, 0x10]) } else { r.next() as u8 }).collect();
                    ctx.eval(&(i, what, &msg), true);
                    if undecodable(&msg, 0) {
                        if !s.must_refuse(&snappy(&msg), "", what) {
                            return;
                        }
                    } else {
                        let _ = s.srv.post("/write", &snappy(&msg));
                    }
                    if !s.read_any(&msg, what) {
                        return;
                    }
                }
                // deeply nested groups
                let deep = vec![*r.pick(&[0x0bu8, 0x13]); 50_000];
                let _ = s.srv.post(if r.chance(1, 2) { "/write" } else { "/read" }, &snappy(&deep));
            }
            4 => {
                for _ in 0..14 {
                    let n = r.us(0, 4);
                    let good = r.pick(&s.sets).clone();
                    let mut l: Vec<(String, String)> = (0..n).map(|_| hostile_label(&mut r, &good)).collect();
                    if r.chance(1, 4) && !l.is_empty() {
                        l.push(l[0].clone())
                    }
                    if r.chance(1, 3) && !l.is_empty() {
                        let (k, _) = l[0].clone();
                        l.push((k, "other".into()))
                    }
                    let ts: Vec<(i64, f64)> = (0..r.us(0, 5))
                        .map(|_| (*r.pick(&[0, -1, i64::MIN, i64::MAX, s.base as i64 + 5, s.base as i64 + 4, s.base as i64 + 90_000_000, 1]), gen::value(&mut r)))
                        .collect();
                    let w = write_request(&[WireSeries { labels: l.clone(), samples: ts }]);
                    ctx.eval(&(i, what, &w), true);
                    let _ = s.srv.post("/write", &snappy(&w));
                    let _ = s.srv.read(&[query_eq(&l, 0, i64::MAX)]);
                }
            }
            5 => {
                for _ in 0..12 {
                    let good = r.pick(&s.sets).clone();
                    let n = *r.pick(&[0usize, 1, 2, 30]);
                    let qs: Vec<WireQuery> = (0..n)
                        .map(|_| WireQuery {
                            start: *r.pick(&[0, -1, i64::MIN, i64::MAX, s.base as i64]),
                            end: *r.pick(&[0, -1, i64::MIN, i64::MAX, s.base as i64 + 100]),
                            matchers: (0..r.us(0, 4))
                                .map(|_| {
                                    let (a, b) = hostile_label(&mut r, &good);
                                    (r.below(6), a, b)
                                })
                                .collect(),
                        })
                        .collect();
                    let b = read_request(&qs);
                    ctx.eval(&(i, what, &b), true);
                    let _ = s.srv.post("/read", &snappy(&b));
                }
            }
            6 => {
                for _ in 0..10 {
                    let body: Vec<u8> = (0..r.us(0, 40)).map(|_| r.next() as u8).collect();
                    let b = match r.below(14) {
                        0 => (0..r.us(1, 400)).map(|_| r.next() as u8).collect(),
                        1 => http("/write", "-5", &body),
                        2 => http("/write", "99999999999999999999999", &body),
                        3 => http("/write", "18446744073709551615", &body),
                        4 => http("/write", "abc", &body),
                        5 => format!("POST /write HTTP/1.1\r\nX: {}\r\n\r\n", "y".repeat(70_000)).into_bytes(),
                        6 => b"POST /write HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\nabc\r\n".to_vec(),
                        7 => b"POST /write HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc".to_vec(),
                        8 => b"PRI * HTTP/1.0\r\n\r\nSM\r\n\r\n".to_vec(),
                        9 => b"GET /read\r\n\r\n".to_vec(),
                        10 => b"POST /write HTTP/1.1\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n".to_vec(),
                        11 => b"DELETE /write HTTP/0.9\r\nContent-Length: 0\r\n\r\n".to_vec(),
                        12 => b"\r\n\r\n\r\n".to_vec(),
                        _ => [http("/write", &body.len().to_string(), &body), http("/read", "3", b"abc"), b"junk\r\n".to_vec()].concat(),
                    };
                    ctx.eval(&(i, what, &b), true);
                    s.raw(&b, r.chance(1, 2));
                }
            }
            7 => {
                let (mark, w) = s.marked(&mut r, 3);
                let body = snappy(&write_request(&w));
                let all = http("/write", &body.len().to_string(), &body);
                let step = (all.len() / 40).max(1);
                for n in (0..all.len()).step_by(step) {
                    ctx.eval(&(i, what, &all[..n]), true);
                    s.raw(&all[..n], false);
                }
                ctx.count("connections_dropped", (all.len() / step) as u64);
                // one whose answer nobody reads
                let big = http("/read", &{ snappy(&read_request(&[query_eq(&[("zz_good".into(), "1".into())], 0, i64::MAX)])).len().to_string() }, &snappy(&read_request(&[query_eq(&[("zz_good".into(), "1".into())], 0, i64::MAX)])));
                s.raw(&big, false);
                sleep_ms(30);
                if let Err(x) = s.mark_is_absent(&mark) {
                    s.bad("cut-but-stored", json!({"request": what, "what": x}));
                    return;
                }
            }
            8 => {
                for _ in 0..8 {
                    let (mark, w) = s.marked(&mut r, 1);
                    let p = *r.pick(&["/", "/write/", "/write?a=b", "//write", "/WRITE", "/readx", "/writ", "*", "/%77rite", "/api/v1/write", "/read/../write"]);
                    let body = snappy(&write_request(&w));
                    ctx.eval(&(i, what, p), true);
                    match s.srv.post(p, &body) {
                        Ok((c, _)) if c >= 400 => {}
                        o => {
                            s.bad("wrong-path-served", json!({"path": p, "answer": format!("{:?}", o.map(|x| x.0))}));
                            return;
                        }
                    }
                    if let Err(x) = s.mark_is_absent(&mark) {
                        s.bad("wrong-path-stored", json!({"path": p, "what": x}));
                        return;
                    }
                }
            }
            9 => {
                for _ in 0..6 {
                    // an announced decompressed size, or field length, far beyond what is there
                    let mut b = vec![];
                    let n = *r.pick(&[1u64 << 20, 1 << 28, (1 << 31) - 1, u32::MAX as u64]);
                    if r.chance(1, 3) {
                        varint(&mut b, n.min(1 << 28));
                        b.extend_from_slice(&[0, 1, 2, 3]);
                    } else {
                        let mut m = vec![];
                        tag(&mut m, 1, 2);
                        varint(&mut m, *r.pick(&[n, u64::MAX, 1 << 63, i64::MAX as u64]));
                        m.extend_from_slice(&[0x0a, 0x05, 0x0a]);
                        varint(&mut m, n);
                        m.extend_from_slice(b"abc");
                        b = snappy(&m);
                    }
                    if !s.must_refuse(&b, "", what) {
                        return;
                    }
                    match s.srv.post("/read", &b) {
                        Ok((c, _)) if c >= 400 => {}
                        o => {
                            s.bad("answered-undecodable", json!({"request": what, "body": show_bytes(&b), "answer": format!("{:?}", o.map(|x| x.0))}));
                            return;
                        }
                    }
                }
            }
            _ => {
                for _ in 0..6 {
                    let (mark, _) = s.marked(&mut r, 1);
                    // a good series, then one with text that is not UTF-8
                    let mut m = write_request(&[WireSeries { labels: vec![("hh_mark".into(), mark.clone())], samples: vec![(s.base as i64 + 1, 1.0)] }]);
                    let mut l = vec![];
                    bytes(&mut l, 1, if r.chance(1, 2) { b"\xff\xfe" } else { b"ok" });
                    bytes(&mut l, 2, b"\xc3\x28");
                    let mut ser = vec![];
                    bytes(&mut ser, 1, &l);
                    bytes(&mut m, 1, &ser);
                    if !s.must_refuse(&snappy(&m), &mark, what) {
                        return;
                    }
                }
            }
        }
        if !s.good(&mut r, what) {
            return;
        }
        if ctx.stop() {
            return;
        }
    }
    // everything at once, and the good client in between
    let stop = std::sync::atomic::AtomicBool::new(false);
    let port_srv = &s.srv;
    let seeds: Vec<u64> = (0..3).map(|_| r.next()).collect();
    let mut r2 = Rng::new(r.next());
    let mut ok = true;
    let mut m = s.m.clone();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for sd in &seeds {
            let stop = &stop;
            let sets = &s.sets;
            hs.push(sc.spawn(move || {
                let mut r = Rng::new(*sd);
                let mut n = 0;
                while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    let good = r.pick(sets).clone();
                    let l: Vec<(String, String)> = (0..3).map(|_| hostile_label(&mut r, &good)).collect();
                    let w = write_request(&[WireSeries { labels: l, samples: vec![(now_ms() as i64 + 100, 1.0)] }]);
                    let w = if r.chance(1, 2) { mutate(&mut r, &w) } else { w };
                    let mut b = snappy(&w);
                    if r.chance(1, 4) {
                        b.truncate(b.len() / 2)
                    }
                    let all = http("/write", &b.len().to_string(), &b);
                    let cut = if r.chance(1, 3) { r.us(0, all.len()) } else { all.len() };
                    if let Ok(mut c) = port_srv.connect() {
                        let _ = c.set_read_timeout(Some(Duration::from_millis(200)));
                        let _ = c.write_all(&all[..cut]);
                        if cut == all.len() {
                            let _ = read_response(&mut c);
                        }
                    }
                    n += 1;
                }
                n
            }));
        }
        for k in 0..ctx.n(15, 60) {
            let l = r2.pick(&s.sets).clone();
            let p = (s.base + s.next + 10 + k, k as f64);
            let w = s.srv.write(&[wire(&l, &[p])]);
            if !matches!(w, Ok(200)) {
                s.bad("good-write", json!({"after": "hostile traffic at the same time", "answer": format!("{:?}", w)}));
                ok = false;
                break;
            }
            m.accept(&l, p);
            let q: LabelSet = vec![("zz_good".into(), "1".into())];
            match s.srv.read(&[query_eq(&q, 0, i64::MAX)]) {
                Ok((200, g)) if g.len() == 1 => {
                    if let Err(x) = compare(&m.expect(&q, 0, u64::MAX), &qout(&g[0])) {
                        s.bad(&format!("good-read:{}", x.class), json!({"after": "hostile traffic at the same time", "what": x.what}));
                        ok = false;
                        break;
                    }
                }
                o => {
                    s.bad("good-read", json!({"after": "hostile traffic at the same time", "answer": format!("{:?}", o)}));
                    ok = false;
                    break;
                }
            }
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        for h in hs {
            ctx.count("hostile_requests_at_the_same_time", h.join().unwrap_or(0));
        }
    });
    s.m = m;
    s.next += 100;
    if !ok || !s.good(&mut r, "hostile traffic at the same time") {
        return;
    }
    // nothing keeps the dropped connections
    let t0 = std::time::Instant::now();
    let mut f = fds(&s.srv);
    while f > fds0 + 40 && t0.elapsed().as_secs() < 20 {
        sleep_ms(200);
        f = fds(&s.srv);
    }
    if f > fds0 + 40 {
        s.bad("connections-kept", json!({"open_files_at_first": fds0, "open_files_at_last": f}));
    }
    let log = std::fs::read_to_string(&s.log).unwrap_or_default();
    ctx.count("worker_panics_logged_by_servers", log.matches("panicked").count() as u64);
    ctx.count("servers", 1);
    if i < 3 {
        ctx.sample(json!({"server": s.place, "workers": workers, "rounds": rounds, "good_samples": s.m.points()}));
    }
    rm_rf(&top);
}

fn fds(s: &Server) -> usize {
    std::fs::read_dir(format!("/proc/{}/fd", s.child.id())).map(|d| d.count()).unwrap_or(0)
}
