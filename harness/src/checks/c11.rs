//! C11: clients that stall hold up nobody but themselves.
use super::c09::{qout, tikv_args};
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::io::Write;
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C11",
    level: "exploration",
    rule: "one evaluation = one request of a well-behaved client to the real server binary while up to workers-1 other clients are stalled (before, in \
           or after their request, or not reading a large answer) and others are idle: it must be answered, correctly, within 20 s; and one request of a \
           stalled client that goes on; non-trivial = at least one client was stalled; distinct by (server, round, step)",
    assumptions: &["20 s is far beyond the time an unhindered request takes (milliseconds)"],
    run,
};
const LIMIT: Duration = Duration::from_secs(20);

fn run(ctx: &Ctx) {
    let n = ctx.n(14, 110);
    parallel(7, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
    ctx.count("connections_left_waiting", LEFT_WAITING.load(Ordering::SeqCst));
    bursts(ctx);
}

/// Clients that connect at the same moment, all but the last of which stall.
///
/// The HTTP library may leave the last one in its queue until any connection ends: a known finding, `burst:left-waiting`.
fn bursts(ctx: &Ctx) {
    let path = |n: u64| ctx.dir(&format!("c11b{}", n)).join("db");
    let t0 = Instant::now();
    for n in 0.. {
        // some tens of seconds, so that the known finding shows also on a busy machine
        if ctx.stop() || n >= ctx.n(12, 24) && t0.elapsed() > Duration::from_secs(40) {
            return;
        }
        let dir = path(n);
        std::fs::create_dir_all(&dir).unwrap();
        let srv = match Server::start(&dir, &Opts { workers: Some(64), ..Opts::default() }) {
            Ok(s) => s,
            Err(e) => return ctx.violation("burst:start", json!({"what": e})),
        };
        sleep_ms(50);
        for size in [8u64, 16, 32, 60] {
            ctx.beat();
            let body = snappy(&read_request(&[query_eq(&[("a".into(), "1".into())], 0, 1)]));
            let all = message(&srv.read_path, &body);
            let before = LEFT_WAITING.load(Ordering::SeqCst);
            let stalled: Vec<_> = (1..size).filter_map(|_| TcpStream::connect(("127.0.0.1", srv.port)).ok()).collect();
            let t0 = Instant::now();
            let res = srv.connect().and_then(|mut s| {
                s.set_read_timeout(Some(LIMIT)).unwrap();
                s.write_all(&all).map_err(|e| e.to_string())?;
                read_response(&mut s)
            });
            ctx.eval(&("burst", n, size), true);
            ctx.count("bursts", 1);
            let d = json!({"clients_at_once": size, "stalled": stalled.len(), "answer_after_ms": t0.elapsed().as_millis() as u64, "answer": format!("{:?}", res.as_ref().map(|x| x.0))});
            if !matches!(res, Ok((200, _))) {
                return ctx.violation("burst:held-up", d);
            }
            if LEFT_WAITING.load(Ordering::SeqCst) > before {
                ctx.violation("burst:left-waiting", d);
                return;
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Stall {
    Connected,
    Head,
    SmallBody,
    LargeBody,
    HugeBody,
    Chunked,
    NotReading,
}
struct Stalled {
    s: TcpStream,
    how: Stall,
    rest: Vec<u8>,
    /// what its write stores once it is complete
    writes: Option<(LabelSet, Pt)>,
}

struct S<'a> {
    ctx: &'a Ctx,
    srv: Server,
    place: String,
    case: u64,
    base: u64,
    next: u64,
    sets: Vec<LabelSet>,
    big: LabelSet,
    m: Model,
    rotating: bool,
}
impl S<'_> {
    fn bad(&self, class: &str, d: serde_json::Value) {
        self.ctx.violation(&format!("{}:{}", self.place, class), json!({"where": self.place, "case": self.case, "detail": d}))
    }
    fn ts(&mut self) -> u64 {
        self.next += 1;
        if self.rotating {
            now_ms()
        } else {
            self.base + self.next
        }
    }
    fn timed<T>(&self, f: impl FnOnce(&mut TcpStream) -> Result<T, String>) -> Result<(T, Duration), String> {
        let t0 = Instant::now();
        let mut s = self.srv.connect()?;
        s.set_read_timeout(Some(LIMIT)).unwrap();
        s.set_write_timeout(Some(LIMIT)).unwrap();
        let r = f(&mut s).map_err(|e| format!("{} after {:?}", e, t0.elapsed()))?;
        Ok((r, t0.elapsed()))
    }
    fn good(&mut self, r: &mut Rng, tag: (u64, u64), stalled: &[Stalled], idle: usize) -> bool {
        let how: Vec<Stall> = stalled.iter().map(|s| s.how).collect();
        self.ctx.eval(&(self.case, tag, "write"), !how.is_empty());
        let l = r.pick(&self.sets).clone();
        let ts = self.ts();
        let p = (ts, ts as f64);
        let d = |w: String| json!({"stalled": format!("{:?}", how), "idle": idle, "what": w});
        let body = snappy(&write_request(&[wire(&l, &[p])]));
        let path = self.srv.write_path.clone();
        match self.timed(|s| send(s, &path, &body)) {
            Ok(((200, _), t)) => {
                self.ctx.max("max_milliseconds_of_a_good_request", t.as_millis() as u64);
                self.m.accept(&l, p);
            }
            o => {
                self.bad("write-held-up", d(format!("{:?}", o.map(|x| (x.0 .0, x.1)))));
                return false;
            }
        }
        self.ctx.eval(&(self.case, tag, "read"), !how.is_empty());
        let q: LabelSet = vec![("zz_good".into(), "1".into())];
        let body = snappy(&read_request(&[query_eq(&q, 0, i64::MAX)]));
        let path = self.srv.read_path.clone();
        match self.timed(|s| send(s, &path, &body)) {
            Ok(((200, b), t)) => {
                self.ctx.max("max_milliseconds_of_a_good_request", t.as_millis() as u64);
                if self.rotating {
                    return true;
                }
                match parse_answer(200, &b) {
                    Ok((_, g)) if g.len() == 1 => {
                        if let Err(x) = compare(&self.m.expect(&q, 0, u64::MAX), &qout(&g[0])) {
                            self.bad(&format!("read:{}", x.class), d(x.what));
                            return false;
                        }
                    }
                    o => {
                        self.bad("read-answer", d(format!("{:?}", o.map(|x| x.0))));
                        return false;
                    }
                }
            }
            o => {
                self.bad("read-held-up", d(format!("{:?}", o.map(|x| (x.0 .0, x.1)))));
                return false;
            }
        }
        true
    }
    fn stall(&mut self, r: &mut Rng, how: Stall) -> Option<Stalled> {
        let mut s = self.srv.connect().ok()?;
        s.set_read_timeout(Some(LIMIT)).unwrap();
        let mut l = r.pick(&self.sets).clone();
        l.push(("zz_stalled".into(), self.next.to_string()));
        if how == Stall::LargeBody || how == Stall::Chunked {
            // beyond what the HTTP layer reads ahead
            l.push(("zz_filler".into(), (0..4000).map(|_| (b'a' + r.below(26) as u8) as char).collect()));
        }
        l.retain(|p| p.0 != "zz_good");
        let l = gen::normal(l);
        let ts = self.ts();
        let p = (ts, 2.5);
        let (all, cut) = match how {
            Stall::NotReading => {
                let body = snappy(&read_request(&[query_eq(&self.big, 0, i64::MAX)]));
                let all = message(&self.srv.read_path, &body);
                let n = all.len();
                (all, n)
            }
            Stall::Chunked => {
                let body = snappy(&write_request(&[wire(&l, &[p])]));
                let mut all = format!("POST {} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", self.srv.write_path).into_bytes();
                let half = body.len() / 2;
                for c in [&body[..half], &body[half..]] {
                    all.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                    all.extend_from_slice(c);
                    all.extend_from_slice(b"\r\n");
                }
                all.extend_from_slice(b"0\r\n\r\n");
                let n = all.len();
                (all, n - r.us(1, n - 130))
            }
            _ => {
                let mut samples = vec![p];
                if how == Stall::HugeBody {
                    // megabytes, most of which is outside of the window and dropped
                    samples.extend((0..r.range(80_000, 300_000)).map(|k| (k + 1, f64::from_bits(r.next() >> 2))));
                }
                let body = snappy(&write_request(&[wire(&l, &samples)]));
                self.ctx.max("largest_stalled_body", body.len() as u64);
                let all = message(&self.srv.write_path, &body);
                let head = all.len() - body.len();
                let cut = match how {
                    Stall::Connected => 0,
                    Stall::Head => r.us(1, head - 1),
                    Stall::HugeBody => r.us(head, head + 100_000),
                    _ => r.us(head, all.len() - 1),
                };
                (all, cut)
            }
        };
        s.write_all(&all[..cut]).ok()?;
        self.ctx.count(&format!("stalled_{:?}", how), 1);
        Some(Stalled { s, how, rest: all[cut..].to_vec(), writes: if how == Stall::NotReading { None } else { Some((l, p)) } })
    }
}

fn message(path: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", path, body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}
fn send(s: &mut TcpStream, path: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
    s.write_all(&message(path, body)).map_err(|e| e.to_string())?;
    read_response(s)
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("case", i);
    let kind = REAL[(i % 4) as usize];
    let rotating = i % 5 == 3;
    let top = ctx.dir("c11");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let extra = tikv_args(&top, &mut r, kind);
    let workers = [2usize, 4, 1, 8, 3, 2, 6][(i % 7) as usize];
    let place = format!("server:{}", kind.name());
    let srv = match Server::start(&dir, &Opts { storage: st, indexer: ix, chunk_size: if rotating { 2 } else { 86_400 }, workers: Some(workers), extra, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let mut sets = gen::population(&mut r, 4, 3, true);
    for x in sets.iter_mut() {
        x.push(("zz_good".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    let mut s = S {
        ctx,
        srv,
        place,
        case: i,
        base: now_ms() + 1000,
        next: 0,
        sets,
        big: vec![("zz_big".into(), "1".into())],
        m: Default::default(),
        rotating,
    };
    // an answer that does not fit into the connection's buffers
    for k in 0..10 {
        let ts = s.ts();
        let v: Vec<WireSeries> = (0..10)
            .map(|j| {
                let filler: String = (0..90_000).map(|_| (33 + r.below(90) as u8) as char).collect();
                wire(&[("zz_big".into(), "1".into()), ("zz_no".into(), format!("{}", k * 10 + j)), ("zz_filler".into(), filler)], &[(ts, 1.0)])
            })
            .collect();
        match s.srv.write(&v) {
            Ok(200) => {}
            o => return s.bad("big-write", json!({"what": format!("{:?}", o)})),
        }
        ctx.beat();
    }
    let kinds = [Stall::LargeBody, Stall::NotReading, Stall::HugeBody, Stall::Chunked, Stall::SmallBody, Stall::Head, Stall::Connected];
    let rounds = if rotating { 3 } else { ctx.n(8, 16) };
    let mut idle: Vec<Conn> = vec![];
    for round in 0..rounds {
        if r.chance(1, 3) && idle.len() < 40 {
            // idle connections, on which a request was answered
            for _ in 0..r.us(1, 12) {
                if let Ok(mut c) = Conn::open(&s.srv) {
                    if c.read(&s.srv, &[query_eq(&[("zz_none".into(), "1".into())], 0, 1)], false).is_ok() {
                        idle.push(c)
                    }
                }
            }
            ctx.max("max_idle_connections", idle.len() as u64);
        }
        let n = if workers == 1 { 0 } else if r.chance(2, 3) { workers - 1 } else { r.us(1, workers - 1) };
        let mut stalled = vec![];
        let uniform = if r.chance(1, 2) { Some(*r.pick(&kinds[..4])) } else { None };
        for _ in 0..n {
            let how = uniform.unwrap_or_else(|| *r.pick(&kinds));
            if let Some(x) = s.stall(&mut r, how) {
                stalled.push(x)
            }
        }
        ctx.max("max_stalled_clients", stalled.len() as u64);
        sleep_ms(if rotating { 50 } else { 30 });
        let t0 = Instant::now();
        let mut k = 0;
        while k < 3 || (rotating && t0.elapsed().as_millis() < 2600) {
            if !s.good(&mut r, (round, k), &stalled, idle.len()) {
                return;
            }
            if rotating {
                sleep_ms(60)
            }
            k += 1;
        }
        // some go on, some go away
        for mut x in stalled {
            if r.chance(1, 2) {
                let _ = x.s.shutdown(Shutdown::Both);
                ctx.count("stalled_clients_that_went_away", 1);
                continue;
            }
            ctx.eval(&(i, round, x.how, x.rest.len(), "goes on"), true);
            ctx.count("stalled_clients_that_went_on", 1);
            let res = x.s.write_all(&x.rest).map_err(|e| e.to_string()).and_then(|_| read_response(&mut x.s));
            match (res, &x.writes) {
                (Ok((200, b)), None) => match parse_answer(200, &b) {
                    Ok((_, g)) if g.len() == 1 && (g[0].len() == 100 || rotating) => {}
                    o => return s.bad("late-answer", json!({"how": format!("{:?}", x.how), "what": format!("{:?}", o.map(|x| x.1.iter().map(|y| y.len()).collect::<Vec<_>>()))})),
                },
                (Ok((200, _)), Some((l, p))) => {
                    if !rotating {
                        match s.srv.read(&[query_eq(l, 0, i64::MAX)]) {
                            Ok((200, g)) if g.len() == 1 && qout(&g[0]).iter().any(|y| &y.0 == l && y.1.iter().any(|z| z.0 == p.0)) => {}
                            o => return s.bad("late-write-lost", json!({"how": format!("{:?}", x.how), "what": format!("{:?}", o)})),
                        }
                    }
                }
                (o, _) => return s.bad("late-refused", json!({"how": format!("{:?}", x.how), "what": format!("{:?}", o.map(|x| x.0))})),
            }
        }
    }
    if !s.srv.alive() {
        return s.bad("server-ended", json!({}));
    }
    ctx.count("servers", 1);
    if i < 3 {
        ctx.sample(json!({"server": s.place, "workers": workers, "rounds": rounds, "rotating": rotating}));
    }
    rm_rf(&top);
}
