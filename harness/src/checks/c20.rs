//! C20: databases and chunks that share a TiKV cluster are independent.
use super::c09::qout;
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::{Opts, Server};
use crate::mem::Shared;
use crate::model::*;
use crate::proto::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::{Arc, Barrier};
use std::time::Duration;
use tikv_client::stub::{self, OpKind};

pub const SPEC: Spec = Spec {
    id: "C20",
    level: "exploration",
    rule: "one evaluation = one query of one database (or chunk, or server) out of several that share a TiKV cluster, compared exactly with what was \
           written to that one, or one operation whose keys in the cluster are compared with those that the others wrote; non-trivial = the others \
           hold series with the same label sets; distinct by (group, database, query or operation)",
    assumptions: &["TiKV is a stand-in; between processes its contents are shared through files", "a copy of a database's directory is the same database"],
    run,
};

fn sets(r: &mut Rng, n: usize) -> Vec<LabelSet> {
    let mut s = gen::population(r, n, 3, false);
    for x in s.iter_mut() {
        x.push(("zz_all".into(), "1".into()));
        *x = gen::normal(x.clone());
    }
    s.push(vec![("zz_all".into(), "1".into())]);
    s
}
fn all() -> LabelSet {
    vec![("zz_all".into(), "1".into())]
}

/// Who wrote which key.
#[derive(Default)]
struct Owners(HashMap<Vec<u8>, usize>);
impl Owners {
    fn note(&mut self, ctx: &Ctx, place: &str, who: usize, what: &str, log: &[stub::OpRecord]) {
        for o in log {
            match o.kind {
                OpKind::Get => {
                    if let Some(w) = self.0.get(&o.key) {
                        if *w != who {
                            ctx.violation(
                                &format!("{}:reads-others-key", place),
                                json!({"where": place, "operation": what, "of": who, "key": show_bytes(&o.key), "written_by": w}),
                            );
                        }
                    }
                }
                _ => {
                    let w = *self.0.entry(o.key.clone()).or_insert(who);
                    if w != who {
                        ctx.violation(
                            &format!("{}:writes-others-key", place),
                            json!({"where": place, "operation": what, "of": who, "key": show_bytes(&o.key), "written_by": w}),
                        );
                    }
                }
            }
        }
    }
}

fn run(ctx: &Ctx) {
    parallel(8, ctx.n(60, 800), |i| {
        if !ctx.stop() {
            chunks(ctx, i)
        }
    });
    parallel(8, ctx.n(4, 12), |i| {
        if !ctx.stop() {
            crowd(ctx, i)
        }
    });
    parallel(8, ctx.n(40, 400), |i| {
        if !ctx.stop() {
            databases(ctx, i)
        }
    });
    parallel(8, ctx.n(16, 160), |i| {
        if !ctx.stop() {
            concurrent(ctx, i)
        }
    });
    parallel(4, ctx.n(4, 32), |i| {
        if !ctx.stop() {
            servers(ctx, i)
        }
    });
}

/// Chunks with the same window and the same series.
fn chunks(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("chunks", i);
    let kind = [Kind::TikvTikv, Kind::TikvTikv, Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled][(i % 5) as usize];
    let place = format!("chunks:{}", kind.name());
    let cl = format!("c20c-{}", i);
    let cluster = stub::cluster(&cl);
    let sh = Arc::new(Shared::default());
    let n = if kind == Kind::TikvTikv { r.us(2, 12) } else { 2 };
    let mut own = Owners::default();
    let mut cs = vec![];
    for w in 0..n {
        let d = ctx.dir("c20");
        cluster.start_log();
        let c = guard(|| open_chunk(kind, &d, 0, 1 << 40, &cl, &sh));
        own.note(ctx, &place, w, "creation", &cluster.take_log());
        match c {
            Ok(Ok(c)) => cs.push((c, Model::default(), d)),
            o => return ctx.violation(&format!("{}:open", place), json!(format!("{:?}", o.err()))),
        }
    }
    let pop = sets(&mut r, 5);
    let mut ts = 100;
    for step in 0..n * 14 {
        let w = r.below(n as u64) as usize;
        ts += r.below(2) + 1;
        let l = r.pick(&pop).clone();
        let p = (ts, gen::value(&mut r));
        cluster.start_log();
        let res = guard(|| cs[w].0.insert(&l, p));
        own.note(ctx, &place, w, "write", &cluster.take_log());
        match res {
            Ok(Ok(())) => cs[w].1.accept(&l, p),
            o => return ctx.violation(&format!("{}:write", place), json!({"case": i, "what": format!("{:?}", o)})),
        }
        if r.chance(1, 3) {
            let q = r.below(n as u64) as usize;
            let m = if r.chance(1, 2) { all() } else { l };
            cluster.start_log();
            let res = guard(|| cs[q].0.query(&m, 0, u64::MAX));
            own.note(ctx, &place, q, "query", &cluster.take_log());
            ctx.eval(&(i, "chunk", q, step), n > 1);
            match res {
                Ok(Ok(g)) => {
                    if let Err(x) = compare(&cs[q].1.expect(&m, 0, u64::MAX), &g) {
                        return ctx.violation(&format!("{}:{}", place, x.class), json!({"where": place, "case": i, "chunks": n, "what": x.what}));
                    }
                }
                o => return ctx.violation(&format!("{}:query", place), json!({"case": i, "what": format!("{:?}", o)})),
            }
        }
    }
    for (q, (c, m, _)) in cs.iter().enumerate() {
        ctx.eval(&(i, "chunk-at-last", q), n > 1);
        match guard(|| c.query(&all(), 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(&all(), 0, u64::MAX), &g) {
                    ctx.violation(&format!("{}:{}", place, x.class), json!({"where": place, "case": i, "chunks": n, "what": x.what}));
                }
            }
            o => ctx.violation(&format!("{}:query", place), json!({"case": i, "what": format!("{:?}", o)})),
        }
    }
    ctx.count("keys_attributed", own.0.len() as u64);
    ctx.count("chunks_that_share_a_cluster", n as u64);
    cluster.clear();
    for c in cs {
        drop(c.0);
        rm_rf(&c.2);
    }
}

/// So many chunks that short identifiers would meet.
fn crowd(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("crowd", i);
    let cl = format!("c20m-{}", i);
    let cluster = stub::cluster(&cl);
    let sh = Arc::new(Shared::default());
    let place = "crowd".to_string();
    let dir = ctx.dir("c20m");
    let n = ctx.n(2500, 8000) as usize;
    let mut own = Owners::default();
    let mut cs = vec![];
    let l = all();
    for w in 0..n {
        cluster.start_log();
        let p = (100 + r.below(1000), w as f64);
        let c = guard(|| {
            let c = open_chunk(Kind::TikvTikv, &dir, 0, 1 << 40, &cl, &sh)?;
            c.insert(&l, p).map(|_| c)
        });
        own.note(ctx, &place, w, "creation and first write", &cluster.take_log());
        if ctx.has_violation() {
            return;
        }
        match c {
            Ok(Ok(c)) => cs.push((c, p)),
            o => return ctx.violation(&format!("{}:open", place), json!({"case": i, "chunk": w, "what": format!("{:?}", o.err())})),
        }
        ctx.beat();
    }
    for (w, (c, p)) in cs.iter().enumerate() {
        ctx.eval(&(i, "crowd", w), true);
        let mut m = Model::default();
        m.accept(&l, *p);
        match guard(|| c.query(&l, 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&m.expect(&l, 0, u64::MAX), &g) {
                    return ctx.violation(&format!("{}:{}", place, x.class), json!({"case": i, "chunks": n, "of": w, "what": x.what}));
                }
            }
            o => return ctx.violation(&format!("{}:query", place), json!({"case": i, "what": format!("{:?}", o)})),
        }
    }
    ctx.count("keys_attributed", own.0.len() as u64);
    ctx.max("most_chunks_in_a_cluster", n as u64);
    cluster.clear();
    rm_rf(&dir);
}

/// Databases, one operation at a time, so that every key has an owner.
fn databases(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("databases", i);
    let cl = format!("c20d-{}", i);
    let cluster = stub::cluster(&cl);
    let sh = Arc::new(Shared::default());
    let n = r.us(2, 4);
    let top = ctx.dir("c20");
    let place = "databases".to_string();
    let mut own = Owners::default();
    let day = Duration::from_secs(86_400);
    // directories whose names resemble each other
    let names: Vec<PathBuf> = ["db", "db2", "x/db", "db/"].iter().take(n).map(|s| if *s == "db/" { top.join("y").join("db") } else { top.join(s) }).collect();
    struct D {
        db: Arc<dyn TDb>,
        m: Model,
        kind: Kind,
    }
    let mut ds: Vec<D> = vec![];
    let open = |own: &mut Owners, w: usize, kind: Kind, what: &str| -> Option<Arc<dyn TDb>> {
        cluster.start_log();
        let d = guard(|| {
            std::fs::create_dir_all(&names[w]).unwrap();
            open_db(kind, &names[w], day, &cl, &sh)
        });
        own.note(ctx, &place, w, what, &cluster.take_log());
        match d {
            Ok(Ok(d)) => Some(d),
            o => {
                ctx.violation(&format!("{}:open", place), json!({"case": i, "backends": kind.name(), "step": what, "what": format!("{:?}", o.err())}));
                None
            }
        }
    };
    for w in 0..n {
        let kind = *r.pick(&[Kind::TikvTikv, Kind::TikvTikv, Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled]);
        match open(&mut own, w, kind, "creation") {
            Some(db) => ds.push(D { db, m: Model::default(), kind }),
            None => return,
        }
    }
    let pop = sets(&mut r, 5);
    let mut ts = now_ms() + 60_000;
    let steps = 60;
    for step in 0..steps {
        let w = r.below(n as u64) as usize;
        match r.below(10) {
            0..=4 => {
                let l = r.pick(&pop).clone();
                let pts: Vec<Pt> = (0..r.us(1, 3))
                    .map(|_| {
                        ts += 1;
                        (ts, gen::value(&mut r))
                    })
                    .collect();
                cluster.start_log();
                let res = guard(|| ds[w].db.write(&l, &pts));
                own.note(ctx, &place, w, "write", &cluster.take_log());
                ctx.eval(&(i, "db-write", w, step), true);
                match res {
                    Ok(Ok(())) => pts.iter().for_each(|p| ds[w].m.accept(&l, *p)),
                    o => return ctx.violation(&format!("{}:write", place), json!({"case": i, "backends": ds[w].kind.name(), "what": format!("{:?}", o)})),
                }
            }
            5 if ds[w].kind == Kind::TikvTikv && r.chance(1, 3) => {
                // one of them is started anew
                match open(&mut own, w, Kind::TikvTikv, "restart") {
                    Some(db) => ds[w].db = db,
                    None => return,
                }
                ts = ts.max(now_ms() + 60_000);
                ctx.count("restarts", 1);
            }
            _ => {
                let l = r.pick(&pop).clone();
                let m = match r.below(3) {
                    0 => l,
                    1 => vec![r.pick(&l).clone()],
                    _ => all(),
                };
                cluster.start_log();
                let res = guard(|| ds[w].db.query(&m, 0, u64::MAX));
                own.note(ctx, &place, w, "query", &cluster.take_log());
                ctx.eval(&(i, "db", w, step), true);
                match res {
                    Ok(Ok(g)) => {
                        if let Err(x) = compare(&ds[w].m.expect(&m, 0, u64::MAX), &g) {
                            return ctx.violation(
                                &format!("{}:{}", place, x.class),
                                json!({"case": i, "databases": ds.iter().map(|d| d.kind.name()).collect::<Vec<_>>(), "of": w, "what": x.what}),
                            );
                        }
                    }
                    o => return ctx.violation(&format!("{}:query", place), json!({"case": i, "what": format!("{:?}", o)})),
                }
            }
        }
    }
    for w in 0..n {
        ctx.eval(&(i, "db-at-last", w), true);
        match guard(|| ds[w].db.query(&all(), 0, u64::MAX)) {
            Ok(Ok(g)) => {
                if let Err(x) = compare(&ds[w].m.expect(&all(), 0, u64::MAX), &g) {
                    ctx.violation(&format!("{}:{}", place, x.class), json!({"case": i, "of": w, "what": x.what}));
                }
            }
            o => ctx.violation(&format!("{}:query", place), json!({"case": i, "what": format!("{:?}", o)})),
        }
    }
    // no key of the cluster is without an owner
    for k in cluster.snapshot().keys() {
        if !own.0.contains_key(k) {
            ctx.violation(&format!("{}:stray-key", place), json!({"case": i, "key": show_bytes(k)}));
            break;
        }
    }
    ctx.count("keys_attributed", own.0.len() as u64);
    ctx.count("databases_that_share_a_cluster", n as u64);
    if i < 2 {
        ctx.sample(json!({"databases": ds.iter().map(|d| d.kind.name()).collect::<Vec<_>>(), "samples": ds.iter().map(|d| d.m.points()).collect::<Vec<_>>()}));
    }
    cluster.clear();
}

/// Databases created at the same instant, written and rotated concurrently.
fn concurrent(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("concurrent", i);
    let cl = format!("c20t-{}", i);
    let place = "concurrent".to_string();
    let n = r.us(2, 4);
    let sh = Arc::new(Shared::default());
    let rotate = i % 2 == 0;
    let size = Duration::from_millis(if rotate { r.range(150, 400) } else { 86_400_000 });
    let top = ctx.dir("c20");
    let pop = sets(&mut r, 5);
    let gate = Barrier::new(n);
    let gate2 = Barrier::new(n);
    std::thread::scope(|s| {
        for w in 0..n {
            let (pop, gate, gate2, top, cl, sh, place) = (&pop, &gate, &gate2, &top, &cl, &sh, &place);
            let mut r = ctx.rng("concurrent-db", i * 8 + w as u64);
            s.spawn(move || {
                let dir = top.join(w.to_string()).join("db");
                std::fs::create_dir_all(&dir).unwrap();
                let bad = |class: &str, d: J| ctx.violation(&format!("{}:{}", place, class), json!({"case": i, "database": w, "rotates": rotate, "detail": d}));
                gate.wait();
                let db = guard(|| open_db(Kind::TikvTikv, &dir, size, cl, sh));
                gate2.wait();
                let db = match db {
                    Ok(Ok(d)) => d,
                    o => return bad("open", json!(format!("{:?}", o.err()))),
                };
                let mut m = Model::default();
                let mut last = 0;
                for step in 0..if rotate { 150 } else { 100 } {
                    let ts = now_ms().max(last + 1);
                    last = ts;
                    let l = r.pick(pop).clone();
                    let p = (ts, f64::from_bits(((w as u64) << 32) | step)); // the value tells whose it is
                    match guard(|| db.write1(&l, p)) {
                        Ok(Ok(())) => m.accept(&l, p),
                        Ok(Err(E::OutOfRange)) => ctx.count("writes_out_of_window", 1),
                        o => return bad("write", json!(format!("{:?}", o))),
                    }
                    if r.chance(1, 4) {
                        let q = if r.chance(1, 2) { all() } else { l };
                        ctx.eval(&(i, "concurrent", w, step), true);
                        match guard(|| db.query(&q, 0, u64::MAX)) {
                            Ok(Ok(g)) => {
                                if let Err(x) = compare(&m.expect(&q, 0, u64::MAX), &g) {
                                    return bad(x.class, json!(x.what));
                                }
                            }
                            o => return bad("query", json!(format!("{:?}", o))),
                        }
                    }
                    if rotate {
                        sleep_ms(r.below(8));
                    }
                }
                // after a restart of each, still beside the others
                match guard(|| open_db(Kind::TikvTikv, &dir, Duration::from_secs(86_400), cl, sh)) {
                    Ok(Ok(d)) => {
                        ctx.eval(&(i, "concurrent-restart", w), true);
                        match guard(|| d.query(&all(), 0, u64::MAX)) {
                            Ok(Ok(g)) => {
                                if let Err(x) = compare(&m.expect(&all(), 0, u64::MAX), &g) {
                                    bad(&format!("restart:{}", x.class), json!(x.what));
                                }
                            }
                            o => bad("restart:query", json!(format!("{:?}", o))),
                        }
                    }
                    o => bad("restart:open", json!(format!("{:?}", o.err()))),
                }
                ctx.count("samples_written_concurrently", m.points() as u64);
            });
        }
    });
    rm_rf(&top);
    let _ = std::fs::write(&top, b""); // the instances that still rotate end up here
}

/// Server processes that share a cluster.
fn servers(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("servers", i);
    let top = ctx.dir("c20s");
    let f = top.join("tikv.yaml");
    std::fs::write(&f, "pd_endpoints: [\"10.0.0.1:2379\"]\n").unwrap();
    let place = "servers".to_string();
    let n = r.us(2, 3);
    let rotate = i % 2 == 1;
    let kinds: Vec<Kind> = (0..n).map(|w| if w < 2 { Kind::TikvTikv } else { *r.pick(&[Kind::SledTikv, Kind::TikvSled]) }).collect();
    let bad = |class: &str, d: J| ctx.violation(&format!("{}:{}", place, class), json!({"case": i, "backends": kinds.iter().map(|k| k.name()).collect::<Vec<_>>(), "detail": d}));
    let start = |w: usize, chunk: u64| {
        let (st, ix) = kinds[w].name().split_once('/').unwrap();
        let dir = top.join(format!("db{}", w));
        std::fs::create_dir_all(&dir).unwrap();
        Server::start(
            &dir,
            &Opts {
                storage: st,
                indexer: ix,
                chunk_size: chunk,
                extra: vec!["--tikv_config".into(), f.to_str().unwrap().into()],
                env: vec![("MON_TIKV_DIR".into(), top.to_str().unwrap().into())],
                ..Opts::default()
            },
        )
    };
    let pop = sets(&mut r, 5);
    let chunk = if rotate { 1 } else { 86_400 };
    let servers: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|w| s.spawn({ let start = &start; move || start(w, chunk) })).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // a server dies with the thread that started it: start them from this one
    drop(servers);
    let mut srv = vec![];
    for w in 0..n {
        match start(w, chunk) {
            Ok(s) => srv.push(s),
            Err(e) => return bad("start", json!(e)),
        }
    }
    let mut ms: Vec<Model> = vec![];
    let res: Vec<Option<Model>> = std::thread::scope(|s| {
        let hs: Vec<_> = srv
            .iter()
            .enumerate()
            .map(|(w, srv)| {
                let (pop, bad) = (&pop, &bad);
                let mut r = ctx.rng("servers-client", i * 8 + w as u64);
                s.spawn(move || {
                    let mut m = Model::default();
                    let mut last = 0;
                    for step in 0..if rotate { 220u64 } else { 80 } {
                        // with rotation a write is dropped silently between two windows: values are then checked one way only
                        let ts = now_ms().max(last + 1);
                        last = ts;
                        let l = r.pick(pop).clone();
                        let p = (ts, (w as f64) * 1e6 + step as f64);
                        match srv.write(&[wire(&l, &[p])]) {
                            Ok(c) if (200..300).contains(&c) => m.accept(&l, p),
                            o => {
                                bad("write", json!({"server": w, "answer": format!("{:?}", o)}));
                                return None;
                            }
                        }
                        if step % 6 == 5 {
                            let q = if r.chance(1, 2) { all() } else { l };
                            ctx.eval(&(i, "server", w, step), true);
                            if !look(ctx, srv, &q, &mut m, rotate, &|c, d| bad(c, json!({"server": w, "what": d}))) {
                                return None;
                            }
                        }
                        if rotate {
                            sleep_ms(r.below(20));
                        }
                    }
                    Some(m)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for m in res {
        match m {
            Some(m) => ms.push(m),
            None => return,
        }
    }
    for w in 0..n {
        if !look(ctx, &srv[w], &all(), &mut ms[w], rotate, &|c, d| bad(c, json!({"server": w, "what": d}))) {
            return;
        }
    }
    // one is killed and started again; the others go on
    srv[0].kill();
    match start(0, 86_400) {
        Ok(s) => srv[0] = s,
        Err(e) => return bad("restart", json!(e)),
    }
    for w in 0..n {
        ctx.eval(&(i, "server-restarted", w), true);
        look(ctx, &srv[w], &all(), &mut ms[w], false, &|c, d| bad(&format!("restarted:{}", c), json!({"server": w, "what": d})));
    }
    ctx.count("servers_that_share_a_cluster", n as u64);
    drop(srv);
    rm_rf(&top);
}

fn look(ctx: &Ctx, srv: &Server, q: &LabelSet, m: &mut Model, lossy: bool, bad: &dyn Fn(&str, String)) -> bool {
    let got = match srv.read(&[query_eq(q, 0, i64::MAX)]) {
        Ok((200, g)) if g.len() == 1 => qout(&g[0]),
        o => {
            bad("read", format!("{:?}", o));
            return false;
        }
    };
    let mut exp = m.expect(q, 0, u64::MAX);
    if lossy {
        // what is not there was dropped between two windows: forget it, within bounds
        let mut have: BTreeMap<&LabelSet, Vec<u64>> = BTreeMap::new();
        for (l, p) in &got {
            have.insert(l, p.iter().map(|x| x.0).collect());
        }
        let mut dropped = 0;
        for (l, v) in m.series.iter_mut() {
            if matches(l, q) {
                let n = v.len();
                v.retain(|p| have.get(l).map(|h| h.contains(&p.0)).unwrap_or(false));
                dropped += n - v.len();
            }
        }
        m.series.retain(|_, v| !v.is_empty());
        ctx.count("samples_dropped_between_windows", dropped as u64);
        exp = m.expect(q, 0, u64::MAX);
    }
    if let Err(x) = compare(&exp, &got) {
        bad(x.class, x.what);
        return false;
    }
    true
}
