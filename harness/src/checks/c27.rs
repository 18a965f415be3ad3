//! C27: any backend that implements the traits can be plugged in.
//!
//! Recording builders, storages and indexes are the monitor: every call the
//! database makes is logged, and each log is judged against the protocol of
//! the `Builder` trait.
use super::Spec;
use crate::backends::*;
use crate::chaos;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::mem::*;
use crate::model::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::Indexer;
use monolith::label::Labels;
use monolith::option::DbOpts;
use monolith::storage::Storage;
use monolith::time_point::TimePoint;
use monolith::utils::{decode_chunk_dir, encode_chunk_dir};
use monolith::{Builder, HasTypeName, MonolithDb, MonolithErr, Result};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const SPEC: Spec = Spec {
    id: "C27",
    level: "exploration",
    rule: "one evaluation = the judged log of one opening, one rotation or one phase of data calls of a database on recording backends, or one query compared \
           with the reference; non-trivial = existing chunks, an injected failure or a rotation was part of it; distinct by (case, part)",
    assumptions: &["the recording backends keep their data in memory", "a builder is asked for its part of a chunk by the chunk's directory or one below it"],
    run,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Op {
    Config,
    Read,
    Prepare,
    Build,
    Index,
    Store,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Side {
    Storage,
    Indexer,
}
const SIDES: [Side; 2] = [Side::Storage, Side::Indexer];

#[derive(Clone, Debug)]
struct Ev {
    op: Op,
    side: Side,
    /// the directory under the database's (or the one it was given, if it is none of these)
    dir: String,
    window: Option<(Option<u64>, Option<u64>)>,
    ident: Option<Vec<u8>>,
    /// (base_dir, chunk_size) of the database's options
    opts: Option<(PathBuf, Duration)>,
    /// series, timestamp
    data: (u64, u64),
    ok: bool,
    some: bool,
}

#[derive(Default)]
struct Log {
    base: PathBuf,
    ev: Mutex<Vec<Ev>>,
    /// fail the call of this kind, after so many of them
    fail: Mutex<Vec<(Side, Op, u64)>>,
    /// say that there is nothing in these
    hide: Mutex<BTreeSet<(Side, String)>>,
    shared: Arc<Shared>,
    over: AtomicBool,
    /// what a failing builder says
    kind: AtomicU64,
}
impl Log {
    fn new(base: &Path, shared: &Arc<Shared>) -> Arc<Log> {
        Arc::new(Log { base: base.into(), shared: shared.clone(), ..Default::default() })
    }
    fn name(&self, p: &Path) -> String {
        match p.strip_prefix(&self.base) {
            Ok(r) => r.components().next().map(|c| c.as_os_str().to_string_lossy().into_owned()).unwrap_or_default(),
            Err(_) => p.to_string_lossy().into_owned(),
        }
    }
    fn failing(&self, side: Side, op: Op) -> bool {
        if self.over.load(Ordering::SeqCst) && op == Op::Prepare {
            return true;
        }
        let mut f = self.fail.lock().unwrap();
        let mut hit = false;
        f.retain_mut(|x| {
            if x.0 != side || x.1 != op || hit {
                return true;
            }
            if x.2 == 0 {
                hit = true;
                return false;
            }
            x.2 -= 1;
            true
        });
        hit
    }
    fn put(&self, side: Side, op: Op, dir: &Path, c: Option<&ChunkOpts>, d: Option<&DbOpts>, ok: bool, some: bool) {
        if self.over.load(Ordering::SeqCst) {
            return;
        }
        self.ev.lock().unwrap().push(Ev {
            op,
            side,
            dir: self.name(dir),
            window: c.map(|c| (c.start_time, c.end_time)),
            ident: c.map(|c| c.identifier.clone()),
            opts: d.map(|d| (d.base_dir.clone(), d.chunk_size)),
            data: (0, 0),
            ok,
            some,
        });
    }
    fn data(&self, side: Side, op: Op, dir: &str, data: (u64, u64), ok: bool) {
        let mut e = self.ev.lock().unwrap();
        e.push(Ev { op, side, dir: dir.into(), window: None, ident: None, opts: None, data, ok, some: true });
    }
    fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.ev.lock().unwrap())
    }
}
fn injected() -> MonolithErr {
    MonolithErr::InternalErr("injected".into())
}
/// A builder may fail in any way.
fn any_error(n: u64) -> MonolithErr {
    match n % 5 {
        0 => MonolithErr::NotFoundErr,
        1 => MonolithErr::OutOfRangeErr(1, 2),
        2 => MonolithErr::OptionErr,
        3 => std::io::Error::from(std::io::ErrorKind::NotFound).into(),
        _ => injected(),
    }
}

struct RecStorage {
    m: MemStorage,
    dir: String,
    log: Arc<Log>,
}
struct RecIndexer {
    m: MemIndexer,
    dir: String,
    log: Arc<Log>,
}
impl HasTypeName for RecStorage {
    fn get_type_name() -> &'static str {
        "a storage of one's own"
    }
}
impl HasTypeName for RecIndexer {
    fn get_type_name() -> &'static str {
        "an \"index\" of one's own"
    }
}
impl Storage for RecStorage {
    fn write_time_point(&self, id: u64, t: u64, v: f64) -> Result<()> {
        let fail = self.log.failing(Side::Storage, Op::Store);
        let r = if fail { Err(injected()) } else { self.m.write_time_point(id, t, v) };
        self.log.data(Side::Storage, Op::Store, &self.dir, (id, t), r.is_ok());
        r
    }
    fn read_time_series(&self, id: u64, a: u64, b: u64) -> Result<Vec<TimePoint>> {
        self.m.read_time_series(id, a, b)
    }
}
impl Indexer for RecIndexer {
    fn get_series_metadata_contains_labels(&self, l: Labels) -> Result<Vec<(u64, Labels)>> {
        self.m.get_series_metadata_contains_labels(l)
    }
    fn get_series_id_contains_labels(&self, l: Labels) -> Result<Vec<u64>> {
        self.m.get_series_id_contains_labels(l)
    }
    fn get_series_id_by_labels(&self, l: Labels) -> Result<Option<u64>> {
        self.m.get_series_id_by_labels(l)
    }
    fn create_index(&self, l: Labels, id: u64) -> Result<()> {
        let fail = self.log.failing(Side::Indexer, Op::Index);
        let r = if fail { Err(injected()) } else { self.m.create_index(l, id) };
        self.log.data(Side::Indexer, Op::Index, &self.dir, (id, 0), r.is_ok());
        r
    }
}

struct SB(Arc<Log>);
struct IB(Arc<Log>);
macro_rules! builder {
    ($b:ident, $t:ident, $inner:ident, $side:expr) => {
        impl Builder<$t> for $b {
            fn build(&self, path: String, c: Option<&ChunkOpts>, d: Option<&DbOpts>) -> Result<$t> {
                chaos::point();
                let p = PathBuf::from(&path);
                let ok = !self.0.failing($side, Op::Build);
                self.0.put($side, Op::Build, &p, c, d, ok, true);
                if !ok {
                    return Err(any_error(self.0.kind.load(Ordering::SeqCst)));
                }
                let dir = self.0.name(&p);
                let m = $inner(self.0.shared.clone()).build(dir.clone(), c, d)?;
                Ok($t { m, dir, log: self.0.clone() })
            }
            fn write_to_chunk(&self, dir: &Path) -> Result<()> {
                let ok = !self.0.failing($side, Op::Prepare);
                self.0.put($side, Op::Prepare, dir, None, None, ok, true);
                if ok { Ok(()) } else { Err(any_error(self.0.kind.load(Ordering::SeqCst))) }
            }
            fn read_from_chunk(&self, dir: &Path, c: Option<&ChunkOpts>) -> Result<Option<$t>> {
                chaos::point();
                let name = self.0.name(dir);
                let ok = !self.0.failing($side, Op::Read);
                let hidden = self.0.hide.lock().unwrap().contains(&($side, name.clone()));
                let part = if $side == Side::Storage { "storage" } else { "indexer" };
                let m = if ok && !hidden { $inner(self.0.shared.clone()).read_from_chunk(&PathBuf::from(&name).join(part), c)? } else { None };
                self.0.put($side, Op::Read, dir, c, None, ok, m.is_some());
                if !ok {
                    return Err(any_error(self.0.kind.load(Ordering::SeqCst)));
                }
                Ok(m.map(|m| $t { m, dir: name, log: self.0.clone() }))
            }
            fn write_config(&self, dir: &Path) -> Result<()> {
                let ok = !self.0.failing($side, Op::Config);
                self.0.put($side, Op::Config, dir, None, None, ok, true);
                if ok { Ok(()) } else { Err(any_error(self.0.kind.load(Ordering::SeqCst))) }
            }
            fn read_config(&self, _: &Path) -> Result<()> {
                Ok(())
            }
        }
    };
}
builder!(SB, RecStorage, MemStorageBuilder, Side::Storage);
builder!(IB, RecIndexer, MemIndexerBuilder, Side::Indexer);

type Db = Arc<MonolithDb<RecStorage, RecIndexer>>;
fn open(log: &Arc<Log>, size: Duration) -> std::result::Result<Db, String> {
    match guard(|| MonolithDb::<RecStorage, RecIndexer>::new(db_opts(&log.base, size), Box::new(SB(log.clone())), Box::new(IB(log.clone())))) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(format!("panic: {}", p)),
    }
}
fn all() -> LabelSet {
    vec![("zz_all".into(), "1".into())]
}

/// A chunk that was there before.
struct Old {
    dir: String,
    window: (u64, u64),
    ident: Vec<u8>,
    data: Model,
}
fn make_old(log: &Arc<Log>, r: &mut Rng, sets: &[LabelSet], k: u64, base: u64) -> Old {
    let start = base + k * 100_000 + r.below(1000);
    let end = start + r.range(1, 90_000);
    let c = chunk_opts(start, end);
    let dir = encode_chunk_dir(start, end);
    c.write_config_to_dir(&log.base.join(&dir)).unwrap();
    let s = MemStorageBuilder(log.shared.clone()).build(dir.clone(), Some(&c), None).unwrap();
    let i = MemIndexerBuilder(log.shared.clone()).build(dir.clone(), Some(&c), None).unwrap();
    let chunk = Chunk::new(s, i, &c);
    let mut data = Model::default();
    for l in sets {
        if r.chance(1, 4) {
            continue;
        }
        let mut t = start;
        for _ in 0..r.us(1, 4) {
            let p = (t, unsigned(gen::value(r)));
            if p.0 > end {
                break;
            }
            chunk.insert(labels(l), TimePoint::new(p.0, p.1)).unwrap();
            data.accept(l, p);
            t += 1 + r.below(1000);
        }
    }
    Old { dir, window: (start, end), ident: c.identifier, data }
}

fn tell(ev: &[Ev]) -> J {
    json!(ev.iter().take(40).map(|e| format!("{:?} {:?} {} {:?} {}", e.side, e.op, e.dir, e.data, if e.ok { "" } else { "failed" })).collect::<Vec<_>>())
}

/// What the calls about each new chunk must look like; gives the ones both halves of which were built.
fn new_chunks(log: &Log, ev: &[Ev], size: Duration, idents: &mut BTreeSet<Vec<u8>>) -> std::result::Result<Vec<String>, (&'static str, String)> {
    let mut by: BTreeMap<&str, Vec<&Ev>> = BTreeMap::new();
    for e in ev.iter().filter(|e| matches!(e.op, Op::Prepare | Op::Build)) {
        by.entry(&e.dir).or_default().push(e);
    }
    let mut out = vec![];
    for (dir, es) in by {
        let builds: Vec<_> = es.iter().filter(|e| e.op == Op::Build).collect();
        if builds.is_empty() {
            continue;
        }
        let Ok((a, b)) = decode_chunk_dir(dir.to_string()) else {
            return Err(("directory", format!("{} is no chunk's directory", dir)));
        };
        for e in &builds {
            if e.window != Some((Some(a), Some(b))) {
                return Err(("window", format!("{:?} was built for {} with the window {:?}, not {:?}", e.side, dir, e.window, (a, b))));
            }
            if e.opts.as_ref() != Some(&(log.base.clone(), size)) {
                return Err(("options", format!("{:?} was built for {} with the options {:?}", e.side, dir, e.opts)));
            }
            if builds.iter().filter(|x| x.side == e.side).count() > 1 {
                return Err(("twice", format!("{:?} was built for {} twice", e.side, dir)));
            }
        }
        let done = |op: Op, s: Side| es.iter().any(|e| e.side == s && e.op == op && e.ok) && !es.iter().any(|e| e.side == s && e.op == op && !e.ok);
        // only one for which every step succeeded may be used
        if SIDES.iter().all(|s| done(Op::Prepare, *s) && done(Op::Build, *s)) {
            let have = ChunkOpts::read_config_from_dir(&log.base.join(dir)).ok().map(|c| c.identifier);
            for e in &builds {
                if e.ident != have {
                    return Err(("identifier", format!("{:?} was built for {} with the identifier {:?}, its metadata has {:?}", e.side, dir, e.ident, have)));
                }
            }
            if !idents.insert(have.unwrap_or_default()) {
                return Err(("identifier", format!("the identifier of {} is that of another chunk", dir)));
            }
            out.push(dir.to_string());
        }
    }
    Ok(out)
}

/// Data goes only where both halves were made for one chunk: what a storage is given was
/// indexed in the index of the same chunk, under its own identifier, once.
fn data_calls(ev: &[Ev], seen: &mut BTreeMap<String, BTreeMap<u64, bool>>, may: &[String]) -> std::result::Result<u64, (&'static str, String)> {
    let mut n = 0;
    for e in ev {
        match e.op {
            Op::Index => {
                if !may.contains(&e.dir) {
                    return Err(("stale", format!("a series was indexed in {}, which takes none", e.dir)));
                }
                if let Some(true) = seen.entry(e.dir.clone()).or_default().insert(e.data.0, e.ok) {
                    return Err(("identifier-twice", format!("{} was given to two series of {}", e.data.0, e.dir)));
                }
            }
            Op::Store => {
                n += 1;
                if !may.contains(&e.dir) {
                    return Err(("stale", format!("a sample was stored in {}, which takes none", e.dir)));
                }
                if seen.get(&e.dir).and_then(|m| m.get(&e.data.0)) != Some(&true) {
                    return Err(("unpaired", format!("the storage of {} was given a sample of series {}, which its index does not have", e.dir, e.data.0)));
                }
                let (a, b) = decode_chunk_dir(e.dir.clone()).unwrap_or((0, 0));
                if e.data.1 < a || e.data.1 > b {
                    return Err(("window", format!("the storage of {} was given a sample at {}", e.dir, e.data.1)));
                }
            }
            _ => {}
        }
    }
    Ok(n)
}

fn ask(db: &Db, m: &LabelSet, a: u64, b: u64) -> std::result::Result<QOut, String> {
    match guard(|| TDb::query(db, m, a, b)) {
        Ok(Ok(q)) => Ok(q),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p),
    }
}

fn sum<'a>(olds: impl Iterator<Item = &'a Old>, now: &Model) -> Model {
    let mut m = now.clone();
    for o in olds {
        for (l, v) in &o.data.series {
            v.iter().for_each(|p| m.accept(l, (p.0, f64::from_bits(p.1))));
        }
    }
    m
}

/// Openings: with existing chunks, with a builder's step failing, with one that has nothing.
fn openings(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("openings", i);
    let base = ctx.dir("c27");
    let shared = Arc::new(Shared::default());
    let log = Log::new(&base, &shared);
    let size = Duration::from_secs(r.range(3_000, 100_000));
    let bad = |class: &str, what: String, ev: &[Ev]| ctx.violation(&format!("opening:{}", class), json!({"case": i, "what": what, "calls": tell(ev)}));
    let sets: Vec<LabelSet> = gen::population(&mut r, 5, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let olds: Vec<Old> = (0..*r.pick(&[0u64, 1, 2, 2, 3, 5, 9])).map(|k| make_old(&log, &mut r, &sets, k, 1_500_000_000_000)).collect();
    let mut idents: BTreeSet<Vec<u8>> = olds.iter().map(|o| o.ident.clone()).collect();
    // things that are no chunks
    if r.chance(1, 2) {
        std::fs::write(base.join("notes.txt"), b"x").unwrap();
        std::fs::create_dir_all(base.join("lost+found")).unwrap();
        std::fs::create_dir_all(base.join(encode_chunk_dir(5, 7))).unwrap();
    }
    let mut now = Model::default();
    // the chunks made by earlier openings
    let mut mine: Vec<Old> = vec![];
    let lives = r.us(1, 4);
    for life in 0..lives {
        let there = (olds.len() + mine.len()) as u64;
        let mut fault = None;
        if r.chance(2, 3) {
            let side = *r.pick(&SIDES);
            let op = *r.pick(&[Op::Config, Op::Read, Op::Prepare, Op::Build]);
            let after = if op == Op::Read { r.below(there.max(1)) } else { 0 };
            if op != Op::Read || there > 0 {
                fault = Some((side, op, after));
            }
        }
        log.fail.lock().unwrap().clear();
        log.fail.lock().unwrap().extend(fault);
        log.kind.store(r.next(), Ordering::SeqCst);
        let hide: Vec<(Side, String)> = olds.iter().chain(&mine).filter_map(|o| if r.chance(1, 5) { Some((*r.pick(&SIDES), o.dir.clone())) } else { None }).collect();
        *log.hide.lock().unwrap() = hide.iter().cloned().collect();
        let hidden = |o: &&Old| !hide.iter().any(|h| h.1 == o.dir);
        log.take();
        let got = open(&log, size);
        let left = log.fail.lock().unwrap().len();
        let ev = log.take();
        ctx.eval(&(i, life, "opening"), there > 0 || fault.is_some());
        ctx.count("openings", 1);
        ctx.count("builder_calls", ev.len() as u64);
        if let Some(e) = ev.iter().find(|e| e.op == Op::Config && !e.dir.is_empty()) {
            return bad("config-directory", format!("{:?} was told to write its configuration to {}", e.side, e.dir), &ev);
        }
        // what an existing chunk is read with
        for e in ev.iter().filter(|e| e.op == Op::Read) {
            let (window, ident) = match olds.iter().chain(&mine).find(|o| o.dir == e.dir) {
                Some(o) => (o.window, o.ident.clone()),
                // one whose making was not finished
                None => match (decode_chunk_dir(e.dir.clone()), ChunkOpts::read_config_from_dir(&base.join(&e.dir))) {
                    (Ok(w), Ok(c)) => (w, c.identifier),
                    _ => return bad("read", format!("{:?} was asked for {}", e.side, e.dir), &ev),
                },
            };
            if e.window != Some((Some(window.0), Some(window.1))) {
                return bad("read-window", format!("{:?} was asked for {} with the window {:?}, not {:?}", e.side, e.dir, e.window, window), &ev);
            }
            if e.ident.as_ref() != Some(&ident) {
                return bad("read-identifier", format!("{:?} was asked for {} with the identifier {:?}, not {:?}", e.side, e.dir, e.ident, ident), &ev);
            }
        }
        let built = match new_chunks(&log, &ev, size, &mut idents) {
            Ok(b) => b,
            Err((c, w)) => return bad(c, w, &ev),
        };
        let db = match (got, fault) {
            (Err(e), None) => return bad("refused", e, &ev),
            (Err(e), Some(_)) if e.starts_with("panic") => return bad("panic", e, &ev),
            (Err(e), Some(f)) if left > 0 => return bad("refused", format!("{:?} was not called, and yet: {}", f, e), &ev),
            (Err(_), Some(f)) => {
                ctx.count(&format!("failed_{:?}_{:?}", f.0, f.1), 1);
                continue; // as it should be; the next opening must have everything
            }
            (Ok(_), Some(f)) if left == 0 => {
                log.over.store(true, Ordering::SeqCst);
                return bad("failure-ignored", format!("{:?} failed, the database opened nevertheless", f), &ev);
            }
            (Ok(_), Some(f)) if !(f.1 == Op::Read && !hide.is_empty()) => {
                return bad("not-called", format!("{:?} was not called", f), &ev);
            }
            (Ok(d), _) => d,
        };
        for s in SIDES {
            if !ev.iter().any(|e| e.side == s && e.op == Op::Config) {
                return bad("no-config", format!("{:?} was not told to write its configuration", s), &ev);
            }
        }
        for o in olds.iter().chain(&mine).filter(hidden) {
            for s in SIDES {
                let n = ev.iter().filter(|e| e.side == s && e.op == Op::Read && e.dir == o.dir).count();
                if n != 1 {
                    return bad("reads", format!("{:?} was asked {} times for {}", s, n, o.dir), &ev);
                }
            }
        }
        if built.len() != 1 {
            return bad("chunks", format!("{} new chunks were made", built.len()), &ev);
        }
        // it takes data, in the new chunk only
        let (a, b) = decode_chunk_dir(built[0].clone()).unwrap();
        let mut here = Model::default();
        let mut data_fault = 0;
        for l in &sets {
            let p: Vec<Pt> = (0..r.range(1, 4)).map(|k| (a + k * 7 + r.below(5), unsigned(gen::value(&mut r)))).collect();
            if r.chance(1, 8) {
                *log.fail.lock().unwrap() = vec![if r.chance(1, 2) { (Side::Storage, Op::Store, 0) } else { (Side::Indexer, Op::Index, 0) }];
                data_fault += 1;
            }
            let res = guard(|| TDb::write1(&db, l, p[0]));
            let failed = ev_failed(&log);
            match res {
                Ok(Ok(())) if !failed => here.accept(l, p[0]),
                Ok(Err(_)) if failed => {}
                o => return bad("write", format!("{:?}, although the backend {}", o, if failed { "failed" } else { "did not fail" }), &log.take()),
            }
            log.fail.lock().unwrap().clear();
            match guard(|| TDb::write(&db, l, &p[1..])) {
                Ok(Ok(())) => p[1..].iter().for_each(|p| here.accept(l, *p)),
                o => return bad("write", format!("{:?}", o), &log.take()),
            }
        }
        let ev = log.take();
        ctx.count("data_faults", data_fault);
        if let Err((c, w)) = data_calls(&ev, &mut BTreeMap::new(), &built) {
            return bad(c, w, &ev);
        }
        ctx.eval(&(i, life, "data"), there > 0);
        now = sum(olds.iter().chain(&mine).filter(hidden), &here);
        for _ in 0..4 {
            let m = if r.chance(1, 2) { all() } else { {
                let l = r.pick(&sets).clone();
                vec![r.pick(&l).clone()]
            } };
            let (x, y) = match r.below(3) {
                0 => (0, i64::MAX as u64),
                1 => (a, b),
                _ => (1_500_000_000_000 + r.below(900_000), 1_500_000_000_000 + 900_000),
            };
            ctx.eval(&(i, life, &m, x, y), there > 0);
            match ask(&db, &m, x, y) {
                Err(e) => return bad("query", e, &ev),
                Ok(q) => {
                    if let Err(d) = compare(&now.expect(&m, x, y), &q) {
                        return bad(d.class, d.what, &ev);
                    }
                }
            }
        }
        let ident = ChunkOpts::read_config_from_dir(&base.join(&built[0])).map(|c| c.identifier).unwrap_or_default();
        mine.push(Old { dir: built[0].clone(), window: (a, b), ident, data: here });
        sleep_ms(2);
    }
    if i < 2 {
        ctx.sample(json!({"case": i, "existing": olds.len(), "lives": lives, "series": now.series.len()}));
    }
    rm_rf(&base);
}
fn ev_failed(log: &Log) -> bool {
    // the call that failed is the last one of the write
    log.ev.lock().unwrap().last().map(|e| matches!(e.op, Op::Store | Op::Index) && !e.ok).unwrap_or(false)
}

/// Rotations: each new chunk is made by both builders; a step that fails leaves the current one.
fn rotations(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("rotations", i);
    let base = ctx.dir("c27r");
    let shared = Arc::new(Shared::default());
    let log = Log::new(&base, &shared);
    let size = Duration::from_millis(r.range(60, 160));
    let bad = |class: &str, what: String, ev: &[Ev]| {
        log.over.store(true, Ordering::SeqCst);
        ctx.violation(&format!("rotation:{}", class), json!({"case": i, "what": what, "calls": tell(ev)}))
    };
    let sets: Vec<LabelSet> = gen::population(&mut r, 4, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let db = match open(&log, size) {
        Ok(d) => d,
        Err(e) => return bad("refused", e, &log.take()),
    };
    // some of the rotations to come fail, in a step of either builder
    let faults: Vec<(Side, Op, u64)> = (0..r.us(0, 4)).map(|_| (*r.pick(&SIDES), *r.pick(&[Op::Prepare, Op::Build]), r.below(3))).collect();
    log.fail.lock().unwrap().extend(faults.iter().cloned());
    log.kind.store(r.next(), Ordering::SeqCst);
    let mut m = Model::default();
    let end = now_ms() + r.range(900, 1600);
    let mut last = 0;
    let mut sent = 0u64;
    while now_ms() < end {
        let t = now_ms().max(last + 1);
        last = t;
        let l = r.pick(&sets).clone();
        let p = (t, unsigned(gen::value(&mut r)));
        sent += 1;
        // what is outside the current window is refused
        match guard(|| TDb::write1(&db, &l, p)) {
            Ok(Ok(())) => m.accept(&l, p),
            Ok(Err(E::OutOfRange)) => {}
            o => return bad("write", format!("{:?}", o), &log.take()),
        }
        sleep_ms(1 + r.below(4));
    }
    // the failed ones are made up for
    let t0 = std::time::Instant::now();
    loop {
        let done = log.fail.lock().unwrap().is_empty();
        let after = {
            let ev = log.ev.lock().unwrap();
            let f = ev.iter().rposition(|e| !e.ok && matches!(e.op, Op::Prepare | Op::Build));
            let ok = |s: Side, from: usize| ev[from..].iter().any(|e| e.side == s && e.op == Op::Build && e.ok);
            match f {
                None => true,
                Some(f) => {
                    let d = &ev[f].dir;
                    SIDES.iter().all(|s| ok(*s, f) && ev[f..].iter().any(|e| e.side == *s && e.op == Op::Build && e.ok && &e.dir != d))
                }
            }
        };
        if done && after {
            break;
        }
        if t0.elapsed() > Duration::from_secs(20) {
            return bad("not-retried", format!("after {:?} no rotation succeeded in 20 s", faults), &log.take());
        }
        ctx.beat();
        sleep_ms(20);
    }
    sleep_ms(20); // the rotation under way
    log.over.store(true, Ordering::SeqCst);
    sleep_ms(20);
    let ev = log.take();
    let mut idents = BTreeSet::new();
    ctx.eval(&(i, "rotations"), true);
    let built = match new_chunks(&log, &ev, size, &mut idents) {
        Ok(b) => b,
        Err((c, w)) => return bad(c, w, &ev),
    };
    ctx.count("rotations", built.len() as u64 - 1);
    ctx.count("failed_rotations", faults.len() as u64);
    match data_calls(&ev, &mut BTreeMap::new(), &built) {
        Ok(n) => ctx.count("samples_stored", n),
        Err((c, w)) => return bad(c, w, &ev),
    }
    if built.len() < 2 {
        return bad("none", format!("no rotation in {} samples", sent), &ev);
    }
    for q in 0..6 {
        let mt = if q == 0 { all() } else { {
                let l = r.pick(&sets).clone();
                vec![r.pick(&l).clone()]
            } };
        ctx.eval(&(i, "query", q), true);
        match ask(&db, &mt, 0, i64::MAX as u64) {
            Err(e) => return bad("query", e, &ev),
            Ok(got) => {
                if let Err(d) = compare(&m.expect(&mt, 0, i64::MAX as u64), &got) {
                    return bad(d.class, d.what, &ev);
                }
            }
        }
    }
    drop(db);
    // and a later opening finds them all
    let log = Log::new(&base, &shared);
    let db = match open(&log, Duration::from_secs(4000)) {
        Ok(d) => d,
        Err(e) => return ctx.violation("reopening:refused", json!({"case": i, "what": e})),
    };
    ctx.eval(&(i, "again"), true);
    match ask(&db, &all(), 0, i64::MAX as u64) {
        Err(e) => ctx.violation("reopening:query", json!({"case": i, "what": e})),
        Ok(got) => {
            if let Err(d) = compare(&m.expect(&all(), 0, i64::MAX as u64), &got) {
                ctx.violation(&format!("reopening:{}", d.class), json!({"case": i, "what": d.what, "calls": tell(&log.take())}));
            }
        }
    }
    rm_rf(&base);
}

/// A signalling bit in a NaN does not survive every float copy; not this property's business.
fn unsigned(v: f64) -> f64 {
    if v.is_nan() { f64::NAN } else { v }
}

fn run(ctx: &Ctx) {
    parallel(8, ctx.n(400, 6000), |i| {
        if !ctx.stop() {
            openings(ctx, i)
        }
    });
    parallel(8, ctx.n(48, 600), |i| {
        if !ctx.stop() {
            rotations(ctx, i)
        }
    });
    ctx.eval(&"end", false);
}
