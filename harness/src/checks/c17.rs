//! C17: failing TiKV operations are told, and nothing acknowledged is lost.
use super::c09::qout;
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::{Opts, Server};
use crate::mem::Shared;
use crate::model::*;
use crate::proto::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::storage::*;
use monolith::Builder;
use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tikv_client::stub::{self, Cluster, OpKind, Verdict};

pub const SPEC: Spec = Spec {
    id: "C17",
    level: "fault_enumeration",
    rule: "one evaluation = one run of a scripted history of opening, writing, retrying and querying under one fault schedule of the TiKV cluster \
           (one operation fails, before or after it was applied; an outage from operation n to m; every k-th or random operations), with every \
           answer compared with what was acknowledged so far, and after the faults the exact final state, by every label, and the same after \
           reopening; non-trivial = at least one fault hit; distinct by (history, backends, fault schedule)",
    assumptions: &[
        "TiKV is an in-memory stand-in: a failed operation was applied or not, and later operations see the result",
        "a TiKV storage refuses a sample that is not newer than its series; a retry of a write that was applied but reported as failed may be refused, if the sample is there",
        "sled does not fail",
    ],
    run,
};

/// What was acknowledged, and what may or may not have been stored.
#[derive(Default, Clone)]
struct Known {
    def: Model,
    amb: Vec<(LabelSet, (u64, u64))>,
}
impl Known {
    fn drop_amb(&mut self, l: &LabelSet, p: Pt) {
        self.amb.retain(|a| !(a.0 == *l && a.1 == (p.0, p.1.to_bits())));
    }
    fn ack(&mut self, l: &LabelSet, p: Pt) {
        self.drop_amb(l, p);
        if !self.has(l, p) {
            self.def.accept(l, p); // every sample is written with a timestamp of its own
        }
    }
    fn has(&self, l: &LabelSet, p: Pt) -> bool {
        self.def.series.get(l).map(|v| v.contains(&(p.0, p.1.to_bits()))).unwrap_or(false)
    }
    fn doubt(&mut self, l: &LabelSet, p: Pt) {
        let a = (l.clone(), (p.0, p.1.to_bits()));
        if !self.amb.contains(&a) && !self.has(l, p) {
            self.amb.push(a)
        }
    }
    /// An answer holds everything acknowledged, and nothing but it and the
    /// doubtful ones; a doubtful one that was seen is there from now on.
    fn judge(&mut self, m: &[(String, String)], a: u64, b: u64, got: &QOut) -> Result<(), Mismatch> {
        let mut exp = self.def.expect(m, a, b);
        let mut seen = vec![];
        for (l, p) in &self.amb {
            if matches(l, m) && p.0 >= a && p.0 <= b {
                let g = got.iter().filter(|x| x.0 == *l).flat_map(|x| x.1.iter()).filter(|x| x.0 == p.0 && x.1.to_bits() == p.1).count();
                let e = exp.get(l).map(|v| v.iter().filter(|x| *x == p).count()).unwrap_or(0);
                if g > e {
                    let v = exp.entry(l.clone()).or_default();
                    v.push(*p);
                    v.sort();
                    seen.push((l.clone(), *p));
                }
            }
        }
        compare(&exp, got)?;
        for (l, p) in seen {
            self.ack(&l, (p.0, f64::from_bits(p.1)));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Mode {
    Before,
    After,
    Mixed,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sched {
    None,
    /// operations n..n+len fail
    From(u64, u64, Mode),
    Every(u64, Mode),
    /// each fails with probability 1/k
    Random(u64, u64, Mode),
}
fn verdict(m: Mode, n: u64) -> Verdict {
    match m {
        Mode::Before => Verdict::Fail,
        Mode::After => Verdict::FailAfterApply,
        Mode::Mixed if hash_of(&("mix", n)) & 1 == 0 => Verdict::Fail,
        Mode::Mixed => Verdict::FailAfterApply,
    }
}
fn plan(c: &Cluster, s: Sched) {
    let base = c.ops();
    if s == Sched::None {
        return c.set_plan(None);
    }
    let mut rng = Rng::derive(1, "faults", hash_of(&s));
    c.set_plan(Some(Box::new(move |seq, _, _| {
        let n = seq - base;
        match s {
            Sched::From(a, len, m) if n >= a && n - a < len => verdict(m, n),
            Sched::Every(k, m) if n % k == 0 => verdict(m, n),
            Sched::Random(k, _, m) if rng.chance(1, k) => verdict(m, n),
            _ => Verdict::Pass,
        }
    })));
}

enum Step {
    Write(usize, Pt),
    Query(LabelSet, u64, u64),
}
struct Script {
    no: u64,
    sets: Vec<LabelSet>,
    steps: Vec<Step>,
    /// writes that failed are not tried again
    give_up: bool,
}
fn script(r: &mut Rng, no: u64) -> Script {
    let mut sets = match r.below(3) {
        0 => gen::population(r, 3, 4, false),
        1 => gen::population(r, 4, 3, true),
        _ => vec![
            vec![("a".into(), "1".into()), ("b".into(), "1".into())],
            vec![("a".into(), "1".into()), ("b".into(), "2".into())],
            vec![("a".into(), "1".into())],
        ],
    };
    for s in sets.iter_mut() {
        s.push(("zz_all".into(), "1".into()));
        *s = gen::normal(s.clone());
    }
    let mut steps = vec![];
    let mut ts = r.range(1000, 2000);
    for _ in 0..r.us(5, 9) {
        ts += r.below(3) + 1;
        let i = r.below(sets.len() as u64) as usize;
        steps.push(Step::Write(i, (ts, gen::value(r))));
        if r.chance(1, 3) {
            let s = r.pick(&sets).clone();
            let m: LabelSet = match r.below(3) {
                0 => vec![r.pick(&s).clone()],
                1 => s.clone(),
                _ => vec![("zz_all".into(), "1".into())],
            };
            let (a, b) = if r.chance(2, 3) { (0, u64::MAX) } else { (r.range(1000, ts), ts) };
            steps.push(Step::Query(m, a, b));
        }
    }
    Script { no, sets, steps, give_up: r.chance(1, 4) }
}
fn selectors(sets: &[LabelSet]) -> Vec<LabelSet> {
    let mut out: Vec<LabelSet> = vec![];
    for s in sets {
        for p in s {
            out.push(vec![p.clone()]);
        }
        for w in s.windows(2) {
            out.push(w.to_vec());
        }
        out.push(s.clone());
    }
    out.sort();
    out.dedup();
    out
}

fn make(kind: Kind, dir: &Path, c: &ChunkOpts, cl: &str, again: bool) -> Result<Option<Arc<dyn TChunk>>, E> {
    let p = dir.to_str().unwrap().to_string();
    fn get<T>(b: &dyn Builder<T>, p: &str, sub: &str, c: &ChunkOpts, again: bool) -> Result<Option<T>, E> {
        let r = if again { b.read_from_chunk(&Path::new(p).join(sub), Some(c)) } else { b.build(p.to_string(), Some(c), None).map(Some) };
        r.map_err(|e| E::Other(e.to_string()))
    }
    let tk = || tikv(cl);
    let te = |e: monolith::MonolithErr| E::Other(e.to_string());
    macro_rules! go {
        ($s:expr, $i:expr) => {{
            let s = get(&$s, &p, "storage", c, again)?;
            let i = get(&$i, &p, "indexer", c, again)?;
            match (s, i) {
                (Some(s), Some(i)) => Some(Arc::new(Chunk::new(s, i, c)) as Arc<dyn TChunk>),
                _ => None,
            }
        }};
    }
    Ok(match kind {
        Kind::TikvTikv => go!(TiKvStorageBuilder::new(tk()).map_err(te)?, TiKvIndexerBuilder::new(tk()).map_err(te)?),
        Kind::SledTikv => go!(SledStorageBuilder::new(), TiKvIndexerBuilder::new(tk()).map_err(te)?),
        _ => go!(TiKvStorageBuilder::new(tk()).map_err(te)?, SledIndexerBuilder::new()),
    })
}

struct Run<'a> {
    ctx: &'a Ctx,
    kind: Kind,
    sched: Sched,
    sc: &'a Script,
    cl: Arc<Cluster>,
    k: Known,
    told: Mutex<bool>,
}
impl Run<'_> {
    fn bad(&self, class: &str, at: &str, what: String) {
        *self.told.lock().unwrap() = true;
        self.ctx.violation(
            &format!("{}:{}", self.kind.name(), class),
            json!({"backends": self.kind.name(), "history": self.sc.no, "faults": format!("{:?}", self.sched), "at": at, "what": what, "injected": self.cl.injected()}),
        )
    }
    fn query(&mut self, c: &dyn TChunk, m: &LabelSet, a: u64, b: u64, at: &str) -> bool {
        let before = self.cl.injected();
        self.cl.start_log();
        let res = guard(|| c.query(m, a, b));
        let log = self.cl.take_log();
        self.ctx.count("queries_judged", 1);
        if let Some(o) = log.iter().find(|o| o.kind != OpKind::Get) {
            self.bad("query-writes", at, format!("a query issued {:?} {}", o.kind, show_bytes(&o.key)));
        }
        match res {
            Ok(Ok(got)) => {
                if self.cl.injected() > before {
                    self.ctx.count("queries_answered_in_spite_of_a_fault", 1);
                }
                if let Err(x) = self.k.judge(m, a, b, &got) {
                    self.bad(x.class, at, format!("query {:?}: {}", m, x.what));
                }
                true
            }
            Ok(Err(e)) => {
                self.ctx.count("queries_failed", 1);
                if self.cl.injected() == before {
                    self.bad("query-fails-without-fault", at, format!("query {:?}: {}", m, e));
                }
                false
            }
            Err(p) => {
                self.bad("panic", at, p);
                true
            }
        }
    }
    /// Is this very sample there?
    fn stored(&mut self, c: &dyn TChunk, l: &LabelSet, p: Pt) -> bool {
        for n in 0..60 {
            if n == 50 {
                self.cl.set_plan(None); // it never gets through: have a break
            }
            if let Ok(Ok(g)) = guard(|| c.query(l, p.0, p.0)) {
                if n >= 50 && !matches!(self.sched, Sched::From(..)) {
                    plan(&self.cl, self.sched);
                }
                return g.iter().any(|x| x.0 == *l && x.1.iter().any(|y| y.0 == p.0 && y.1.to_bits() == p.1.to_bits()));
            }
        }
        false
    }
    fn write(&mut self, c: &dyn TChunk, l: &LabelSet, p: Pt) {
        for n in 0..100 {
            let before = self.cl.injected();
            let res = guard(|| c.insert(l, p));
            let hit = self.cl.injected() > before;
            match res {
                Ok(Ok(())) => {
                    self.k.ack(l, p);
                    self.ctx.count("writes_acknowledged", 1);
                    if n > 0 {
                        self.ctx.count("writes_acknowledged_by_a_retry", 1);
                    }
                    return;
                }
                Ok(Err(e)) => {
                    self.ctx.count("writes_failed", 1);
                    if hit {
                        self.k.doubt(l, p);
                        if self.sc.give_up {
                            return;
                        }
                    } else if n > 0 && self.stored(c, l, p) {
                        self.ctx.count("retries_refused_as_stored", 1);
                        self.k.ack(l, p);
                        return;
                    } else {
                        return self.bad("write-fails-without-fault", "write", format!("attempt {}: {}", n, e));
                    }
                }
                Err(x) => return self.bad("panic", "write", x),
            }
        }
    }
    fn told(&self) -> bool {
        *self.told.lock().unwrap()
    }
}

/// Returns the number of operations of the whole run.
fn execute(ctx: &Ctx, kind: Kind, sc: &Script, sched: Sched, name: &str) -> u64 {
    let dir = ctx.dir("c17");
    let cl = stub::cluster(name);
    cl.clear();
    let (ops0, inj0) = (cl.ops(), cl.injected());
    plan(&cl, sched);
    let mut run = Run { ctx, kind, sched, sc, cl: cl.clone(), k: Known::default(), told: Mutex::new(false) };
    let copts = chunk_opts(0, 1 << 40);
    let mut ch = None;
    for _ in 0..100 {
        let before = cl.injected();
        match guard(|| make(kind, &dir, &copts, name, false)) {
            Ok(Ok(Some(c))) => {
                ch = Some(c);
                break;
            }
            Ok(Err(e)) if cl.injected() == before => {
                run.bad("open-fails-without-fault", "open", e.to_string());
                break;
            }
            Ok(Err(_)) => ctx.count("opens_failed", 1),
            Ok(Ok(None)) => run.bad("open", "open", "nothing built".into()),
            Err(p) => {
                run.bad("panic", "open", p);
                break;
            }
        }
    }
    let Some(c) = ch else {
        rm_rf(&dir);
        return 0;
    };
    for s in &sc.steps {
        if run.told() {
            break;
        }
        match s {
            Step::Write(i, p) => run.write(&*c, &sc.sets[*i], *p),
            Step::Query(m, a, b) => {
                for _ in 0..100 {
                    if run.query(&*c, m, *a, *b, "during the faults") {
                        break;
                    }
                }
            }
        }
    }
    let used = cl.ops() - ops0;
    // the faults are over
    cl.set_plan(None);
    let hit = cl.injected() > inj0;
    let sel = selectors(&sc.sets);
    if !run.told() {
        for m in &sel {
            run.query(&*c, m, 0, u64::MAX, "after the faults");
        }
    }
    drop(c);
    // reopened, the operations of the reopening failing in turn
    if !run.told() {
        for n in 1..=4u64 {
            plan(&cl, Sched::From(n, 1, Mode::Before));
            let before = cl.injected();
            let res = guard(|| make(kind, &dir, &copts, name, true));
            let failed = cl.injected() > before;
            cl.set_plan(None);
            match res {
                Ok(Ok(Some(c))) => {
                    if failed {
                        ctx.count("reopened_in_spite_of_a_fault", 1);
                    }
                    for m in &sel {
                        run.query(&*c, m, 0, u64::MAX, "reopened");
                    }
                    drop(c);
                    if !failed {
                        break;
                    }
                }
                Ok(Ok(None)) => {
                    run.bad("not-reopened", "reopen", format!("the chunk was taken for empty; fault injected: {}", failed));
                    break;
                }
                Ok(Err(e)) if !failed => {
                    run.bad("reopen-fails-without-fault", "reopen", e.to_string());
                    break;
                }
                Ok(Err(_)) => ctx.count("opens_failed", 1),
                Err(p) => {
                    run.bad("panic", "reopen", p);
                    break;
                }
            }
        }
    }
    ctx.count("faults_injected", cl.injected() - inj0);
    ctx.eval(&(sc.no, kind, sched), hit);
    cl.clear();
    rm_rf(&dir);
    used
}

fn run(ctx: &Ctx) {
    let n = ctx.n(10, 80);
    let ns = AtomicU64::new(0);
    // chunks: every operation of a history fails
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("history", i);
        let sc = script(&mut r, i);
        let kind = [Kind::TikvTikv, Kind::TikvTikv, Kind::SledTikv, Kind::TikvTikv, Kind::TikvSled][(i % 5) as usize];
        let name = format!("c17-{}", ns.fetch_add(1, Ordering::SeqCst));
        let total = execute(ctx, kind, &sc, Sched::None, &name);
        if total == 0 {
            return;
        }
        ctx.max("max_operations_of_a_history", total);
        let slow = kind != Kind::TikvTikv && !ctx.thorough;
        let mut all: Vec<Sched> = vec![];
        for at in 1..=total {
            for m in [Mode::Before, Mode::After] {
                all.push(Sched::From(at, 1, m));
            }
            for len in [2, 3, 5, 8, 13, 40] {
                if ctx.thorough || (at + len + i) % 5 == 0 {
                    all.push(Sched::From(at, len, *r.pick(&[Mode::Before, Mode::After, Mode::Mixed])));
                }
            }
        }
        for k in 2..12 {
            all.push(Sched::Every(k, *r.pick(&[Mode::Before, Mode::After, Mode::Mixed])));
        }
        for x in 0..ctx.n(20, 80) {
            all.push(Sched::Random(*r.pick(&[3, 4, 6, 10, 20]), x, *r.pick(&[Mode::Before, Mode::After, Mode::Mixed])));
        }
        if slow {
            // opening sled takes its time: a third of them, spread
            let o = r.below(3);
            all = all.into_iter().enumerate().filter(|x| x.0 as u64 % 3 == o).map(|x| x.1).collect();
        }
        for s in all {
            if ctx.stop() {
                return;
            }
            execute(ctx, kind, &sc, s, &name);
        }
        ctx.count("histories", 1);
        if i < 2 {
            ctx.sample(json!({"backends": kind.name(), "operations": total, "series": sc.sets, "gives_up": sc.give_up}));
        }
    });
    parallel(6, ctx.n(24, 240), |i| {
        if !ctx.stop() {
            together(ctx, i)
        }
    });
    parallel(12, ctx.n(24, 200), |i| {
        if !ctx.stop() {
            rotating(ctx, i)
        }
    });
    parallel(6, ctx.n(6, 40), |i| {
        if !ctx.stop() {
            server(ctx, i)
        }
    });
}

/// Several writers and readers on one chunk under random faults.
fn together(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("together", i);
    let kind = if i % 6 == 5 { Kind::SledTikv } else { Kind::TikvTikv };
    let dir = ctx.dir("c17t");
    let name = format!("c17t-{}", i);
    let cl = stub::cluster(&name);
    let copts = chunk_opts(0, 1 << 40);
    let c = match guard(|| make(kind, &dir, &copts, &name, false)) {
        Ok(Ok(Some(c))) => c,
        _ => return ctx.violation("together:open", json!({})),
    };
    let mode = *r.pick(&[Mode::Before, Mode::After, Mode::Mixed]);
    let sched = Sched::Random(*r.pick(&[3, 5, 9, 20]), i, mode);
    plan(&cl, sched);
    let bad = |class: &str, d: J| ctx.violation(&format!("{}:together:{}", kind.name(), class), json!({"backends": kind.name(), "case": i, "faults": format!("{:?}", sched), "detail": d}));
    let threads = 4u64;
    let knowns: Vec<Known> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (c, cl, bad) = (&c, &cl, &bad);
                let mut r = ctx.rng("together-thread", i * 16 + t);
                s.spawn(move || {
                    let mut k = Known::default();
                    let sets: Vec<LabelSet> = (0..3)
                        .map(|x| gen::normal(vec![("zz_all".into(), "1".into()), ("t".into(), t.to_string()), ("x".into(), if x == 2 { "0".into() } else { x.to_string() }), ("y".into(), x.to_string())]))
                        .collect();
                    let own: LabelSet = vec![("t".into(), t.to_string())];
                    for n in 0..30u64 {
                        let l = r.pick(&sets).clone();
                        let p = (1000 + n, gen::value(&mut r));
                        let give_up = r.chance(1, 5);
                        let mut tries = 0;
                        loop {
                            tries += 1;
                            match guard(|| c.insert(&l, p)) {
                                Ok(Ok(())) => {
                                    k.ack(&l, p);
                                    break;
                                }
                                // the cluster is shared: a fault may be somebody else's
                                Ok(Err(e)) => {
                                    k.doubt(&l, p);
                                    if give_up || tries > 60 || e.to_string().contains("earlier") {
                                        break;
                                    }
                                }
                                Err(x) => {
                                    bad("panic", json!(x));
                                    return k;
                                }
                            }
                        }
                        if n % 3 == 0 {
                            if let Ok(Ok(g)) = guard(|| c.query(&own, 0, u64::MAX)) {
                                if let Err(x) = k.judge(&own, 0, u64::MAX, &g) {
                                    bad(x.class, json!(x.what));
                                    return k;
                                }
                            }
                        }
                    }
                    let _ = cl;
                    k
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    cl.set_plan(None);
    let mut all = Known::default();
    for k in knowns {
        all.def.series.extend(k.def.series);
        all.amb.extend(k.amb);
    }
    let sets: Vec<LabelSet> = all.def.series.keys().cloned().collect();
    let look = |c: &dyn TChunk, at: &str, all: &mut Known| {
        for m in selectors(&sets) {
            match guard(|| c.query(&m, 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    if let Err(x) = all.judge(&m, 0, u64::MAX, &g) {
                        bad(x.class, json!({"at": at, "selector": m, "what": x.what}));
                        break;
                    }
                }
                o => bad("query", json!({"at": at, "what": format!("{:?}", o)})),
            }
        }
    };
    look(&*c, "after the faults", &mut all);
    drop(c);
    match guard(|| make(kind, &dir, &copts, &name, true)) {
        Ok(Ok(Some(c))) => look(&*c, "reopened", &mut all),
        _ => bad("reopen", json!("not reopened")),
    }
    ctx.count("faults_injected_concurrently", cl.injected());
    ctx.eval(&("together", i), cl.injected() > 0);
    cl.clear();
    rm_rf(&dir);
}

fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::create_dir_all(to);
    for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            copy_dir(&p, &to.join(e.file_name()))
        } else {
            let _ = std::fs::copy(&p, to.join(e.file_name()));
        }
    }
}

/// A database that rotates during outages, and opens during them.
fn rotating(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("rotating", i);
    let dir = ctx.dir("c17r");
    let name = format!("c17r-{}", i);
    let cl = stub::cluster(&name);
    let sh = Arc::new(Shared::default());
    let size = r.range(120, 260);
    let bad = |class: &str, d: J| ctx.violation(&format!("db:{}", class), json!({"case": i, "chunk_ms": size, "detail": d}));
    let all: LabelSet = vec![("zz_all".into(), "1".into())];
    let mut sets = gen::population(&mut r, 5, 3, false);
    for s in sets.iter_mut() {
        s.push(all[0].clone());
        *s = gen::normal(s.clone());
    }
    let mut k = Known::default();
    let mut last = 0u64;
    let db = match guard(|| open_db(Kind::TikvTikv, &dir, Duration::from_millis(size), &name, &sh)) {
        Ok(Ok(d)) => d,
        o => return bad("open", json!(format!("{:?}", o.err()))),
    };
    // outages come and go while the database rotates
    let state = Arc::new(AtomicU64::new(0));
    let st = state.clone();
    let mut fr = ctx.rng("rotating-faults", i);
    cl.set_plan(Some(Box::new(move |seq, _, _| match st.load(Ordering::SeqCst) {
        0 => Verdict::Pass,
        1 => verdict(Mode::Before, seq),
        2 => verdict(Mode::After, seq),
        3 => verdict(Mode::Mixed, seq),
        _ if fr.chance(1, 3) => verdict(Mode::Mixed, seq),
        _ => Verdict::Pass,
    })));
    let t0 = Instant::now();
    let mut change = 0;
    while (t0.elapsed().as_millis() as u64) < size * 5 {
        ctx.beat();
        if t0.elapsed().as_millis() as u64 >= change {
            let s = r.below(6).saturating_sub(1);
            state.store(s, Ordering::SeqCst);
            change = t0.elapsed().as_millis() as u64 + r.range(10, size);
        }
        let ts = now_ms().max(last + 1);
        last = ts;
        let l = r.pick(&sets).clone();
        let p = (ts, gen::value(&mut r));
        let before = cl.injected();
        match guard(|| db.write1(&l, p)) {
            Ok(Ok(())) => {
                k.ack(&l, p);
                ctx.count("writes_during_rotation", 1);
            }
            Ok(Err(E::OutOfRange)) => ctx.count("writes_out_of_window", 1),
            Ok(Err(e)) => {
                k.doubt(&l, p);
                if cl.injected() == before {
                    bad("write-fails-without-fault", json!(e.to_string()));
                }
            }
            Err(x) => return bad("panic", json!(x)),
        }
        if r.chance(1, 4) {
            let s = r.pick(&sets).clone();
            let m = if r.chance(1, 2) { all.clone() } else { vec![r.pick(&s).clone()] };
            let before = cl.injected();
            match guard(|| db.query(&m, 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    ctx.count("queries_during_rotation", 1);
                    if let Err(x) = k.judge(&m, 0, u64::MAX, &g) {
                        bad(&format!("rotating:{}", x.class), json!({"outage": state.load(Ordering::SeqCst), "what": x.what}));
                        return;
                    }
                }
                Ok(Err(e)) => {
                    if cl.injected() == before {
                        bad("query-fails-without-fault", json!(e.to_string()));
                    }
                }
                Err(x) => return bad("panic", json!(x)),
            }
        }
        sleep_ms(r.below(6));
    }
    // healed: the next rotation works, and writes are accepted
    state.store(0, Ordering::SeqCst);
    let t0 = Instant::now();
    loop {
        let ts = now_ms().max(last + 1);
        last = ts;
        let p = (ts, 1.0);
        match guard(|| db.write1(&sets[0], p)) {
            Ok(Ok(())) => {
                k.ack(&sets[0], p);
                break;
            }
            Ok(Err(E::OutOfRange)) if t0.elapsed().as_secs() < 30 => {}
            o => return bad("not-healed", json!(format!("{:?}", o))),
        }
        sleep_ms(10);
    }
    cl.set_plan(None);
    let judge = |db: &Arc<dyn TDb>, k: &mut Known, at: &str| -> bool {
        for m in std::iter::once(all.clone()).chain(selectors(&sets)) {
            match guard(|| db.query(&m, 0, u64::MAX)) {
                Ok(Ok(g)) => {
                    if let Err(x) = k.judge(&m, 0, u64::MAX, &g) {
                        bad(&format!("{}:{}", at, x.class), json!({"selector": m, "what": x.what}));
                        return false;
                    }
                }
                o => {
                    bad(&format!("{}:query", at), json!(format!("{:?}", o)));
                    return false;
                }
            }
        }
        true
    };
    if !judge(&db, &mut k, "healed") {
        return;
    }
    // The same directory and cluster, as of now, opened by others: operation n of
    // the opening fails, until none is hit.
    let dir2 = ctx.dir("c17r");
    copy_dir(&dir, &dir2);
    let name2 = format!("c17r-{}-copy", i);
    let cl2 = stub::cluster(&name2);
    let contents = cl.snapshot();
    // the rotating one is not needed any more
    rm_rf(&dir);
    let _ = std::fs::write(&dir, b"");
    for n in 1..200u64 {
        let dir3 = ctx.dir("c17r");
        copy_dir(&dir2, &dir3);
        cl2.load(contents.clone());
        let mut k = k.clone();
        let before = cl2.injected();
        let mode = *r.pick(&[Mode::Before, Mode::After]);
        let len = *r.pick(&[1, 1, 1, 3]);
        plan(&cl2, Sched::From(n, len, mode));
        let res = guard(|| open_db(Kind::TikvTikv, &dir3, Duration::from_millis(3_600_000), &name2, &sh));
        let hit = cl2.injected() > before;
        cl2.set_plan(None);
        ctx.count("database_opens", 1);
        ctx.eval(&("open", i, n), hit);
        match res {
            Ok(Ok(d)) => {
                if hit {
                    ctx.count("databases_opened_in_spite_of_a_fault", 1);
                }
                if !judge(&d, &mut k, if hit { "opened-with-fault" } else { "reopened" }) {
                    return;
                }
                let p = (now_ms().max(last + 1), 2.0);
                match guard(|| d.write1(&sets[0], p)) {
                    Ok(Ok(())) => {
                        k.ack(&sets[0], p);
                        if !judge(&d, &mut k, "reopened-and-written") {
                            return;
                        }
                    }
                    // opened at a later instant than this sample's
                    Ok(Err(E::OutOfRange)) => {}
                    o => return bad("reopened:write", json!(format!("{:?}", o))),
                }
                if !hit {
                    break;
                }
            }
            Ok(Err(_)) if hit => {}
            o => return bad("open", json!({"operation": n, "what": format!("{:?}", o.err())})),
        }
    }
    ctx.count("faults_injected_around_rotations", cl.injected());
    ctx.eval(&("rotating", i), cl.injected() > 0);
}

/// The server tells its clients.
fn server(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("server", i);
    let kind = [Kind::TikvTikv, Kind::SledTikv, Kind::TikvSled][(i % 3) as usize];
    let (st, ix) = kind.name().split_once('/').unwrap();
    let top = ctx.dir("c17s");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let pd = "10.1.2.3:2379";
    let f = top.join("tikv.yaml");
    std::fs::write(&f, format!("pd_endpoints:\n  - {}\ndry_run: false\n", pd)).unwrap();
    let cdir = stub::shared_dir(&top, pd);
    let opts = Opts {
        storage: st,
        indexer: ix,
        extra: vec!["--tikv_config".into(), f.to_str().unwrap().into()],
        env: vec![("MON_TIKV_DIR".into(), top.to_str().unwrap().into())],
        ..Opts::default()
    };
    let place = format!("server:{}", kind.name());
    let bad = |class: &str, d: J| ctx.violation(&format!("{}:{}", place, class), json!({"where": place, "case": i, "detail": d}));
    let srv = match Server::start(&dir, &opts) {
        Ok(s) => s,
        Err(e) => return bad("start", json!(e)),
    };
    if !cdir.exists() {
        return bad("no-cluster", json!("the server does not use the cluster of its configuration"));
    }
    let ctl = |s: &str| {
        let t = cdir.join("ctl.new");
        std::fs::write(&t, s).unwrap();
        std::fs::rename(&t, cdir.join("ctl")).unwrap();
    };
    let base = now_ms() + 5_000;
    let all: LabelSet = vec![("zz_all".into(), "1".into())];
    let mut sets = gen::population(&mut r, 6, 3, false);
    for s in sets.iter_mut() {
        s.push(all[0].clone());
        *s = gen::normal(s.clone());
    }
    let mut k = Known::default();
    let mut seen: HashSet<LabelSet> = HashSet::new();
    for n in 0..ctx.n(60, 200) {
        ctx.beat();
        let fault = *r.pick(&["", "", "get", "put", "applied", "get put"]);
        ctl(fault);
        let l = r.pick(&sets).clone();
        let p = (base + n, (n as f64) / 4.0);
        // does this write need the cluster's get, or put?
        let needs_put = kind != Kind::SledTikv || !seen.contains(&l);
        let fails = (fault.contains("get")) || (!fault.is_empty() && needs_put);
        let code = match srv.write(&[wire(&l, &[p])]) {
            Ok(c) => c,
            Err(e) => return bad("no-answer", json!({"fault": fault, "what": e})),
        };
        ctx.eval(&(i, "write", n, fault), fails);
        let ok = (200..300).contains(&code);
        if ok {
            k.ack(&l, p);
            seen.insert(l.clone());
        } else {
            k.doubt(&l, p);
            if fault.is_empty() {
                return bad("write-fails-without-fault", json!({"status": code}));
            }
        }
        if ok && fails {
            ctx.count("server_writes_acknowledged_in_spite_of_a_fault", 1);
        }
        if r.chance(1, 2) {
            let s = r.pick(&sets).clone();
            let q: LabelSet = if r.chance(1, 2) { all.clone() } else { s };
            match srv.read(&[query_eq(&q, 0, i64::MAX)]) {
                Ok((200, g)) if g.len() == 1 => {
                    ctx.eval(&(i, "read", n, fault), !fault.is_empty());
                    if let Err(x) = k.judge(&q, 0, u64::MAX, &qout(&g[0])) {
                        return bad(&format!("read:{}", x.class), json!({"fault": fault, "what": x.what}));
                    }
                }
                Ok((c, _)) if !(200..300).contains(&c) && !fault.is_empty() => ctx.count("server_reads_refused", 1),
                o => return bad("read", json!({"fault": fault, "answer": format!("{:?}", o)})),
            }
        }
        // healed: the retry succeeds, or the sample is there
        if !ok && r.chance(2, 3) {
            ctl("");
            match srv.write(&[wire(&l, &[p])]) {
                Ok(c) if (200..300).contains(&c) => {
                    k.ack(&l, p);
                    seen.insert(l.clone());
                }
                Ok(_) => match srv.read(&[query_eq(&l, p.0 as i64, p.0 as i64)]) {
                    Ok((200, g)) if g.len() == 1 && qout(&g[0]).iter().any(|x| x.0 == l && x.1.iter().any(|y| y.0 == p.0)) => k.ack(&l, p),
                    o => return bad("retry", json!({"what": format!("the retry was refused, and the sample is not there: {:?}", o)})),
                },
                o => return bad("retry", json!(format!("{:?}", o))),
            }
        }
    }
    ctl("");
    for m in selectors(&sets) {
        match srv.read(&[query_eq(&m, 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 => {
                if let Err(x) = k.judge(&m, 0, u64::MAX, &qout(&g[0])) {
                    return bad(&format!("at-last:{}", x.class), json!(x.what));
                }
            }
            o => return bad("at-last", json!(format!("{:?}", o))),
        }
    }
    drop(srv);
    rm_rf(&top);
}
