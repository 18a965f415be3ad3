//! C08: a database opens with the backends it was made with, and no others.
use super::Spec;
use crate::backends::*;
use crate::child;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::{self, die_with_parent};
use crate::mem::Shared;
use crate::model::*;
use monolith::utils::decode_chunk_dir;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C08",
    level: "exploration",
    rule: "one evaluation = one attempt to open an existing database in another process or server (with other backends, or with damaged metadata: \
           it must fail and leave every byte of the directory and of the TiKV cluster as it was; with its own backends: it must work and have \
           everything), in databases of every combination, empty, filled and rotated; non-trivial = the attempt had to be refused, or the \
           database had data; distinct by (database, attempt, kind of damage)",
    assumptions: &["the TiKV stand-in's contents are carried from process to process by the harness"],
    run,
};

/// every file and directory below, with contents
fn tree(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn walk(top: &Path, d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            let rel = p.strip_prefix(top).unwrap().to_path_buf();
            if p.is_dir() {
                out.insert(rel, None);
                walk(top, &p, out)
            } else {
                out.insert(rel, Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}
fn changes(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Vec<String> {
    let mut out = vec![];
    for (p, c) in a {
        match b.get(p) {
            None => out.push(format!("{} is gone", p.display())),
            Some(d) if d != c => out.push(format!("{} changed", p.display())),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            out.push(format!("{} is new", p.display()))
        }
    }
    out
}
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for (p, c) in tree(from) {
        match c {
            None => std::fs::create_dir_all(to.join(p)).unwrap(),
            Some(b) => std::fs::write(to.join(p), b).unwrap(),
        }
    }
}

fn run(ctx: &Ctx) {
    let n = ctx.n(24, 240);
    parallel(24, n, |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
}

struct Case<'a> {
    ctx: &'a Ctx,
    i: u64,
    top: PathBuf,
    dir: PathBuf,
    own: Kind,
    variant: u64,
    size: u64,
}
impl Case<'_> {
    fn spec(&self, kind: Kind, act: &str) -> J {
        json!({"id": "C08", "seed": self.ctx.seed, "case": self.i, "kind": kind.name(), "dir": self.dir, "act": act, "variant": self.variant,
            "size": self.size, "model": self.top.join("model"), "cluster": self.top.join("cluster")})
    }
    fn child(&self, kind: Kind, act: &str) -> Option<J> {
        let e = child::run(&self.top.join("work"), "bk", &self.spec(kind, act), &[], None, Duration::from_secs(100));
        self.ctx.beat();
        match e.report {
            Some(rep) => {
                self.ctx.absorb(&rep);
                if rep["panic"].is_string() {
                    self.bad("panic", kind, act, rep["panic"].to_string());
                }
                Some(rep["extra"].clone())
            }
            None => {
                self.bad("died", kind, act, e.told());
                None
            }
        }
    }
    fn bad(&self, class: &str, with: Kind, act: &str, what: String) {
        self.ctx.violation(
            &format!("{}:{}", self.own.name(), class),
            json!({"database": self.own.name(), "opened_with": with.name(), "step": act, "database_state": (["only created", "filled", "rotated", "only metadata"][self.variant as usize]), "what": what}),
        )
    }
    /// An attempt that must be refused, and change nothing.
    fn refused(&self, with: Kind, why: &str, by_server: bool) {
        let before = tree(&self.dir);
        let cl = std::fs::read_to_string(self.top.join("cluster")).unwrap_or_default();
        self.ctx.eval(&(self.i, with, why, by_server), true);
        if by_server {
            self.ctx.count("server_starts_refused", 1);
            match start_server(&self.dir, with, &self.top) {
                Started::Ended(0) => self.bad("server-ended-without-error", with, why, "the server ended with status 0".into()),
                Started::Ended(_) => {}
                Started::Serves => self.bad("server-started", with, why, "the server started and listens".into()),
            }
        } else {
            self.ctx.count("opens_refused", 1);
            match self.child(with, "try") {
                Some(x) if x["opened"] == true => self.bad("opened", with, why, "it opened".into()),
                _ => {}
            }
        }
        let d = changes(&before, &tree(&self.dir));
        if !d.is_empty() {
            self.bad("directory-changed", with, why, format!("the refused attempt changed the directory: {:?}", &d[..d.len().min(5)]));
        }
        if std::fs::read_to_string(self.top.join("cluster")).unwrap_or_default() != cl {
            self.bad("cluster-changed", with, why, "the refused attempt changed the TiKV cluster".into());
        }
    }
}

enum Started {
    Ended(i32),
    Serves,
}
fn start_server(dir: &Path, with: Kind, top: &Path) -> Started {
    let (st, ix) = with.name().split_once('/').unwrap();
    for _ in 0..5 {
        let port = http::free_port();
        let log = top.join("server.err");
        let mut c = Command::new(http::self_dir().join("monolith-server"));
        c.args(["--port", &port.to_string(), "--chunk_size", "3600", "--storage", st, "--indexer", ix]).arg("--file_dir").arg(dir);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&log).unwrap());
        die_with_parent(&mut c);
        let mut ch = c.spawn().unwrap();
        let t0 = Instant::now();
        loop {
            if let Ok(Some(s)) = ch.try_wait() {
                if std::fs::read_to_string(&log).unwrap_or_default().contains("ddress") {
                    break; // the port was taken meanwhile
                }
                return Started::Ended(s.code().unwrap_or(-1));
            }
            if http::ports_of(ch.id()).contains(&port) || t0.elapsed().as_secs() > 60 {
                let _ = ch.kill();
                let _ = ch.wait();
                return Started::Serves;
            }
            sleep_ms(5);
        }
    }
    Started::Serves
}

fn damage(r: &mut Rng, good: &[u8]) -> (&'static str, Vec<u8>) {
    match r.below(9) {
        0 => ("empty", vec![]),
        1 => {
            let n = r.us(1, good.len() - 1);
            ("cut short", good[..n].to_vec())
        }
        2 => ("random bytes", (0..r.us(1, 60)).map(|_| r.next() as u8 | 0x80).collect()),
        3 => ("not text", [&good[..good.len() - 1], &[0xff, 0xfe, b'}'][..]].concat()),
        4 => ("no fields", b"{}".to_vec()),
        5 => ("other fields", br#"{"storage":"sled","indexer":"sled"}"#.to_vec()),
        6 => ("other types", br#"{"indexer_type":1,"storage_type":[]}"#.to_vec()),
        7 => ("unknown backends", br#"{"indexer_type":"FooIndexer","storage_type":"FooStorage"}"#.to_vec()),
        _ => ("garbage after it", [good, b"}{"].concat()),
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("case", i);
    let own = REAL[(i % 4) as usize];
    let variant = (i / 4) % 4;
    let top = ctx.dir("c08");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let c = Case { ctx, i, top: top.clone(), dir: dir.clone(), own, variant, size: if variant == 2 { r.range(150, 400) } else { 3_600_000 } };
    if c.child(own, "make").is_none() || ctx.has_violation() {
        return;
    }
    if variant == 3 {
        // a creation that got no further than the metadata
        for e in std::fs::read_dir(&dir).unwrap().flatten() {
            if e.path().is_dir() {
                rm_rf(&e.path());
            }
        }
        std::fs::write(top.join("model"), "[]").unwrap();
    }
    for with in REAL {
        if with != own {
            c.refused(with, "other backends", false);
            c.refused(with, "other backends", true);
        }
    }
    // metadata that cannot be understood: the file is the database's own, found by its name
    let meta: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).filter(|p| p.is_file()).collect();
    if meta.len() == 1 {
        let good = std::fs::read(&meta[0]).unwrap();
        for k in 0..ctx.n(4, 8) {
            let (why, bad) = damage(&mut r, &good);
            if bad == good {
                continue;
            }
            std::fs::write(&meta[0], &bad).unwrap();
            let with = if r.chance(2, 3) { own } else { *r.pick(&REAL) };
            c.refused(with, &format!("damaged metadata: {}", why), k % 4 == 3);
            ctx.count("damaged_metadata_files", 1);
            std::fs::write(&meta[0], &good).unwrap();
        }
    } else {
        ctx.count("databases_without_single_metadata_file", 1);
    }
    // nor does it open without one of its chunks, when it is that one's metadata that cannot be understood
    let chunks: Vec<PathBuf> = std::fs::read_dir(&dir)
        .unwrap()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.is_dir() && p.file_name().map(|n| decode_chunk_dir(n.to_string_lossy().into_owned()).is_ok()).unwrap_or(false))
        .collect();
    let files: Vec<PathBuf> = chunks.iter().flat_map(|d| std::fs::read_dir(d).unwrap().flatten().map(|e| e.path())).filter(|p| p.is_file()).collect();
    if variant != 3 && !files.is_empty() && files.len() <= chunks.len() {
        for _ in 0..ctx.n(2, 6) {
            let f = r.pick(&files).clone();
            let good = std::fs::read(&f).unwrap();
            let (why, bad) = loop {
                let (w, b) = damage(&mut r, &good);
                // without a field there is nothing that cannot be understood
                if !["no fields", "other fields", "unknown backends"].contains(&w) && b != good {
                    break (w, if w == "other types" { br#"{"start_time":"x","end_time":[],"storage_id":{},"indexer_id":{}}"#.to_vec() } else { b });
                }
            };
            ctx.eval(&(i, "chunk", why), true);
            ctx.count("damaged_chunk_metadata_files", 1);
            std::fs::write(&f, &bad).unwrap();
            match c.child(own, "try") {
                Some(x) if x["opened"] == true => c.bad("opened-without-a-chunk", own, &format!("damaged metadata of a chunk: {}", why), "it opened".into()),
                _ => {}
            }
            if std::fs::read(&f).ok() != Some(bad) {
                c.bad("chunk-metadata-changed", own, &format!("damaged metadata of a chunk: {}", why), "the refused attempt changed it".into());
            }
            std::fs::write(&f, &good).unwrap();
        }
    }
    // its own backends still open it: a server (on a copy), and the library
    if r.chance(1, 3) {
        let cp = top.join("copy");
        copy(&dir, &cp);
        ctx.eval(&(i, "server"), true);
        if let Started::Ended(x) = start_server(&cp, own, &top) {
            c.bad("server-refused-its-own", own, "own backends", format!("the server ended with status {}: {}", x, std::fs::read_to_string(top.join("server.err")).unwrap_or_default()));
        }
    }
    c.child(own, "verify");
    if i < 4 {
        ctx.sample(json!({"database": own.name(), "state": variant}));
    }
    ctx.count("databases", 1);
    rm_rf(&top);
}

pub fn bk(ctx: &Ctx, s: &J, extra: &mut J) {
    let kind = Kind::from_name(s["kind"].as_str().unwrap());
    let dir = PathBuf::from(s["dir"].as_str().unwrap());
    let mf = PathBuf::from(s["model"].as_str().unwrap());
    let cf = PathBuf::from(s["cluster"].as_str().unwrap());
    let variant = s["variant"].as_u64().unwrap();
    let size = s["size"].as_u64().unwrap();
    let case = s["case"].as_u64().unwrap();
    child::load_cluster("c08", &cf);
    let sh = Arc::new(Shared::default());
    let act = s["act"].as_str().unwrap();
    let opened = open_db(kind, &dir, Duration::from_millis(if act == "make" { size } else { 3_600_000 }), "c08", &sh);
    if act == "try" {
        extra["opened"] = json!(opened.is_ok());
        child::save_cluster("c08", &cf);
        return;
    }
    let db = match opened {
        Ok(d) => d,
        Err(x) => {
            ctx.violation(&format!("{}:own-open", kind.name()), json!({"database": kind.name(), "step": act, "what": x.to_string()}));
            return;
        }
    };
    let mut r = Rng::derive(ctx.seed, act, case);
    let mut m = child::load_model(&mf);
    let all: LabelSet = vec![("zz_all".into(), "1".into())];
    if act == "make" {
        if variant == 1 || variant == 2 {
            let mut sets = gen::population(&mut r, 6, 4, false);
            for x in sets.iter_mut() {
                x.push(("zz_all".into(), "1".into()));
                *x = gen::normal(x.clone());
            }
            let t0 = Instant::now();
            let mut last = 0;
            let life = if variant == 2 { size * 3 } else { 40 };
            while (t0.elapsed().as_millis() as u64) < life {
                let ts = now_ms().max(last + 1);
                last = ts;
                let l = r.pick(&sets).clone();
                let v = gen::value(&mut r);
                match db.write1(&l, (ts, v)) {
                    Ok(()) => m.accept(&l, (ts, v)),
                    Err(E::OutOfRange) => {}
                    Err(x) => {
                        ctx.violation(&format!("{}:write-failed", kind.name()), json!({"what": x.to_string()}));
                        return;
                    }
                }
                sleep_ms(2 + r.below(8));
            }
        }
        if kind.uses_sled() {
            sleep_ms(1500);
        }
        child::save_model(&m, &mf);
        child::save_cluster("c08", &cf);
        return;
    }
    let exp = m.expect(&all, 0, u64::MAX);
    ctx.eval(&(case, "verify"), m.points() > 0);
    ctx.count("samples_found_again", m.points() as u64);
    match db.query(&all, 0, u64::MAX) {
        Ok(got) => {
            if let Err(x) = compare(&exp, &got) {
                ctx.violation(&format!("{}:data:{}", kind.name(), x.class), json!({"what": x.what, "step": "own backends after refused attempts"}))
            }
        }
        Err(x) => ctx.violation(&format!("{}:data:query-failed", kind.name()), json!({"what": x.to_string()})),
    }
}
