//! C21: the server does what its command line says.
use super::c09::{qout, windows};
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::LabelSet;
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::Write;
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
use tikv_client::stub;

pub const SPEC: Spec = Spec {
    id: "C21",
    level: "exploration",
    rule: "one evaluation = one observation of the real server binary started with a generated command line: the port that it listens on, a write, read \
           or refused request at a path, the directory and chunk windows that it makes, where (sled or which TiKV cluster) its series and samples \
           go, how many requests it works on at a time, or (invalid command lines and configurations) that it ends with an error without serving; \
           non-trivial = at least one option was given; distinct by (command line, observation)",
    assumptions: &[
        "the default directory is the one the binary was built in, which the check makes the working directory as well",
        "an option that has a default, given without a value, has its default (clap)",
        "TiKV is a stand-in that keeps each cluster in a directory named by its endpoints",
    ],
    run,
};

struct Proc {
    child: Child,
    err: PathBuf,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Proc {
    fn log(&self) -> String {
        std::fs::read_to_string(&self.err).unwrap_or_default().chars().take(400).collect()
    }
    fn ended(&mut self) -> Option<i32> {
        self.child.try_wait().ok().flatten().map(|s| s.code().unwrap_or(-1))
    }
}
fn launch(top: &Path, cwd: &Path, args: &[String]) -> Proc {
    let err = top.join("server.err");
    let mut c = Command::new(self_dir().join("monolith-server"));
    c.args(args).current_dir(cwd).env("MON_TIKV_DIR", top.join("tikv"));
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&err).unwrap());
    die_with_parent(&mut c);
    Proc { child: c.spawn().unwrap(), err }
}
fn listens(port: u16) -> bool {
    let s = TcpStream::connect_timeout(&([127, 0, 0, 1], port).into(), Duration::from_millis(500));
    s.map_or(false, |s| s.local_addr().ok() != s.peer_addr().ok())
}
fn run(ctx: &Ctx) {
    parallel(8, ctx.n(48, 480), |i| {
        if !ctx.stop() {
            valid(ctx, i)
        }
    });
    parallel(8, ctx.n(64, 256), |i| {
        if !ctx.stop() {
            invalid(ctx, i)
        }
    });
    parallel(4, ctx.n(8, 40), |i| {
        if !ctx.stop() {
            workers(ctx, i)
        }
    });
    parallel(4, ctx.n(4, 16), |i| {
        if !ctx.stop() {
            period(ctx, i)
        }
    });
    defaults(ctx);
}

/// Generated valid command line.
struct Line {
    args: Vec<String>,
    given: Vec<&'static str>,
}
fn opt(r: &mut Rng, l: &mut Line, long: &'static str, short: Option<&str>, v: &str) {
    l.given.push(long);
    match (r.below(4), short) {
        (0, Some(s)) => l.args.extend([s.to_string(), v.to_string()]),
        (1, Some(s)) => l.args.push(format!("{}{}", s, v)),
        (2, _) => l.args.push(format!("--{}={}", long, v)),
        _ => l.args.extend([format!("--{}", long), v.to_string()]),
    }
}

const PATHS: &[(&str, &str)] = &[("/w", "/r"), ("/api/v1/write", "/api/v1/read"), ("/write2", "/read2"), ("/read", "/write"), ("/a/b/c", "/a/b"), ("/x", "/x/y"), ("/Write", "/Read")];

const DIRS: &[&str] = &["data", "dätä", "a b", " a", "b ", "c.d", "x=y", "a,b", "q'\"", "50%41", "~", "$HOME", "a\\b", "d\u{200b}", "UPPER"];

fn valid(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("valid", i);
    let top = ctx.dir("c21");
    let cwd = top.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let mut l = Line { args: vec![], given: vec![] };
    let mut tries = 0;
    let dir_rel = r.chance(1, 4);
    let dir = if dir_rel { cwd.join("data dir") } else { top.join(DIRS[i as usize % DIRS.len()]) };
    std::fs::create_dir_all(&dir).unwrap();
    let mut dir_arg = if dir_rel { "data dir".to_string() } else { dir.to_str().unwrap().to_string() };
    match r.below(6) {
        0 => dir_arg.push('/'),
        1 if !dir_rel => dir_arg = format!("{}/./../{}", dir_arg, dir.file_name().unwrap().to_str().unwrap()),
        2 if dir_rel => dir_arg = format!("./{}", dir_arg),
        _ => {}
    }
    // (every server has a directory of its own and a port of its own)
    opt(&mut r, &mut l, "file_dir", Some("-d"), &dir_arg);
    let chunk = if r.chance(2, 3) {
        let c = *r.pick(&[60u64, 61, 100, 3600, 12_001, 86_400, 604_800, 1_000_000_000_000, 9_223_372_036_854_775]);
        opt(&mut r, &mut l, "chunk_size", None, &c.to_string());
        c
    } else {
        12_000
    };
    let st = if r.chance(2, 3) {
        let s = *r.pick(&["sled", "tikv"]);
        opt(&mut r, &mut l, "storage", Some("-s"), s);
        s
    } else {
        "sled"
    };
    let ix = if r.chance(2, 3) {
        let s = *r.pick(&["sled", "tikv"]);
        opt(&mut r, &mut l, "indexer", Some("-i"), s);
        s
    } else {
        "sled"
    };
    let (wp, rp) = *r.pick(PATHS);
    let wpath = if r.chance(1, 2) {
        opt(&mut r, &mut l, "write_path", None, wp);
        wp
    } else {
        "/write"
    };
    let rpath = if r.chance(1, 2) && rp != wpath {
        opt(&mut r, &mut l, "read_path", None, rp);
        rp
    } else {
        "/read"
    };
    if rpath == wpath {
        rm_rf(&top);
        return;
    }
    if r.chance(1, 3) {
        let w = r.range(1, 20).to_string();
        opt(&mut r, &mut l, "worker_num", None, &w);
    }
    // which cluster
    let mut cluster: Option<String> = None;
    let mut dry = true;
    if r.chance(2, 3) {
        let f = top.join(*r.pick(&["tikv.yaml", "conf.yml", "x"]));
        let eps: Vec<String> = (0..r.us(1, 3)).map(|_| format!("10.{}.{}.1:{}", r.below(250), r.below(250), r.range(1024, 65535))).collect();
        dry = r.chance(1, 4);
        let list = match r.below(3) {
            0 => format!("pd_endpoints: [{}]\n", eps.iter().map(|e| format!("\"{}\"", e)).collect::<Vec<_>>().join(", ")),
            _ => format!("pd_endpoints:\n{}", eps.iter().map(|e| format!(" - {}\n", e)).collect::<String>()),
        };
        let d = match (dry, r.below(2)) {
            (true, _) => "dry_run: true\n",
            (false, 0) => "dry_run: false\n",
            _ => "",
        };
        let text = match (dry, r.below(3)) {
            (true, 0) => d.to_string(), // no endpoints needed
            (_, 1) => format!("{}{}", d, list),
            _ => format!("# a comment\n{}{}", list, d),
        };
        std::fs::write(&f, text).unwrap();
        opt(&mut r, &mut l, "tikv_config", None, f.to_str().unwrap());
        if !dry {
            cluster = Some(eps.join(","));
        }
    }
    let tikv_used = st == "tikv" || ix == "tikv";
    let base_args = l.args.clone();
    let d = |what: &str, x: J| json!({"command_line": base_args, "observation": what, "detail": x});
    let bad = |class: &str, x: J| ctx.violation(class, d(class, x));
    let (mut p, port) = loop {
        tries += 1;
        // ports from the whole range that is allowed, outside of the one clients get theirs from
        let port = match r.below(6) {
            0 if tries < 3 => *r.pick(&[65_535u16, 1024, 1025, 65_534]),
            1 if tries < 4 => r.range(1026, 32_000) as u16,
            2 if tries < 4 => r.range(61_001, 65_533) as u16,
            _ => free_port(),
        };
        let mut a = Line { args: l.args.clone(), given: vec![] };
        opt(&mut r, &mut a, "port", None, &port.to_string());
        if r.chance(1, 2) {
            let k = if a.args.last().unwrap().contains('=') { 1 } else { 2 };
            a.args.rotate_right(k);
        }
        if listens(port) {
            continue;
        }
        let mut p = launch(&top, &cwd, &a.args);
        let t0 = Instant::now();
        let up = loop {
            if let Some(c) = p.ended() {
                break Err(format!("it ended with {}: {}", c, p.log()));
            }
            if ports_of(p.child.id()).contains(&port) {
                break Ok(());
            }
            let other = ports_of(p.child.id());
            if !other.is_empty() && !other.contains(&port) {
                return bad("other-port", json!({"asked": port, "listens_on": other}));
            }
            if t0.elapsed().as_secs() > 40 {
                break Err("it does not listen".into());
            }
            sleep_ms(10);
        };
        match up {
            Ok(()) => break (p, port),
            Err(e) if e.contains("ddress") && tries < 12 => {
                rm_rf(&dir);
                std::fs::create_dir_all(&dir).unwrap();
            }
            Err(e) => return bad("does-not-start", json!({"port": port, "what": e})),
        }
    };
    ctx.count("servers_started", 1);
    let key = hash_of(&(i, ctx.seed));
    ctx.eval(&(key, "port"), true);
    let ps = ports_of(p.child.id());
    if ps != vec![port] {
        bad("ports", json!({"asked": port, "listens_on": ps}));
    }
    // its directory and window
    let w = windows(&dir);
    ctx.eval(&(key, "window"), true);
    if w.len() != 1 || w[0].1.checked_sub(w[0].0) != Some(chunk * 1000) || w[0].0.abs_diff(now_ms()) > 120_000 {
        bad("window", json!({"directory": dir_arg, "chunk_size": chunk, "windows": w}));
        return;
    }
    let at = w[0].0;
    let srv = Client { port };
    let set: LabelSet = vec![("job".into(), "qz7".into()), ("name".into(), format!("c21x{}", i))];
    let mut m = Model::default();
    let cdir = cluster.as_ref().map(|c| stub::shared_dir(&top.join("tikv"), c));
    let contents = || -> BTreeMap<Vec<u8>, Vec<u8>> { cdir.as_ref().map(|c| stub::shared_contents(c)).unwrap_or_default() };
    let mut read = |m: &Model, at_path: &str| -> Result<(), String> {
        match srv.post(at_path, &snappy(&read_request(&[query_eq(&set, 0, i64::MAX)]))) {
            Ok((200, b)) => match parse_answer(200, &b) {
                Ok((_, g)) if g.len() == 1 => compare(&m.expect(&set, 0, u64::MAX), &qout(&g[0])).map_err(|x| x.what),
                o => Err(format!("{:?}", o)),
            },
            o => Err(format!("{:?}", o.map(|x| x.0))),
        }
    };
    // nothing is served elsewhere
    let body_w = |pt: Pt| snappy(&write_request(&[wire(&set, &[pt])]));
    let mut others: Vec<String> = ["/", "/write", "/read", "/w", "/r", "/writ", "/write/", "/read/", "/read/x", "/metrics", "/api/v1/write", "/api/v1/read", "/READ", "//write"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    // what looks like the paths given
    for x in [wpath, rpath] {
        let last = x.chars().last().unwrap();
        others.extend([
            x.to_uppercase(),
            x.to_lowercase(),
            x.replacen(last, &last.to_uppercase().to_string(), 1),
            format!("/{}", x),
            format!("{}/", x),
            format!("{}{}", x, last),
            format!("{}/0", x),
            format!("/x{}", x),
            format!("/./{}", x.trim_start_matches('/')),
            format!("/%{:02x}{}", x.as_bytes().get(1).cloned().unwrap_or(b'w'), x.get(2..).unwrap_or("")),
            x[..x.len() - 1].to_string(),
        ]);
    }
    others.retain(|x| x.starts_with('/') && *x != wpath && *x != rpath);
    r.shuffle(&mut others);
    for x in others.iter().take(12) {
        for wr in [false, true] {
            let b = if wr { body_w((at + 5, 9.0)) } else { snappy(&read_request(&[query_eq(&set, 0, i64::MAX)])) };
            ctx.eval(&(key, "elsewhere", x, wr), true);
            match srv.post(x, &b) {
                Ok((c, _)) if c >= 400 => {}
                o => bad("served-elsewhere", json!({"path": x, "write": wr, "answer": format!("{:?}", o.map(|x| x.0))})),
            }
        }
    }
    for n in 0..3u64 {
        let pt = (at + 10 + n, n as f64 + 0.5);
        let before = contents();
        ctx.eval(&(key, "write", n), true);
        match srv.post(wpath, &body_w(pt)) {
            Ok((200, _)) => m.accept(&set, pt),
            o => return bad("write", json!({"path": wpath, "answer": format!("{:?}", o.map(|x| x.0)), "log": p.log()})),
        }
        // the first write makes the series (index), the others only add samples
        let after = contents();
        ctx.eval(&(key, "where", n), true);
        if cdir.is_some() && tikv_used {
            let has = after.iter().any(|(k, v)| find(k, b"qz7") || find(v, b"qz7"));
            if has != (ix == "tikv") {
                bad("index-backend", json!({"indexer": ix, "labels_in_the_cluster": has}));
            }
            if n > 0 && (before != after) != (st == "tikv") {
                bad("storage-backend", json!({"storage": st, "a_sample_changes_the_cluster": before != after}));
            }
        }
        if let Err(x) = read(&m, rpath) {
            return bad("read", json!({"path": rpath, "what": x}));
        }
    }
    if dry || !tikv_used {
        // no cluster is used at all
        let t: Vec<String> = std::fs::read_dir(top.join("tikv")).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
        if !t.is_empty() {
            bad("uses-a-cluster", json!({"dry_run_or_no_tikv": true, "clusters": t}));
        }
    } else {
        let t: Vec<String> = std::fs::read_dir(top.join("tikv")).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
        if t.len() != 1 || !cdir.as_ref().unwrap().exists() {
            bad("other-cluster", json!({"endpoints": cluster, "clusters": t}));
        }
    }
    // a TiKV storage takes samples in order only, sled in any
    ctx.eval(&(key, "order"), true);
    let c = srv.post(wpath, &body_w((at + 1, 7.0))).map(|x| x.0);
    if c.as_ref().map(|c| (200..300).contains(c)).unwrap_or(false) != (st == "sled") {
        bad("storage-backend", json!({"storage": st, "an_older_sample_is_answered": format!("{:?}", c)}));
    }
    // nothing in the working directory but the data
    let stray: Vec<String> = std::fs::read_dir(&cwd).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| !(dir_rel && n == "data dir")).collect();
    ctx.eval(&(key, "directory"), true);
    if !stray.is_empty() {
        bad("directory", json!({"directory": dir_arg, "also_made": stray}));
    }
    if p.ended().is_some() {
        bad("ended", json!(p.log()));
    }
    drop(p);
    // the directory remembers its backends
    if r.chance(1, 2) {
        let (st2, ix2) = *r.pick(&[("sled", "sled"), ("sled", "tikv"), ("tikv", "sled"), ("tikv", "tikv")]);
        let same = st2 == st && ix2 == ix;
        let port = free_port();
        let args: Vec<String> =
            ["--storage", st2, "--indexer", ix2, "--port", &port.to_string(), "--file_dir", &dir_arg].iter().map(|s| s.to_string()).collect();
        let mut p = launch(&top, &cwd, &args);
        let t0 = Instant::now();
        let served = loop {
            if p.ended().is_some() {
                break false;
            }
            if ports_of(p.child.id()).contains(&port) {
                break true;
            }
            if t0.elapsed().as_secs() > 40 {
                break false;
            }
            sleep_ms(10);
        };
        ctx.eval(&(key, "again", st2, ix2), true);
        if served != same && !p.log().contains("ddress") {
            bad("backends-recorded", json!({"made_with": [st, ix], "opened_with": [st2, ix2], "serves": served, "log": p.log()}));
        }
    }
    if i < 3 {
        ctx.sample(json!({"command_line": base_args, "port": port, "window_s": chunk}));
    }
    rm_rf(&top);
}
fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

struct Client {
    port: u16,
}
impl Client {
    fn post(&self, path: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
        let mut s = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        let mut all = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", path, body.len()).into_bytes();
        all.extend_from_slice(body);
        s.write_all(&all).map_err(|e| e.to_string())?;
        read_response(&mut s)
    }
}

fn invalid(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("invalid", i);
    let top = ctx.dir("c21i");
    let cwd = top.join("cwd");
    let dir = top.join("data");
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::create_dir_all(&dir).unwrap();
    let port = free_port();
    let mut base: Vec<(String, String)> = vec![
        ("--port".into(), port.to_string()),
        ("--file_dir".into(), dir.to_str().unwrap().into()),
        ("--chunk_size".into(), "3600".into()),
    ];
    let mut set = |k: &str, v: &str, base: &mut Vec<(String, String)>| {
        base.retain(|x| x.0 != k);
        base.push((k.into(), v.into()));
    };
    let mut rest: Vec<String> = vec![];
    let mut hold: Option<TcpListener> = None;
    let conf = |text: &[u8]| -> String {
        let f = top.join("bad.yaml");
        std::fs::write(&f, text).unwrap();
        f.to_str().unwrap().into()
    };
    let kind = i % 16;
    let mut clean_end = false;
    match kind {
        0 => set("--port", *r.pick(&["0", "1", "80", "443", "1023", "65536", "65537", "70000", "99999", "-1", "2147483647"]), &mut base),
        1 => set("--port", *r.pick(&["", "abc", "90 01", "9001x", "0x2329", "9001.0", "2147483648", "99999999999999999999", "١٢٣٤"]), &mut base),
        2 => set("--chunk_size", *r.pick(&["", "abc", "-1", "1.5", "1h", "60s", "18446744073709551616", "0", "00", "18446744073709551615", "18446744073709552", "18446744073709551", "36893488147419104", "9300000000000000"]), &mut base),
        3 => set("--worker_num", *r.pick(&["", "abc", "-1", "1.5", "18446744073709551616"]), &mut base),
        4 => set("--storage", *r.pick(&["", "foo", "Sled", "SLED", "sled ", "rocksdb", "tikv,sled", "tikvx"]), &mut base),
        5 => set("--indexer", *r.pick(&["", "foo", "Sled", "TiKV", " sled", "mem", "tikv2"]), &mut base),
        6 => {
            set("--storage", "tikv", &mut base);
            set("--indexer", *r.pick(&["foo", "", "Tikv"]), &mut base)
        }
        7 => rest.push(r.pick(&["--foo", "--port2=1", "extra", "-x", "--Storage=sled"]).to_string()),
        // without its value (clap gives a default to those that have one, also then)
        8 => rest.push("--tikv_config".to_string()),
        9 => {
            set(*r.pick(&["--storage", "--indexer"]), "tikv", &mut base);
            let f = top.join("no such file");
            set("--tikv_config", f.to_str().unwrap(), &mut base)
        }
        10 => {
            set(*r.pick(&["--storage", "--indexer"]), "tikv", &mut base);
            let t: &[u8] = *r.pick(&[
                &b"pd_endpoints: [\n"[..],
                b"pd_endpoints: 5\n",
                b"dry_run: maybe\n",
                b"pd_endpoints: {a: 1}\n",
                b"- a\n- b\n",
                b"\xff\xfe\x00",
                b"just text",
                b"dry_run: [true]\n",
                b"a: b: c\n",
            ]);
            let f = conf(t);
            set("--tikv_config", &f, &mut base)
        }
        11 => {
            set("--tikv_config", dir.to_str().unwrap(), &mut base); // a directory
            set("--storage", "tikv", &mut base)
        }
        12 => {
            let f = top.join("a file");
            std::fs::write(&f, b"x").unwrap();
            set("--file_dir", f.to_str().unwrap(), &mut base)
        }
        13 => {
            // somebody else's port
            if let Ok(l) = TcpListener::bind(("127.0.0.1", port)) {
                hold = Some(l)
            }
        }
        14 => {
            rest.push(r.pick(&["--help", "-h", "--version", "-V"]).to_string());
            clean_end = true;
        }
        _ => {
            // the same option twice
            rest.push(format!("--port={}", free_port()));
        }
    }
    let mut args: Vec<String> = vec![];
    r.shuffle(&mut base);
    for (k, v) in &base {
        if r.chance(1, 2) {
            args.push(format!("{}={}", k, v))
        } else {
            args.extend([k.clone(), v.clone()])
        }
    }
    args.extend(rest);
    let mut p = launch(&top, &cwd, &args);
    let t0 = Instant::now();
    let end = loop {
        if let Some(c) = p.ended() {
            break Some(c);
        }
        let ps = ports_of(p.child.id());
        if !ps.is_empty() {
            ctx.violation("invalid-served", json!({"command_line": args, "listens_on": ps}));
            break None;
        }
        if t0.elapsed().as_secs() > 40 {
            ctx.violation("invalid-hangs", json!({"command_line": args}));
            break None;
        }
        sleep_ms(5);
    };
    ctx.eval(&("invalid", &args[..].iter().filter(|a| !a.contains("/tmp")).collect::<Vec<_>>(), kind), true);
    ctx.count("invalid_command_lines", 1);
    match end {
        Some(0) if !clean_end => ctx.violation("invalid-ended-with-0", json!({"command_line": args})),
        Some(c) if clean_end && c != 0 => ctx.violation("help-ended-with-error", json!({"command_line": args, "status": c})),
        Some(c) if c < 0 => ctx.violation("invalid-killed", json!({"command_line": args, "log": p.log()})),
        _ => {}
    }
    drop(hold);
    rm_rf(&top);
}

/// As many requests at a time as there are workers.
fn workers(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("workers", i);
    let top = ctx.dir("c21w");
    let dir = top.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let n: usize = match i % 4 {
        0 => 1,
        1 => r.us(2, 6),
        2 => r.us(9, 24),
        _ => 8,
    };
    let given = i % 4 != 3 || r.chance(1, 2); // 8 is the default
    let srv = match Server::start(&dir, &Opts { workers: if given { Some(n) } else { None }, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation("workers:start", json!(e)),
    };
    let bad = |class: &str, d: J| ctx.violation(&format!("workers:{}", class), json!({"worker_num": n, "given": given, "detail": d}));
    let sizes = [60_000u64, 2_000_000, 1025, 100_000_000];
    let held_no = AtomicUsize::new(r.below(4) as usize);
    let stall = || -> Option<TcpStream> {
        let mut s = TcpStream::connect(("127.0.0.1", srv.port)).ok()?;
        let len = sizes[held_no.fetch_add(1, Ordering::SeqCst) % sizes.len()];
        s.write_all(format!("POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\nabc", len).as_bytes()).ok()?;
        Some(s)
    };
    let body = snappy(&read_request(&[query_eq(&[("a".into(), "b".into())], 0, 1)]));
    let ask = |limit: Duration| -> Result<u16, String> {
        let mut s = srv.connect()?;
        s.set_read_timeout(Some(limit)).unwrap();
        let mut all = format!("POST /read HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
        all.extend_from_slice(&body);
        s.write_all(&all).map_err(|e| e.to_string())?;
        read_response(&mut s).map(|x| x.0)
    };
    let mut held: Vec<TcpStream> = vec![];
    for k in 0..n {
        // with k stalled there is still one
        if k == n - 1 || r.chance(1, 4) {
            sleep_ms(50);
            ctx.eval(&("workers", i, k), k > 0);
            if let Err(e) = ask(Duration::from_secs(25)) {
                return bad("too-few", json!({"stalled": k, "what": e}));
            }
        }
        match stall() {
            Some(s) => held.push(s),
            None => return bad("connect", json!({"stalled": k})),
        }
    }
    // now there is none, as soon as all of those have been handed to a worker
    let mut served = 0;
    for _ in 0..9 {
        sleep_ms(600);
        ctx.eval(&("workers-all-busy", i), true);
        match ask(Duration::from_millis(700)) {
            Ok(_) => served += 1,
            Err(_) => break,
        }
    }
    if served == 9 {
        bad("too-many", json!({"stalled": held.len(), "what": "another request was still served"}));
    }
    drop(held);
    ctx.eval(&("workers-free-again", i), true);
    if let Err(e) = ask(Duration::from_secs(40)) {
        bad("not-freed", json!(e));
    }
    drop(srv);
    rm_rf(&top);
}

/// The chunks of a running server follow one another at the given size.
fn period(ctx: &Ctx, i: u64) {
    let top = ctx.dir("c21p");
    let dir = top.join("data");
    std::fs::create_dir_all(&dir).unwrap();
    let size = 1 + i % 2;
    let srv = match Server::start(&dir, &Opts { chunk_size: size, ..Opts::default() }) {
        Ok(s) => s,
        Err(e) => return ctx.violation("period:start", json!(e)),
    };
    let t0 = Instant::now();
    while windows(&dir).len() < 4 && t0.elapsed().as_secs() < 60 {
        ctx.beat();
        sleep_ms(50);
    }
    let w = windows(&dir);
    ctx.eval(&("period", i), true);
    ctx.count("windows_followed", w.len() as u64);
    let even = w.windows(2).all(|p| p[1].0 >= p[0].0 + size * 1000);
    if w.len() < 4 || !w.iter().all(|x| x.1 - x.0 == size * 1000) || !even {
        ctx.violation("period", json!({"chunk_size_s": size, "windows": w, "after_s": t0.elapsed().as_secs()}));
    }
    drop(srv);
    rm_rf(&top);
}

/// No options at all.
fn defaults(ctx: &Ctx) {
    let home = self_dir().parent().unwrap().parent().unwrap().join("pwd");
    rm_rf(&home);
    std::fs::create_dir_all(&home).unwrap();
    let top = ctx.dir("c21d");
    let mut p = loop {
        if listens(9001) {
            ctx.count("default_port_taken_by_others", 1);
            rm_rf(&home);
            return;
        }
        let mut p = launch(&top, &home, &[]);
        let t0 = Instant::now();
        loop {
            if p.ended().is_some() || !ports_of(p.child.id()).is_empty() || t0.elapsed().as_secs() > 40 {
                break;
            }
            sleep_ms(10);
        }
        if p.ended().is_some() && p.log().contains("ddress") {
            continue;
        }
        break p;
    };
    let bad = |class: &str, d: J| ctx.violation(&format!("defaults:{}", class), d);
    let ps = ports_of(p.child.id());
    ctx.eval(&"default port", true);
    if ps != vec![9001] {
        bad("port", json!({"listens_on": ps, "ended": p.ended(), "log": p.log()}));
        return;
    }
    let w = windows(&home);
    ctx.eval(&"default window", true);
    if w.len() != 1 || w[0].1 - w[0].0 != 12_000_000 {
        return bad("window", json!({"directory": home, "windows": w}));
    }
    let c = Client { port: 9001 };
    let set: LabelSet = vec![("a".into(), "b".into())];
    let pts = [(w[0].0 + 5, 1.5), (w[0].0 + 3, 2.5)]; // in any order: sled
    let mut m = Model::default();
    for p in pts {
        ctx.eval(&("default write", p.0), true);
        match c.post("/write", &snappy(&write_request(&[wire(&set, &[p])]))) {
            Ok((200, _)) => m.accept(&set, p),
            o => bad("write", json!(format!("{:?}", o))),
        }
    }
    ctx.eval(&"default read", true);
    match c.post("/read", &snappy(&read_request(&[query_eq(&set, 0, i64::MAX)]))).and_then(|x| parse_answer(x.0, &x.1)) {
        Ok((200, g)) if g.len() == 1 && compare(&m.expect(&set, 0, u64::MAX), &qout(&g[0])).is_ok() => {}
        o => bad("read", json!(format!("{:?}", o))),
    }
    ctx.count("default_servers", 1);
    drop(p);
    rm_rf(&home);
}
