//! Processes of the harness that run the code under test and report back.
use crate::core::*;
use crate::gen::LabelSet;
use crate::http::die_with_parent;
use crate::model::Model;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct End {
    /// exit code, or minus the signal; `None`: it had to be killed
    pub code: Option<i32>,
    pub report: Option<J>,
    pub stderr: String,
}
impl End {
    pub fn told(&self) -> String {
        format!("exit {:?}, {}", self.code, self.stderr.chars().take(600).collect::<String>())
    }
}

/// Runs `mon child <mode> <spec>` to its end.
pub fn run(work: &Path, mode: &str, spec: &J, env: &[(&str, String)], cwd: Option<&Path>, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    std::fs::create_dir_all(work).unwrap();
    let n = hash_of(&(spec.to_string(), mode));
    let sf = work.join(format!("{:x}.spec", n));
    let of = work.join(format!("{:x}.out", n));
    let ef = work.join(format!("{:x}.err", n));
    std::fs::write(&sf, spec.to_string()).unwrap();
    let _ = std::fs::remove_file(&of);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg(mode).arg(&sf).arg(&of);
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&ef).unwrap());
    for (k, v) in env {
        c.env(k, v);
    }
    if let Some(d) = cwd {
        c.current_dir(d);
    }
    die_with_parent(&mut c);
    let mut ch = c.spawn().expect("child");
    let t0 = Instant::now();
    let code = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(0))),
            _ if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => sleep_ms(4),
        }
    };
    let report = std::fs::read_to_string(&of).ok().and_then(|s| serde_json::from_str(&s).ok());
    let stderr = String::from_utf8_lossy(&std::fs::read(&ef).unwrap_or_default()).to_string();
    for f in [&sf, &of, &ef] {
        let _ = std::fs::remove_file(f);
    }
    End { code, report, stderr }
}

pub fn main(args: &[String]) -> i32 {
    let mode = args.first().map(|s| s.as_str()).unwrap_or("");
    let spec: J = match args.get(1).and_then(|f| std::fs::read_to_string(f).ok()).and_then(|s| serde_json::from_str(&s).ok()) {
        Some(s) => s,
        None => return 3,
    };
    let out = args.get(2).cloned().unwrap_or_default();
    let ctx = Ctx::new(spec["id"].as_str().unwrap_or("?"), spec["seed"].as_u64().unwrap_or(1), spec["thorough"].as_bool().unwrap_or(false), "/nonexistent".into());
    let mut extra = json!({});
    let r = guard(|| crate::checks::child(mode, &ctx, &spec, &mut extra));
    let mut rep = ctx.report();
    rep["extra"] = extra;
    if let Err(p) = &r {
        eprintln!("child panicked: {}", p);
        rep["panic"] = json!(p);
    }
    let tmp = format!("{}.tmp", out);
    if std::fs::write(&tmp, rep.to_string()).is_err() || std::fs::rename(&tmp, &out).is_err() {
        return 3;
    }
    if r.is_ok() {
        0
    } else {
        4
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn save_cluster(name: &str, f: &Path) {
    let m: Vec<(String, String)> = tikv_client::stub::cluster(name).snapshot().iter().map(|(k, v)| (hex(k), hex(v))).collect();
    std::fs::write(f, json!(m).to_string()).unwrap();
}
pub fn load_cluster(name: &str, f: &Path) {
    if let Ok(s) = std::fs::read_to_string(f) {
        let m: Vec<(String, String)> = serde_json::from_str(&s).unwrap();
        tikv_client::stub::cluster(name).load(m.into_iter().map(|(k, v)| (unhex(&k), unhex(&v))).collect::<BTreeMap<_, _>>());
    }
}
pub fn save_model(m: &Model, f: &Path) {
    let v: Vec<(&LabelSet, &Vec<(u64, u64)>)> = m.series.iter().collect();
    std::fs::write(f, json!(v).to_string()).unwrap();
}
pub fn load_model(f: &Path) -> Model {
    let mut m = Model::default();
    if let Ok(s) = std::fs::read_to_string(f) {
        let v: Vec<(LabelSet, Vec<(u64, u64)>)> = serde_json::from_str(&s).unwrap();
        m.series = v.into_iter().collect();
    }
    m
}
