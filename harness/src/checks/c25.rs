//! C25: serving uses nothing up.
use super::c09::tikv_args;
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::io::Write;
use std::net::Shutdown;
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C25",
    level: "exploration",
    rule: "one evaluation = one request (write, read, refused, or cut off) to the real server binary; after each round of some thousand of them, when the \
           server is idle, its threads, open files and resident memory (from /proc) are compared with those after the rounds before; non-trivial = it \
           was answered; distinct by server, round and number",
    assumptions: &[
        "bounds: 40 more threads, 40 more files, and 15 MB more memory after a round of 3000 requests than after the one before, in three rounds in a row, with \
         answers of some 20 KB: what is used up for one request in 75, or 5 KB for each, is seen; a slower loss is not",
        "one malloc arena (MALLOC_ARENA_MAX=1): with one per thread the memory of an idle server goes up and down with what each of them keeps",
        "requests that the HTTP library itself never answers (a known finding of C10) are left out",
        "no rotation falls into the comparison (chunks of a day)",
    ],
    run,
};

fn run(ctx: &Ctx) {
    parallel(8, ctx.n(8, 24), |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
}

#[derive(Debug, Clone, Copy, serde::Serialize)]
struct Use {
    threads: u64,
    files: u64,
    kb: u64,
}
fn used(pid: u32) -> Use {
    let status = std::fs::read_to_string(format!("/proc/{}/status", pid)).unwrap_or_default();
    let get = |k: &str| status.lines().find(|l| l.starts_with(k)).and_then(|l| l.split_whitespace().nth(1)).and_then(|w| w.parse().ok()).unwrap_or(0);
    Use { threads: get("Threads:"), files: std::fs::read_dir(format!("/proc/{}/fd", pid)).map(|d| d.count() as u64).unwrap_or(0), kb: get("VmRSS:") }
}
/// The least of some seconds: connections end, and the library's threads wait a while for more.
fn idle(ctx: &Ctx, pid: u32, enough: impl Fn(&Use) -> bool) -> Use {
    let t0 = Instant::now();
    let mut least = used(pid);
    while t0.elapsed() < Duration::from_secs(20) {
        let u = used(pid);
        least = Use { threads: least.threads.min(u.threads), files: least.files.min(u.files), kb: least.kb.min(u.kb) };
        if enough(&least) && t0.elapsed() > Duration::from_secs(1) {
            break;
        }
        ctx.beat();
        sleep_ms(100);
    }
    least
}

/// Bodies and labels so long that it shows when they are kept.
fn noise(r: &mut Rng) -> Vec<u8> {
    (0..if r.chance(1, 2) { r.us(1, 200) } else { r.us(500_000, 900_000) }).map(|_| r.next() as u8).collect()
}
fn text(r: &mut Rng) -> String {
    (0..if r.chance(1, 4) { r.us(1, 20) } else { r.us(100_000, 200_000) }).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("use", i);
    let kind = REAL[(i % 4) as usize];
    let place = format!("server:{}", kind.name());
    let top = ctx.dir("c25");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let opts = Opts { storage: st, indexer: ix, extra: tikv_args(&top, &mut r, kind), workers: Some(r.us(2, 12)), env: vec![("MALLOC_ARENA_MAX".into(), "1".into())], ..Opts::default() };
    let mut s = match Server::start(&dir, &opts) {
        Ok(s) => s,
        Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
    };
    let base = now_ms() + 10;
    let sets: Vec<LabelSet> = gen::population(&mut r, 10, 4, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    // in two chunks, the first of which is closed
    let mut base2 = base;
    for life in 0..2 {
        if life == 1 {
            sleep_ms(1500);
            s.kill();
            s = match Server::start(&dir, &opts) {
                Ok(s) => s,
                Err(e) => return ctx.violation(&format!("{}:start", place), json!({"what": e})),
            };
            base2 = now_ms() + 10;
        }
        for (k, l) in sets.iter().enumerate() {
            let p: Vec<Pt> = (0..120).map(|n| (base2 + n, (n * 100 + k as u64) as f64)).collect();
            match s.write(&[wire(l, &p)]) {
                Ok(200) => {}
                o => return ctx.violation(&format!("{}:write", place), json!({"what": format!("{:?}", o)})),
            }
        }
    }
    let pid = s.child.id();
    let writes = i / 4 % 2 == 1;
    let rounds = ctx.n(4, 10);
    let mut seen: Vec<Use> = vec![];
    let per_round = ctx.n(3000, 8000);
    let (some, kb) = (per_round / 75, per_round * 5);
    let mut time = base2 + 1000;
    let mut in_a_row = 0;
    let mut round = 0;
    while round < rounds || in_a_row > 0 {
        let n = if round == 0 { per_round / 2 } else { per_round };
        let seeds: Vec<u64> = (0..6).map(|_| r.next()).collect();
        let times = std::sync::atomic::AtomicU64::new(time);
        std::thread::scope(|sc| {
            for (w, seed) in seeds.iter().enumerate() {
                let (s, sets, place, times) = (&s, &sets, &place, &times);
                sc.spawn(move || {
                    let mut r = Rng::new(*seed);
                    for k in 0..n / 6 {
                        if ctx.stop() {
                            return;
                        }
                        let l = r.pick(sets);
                        let all: LabelSet = vec![("zz_all".into(), "1".into())];
                        let (what, path, body) = match r.below(12) {
                            0 => (
                                "undecodable",
                                *r.pick(&["/read", "/write"]),
                                match r.below(4) {
                                    0 => noise(&mut r),
                                    1 => snappy(&noise(&mut r)),
                                    2 => {
                                        let b = write_request(&[wire(l, &[(base2, 1.0)])]);
                                        snappy(&b[..b.len() - 1 - r.below(b.len() as u64 / 2) as usize])
                                    }
                                    _ => {
                                        let b = read_request(&[query_eq(l, 0, i64::MAX)]);
                                        snappy(&b[..b.len() - 1 - r.below(b.len() as u64 / 2) as usize])
                                    }
                                },
                            ),
                            1 => ("elsewhere", *r.pick(&["/", "/metrics", "/read/x"]), if r.chance(1, 2) { vec![] } else { snappy(&noise(&mut r)) }),
                            2 if writes => {
                                // a known series goes on: few samples, so that memory is not used by what is stored
                                let t = times.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                ("write", "/write", snappy(&write_request(&[wire(l, &[(t, 1.0)])])))
                            }
                            3 | 4 => ("read of one", "/read", snappy(&read_request(&[query_eq(l, 0, i64::MAX)]))),
                            5 => ("read of none", "/read", snappy(&read_request(&[query_eq(&[(gen::name(&mut r), text(&mut r))], 0, i64::MAX)]))),
                            6 => {
                                let mut l = l.clone();
                                l.push(("zzz".into(), text(&mut r)));
                                ("out of the window", "/write", snappy(&write_request(&[wire(&l, &[(5, 1.0)])])))
                            }
                            _ => ("read of all", "/read", snappy(&read_request(&[query_eq(&all, if r.chance(1, 2) { 0 } else { base as i64 + r.below(20) as i64 }, base2 as i64 + 100 + r.below(400) as i64)]))),
                        };
                        let answered = if r.chance(1, 10) {
                            if let Ok(mut c) = s.connect() {
                                let mut b = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", path, body.len()).into_bytes();
                                b.extend_from_slice(&body);
                                let m = if r.chance(1, 2) { b.len() } else { r.below(b.len() as u64) as usize };
                                let _ = c.write_all(&b[..m]);
                                let _ = c.shutdown(Shutdown::Both);
                            }
                            ctx.count("requests_cut_off_or_not_waited_for", 1);
                            false
                        } else {
                            match s.post(path, &body) {
                                Ok(_) => true,
                                Err(e) => {
                                    ctx.violation(&format!("{}:no-answer", place), json!({"request": what, "what": e}));
                                    return;
                                }
                            }
                        };
                        ctx.count(&format!("requests:{}", what.replace(' ', "_")), 1);
                        ctx.eval(&(place, i, round, w, k), answered);
                    }
                });
            }
        });
        time = times.load(std::sync::atomic::Ordering::SeqCst);
        if ctx.stop() {
            return;
        }
        let last = seen.last().cloned();
        let u = idle(ctx, pid, |u| last.map(|l| u.threads <= l.threads + some && u.files <= l.files + some && u.kb <= l.kb + kb).unwrap_or(false));
        seen.push(u);
        if let Some(l) = last {
            let what = if u.threads > l.threads + some {
                "threads"
            } else if u.files > l.files + some {
                "files"
            } else if u.kb > l.kb + kb {
                "memory"
            } else {
                ""
            };
            // the first rounds may fill what is used again later, and a single one the allocator's arenas
            in_a_row = if what == "" { 0 } else { in_a_row + 1 };
            if in_a_row == 3 {
                return ctx.violation(&format!("{}:{}", place, what), json!({"where": place, "case": i, "requests_per_round": n, "after_each_round": seen}));
            }
        }
        round += 1;
    }
    if !s.alive() {
        ctx.violation(&format!("{}:ended", place), json!({}))
    }
    let total = |f: fn(&Use) -> u64| seen.last().map(f).unwrap_or(0).saturating_sub(f(&seen[0]));
    ctx.max("most_threads_gained_by_a_server", total(|u| u.threads));
    ctx.max("most_files_gained_by_a_server", total(|u| u.files));
    ctx.max("most_kb_gained_by_a_server", total(|u| u.kb));
    ctx.sample(json!({"server": place, "writes": writes, "after_each_round": seen}));
    rm_rf(&top);
}
