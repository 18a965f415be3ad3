//! C22: whatever the clock does, nothing is lost.
use super::c09::{qout, windows};
use super::Spec;
use crate::backends::*;
use crate::core::*;
use crate::gen::{self, LabelSet};
use crate::http::*;
use crate::model::*;
use crate::proto::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const SPEC: Spec = Spec {
    id: "C22",
    level: "exploration",
    rule: "one evaluation = one answer to a read of the real server binary, whose system clock is moved (forward, back, onto times at which chunks \
           begin, or held) while it runs and between its lives, compared with everything that was sent and everything that was readable before; \
           non-trivial = the answer holds samples; distinct by (server, life, step)",
    assumptions: &[
        "the clock is moved by a preloaded library that only the server's process sees; the clocks that sleeping uses go on, as they do on a real system",
        "the clock is never before 1970",
        "a TiKV storage may refuse samples that are not later than the series' last one",
    ],
    run,
};

struct Clock(std::fs::File, PathBuf, std::cell::Cell<i64>);
impl Clock {
    fn new(p: &Path) -> Clock {
        let f = std::fs::File::create(p).unwrap();
        f.write_all_at(&0i64.to_ne_bytes(), 0).unwrap();
        Clock(f, p.into(), 0.into())
    }
    fn put(&self, w: i64) {
        self.2.set(w);
        self.0.write_all_at(&w.to_ne_bytes(), 0).unwrap();
    }
    fn hold(&self, ms: u64) {
        self.put((ms as i64) << 1 | 1)
    }
    /// From this time on, it goes on.
    fn go(&self, ms: u64) {
        self.put((ms as i64 - now_ms() as i64) << 1)
    }
    fn held(&self) -> bool {
        self.2.get() & 1 == 1
    }
    fn now(&self) -> u64 {
        let w = self.2.get();
        if self.held() {
            (w >> 1) as u64
        } else {
            (now_ms() as i64 + (w >> 1)) as u64
        }
    }
}

fn run(ctx: &Ctx) {
    parallel(16, ctx.n(32, 240), |i| {
        if !ctx.stop() {
            one(ctx, i)
        }
    });
}

pub(super) struct S<'a> {
    pub(super) ctx: &'a Ctx,
    pub(super) srv: Server,
    pub(super) place: String,
    pub(super) i: u64,
    pub(super) any_order: bool,
    pub(super) dir: PathBuf,
    pub(super) sets: Vec<LabelSet>,
    pub(super) last: BTreeMap<LabelSet, u64>,
    pub(super) sent: BTreeMap<LabelSet, BTreeSet<(u64, u64)>>,
    pub(super) seen: BTreeMap<LabelSet, BTreeSet<(u64, u64)>>,
    pub(super) no: u64,
    pub(super) story: Vec<String>,
    /// the server may fail: it must not tell wrong things
    pub(super) weak: bool,
    pub(super) failed: bool,
}
impl S<'_> {
    pub(super) fn bad(&self, class: &str, d: serde_json::Value) -> bool {
        let log = std::fs::read_to_string(self.dir.with_extension("server-log")).unwrap_or_default();
        self.ctx.violation(
            &format!("{}:{}", self.place, class),
            json!({"where": self.place, "case": self.i, "detail": d, "story": self.story.iter().rev().take(14).rev().collect::<Vec<_>>(), "windows": windows(&self.dir),
                "server_log_end": log.lines().rev().take(3).collect::<Vec<_>>().join(" | ")}),
        );
        false
    }
    pub(super) fn write(&mut self, r: &mut Rng, times: &[u64]) -> bool {
        let l = r.pick(&self.sets).clone();
        let mut pts: Vec<Pt> = vec![];
        let mut late = false;
        let mut last = *self.last.get(&l).unwrap_or(&0);
        for t in times {
            self.no += 1;
            late |= *t <= last;
            last = last.max(*t);
            pts.push((*t, self.no as f64 * 0.5));
        }
        for p in &pts {
            self.sent.entry(l.clone()).or_default().insert((p.0, p.1.to_bits()));
        }
        self.last.insert(l.clone(), last);
        self.ctx.count("samples_sent", pts.len() as u64);
        match self.srv.write(&[wire(&l, &pts)]) {
            Ok(200) => true,
            Ok(c) if c >= 400 && late && !self.any_order => true,
            _ if self.weak => {
                self.failed = true;
                true
            }
            o => self.bad("write-refused", json!({"what": format!("{:?}", o), "times": times})),
        }
    }
    /// Everything, compared with what was sent and seen.  `Some`: the samples that were not there before.
    pub(super) fn read(&mut self, step: u64) -> Option<usize> {
        let got = match self.srv.read(&[query_eq(&[("zz_all".into(), "1".into())], 0, i64::MAX)]) {
            Ok((200, g)) if g.len() == 1 => qout(&g[0]),
            _ if self.weak => {
                self.failed = true;
                return Some(0);
            }
            o => {
                self.bad("read-failed", json!({"what": format!("{:?}", o)}));
                return None;
            }
        };
        let mut here: BTreeMap<LabelSet, BTreeSet<(u64, u64)>> = BTreeMap::new();
        let n: usize = got.iter().map(|x| x.1.len()).sum();
        self.ctx.eval(&(&self.place, self.i, step), n > 0);
        self.ctx.count("samples_compared", n as u64);
        for (s, pts) in &got {
            if here.contains_key(s) {
                self.bad("series-twice", json!({"series": short(s)}));
                return None;
            }
            let h = here.entry(s.clone()).or_default();
            for w in pts.windows(2) {
                if w[0].0 > w[1].0 {
                    self.bad("not-ascending", json!({"series": short(s), "samples": [w[0].0, w[1].0]}));
                    return None;
                }
            }
            for p in pts {
                let p = (p.0, p.1.to_bits());
                if !h.insert(p) {
                    self.bad("sample-twice", json!({"series": short(s), "sample": p}));
                    return None;
                }
                if !self.sent.get(s).map(|x| x.contains(&p)).unwrap_or(false) {
                    self.bad("sample-unknown", json!({"series": short(s), "sample": p}));
                    return None;
                }
            }
        }
        for (s, old) in &self.seen {
            let h = here.get(s);
            if let Some(p) = old.iter().find(|p| !h.map(|h| h.contains(p)).unwrap_or(false)) {
                let lost = old.iter().filter(|p| !h.map(|h| h.contains(p)).unwrap_or(false)).count();
                self.bad("sample-lost", json!({"series": short(s), "sample": p, "lost_of_series": lost}));
                return None;
            }
        }
        let mut new = 0;
        for (s, h) in here {
            let e = self.seen.entry(s).or_default();
            let before = e.len();
            e.extend(h);
            new += e.len() - before;
        }
        Some(new)
    }
}

fn one(ctx: &Ctx, i: u64) {
    let mut r = ctx.rng("clock", i);
    let kind = REAL[(i % 4) as usize];
    let size = [1u64, 2, 3600, 1, 90][(i / 4 % 5) as usize];
    let millis = size * 1000;
    let place = format!("server:{}", kind.name());
    let top = ctx.dir("c22");
    let dir = top.join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let (st, ix) = kind.name().split_once('/').unwrap();
    let clock = Clock::new(&top.join("clock"));
    let conf = top.join("tikv.yaml");
    std::fs::write(&conf, "pd_endpoints:\n  - 10.1.2.3:2379\ndry_run: false\n").unwrap();
    let shim = self_dir().join("../../clock.so");
    let opts = Opts {
        storage: st,
        indexer: ix,
        chunk_size: size,
        extra: vec!["--tikv_config".into(), conf.to_str().unwrap().into()],
        env: vec![
            ("LD_PRELOAD".into(), shim.to_str().unwrap().into()),
            ("MON_CLOCK".into(), clock.1.to_str().unwrap().into()),
            ("MON_TIKV_DIR".into(), top.join("tikv").to_str().unwrap().into()),
        ],
        ..Opts::default()
    };
    let sets: Vec<LabelSet> = gen::population(&mut r, 4, 3, false)
        .into_iter()
        .map(|mut l| {
            l.push(("zz_all".into(), "1".into()));
            gen::normal(l)
        })
        .collect();
    let first = now_ms() + r.below(1000);
    let mut s: Option<S> = None;
    let lives = ctx.n(3, 6);
    for life in 0..lives {
        if ctx.stop() {
            return;
        }
        let before: BTreeSet<(u64, u64)> = windows(&dir).into_iter().collect();
        let known: Vec<u64> = before.iter().map(|w| w.0).collect();
        let start = |r: &mut Rng| if known.is_empty() { first } else { *r.pick(&known) };
        let how = match r.below(9) {
            _ if life == 0 => {
                clock.go(first);
                "runs"
            }
            0 | 1 | 2 => {
                clock.hold(start(&mut r));
                "stands where a chunk begins"
            }
            3 => {
                clock.hold(start(&mut r) + r.below(3) - 1);
                "stands near where a chunk begins"
            }
            4 => {
                clock.go(first - r.below(100 * 86_400_000));
                "is earlier"
            }
            5 => {
                clock.go(first + r.below(1000 * 86_400_000));
                "is later"
            }
            6 => {
                clock.go(first + millis / 2);
                "is where it was"
            }
            7 => {
                clock.go(r.below(100_000));
                "is at its beginning"
            }
            _ => "is as it was left",
        };
        let told = format!("life {}: the clock {}: {}", life, how, clock.now());
        let srv = match Server::start(&dir, &opts) {
            Ok(x) => x,
            Err(e) => {
                ctx.violation(&format!("{}:does-not-open", place), json!({"where": place, "case": i, "clock": told, "windows": known, "what": e.chars().take(500).collect::<String>(),
                    "story": s.as_ref().map(|s| s.story.clone()).unwrap_or_default()}));
                return;
            }
        };
        ctx.count(&format!("lives_with_the_clock_{}", how.replace(' ', "_")), 1);
        match s.as_mut() {
            Some(s) => s.srv = srv,
            None => {
                s = Some(S {
                    ctx,
                    srv,
                    place: place.clone(),
                    i,
                    any_order: kind.any_order(),
                    dir: dir.clone(),
                    sets: sets.clone(),
                    last: Default::default(),
                    sent: Default::default(),
                    seen: Default::default(),
                    no: 0,
                    story: vec![],
                    weak: false,
                    failed: false,
                })
            }
        }
        let s = s.as_mut().unwrap();
        s.story.push(told);
        if s.read(life * 1000).is_none() {
            return;
        }
        // a window of its own, in which samples are stored
        let made: Vec<(u64, u64)> = windows(&dir).into_iter().filter(|w| !before.contains(w)).collect();
        if size > 60 {
            let Some(w) = made.first().filter(|_| made.len() == 1) else {
                s.bad("windows-made", json!({"made": made}));
                return;
            };
            if w.1 - w.0 != millis {
                s.bad("window-size", json!({"made": made}));
                return;
            }
            let t = r.range(w.0, w.1);
            if !s.write(&mut r, &[t]) {
                return;
            }
            match s.read(life * 1000 + 1) {
                Some(1) => {}
                Some(n) => {
                    s.bad("not-accepted", json!({"time": t, "window": w, "new_samples": n}));
                    return;
                }
                None => return,
            }
        }
        let t0 = Instant::now();
        let mut step = 1;
        while t0.elapsed() < Duration::from_millis(if size <= 2 { ctx.n(6000, 20_000) } else { 700 }) {
            step += 1;
            let now = clock.now();
            let starts: Vec<u64> = windows(&dir).into_iter().map(|w| w.0).collect();
            let to = match r.below(26) {
                0 => Some(("back a little", now - r.below(10), r.chance(1, 2))),
                1 => Some(("on a little", now + r.below(10), r.chance(1, 2))),
                2 => Some(("back", now.saturating_sub(r.below(3 * millis)), false)),
                3 => Some(("on", now + r.below(3 * millis), false)),
                4 => Some(("far back", now.saturating_sub(r.below(40 * 86_400_000)), false)),
                5 => Some(("far on", now + r.below(40 * 86_400_000), false)),
                6 => Some(("stands", now, true)),
                7 | 8 => Some(("onto a chunk", r.pick(&starts) - 1, true)),
                9 => Some(("onto a chunk's end", r.pick(&starts) + millis - r.below(3), true)),
                _ => None,
            };
            if let Some((how, t, hold)) = to {
                s.story.push(format!("{}: {}{}", how, t, if hold { ", held" } else { "" }));
                ctx.count("moves_of_the_clock", 1);
                if hold {
                    clock.hold(t)
                } else {
                    clock.go(t)
                }
            }
            let n = r.us(1, 3);
            let times: Vec<u64> = (0..n)
                .map(|_| {
                    let now = clock.now();
                    match r.below(6) {
                        0 => now + 1 + r.below(millis),
                        1 => r.pick(&starts) + r.below(millis),
                        2 => now.saturating_sub(r.below(millis)),
                        _ => now + r.below(4),
                    }
                })
                .collect();
            if !s.write(&mut r, &times) || s.read(life * 1000 + step).is_none() {
                return;
            }
            sleep_ms(r.below(40));
        }
        // when the clock goes on, so does the database
        clock.go(clock.now() + if r.chance(1, 2) { 0 } else { 1 + r.below(86_400_000) });
        s.story.push(format!("goes on: {}", clock.now()));
        if size <= 2 {
            let t0 = Instant::now();
            let mut again = false;
            while !again && t0.elapsed() < Duration::from_secs(30) {
                if !s.write(&mut r, &[clock.now()]) {
                    return;
                }
                step += 1;
                match s.read(life * 1000 + step) {
                    Some(n) => again = n > 0,
                    None => return,
                }
                sleep_ms(60);
            }
            if !again {
                s.bad("no-more-samples", json!({"clock": clock.now()}));
                return;
            }
        }
        ctx.count("chunks", windows(&dir).len() as u64 - before.len() as u64);
        if clock.held() {
            ctx.count("lives_that_ended_with_the_clock_held", 1);
        }
        sleep_ms(2200); // sled writes its buffers every half second
        if s.read(life * 1000 + 999).is_none() {
            return;
        }
        if !s.srv.alive() {
            s.bad("ended", json!({}));
            return;
        }
        s.srv.kill();
    }
    if i < 3 {
        let s = s.as_ref().unwrap();
        ctx.sample(json!({"server": place, "chunk_size_s": size, "samples_seen": s.seen.values().map(|x| x.len()).sum::<usize>(), "story": s.story.iter().take(6).collect::<Vec<_>>()}));
    }
    rm_rf(&top);
}
