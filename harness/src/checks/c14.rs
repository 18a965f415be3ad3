//! C14: what the write ahead log was given is what the log has.
use super::Spec;
use crate::core::*;
use monolith::wal::{Entry, EntryType, FlushPolicy, Segment};
use serde_json::json;
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

pub const SPEC: Spec = Spec {
    id: "C14",
    level: "fault_enumeration",
    rule: "one evaluation = one sequence of log operations on a writer that writes short, is interrupted, or fails at an enumerated call, with \
           the bytes the writer received compared with an independent encoding after every operation; non-trivial = at least 3 entries; distinct \
           by (policy, entries, writer behaviour)",
    assumptions: &["the write ahead log is not used by the database yet: it is observed directly, through the hook that makes it reachable", "periodic writing of the time based policy is not implemented by the repository and not required"],
    run,
};

#[derive(Default)]
struct Sink {
    bytes: Vec<u8>,
    flushed: usize,
    calls: u64,
    fail_at: u64,
    failed: u64,
}
#[derive(Clone)]
struct W(Arc<Mutex<Sink>>, Arc<Mutex<Rng>>, u64);
impl W {
    /// Writers fail in many ways: none of them means that the bytes were taken.
    fn failure(&self) -> io::Error {
        let mut r = self.1.lock().unwrap();
        match r.below(8) {
            0 | 1 => io::Error::new(io::ErrorKind::Other, "injected"),
            2 => io::Error::from_raw_os_error(28),
            3 => io::Error::from_raw_os_error(5),
            4 => io::Error::from_raw_os_error(11),
            5 => io::Error::new(io::ErrorKind::TimedOut, "injected"),
            6 => io::Error::new(io::ErrorKind::WriteZero, "injected"),
            _ => io::Error::new(io::ErrorKind::BrokenPipe, "injected"),
        }
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        s.calls += 1;
        if s.calls == s.fail_at {
            s.failed += 1;
            // a writer also says that it is full by taking nothing
            return if s.calls % 3 == 0 { Ok(0) } else { Err(self.failure()) };
        }
        let mut r = self.1.lock().unwrap();
        let mut n = b.len();
        match self.2 {
            1 => n = n.min(r.us(1, 7)),
            2 => {
                if r.chance(1, 3) {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                n = n.min(r.us(1, 4000));
            }
            _ => {}
        }
        s.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.calls += 1;
        if s.calls == s.fail_at {
            s.failed += 1;
            return Err(self.failure());
        }
        s.flushed = s.bytes.len();
        Ok(())
    }
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}
fn crc64(b: &[u8]) -> u64 {
    let mut c = !0u64;
    for x in b {
        c ^= *x as u64;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xc96c_5795_d787_0f42 } else { c >> 1 };
        }
    }
    !c
}
fn encode(seq: u64, content: &[u8]) -> Vec<u8> {
    let mut v = seq.to_be_bytes().to_vec();
    v.push(0);
    v.extend_from_slice(&(content.len() as u16).to_be_bytes());
    v.extend_from_slice(content);
    v.extend_from_slice(&crc32(content).to_be_bytes());
    v
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Put(u64, Vec<u8>, usize),
    Flush,
}

fn policy(k: u64, limit: usize) -> FlushPolicy {
    match k {
        0 => FlushPolicy::Immediate,
        1 => FlushPolicy::NumBased(limit),
        2 => FlushPolicy::SizeBased(limit),
        _ => FlushPolicy::TimeBased(std::time::Duration::from_millis(limit as u64)),
    }
}
const NAMES: [&str; 4] = ["immediate", "num", "size", "time"];

fn entry(seq: u64, content: &[u8], pieces: usize) -> Entry {
    let mut e = Entry::new(seq, EntryType::Default);
    if pieces <= 1 {
        e.push(content.to_vec());
    } else {
        for c in content.chunks((content.len() / pieces).max(1)) {
            e.push(c.to_vec());
        }
    }
    e
}

/// Runs the operations; `Err` is a violation.  Returns (writer calls, whether every operation succeeded).
fn one(pk: u64, limit: usize, ops: &[Op], style: u64, seed: u64, fail_at: u64, close: bool) -> Result<(u64, bool, usize), (String, String)> {
    let sink = Arc::new(Mutex::new(Sink { fail_at, ..Default::default() }));
    let w = W(sink.clone(), Arc::new(Mutex::new(Rng::new(seed))), style);
    let bad = |c: &str, s: String| (c.to_string(), s);
    let injected = || sink.lock().unwrap().failed > 0;
    let mut seg = match Segment::new(policy(pk, limit), w) {
        Ok(s) => s,
        Err(e) => {
            return if injected() { Ok((sink.lock().unwrap().calls, false, 0)) } else { Err(bad("new-failed", e.to_string())) };
        }
    };
    let mut want: Vec<u8> = 0x57414C0000000000u64.to_be_bytes().to_vec();
    let mut ends = vec![8usize];
    let mut lens: Vec<usize> = vec![];
    let mut stored = 0;
    let mut all_ok = !injected();
    if injected() {
        return Err(bad("error-swallowed", "the writer failed and creating the segment succeeded".into()));
    }
    let mut n = 0;
    // after a failure: what was logged, and whether it was reported as logged
    let mut failed_once = false;
    let mut logged: Vec<(Vec<u8>, bool)> = vec![];
    for op in ops {
        let before = sink.lock().unwrap().failed;
        let res = match op {
            Op::Put(seq, c, pieces) => {
                let e = entry(*seq, c, *pieces);
                let bytes = guard(|| e.get_bytes()).map_err(|p| bad("panic", p))?;
                let too_long = c.len() > 65535;
                if !too_long {
                    let w = encode(*seq, c);
                    if bytes != w || e.clone().get_bytes() != w {
                        return Err(bad("entry-encoding", format!("entry of {} bytes: {} expected {}", c.len(), show_bytes(&bytes), show_bytes(&w))));
                    }
                }
                let l = e.len();
                let r = guard(|| seg.write_entry(e).map_err(|e| e.to_string())).map_err(|p| bad("panic", p))?;
                if too_long {
                    if r.is_ok() {
                        return Err(bad("too-long-taken", format!("an entry of {} bytes, whose length does not fit into the format, was taken", c.len())));
                    }
                    Ok(())
                } else {
                    want.extend_from_slice(&encode(*seq, c));
                    ends.push(want.len());
                    lens.push(l);
                    n += 1;
                    r
                }
            }
            Op::Flush => guard(|| seg.flush().map_err(|e| e.to_string())).map_err(|p| bad("panic", p))?,
        };
        let s = sink.lock().unwrap();
        let now_failed = s.failed > before;
        match (&res, now_failed) {
            _ if failed_once => {}
            (Ok(()), true) => return Err(bad("error-swallowed", format!("the writer failed during {:?} and the log reported success", kind(op)))),
            (Err(e), false) => return Err(bad("error-invented", format!("the writer did not fail and the log reported {}", e))),
            _ => {}
        }
        if !failed_once && !want.starts_with(&s.bytes) {
            let at = s.bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len().min(s.bytes.len()));
            return Err(bad("bytes-differ", format!("after {} entries the writer has {} bytes that differ from the entries' encoding at {}", n, s.bytes.len(), at)));
        }
        if res.is_err() {
            failed_once = true;
        }
        if let Op::Put(seq, c, _) = op {
            if c.len() <= 65535 {
                logged.push((encode(*seq, c), res.is_ok()));
            }
        }
        if failed_once {
            after(&s.bytes[8..], &logged, false).map_err(|x| bad("after-failure", x))?;
            continue;
        }
        if let Some(k) = ends.iter().position(|e| *e == s.bytes.len()) {
            stored = k;
        } else {
            return Err(bad("torn-entry", format!("after a successful operation the writer has {} bytes, in the middle of an entry", s.bytes.len())));
        }
        let pending = n - stored;
        let ok = match (op, pk) {
            (Op::Flush, _) | (_, 0) => pending == 0 && s.flushed == s.bytes.len(),
            (_, 1) => pending < limit.max(1),
            (_, 2) => pending == 0 || lens[stored..].iter().sum::<usize>() < limit,
            _ => true,
        };
        if !ok {
            return Err(bad("policy", format!("{} entries of {} are not written after {:?}, limit {}", pending, n, kind(op), limit)));
        }
        all_ok &= !now_failed;
    }
    if close {
        let before = sink.lock().unwrap().failed;
        let res = guard(|| seg.close().map_err(|e| e.to_string())).map_err(|p| bad("panic", p))?;
        let s = sink.lock().unwrap();
        if failed_once {
            if res.is_ok() {
                // it says that everything is there
                let at = s.bytes.len().max(16) - 8;
                after(&s.bytes[8..at], &logged, true).map_err(|x| bad("closed-after-failure", x))?;
                if s.bytes[at..] != crc64(&s.bytes[8..at]).to_be_bytes() {
                    return Err(bad("closed-after-failure", "the checksum of the closed file is wrong".into()));
                }
            } else {
                after(&s.bytes[8..], &logged, false).map_err(|x| bad("after-failure", x))?;
            }
            return Ok((s.calls, false, n));
        }
        if s.failed > before {
            if res.is_ok() {
                return Err(bad("error-swallowed", "the writer failed during close and the log reported success".into()));
            }
            return Ok((s.calls, false, n));
        }
        if let Err(e) = res {
            return Err(bad("error-invented", e));
        }
        let c = crc64(&want[8..]);
        want.extend_from_slice(&c.to_be_bytes());
        if s.bytes != want {
            return Err(bad("closed-file-differs", format!("{} bytes, expected {} with checksum {:016x}; got the tail {}", s.bytes.len(), want.len(), c, show_bytes(&s.bytes[s.bytes.len().saturating_sub(16)..]))));
        }
        if s.flushed != s.bytes.len() {
            return Err(bad("closed-not-flushed", format!("{} of {} bytes flushed", s.flushed, s.bytes.len())));
        }
    }
    let calls = sink.lock().unwrap().calls;
    Ok((calls, all_ok, n))
}
/// What is on the file after a failed write: intact entries in the order they were logged, then at
/// most one damaged one (or a damaged checksum).  If it was closed successfully, there is nothing
/// damaged, and everything that was reported as logged.
fn after(mut file: &[u8], logged: &[(Vec<u8>, bool)], closed: bool) -> Result<(), String> {
    for (n, (e, ok)) in logged.iter().enumerate() {
        if file.starts_with(e) {
            file = &file[e.len()..];
        } else if closed && *ok {
            return Err(format!("entry {} was reported as logged, the log was closed with success, and the entry is not on the file", n));
        }
    }
    if file.is_empty() {
        return Ok(());
    }
    if closed {
        return Err(format!("{} bytes that are no logged entry on a file that was closed with success", file.len()));
    }
    // a part of one entry, or of the checksum
    if logged.iter().any(|(e, _)| e.starts_with(file)) || file.len() <= 8 {
        return Ok(());
    }
    Err(format!("{} bytes after the intact entries are not the beginning of one entry: {}", file.len(), show_bytes(file)))
}
fn kind(o: &Op) -> &'static str {
    match o {
        Op::Put(..) => "write_entry",
        Op::Flush => "flush",
    }
}

fn run(ctx: &Ctx) {
    assert_eq!(crc32(b"123456789"), 0xcbf4_3926);
    assert_eq!(crc64(b"123456789"), 0x995d_c9bb_df19_39fa);
    let n = ctx.n(4000, 120_000);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("wal", i);
        let pk = i % 4;
        // now and then the cache grows large before it is written
        let large = i % 1000 >= 996;
        let limit = if large { *r.pick(&[4200usize, 9000, 80_000]) } else { *r.pick(&[0usize, 1, 2, 3, 5, 10, 64, 300, 1000]) };
        let ne = if large { r.us(4100, 9500) } else { r.us(0, 25) };
        let mut seq = r.next() >> r.below(64);
        let mut ops = vec![];
        for _ in 0..ne {
            if r.chance(1, if large { 4000 } else { 8 }) {
                ops.push(Op::Flush);
            }
            let len = match r.below(12) {
                _ if large => r.us(0, 12),
                0 => 0,
                1 => r.us(200, 3000),
                2 if i % 20 == 0 => *r.pick(&[65535usize, 65536, 65534, 70_000, 131_072]),
                _ => r.us(0, 60),
            };
            ops.push(Op::Put(seq, (0..len).map(|_| r.next() as u8).collect(), r.us(1, 4)));
            seq = seq.wrapping_add(1 + r.below(3));
        }
        let style = r.below(3);
        let seed = r.next();
        let close = r.chance(3, 4);
        let mut go = |fail_at: u64| -> Option<u64> {
            let res = guard(|| one(pk, limit, &ops, style, seed, fail_at, close));
            ctx.eval(&(pk, limit, &ops, style, seed, fail_at, close), ops.len() >= 3);
            ctx.count("entries", ne as u64);
            if fail_at > 0 {
                ctx.count("writer_failures_injected", 1);
            }
            let (c, w) = match res {
                Ok(Ok((calls, _, _))) => return Some(calls),
                Ok(Err(x)) => x,
                Err(p) => ("panic".into(), p),
            };
            let policy = NAMES[pk as usize];
            let writer = ["whole", "short", "short and interrupted"][style as usize];
            ctx.violation(
                &format!("{}:{}", policy, c),
                json!({"policy": policy, "limit": limit, "what": w, "writer": writer, "fails_at_call": fail_at,
                    "operations": ops.iter().map(|o| match o { Op::Put(s, c, _) => format!("put {} ({} bytes)", s, c.len()), Op::Flush => "flush".into() }).collect::<Vec<_>>()}),
            );
            None
        };
        if let Some(calls) = go(0) {
            if i % 3 == 0 && !large {
                // the writer fails at each of its calls, or at many of them
                let step = (calls / 60).max(1);
                let mut k = 1;
                while k <= calls {
                    if go(k).is_none() {
                        break;
                    }
                    k += step;
                }
            }
        }
        if i < 4 {
            ctx.sample(json!({"policy": NAMES[pk as usize], "limit": limit, "entries": ne}));
        }
    });
}
