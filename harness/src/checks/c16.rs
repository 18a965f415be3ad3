//! C16: what is written about a chunk is read back the same.
use super::Spec;
use crate::core::*;
use monolith::chunk::ChunkOpts;
use monolith::metadata::DbMetadata;
use monolith::utils::{decode_chunk_dir, encode_chunk_dir};
use serde_json::json;
use std::collections::HashMap;

pub const SPEC: Spec = Spec {
    id: "C16",
    level: "exploration",
    rule: "one evaluation = one chunk window put into a directory name or one set of chunk options put into a directory, and read back; \
           non-trivial = the start is not zero; distinct by the window or options",
    assumptions: &[],
    run,
};

fn edge(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63, 0xffff_ffff, 1 << 32]),
        1 => 1u64 << r.below(64),
        2 => (1u64 << r.below(64)).wrapping_sub(1),
        3 => 1_700_000_000_000 + r.below(1 << 40),
        _ => r.next() >> r.below(64),
    }
}

fn run(ctx: &Ctx) {
    let n = ctx.n(60_000, 3_000_000);
    let mut names: HashMap<String, (u64, u64)> = HashMap::new();
    for i in 0..n {
        let mut r = ctx.rng("name", i);
        let (a, b) = (edge(&mut r), edge(&mut r));
        ctx.eval(&(a, b), a != 0);
        let name = match guard(|| encode_chunk_dir(a, b)) {
            Ok(n) => n,
            Err(p) => {
                ctx.violation("name:panic", json!({"window": [a, b], "what": p}));
                break;
            }
        };
        match guard(|| decode_chunk_dir(name.clone()).ok()) {
            Ok(Some(x)) if x == (a, b) => {}
            o => {
                ctx.violation("name:differs", json!({"window": [a, b], "name": name, "read": format!("{:?}", o)}));
            }
        }
        if name.is_empty() || name.contains('/') || name.contains('\0') || name.len() > 200 {
            ctx.violation("name:not-a-file-name", json!({"window": [a, b], "name": name}));
        }
        if n <= 100_000 {
            if let Some(o) = names.insert(name.clone(), (a, b)) {
                if o != (a, b) {
                    ctx.violation("name:shared", json!({"windows": [o, (a, b)], "name": name}));
                }
            }
        }
        if i < 2 {
            ctx.sample(json!({"window": [a, b], "name": name}));
        }
        if ctx.stop() {
            return;
        }
    }
    // names nobody wrote are refused or read, never a crash
    for i in 0..ctx.n(20_000, 300_000) {
        let mut r = ctx.rng("foreign", i);
        let len = r.us(0, 40);
        let s: String = match r.below(3) {
            0 => (0..len).map(|_| *r.pick(&['0', '1', '9', 'a', 'f', 'F', 'g', '-', '+', '_', ' ', '.', 'é'])).collect(),
            1 => (0..len).map(|_| *r.pick(&['0', 'f'])).collect(),
            _ => (0..len).map(|_| char::from_u32(r.range(1, 0x2fff) as u32).unwrap_or('x')).collect(),
        };
        ctx.eval(&s, true);
        // what no window's name can be
        let hopeless = s.is_empty() || s.chars().enumerate().any(|(k, c)| !c.is_ascii_hexdigit() && (k > 0 || c != '+')) || s.trim_start_matches(|c| c == '+' || c == '0').len() > 32;
        ctx.count(if hopeless { "names_that_must_be_refused" } else { "names_that_may_be_read" }, 1);
        match guard(|| decode_chunk_dir(s.clone()).ok()) {
            Err(p) => ctx.violation("name:panic", json!({"name": s, "what": p})),
            Ok(Some(w)) if hopeless => ctx.violation("name:not-refused", json!({"name": s, "read": w})),
            _ => {}
        }
    }
    // the names of real windows, damaged
    for i in 0..ctx.n(10_000, 100_000) {
        let mut r = ctx.rng("damaged", i);
        let name = encode_chunk_dir(edge(&mut r), edge(&mut r));
        let at = r.us(0, name.len());
        let c = *r.pick(&['g', 'z', ' ', '.', '-', '_', 'x', '/', 'é', ',']);
        let s = format!("{}{}{}", &name[..at], c, &name[at..]);
        ctx.eval(&s, true);
        ctx.count("names_that_must_be_refused", 1);
        match guard(|| decode_chunk_dir(s.clone()).ok()) {
            Err(p) => ctx.violation("name:panic", json!({"name": s, "what": p})),
            Ok(Some(w)) => ctx.violation("name:not-refused", json!({"name": s, "read": w})),
            _ => {}
        }
    }
    // the database's metadata
    for i in 0..ctx.n(2000, 20_000) {
        let mut r = ctx.rng("meta", i);
        let m = DbMetadata { indexer_type: crate::gen::label_value(&mut r), storage_type: crate::gen::label_value(&mut r) };
        ctx.eval(&(&m.indexer_type, &m.storage_type), true);
        ctx.count("database_metadata_written", 1);
        let got = guard(|| serde_json::from_str::<DbMetadata>(&serde_json::to_string(&m).unwrap()).map(|x| (x.indexer_type, x.storage_type)).map_err(|e| e.to_string()));
        if got != Ok(Ok((m.indexer_type.clone(), m.storage_type.clone()))) {
            ctx.violation("metadata:differs", json!({"written": [m.indexer_type, m.storage_type], "read": format!("{:?}", got)}));
        }
    }
    let d = ctx.dir("c16");
    for i in 0..ctx.n(600, 6000) {
        let mut r = ctx.rng("opts", i);
        let mut o = ChunkOpts::default();
        o.start_time = Some(edge(&mut r));
        o.end_time = Some(edge(&mut r));
        if r.chance(1, 2) {
            o.identifier = (0..r.below(40)).map(|_| r.next() as u8).collect();
        }
        // some of them replace what is there already
        let dir = if r.chance(1, 2) { d.join("same") } else { d.join(format!("new-{}/x", i)) };
        ctx.eval(&(&o.start_time, &o.end_time, &o.identifier), true);
        ctx.count("options_written", 1);
        match guard(|| o.write_config_to_dir(&dir).map_err(|e| e.to_string())) {
            Ok(Ok(())) => {}
            x => {
                ctx.violation("options:not-written", json!({"options": format!("{:?}", o), "what": format!("{:?}", x)}));
                continue;
            }
        }
        match guard(|| ChunkOpts::read_config_from_dir(&dir).map_err(|e| e.to_string())) {
            Ok(Ok(x)) if x == o => {}
            x => ctx.violation("options:differ", json!({"written": format!("{:?}", o), "read": format!("{:?}", x)})),
        }
    }
}
