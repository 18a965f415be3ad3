//! C13: the decoders of compacted data are total.
use super::Spec;
use crate::core::*;
use monolith::compaction::{CompactType, Compactor, Decompactor};
use monolith::time_point::TimePoint;
use serde_json::json;

pub const SPEC: Spec = Spec {
    id: "C13",
    level: "exploration",
    rule: "one evaluation = one byte string given to a decompactor: it ends without a panic, an arithmetic overflow or an unbounded number of \
           points, and what it returns is the same every time; non-trivial = the string decodes to at least one point or was made from valid \
           data; distinct by the bytes",
    assumptions: &["built with debug assertions and overflow checks, which turn silent wrapping and out-of-range shifts into panics"],
    run,
};

fn run(ctx: &Ctx) {
    let n = ctx.n(1_200_000, 20_000_000);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("bytes", i);
        let gorilla = i % 4 != 3;
        let mk = || if gorilla { CompactType::Gorilla } else { CompactType::None };
        let style = r.below(6);
        let mut valid = false;
        let mut b: Vec<u8> = match style {
            0 => (0..r.us(0, 40)).map(|_| r.next() as u8).collect(),
            1 => {
                // a plausible head, then noise with long runs
                let mut v: Vec<u8> = (0..16).map(|_| r.next() as u8).collect();
                for _ in 0..r.us(0, 60) {
                    let x = *r.pick(&[0x00, 0xff, 0xf0, 0x0f, 0x80, 0xc0, 0xe0, 0x55]);
                    v.push(if r.chance(1, 2) { x } else { r.next() as u8 });
                }
                v
            }
            _ => {
                valid = true;
                let mut c = Compactor::new(mk());
                let mut t = r.next() >> r.below(60);
                for _ in 0..r.us(0, 20) {
                    c.compact(&TimePoint::new(t, f64::from_bits(r.next() >> r.below(64))));
                    t = t.wrapping_add(r.next() >> r.below(64));
                }
                let mut v = c.get_bytes_vec();
                match style {
                    2 => {
                        for _ in 0..r.us(1, 4) {
                            if !v.is_empty() {
                                let k = r.below(v.len() as u64) as usize;
                                v[k] ^= 1 << r.below(8);
                            }
                        }
                    }
                    3 => {
                        // cut short, with the trailer kept
                        let tag = v.pop().unwrap_or(0);
                        let k = r.us(0, v.len());
                        v.truncate(k);
                        if r.chance(3, 4) {
                            v.push(r.below(9) as u8);
                        }
                        v.push(tag);
                    }
                    4 => {
                        let k = r.us(0, v.len());
                        for _ in 0..r.us(1, 10) {
                            v.insert(k.min(v.len()), r.next() as u8);
                        }
                    }
                    _ => {
                        let k = r.us(0, v.len());
                        v.truncate(k);
                    }
                }
                v
            }
        };
        if style < 2 {
            // a trailer: remaining bits, and the type
            if r.chance(7, 8) {
                b.push(if r.chance(7, 8) { r.below(9) as u8 } else { r.next() as u8 });
            }
            if r.chance(15, 16) {
                b.push(if gorilla { 1 } else { 3 });
            }
        }
        let res = guard(|| {
            let mut d = match Decompactor::from(mk(), b.clone()) {
                Ok(d) => d,
                Err(_) => return (0usize, true),
            };
            let a = d.decompact();
            let c = d.decompact();
            match (a, c) {
                (Ok(a), Ok(c)) => (a.len(), a.len() == c.len() && a.iter().zip(&c).all(|(x, y)| x.timestamp == y.timestamp && x.value.to_bits() == y.value.to_bits())),
                (Err(_), Err(_)) => (0, true),
                _ => (0, false),
            }
        });
        let d = |w: String| json!({"codec": if gorilla {"gorilla"} else {"none"}, "bytes": show_bytes(&b), "what": w});
        match res {
            Err(p) => {
                ctx.eval(&(gorilla, &b), true);
                ctx.violation("decoder:panic", d(p))
            }
            Ok((n, same)) => {
                ctx.eval(&(gorilla, &b), n > 0 || valid);
                ctx.count("points_decoded", n as u64);
                if n > 0 {
                    ctx.count("strings_that_decode_to_something", 1);
                }
                // after the first point of 128 bits every point takes two bits at least
                if n > b.len() * 8 {
                    ctx.violation("decoder:more-points-than-bits", d(format!("{} points from {} bytes", n, b.len())));
                }
                if !same {
                    ctx.violation("decoder:not-repeatable", d("two decodings differ".into()));
                }
            }
        }
        // bytes that say they are of the other type, or of none, are refused
        if b.last() != Some(&if gorilla { 1 } else { 3 }) {
            if let Ok(true) = guard(|| Decompactor::from(mk(), b.clone()).is_ok()) {
                ctx.violation("decoder:takes-another-type", d("accepted though the type does not match".into()));
            }
            ctx.count("strings_of_another_type", 1);
        }
        if i < 3 {
            ctx.sample(json!({"bytes": show_bytes(&b)}));
        }
    });
}
