//! C12: compaction is lossless.
use super::Spec;
use crate::core::*;
use crate::gen;
use monolith::compaction::{CompactType, Compactor, Decompactor};
use monolith::time_point::TimePoint;
use serde_json::json;

pub const SPEC: Spec = Spec {
    id: "C12",
    level: "exploration",
    rule: "one evaluation = one sequence of time points compacted, decompacted and compared bit for bit (timestamps and values), as a whole \
           and after every prefix; non-trivial = at least 3 points; distinct by the points",
    assumptions: &["Simple is not implemented by the repository and not exercised"],
    run,
};

fn ct(k: u8) -> CompactType {
    if k == 0 {
        CompactType::Gorilla
    } else {
        CompactType::None
    }
}
pub fn name(k: u8) -> &'static str {
    ["gorilla", "none"][k as usize]
}

/// Deltas of deltas around every width the encoding distinguishes.
fn timestamps(r: &mut Rng, n: usize) -> Vec<u64> {
    let style = r.below(7);
    timestamps_of(r, n, style)
}
fn timestamps_of(r: &mut Rng, n: usize, style: u64) -> Vec<u64> {
    let mut t = match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => r.next(),
        3 => 1u64 << r.below(64),
        _ => 1_700_000_000_000 + r.below(1 << 30),
    };
    let mut d: i64 = match r.below(3) {
        0 => 15_000,
        1 => r.next() as i64,
        _ => r.below(100) as i64,
    };
    let mut v = vec![];
    for _ in 0..n {
        v.push(t);
        let dod: i64 = match style {
            0 => 0,
            1 => r.range(0, 40) as i64 - 20,
            2 | 3 => {
                let b = *r.pick(&[6u32, 7, 8, 12, 13, 14, 15, 16, 17, 19, 20, 30, 31, 32, 33, 62, 63]);
                let x = (1i128 << b) + r.range(0, 4) as i128 - 2;
                (if r.chance(1, 2) { x } else { -x }) as i64
            }
            4 => r.next() as i64,
            5 => (r.next() as i64) >> r.below(64),
            _ => *r.pick(&[0, 1, -1, 127, 128, -127, -128, -129, 32767, 32768, -32768, -32769, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, i64::MAX, i64::MIN]),
        };
        d = d.wrapping_add(dod);
        t = t.wrapping_add(d as u64);
    }
    v
}

fn values(r: &mut Rng, n: usize) -> Vec<f64> {
    let style = r.below(6);
    values_of(r, n, style)
}
fn values_of(r: &mut Rng, n: usize, style: u64) -> Vec<f64> {
    let mut cur = r.next();
    (0..n)
        .map(|i| match style {
            0 => gen::value(r),
            1 => 1.0,
            2 => i as f64,
            // xors with a chosen number of leading and trailing zeros
            3 | 4 => {
                let lead = r.below(64);
                let trail = r.below(64 - lead);
                let w = 64 - lead - trail;
                let mut m = r.next();
                if w < 64 {
                    m &= (1u64 << w) - 1;
                }
                m |= 1;
                m |= 1u64 << (w - 1);
                if r.chance(4, 5) {
                    cur ^= m << trail;
                }
                f64::from_bits(cur)
            }
            _ => {
                if r.chance(1, 3) {
                    cur = r.next() >> r.below(64) << r.below(40);
                }
                f64::from_bits(cur)
            }
        })
        .collect()
}

fn bits(v: &[TimePoint]) -> Vec<(u64, u64)> {
    v.iter().map(|p| (p.timestamp, p.value.to_bits())).collect()
}

fn roundtrip(k: u8, pts: &[TimePoint], stepwise: bool) -> Result<Vec<(u64, u64)>, String> {
    let mut c = Compactor::new(ct(k));
    let bytes = if stepwise {
        for p in pts {
            c.compact(p)
        }
        c.get_bytes_vec()
    } else {
        c.compact_vec(pts.to_vec())
    };
    let mut d = Decompactor::from(ct(k), bytes).map_err(|e| format!("decompactor: {}", e))?;
    let a = d.decompact().map_err(|e| format!("decompact: {}", e))?;
    let b = d.decompact().map_err(|e| format!("decompact again: {}", e))?;
    if bits(&a) != bits(&b) {
        return Err("decompacting twice gives two results".into());
    }
    Ok(bits(&a))
}

fn judge(ctx: &Ctx, k: u8, pts: &[TimePoint], stepwise: bool) -> bool {
    let want = bits(pts);
    ctx.eval(&(k, &want, stepwise), pts.len() >= 3);
    ctx.count("points_compared", want.len() as u64);
    let (class, what) = match guard(|| roundtrip(k, pts, stepwise)) {
        Err(p) => ("panic", p),
        Ok(Err(e)) => ("error", e),
        Ok(Ok(got)) if got != want => {
            let i = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])).unwrap_or(want.len());
            ("differs", format!("{} points in, {} out; first difference at {}: {:?} became {:?}", want.len(), got.len(), i, want.get(i), got.get(i)))
        }
        _ => return true,
    };
    ctx.violation(&format!("{}:{}", name(k), class), json!({"codec": name(k), "stepwise": stepwise, "what": what, "points": want.iter().take(12).collect::<Vec<_>>(), "n": want.len()}));
    false
}

fn run(ctx: &Ctx) {
    let n = ctx.n(200_000, 3_000_000);
    parallel(8, n, |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("seq", i);
        let k = if i % 5 == 4 { 1 } else { 0 };
        let len = match r.below(8) {
            _ if i % 20_011 == 11 => r.us(4_000, 9_000),
            0 => r.us(0, 2),
            1 => r.us(3, 5),
            7 => r.us(60, 300),
            _ => r.us(3, 40),
        };
        let ts = timestamps(&mut r, len);
        let vs = values(&mut r, len);
        let pts: Vec<TimePoint> = ts.iter().zip(&vs).map(|(t, v)| TimePoint::new(*t, *v)).collect();
        judge(ctx, k, &pts, r.chance(1, 2));
        if i % 16 == 0 && len < 1000 {
            // the bytes are readable after every point
            for m in 0..pts.len().min(40) {
                if !judge(ctx, k, &pts[..m], true) {
                    break;
                }
            }
            // and the compactor can go on after its bytes were taken
            let r2 = guard(|| {
                let mut c = Compactor::new(ct(k));
                for p in &pts {
                    c.compact(p);
                    let _ = c.get_bytes_vec();
                }
                let mut d = Decompactor::from(ct(k), c.get_bytes_vec()).ok()?;
                d.decompact().ok().map(|v| bits(&v))
            });
            ctx.eval(&(k, "taken", bits(&pts)), pts.len() >= 3);
            if r2.as_ref().ok().cloned().flatten() != Some(bits(&pts)) {
                ctx.violation(&format!("{}:taking-bytes-disturbs", name(k)), json!({"codec": name(k), "points": bits(&pts).iter().take(12).collect::<Vec<_>>()}));
            }
        }
        if i < 3 {
            ctx.sample(json!({"codec": name(k), "points": bits(&pts).iter().take(5).collect::<Vec<_>>(), "n": len}));
        }
    });
    // long sequences: values whose window of significant bits stays small, and all the others
    parallel(8, ctx.n(15, 48), |i| {
        if ctx.stop() {
            return;
        }
        let mut r = ctx.rng("long", i);
        let len = if i < 12 { r.us(65_560, 70_000) } else if i == 12 { r.us(1_050_000, 1_100_000) } else if i < 15 { r.us(270_000, 300_000) } else { r.us(131_100, 1_100_000) };
        let ts = timestamps_of(&mut r, len, i % 7);
        let vs = if i % 2 == 0 {
            let mut x = 100_000u64;
            (0..len)
                .map(|_| {
                    x = (x + r.below(3)).saturating_sub(1);
                    x as f64 * if i % 4 == 0 { 1.0 } else { 0.25 }
                })
                .collect()
        } else {
            values_of(&mut r, len, (i / 2) % 6)
        };
        let pts: Vec<TimePoint> = ts.iter().zip(&vs).map(|(t, v)| TimePoint::new(*t, *v)).collect();
        judge(ctx, 0, &pts, i % 3 == 0);
        ctx.count("points_in_long_sequences", len as u64);
    });
    // every pair of (leading, trailing) zeros after every other: 64*65/2 windows
    for lead in 0..64u64 {
        for trail in 0..(64 - lead) {
            let w = 64 - lead - trail;
            let x = if w == 64 { 0x8000_0000_0000_0001u64 } else { ((1u64 << (w - 1)) | 1) << trail };
            let mut r = ctx.rng("window", lead * 64 + trail);
            let y = r.next() >> r.below(64);
            let pts: Vec<TimePoint> =
                [0u64, x, x, 0, y, y ^ x].iter().enumerate().map(|(i, b)| TimePoint::new(1000 + 7 * i as u64, f64::from_bits(*b))).collect();
            if !judge(ctx, 0, &pts, false) {
                break;
            }
            ctx.count("windows_of_significant_bits", 1);
        }
    }
}
