//! Independent codec of the Prometheus remote storage messages.
use crate::backends::Pt;
use crate::core::Rng;

pub type WireLabels = Vec<(String, String)>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct WireSeries {
    pub labels: WireLabels,
    pub samples: Vec<(i64, f64)>,
}
#[derive(Clone, Debug)]
pub struct WireQuery {
    pub start: i64,
    pub end: i64,
    pub matchers: Vec<(u64, String, String)>, // type, name, value
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8)
}
pub fn tag(out: &mut Vec<u8>, field: u64, wire: u64) {
    varint(out, field << 3 | wire)
}
pub fn bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    tag(out, field, 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b)
}
fn int(out: &mut Vec<u8>, field: u64, v: i64) {
    if v != 0 {
        tag(out, field, 0);
        varint(out, v as u64)
    }
}
pub fn series(s: &WireSeries) -> Vec<u8> {
    let mut o = vec![];
    for (k, v) in &s.labels {
        let mut l = vec![];
        if !k.is_empty() {
            bytes(&mut l, 1, k.as_bytes());
        }
        if !v.is_empty() {
            bytes(&mut l, 2, v.as_bytes());
        }
        bytes(&mut o, 1, &l);
    }
    for (t, v) in &s.samples {
        let mut p = vec![];
        if v.to_bits() != 0 {
            tag(&mut p, 1, 1);
            p.extend_from_slice(&v.to_bits().to_le_bytes());
        }
        int(&mut p, 2, *t);
        bytes(&mut o, 2, &p);
    }
    o
}
pub fn write_request(v: &[WireSeries]) -> Vec<u8> {
    let mut o = vec![];
    for s in v {
        bytes(&mut o, 1, &series(s));
    }
    o
}
pub fn read_request(v: &[WireQuery]) -> Vec<u8> {
    let mut o = vec![];
    for q in v {
        let mut b = vec![];
        int(&mut b, 1, q.start);
        int(&mut b, 2, q.end);
        for (t, n, val) in &q.matchers {
            let mut m = vec![];
            int(&mut m, 1, *t as i64);
            if !n.is_empty() {
                bytes(&mut m, 2, n.as_bytes());
            }
            if !val.is_empty() {
                bytes(&mut m, 3, val.as_bytes());
            }
            bytes(&mut b, 3, &m);
        }
        bytes(&mut o, 1, &b);
    }
    o
}
pub fn snappy(b: &[u8]) -> Vec<u8> {
    snap::raw::Encoder::new().compress_vec(b).unwrap()
}
pub fn unsnappy(b: &[u8]) -> Result<Vec<u8>, String> {
    snap::raw::Decoder::new().decompress_vec(b).map_err(|e| e.to_string())
}

pub enum Field<'a> {
    Var(u64),
    Fixed64(u64),
    Bytes(&'a [u8]),
    Fixed32(u32),
}
fn get_varint(b: &[u8], at: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*at).ok_or("truncated varint")?;
        *at += 1;
        v |= ((x & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}
pub fn fields(b: &[u8]) -> Result<Vec<(u64, Field<'_>)>, String> {
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        let t = get_varint(b, &mut at)?;
        let f = match t & 7 {
            0 => Field::Var(get_varint(b, &mut at)?),
            1 => {
                let x = b.get(at..at + 8).ok_or("truncated fixed64")?;
                at += 8;
                Field::Fixed64(u64::from_le_bytes(x.try_into().unwrap()))
            }
            2 => {
                let n = get_varint(b, &mut at)? as usize;
                let x = at.checked_add(n).and_then(|e| b.get(at..e)).ok_or("truncated bytes")?;
                at += n;
                Field::Bytes(x)
            }
            5 => {
                let x = b.get(at..at + 4).ok_or("truncated fixed32")?;
                at += 4;
                Field::Fixed32(u32::from_le_bytes(x.try_into().unwrap()))
            }
            w => return Err(format!("wire type {}", w)),
        };
        out.push((t >> 3, f));
    }
    Ok(out)
}
fn text(b: &[u8]) -> Result<String, String> {
    String::from_utf8(b.to_vec()).map_err(|_| "text is not UTF-8".into())
}
pub fn parse_series(b: &[u8]) -> Result<WireSeries, String> {
    let mut s = WireSeries::default();
    for (n, f) in fields(b)? {
        match (n, f) {
            (1, Field::Bytes(l)) => {
                let (mut k, mut v) = (String::new(), String::new());
                for (n, f) in fields(l)? {
                    match (n, f) {
                        (1, Field::Bytes(x)) => k = text(x)?,
                        (2, Field::Bytes(x)) => v = text(x)?,
                        _ => return Err("unexpected field in label".into()),
                    }
                }
                s.labels.push((k, v))
            }
            (2, Field::Bytes(p)) => {
                let (mut t, mut v) = (0i64, 0f64);
                for (n, f) in fields(p)? {
                    match (n, f) {
                        (1, Field::Fixed64(x)) => v = f64::from_bits(x),
                        (2, Field::Var(x)) => t = x as i64,
                        _ => return Err("unexpected field in sample".into()),
                    }
                }
                s.samples.push((t, v))
            }
            _ => return Err("unexpected field in series".into()),
        }
    }
    Ok(s)
}
pub fn parse_write(b: &[u8]) -> Result<Vec<WireSeries>, String> {
    let mut out = vec![];
    for (n, f) in fields(b)? {
        match (n, f) {
            (1, Field::Bytes(x)) => out.push(parse_series(x)?),
            _ => return Err("unexpected field in write request".into()),
        }
    }
    Ok(out)
}
pub fn parse_read_response(b: &[u8]) -> Result<Vec<Vec<WireSeries>>, String> {
    let mut out = vec![];
    for (n, f) in fields(b)? {
        match (n, f) {
            (1, Field::Bytes(r)) => {
                let mut v = vec![];
                for (n, f) in fields(r)? {
                    match (n, f) {
                        (1, Field::Bytes(x)) => v.push(parse_series(x)?),
                        _ => return Err("unexpected field in query result".into()),
                    }
                }
                out.push(v)
            }
            _ => return Err("unexpected field in read response".into()),
        }
    }
    Ok(out)
}
pub fn wire(l: &[(String, String)], p: &[Pt]) -> WireSeries {
    WireSeries { labels: l.to_vec(), samples: p.iter().map(|(t, v)| (*t as i64, *v)).collect() }
}
pub fn query_eq(m: &[(String, String)], a: i64, b: i64) -> WireQuery {
    WireQuery { start: a, end: b, matchers: m.iter().map(|(k, v)| (0, k.clone(), v.clone())).collect() }
}

/// The same messages as other clients write them: fields in any order (those of one kind keep theirs), fields that this version of the protocol does not
/// know (metadata, exemplars, histograms, later ones), hints and accepted response types, default values written out, a scalar given twice (the last counts).
pub struct Dress<'a> {
    pub r: &'a mut Rng,
    pub unknown: u64,
}
impl Dress<'_> {
    /// Merges lists of encoded fields at random, with unknown ones between.
    fn message(&mut self, mut kinds: Vec<Vec<Vec<u8>>>, first_unknown: u64) -> Vec<u8> {
        let mut o = vec![];
        if self.r.chance(2, 3) {
            // in the usual order
            kinds = vec![kinds.concat()];
        }
        let mut kinds: Vec<std::collections::VecDeque<Vec<u8>>> = kinds.into_iter().map(|k| k.into()).collect();
        let odd = self.r.chance(1, 3);
        loop {
            kinds.retain(|k| !k.is_empty());
            if odd && self.r.chance(1, 4) {
                self.unknown(&mut o, first_unknown);
            }
            if kinds.is_empty() {
                return o;
            }
            let n = self.r.below(kinds.len() as u64) as usize;
            o.extend(kinds[n].pop_front().unwrap());
        }
    }
    fn unknown(&mut self, o: &mut Vec<u8>, first: u64) {
        self.unknown += 1;
        let f = if self.r.chance(1, 2) { first } else { self.r.range(first, 4000) };
        match self.r.below(4) {
            0 => {
                tag(o, f, 0);
                varint(o, self.r.next() >> self.r.below(64))
            }
            1 => {
                tag(o, f, 1);
                o.extend_from_slice(&self.r.next().to_le_bytes())
            }
            2 => {
                let n = self.r.below(40);
                let b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                bytes(o, f, &b)
            }
            _ => {
                tag(o, f, 5);
                o.extend_from_slice(&(self.r.next() as u32).to_le_bytes())
            }
        }
    }
    fn scalar(&mut self, field: u64, v: i64) -> Vec<u8> {
        let mut o = vec![];
        if self.r.chance(1, 20) {
            tag(&mut o, field, 0);
            varint(&mut o, self.r.next() >> 2);
        } else if v == 0 && self.r.chance(1, 2) {
            return o;
        }
        tag(&mut o, field, 0);
        varint(&mut o, v as u64);
        o
    }
    fn text(&mut self, field: u64, s: &str) -> Vec<u8> {
        let mut o = vec![];
        if self.r.chance(1, 20) {
            bytes(&mut o, field, b"other");
        } else if s.is_empty() && self.r.chance(1, 2) {
            return o;
        }
        bytes(&mut o, field, s.as_bytes());
        o
    }
    pub fn series(&mut self, s: &WireSeries) -> Vec<u8> {
        let mut labels = vec![];
        for (k, v) in &s.labels {
            let kinds = vec![vec![self.text(1, k)], vec![self.text(2, v)]];
            let l = self.message(kinds, 3);
            let mut b = vec![];
            bytes(&mut b, 1, &l);
            labels.push(b);
        }
        let mut samples = vec![];
        for (t, v) in &s.samples {
            let mut val = vec![];
            if v.to_bits() != 0 || self.r.chance(1, 2) {
                tag(&mut val, 1, 1);
                val.extend_from_slice(&v.to_bits().to_le_bytes());
            }
            let kinds = vec![vec![val], vec![self.scalar(2, *t)]];
            let p = self.message(kinds, 3);
            let mut b = vec![];
            bytes(&mut b, 2, &p);
            samples.push(b);
        }
        self.message(vec![labels, samples], 3)
    }
    pub fn write_request(&mut self, v: &[WireSeries], pad: usize) -> Vec<u8> {
        let mut all = vec![];
        for s in v {
            let s = self.series(s);
            let mut b = vec![];
            bytes(&mut b, 1, &s);
            all.push(b);
        }
        if pad > 0 {
            let mut b = vec![];
            // nothing that compresses
            let junk: Vec<u8> = (0..pad / 8 + 1).flat_map(|_| self.r.next().to_le_bytes()).collect();
            bytes(&mut b, 3, &junk);
            let at = self.r.below(all.len() as u64 + 1) as usize;
            all.insert(at, b);
        }
        self.message(vec![all], 3)
    }
    pub fn read_request(&mut self, v: &[WireQuery]) -> Vec<u8> {
        let mut queries = vec![];
        for q in v {
            let mut matchers = vec![];
            for (t, n, val) in &q.matchers {
                let kinds = vec![vec![self.scalar_exact(1, *t as i64)], vec![self.text(2, n)], vec![self.text(3, val)]];
                let m = self.message(kinds, 4);
                let mut b = vec![];
                bytes(&mut b, 3, &m);
                matchers.push(b);
            }
            let mut hints = vec![];
            if self.r.chance(1, 2) {
                // as Prometheus sends them: what the expression needs, which may be less or more than the query asks for
                let (a, b) = (self.r.below(2000) as i64 - 1000, self.r.below(2000) as i64 - 1000);
                let kinds = vec![
                    vec![self.scalar(1, 15_000)],
                    vec![self.text(2, "rate")],
                    vec![self.scalar(3, q.start.saturating_add(a))],
                    vec![self.scalar(4, q.end.saturating_sub(b))],
                ];
                let h = self.message(kinds, 5);
                let mut b = vec![];
                bytes(&mut b, 4, &h);
                hints.push(b);
            }
            let kinds = vec![vec![self.scalar(1, q.start)], vec![self.scalar(2, q.end)], matchers, hints];
            let b = self.message(kinds, 5);
            let mut o = vec![];
            bytes(&mut o, 1, &b);
            queries.push(o);
        }
        let mut types = vec![];
        if self.r.chance(1, 3) {
            for t in if self.r.chance(1, 2) { vec![0u64] } else { vec![1, 0] } {
                let mut b = vec![];
                tag(&mut b, 2, 0);
                varint(&mut b, t);
                types.push(b);
            }
        }
        self.message(vec![queries, types], 3)
    }
    /// An enumeration: no other value before it.
    fn scalar_exact(&mut self, field: u64, v: i64) -> Vec<u8> {
        let mut o = vec![];
        if v != 0 || self.r.chance(1, 2) {
            tag(&mut o, field, 0);
            varint(&mut o, v as u64);
        }
        o
    }
}
/// Snappy without copies, in literals of any length.
pub fn snappy_literals(b: &[u8], step: usize) -> Vec<u8> {
    let mut o = vec![];
    varint(&mut o, b.len() as u64);
    for c in b.chunks(step.max(1)) {
        let n = c.len() - 1;
        match n {
            0..=59 => o.push((n as u8) << 2),
            60..=0xff => o.extend_from_slice(&[60 << 2, n as u8]),
            _ => {
                o.push(61 << 2);
                o.extend_from_slice(&(n as u16).to_le_bytes())
            }
        }
        o.extend_from_slice(c);
    }
    o
}
