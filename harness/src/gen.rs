//! Generators of label sets, values and timestamps.
use crate::core::Rng;

pub type LabelSet = Vec<(String, String)>; // sorted by name, names unique

pub const SPECIAL_VALUES: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::MAX,
    f64::MIN,
    f64::MIN_POSITIVE,
    f64::EPSILON,
    0.1,
    1e-300,
    1e300,
    123456789.123456789,
];

/// Any 64-bit pattern may come out, with the special ones over-represented.
pub fn value(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 | 1 => *r.pick(SPECIAL_VALUES),
        2 => f64::from_bits(0x7ff0_0000_0000_0002), // Prometheus stale marker
        3 => f64::from_bits(0x7ff8_0000_0000_0001), // Prometheus NaN
        4 => f64::from_bits(r.next()),
        5 => f64::from_bits(1 << r.below(64)),
        6 => (r.below(1000) as f64) / 10.0,
        7 => r.below(100) as f64,
        8 => f64::from_bits(0xfff8_0000_0000_0000 | r.below(1 << 50)),
        _ => (r.next() as i64 as f64) * 1e-9,
    }
}

const NAME1: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const NAMEN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";

/// Prometheus label name: [a-zA-Z_][a-zA-Z0-9_]*
pub fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "__name__".into(),
        1 => r.pick(&["job", "instance", "le", "Rfoo", "foo", "R", "L", "I1", "LR", "TS1", "I", "TP", "Ra", "a"]).to_string(),
        2 => {
            let n = r.us(30, 200);
            let mut s = String::new();
            s.push(*r.pick(NAME1) as char);
            for _ in 0..n {
                s.push(*r.pick(NAMEN) as char)
            }
            s
        }
        _ => {
            let n = r.us(0, 8);
            let mut s = String::new();
            s.push(*r.pick(NAME1) as char);
            for _ in 0..n {
                s.push(*r.pick(NAMEN) as char)
            }
            s
        }
    }
}

/// A name that is easily taken for another one.
pub fn name_like(r: &mut Rng, o: &str) -> String {
    match r.below(7) {
        0 => o.to_uppercase(),
        1 => o.to_lowercase(),
        2 => o.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => format!("{}_", o),
        4 => format!("_{}", o),
        5 => format!("{}{}", o, r.below(10)),
        _ => o.chars().rev().collect::<String>().trim_start_matches(|c: char| c.is_ascii_digit()).to_string() + "a",
    }
}

/// A name, often one that looks like one of those.
pub fn name_among<'a>(r: &mut Rng, others: &[&'a String]) -> String {
    if !others.is_empty() && r.chance(1, 3) {
        let o = r.pick(others).to_string();
        return name_like(r, &o);
    }
    name(r)
}

pub fn plain_value(r: &mut Rng) -> String {
    let n = r.us(1, 12);
    (0..n).map(|_| *r.pick(NAMEN) as char).collect()
}

/// Label value: any non-empty UTF-8 string.
pub fn label_value(r: &mut Rng) -> String {
    match r.below(14) {
        0..=4 => plain_value(r),
        5 => format!("{},{}={}", plain_value(r), name(r), plain_value(r)),
        6 => r
            .pick(&[
                ",", "=", "\\", "\\,", ",\\", "\\\\", "a,", ",a", "a,,b", "=a", "a=", "==", "a=b=c", "a\\", "\\a", " ", "\n", "\t", "\"", "'", "\0",
                "a\0b", "I1", "L", "LR", "R", "1,2", "1", "-1", "{}", "%2C", "%", "\u{1}", "\u{7f}",
            ])
            .to_string(),
        7 => r.pick(&["é", "日本語", "🦀", "a\u{301}", "ß,ü", "\u{202e}x", "\u{feff}", "Ω=1", "mañana"]).to_string(),
        8 => {
            let n = r.us(1, 20);
            (0..n).map(|_| char::from_u32(r.range(1, 0xd7ff) as u32).unwrap_or('x')).collect()
        }
        9 => {
            let n = r.us(1, 10);
            (0..n).map(|_| *r.pick(&[',', '=', '\\', 'a', 'b', 'R', '"', ' '])).collect()
        }
        10 => {
            let n = r.us(100, 3000);
            (0..n).map(|_| *r.pick(NAMEN) as char).collect()
        }
        11 => format!("/{}/{}?x={}&y={}", plain_value(r), plain_value(r), plain_value(r), plain_value(r)),
        12 => format!("{:016x}", r.next()),
        _ => r.below(30).to_string(),
    }
}

pub fn normal(mut l: LabelSet) -> LabelSet {
    l.sort();
    l
}

/// A label set with `n` distinct names.
pub fn label_set(r: &mut Rng, n: usize, plain: bool) -> LabelSet {
    let mut v: LabelSet = vec![];
    while v.len() < n {
        let k = name_among(r, &v.iter().map(|x: &(String, String)| &x.0).collect::<Vec<_>>());
        if v.iter().any(|x| x.0 == k) {
            continue;
        }
        let val = if plain { plain_value(r) } else { label_value(r) };
        v.push((k, val));
    }
    normal(v)
}

/// A population of distinct label sets over a small shared vocabulary (so that
/// pairs are shared between series), with random extras and near-duplicates.
pub fn population(r: &mut Rng, n: usize, max_labels: usize, plain: bool) -> Vec<LabelSet> {
    let nk = r.us(1, 6).max(if max_labels > 6 { 6 } else { 1 });
    let mut keys: Vec<String> = vec![];
    while keys.len() < nk {
        let k = name_among(r, &keys.iter().collect::<Vec<_>>());
        if !keys.contains(&k) {
            keys.push(k)
        }
    }
    let nv = r.us(2, 5);
    let vals: Vec<Vec<String>> = (0..nk)
        .map(|_| (0..nv).map(|_| if plain { plain_value(r) } else { label_value(r) }).collect())
        .collect();
    let mut out: Vec<LabelSet> = vec![];
    let mut tries = 0;
    while out.len() < n && tries < n * 20 {
        tries += 1;
        let mut set: LabelSet = vec![];
        for i in 0..nk {
            if set.len() < max_labels && r.chance(3, 4) {
                set.push((keys[i].clone(), r.pick(&vals[i]).clone()));
            }
        }
        let extras = r.below(3) as usize;
        for _ in 0..extras {
            if set.len() >= max_labels {
                break;
            }
            let k = name_among(r, &set.iter().map(|x| &x.0).collect::<Vec<_>>());
            if !set.iter().any(|x| x.0 == k) {
                set.push((k, if plain { plain_value(r) } else { label_value(r) }));
            }
        }
        // near-duplicate of an earlier series: one label more, fewer or different
        if !out.is_empty() && r.chance(1, 4) {
            set = r.pick(&out).clone();
            match r.below(4) {
                0 if set.len() > 1 => {
                    let i = r.below(set.len() as u64) as usize;
                    set.remove(i);
                }
                1 => {
                    let i = r.below(set.len() as u64) as usize;
                    set[i].1 = if plain { plain_value(r) } else { label_value(r) };
                }
                2 => {
                    let i = r.below(set.len() as u64) as usize;
                    set[i].1.push(*r.pick(&['x', 'R', '1']));
                }
                _ if set.len() < max_labels => {
                    let k = name(r);
                    if !set.iter().any(|x| x.0 == k) {
                        set.push((k, if plain { plain_value(r) } else { label_value(r) }));
                    }
                }
                _ => {}
            }
        }
        if set.is_empty() {
            continue;
        }
        let set = normal(set);
        if !out.contains(&set) {
            out.push(set);
        }
    }
    out
}

/// A set of many labels.
pub fn wide(r: &mut Rng) -> LabelSet {
    let n = *r.pick(&[17usize, 18, 20, 24, 31, 32, 33, 33, 36, 40, 63, 64, 65, 66, 130]);
    let m = r.range(2, 5);
    normal((0..n).map(|k| (format!("w{:03}", k), format!("v{}", k as u64 % m))).collect())
}

/// Families of label sets that collide under a naive textual encoding.
pub fn collision_family(r: &mut Rng) -> Vec<LabelSet> {
    let a = name(r);
    let mut b = name_among(r, &[&a]);
    while b == a {
        b = name(r)
    }
    let x = plain_value(r);
    let y = plain_value(r);
    let s = |v: &[(&str, &str)]| -> LabelSet { normal(v.iter().map(|(k, w)| (k.to_string(), w.to_string())).collect()) };
    let fam = match r.below(17) {
        10 => {
            // equal to the eye, after a normalisation, a decoding or a trimming
            let all = [
                vec!["\u{e9}", "e\u{301}", "\u{c9}", "e"],
                vec!["\u{212a}", "K", "k", "\u{ff2b}"],
                vec!["\u{df}", "ss", "SS", "\u{1e9e}"],
                vec!["x", "x\0", "x\0y", "\0x", "\0"],
                vec!["x", "x\n", "x\r\n", "\tx", "x\u{a0}", "x ", "x\u{200b}", "\u{feff}x"],
                vec!["1", "01", "1.0", "+1", "1e0", "1,"],
                vec![",", "%2C", "&#44;", "\u{ff0c}", "\\u002c", "\\x2c"],
                vec!["x", "\"x\"", "'x'", "{x}", "\\x", "x\\"],
                vec!["\n", "\\n", "\\\n", "\\\\n", "n"],
                vec!["\u{1f980}", "\u{1f980}\u{fe0f}", "\u{fffd}", "?", "\u{fffd}\u{fffd}"],
            ];
            let f = r.pick(&all).clone();
            let mut v: Vec<LabelSet> = f.iter().map(|w| s(&[(&a, w)])).collect();
            v.extend(f.iter().take(3).map(|w| s(&[(&a, w), (&b, f[0])])));
            v
        }
        11 => {
            // long, and different only far from the beginning
            let n = *r.pick(&[120usize, 250, 253, 255, 256, 509, 1021, 1024, 4090, 16_380, 65_530, 65_536, 70_000]);
            let w: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
            vec![s(&[(&a, &w)]), s(&[(&a, &format!("{}x", w))]), s(&[(&a, &format!("{}y", w))]), s(&[(&a, &format!("{}x", w)), (&b, &y)]), s(&[(&a, &w[..n - 1])])]
        }
        13 => {
            // names that differ only far from the beginning, or only in length
            let n = *r.pick(&[31usize, 63, 127, 255, 256, 257, 511, 1023, 4095, 65_535]);
            let w: String = (0..n).map(|k| (b'a' + (k % 23) as u8) as char).collect();
            let (wx, wy) = (format!("{}x", w), format!("{}y", w));
            vec![s(&[(&w, &x)]), s(&[(&wx, &x)]), s(&[(&wy, &x)]), s(&[(&wx, &x), (&wy, &y)]), s(&[(&wx, &y), (&wy, &x)]), s(&[(&w, &wx)])]
        }
        14 => {
            // many labels: one less, one more, or the last one different
            let w = wide(r);
            let (mut less, mut more, mut other, mut first) = (w.clone(), w.clone(), w.clone(), w.clone());
            less.pop();
            more.push(("zz".into(), y.clone()));
            let n = w.len() - 1;
            other[n].1.push('x');
            first[0].1.push('x');
            vec![w, less, more, other, first]
        }
        12 => {
            // names that are others' prefixes, and names that are values
            let l = format!("{}{}", a, a);
            vec![s(&[(&a, &x)]), s(&[(&l, &x)]), s(&[(&a, &l)]), s(&[(&l, &a)]), s(&[(&a, &a)]), s(&[(&a, &x), (&l, &x)]), s(&[(&a, &l), (&l, &a)])]
        }
        15 => {
            // names that Prometheus would not accept, and that hold what separates names and values
            let f = |t: &str| t.replace('A', &a).replace('B', &b).replace('X', &x).replace('Y', &y);
            let all: [&[&[(&str, &str)]]; 6] = [
                &[&[("A", "X=Y")], &[("A=X", "Y")], &[("A\\", "X=Y")], &[("A=", "X")], &[("A", "=X")], &[("=A", "X")]],
                &[&[("A", "X"), ("B", "Y")], &[("A=X,B", "Y")], &[("A,B", "Y")], &[("A,", "X"), ("B", "Y")], &[("A", "X,"), ("B", "Y")], &[("A", "X"), (",B", "Y")]],
                &[&[("A\\", "X")], &[("A\\\\", "X")], &[("A\\=", "X")], &[("A\\,", "X")], &[("\\A", "X")], &[("A", "\\X")], &[("A", "X")]],
                &[&[("", "X")], &[("A", "X")], &[("", "A=X")], &[("=", "X")], &[("", "=X")], &[("", "X"), ("A", "X")]],
                &[&[("A ", "X")], &[("A", "X")], &[(" A", "X")], &[("A\0", "X")], &[("A\n", "X")], &[("a\u{e9}", "X")], &[("ae\u{301}", "X")]],
                &[&[("A", "X"), ("A,", "Y")], &[("A", "X,A\\,=Y")], &[("A", "X"), ("A=", "Y")], &[("A", "X"), ("A\\", "Y")], &[("A", "X"), ("A ", "Y")]],
            ];
            r.pick(&all).iter().map(|l| normal(l.iter().map(|(k, w)| (f(k), f(w))).collect())).collect()
        }
        16 => {
            // names and values of one character, from the whole range
            let c = |r: &mut Rng| char::from_u32(*r.pick(&[0, 1, 9, 32, 0x21, 0x2b, 0x2c, 0x2d, 0x3b, 0x3c, 0x3d, 0x3e, 0x5b, 0x5c, 0x5d, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff])).unwrap_or('=').to_string();
            let mut v: Vec<LabelSet> = vec![];
            for _ in 0..r.us(4, 8) {
                let mut l: LabelSet = vec![];
                for _ in 0..r.us(1, 3) {
                    let k = if r.chance(1, 5) { String::new() } else { c(r) };
                    if l.iter().all(|(n, _)| *n != k) {
                        l.push((k, (0..r.us(1, 2)).map(|_| c(r)).collect()))
                    }
                }
                v.push(normal(l))
            }
            v
        }
        0 => vec![s(&[(&a, &x), (&b, &y)]), s(&[(&a, &format!("{},{}={}", x, b, y))]), s(&[(&b, &format!("{},{}={}", y, a, x))])],
        1 => vec![s(&[(&format!("R{}", a), &x)]), s(&[(&a, &x)])],
        2 => vec![
            s(&[(&a, &format!("{}\\", x)), (&b, &y)]),
            s(&[(&a, &format!("{}\\,{}={}", x, b, y))]),
            s(&[(&a, &format!("{},{}={}", x, b, y))]),
            s(&[(&a, &format!("{}\\\\,{}={}", x, b, y))]),
        ],
        3 => vec![s(&[(&a, &format!("{},", x))]), s(&[(&a, &x)]), s(&[(&a, &format!("{},,", x))]), s(&[(&a, &format!(",{}", x))])],
        4 => vec![s(&[(&a, &format!("{}={}", x, y))]), s(&[(&a, &format!("{}=={}", x, y))]), s(&[(&a, &format!("={}={}", x, y))])],
        5 => vec![s(&[(&a, &x)]), s(&[(&a, &x.to_uppercase()), (&b, &y)]), s(&[(&a, &format!(" {}", x))]), s(&[(&a, &format!("{} ", x))])],
        6 => vec![s(&[(&format!("R{}", a), &x), (&b, &y)]), s(&[(&a, &format!("{},{}={}", x, b, y))]), s(&[(&a, &x), (&b, &y)])],
        7 => vec![
            s(&[(&a, "\\")]),
            s(&[(&a, "\\\\")]),
            s(&[(&a, ",")]),
            s(&[(&a, "\\,")]),
            s(&[(&a, ",,")]),
            s(&[(&a, "\\\\,")]),
            s(&[(&a, "=")]),
        ],
        8 => {
            let (l, u) = (format!("a{}", a.to_lowercase()), format!("A{}", a.to_lowercase()));
            let w = format!("{}{}", x, y);
            let (c, d) = (format!("{}b", l), format!("{}B", l));
            vec![
                s(&[(&l, &x), (&u, &w)]),
                s(&[(&l, &w), (&u, &x)]),
                s(&[(&l, &x), (&u, &x)]),
                s(&[(&l, &x)]),
                s(&[(&u, &x)]),
                s(&[(&c, &x), (&d, &w), (&l, &y), (&u, &y)]),
                s(&[(&l, &x.to_lowercase()), (&c, &x.to_uppercase())]),
                s(&[(&l, &x.to_uppercase()), (&c, &x.to_lowercase())]),
            ]
        }
        _ => vec![
            s(&[(&a, &x), (&b, &y)]),
            s(&[(&a, &y), (&b, &x)]),
            s(&[(&a, &format!("{}{}", x, y)), (&b, &y)]),
            s(&[(&a, &x), (&b, &format!("{}{}", y, y))]),
            s(&[(&format!("{}{}", a, b), &x)]),
        ],
    };
    let mut out: Vec<LabelSet> = vec![];
    for f in fam {
        let mut names: Vec<&String> = f.iter().map(|x| &x.0).collect();
        names.dedup();
        if names.len() == f.len() && !out.contains(&f) {
            out.push(f)
        }
    }
    out
}

pub fn key_of(l: &LabelSet) -> String {
    format!("{:?}", l)
}
