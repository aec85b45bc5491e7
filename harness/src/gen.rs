//! Value generators.
use crate::dynp::*;
use crate::rng::Rng;

const PIECES: &[&str] = &[
    "a", "Z", "0", "9", "foo", "bar", " ", "  ", "+", "%", "%2F", "%41", "%zz", "%", "%%", "/", "//", "?", "#", "&", "=",
    ";", ":", "@", "!", "$", "'", "(", ")", "*", ",", "[", "]", "<", ">", "\"", "\\", "^", "`", "{", "|", "}", "~", "-",
    ".", "_", "..", "./", "../", "é", "ß", "ÿ", "日本語", "\u{200d}", "🦀", "\u{feff}", "\u{0301}", "Ω", "true",
    "false", "null", "None", "-1", "1e5", "NaN", "x=1&y=2", "a;b", "http://h/p", "data:x", "\u{7f}", "\u{80}", "\u{a0}",
    "\u{10ffff}", "\u{fffd}", "\u{2028}", "&amp;", "amp;", "lt;", "&#39;", "[]", "[0]", "$ne", "\\n", "\\u0041", "\\x41", "${x}",
    "{{x}}", "%s", "%n", "{}", "{0}", "=?utf-8?B?YQ==?=", "utf-8\'\'a", "0x", "--", "/*", "<!--", "%00", "%0d%0a", "%26", "%3D", "%25",
    "undefined", "Infinity", "on", "off", "yes", "no", "()", "e9", "1_0",
];
const CTRL: &[&str] = &["\0", "\u{1}", "\u{8}", "\u{b}", "\u{c}", "\u{1f}"];
const BREAK: &[&str] = &["\t", "\r", "\n", "\r\n", "\r\nX-Evil: 1", "\n\n", "\r\n\r\nGET /evil HTTP/1.1\r\n\r\n"];

#[derive(Clone, Copy, PartialEq)]
pub enum Alpha {
    /// Any text including control characters and line breaks.
    Any,
    /// Text that may appear in a header value.
    HeaderOk,
}

/// A random string. Empty, single-piece, mixed, random code points or long.
pub fn string(r: &mut Rng, a: Alpha) -> String {
    let s = match r.below(21) {
        20 => number_like(r),
        0 => String::new(),
        1..=4 => r.pick(PIECES).to_string(),
        5..=12 => (0..r.range(2, 6)).map(|_| *r.pick(PIECES)).collect(),
        13..=15 => (0..r.range(1, 12)).map(|_| code_point(r)).collect(),
        16 => (0..r.range(1, 3))
            .map(|_| if r.chance(1, 2) { *r.pick(CTRL) } else { *r.pick(PIECES) })
            .collect(),
        17 => (0..r.range(1, 3))
            .map(|_| if r.chance(1, 3) { *r.pick(BREAK) } else { *r.pick(PIECES) })
            .collect(),
        18 => r.pick(&[".", "..", "...", ".a", "a.", "%2e", "%2E%2e", "..%2f", "", " ", "~", "index.html"]).to_string(),
        _ => long(r),
    };
    match a {
        Alpha::Any => s,
        Alpha::HeaderOk => s
            .chars()
            .filter(|c| *c >= ' ' && *c != '\u{7f}')
            .collect::<String>()
            .trim_matches(|c| c == ' ' || c == '\t')
            .to_owned(),
    }
}
/// Longer text, of ordinary and of boundary lengths, ASCII or with multi-byte characters.
fn long(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => *r.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        1 => *r.pick(&[700usize, 1000, 1023, 1024, 1025, 1200]),
        _ => r.range(50, 400),
    };
    if n < 600 && r.chance(1, 4) {
        let c = *r.pick(&['é', '日', '🦀']);
        let lead = r.below(4);
        let mut s: String = (0..lead).map(|_| 'a').collect();
        while s.len() < n {
            s.push(c);
        }
        return s;
    }
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn number_like(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["007", "+5", "-0", "1.0", "0x10", "1_000", "1,5", "1e3", "TRUE", "False", "0", "1", "inf", "-inf", "nan", "٣", "１２", ""]).to_string(),
        1 => (r.next() as i64).to_string(),
        2 => r.next().to_string(),
        _ => (r.below(100000) as f64 / 64.0).to_string(),
    }
}
fn code_point(r: &mut Rng) -> char {
    loop {
        let max = *r.pick(&[0x7f, 0xff, 0x7ff, 0xffff, 0x10ffff]);
        let c = r.range(0x20, max) as u32;
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub const SCALARS: &[Ty] = &[
    Ty::Bool,
    Ty::I8,
    Ty::I16,
    Ty::I32,
    Ty::I64,
    Ty::U8,
    Ty::U16,
    Ty::U32,
    Ty::U64,
    Ty::F32,
    Ty::F64,
    Ty::NewU32,
];
pub fn ty(r: &mut Rng) -> Ty {
    match r.below(10) {
        0..=4 => Ty::Str,
        5 => Ty::NewStr,
        _ => *r.pick(SCALARS),
    }
}
fn int(r: &mut Rng, min: i128, max: i128) -> i128 {
    match r.below(10) {
        8 | 9 => {
            // around powers of two and ten
            let p = if r.chance(1, 2) { 1i128 << r.below(64) } else { 10i128.pow(r.below(20) as u32) };
            let v = p + r.below(3) as i128 - 1;
            (if r.chance(1, 3) { -v } else { v }).max(min).min(max)
        }
        0 => min,
        1 => max,
        2 => 0,
        3 => (min + 1).min(max),
        4 => max - 1,
        5 => {
            let v = r.below(200) as i128 - 100;
            v.max(min).min(max)
        }
        _ => {
            let span = (max - min) as u128 + 1;
            let x = ((r.next() as u128) << 64 | r.next() as u128) % span;
            min + x as i128
        }
    }
}
pub fn val(r: &mut Rng, t: Ty, a: Alpha) -> Val {
    match t {
        Ty::Bool => Val::Bool(r.chance(1, 2)),
        Ty::I8 => Val::I8(int(r, i8::MIN as i128, i8::MAX as i128) as i8),
        Ty::I16 => Val::I16(int(r, i16::MIN as i128, i16::MAX as i128) as i16),
        Ty::I32 => Val::I32(int(r, i32::MIN as i128, i32::MAX as i128) as i32),
        Ty::I64 => Val::I64(int(r, i64::MIN as i128, i64::MAX as i128) as i64),
        Ty::U8 => Val::U8(int(r, 0, u8::MAX as i128) as u8),
        Ty::U16 => Val::U16(int(r, 0, u16::MAX as i128) as u16),
        Ty::U32 => Val::U32(int(r, 0, u32::MAX as i128) as u32),
        Ty::U64 => Val::U64(int(r, 0, u64::MAX as i128) as u64),
        Ty::NewU32 => Val::NewU32(int(r, 0, u32::MAX as i128) as u32),
        Ty::F32 => Val::F32(match r.below(14) {
            12 => (r.below(2_000_000) as f32 - 1_000_000.0) / 64.0,
            13 => 10f32.powi(r.below(70) as i32 - 35),
            0 => 0.0,
            1 => -0.0,
            2 => f32::MAX,
            3 => f32::MIN_POSITIVE,
            4 => f32::from_bits(1),
            5 => f32::INFINITY,
            6 => f32::NEG_INFINITY,
            7 => f32::NAN,
            8 => 0.1,
            9 => 16777217.0,
            _ => loop {
                let f = f32::from_bits(r.next() as u32);
                if !f.is_nan() {
                    break f;
                }
            },
        }),
        Ty::F64 => Val::F64(match r.below(14) {
            12 => (r.below(2_000_000_000) as f64 - 1e9) / 64.0,
            13 => 10f64.powi(r.below(40) as i32 - 20) * if r.chance(1, 2) { 1.0 } else { -1.0 },
            0 => 0.0,
            1 => -0.0,
            2 => f64::MAX,
            3 => f64::MIN_POSITIVE,
            4 => f64::from_bits(1),
            5 => f64::INFINITY,
            6 => f64::NEG_INFINITY,
            7 => f64::NAN,
            8 => 0.1,
            9 => 1e21,
            _ => loop {
                let f = f64::from_bits(r.next());
                if !f.is_nan() {
                    break f;
                }
            },
        }),
        Ty::Str => Val::Str(string(r, a)),
        Ty::NewStr => Val::NewStr(string(r, a)),
        Ty::Bytes => Val::Bytes(if a == Alpha::HeaderOk {
            let mut v: Vec<u8> = (0..r.below(30))
                .map(|_| loop {
                    let b = r.next() as u8;
                    if b >= 0x20 && b != 0x7f {
                        break b;
                    }
                })
                .collect();
            while v.first() == Some(&b' ') {
                v.remove(0);
            }
            while v.last() == Some(&b' ') {
                v.pop();
            }
            v
        } else {
            let n = r.below(30);
            r.bytes(n)
        }),
    }
}

/// Text form of a value as the wire format documents it (decimal, true/false, the string itself).
pub fn text(v: &Val) -> Vec<u8> {
    match v {
        Val::Bool(b) => b.to_string().into_bytes(),
        Val::I8(x) => x.to_string().into_bytes(),
        Val::I16(x) => x.to_string().into_bytes(),
        Val::I32(x) => x.to_string().into_bytes(),
        Val::I64(x) => x.to_string().into_bytes(),
        Val::U8(x) => x.to_string().into_bytes(),
        Val::U16(x) => x.to_string().into_bytes(),
        Val::U32(x) => x.to_string().into_bytes(),
        Val::U64(x) => x.to_string().into_bytes(),
        Val::NewU32(x) => x.to_string().into_bytes(),
        Val::F32(x) => x.to_string().into_bytes(),
        Val::F64(x) => x.to_string().into_bytes(),
        Val::Str(s) | Val::NewStr(s) => s.clone().into_bytes(),
        Val::Bytes(b) => b.clone(),
    }
}
pub fn val_key(v: &Val) -> String {
    match v {
        Val::Str(s) | Val::NewStr(s) => s.clone(),
        v => format!("{:?}", v),
    }
}

/// Percent-encodes with random choices: what must be escaped always is, anything else sometimes.
pub fn pct_random(r: &mut Rng, bytes: &[u8], keep: &[u8]) -> String {
    let level = r.below(4);
    let mut o = String::new();
    for b in bytes {
        let safe = b.is_ascii_alphanumeric() || keep.contains(b);
        if safe && !(level == 3 || (level == 2 && r.chance(1, 3))) {
            o.push(*b as char);
        } else if r.chance(1, 2) {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push_str(&format!("%{:02x}", b));
        }
    }
    o
}
pub fn pct_decode(s: &str, plus: bool) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            o.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else if plus && b[i] == b'+' {
            o.push(b' ');
            i += 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Some(o)
}

pub const QUERY_NAMES: &[&str] = &[
    "a", "b", "c", "id", "name", "type", "a b", "ü", "a[0]", "k=v", "x&y", "%41", "A", "snake_case", "日本", "#h", "+",
    "q?", "user-agent", "a.b", "0", "path", "query", "header", "", "status", "aa", "ab", "a%20b", ";",
];
pub const HEADER_NAMES: &[&str] = &[
    "x-a", "x-b", "x-c", "accept", "authorization", "x-request-id", "etag", "if-match", "cookie", "x_under", "x.dot",
    "x!", "host", "user-agent", "content-type", "date", "x-very-long-header-name-that-goes-on-and-on", "a", "x-1",
    "content-language", "location", "range", "x-a-b", "x-aa", "content-lengths", "status", "path", "vary", "x-",
];
