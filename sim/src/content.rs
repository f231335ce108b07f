//! Message contents: generated from a small description, compared byte for byte.

use serde_json::{Map, Value};
use simcore::{Choices, Rng};
use tchannel_rs::messages::{JsonMessage, RawMessage};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fmt {
    Raw,
    Json,
}

/// What travels: the three parts as the bytes the application handed over.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Content {
    pub fmt: Fmt,
    pub ep: String,
    pub hdr: Vec<u8>,
    pub body: Vec<u8>,
}

fn brief(b: &[u8]) -> String {
    let head: Vec<u8> = b.iter().take(12).cloned().collect();
    let txt = match std::str::from_utf8(&head) {
        Ok(s) if s.chars().all(|c| !c.is_control()) => format!("{:?}", s),
        _ => format!("{:02x?}", head),
    };
    if b.len() > 12 {
        format!("{}..({} bytes, #{:08x})", txt, b.len(), fnv(b) as u32)
    } else {
        format!("{}({} bytes)", txt, b.len())
    }
}

impl std::fmt::Debug for Content {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}[ep {}, hdr {}, body {}]", self.fmt, brief(self.ep.as_bytes()), brief(&self.hdr), brief(&self.body))
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Content {
    pub fn raw(&self) -> RawMessage {
        RawMessage::new(
            self.ep.clone(),
            String::from_utf8(self.hdr.clone()).expect("raw header is a string"),
            self.body.clone().into(),
        )
    }
    pub fn json(&self) -> JsonMessage {
        JsonMessage::new(self.ep.clone(), parse(&self.hdr), parse(&self.body))
    }
    pub fn of_raw(m: &RawMessage) -> Content {
        Content { fmt: Fmt::Raw, ep: m.endpoint().clone(), hdr: m.header().as_bytes().to_vec(), body: m.body().to_vec() }
    }
    pub fn of_json(m: &JsonMessage) -> Content {
        Content { fmt: Fmt::Json, ep: m.method_name().clone(), hdr: print(m.headers()), body: print(m.body()) }
    }
    pub fn args(&self) -> [Vec<u8>; 3] {
        [self.ep.clone().into_bytes(), self.hdr.clone(), self.body.clone()]
    }
    pub fn len(&self) -> usize {
        self.ep.len() + self.hdr.len() + self.body.len()
    }
    pub fn scheme(&self) -> &'static str {
        match self.fmt {
            Fmt::Raw => "raw",
            Fmt::Json => "json",
        }
    }
    /// Contents as the receiver must see them: an absent part of a raw message is an empty one.
    pub fn of_args(scheme: &str, args: &[Vec<u8>]) -> Option<Content> {
        let fmt = match scheme {
            "raw" => Fmt::Raw,
            "json" => Fmt::Json,
            _ => return None,
        };
        let get = |i: usize| args.get(i).cloned().unwrap_or_default();
        Some(Content { fmt, ep: String::from_utf8(get(0)).ok()?, hdr: get(1), body: get(2) })
    }
}

fn parse(b: &[u8]) -> Map<String, Value> {
    match serde_json::from_slice(b).expect("generated JSON parses") {
        Value::Object(m) => m,
        _ => unreachable!(),
    }
}

fn print(m: &Map<String, Value>) -> Vec<u8> {
    serde_json::to_string(m).unwrap().into_bytes()
}

/// Deterministic bytes that differ for every key.
pub fn bytes(key: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(key);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// Deterministic UTF-8 text of exactly n bytes.
pub fn text(key: u64, n: usize) -> String {
    let mut r = Rng::new(key ^ 0x7e87);
    let mut s = String::with_capacity(n);
    let fancy = r.below(4) == 0;
    while s.len() < n {
        let left = n - s.len();
        let x = r.next();
        if fancy && left >= 4 && x % 16 == 0 {
            s.push('\u{1F980}');
        } else if fancy && left >= 3 && x % 16 == 1 {
            s.push('\u{20AC}');
        } else if fancy && left >= 2 && x % 16 == 2 {
            s.push('\u{00DF}');
        } else if fancy && x % 64 == 3 {
            s.push('\0');
        } else {
            s.push((b'!' + ((x >> 8) % 94) as u8) as char);
        }
    }
    s
}

fn json_key(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "\0".into(),
        2 => "a.b[0]".into(),
        3 => "\u{1F980}".into(),
        4 => "\"".into(),
        5 => "\\u0000".into(),
        6 => "$ref".into(),
        7 => "S".into(),
        8 => "s ".into(),
        9 => "1".into(),
        10 => "\u{e9}".into(),
        _ => format!("k{}", r.below(100)),
    }
}

fn json_value(r: &mut Rng, depth: u32) -> Value {
    match r.below(if depth > 0 { 18 } else { 14 }) {
        0 | 1 => Value::Null,
        2 => Value::Bool(true),
        3 => Value::Bool(false),
        4 => Value::from([0i64, -1, 1, i64::MIN, i64::MAX, 1 << 53][r.below(6) as usize]),
        5 => Value::from(u64::MAX),
        6 => Value::from([0.5f64, -0.25, 1e16, 0.0][r.below(4) as usize]),
        7 => Value::from(""),
        8 => Value::from("\0"),
        9 => Value::from(["null", "true", "0", " padded ", "\u{2028}", "\u{7f}", "\\u0000", "\\", "/", "</a>"][r.below(10) as usize]),
        10 => Value::from("\r\n\t\u{8}\u{c}\u{1b}\""),
        11 => Value::from("\u{e9}\u{1F980}\u{10ffff}"),
        12 => Value::Array(vec![]),
        13 => Value::Object(Map::new()),
        14 | 15 => Value::Array((0..1 + r.below(3)).map(|_| json_value(r, depth - 1)).collect()),
        _ => Value::Object((0..1 + r.below(3)).map(|_| (json_key(r), json_value(r, depth - 1))).collect()),
    }
}

/// A JSON object whose text has exactly n bytes where possible (n = 2 gives `{}`).
pub fn json_text(key: u64, n: usize) -> Vec<u8> {
    if n < 9 {
        return b"{}".to_vec();
    }
    let mut r = Rng::new(key ^ 0x15);
    let mut m = Map::new();
    m.insert("s".into(), Value::from(""));
    // values of all kinds, as far as there is room for them
    for _ in 0..r.below(6) {
        let k = json_key(&mut r);
        let v = json_value(&mut r, 3);
        if k == "s" {
            continue;
        }
        let old = m.insert(k.clone(), v);
        if print(&m).len() > n {
            match old {
                Some(o) => m.insert(k, o),
                None => m.remove(&k),
            };
        }
    }
    if n > 80 && r.below(2) == 0 && print(&m).len() + 80 < n {
        m.insert("n".into(), Value::from(r.next() as i64));
        m.insert("f".into(), Value::from((r.below(1000) as f64) / 8.0));
        m.insert("l".into(), Value::Array(vec![Value::Null, Value::Bool(true), Value::from("\u{e9}\n\"")]));
    }
    let base = print(&m).len();
    let pad = n.saturating_sub(base);
    let mut s = String::new();
    let mut r2 = Rng::new(key ^ 0x99);
    while s.len() < pad {
        s.push((b'a' + (r2.next() % 26) as u8) as char);
    }
    m.insert("s".into(), Value::from(s));
    print(&m)
}

pub const FIRST_OVERHEAD: usize = 16 + 1 + 1; // frame header, flags, checksum type
pub const CONT_CAP: usize = 65534 - FIRST_OVERHEAD;

/// Room for arguments (with their 2 byte lengths) in the first frame of a request for a service, of a reply.
pub fn first_cap(service: &str, scheme: &str, request: bool) -> usize {
    let hdrs = 1 + (1 + 2) + (1 + scheme.len()) + (1 + 2) + (1 + service.len());
    let fields = if request { 4 + 25 + 1 + service.len() + hdrs } else { 1 + 25 + hdrs };
    65534 - FIRST_OVERHEAD - fields
}

/// Sizes of endpoint (given), header and body of one message.
pub fn gen_sizes(g: &mut Choices, cap0: usize, ep: usize, max_frames: u32) -> (usize, usize) {
    let small = |g: &mut Choices| -> usize {
        match g.below(6) {
            0 => 8,
            1 => 0,
            2 => 1,
            3 => g.below(64) as usize,
            4 => g.below(1024) as usize,
            _ => 16 + g.below(64) as usize,
        }
    };
    if max_frames <= 1 || !g.chance(1, 2) {
        return (small(g), small(g));
    }
    // capacity boundary after k frames
    let k = g.below(max_frames) as usize;
    let cap = cap0 + k * CONT_CAP;
    let off = g.below(40) as i64 - 16;
    let delta = |x: usize| -> usize { (x as i64 + off).max(0) as usize };
    match g.below(5) {
        // the body ends near the boundary
        0 => {
            let h = small(g);
            (h, delta(cap.saturating_sub(ep + h + 6)))
        }
        // the header ends near the boundary, a small body follows
        1 => (delta(cap.saturating_sub(ep + 4)), small(g)),
        // the header ends near one boundary and the body near a later one
        2 => {
            let h = delta(cap.saturating_sub(ep + 4));
            let b = (cap + CONT_CAP).saturating_sub(ep + h + 6) as i64 + g.below(16) as i64 - 8;
            (h, b.max(0) as usize)
        }
        // any size
        3 => {
            let h = small(g);
            (h, g.below(cap as u32 + 2000) as usize)
        }
        // large header, any body
        _ => (g.below(cap as u32 + 100) as usize, g.below(3000) as usize),
    }
}

/// A content with the given key and sizes.
pub fn make(fmt: Fmt, ep: &str, key: u64, hdr: usize, body: usize) -> Content {
    match fmt {
        Fmt::Raw => Content {
            fmt,
            ep: ep.to_string(),
            hdr: text(key.wrapping_mul(3) + 1, hdr).into_bytes(),
            body: bytes(key.wrapping_mul(3) + 2, body),
        },
        Fmt::Json => Content {
            fmt,
            ep: ep.to_string(),
            hdr: json_text(key.wrapping_mul(3) + 1, hdr),
            body: json_text(key.wrapping_mul(3) + 2, body),
        },
    }
}
