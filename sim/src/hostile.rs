//! Streams of bytes that no proper peer would send.

use crate::content::*;
use crate::env::*;
use crate::peer::*;
use crate::wire::*;
use std::collections::VecDeque;

/// What a hostile client aims at.
#[derive(Clone, Debug)]
pub struct Target {
    pub regs: Vec<Reg>,
}

fn some_call(r: &mut Rng, t: &Target, ty: u8, key: u64) -> Call {
    let reg = &t.regs[r.below(t.regs.len() as u32) as usize];
    let n = [0usize, 10, 30, 300][r.below(4) as usize];
    let x = make(reg.fmt, &reg.ep, key, n, n / 2 + 8);
    let mut c = Call { ttl: 1000, service: reg.service.clone(), tracing: vec![0; 25], ..Call::default() };
    if ty == CALL_REQ || ty == CALL_RES {
        c.headers = vec![("as".into(), x.scheme().into()), ("cn".into(), "h".into())];
    }
    c.args = x.args().to_vec();
    c
}

/// One or more frames, most of them broken in some way; never more than about 200 kB.
pub fn nasty(r: &mut Rng, t: &Target, ids: &mut Vec<u32>, key: u64) -> Vec<u8> {
    let id = if !ids.is_empty() && r.below(3) == 0 {
        ids[r.below(ids.len() as u32) as usize]
    } else {
        let i = match r.below(6) {
            0 => 0,
            1 => u32::MAX,
            _ => r.next() as u32,
        };
        ids.push(i);
        i
    };
    let mut c = some_call(r, t, CALL_REQ, key);
    match r.below(38) {
        // proper
        0 | 1 => frame(CALL_REQ, id, &call_payload(CALL_REQ, &c)),
        2 | 3 => {
            let st = style(r);
            let args: [Vec<u8>; 3] = [c.args[0].clone(), c.args[1].clone(), c.args[2].clone()];
            let s = c.headers[0].1.clone();
            encode(r, &st, true, id, &c.service, 0, &s, &args).into_iter().flatten().collect()
        }
        // a message that is never finished
        4 | 5 => {
            c.flags = 1;
            let mut b = frame(CALL_REQ, id, &call_payload(CALL_REQ, &c));
            for _ in 0..r.below(5) {
                let k = Call { flags: 1, args: vec![bytes(key, r.below(2000) as usize)], ..Call::default() };
                b.extend(frame(CALL_REQ_C, id, &call_payload(CALL_REQ_C, &k)));
            }
            b
        }
        // a continuation of nothing
        6 => {
            let k = Call { flags: r.below(2) as u8, args: vec![bytes(key, 20)], ..Call::default() };
            frame(CALL_REQ_C, id, &call_payload(CALL_REQ_C, &k))
        }
        // an id twice in flight
        7 => {
            c.flags = 1;
            let mut b = frame(CALL_REQ, id, &call_payload(CALL_REQ, &c));
            let d = some_call(r, t, CALL_REQ, key + 1);
            b.extend(frame(CALL_REQ, id, &call_payload(CALL_REQ, &d)));
            let k = Call { flags: 0, args: vec![vec![]], ..Call::default() };
            b.extend(frame(CALL_REQ_C, id, &call_payload(CALL_REQ_C, &k)));
            b
        }
        8 => {
            let d = some_call(r, t, CALL_REQ, key + 1);
            let mut b = frame(CALL_REQ, id, &call_payload(CALL_REQ, &c));
            b.extend(frame(CALL_REQ, id, &call_payload(CALL_REQ, &d)));
            b
        }
        // frames of the other direction
        9 if r.below(2) == 0 => {
            let ty = [CALL_REQ_C, CALL_RES, CALL_RES_C, INIT_REQ, CLAIM, ERROR, PING_RES][r.below(7) as usize];
            frame(ty, id, &call_payload(CALL_REQ, &c))
        }
        9 => frame(CALL_RES, id, &call_payload(CALL_RES, &some_call(r, t, CALL_RES, key))),
        10 => frame(ERROR, id, &error_payload([0u8, 1, 5, 9, 0xff][r.below(5) as usize], &text(key, 30))),
        11 => frame(INIT_REQ, id, &init_payload(2, &init_headers(r))),
        12 => frame(INIT_RES, id, &init_payload(2, &vec![])),
        13 => frame([CANCEL, CLAIM, PING_RES, CALL_RES_C][r.below(4) as usize], id, &bytes(key, r.below(60) as usize)),
        // pings, also with a payload
        14 => {
            let mut b = vec![];
            for i in 0..1 + r.below(60) {
                b.extend(frame(PING_REQ, id.wrapping_add(i), &[]));
            }
            b
        }
        15 => frame(PING_REQ, id, &bytes(key, r.below(300) as usize)),
        // a payload cut short
        16..=18 => {
            let p = call_payload(CALL_REQ, &c);
            let n = r.below(p.len() as u32) as usize;
            frame(CALL_REQ, id, &p[..n])
        }
        // one byte changed
        19..=21 => {
            let mut p = call_payload(CALL_REQ, &c);
            let n = r.below(p.len().min(60) as u32) as usize;
            p[n] = match r.below(3) {
                0 => p[n] ^ (1 << r.below(8)),
                1 => 0xff,
                _ => r.next() as u8,
            };
            frame(CALL_REQ, id, &p)
        }
        // lengths that lie
        22 => {
            let mut p = call_payload(CALL_REQ, &c);
            let n = p.len();
            let at = n - c.args[2].len() - 2;
            p[at..at + 2].copy_from_slice(&([0xffffu16, 0, 1, 0x8000][r.below(4) as usize]).to_be_bytes());
            frame(CALL_REQ, id, &p)
        }
        // too many or too few arguments
        23 => {
            match r.below(4) {
                0 => c.args.clear(),
                1 => {
                    c.args.truncate(1);
                }
                2 => c.args.push(bytes(key, 9)),
                _ => c.args = vec![vec![]; 3 + r.below(4000) as usize],
            }
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        // checksums, flags, ttl, tracing
        24 => {
            match r.below(5) {
                0 => c.csum_type = 1 + r.below(255) as u8,
                1 => c.flags = r.next() as u8 & !1,
                2 => c.ttl = 0,
                3 => c.tracing = bytes(key, 25),
                _ => c.headers.push(("as".into(), ["raw", "json", "thrift", "", "zzz"][r.below(5) as usize].into())),
            }
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        // headers
        25 => {
            match r.below(3) {
                0 => c.headers.clear(),
                1 => c.headers[0].1 = ["thrift", "http", "sthrift", "", "RAW", "\u{1F980}"][r.below(6) as usize].into(),
                _ => c.headers = (0..r.below(250)).map(|i| (format!("k{}", i % 7), "v".into())).collect(),
            }
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        // an endpoint that is not UTF-8, or a service that is not
        26 => {
            c.args[0] = vec![0xff, 0xfe, 0x80];
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        27 => {
            let mut p = call_payload(CALL_REQ, &c);
            p[1 + 4 + 25 + 1] = 0xff;
            frame(CALL_REQ, id, &p)
        }
        // a header or body that cannot be decoded
        28 => {
            let k = 1 + r.below(2) as usize;
            c.args[k] = [vec![0xff, 0xff], b"{".to_vec(), b"[]".to_vec(), vec![], b"{\"a\":1}x".to_vec()][r.below(5) as usize].clone();
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        // deep JSON
        29 => {
            let n = 1 + r.below(30_000) as usize;
            c.args[2] = [b"{\"a\":".to_vec(), "[".repeat(n).into_bytes()].concat();
            frame(CALL_REQ, id, &call_payload(CALL_REQ, &c))
        }
        // the frame itself is wrong
        30 => {
            let mut b = frame(CALL_REQ, id, &call_payload(CALL_REQ, &c));
            match r.below(3) {
                0 => {
                    b[0] = 0;
                    b[1] = r.below(16) as u8;
                }
                1 => b[2] = r.next() as u8,
                _ => {
                    // reserved bytes do not matter
                    b[3] = 7;
                    b[9] = 1;
                }
            }
            b
        }
        // noise
        31 => bytes(key, 1 + r.below(400) as usize),
        32 => b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(),
        // a proper beginning whose end is of another kind, or of another id
        34..=37 => {
            c.flags = 1;
            let keep = 1 + r.below(3) as usize;
            let rest: Vec<Vec<u8>> = std::iter::once(vec![]).chain(c.args.drain(keep..)).collect();
            let mut b = frame(CALL_REQ, id, &call_payload(CALL_REQ, &c));
            let k = Call { flags: 0, args: rest, ..Call::default() };
            let cont = call_payload(CALL_REQ_C, &k);
            for _ in 0..1 + r.below(2) {
                let ty = [CALL_RES_C, CALL_RES, CALL_REQ, CALL_RES_C, CANCEL, PING_RES, ERROR, CALL_RES_C][r.below(8) as usize];
                b.extend(match r.below(8) {
                    0 => frame(CALL_REQ_C, id.wrapping_add(1), &cont),
                    _ => frame(ty, id, &cont),
                });
            }
            b
        }
        // an empty frame of any type
        _ => frame(
            [INIT_REQ, INIT_RES, CALL_REQ, CALL_RES, CALL_REQ_C, CALL_RES_C, CANCEL, CLAIM, PING_RES, ERROR][r.below(10) as usize],
            id,
            &[],
        ),
    }
}

/// Parses what a generous reader might accept: only what makes it a call with arguments matters.
pub fn lenient(ty: u8, b: &[u8]) -> Option<Call> {
    let mut r = Rd::new(b);
    let mut c = Call { flags: r.u8().ok()?, ..Call::default() };
    if ty == CALL_REQ {
        c.ttl = r.u32().ok()?;
    }
    if ty == CALL_RES {
        c.code = r.u8().ok()?;
    }
    if ty == CALL_REQ || ty == CALL_RES {
        r.take(25).ok()?;
    }
    if ty == CALL_REQ {
        c.service = r.str1().ok()?;
    }
    if ty == CALL_REQ || ty == CALL_RES {
        let n = r.u8().ok()?;
        for _ in 0..n {
            c.headers.push((r.str1().ok()?, r.str1().ok()?));
        }
    }
    c.csum_type = r.u8().ok()?;
    if c.csum_type != 0 {
        r.take(4).ok()?;
    }
    while r.left() > 0 {
        let n = r.u16().ok()? as usize;
        c.args.push(r.take(n).ok()?.to_vec());
    }
    Some(c)
}

/// A message that a generous reader might find in a stream.
#[derive(Clone, Debug)]
pub struct Maybe {
    pub id: u32,
    pub first: Call,
    pub args: Vec<Vec<u8>>,
    pub end: usize,
}

/// Every beginning of a message together with the continuations that follow under its id. Over-approximates.
pub fn maybe_messages(b: &[u8], ty: u8, cont: u8) -> Vec<Maybe> {
    let fs = frames_lenient(b);
    let mut out = vec![];
    for (i, f) in fs.iter().enumerate() {
        if f.ty != ty {
            continue;
        }
        let c = match lenient(ty, &f.payload) {
            Some(c) => c,
            None => continue,
        };
        let mut a = Assembly::default();
        a.add(&c.args);
        let mut more = c.more();
        let mut end = f.end;
        for g in fs[i + 1..].iter().filter(|g| g.ty == cont && g.id == f.id) {
            if !more {
                break;
            }
            let k = match lenient(cont, &g.payload) {
                Some(k) => k,
                None => break,
            };
            a.add(&k.args);
            more = k.more();
            end = g.end;
        }
        if !more {
            out.push(Maybe { id: f.id, first: c, args: a.args, end });
        }
    }
    out
}

fn frames_lenient(b: &[u8]) -> Vec<Frame> {
    frames(b).0
}

/// Whether a content that a handler or a caller got is the one of these arguments.
pub fn same(c: &Content, args: &[Vec<u8>]) -> bool {
    let get = |i: usize| args.get(i).map(|a| &a[..]).unwrap_or(&[]);
    let ep = get(0) == c.ep.as_bytes();
    match c.fmt {
        Fmt::Raw => ep && get(1) == &c.hdr[..] && get(2) == &c.body[..],
        Fmt::Json => {
            let canon = |b: &[u8]| serde_json::from_slice::<serde_json::Map<String, serde_json::Value>>(b).ok().map(|m| serde_json::to_vec(&m).unwrap());
            ep && canon(get(1)).as_ref() == Some(&c.hdr) && canon(get(2)).as_ref() == Some(&c.body)
        }
    }
}

/// What a server may answer to the request with the given id instead of what it should; `good` is the proper answer.
pub fn nasty_reply(r: &mut Rng, id: u32, service: &str, good: &Content, key: u64) -> VecDeque<Vec<u8>> {
    let mut c = Call { tracing: vec![0; 25], ..Call::default() };
    c.headers = vec![("as".into(), good.scheme().into())];
    c.args = good.args().to_vec();
    let mut limit = |v: Vec<u8>| {
        // replies may be long; only what fits in a frame is sent here
        let mut v = v;
        v.truncate(65_000);
        v
    };
    let res = |c: &Call| {
        let mut p = call_payload(CALL_RES, c);
        p.truncate(65_519);
        p
    };
    let _ = service;
    let mut out = VecDeque::new();
    match r.below(26) {
        0 => {
            let n = r.below(res(&c).len() as u32) as usize;
            out.push_back(frame(CALL_RES, id, &res(&c)[..n]));
        }
        1 | 2 => {
            let mut p = res(&c);
            let n = r.below(p.len().min(50) as u32) as usize;
            p[n] ^= 1 << r.below(8);
            out.push_back(frame(CALL_RES, id, &p));
        }
        3 => {
            c.code = 2 + r.below(254) as u8;
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        4 => {
            c.headers[0].1 = ["raw", "json", "thrift", "", "http"][r.below(5) as usize].into();
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        5 => {
            c.headers.clear();
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        // the rest never comes
        6 | 7 => {
            c.flags = 1;
            let cut = r.below(3) as usize;
            c.args.truncate(1 + cut);
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        // the rest is of another kind
        8..=11 => {
            c.flags = 1;
            let last = limit(c.args.pop().unwrap());
            out.push_back(frame(CALL_RES, id, &res(&c)));
            let k = Call { flags: r.below(2) as u8, args: vec![vec![], last], ..Call::default() };
            let b = match r.below(8) {
                0 => frame(ERROR, id, &error_payload(5, "in the middle")),
                1 => frame(CALL_RES, id, &call_payload(CALL_RES_C, &k)),
                2 => frame(CALL_REQ_C, id, &call_payload(CALL_RES_C, &k)),
                3 => frame(CALL_RES_C, id.wrapping_add(100_000), &call_payload(CALL_RES_C, &k)),
                4 => frame(PING_RES, id, &[]),
                5 => frame(CALL_RES_C, id, &[]),
                6 => frame(INIT_RES, id, &init_payload(2, &vec![])),
                _ => {
                    let p = call_payload(CALL_RES_C, &k);
                    let n = r.below(p.len() as u32) as usize;
                    frame(CALL_RES_C, id, &p[..n])
                }
            };
            out.push_back(b);
        }
        12 => {
            // continuation first
            let k = Call { flags: 0, args: c.args.iter().cloned().map(&mut limit).take(1).collect(), ..Call::default() };
            out.push_back(frame(CALL_RES_C, id, &call_payload(CALL_RES_C, &k)));
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        13 => {
            // twice, with other contents
            let mut d = c.clone();
            d.args[2] = bytes(key, 50);
            out.push_back(frame(CALL_RES, id, &res(&d)));
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        14 => out.push_back(frame(ERROR, id, &error_payload([0u8, 9, 77][r.below(3) as usize], "x"))),
        15 => {
            let p = error_payload(5, "cut");
            let n = r.below(p.len() as u32) as usize;
            out.push_back(frame(ERROR, id, &p[..n]));
        }
        16 => {
            let t = [INIT_REQ, INIT_RES, CALL_REQ, CALL_REQ_C, CANCEL, CLAIM, PING_RES, CALL_RES_C, CALL_RES_C, ERROR][r.below(10) as usize];
            out.push_back(frame(t, id, &res(&c)));
        }
        17 => {
            match r.below(4) {
                0 => c.args.clear(),
                1 => c.args.truncate(1),
                2 => c.args.push(bytes(key, 7)),
                _ => c.args = vec![vec![]; 4000],
            }
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        18 => {
            match r.below(3) {
                0 => c.csum_type = 1 + r.below(10) as u8,
                1 => c.flags = r.next() as u8 & !1,
                _ => c.tracing = bytes(key, 25),
            }
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        19 => {
            c.args[0] = vec![0xff, 0x80];
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        20 => {
            let k = 1 + r.below(2) as usize;
            c.args[k] = [vec![0xff, 0xff], b"{".to_vec(), b"[]".to_vec(), vec![]][r.below(4) as usize].clone();
            out.push_back(frame(CALL_RES, id, &res(&c)));
        }
        // frames that break the whole connection
        21 => {
            let mut b = frame(CALL_RES, id, &res(&c));
            b[0] = 0;
            b[1] = r.below(16) as u8;
            out.push_back(b);
        }
        22 => {
            let mut b = frame(CALL_RES, id, &res(&c));
            b[2] = [0u8, 5, 0x15, 0xfe][r.below(4) as usize];
            out.push_back(b);
        }
        23 => out.push_back(bytes(key, 1 + r.below(300) as usize)),
        // part of a frame
        24 => {
            let b = frame(CALL_RES, id, &res(&c));
            let n = r.below(b.len() as u32) as usize;
            out.push_back(b[..n].to_vec());
        }
        // nothing
        _ => {}
    }
    out
}
