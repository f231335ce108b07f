//! An independent TChannel encoder and parser, written from the protocol description; shares no code with the library.

pub const INIT_REQ: u8 = 0x01;
pub const INIT_RES: u8 = 0x02;
pub const CALL_REQ: u8 = 0x03;
pub const CALL_RES: u8 = 0x04;
pub const CALL_REQ_C: u8 = 0x13;
pub const CALL_RES_C: u8 = 0x14;
pub const CANCEL: u8 = 0xc0;
pub const CLAIM: u8 = 0xc1;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;

pub fn type_name(t: u8) -> &'static str {
    match t {
        INIT_REQ => "init-req",
        INIT_RES => "init-res",
        CALL_REQ => "call-req",
        CALL_RES => "call-res",
        CALL_REQ_C => "call-req-continue",
        CALL_RES_C => "call-res-continue",
        CANCEL => "cancel",
        CLAIM => "claim",
        PING_REQ => "ping-req",
        PING_RES => "ping-res",
        ERROR => "error",
        _ => "unknown",
    }
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub ty: u8,
    pub id: u32,
    pub payload: Vec<u8>,
    /// offset of the frame in the stream and of the byte after it
    pub at: usize,
    pub end: usize,
}

pub fn frame(ty: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let n = payload.len() + 16;
    assert!(n <= 65535, "frame too long");
    let mut v = Vec::with_capacity(n);
    v.extend_from_slice(&(n as u16).to_be_bytes());
    v.push(ty);
    v.push(0);
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&[0; 8]);
    v.extend_from_slice(payload);
    v
}

/// Parses all complete frames; returns them with the offset of the first incomplete or invalid one.
pub fn frames(b: &[u8]) -> (Vec<Frame>, usize, Option<String>) {
    let mut out = vec![];
    let mut p = 0;
    while b.len() - p >= 16 {
        let n = u16::from_be_bytes([b[p], b[p + 1]]) as usize;
        if n < 16 {
            return (out, p, Some(format!("frame size field {} at byte {} is below the header size", n, p)));
        }
        if type_name(b[p + 2]) == "unknown" {
            return (out, p, Some(format!("unknown frame type {:#x} at byte {}", b[p + 2], p)));
        }
        if b.len() - p < n {
            break;
        }
        let id = u32::from_be_bytes([b[p + 4], b[p + 5], b[p + 6], b[p + 7]]);
        out.push(Frame { ty: b[p + 2], id, payload: b[p + 16..p + n].to_vec(), at: p, end: p + n });
        p += n;
    }
    (out, p, None)
}

pub struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n {
            return Err(format!("needs {} bytes at payload offset {}, {} left", n, self.p, self.b.len() - self.p));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn str1(&mut self) -> R<String> {
        let n = self.u8()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn str2(&mut self) -> R<String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
}

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Debug)]
pub struct Init {
    pub version: u16,
    pub headers: Headers,
}

pub fn init_payload(version: u16, headers: &Headers) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.extend_from_slice(&(headers.len() as u16).to_be_bytes());
    for (k, x) in headers {
        v.extend_from_slice(&(k.len() as u16).to_be_bytes());
        v.extend_from_slice(k.as_bytes());
        v.extend_from_slice(&(x.len() as u16).to_be_bytes());
        v.extend_from_slice(x.as_bytes());
    }
    v
}

pub fn parse_init(b: &[u8]) -> R<Init> {
    let mut r = Rd::new(b);
    let version = r.u16()?;
    let n = r.u16()?;
    let mut headers = vec![];
    for _ in 0..n {
        headers.push((r.str2()?, r.str2()?));
    }
    if r.left() > 0 {
        return Err(format!("{} bytes after the init headers", r.left()));
    }
    Ok(Init { version, headers })
}

/// A call request / response or a continuation.
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub flags: u8,
    pub ttl: u32,
    pub code: u8,
    pub tracing: Vec<u8>,
    pub service: String,
    pub headers: Headers,
    pub csum_type: u8,
    pub csum: u32,
    pub args: Vec<Vec<u8>>,
}

impl Call {
    pub fn more(&self) -> bool {
        self.flags & 1 != 0
    }
    pub fn scheme(&self) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k == "as").map(|(_, v)| v.as_str())
    }
}

pub fn call_payload(ty: u8, c: &Call) -> Vec<u8> {
    let mut v = vec![c.flags];
    if ty == CALL_REQ {
        v.extend_from_slice(&c.ttl.to_be_bytes());
    }
    if ty == CALL_RES {
        v.push(c.code);
    }
    if ty == CALL_REQ || ty == CALL_RES {
        let mut t = c.tracing.clone();
        t.resize(25, 0);
        v.extend_from_slice(&t);
    }
    if ty == CALL_REQ {
        v.push(c.service.len() as u8);
        v.extend_from_slice(c.service.as_bytes());
    }
    if ty == CALL_REQ || ty == CALL_RES {
        v.push(c.headers.len() as u8);
        for (k, x) in &c.headers {
            v.push(k.len() as u8);
            v.extend_from_slice(k.as_bytes());
            v.push(x.len() as u8);
            v.extend_from_slice(x.as_bytes());
        }
    }
    v.push(c.csum_type);
    if c.csum_type != 0 {
        v.extend_from_slice(&c.csum.to_be_bytes());
    }
    for a in &c.args {
        v.extend_from_slice(&(a.len() as u16).to_be_bytes());
        v.extend_from_slice(a);
    }
    v
}

pub fn parse_call(ty: u8, b: &[u8]) -> R<Call> {
    let mut r = Rd::new(b);
    let mut c = Call { flags: r.u8()?, ..Default::default() };
    if c.flags & !1 != 0 {
        return Err(format!("unknown flags {:#x}", c.flags));
    }
    if ty == CALL_REQ {
        c.ttl = r.u32()?;
        if c.ttl == 0 {
            return Err("ttl is 0".into());
        }
    }
    if ty == CALL_RES {
        c.code = r.u8()?;
        if c.code > 1 {
            return Err(format!("response code {}", c.code));
        }
    }
    if ty == CALL_REQ || ty == CALL_RES {
        c.tracing = r.take(25)?.to_vec();
    }
    if ty == CALL_REQ {
        c.service = r.str1()?;
    }
    if ty == CALL_REQ || ty == CALL_RES {
        let n = r.u8()?;
        for _ in 0..n {
            let kv = (r.str1()?, r.str1()?);
            if c.headers.iter().any(|(k, _)| *k == kv.0) {
                return Err(format!("duplicate transport header {:?}", kv.0));
            }
            c.headers.push(kv);
        }
    }
    c.csum_type = r.u8()?;
    if c.csum_type > 3 {
        return Err(format!("checksum type {}", c.csum_type));
    }
    if c.csum_type != 0 {
        c.csum = r.u32()?;
    }
    while r.left() > 0 {
        let n = r.u16()? as usize;
        c.args.push(r.take(n)?.to_vec());
        if c.args.len() > 3 {
            return Err("more than 3 arguments in a frame".into());
        }
    }
    Ok(c)
}

#[derive(Clone, Debug)]
pub struct ErrMsg {
    pub code: u8,
    pub msg: String,
}

pub fn error_payload(code: u8, msg: &str) -> Vec<u8> {
    let mut v = vec![code];
    v.extend_from_slice(&[0; 25]);
    v.extend_from_slice(&(msg.len() as u16).to_be_bytes());
    v.extend_from_slice(msg.as_bytes());
    v
}

pub fn parse_error(b: &[u8]) -> R<ErrMsg> {
    let mut r = Rd::new(b);
    let code = r.u8()?;
    if !matches!(code, 1..=8 | 0xff) {
        return Err(format!("error code {:#x}", code));
    }
    r.take(25)?;
    let msg = r.str2()?;
    if r.left() > 0 {
        return Err(format!("{} bytes after the error message", r.left()));
    }
    Ok(ErrMsg { code, msg })
}

pub fn parse_cancel(b: &[u8]) -> R<String> {
    let mut r = Rd::new(b);
    r.take(4 + 25)?;
    let why = r.str2()?;
    if r.left() > 0 {
        return Err(format!("{} bytes after the reason", r.left()));
    }
    Ok(why)
}

/// Puts the arguments of a fragmented message together, as the protocol defines it: the first argument of a
/// continuation frame continues the last argument of the frame before.
#[derive(Clone, Debug, Default)]
pub struct Assembly {
    pub args: Vec<Vec<u8>>,
    pub frames: usize,
}

impl Assembly {
    pub fn add(&mut self, args: &[Vec<u8>]) {
        for (i, a) in args.iter().enumerate() {
            if i == 0 && self.frames > 0 {
                match self.args.last_mut() {
                    Some(l) => l.extend_from_slice(a),
                    None => self.args.push(a.clone()),
                }
            } else {
                self.args.push(a.clone());
            }
        }
        self.frames += 1;
    }
}
