//! Independent reference codec for the wire format: written from the protocol
//! description, it shares no code with /repo.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Be,
    Le,
}

pub type Prefix = [u8; 12];
pub type Ent = [u8; 4];

/// What a number set means: its base and its members, ascending.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MSet {
    pub base: i64,
    pub members: Vec<i64>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MEntity {
    AckNack {
        reader: Ent,
        writer: Ent,
        set: MSet,
        count: i32,
        flags: u8,
    },
    Gap {
        reader: Ent,
        writer: Ent,
        start: i64,
        set: MSet,
    },
    Heartbeat {
        reader: Ent,
        writer: Ent,
        first: i64,
        last: i64,
        count: i32,
        flags: u8,
    },
    HeartbeatFrag {
        reader: Ent,
        writer: Ent,
        sn: i64,
        last_frag: u32,
        count: i32,
    },
    NackFrag {
        reader: Ent,
        writer: Ent,
        sn: i64,
        set: MSet,
        count: i32,
    },
    /// Anything the model has no rule for.
    Other(String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MLoc {
    pub kind: u32,
    pub port: u32,
    pub addr: [u8; 16],
}

pub const LOC_INVALID: u32 = 0xFFFF_FFFF;
pub const LOC_UDP4: u32 = 1;
pub const LOC_UDP6: u32 = 2;

impl MLoc {
    pub fn invalid() -> MLoc {
        MLoc {
            kind: LOC_INVALID,
            port: 0,
            addr: [0; 16],
        }
    }
}

/// What interpreter submessages have established.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MCtx {
    pub version: (u8, u8),
    pub vendor: [u8; 2],
    pub src: Prefix,
    pub dst: Prefix,
    pub uni: Vec<MLoc>,
    pub multi: Vec<MLoc>,
    /// The timestamp in force, if any.
    pub ts: Option<(i32, u32)>,
}

impl MCtx {
    pub fn initial(kind: u32) -> MCtx {
        let l = MLoc {
            kind,
            port: 0,
            addr: [0; 16],
        };
        MCtx {
            version: (2, 4),
            vendor: [0; 2],
            src: [0; 12],
            dst: [0; 12],
            uni: vec![l.clone()],
            multi: vec![l],
            ts: None,
        }
    }
}

pub struct W {
    pub b: Vec<u8>,
    pub e: End,
}

impl W {
    pub fn new(e: End) -> W {
        W { b: Vec::new(), e }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v)
    }
    pub fn u16(&mut self, v: u16) {
        match self.e {
            End::Le => self.raw(&v.to_le_bytes()),
            End::Be => self.raw(&v.to_be_bytes()),
        }
    }
    pub fn u32(&mut self, v: u32) {
        match self.e {
            End::Le => self.raw(&v.to_le_bytes()),
            End::Be => self.raw(&v.to_be_bytes()),
        }
    }
    pub fn i32(&mut self, v: i32) {
        self.u32(v as u32)
    }
    /// A sequence number: signed high word, then unsigned low word.
    pub fn sn(&mut self, v: i64) {
        self.i32((v >> 32) as i32);
        self.u32(v as u32);
    }
    pub fn loc(&mut self, l: &MLoc) {
        self.u32(l.kind);
        self.u32(l.port);
        self.raw(&l.addr);
    }
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub at: usize,
    pub e: End,
}

impl<'a> R<'a> {
    pub fn new(b: &'a [u8], e: End) -> R<'a> {
        R { b, at: 0, e }
    }
    pub fn take<const N: usize>(&mut self) -> Option<[u8; N]> {
        let s = self.b.get(self.at..self.at + N)?;
        self.at += N;
        let mut a = [0; N];
        a.copy_from_slice(s);
        Some(a)
    }
    pub fn u32(&mut self) -> Option<u32> {
        let a = self.take::<4>()?;
        Some(match self.e {
            End::Le => u32::from_le_bytes(a),
            End::Be => u32::from_be_bytes(a),
        })
    }
    pub fn i32(&mut self) -> Option<i32> {
        self.u32().map(|v| v as i32)
    }
    pub fn sn(&mut self) -> Option<i64> {
        let hi = self.i32()?;
        let lo = self.u32()?;
        Some(((hi as i64) << 32) | lo as i64)
    }
    /// Numbit count and bitmap words; `max` is the largest number the set's
    /// element type can hold.
    fn set(&mut self, base: i64, max: i64) -> Option<MSet> {
        let n = self.u32()?;
        if n > 256 {
            return None;
        }
        let mut members = vec![];
        let words = (n as usize + 31) / 32;
        for w in 0..words {
            let v = self.u32()?;
            for bit in 0..32 {
                let i = w * 32 + bit;
                if i < n as usize && v >> bit & 1 == 1 {
                    if let Some(m) = base.checked_add(i as i64) {
                        if m <= max {
                            members.push(m);
                        }
                    }
                }
            }
        }
        Some(MSet { base, members })
    }
    pub fn sn_set(&mut self) -> Option<MSet> {
        let base = self.sn()?;
        self.set(base, i64::MAX)
    }
    pub fn frag_set(&mut self) -> Option<MSet> {
        let base = self.u32()?;
        self.set(base as i64, u32::MAX as i64)
    }
}

pub const PAD: u8 = 0x01;
pub const ACKNACK: u8 = 0x06;
pub const HEARTBEAT: u8 = 0x07;
pub const GAP: u8 = 0x08;
pub const INFO_TS: u8 = 0x09;
pub const INFO_SRC: u8 = 0x0c;
pub const INFO_REPLY_IP4: u8 = 0x0d;
pub const INFO_DST: u8 = 0x0e;
pub const INFO_REPLY: u8 = 0x0f;
pub const NACK_FRAG: u8 = 0x12;
pub const HEARTBEAT_FRAG: u8 = 0x13;
pub const DATA: u8 = 0x15;
pub const DATA_FRAG: u8 = 0x16;

pub const KNOWN: [u8; 13] = [
    PAD,
    ACKNACK,
    HEARTBEAT,
    GAP,
    INFO_TS,
    INFO_SRC,
    INFO_REPLY_IP4,
    INFO_DST,
    INFO_REPLY,
    NACK_FRAG,
    HEARTBEAT_FRAG,
    DATA,
    DATA_FRAG,
];

/// A set as it stands on the wire: any bit count, any words, junk included.
#[derive(Clone, Debug)]
pub struct RawSet {
    pub base: i64,
    pub nbits: u32,
    pub words: Vec<u32>,
}

impl RawSet {
    pub fn put_sn(&self, w: &mut W) {
        w.sn(self.base);
        self.put(w);
    }
    pub fn put_frag(&self, w: &mut W) {
        w.u32(self.base as u32);
        self.put(w);
    }
    fn put(&self, w: &mut W) {
        w.u32(self.nbits);
        for x in &self.words {
            w.u32(*x);
        }
    }
    pub fn meaning(&self, max: i64) -> MSet {
        let mut members = vec![];
        for i in 0..self.nbits as usize {
            if self.words[i / 32] >> (i % 32) & 1 == 1 {
                if let Some(m) = self.base.checked_add(i as i64) {
                    if m <= max {
                        members.push(m);
                    }
                }
            }
        }
        MSet {
            base: self.base,
            members,
        }
    }
}

pub fn put_header(
    out: &mut Vec<u8>,
    id: [u8; 4],
    version: (u8, u8),
    vendor: [u8; 2],
    src: Prefix,
) {
    out.extend_from_slice(&id);
    out.push(version.0);
    out.push(version.1);
    out.extend_from_slice(&vendor);
    out.extend_from_slice(&src);
}

pub fn put_sub(out: &mut Vec<u8>, kind: u8, flags: u8, len: u16, body: &[u8]) {
    out.push(kind);
    out.push(flags);
    if flags & 1 == 1 {
        out.extend_from_slice(&len.to_le_bytes());
    } else {
        out.extend_from_slice(&len.to_be_bytes());
    }
    out.extend_from_slice(body);
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub ent: MEntity,
    pub ctx: MCtx,
    /// Offset in the message at which this submessage is completely there
    /// (for a last submessage of length zero, that is the end).
    pub end: usize,
    pub open_ended: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// Everything in the message is well formed.
    Complete,
    /// The message is cut short or malformed from here on.
    Damaged(usize),
    /// The header is refused.
    Rejected,
    /// From here on the model has no opinion (a locator kind or a port this
    /// implementation does not define).
    Unspecified(usize),
    /// The same, at a DATA or DATA_FRAG submessage.
    DataAt(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Expect {
    pub items: Vec<Item>,
    pub outcome: Outcome,
    /// How many submessages were walked over.
    pub subs: usize,
    pub boundaries: Vec<usize>,
}

enum Body {
    Entity(MEntity),
    Silent,
    Bad,
    Unknown,
    Data,
}

fn locator(r: &mut R) -> Option<Result<MLoc, ()>> {
    let kind = r.u32()?;
    let port = r.u32()?;
    let addr = r.take::<16>()?;
    if kind != 0 && kind != 1 && kind != 2 && kind != LOC_INVALID {
        return Some(Err(()));
    }
    Some(Ok(MLoc { kind, port, addr }))
}

fn locators(r: &mut R) -> Option<Result<Vec<MLoc>, ()>> {
    let n = r.u32()? as usize;
    if (r.b.len() - r.at) / 24 < n {
        return None;
    }
    let mut v = vec![];
    for _ in 0..n {
        match locator(r)? {
            Ok(l) => v.push(l),
            Err(()) => return Some(Err(())),
        }
    }
    Some(Ok(v))
}

fn ip4_locator(r: &mut R) -> Option<Result<MLoc, ()>> {
    let a = r.u32()?;
    let port = r.u32()?;
    if port > 0xFFFF {
        return Some(Err(()));
    }
    let mut addr = [0u8; 16];
    addr[12..].copy_from_slice(&a.to_be_bytes());
    Some(Ok(MLoc {
        kind: if a == 0 { LOC_INVALID } else { LOC_UDP4 },
        port,
        addr,
    }))
}

fn body(kind: u8, flags: u8, b: &[u8], c: &mut MCtx) -> Body {
    let e = if flags & 1 == 1 { End::Le } else { End::Be };
    let mut r = R::new(b, e);
    let r = &mut r;
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Some(v) => v,
                None => return Body::Bad,
            }
        };
    }
    match kind {
        ACKNACK => Body::Entity(MEntity::AckNack {
            reader: get!(r.take()),
            writer: get!(r.take()),
            set: get!(r.sn_set()),
            count: get!(r.i32()),
            flags,
        }),
        GAP => Body::Entity(MEntity::Gap {
            reader: get!(r.take()),
            writer: get!(r.take()),
            start: get!(r.sn()),
            set: get!(r.sn_set()),
        }),
        HEARTBEAT => Body::Entity(MEntity::Heartbeat {
            reader: get!(r.take()),
            writer: get!(r.take()),
            first: get!(r.sn()),
            last: get!(r.sn()),
            count: get!(r.i32()),
            flags,
        }),
        HEARTBEAT_FRAG => Body::Entity(MEntity::HeartbeatFrag {
            reader: get!(r.take()),
            writer: get!(r.take()),
            sn: get!(r.sn()),
            last_frag: get!(r.u32()),
            count: get!(r.i32()),
        }),
        NACK_FRAG => Body::Entity(MEntity::NackFrag {
            reader: get!(r.take()),
            writer: get!(r.take()),
            sn: get!(r.sn()),
            set: get!(r.frag_set()),
            count: get!(r.i32()),
        }),
        INFO_SRC => {
            let v: [u8; 2] = get!(r.take());
            let vendor = get!(r.take());
            let src = get!(r.take());
            c.version = (v[0], v[1]);
            c.vendor = vendor;
            c.src = src;
            c.uni = vec![MLoc::invalid()];
            c.multi = vec![MLoc::invalid()];
            c.ts = None;
            Body::Silent
        }
        INFO_DST => {
            c.dst = get!(r.take());
            Body::Silent
        }
        INFO_REPLY => {
            let uni = match get!(locators(r)) {
                Ok(v) => v,
                Err(()) => return Body::Unknown,
            };
            let multi = if flags & 2 != 0 {
                match get!(locators(r)) {
                    Ok(v) => v,
                    Err(()) => return Body::Unknown,
                }
            } else {
                vec![]
            };
            c.uni = uni;
            c.multi = multi;
            Body::Silent
        }
        INFO_REPLY_IP4 => {
            let mut lists = vec![];
            for _ in 0..if flags & 2 != 0 { 2 } else { 1 } {
                match get!(ip4_locator(r)) {
                    Ok(l) => lists.push(vec![l]),
                    Err(()) => return Body::Unknown,
                }
            }
            let multi = if lists.len() > 1 {
                lists.pop().unwrap()
            } else {
                vec![]
            };
            let uni = lists.pop().unwrap();
            c.uni = uni;
            c.multi = multi;
            Body::Silent
        }
        INFO_TS => {
            if flags & 2 != 0 {
                c.ts = None;
            } else {
                let s = get!(r.i32());
                let f = get!(r.u32());
                c.ts = Some((s, f));
            }
            Body::Silent
        }
        DATA | DATA_FRAG => Body::Data,
        _ => Body::Silent,
    }
}

/// What a receiver has to make of one message.
pub fn expect(m: &[u8], locator_kind: u32) -> Expect {
    let mut out = Expect {
        items: vec![],
        outcome: Outcome::Complete,
        subs: 0,
        boundaries: vec![],
    };
    if m.is_empty() {
        return out;
    }
    if m.len() < 20 {
        out.outcome = Outcome::Damaged(0);
        return out;
    }
    if &m[..4] != b"RTPS" || m[4] > 2 {
        out.outcome = Outcome::Rejected;
        return out;
    }
    let mut c = MCtx::initial(locator_kind);
    c.version = (m[4], m[5]);
    c.vendor = [m[6], m[7]];
    c.src.copy_from_slice(&m[8..20]);
    let mut at = 20;
    while at < m.len() {
        out.boundaries.push(at);
        if m.len() - at < 4 {
            out.outcome = Outcome::Damaged(at);
            return out;
        }
        let (kind, flags) = (m[at], m[at + 1]);
        let len = if flags & 1 == 1 {
            u16::from_le_bytes([m[at + 2], m[at + 3]])
        } else {
            u16::from_be_bytes([m[at + 2], m[at + 3]])
        } as usize;
        let last = len == 0 && kind != PAD && kind != INFO_TS;
        let end = if last { m.len() } else { at + 4 + len };
        if end > m.len() {
            out.outcome = Outcome::Damaged(at);
            return out;
        }
        out.subs += 1;
        match body(kind, flags, &m[at + 4..end], &mut c) {
            Body::Entity(ent) => out.items.push(Item {
                ent,
                ctx: c.clone(),
                end,
                open_ended: last,
            }),
            Body::Silent => {}
            Body::Bad => {
                out.outcome = Outcome::Damaged(at);
                return out;
            }
            Body::Unknown => {
                out.outcome = Outcome::Unspecified(at);
                return out;
            }
            Body::Data => {
                out.outcome = Outcome::DataAt(at);
                return out;
            }
        }
        at = end;
    }
    out
}

/// Whether a complete DATA or DATA_FRAG submessage begins at or after `from`,
/// going by the framing alone.
pub fn has_data(m: &[u8], from: usize) -> bool {
    let mut at = 20;
    while at + 4 <= m.len() {
        let (kind, flags) = (m[at], m[at + 1]);
        let len = if flags & 1 == 1 {
            u16::from_le_bytes([m[at + 2], m[at + 3]])
        } else {
            u16::from_be_bytes([m[at + 2], m[at + 3]])
        } as usize;
        let last = len == 0 && kind != PAD && kind != INFO_TS;
        let end = if last { m.len() } else { at + 4 + len };
        if end > m.len() {
            return false;
        }
        if at >= from && (kind == DATA || kind == DATA_FRAG) {
            return true;
        }
        at = end;
    }
    false
}
