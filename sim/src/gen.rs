//! Workload generator: messages, swarm style.  Draw 0 is always the plainest
//! alternative, so that a minimised tape is a plain message.

use crate::conv::{canonical, real_body, ref_body};
use crate::ctx::{Ctx, Res, Use};
use crate::ensure;
use crate::wire::*;

pub const SN_EDGES: [i64; 22] = [
    1,
    2,
    0,
    -1,
    31,
    32,
    255,
    256,
    0x7FFF_FFFF,
    0x8000_0000,
    0xFFFF_FFFF,
    0x1_0000_0000,
    0x1_0000_0001,
    0x1_FFFF_FFFF,
    0x1234_5678_9ABC_DEF0,
    i64::MAX,
    i64::MAX - 1,
    i64::MAX - 255,
    i64::MAX - 256,
    i64::MIN,
    i64::MIN + 1,
    -0x1_0000_0000,
];

pub fn sn_value(c: &mut Ctx) -> i64 {
    let again = if c.chance(1, 6) { c.again(Use::Sequence) } else { None };
    let v = match again {
        Some(b) => i64::from_be_bytes(b),
        None => new_sn(c),
    };
    c.used(Use::Sequence, v.to_be_bytes());
    v
}

fn new_sn(c: &mut Ctx) -> i64 {
    match c.draw(9) {
        8 => {
            let v = c.literal() as i64;
            match c.draw(3) {
                0 | 1 => v,
                _ => v << 32,
            }
        }
        0 | 1 => c.range(1, 1000) as i64,
        2 | 3 => c.pick(&SN_EDGES),
        4 => c.range(0xFFFF_FF00, 0x1_0000_0100) as i64,
        5 => c.pick(&SN_EDGES).wrapping_add(c.draw(600) as i64 - 300),
        _ => c.u64() as i64,
    }
}

/// A plausible sequence number (first legal value is 1).
pub fn sn_plain(c: &mut Ctx) -> i64 {
    match c.draw(5) {
        4 => (c.literal() >> 2) as i64 + 1,
        0 | 1 => c.range(1, 1000) as i64,
        2 => c.range(0xFFFF_FF00, 0x1_0000_0100) as i64,
        _ => (c.u64() >> 2) as i64 + 1,
    }
}

pub fn frag_value(c: &mut Ctx) -> u32 {
    let again = if c.chance(1, 8) { c.again(Use::Fragment) } else { None };
    let v = match again {
        Some(b) => u32::from_be_bytes(b),
        None => new_frag(c),
    };
    c.used(Use::Fragment, v.to_be_bytes());
    v
}

fn new_frag(c: &mut Ctx) -> u32 {
    match c.draw(6) {
        5 => c.literal() as u32,
        0 | 1 => c.range(1, 500) as u32,
        2 => c.pick(&[
            0,
            1,
            255,
            256,
            0x7FFF_FFFF,
            0x8000_0000,
            u32::MAX,
            u32::MAX - 1,
            u32::MAX - 255,
            u32::MAX - 256,
        ]),
        3 => u32::MAX - c.draw(400) as u32,
        _ => c.u32(),
    }
}

const OFFSETS: [u64; 16] = [
    0, 1, 2, 7, 15, 31, 32, 33, 63, 64, 95, 96, 127, 128, 254, 255,
];

/// Bit positions inside the 256 window.
pub fn offsets(c: &mut Ctx) -> Vec<u64> {
    let mut v: Vec<u64> = match c.draw(6) {
        0 => vec![],
        1 => vec![c.pick(&OFFSETS)],
        2 => {
            let n = c.range(1, 6);
            (0..n).map(|_| c.pick(&OFFSETS)).collect()
        }
        3 => {
            let n = c.range(1, 12);
            (0..n).map(|_| c.draw(256)).collect()
        }
        4 => {
            let a = c.draw(256);
            let b = c.range(a, 255);
            (a..=b).collect()
        }
        _ => {
            let mut v = vec![];
            for w in 0..8u64 {
                let bits = c.u32();
                for i in 0..32 {
                    if bits >> i & 1 == 1 {
                        v.push(w * 32 + i);
                    }
                }
            }
            v
        }
    };
    v.sort();
    v.dedup();
    v
}

pub fn mset(c: &mut Ctx, base: i64, max: i64) -> MSet {
    let members = offsets(c)
        .into_iter()
        .filter_map(|o| base.checked_add(o as i64))
        .filter(|m| *m <= max)
        .collect();
    MSet { base, members }
}

/// A set as a foreign implementation may write it: any bit count up to 256,
/// any content in the bits past it.
pub fn raw_set(c: &mut Ctx, base: i64) -> RawSet {
    let nbits = match c.draw(4) {
        0 => c.range(0, 256) as u32,
        1 => c.pick(&[0u32, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256]),
        2 => 256,
        _ => c.range(1, 40) as u32,
    };
    let words = (nbits as usize + 31) / 32;
    let junk = c.bool();
    // Many bits, and hardly a number.
    let blank = c.chance(1, 8);
    let mut v: Vec<u32> = (0..words)
        .map(|_| match c.draw(5) {
            0 => 0,
            _ if blank => 0,
            1 => u32::MAX,
            2 => 1 << c.draw(32),
            _ => c.u32(),
        })
        .collect();
    if nbits % 32 != 0 {
        let mask = (1u32 << (nbits % 32)) - 1;
        let last = v.len() - 1;
        if junk {
            v[last] |= !mask & c.u32();
        } else {
            v[last] &= mask;
        }
    }
    RawSet {
        base,
        nbits,
        words: v,
    }
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_subs: u64,
    /// Weights: entity, src, dst, reply, reply4, ts, pad, unknown, data.
    pub w: [u64; 9],
    pub trailing: u64,
    pub zero_last: u64,
    pub real_enc: u64,
    pub raw_sets: u64,
    pub big: u64,
    /// Bodies whose length is not a multiple of four, in last position.
    pub ragged: u64,
    /// Things to be skipped whose length is not a multiple of four, anywhere.
    pub odd: u64,
    pub kinds: [bool; 5],
}

impl GenCfg {
    pub fn plain(c: &mut Ctx) -> GenCfg {
        let mut kinds = [false; 5];
        for k in kinds.iter_mut() {
            *k = !c.chance(1, 4);
        }
        if !kinds.iter().any(|k| *k) {
            kinds[2] = true;
        }
        GenCfg {
            max_subs: c.pick(&[3, 1, 6, 12]),
            w: [6, 1, 1, 1, 1, 1, 0, 0, 0],
            trailing: 0,
            zero_last: c.pick(&[0, 0, 3]),
            real_enc: c.pick(&[4, 8, 0]),
            raw_sets: c.pick(&[0, 2, 6]),
            big: 0,
            ragged: 0,
            odd: 0,
            kinds,
        }
    }
}

pub fn is_unknown(k: u8) -> bool {
    !KNOWN.contains(&k)
}

pub fn unknown_kind(c: &mut Ctx) -> u8 {
    let k = match c.draw(5) {
        4 => c.literal() as u8,
        0 => c.pick(&[
            0x80u8, 0x02, 0x00, 0x03, 0x04, 0x05, 0x0a, 0x0b, 0x10, 0x11, 0x14, 0x17, 0x7f, 0xff,
            0x30, 0x31, 0x32, 0x33, 0x34,
        ]),
        1 => c.range(0x80, 0xff) as u8,
        _ => c.u8(),
    };
    if is_unknown(k) {
        k
    } else {
        0x80
    }
}

pub fn ent_id(c: &mut Ctx) -> Ent {
    let again = if c.chance(1, 6) { c.again(Use::Entity) } else { None };
    let v = match again {
        Some(b) => b,
        None => new_ent_id(c),
    };
    c.used(Use::Entity, v);
    v
}

fn new_ent_id(c: &mut Ctx) -> Ent {
    match c.draw(4) {
        3 => {
            let mut e = [0u8; 4];
            e[c.draw(4) as usize] = c.u8();
            if c.bool() {
                e[3] = c.pick(&[0x00, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC7, 0x02, 0x03, 0x04, 0x07]);
            }
            e
        }
        0 => [0, 0, 3, 0xC7],
        1 => c.pick(&[
            [0u8; 4],
            [0, 0, 1, 0xC1],
            [0, 0, 2, 0xC2],
            [1, 2, 3, 4],
            [0xff; 4],
        ]),
        _ => c.bytes(),
    }
}

pub fn prefix(c: &mut Ctx) -> Prefix {
    let again = if c.chance(1, 5) { c.again(Use::Prefix) } else { None };
    let v = match again {
        Some(b) => b,
        None => new_prefix(c),
    };
    c.used(Use::Prefix, v);
    v
}

fn new_prefix(c: &mut Ctx) -> Prefix {
    match c.draw(5) {
        3 => {
            // Almost no prefix at all.
            let mut p = [0; 12];
            p[c.draw(12) as usize] = c.u8();
            p
        }
        4 => {
            let mut p = [0xFF; 12];
            p[c.draw(12) as usize] = c.u8();
            p
        }
        0 => [0x42; 12],
        1 => {
            let mut p = [0u8; 12];
            for (i, x) in p.iter_mut().enumerate() {
                *x = i as u8 + 1;
            }
            p[11] = c.u8();
            p
        }
        _ => c.bytes(),
    }
}

pub fn ip4(c: &mut Ctx) -> [u8; 4] {
    match c.draw(3) {
        0 => c.bytes(),
        1 => c.pick(&[
            [0, 0, 0, 0],
            [127, 0, 0, 1],
            [255, 255, 255, 255],
            [239, 255, 0, 1],
            [224, 0, 0, 1],
            [10, 0, 0, 1],
            [192, 168, 1, 1],
            [169, 254, 0, 1],
        ]),
        _ => {
            let mut a = [0; 4];
            a[c.draw(4) as usize] = c.u8();
            a
        }
    }
}

/// Made of segments such as an address is written with.
pub fn segments(c: &mut Ctx) -> std::net::Ipv6Addr {
    let mut s = [0u16; 8];
    if c.chance(1, 6) {
        // Nothing but a prefix which means something, and an interface.
        s[0] = c.pick(&[0, 0xFF02, 0xFF05, 0xFF0E, 0xFE80, 0xFC00, 0xFD00, 0x2001, 0x2002]);
        s[7] = c.pick(&[1, 0, 2, 0xFB, 0x7F]);
        if c.chance(1, 8) {
            s[6] = 0x7F00;
            s[5] = c.pick(&[0xFFFF, 0]);
        }
        return std::net::Ipv6Addr::from(s);
    }
    let most = c.range(0, 8) as usize;
    for i in 0..most {
        s[i] = match c.draw(5) {
            0 => 0,
            1 => 0xFFFF,
            2 => c.literal() as u16,
            3 => c.pick(&[0xFE80, 0xFF02, 0xFF05, 0x2001, 0x64, 0xFF9B, 0x2002, 0xFC00, 1]),
            _ => c.u16(),
        };
    }
    if c.bool() {
        let v = c.u32();
        s[6] = (v >> 16) as u16;
        s[7] = v as u16;
    }
    std::net::Ipv6Addr::from(s)
}

pub fn mloc(c: &mut Ctx) -> MLoc {
    let again: Option<[u8; 24]> = if c.chance(1, 6) { c.again(Use::Locator) } else { None };
    let l = match again {
        Some(b) => MLoc {
            kind: [LOC_UDP4, LOC_UDP6, LOC_INVALID, 0][(b[3] & 3) as usize],
            port: u32::from_be_bytes(b[4..8].try_into().unwrap()),
            addr: b[8..].try_into().unwrap(),
        },
        None => new_mloc(c),
    };
    let mut b = [0; 24];
    b[3] = [LOC_UDP4, LOC_UDP6, LOC_INVALID, 0]
        .iter()
        .position(|k| *k == l.kind)
        .unwrap_or(0) as u8;
    b[4..8].copy_from_slice(&l.port.to_be_bytes());
    b[8..].copy_from_slice(&l.addr);
    c.used(Use::Locator, b);
    l
}

fn new_mloc(c: &mut Ctx) -> MLoc {
    let kind = c.pick(&[LOC_UDP4, LOC_UDP6, LOC_INVALID, 0]);
    let mut addr = [0u8; 16];
    if kind == LOC_UDP4 {
        if c.chance(1, 4) {
            // Not of use, but to be kept
            addr = c.bytes();
        }
        addr[12..].copy_from_slice(&ip4(c));
    } else if c.chance(1, 4) {
        // Nothing but a few bytes of an address.
        for _ in 0..c.draw(3) {
            addr[c.draw(16) as usize] = c.u8();
        }
    } else if c.chance(1, 4) {
        addr = segments(c).octets();
    } else {
        addr = c.bytes();
    }
    let port = match c.draw(5) {
        0 => 7400,
        1 => c.draw(65536) as u32,
        2 => c.pick(&[0, 1, 65535, 65536, u32::MAX]),
        3 => c.literal() as u32,
        _ => c.u32(),
    };
    MLoc { kind, port, addr }
}

fn count(c: &mut Ctx) -> i32 {
    let again = if c.chance(1, 6) { c.again(Use::Count) } else { None };
    let v = match again {
        Some(b) => i32::from_be_bytes(b),
        None => new_count(c),
    };
    c.used(Use::Count, v.to_be_bytes());
    v
}

fn new_count(c: &mut Ctx) -> i32 {
    match c.draw(4) {
        3 => c.literal() as i32,
        0 => c.range(1, 100) as i32,
        1 => c.pick(&[0, -1, i32::MAX, i32::MIN]),
        _ => c.u32() as i32,
    }
}

pub fn entity(c: &mut Ctx, cfg: &GenCfg, flags: u8) -> (MEntity, Option<RawSet>) {
    let allowed: Vec<u64> = (0..5).filter(|k| cfg.kinds[*k as usize]).collect();
    let kind = c.pick(&allowed);
    let raw = kind != 2 && kind != 3 && c.chance(cfg.raw_sets, 8);
    let reader = ent_id(c);
    let writer = ent_id(c);
    match kind {
        0 | 1 => {
            let base = sn_value(c);
            let (set, r) = if raw {
                let r = raw_set(c, base);
                (r.meaning(i64::MAX), Some(r))
            } else {
                (mset(c, base, i64::MAX), None)
            };
            let e = if kind == 0 {
                MEntity::AckNack {
                    reader,
                    writer,
                    set,
                    count: count(c),
                    flags,
                }
            } else {
                MEntity::Gap {
                    reader,
                    writer,
                    start: sn_value(c),
                    set,
                }
            };
            (e, r)
        }
        2 => (
            MEntity::Heartbeat {
                reader,
                writer,
                first: sn_value(c),
                last: sn_value(c),
                count: count(c),
                flags,
            },
            None,
        ),
        3 => (
            MEntity::HeartbeatFrag {
                reader,
                writer,
                sn: sn_value(c),
                last_frag: frag_value(c),
                count: count(c),
            },
            None,
        ),
        _ => {
            let base = frag_value(c) as i64;
            let (set, r) = if raw {
                let r = raw_set(c, base);
                (r.meaning(u32::MAX as i64), Some(r))
            } else {
                (mset(c, base, u32::MAX as i64), None)
            };
            (
                MEntity::NackFrag {
                    reader,
                    writer,
                    sn: sn_value(c),
                    set,
                    count: count(c),
                },
                r,
            )
        }
    }
}

/// Decodes one submessage body with the reference decoder.
fn reference_reads(kind: u8, flags: u8, body: &[u8]) -> Option<MEntity> {
    let mut m = vec![];
    put_header(&mut m, *b"RTPS", (2, 4), [0, 0], [0; 12]);
    put_sub(&mut m, kind, flags, body.len() as u16, body);
    let e = expect(&m, LOC_INVALID);
    if e.outcome == Outcome::Complete && e.items.len() == 1 {
        e.items.into_iter().next().map(|i| i.ent)
    } else {
        None
    }
}

/// Encodes an entity submessage with the real code, and checks that an
/// independent reader of those bytes sees exactly that submessage.
pub fn sender_encodes(e: &MEntity, flags: u8) -> Res<(u8, Vec<u8>)> {
    let en = if flags & 1 == 1 { End::Le } else { End::Be };
    let (k, b) = real_body(e, en)?;
    let seen = reference_reads(k, flags, &b);
    ensure!(
        seen.as_ref() == Some(e),
        "sender-bytes",
        "{:?} was sent as {} which reads back as {:?}",
        e,
        crate::ctx::hex(&b),
        seen
    );
    Ok((k, b))
}

fn timestamp(c: &mut Ctx) -> (u32, u32) {
    let again: Option<[u8; 8]> = if c.chance(1, 6) { c.again(Use::Time) } else { None };
    let v = match again {
        Some(b) => u64::from_be_bytes(b),
        None => {
            let (s, f) = match c.draw(4) {
                0 => (1_700_000_000, c.u32()),
                1 => c.pick(&[
                    (0, 0),
                    (0xFFFF_FFFF, 0xFFFF_FFFF),
                    (0x7FFF_FFFF, 0xFFFF_FFFF),
                    (0x8000_0000, 0),
                    (0xFFFF_FFFF, 0),
                    (0xFFFF_FFFF, 0xFFFF_FFFE),
                    (0, 1),
                    (0, 0xFFFF_FFFF),
                ]),
                2 => (c.literal() as u32, c.literal() as u32),
                _ => (c.u32(), c.u32()),
            };
            u64::from(s) << 32 | u64::from(f)
        }
    };
    c.used(Use::Time, v.to_be_bytes());
    ((v >> 32) as u32, v as u32)
}

fn flags(c: &mut Ctx, known: u8) -> u8 {
    let mut f = c.draw(2) as u8;
    if c.chance(1, 4) {
        // Flags this version gives no meaning to.
        f |= c.u8() & !(known | 1);
    }
    f
}

/// Of something to be skipped: a few words or, where the workload has such
/// sizes, any number of bytes.
fn size(c: &mut Ctx, cfg: &GenCfg, least: u64, most: u64) -> usize {
    let n = c.many(least, most, 64, 4000) as usize * 4;
    if cfg.odd > 0 && c.chance(cfg.odd, 8) {
        c.probe("odd_size_skipped");
        n + c.range(1, 3) as usize
    } else {
        n
    }
}

/// Content to be skipped which looks like submessages, or like a whole message
/// somebody passes on inside of another.
fn lookalike(c: &mut Ctx, least: usize) -> Vec<u8> {
    let mut b = vec![];
    if c.chance(1, 3) {
        c.probe("message_inside_skipped_content");
        put_header(&mut b, *b"RTPS", (2, 4), [1, 15], [9; 12]);
    }
    loop {
        let hb = MEntity::Heartbeat {
            reader: [9; 4],
            writer: [9; 4],
            first: 1,
            last: 9,
            count: 1,
            flags: 0,
        };
        let (k, body) = ref_body(&hb, End::Be, None);
        put_sub(&mut b, k, 0, body.len() as u16, &body);
        if b.len() >= least {
            return b;
        }
    }
}

pub struct Sub {
    pub kind: u8,
    pub flags: u8,
    pub body: Vec<u8>,
}

pub fn submessage(c: &mut Ctx, cfg: &GenCfg) -> Res<Sub> {
    let total: u64 = cfg.w.iter().sum();
    let mut x = c.draw(total);
    let mut what = 0;
    for (i, w) in cfg.w.iter().enumerate() {
        if x < *w {
            what = i;
            break;
        }
        x -= w;
    }
    let mut sub = match what {
        0 => {
            let mut f = flags(c, 0xFE);
            if c.chance(1, 3) {
                f |= c.u8() & 0xFE;
            }
            let (e, raw) = entity(c, cfg, f);
            let en = if f & 1 == 1 { End::Le } else { End::Be };
            let (kind, body) = if raw.is_none() && c.chance(cfg.real_enc, 8) {
                c.probe("sender_used_real_encoder");
                sender_encodes(&e, f)?
            } else {
                ref_body(&e, en, raw.as_ref())
            };
            Sub {
                kind,
                flags: f,
                body,
            }
        }
        1 => {
            let f = flags(c, 0);
            let mut b = vec![];
            let v = match c.draw(3) {
                0 => [2, 4],
                1 => [2, c.u8()],
                _ => c.bytes(),
            };
            b.extend_from_slice(&v);
            b.extend_from_slice(&vendor(c));
            b.extend_from_slice(&prefix(c));
            Sub {
                kind: INFO_SRC,
                flags: f,
                body: b,
            }
        }
        2 => {
            let f = flags(c, 0);
            let p = if c.chance(1, 4) { [0; 12] } else { prefix(c) };
            Sub {
                kind: INFO_DST,
                flags: f,
                body: p.to_vec(),
            }
        }
        3 => {
            let mut f = flags(c, 2);
            let multi = c.bool();
            if multi {
                f |= 2;
            }
            let mut w = W::new(if f & 1 == 1 { End::Le } else { End::Be });
            // What the flag announces may stay in place when it is cleared.
            let there = multi || cfg.trailing > 0 && c.chance(1, 6);
            for _ in 0..1 + there as usize {
                let n = c.many(0, 3, 64, 600);
                w.u32(n as u32);
                for _ in 0..n {
                    let l = mloc(c);
                    w.loc(&l);
                }
            }
            Sub {
                kind: INFO_REPLY,
                flags: f,
                body: w.b,
            }
        }
        4 => {
            let mut f = flags(c, 2);
            let multi = c.bool();
            if multi {
                f |= 2;
            }
            let mut w = W::new(if f & 1 == 1 { End::Le } else { End::Be });
            let there = multi || cfg.trailing > 0 && c.chance(1, 6);
            for _ in 0..1 + there as usize {
                let a = if c.chance(1, 6) { [0; 4] } else { ip4(c) };
                w.u32(u32::from_be_bytes(a));
                let p = match c.draw(4) {
                    0 => c.pick(&[0, 1, 7400, 65535]),
                    1 => c.literal() as u16,
                    _ => c.u16(),
                };
                w.u32(p as u32);
            }
            Sub {
                kind: INFO_REPLY_IP4,
                flags: f,
                body: w.b,
            }
        }
        5 => {
            let mut f = flags(c, 2);
            let inval = c.chance(1, 4);
            if inval {
                f |= 2;
            }
            let mut w = W::new(if f & 1 == 1 { End::Le } else { End::Be });
            if !inval {
                let (secs, frac) = timestamp(c);
                w.u32(secs);
                w.u32(frac);
            } else if cfg.trailing > 0 && c.chance(1, 3) {
                // A sender may leave the content in place and only raise the
                // invalidate flag.
                let (secs, frac) = if c.bool() {
                    timestamp(c)
                } else {
                    (c.u32(), c.u32())
                };
                w.u32(secs);
                w.u32(frac);
            }
            Sub {
                kind: INFO_TS,
                flags: f,
                body: w.b,
            }
        }
        6 => {
            let f = flags(c, 0);
            let n = size(c, cfg, 0, 5);
            Sub {
                kind: PAD,
                flags: f,
                body: if n > 0 && c.chance(1, 8) {
                    lookalike(c, n)
                } else {
                    c.vec(n)
                },
            }
        }
        7 => {
            let kind = unknown_kind(c);
            let f = c.u8();
            let n = match c.draw(4) {
                0 => c.range(1, 4) as usize * 4,
                1 => size(c, cfg, 1, 16),
                2 => 24,
                _ => 28,
            };
            // Often the content looks like well-formed submessages.
            let body = if c.bool() {
                lookalike(c, n)
            } else {
                c.vec(n)
            };
            Sub {
                kind,
                flags: f,
                body,
            }
        }
        _ => {
            let kind = c.pick(&[DATA, DATA_FRAG]);
            let f = c.u8();
            let n = c.range(5, 12) as usize * 4;
            Sub {
                kind,
                flags: f,
                body: c.vec(n),
            }
        }
    };
    if c.chance(cfg.trailing, 16) && sub.kind != PAD && !is_unknown(sub.kind) {
        c.probe("trailing_bytes_in_submessage");
        let n = size(c, cfg, 1, 4);
        let t = if c.chance(1, 8) {
            lookalike(c, n)
        } else {
            c.vec(n)
        };
        sub.body.extend(t);
    }
    if c.chance(cfg.big, 16) && (sub.kind == PAD || is_unknown(sub.kind)) {
        c.probe("big_submessage");
        let n = match c.draw(8) {
            0 | 1 => c.literal() as usize % 60000,
            2 => c.pick(&[32764usize, 32768, 32772, 50000, 65528, 65532, 65535]),
            _ => c.pick(&[1000usize, 9000, 20000]),
        };
        let n = if cfg.odd > 0 && c.chance(cfg.odd, 8) {
            n
        } else {
            n / 4 * 4
        };
        let fill = c.u8();
        sub.body.extend(std::iter::repeat(fill).take(n));
        sub.body.truncate(65535);
    }
    Ok(sub)
}

pub struct HeaderGen {
    pub id: [u8; 4],
    pub version: (u8, u8),
    pub vendor: [u8; 2],
    pub src: Prefix,
}

pub fn message(c: &mut Ctx, cfg: &GenCfg, h: &HeaderGen) -> Res<Vec<u8>> {
    let mut m = vec![];
    put_header(&mut m, h.id, h.version, h.vendor, h.src);
    let n = c.many(0, cfg.max_subs, 300, 600);
    // Rarely one of them is repeated for as long as a datagram is.
    let again = if n > 0 && c.chance(1, 400) {
        c.draw(n)
    } else {
        n
    };
    // What UDP carries at most, or more by another transport.
    let room = if cfg.big > 0 && c.chance(1, 4) {
        150_000
    } else {
        65_507
    };
    for i in 0..n {
        let mut s = submessage(c, cfg)?;
        let last = i + 1 == n;
        let mut zero = false;
        if last {
            if c.chance(cfg.ragged, 8) && s.body.len() < 65_532 {
                c.probe("ragged_last_submessage");
                let n = c.range(1, 3) as usize;
                let t = c.vec(n);
                s.body.extend(t);
            }
            zero = s.kind != PAD && s.kind != INFO_TS && c.chance(cfg.zero_last, 8);
        }
        if m.len() + 4 + s.body.len() > room {
            break;
        }
        if zero {
            c.probe("length_zero_last_submessage");
        }
        let len = if zero { 0 } else { s.body.len() as u16 };
        if i == again && s.body.len() <= 60 && s.body.len() % 4 == 0 {
            c.fault("submessage_repeated");
            let most = (60_000 - m.len().min(50_000)) / (4 + s.body.len());
            let times = match c.draw(3) {
                0 => c.range(2, 300).min(most as u64),
                1 => most as u64,
                _ => c.range(1, most as u64),
            };
            for _ in 0..times {
                put_sub(&mut m, s.kind, s.flags, s.body.len() as u16, &s.body);
            }
        }
        put_sub(&mut m, s.kind, s.flags, len, &s.body);
    }
    Ok(m)
}

/// Nobody, somebody the specification lists, or anybody.
pub fn vendor(c: &mut Ctx) -> [u8; 2] {
    match c.draw(4) {
        0 | 1 => [0, 0],
        2 => [1, c.draw(0x20) as u8],
        _ => c.bytes(),
    }
}

/// Standard header from a sender.
pub fn header(c: &mut Ctx, src: Prefix) -> HeaderGen {
    HeaderGen {
        id: *b"RTPS",
        version: match c.draw(4) {
            0 | 1 => (2, 4),
            2 => (2, c.u8()),
            _ => (c.draw(3) as u8, c.u8()),
        },
        vendor: vendor(c),
        src,
    }
}

pub fn set_of(base: i64, offs: &[u64]) -> MSet {
    MSet {
        base,
        members: offs.iter().map(|o| base + *o as i64).collect(),
    }
}

pub fn canonical_words(m: &MSet) -> RawSet {
    canonical(m)
}
