//! T01 and T02: what clocks, timestamps and leases mean, on simulated clocks
//! with skew and jumps.

use crate::choice::splitmix;
use crate::conv::*;
use crate::ctx::{hex, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::{Readable, Writable};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const NANOS: i128 = 1_000_000_000;

/// A clock: nanoseconds since 1970 as this node believes.
struct Clock {
    offset: i128,
}

impl Clock {
    fn now(&self, sim: u64) -> i128 {
        self.offset + sim as i128
    }
}

fn systime(n: i128) -> Option<SystemTime> {
    let m = n.unsigned_abs();
    let d = Duration::new((m / NANOS as u128) as u64, (m % NANOS as u128) as u32);
    if n >= 0 {
        UNIX_EPOCH.checked_add(d)
    } else {
        UNIX_EPOCH.checked_sub(d)
    }
}

fn nanos(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}

const INVALID: (i32, u32) = (-1, 0xFFFF_FFFF);
/// The first second which a timestamp cannot express.
const END: i128 = (1i128 << 31) * NANOS;

fn clock_offset(c: &mut Ctx) -> i128 {
    let near = |c: &mut Ctx, s: i128| {
        let d = c.draw(4_000_000_000) as i128;
        s * NANOS + d - 2_000_000_000
    };
    match c.draw(11) {
        // The very end or beginning of a second, at the time most stamps are
        // taken
        10 => {
            let s = match c.draw(3) {
                0 => c.literal() as i128 & 0xF_FFFF_FFFF,
                1 => c.draw(1 << 31) as i128,
                _ => (c.literal() as i128 % (1 << 31)) + 1,
            };
            let bits = c.draw(31);
            let d = c.draw(1 << bits) as i128;
            s * NANOS - d - 50 * MS as i128
        }
        7 => {
            let s = c.literal() as i128 & 0xF_FFFF_FFFF;
            near(c, s)
        }
        8 => {
            let s = c.draw(1 << 32) as i128;
            s * NANOS + (c.literal() % NANOS as u64) as i128
        }
        0 | 1 => 1_700_000_000 * NANOS + c.u32() as i128,
        2 => near(c, 0),
        3 => near(c, 1 << 31),
        4 => near(c, 1 << 32),
        5 => {
            let s = c.draw(1 << 31) as i128;
            s * NANOS + c.draw(NANOS as u64) as i128
        }
        6 => {
            let s = c.draw(1 << 36) as i128;
            s * NANOS + c.draw(NANOS as u64) as i128
        }
        _ => -(c.draw(1 << 33) as i128) * NANOS - c.draw(NANOS as u64) as i128,
    }
}

enum TEv {
    Send(usize),
    Foreign,
    Deliver(Vec<u8>),
    Jump(usize),
}

struct Stamp {
    /// The source's clock.
    at: i128,
    parts: (i32, u32),
}

pub fn t01(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 3) as usize;
    let mut clocks: Vec<Clock> = vec![];
    let mut prefixes = vec![];
    for i in 0..n {
        let off = clock_offset(c);
        clocks.push(Clock { offset: off });
        let mut p = gen::prefix(c);
        p[0] = i as u8;
        prefixes.push(p);
    }
    let mut rx = new_rx(LOC_UDP4)?;
    let mut stamps: Vec<Stamp> = vec![];
    let mut foreign: BTreeMap<i64, (i32, u32)> = BTreeMap::new();
    let mut arrived: Vec<(i128, i128)> = vec![];
    let mut q: Queue<TEv> = Queue::new();
    for _ in 0..c.many(1, 12, 300, 200) {
        let s = c.draw(n as u64) as usize;
        // Down to single nanoseconds.
        let t = match c.draw(3) {
            0 => c.draw(100) * MS,
            1 => c.draw(2_000_000_000),
            _ => 50 * MS + c.draw(20),
        };
        q.at(t, TEv::Send(s));
    }
    for _ in 0..c.draw(4) {
        q.at(c.draw(100) * MS, TEv::Foreign);
    }
    for _ in 0..c.draw(3) {
        let s = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, TEv::Jump(s));
    }
    while let Some(ev) = q.pop() {
        match ev {
            TEv::Jump(i) => {
                c.fault("clock_jump");
                clocks[i].offset = match c.draw(3) {
                    0 => clocks[i].offset + c.draw(10_000) as i128 * NANOS / 1000,
                    1 => clocks[i].offset - c.draw(10_000) as i128 * NANOS / 1000,
                    _ => clock_offset(c),
                };
            }
            TEv::Send(i) => {
                let at = clocks[i].now(q.now);
                let t = match systime(at) {
                    Some(t) => t,
                    None => continue,
                };
                let stamp = real("taking a timestamp", || Time_t::from(t))?;
                let parts = stamp.sim_parts();
                c.compared += 1;
                c.ev(&[q.now, 1, parts.0 as u32 as u64, parts.1 as u64]);
                c.note(|| format!("clock {} reads {} ns: stamped {:?}", i, at, parts));
                if at < 0 || at >= END {
                    c.probe("clock_out_of_range");
                    ensure!(
                        parts == INVALID,
                        "out-of-range",
                        "{} ns after 1970 is no expressible time, it was stamped {:?}",
                        at,
                        parts
                    );
                } else {
                    // seconds + fraction / 2^32, at most a nanosecond off.
                    let exact = parts.0 as i128 * (1 << 32) + parts.1 as i128;
                    let want = at * (1 << 32);
                    let off = want - exact * NANOS;
                    ensure!(
                        parts.0 >= 0 && off.abs() <= 1 << 32,
                        "stamp",
                        "{} ns after 1970 was stamped {:?}",
                        at,
                        parts
                    );
                    for s in &stamps {
                        ensure!(
                            s.parts == INVALID || s.at.cmp(&at) == s.parts.cmp(&parts),
                            "stamp-order",
                            "{} ns was stamped {:?} and {} ns {:?}",
                            s.at,
                            s.parts,
                            at,
                            parts
                        );
                        let other = Time_t::sim_new(s.parts.0, s.parts.1);
                        ensure!(
                            s.parts == INVALID || s.at.cmp(&at) == other.cmp(&stamp),
                            "stamp-order",
                            "{:?} and {:?} compare as {:?}",
                            s.parts,
                            parts,
                            other.cmp(&stamp)
                        );
                    }
                }
                let id = stamps.len() as i64;
                stamps.push(Stamp { at, parts });
                let m = message(c, prefixes[i], id, stamp)?;
                for d in link.arrivals(c) {
                    q.after(d, TEv::Deliver(m.clone()));
                }
            }
            TEv::Foreign => {
                // Another implementation's clock, or no clock at all.
                let s = match c.draw(5) {
                    0 => c.pick(&[0, -1, i32::MAX, i32::MIN, -2, 1]),
                    1 => c.u32() as i32 | i32::MIN,
                    3 => c.literal() as i32,
                    _ => c.u32() as i32,
                };
                let f = match c.draw(4) {
                    0 => c.pick(&[0, 1, 0xFFFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 4, 5]),
                    2 => c.literal() as u32,
                    _ => c.u32(),
                };
                let id = 1_000_000 + foreign.len() as i64;
                foreign.insert(id, (s, f));
                c.fault("foreign_timestamp");
                let m = message(c, [0xEE; 12], id, Time_t::sim_new(s, f))?;
                for d in link.arrivals(c) {
                    q.after(d, TEv::Deliver(m.clone()));
                }
            }
            TEv::Deliver(m) => {
                let (got, err) = receive(&mut rx, &m, |e, r| {
                    let id = match e {
                        EntitySubmessage::Heartbeat(h, _) => i64::from(h.last_sn),
                        o => fail!("wrong-item", "{:?}", o),
                    };
                    Ok((id, r.have_timestamp, r.timestamp))
                })?;
                ensure!(
                    err.is_none() && got.len() == 1,
                    "not-received",
                    "{} items and {:?} from {}",
                    got.len(),
                    err,
                    hex(&m)
                );
                let (id, have, stamp) = got[0];
                let back = real("reading a timestamp", || SystemTime::try_from(stamp))?;
                c.compared += 1;
                ensure!(have, "lost-timestamp", "no timestamp from {}", hex(&m));
                let parts = match foreign.get(&id) {
                    Some(p) => *p,
                    None => match stamps.get(id as usize) {
                        Some(s) if id >= 0 => s.parts,
                        _ => fail!("wrong-item", "message {} was never sent: {}", id, hex(&m)),
                    },
                };
                ensure!(
                    stamp.sim_parts() == parts,
                    "changed-timestamp",
                    "{:?} was sent, {:?} received in {}",
                    parts,
                    stamp.sim_parts(),
                    hex(&m)
                );
                let back = back.map(nanos);
                c.ev(&[q.now, 2, id as u64, back.is_ok() as u64]);
                if parts.0 < 0 {
                    ensure!(
                        back.is_err(),
                        "nonsense-time",
                        "timestamp {:?} was read as {:?} ns after 1970",
                        parts,
                        back
                    );
                    continue;
                }
                let exact = parts.0 as i128 * (1 << 32) + parts.1 as i128;
                match back {
                    Ok(b) => {
                        let off = exact * NANOS - b * (1 << 32);
                        // Which way a foreign fraction rounds is left open.
                        ensure!(
                            off.abs() <= 1 << 32,
                            "read-time",
                            "timestamp {:?} was read as {} ns after 1970",
                            parts,
                            b
                        );
                        if id < 1_000_000 {
                            let at = stamps[id as usize].at;
                            ensure!(
                                b <= at && at - b <= 1,
                                "round-trip",
                                "{} ns after 1970 arrived as {}",
                                at,
                                b
                            );
                            for (a0, b0) in &arrived {
                                ensure!(
                                    !(*a0 < at && *b0 > b) && !(*a0 > at && *b0 < b),
                                    "arrival-order",
                                    "{} and {} arrived as {} and {}",
                                    a0,
                                    at,
                                    b0,
                                    b
                                );
                            }
                            arrived.push((at, b));
                        }
                    }
                    Err(e) => fail!(
                        "time-refused",
                        "timestamp {:?} cannot be read: {}",
                        parts,
                        e
                    ),
                }
            }
        }
    }
    let storm = c.storm(50_000);
    if storm > 0 {
        stamp_storm(c, storm)?;
    }
    c.sim_ns += q.now;
    Ok(())
}

/// A clock which runs (or jumps about) and is read many times.
fn stamp_storm(c: &mut Ctx, n: u64) -> Res<()> {
    let mut st = c.draw(1 << 63);
    let mut at = clock_offset(c);
    let bits = c.pick(&[10u32, 1, 24, 30, 34]);
    let jumps = c.chance(1, 4);
    let mut last: Option<(i128, (i32, u32), i128)> = None;
    for k in 0..n {
        if jumps {
            at = (splitmix(&mut st) % END as u64) as i128;
        } else {
            at += (splitmix(&mut st) >> (64 - bits)) as i128;
        }
        let t = match systime(at) {
            Some(t) => t,
            None => break,
        };
        let (parts, back) = real("taking and reading a timestamp", || {
            let s = Time_t::from(t);
            let parts = s.sim_parts();
            (parts, SystemTime::try_from(s).map(nanos))
        })?;
        c.compared += 1;
        if at < 0 || at >= END {
            ensure!(
                parts == INVALID && back.is_err(),
                "out-of-range",
                "reading {} of a row: {} ns after 1970 is no expressible time, it was stamped {:?}",
                k,
                at,
                parts
            );
            continue;
        }
        let b = match back {
            Ok(b) => b,
            Err(e) => fail!("time-refused", "timestamp {:?} cannot be read: {}", parts, e),
        };
        let exact = parts.0 as i128 * (1 << 32) + parts.1 as i128;
        let off = at * (1 << 32) - exact * NANOS;
        ensure!(
            parts.0 >= 0 && off.abs() <= 1 << 32 && b <= at && at - b <= 1,
            "stamp",
            "reading {} of a row: {} ns after 1970 was stamped {:?} and arrived as {}",
            k,
            at,
            parts,
            b
        );
        if let Some((a0, p0, b0)) = last {
            ensure!(
                a0.cmp(&at) == p0.cmp(&parts) && !(a0 < at && b0 > b) && !(a0 > at && b0 < b),
                "stamp-order",
                "{} and {} were stamped {:?} and {:?}, they arrived as {} and {}",
                a0,
                at,
                p0,
                parts,
                b0,
                b
            );
        }
        last = Some((at, parts, b));
    }
    c.ev(&[9, n]);
    Ok(())
}

/// Many leases there and back.
fn lease_storm(c: &mut Ctx, n: u64) -> Res<()> {
    let mut st = c.draw(1 << 63);
    let one = lease_value(c);
    let same = c.bool();
    for k in 0..n {
        let r = splitmix(&mut st);
        let d = if same {
            one
        } else {
            Duration::new(splitmix(&mut st) >> (r & 63), (r >> 6) as u32 % 1_000_000_000)
        };
        let en = if r >> 63 == 0 { End::Le } else { End::Be };
        let (parts, back) = real("announcing and reading a lease", || {
            let w = Duration_t::from(d);
            let parts = w.sim_parts();
            let e = endian(en);
            let b = w.write_to_vec_with_ctx(e).unwrap();
            let back = Duration_t::read_from_buffer_owned_with_ctx(e, &b).unwrap();
            (parts, Duration::from(back))
        })?;
        c.compared += 1;
        let fine = match lease_meaning(d) {
            Lease::Exact(w) => {
                parts == (w.as_secs() as i32, w.subsec_nanos()) && back == w
            }
            Lease::AtLeast(w) => parts.0 == 0x7FFF_FFFF && back >= w,
        };
        ensure!(
            fine,
            "lease",
            "lease {} of a row: {:?} is announced as {:?} and understood as {:?}",
            k,
            d,
            parts,
            back
        );
    }
    c.ev(&[9, n]);
    Ok(())
}

/// A heartbeat under a timestamp, all of it encoded by the real code.
fn message(c: &mut Ctx, p: Prefix, id: i64, t: Time_t) -> Res<Vec<u8>> {
    let en = if c.bool() { End::Le } else { End::Be };
    let body = real("encoding a timestamp", || {
        t.write_to_vec_with_ctx(endian(en)).unwrap()
    })?;
    let mut m = vec![];
    put_real_header(&mut m, p)?;
    put_real_sub(&mut m, INFO_TS, flag_of(en), &body)?;
    let hb = MEntity::Heartbeat {
        reader: [0; 4],
        writer: [0, 0, 1, 2],
        first: 1,
        last: id,
        count: 1,
        flags: 0,
    };
    let (k, body) = real_body(&hb, en)?;
    put_real_sub(&mut m, k, flag_of(en), &body)?;
    Ok(m)
}

// ---------------------------------------------------------------- T02

/// What a lease of this length is once it has been announced: exact as long
/// as the wire can express it, without an end otherwise.
enum Lease {
    Exact(Duration),
    AtLeast(Duration),
}

fn lease_meaning(d: Duration) -> Lease {
    if d.as_secs() <= 0x7FFF_FFFF {
        Lease::Exact(d)
    } else {
        Lease::AtLeast(Duration::from_secs(0x7FFF_FFFF))
    }
}

fn lease_value(c: &mut Ctx) -> Duration {
    match c.draw(10) {
        7 => Duration::new(c.literal(), c.draw(1_000_000_000) as u32),
        8 => Duration::new(c.draw(3), (c.literal() % 1_000_000_000) as u32),
        0 | 1 | 2 => Duration::from_millis(c.range(1, 500)),
        3 => Duration::new(c.draw(3), c.draw(1_000_000_000) as u32),
        4 => Duration::new(c.draw(1 << 31), c.draw(1_000_000_000) as u32),
        5 => Duration::from_nanos(c.range(1, 1000)),
        6 => Duration::new(
            c.pick(&[
                0x7FFF_FFFF,
                0x8000_0000,
                0xFFFF_FFFF,
                0x1_0000_0000,
                0x1_0000_0001,
                0x8000_0001,
                u64::MAX,
            ]),
            c.pick(&[0, 1, 999_999_999]),
        ),
        _ => Duration::new(c.u64() >> c.draw(40), c.draw(1_000_000_000) as u32),
    }
}

enum LEv {
    Announce(usize),
    Foreign,
    Deliver(usize, Vec<u8>),
    /// The lease granted by the announcement number `.1` may have ended.
    Timer(usize, u64),
    Die(usize),
}

struct Peer {
    lease: Duration,
    period: u64,
    en: End,
    alive: bool,
    last_heard: Option<u64>,
    timer: u64,
    expired: bool,
    died: Option<u64>,
}

/// The announcement: other parameters first, of any length.
fn announcement(c: &mut Ctx, en: End, lease: Vec<u8>) -> Res<(Vec<u8>, Vec<(u16, Vec<u8>)>)> {
    let mut ps: Vec<(u16, Vec<u8>)> = vec![];
    for _ in 0..c.many(0, 2, 200, 60) {
        let n = match c.draw(4) {
            0 => c.draw(9),
            1 => c.many(0, 39, 60, 65532),
            2 => c.literal() % 600,
            _ => c.pick(&[0, 1, 2, 3, 255, 257]),
        } as usize;
        let id = match c.draw(3) {
            0 => c.pick(&[0x002c, 0x0005, 0x0007, 0x0062, 0x8001]),
            1 => c.literal() as u16,
            _ => c.u16(),
        };
        // Neither the end of the list nor another lease.
        let id = if id < 3 { id + 0x0100 } else { id };
        if n % 4 != 0 {
            c.probe("parameter_needs_padding");
        }
        let mut v = c.vec(n.min(300));
        v.resize(n, 0x5A);
        ps.push((id, v));
    }
    let at = c.draw(ps.len() as u64 + 1) as usize;
    ps.insert(at, (0x0002, lease));
    ps.push((0x0001, vec![]));
    let mut m = vec![];
    for (id, v) in &ps {
        let p = Parameter::sim_new(ParameterId::sim_new(*id), v.clone());
        let b = real("encoding a parameter", || {
            p.write_to_vec_with_ctx(endian(en)).unwrap()
        })?;
        // An independent reader finds the value and where the next one starts.
        let mut r = R::new(&b, en);
        let head: Option<[u8; 4]> = r.take();
        let want_len = (v.len() + 3) / 4 * 4;
        let mut w = W::new(en);
        w.u16(*id);
        w.u16(want_len as u16);
        ensure!(
            head.map(|h| h.to_vec()) == Some(w.b)
                && b.len() == 4 + want_len
                && b[4..].starts_with(v),
            "parameter-bytes",
            "parameter {:#06x} = {} is {} on the wire",
            id,
            hex(v),
            hex(&b)
        );
        m.extend(b);
    }
    Ok((m, ps))
}

/// Reads parameters up to the sentinel; the lease among them.
fn read_announcement(
    m: &[u8],
    en: End,
    want: Option<&[(u16, Vec<u8>)]>,
) -> Res<Option<Duration_t>> {
    let mut at = 0;
    let mut lease = None;
    let mut i = 0;
    let e = endian(en);
    loop {
        let (r, n) = real("decoding a parameter", || {
            Parameter::read_with_length_from_buffer_with_ctx(e, &m[at..])
        })?;
        let p = match r {
            Ok(p) => p,
            Err(err) => match want {
                Some(_) => fail!(
                    "parameter-lost",
                    "parameter {} at byte {} of {}: {}",
                    i,
                    at,
                    hex(m),
                    err
                ),
                None => return Ok(None),
            },
        };
        at += n;
        let (id, v) = p.sim_parts();
        if let Some(want) = want {
            let (wid, wv) = match want.get(i) {
                Some(w) => w,
                None => fail!("parameter-extra", "{:?} read from {}", p, hex(m)),
            };
            ensure!(
                *id == ParameterId::sim_new(*wid) && v.len() < wv.len() + 4 && v.starts_with(wv),
                "parameter-value",
                "parameter {:#06x} = {} was read as {:?} from {}",
                wid,
                hex(wv),
                p,
                hex(m)
            );
        }
        i += 1;
        if *id == ParameterId::sim_new(1) {
            return Ok(lease);
        }
        if *id == ParameterId::sim_new(2) {
            let v = v.to_vec();
            lease = real("decoding a duration", || {
                Duration_t::read_from_buffer_owned_with_ctx(e, &v).ok()
            })?;
        }
    }
}

pub fn t02(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 3) as usize;
    let mut q: Queue<LEv> = Queue::new();
    let mut peers: Vec<Peer> = vec![];
    let end = 1500 * MS;
    for i in 0..n {
        let lease = lease_value(c);
        let ns = lease.as_nanos().min(end as u128) as u64;
        peers.push(Peer {
            lease,
            period: (ns / 3).max(20 * MS),
            en: if c.bool() { End::Le } else { End::Be },
            alive: true,
            last_heard: None,
            timer: 0,
            expired: false,
            died: None,
        });
        q.at(c.draw(50) * MS, LEv::Announce(i));
        if c.bool() {
            q.at(c.draw(800) * MS, LEv::Die(i));
        }
    }
    for _ in 0..c.draw(3) {
        q.at(c.draw(500) * MS, LEv::Foreign);
    }
    let mut wants: BTreeMap<Vec<u8>, Vec<(u16, Vec<u8>)>> = BTreeMap::new();
    while let Some(ev) = q.pop() {
        match ev {
            LEv::Die(i) => {
                if peers[i].alive {
                    c.fault("participant_crash");
                    peers[i].alive = false;
                    peers[i].died = Some(q.now);
                }
            }
            LEv::Announce(i) => {
                if !peers[i].alive || q.now > end {
                    continue;
                }
                let (d, en) = (peers[i].lease, peers[i].en);
                let (parts, bytes) = real("encoding a lease", || {
                    let d = Duration_t::from(d);
                    (d.sim_parts(), d.write_to_vec_with_ctx(endian(en)).unwrap())
                })?;
                c.compared += 1;
                c.ev(&[q.now, 1, parts.0 as u32 as u64, parts.1 as u64]);
                c.note(|| format!("peer {} announces {:?} as {:?}", i, d, parts));
                match lease_meaning(d) {
                    Lease::Exact(d) => ensure!(
                        parts == (d.as_secs() as i32, d.subsec_nanos()),
                        "lease-encoding",
                        "a lease of {:?} is announced as {:?}",
                        d,
                        parts
                    ),
                    Lease::AtLeast(_) => {
                        c.probe("lease_beyond_wire_range");
                        ensure!(
                            parts.0 == 0x7FFF_FFFF,
                            "lease-encoding",
                            "a lease of {:?} is announced as {:?}",
                            d,
                            parts
                        )
                    }
                }
                let (m, ps) = announcement(c, en, bytes)?;
                wants.insert(m.clone(), ps);
                for t in link.arrivals(c) {
                    q.after(t, LEv::Deliver(i, m.clone()));
                }
                let p = peers[i].period;
                q.after(p, LEv::Announce(i));
            }
            LEv::Deliver(i, m) => {
                let d = match read_announcement(&m, peers[i].en, wants.get(&m).map(|v| &v[..]))? {
                    Some(d) => d,
                    None => fail!("lease-lost", "no lease in {}", hex(&m)),
                };
                let d = real("reading a lease", || Duration::from(d))?;
                c.compared += 1;
                match lease_meaning(peers[i].lease) {
                    Lease::Exact(w) => ensure!(
                        d == w,
                        "lease",
                        "a lease of {:?} is understood as {:?}",
                        w,
                        d
                    ),
                    Lease::AtLeast(w) => ensure!(
                        d >= w,
                        "lease",
                        "a lease of {:?} is understood as {:?}",
                        peers[i].lease,
                        d
                    ),
                }
                let p = &mut peers[i];
                p.last_heard = Some(q.now);
                p.timer += 1;
                p.expired = false;
                // Like any timer, it ends no later than the representable.
                let t = d.as_nanos().min(100_000 * SEC as u128) as u64;
                let id = p.timer;
                q.after(t, LEv::Timer(i, id));
            }
            LEv::Timer(i, id) => {
                let now = q.now;
                let p = &mut peers[i];
                if p.timer != id {
                    continue;
                }
                p.expired = true;
                c.ev(&[now, 2, i as u64]);
                let heard = p.last_heard.unwrap();
                // Neither early nor late.
                let due = p.lease.as_nanos().min(100_000 * SEC as u128) as u64;
                ensure!(
                    now - heard == due,
                    "expiry",
                    "peer {} with a lease of {:?} heard at {} expired at {}",
                    i,
                    p.lease,
                    heard,
                    now
                );
                c.probe(if p.died.is_some() {
                    "dead_peer_expired"
                } else {
                    "silent_peer_expired"
                });
            }
            LEv::Foreign => {
                // A peer announcing anything at all must not stop the timers.
                let s = match c.draw(4) {
                    0 => c.pick(&[0, -1, i32::MAX, i32::MIN, -2, 1]),
                    1 => c.literal() as i32,
                    _ => c.u32() as i32,
                };
                let f = match c.draw(4) {
                    0 => c.pick(&[0, 999_999_999, 1_000_000_000, 0xFFFF_FFFF, 0xFFFF_FFFE]),
                    1 => c.draw(1_000_000_000) as u32,
                    2 => c.literal() as u32,
                    _ => c.u32(),
                };
                c.fault("foreign_lease");
                let d = Duration_t::sim_new(s, f);
                let d = real("reading a lease", || Duration::from(d))?;
                c.compared += 1;
                c.ev(&[q.now, 3, s as u32 as u64, f as u64]);
                let want = s as i128 * NANOS + f as i128;
                if s >= 0 {
                    ensure!(
                        d.as_nanos() as i128 == want,
                        "foreign-lease",
                        "({}, {}) is understood as {:?}",
                        s,
                        f,
                        d
                    );
                } else {
                    ensure!(
                        d == Duration::from_secs(0),
                        "foreign-lease",
                        "({}, {}) is no length of time; it is understood as {:?}",
                        s,
                        f,
                        d
                    );
                }
                // A peer whose lengths leave the padding out is understood.
                if c.bool() {
                    c.fault("foreign_parameter_length");
                    let en = if c.bool() { End::Le } else { End::Be };
                    let mut w = W::new(en);
                    w.i32(s);
                    w.u32(f);
                    let (_, mut ps) = announcement(c, en, w.b)?;
                    let at = c.draw(ps.len() as u64) as usize;
                    let n = c.draw(12) as usize;
                    ps.insert(at, (0x0123, c.vec(n)));
                    let mut w = W::new(en);
                    for (id, v) in &ps {
                        w.u16(*id);
                        w.u16(v.len() as u16);
                        w.raw(v);
                        w.raw(&vec![0; (4 - v.len() % 4) % 4]);
                    }
                    let d = read_announcement(&w.b, en, Some(&ps))?;
                    c.compared += 1;
                    ensure!(
                        d.map(|d| d.sim_parts()) == Some((s, f)),
                        "lease-lost",
                        "the lease ({}, {}) in {} was not found",
                        s,
                        f,
                        hex(&w.b)
                    );
                }
                // And any announcement at all is survived.
                let en = if c.bool() { End::Le } else { End::Be };
                let (mut m, _) = announcement(c, en, vec![0; 8])?;
                for _ in 0..c.range(1, 4) {
                    let k = c.draw(m.len() as u64) as usize;
                    m[k] = c.pick(&[0xff, 0, 0x80, 1, 3]);
                }
                if c.bool() {
                    let k = c.draw(m.len() as u64) as usize;
                    m.truncate(k);
                }
                c.fault("byte_overwrite");
                let mut long = m;
                if c.chance(1, 16) {
                    // The longest possible parameter.
                    c.fault("longest_parameter");
                    let n = c.pick(&[0xFFFFu16, 0xFFFE, 0xFFFD, 0xFFFC]);
                    let mut w = W::new(en);
                    w.u16(5);
                    w.u16(n);
                    w.raw(&vec![1; 65540]);
                    long = w.b;
                }
                if let Some(d) = read_announcement(&long, en, None)? {
                    real("reading a lease", || Duration::from(d))?;
                }
            }
        }
    }
    // Nobody dead is still thought alive, unless the lease reaches further.
    for (i, p) in peers.iter().enumerate() {
        if p.last_heard.is_some() {
            ensure!(
                p.expired,
                "never-expired",
                "peer {} is still held to be alive",
                i
            );
        }
    }
    let storm = c.storm(15_000);
    if storm > 0 {
        lease_storm(c, storm)?;
    }
    c.sim_ns += q.now.min(10 * SEC);
    Ok(())
}
