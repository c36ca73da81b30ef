//! L01: replies find their way back.

use crate::choice::splitmix;
use crate::conv::*;
use crate::ctx::{hex, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::Writable;
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4};

fn is_locator(a: &SocketAddr) -> bool {
    !a.ip().is_unspecified()
}

/// Addresses close to one another, of both families.
fn address(c: &mut Ctx, base: &SocketAddr) -> SocketAddr {
    let port = match c.draw(5) {
        3 => c.literal() as u16,
        0 => base.port(),
        1 => base.port() ^ (1 << c.draw(16)),
        2 => c.pick(&[7400, 7401, 0x7FFF, 0x8000, 0xFFFF, 1, 256, 0x00FF]),
        _ => c.u16(),
    };
    let ip = match (c.draw(8), base.ip()) {
        (0, ip) => ip,
        (1, IpAddr::V4(v)) => {
            let mut o = v.octets();
            o[c.draw(4) as usize] ^= 1 << c.draw(8);
            IpAddr::from(o)
        }
        (1, IpAddr::V6(v)) => {
            let mut o = v.octets();
            o[c.draw(16) as usize] ^= 1 << c.draw(8);
            IpAddr::from(o)
        }
        (2, IpAddr::V4(v)) => IpAddr::V6(if c.bool() {
            v.to_ipv6_mapped()
        } else {
            v.to_ipv6_compatible()
        }),
        (3, IpAddr::V6(v)) => {
            let o = v.octets();
            IpAddr::from([o[12], o[13], o[14], o[15]])
        }
        (7, _) => IpAddr::V6(gen::segments(c)),
        (4, _) => IpAddr::V6(Ipv6Addr::from(c.bytes::<16>())),
        // Somebody who does not know its own address.
        (5, IpAddr::V4(_)) if c.bool() => IpAddr::V4(Ipv4Addr::UNSPECIFIED),
        (5, _) if c.bool() => IpAddr::V6(Ipv6Addr::UNSPECIFIED),
        _ => IpAddr::V4(Ipv4Addr::from(gen::ip4(c))),
    };
    SocketAddr::new(ip, port)
}

struct Req {
    addrs: Vec<SocketAddr>,
    multi: Vec<SocketAddr>,
    prefix: Prefix,
    count: i32,
    replies: u64,
}

enum Ev {
    Ask(usize),
    Deliver(Vec<u8>),
    /// The responder answers a request: where to, and which.
    Answer(Vec<SocketAddr>, Vec<SocketAddr>, i32),
    Reply(SocketAddr, i32),
    Restart(usize),
    /// A request of another implementation, naming whatever it likes.
    Foreign,
}

fn to_locator(a: SocketAddr) -> Res<Locator_t> {
    real("making a locator", || Locator_t::from(a))
}

/// Four bytes of a message.
fn word(n: u32, en: End) -> Vec<u8> {
    match en {
        End::Le => n.to_le_bytes().to_vec(),
        End::Be => n.to_be_bytes().to_vec(),
    }
}

fn to_address(l: Locator_t) -> Res<SocketAddr> {
    real("reading a locator", || SocketAddr::from(l))
}

pub fn l01(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 4) as usize;
    let base = if c.bool() {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(192, 168, 1, 7)), 7410)
    } else {
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from([0xfe80, 0, 0, 0, 1, 2, 3, 4])), 7410)
    };
    // Who listens where.
    let mut table: BTreeMap<SocketAddr, usize> = BTreeMap::new();
    let mut reqs: Vec<Req> = vec![];
    let bind = |c: &mut Ctx, table: &mut BTreeMap<SocketAddr, usize>, i: usize| {
        let mut v = vec![];
        let most = c.pick(&[1, 1, 2, 3]);
        for _ in 0..c.many(most, most, 64, 300) {
            let a = address(c, &base);
            if !table.contains_key(&a) {
                table.insert(a, i);
                v.push(a);
            }
        }
        v
    };
    for i in 0..n {
        let addrs = bind(c, &mut table, i);
        let multi = if c.chance(1, 3) {
            bind(c, &mut table, i)
        } else {
            vec![]
        };
        reqs.push(Req {
            addrs,
            multi,
            prefix: gen::prefix(c),
            count: 0,
            replies: 0,
        });
    }
    let mut rx = new_rx(LOC_UDP4)?;
    // What each request named, by its count.
    let mut asked: BTreeMap<i32, (usize, Vec<SocketAddr>, Vec<SocketAddr>)> = BTreeMap::new();
    let mut total = 0;
    let mut q: Queue<Ev> = Queue::new();
    for _ in 0..c.many(1, 8, 300, 200) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Ask(i));
    }
    for _ in 0..c.draw(3) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Restart(i));
    }
    for _ in 0..c.draw(3) {
        q.at(c.draw(100) * MS, Ev::Foreign);
    }
    while let Some(ev) = q.pop() {
        match ev {
            Ev::Foreign => foreign(c, &mut rx)?,
            Ev::Restart(i) => {
                // Comes back on other ports; nobody listens on the old ones.
                c.fault("requester_restart");
                table.retain(|_, o| *o != i);
                reqs[i].addrs = bind(c, &mut table, i);
                reqs[i].multi.clear();
            }
            Ev::Ask(i) => {
                total += 1;
                let count = total;
                reqs[i].count = count;
                let en = if c.bool() { End::Le } else { End::Be };
                let e = endian(en);
                let (mut addrs, mut multi) = (reqs[i].addrs.clone(), reqs[i].multi.clone());
                // The compact form has room for one address of each sort, of
                // the older family.
                let v4 = |a: &[SocketAddr]| -> Option<SocketAddrV4> {
                    a.iter().find_map(|a| match a {
                        SocketAddr::V4(v) => Some(*v),
                        _ => None,
                    })
                };
                let compact = v4(&addrs).is_some()
                    && (multi.is_empty() || v4(&multi).is_some())
                    && c.bool();
                let mut body = vec![];
                let mut flags = flag_of(en);
                let kind;
                if compact {
                    kind = INFO_REPLY_IP4;
                    let u = v4(&addrs).unwrap();
                    addrs = vec![u.into()];
                    let mut list = vec![u];
                    if let Some(m) = v4(&multi) {
                        multi = vec![m.into()];
                        list.push(m);
                        flags |= 2;
                    }
                    for a in list {
                        let b = real("encoding a locator", || {
                            let l = LocatorUDPv4_t::from(a);
                            let back = SocketAddrV4::from(LocatorUDPv4_t::from(a));
                            (l.write_to_vec_with_ctx(e).unwrap(), back)
                        })?;
                        c.compared += 1;
                        ensure!(
                            b.1 == a,
                            "compact-locator",
                            "{} in compact form stands for {}",
                            a,
                            b.1
                        );
                        let w = [u32::from(*a.ip()), a.port().into()].map(|n| word(n, en)).concat();
                        ensure!(
                            b.0 == w,
                            "compact-bytes",
                            "{} in compact form is sent as {} instead of {}",
                            a,
                            hex(&b.0),
                            hex(&w)
                        );
                        body.extend(b.0);
                    }
                } else {
                    kind = INFO_REPLY;
                    let mut lists = vec![addrs.clone()];
                    if !multi.is_empty() || c.bool() {
                        lists.push(multi.clone());
                        flags |= 2;
                    }
                    for l in lists {
                        let mut v: LocatorList_t = vec![];
                        for a in &l {
                            v.push(to_locator(*a)?);
                        }
                        let b = real("encoding locators", || {
                            v.write_to_vec_with_ctx(e).unwrap()
                        })?;
                        // As another implementation finds them there.
                        for (k, a) in l.iter().enumerate() {
                            if !is_locator(a) {
                                continue;
                            }
                            let mut w = word(if a.is_ipv4() { LOC_UDP4 } else { LOC_UDP6 }, en);
                            w.extend(word(a.port().into(), en));
                            match a.ip() {
                                IpAddr::V4(i) => {
                                    w.extend([0; 12]);
                                    w.extend(i.octets());
                                }
                                IpAddr::V6(i) => w.extend(i.octets()),
                            }
                            c.compared += 1;
                            ensure!(
                                b.get(4 + 24 * k..28 + 24 * k) == Some(&w[..]),
                                "locator-bytes",
                                "{} of {:?} is sent as {} instead of {}: {}",
                                k,
                                l,
                                hex(b.get(4 + 24 * k..28 + 24 * k).unwrap_or(&[])),
                                hex(&w),
                                hex(&b)
                            );
                        }
                        body.extend(b);
                    }
                }
                if flags & 2 == 0 && c.chance(1, 8) {
                    // A requester that no longer names a multicast address may
                    // leave it where it was and only clear the flag.
                    c.probe("withdrawn_address_left_in_place");
                    let a = match v4(&reqs[c.draw(n as u64) as usize].addrs) {
                        Some(a) if c.bool() => a,
                        _ => SocketAddrV4::new(Ipv4Addr::new(239, 255, 0, 1), 7400),
                    };
                    if compact {
                        body.extend(word(u32::from(*a.ip()), en));
                        body.extend(word(a.port().into(), en));
                    } else {
                        for n in &[1, LOC_UDP4, a.port().into()] {
                            body.extend(word(*n, en));
                        }
                        body.extend_from_slice(&[0; 12]);
                        body.extend_from_slice(&a.ip().octets());
                    }
                }
                let mut m = vec![];
                put_real_header(&mut m, reqs[i].prefix)?;
                put_real_sub(&mut m, kind, flags, &body)?;
                let ask = MEntity::AckNack {
                    reader: [0, 0, 1, 7],
                    writer: [0, 0, 1, 2],
                    set: MSet {
                        base: 1,
                        members: vec![1],
                    },
                    count,
                    flags,
                };
                let (k, b) = real_body(&ask, en)?;
                put_real_sub(&mut m, k, flag_of(en), &b)?;
                c.note(|| {
                    format!(
                        "requester {} asks {} for a reply to {:?} / {:?}: {}",
                        i,
                        count,
                        addrs,
                        multi,
                        hex(&m)
                    )
                });
                asked.insert(count, (i, addrs, multi));
                for d in link.arrivals(c) {
                    q.after(d, Ev::Deliver(m.clone()));
                }
            }
            Ev::Deliver(m) => {
                let (got, err) = receive(&mut rx, &m, |e, r| {
                    let n: i32 = match e {
                        EntitySubmessage::AckNack(a, _) => a.count.into(),
                        o => fail!("wrong-item", "{:?}", o),
                    };
                    // The lists as the responder keeps them.
                    let keep = |v: &LocatorList_t| -> Vec<Locator_t> {
                        v.iter()
                            .map(|l| Locator_t {
                                kind: l.kind,
                                port: l.port,
                                address: l.address,
                            })
                            .collect()
                    };
                    Ok((
                        n,
                        keep(&r.unicast_reply_locator_list),
                        keep(&r.multicast_reply_locator_list),
                    ))
                })?;
                ensure!(
                    err.is_none() && got.len() == 1,
                    "not-received",
                    "{} items and {:?} from {}",
                    got.len(),
                    err,
                    hex(&m)
                );
                for (n, uni, multi) in got {
                    let (_, wu, wm) = match asked.get(&n) {
                        Some(a) => a.clone(),
                        None => fail!("wrong-item", "request {} was never made: {}", n, hex(&m)),
                    };
                    let mut lists = vec![];
                    for (ls, want) in [(uni, wu), (multi, wm)] {
                        let mut to = vec![];
                        ensure!(
                            ls.len() == want.len(),
                            "locators",
                            "{:?} became {:?} in {}",
                            want,
                            ls,
                            hex(&m)
                        );
                        for (l, w) in ls.into_iter().zip(want) {
                            let kind = m_kind(&l.kind);
                            let a = to_address(l)?;
                            c.compared += 1;
                            if is_locator(&w) {
                                ensure!(
                                    a == w
                                        && kind == if w.is_ipv4() { LOC_UDP4 } else { LOC_UDP6 },
                                    "address",
                                    "{} arrived as {} (kind {}) in {}",
                                    w,
                                    a,
                                    kind,
                                    hex(&m)
                                );
                                to.push(a);
                            } else {
                                // Nobody can be reached there, and that shows.
                                c.probe("wildcard_address");
                                ensure!(
                                    kind == LOC_INVALID && !is_locator(&a),
                                    "wildcard",
                                    "the wildcard {} arrived as {} (kind {})",
                                    w,
                                    a,
                                    kind
                                );
                            }
                        }
                        lists.push(to);
                    }
                    let multi = lists.pop().unwrap();
                    let uni = lists.pop().unwrap();
                    c.ev(&[q.now, 1, n as u64, uni.len() as u64, multi.len() as u64]);
                    // Answered at once or later, when other requests have come.
                    let d = c.draw(40) * MS;
                    q.after(d, Ev::Answer(uni, multi, n));
                }
            }
            Ev::Answer(uni, multi, n) => {
                for a in uni.into_iter().chain(multi) {
                    for d in link.arrivals(c) {
                        q.after(d, Ev::Reply(a, n));
                    }
                }
            }
            Ev::Reply(a, n) => {
                let (i, uni, multi) = &asked[&n];
                c.compared += 1;
                match table.get(&a) {
                    Some(o) if o == i => reqs[*i].replies += 1,
                    Some(o) => {
                        // Somebody else may listen there by now, but not
                        // anywhere the request did not name.
                        ensure!(
                            uni.contains(&a) || multi.contains(&a),
                            "misrouted",
                            "the reply to {} reached {} at {}",
                            i,
                            o,
                            a
                        );
                    }
                    None => c.probe("reply_to_closed_port"),
                }
                c.ev(&[q.now, 2, n as u64]);
            }
        }
    }
    let storm = c.storm(50_000);
    if storm > 0 {
        address_storm(c, storm)?;
    }
    c.sim_ns += q.now;
    Ok(())
}

/// Many addresses there and back, all of them out of one draw.
fn address_storm(c: &mut Ctx, n: u64) -> Res<()> {
    let mut st = c.draw(1 << 63);
    // A few networks, or all of them.
    let bits = c.pick(&[32u32, 3, 16]);
    let one = c.bool();
    let mut a = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 7400);
    for k in 0..n {
        if !one || k == 0 {
            let r = splitmix(&mut st);
            let low = splitmix(&mut st);
            let ip = if r & 1 == 0 {
                IpAddr::from(((low >> (64 - bits)) as u32 | 1 << 24).to_be_bytes())
            } else {
                let mut o = [0u8; 16];
                o[8..].copy_from_slice(&low.to_be_bytes());
                o[..8].copy_from_slice(&(splitmix(&mut st) >> (r >> 8 & 63)).to_be_bytes());
                IpAddr::from(o)
            };
            a = SocketAddr::new(ip, (r >> 40) as u16);
        }
        if !is_locator(&a) {
            continue;
        }
        let l = to_locator(a)?;
        let kind = m_kind(&l.kind);
        let back = to_address(l)?;
        c.compared += 1;
        ensure!(
            back == a && kind == if a.is_ipv4() { LOC_UDP4 } else { LOC_UDP6 },
            "address",
            "conversion {} of a row: {} became {} (kind {})",
            k,
            a,
            back,
            kind
        );
        if let SocketAddr::V4(v) = a {
            let back = real("making and reading a short locator", || {
                SocketAddrV4::from(LocatorUDPv4_t::from(v))
            })?;
            ensure!(
                back == v,
                "address",
                "conversion {} of a row: {} became {}",
                k,
                v,
                back
            );
        }
    }
    c.ev(&[9, n]);
    Ok(())
}

/// Locators which another implementation names: those of the two known address
/// families are addresses, all others reach nobody.
fn foreign(c: &mut Ctx, rx: &mut MessageReceiver) -> Res<()> {
    c.probe("foreign_request");
    let en = if c.bool() { End::Le } else { End::Be };
    let mut list = vec![];
    for _ in 0..c.many(1, 4, 64, 500) {
        let mut l = gen::mloc(c);
        l.port &= 0xFFFF;
        list.push(l);
    }
    let mut m = vec![];
    put_header(&mut m, *b"RTPS", (2, 2), [1, 0xF], [9; 12]);
    let mut w = W::new(en);
    w.u32(list.len() as u32);
    for l in &list {
        w.loc(l);
    }
    put_sub(&mut m, INFO_REPLY, flag_of(en), w.b.len() as u16, &w.b);
    let hb = MEntity::Heartbeat {
        reader: [0; 4],
        writer: [0, 0, 1, 2],
        first: 1,
        last: 2,
        count: 3,
        flags: 0,
    };
    let (k, b) = ref_body(&hb, en, None);
    put_sub(&mut m, k, flag_of(en), b.len() as u16, &b);
    c.note(|| format!("a foreign request names {:?}: {}", list, hex(&m)));
    let (got, err) = receive(rx, &m, |_, r| {
        Ok(r.unicast_reply_locator_list
            .iter()
            .map(|l| (m_loc(l), Locator_t {
                kind: l.kind,
                port: l.port,
                address: l.address,
            }))
            .collect::<Vec<_>>())
    })?;
    ensure!(
        err.is_none() && got.len() == 1 && got[0].len() == list.len(),
        "not-received",
        "{} items and {:?} from {}",
        got.len(),
        err,
        hex(&m)
    );
    for ((ml, l), want) in got.into_iter().flatten().zip(&list) {
        let a = to_address(l)?;
        c.compared += 1;
        c.ev(&[3, want.kind as u64, want.port as u64]);
        let expected = match want.kind {
            LOC_UDP4 => {
                let o = want.addr;
                SocketAddr::new(IpAddr::from([o[12], o[13], o[14], o[15]]), want.port as u16)
            }
            LOC_UDP6 => SocketAddr::new(IpAddr::from(want.addr), want.port as u16),
            _ => SocketAddr::new(IpAddr::V6(Ipv6Addr::UNSPECIFIED), 0),
        };
        ensure!(
            ml == *want && a == expected,
            "address",
            "{:?} is received as {:?} and stands for {}, not {}",
            want,
            ml,
            a,
            expected
        );
    }
    Ok(())
}
