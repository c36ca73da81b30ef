//! Receivers fed by a simulated datagram network.
//!
//! `Node` is the loop of `tokio_util::udp::UdpFramed` around the real
//! `MessageReceiver`: one datagram into the buffer, `decode_eof` until it
//! returns `None`, then the buffer is cleared.  Which node is polled when,
//! which datagram arrives when and in what state, and who crashes is drawn from
//! the run's source.

use crate::conv::{loc_kind, m_ctx, m_entity};
use crate::ctx::{hash_bytes, hex, real, Ctx, Res};
use crate::gen::{self, GenCfg};
use crate::sched::*;
use crate::wire::*;
use crate::fail;
use bytes::BytesMut;
use rtps_rs::sim::MessageReceiver;
use std::collections::VecDeque;
use tokio_util::codec::Decoder;

/// Which parts of the expectation a scenario holds the receiver to.
#[derive(Clone, Copy)]
pub struct Aspects {
    pub items: bool,
    pub ctx: bool,
    /// Damage has to be reported, absence of damage must not.
    pub errors: bool,
}

pub struct Cur {
    bytes: Vec<u8>,
    exp: Expect,
    next: usize,
    errs: usize,
    polls: usize,
}

pub struct Node {
    pub id: u64,
    pub kind: u32,
    pub rx: MessageReceiver,
    rd: BytesMut,
    pub inbox: VecDeque<Vec<u8>>,
    cur: Option<Cur>,
    pub seen: u64,
    after_damage: bool,
}

pub fn new_rx(kind: u32) -> Res<MessageReceiver> {
    real("creating a receiver", || {
        MessageReceiver::new(loc_kind(kind))
    })
}

fn show(e: &Item) -> String {
    format!("{:?}", e.ent)
}

/// Is this panic the recorded one: DATA and DATA_FRAG are not implemented?
fn is_unimplemented_data(msg: &str) -> bool {
    // unimplemented!() or todo!()
    msg.contains("implemented")
}

impl Node {
    pub fn new(id: u64, kind: u32) -> Res<Node> {
        Ok(Node {
            id,
            kind,
            rx: new_rx(kind)?,
            rd: BytesMut::with_capacity(64 * 1024),
            inbox: VecDeque::new(),
            cur: None,
            seen: 0,
            after_damage: false,
        })
    }

    pub fn idle(&self) -> bool {
        self.cur.is_none() && self.inbox.is_empty()
    }

    /// The process dies at this instant; a new one takes over the socket, whose
    /// queue the kernel keeps or loses.
    pub fn restart(&mut self, c: &mut Ctx) -> Res<()> {
        c.fault("receiver_restart");
        if self.cur.is_some() {
            c.probe("restart_mid_datagram");
        }
        if c.bool() {
            self.inbox.clear();
        }
        self.cur = None;
        self.rd.clear();
        self.after_damage = false;
        self.rx = new_rx(self.kind)?;
        c.note(|| format!("node {} restarts", self.id));
        Ok(())
    }

    /// One poll of the framed socket.
    pub fn poll(&mut self, c: &mut Ctx, a: Aspects) -> Res<()> {
        if self.cur.is_none() {
            let bytes = match self.inbox.pop_front() {
                Some(b) => b,
                None => return Ok(()),
            };
            let exp = expect(&bytes, self.kind);
            self.rd.clear();
            self.rd.extend_from_slice(&bytes);
            c.note(|| {
                format!(
                    "node {} takes datagram {} ({} submessages expected, {:?})",
                    self.id,
                    hex(&bytes),
                    exp.items.len(),
                    exp.outcome
                )
            });
            self.cur = Some(Cur {
                bytes,
                exp,
                next: 0,
                errs: 0,
                polls: 0,
            });
            if self.after_damage {
                c.probe("datagram_after_damaged_one");
            }
        }
        let rx = &mut self.rx;
        let rd = &mut self.rd;
        let cur = self.cur.as_mut().unwrap();
        cur.polls += 1;
        let open = matches!(cur.exp.outcome, Outcome::Unspecified(_) | Outcome::DataAt(_));
        let dg = |cur: &Cur| format!("datagram {} at node {}", hex(&cur.bytes), self.id);
        if cur.polls > cur.exp.items.len() + cur.bytes.len() + 8 {
            fail!(
                "no-progress",
                "the receiver keeps producing without end on {}",
                dg(cur)
            );
        }
        let r = match real("decoding a datagram", || rx.decode_eof(rd)) {
            Ok(r) => r,
            Err(v) => {
                let data = match cur.exp.outcome {
                    Outcome::DataAt(at) | Outcome::Unspecified(at) => has_data(&cur.bytes, at),
                    _ => false,
                };
                if data
                    && cur.next >= cur.exp.items.len()
                    && is_unimplemented_data(&v.msg)
                {
                    c.finding("data-submessage-unimplemented", &v)?;
                    c.ev(&[self.id, 77]);
                    self.cur = None;
                    self.rx = new_rx(self.kind)?;
                    return Ok(());
                }
                fail!("panic", "{} on {}", v.msg, dg(cur));
            }
        };
        match r {
            Ok(Some(got)) => {
                c.compared += 1;
                self.seen += 1;
                let ctx = m_ctx(rx.sim_receiver());
                let ent = m_entity(got)?;
                c.ev(&[self.id, 1, hash_bytes(format!("{:?}", ent).as_bytes())]);
                if cur.errs > 0 && a.errors {
                    fail!(
                        "item-after-error",
                        "{:?} was delivered after the error was reported, on {}",
                        ent,
                        dg(cur)
                    );
                }
                match cur.exp.items.get(cur.next) {
                    None => {
                        if !open && a.items {
                            fail!(
                                "extra-item",
                                "{:?} was delivered, but the message holds only {} items, on {}",
                                ent,
                                cur.exp.items.len(),
                                dg(cur)
                            );
                        }
                    }
                    Some(want) => {
                        if a.items && want.ent != ent {
                            fail!(
                                "wrong-item",
                                "item {}: expected {}, got {:?}, on {}",
                                cur.next,
                                show(want),
                                ent,
                                dg(cur)
                            );
                        }
                        if a.ctx && want.ctx != ctx {
                            fail!(
                                "wrong-context",
                                "item {} must be interpreted under {:?}, the receiver is in {:?}, on {}",
                                cur.next,
                                want.ctx,
                                ctx,
                                dg(cur)
                            );
                        }
                    }
                }
                cur.next += 1;
            }
            Err(e) => {
                c.compared += 1;
                c.ev(&[self.id, 2]);
                c.note(|| format!("node {} reports: {}", self.id, e));
                if a.errors && cur.exp.outcome == Outcome::Complete {
                    fail!(
                        "spurious-error",
                        "\"{}\" after {} of {} items of an intact {}",
                        e,
                        cur.next,
                        cur.exp.items.len(),
                        dg(cur)
                    );
                }
                if a.items && cur.next < cur.exp.items.len() {
                    fail!(
                        "lost-before-damage",
                        "\"{}\" after {} items, but {} precede the damage, on {}",
                        e,
                        cur.next,
                        cur.exp.items.len(),
                        dg(cur)
                    );
                }
                cur.errs += 1;
                if c.chance(1, 3) {
                    // The application throws the rest of the datagram away.
                    c.probe("datagram_given_up_after_error");
                    self.after_damage = true;
                    self.rd.clear();
                    self.cur = None;
                }
            }
            Ok(None) => {
                c.compared += 1;
                c.ev(&[self.id, 3, cur.next as u64]);
                if a.items && cur.next < cur.exp.items.len() {
                    fail!(
                        "lost-items",
                        "only {} of {} items came out of {}",
                        cur.next,
                        cur.exp.items.len(),
                        dg(cur)
                    );
                }
                let damaged = matches!(cur.exp.outcome, Outcome::Damaged(_) | Outcome::Rejected);
                if a.errors && damaged && cur.errs == 0 {
                    fail!(
                        "silent-damage",
                        "no error was reported ({:?}) on {}",
                        cur.exp.outcome,
                        dg(cur)
                    );
                }
                self.after_damage = damaged;
                self.rd.clear();
                self.cur = None;
            }
        }
        Ok(())
    }
}

enum Ev {
    Send(usize),
    Deliver(usize, Vec<u8>),
    Poll(usize),
    Restart(usize),
}

pub struct NetCfg {
    pub loss: u64,
    pub dup: u64,
    pub jitter: u64,
    pub corrupt: u64,
    /// Damage may turn a submessage into one that is not implemented.
    pub data: bool,
    pub restarts: u64,
}

impl NetCfg {
    pub fn swarm(c: &mut Ctx) -> NetCfg {
        NetCfg {
            loss: c.pick(&[0, 0, 2, 4]),
            dup: c.pick(&[0, 0, 2, 5]),
            jitter: c.pick(&[0, 10 * MS, 100 * MS]),
            corrupt: 0,
            data: false,
            restarts: c.pick(&[0, 0, 1, 2]),
        }
    }
}

/// Damages a datagram in flight.
pub fn corrupt(c: &mut Ctx, m: &[u8], other: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    let bounds = expect(m, LOC_INVALID).boundaries;
    let spot = |c: &mut Ctx, len: usize| -> usize {
        if len == 0 {
            return 0;
        }
        if !bounds.is_empty() && c.bool() {
            let b = bounds[c.draw(bounds.len() as u64) as usize];
            (b + c.draw(30) as usize).min(len - 1)
        } else {
            c.draw(len as u64) as usize
        }
    };
    let rounds = if c.chance(1, 4) { c.range(2, 3) } else { 1 };
    for _ in 0..rounds {
        match c.draw(12) {
            0 | 1 => {
                c.fault("truncate");
                let at = spot(c, v.len());
                v.truncate(at);
            }
            2 => {
                c.fault("bit_flip");
                for _ in 0..c.range(1, 4) {
                    if !v.is_empty() {
                        let at = spot(c, v.len());
                        v[at] ^= 1 << c.draw(8);
                    }
                }
            }
            3 => {
                c.fault("byte_overwrite");
                if !v.is_empty() {
                    let at = spot(c, v.len());
                    v[at] = c.pick(&[0u8, 0xff, 0x7f, 0x80, 1]);
                }
            }
            4 | 5 => {
                // The length field of one submessage.
                c.fault("length_field");
                if !bounds.is_empty() {
                    let b = bounds[c.draw(bounds.len() as u64) as usize];
                    if b + 4 <= v.len() {
                        let n = match c.draw(4) {
                            0 => c.draw(64) as u16,
                            1 => c.pick(&[0u16, 1, 3, 0xffff, 0x8000, 0x00ff]),
                            2 => ((v.len() - b - 4) as u16).wrapping_add(c.draw(3) as u16),
                            _ => c.u16(),
                        };
                        let f = if v[b + 1] & 1 == 1 {
                            n.to_le_bytes()
                        } else {
                            n.to_be_bytes()
                        };
                        v[b + 2] = f[0];
                        v[b + 3] = f[1];
                    }
                }
            }
            6 => {
                // An aligned word in a body: counts, numbers of bits, numbers
                // of locators.
                c.fault("count_field");
                if v.len() >= 28 {
                    let words = (v.len() - 24) / 4;
                    let at = 24 + 4 * c.draw(words as u64) as usize;
                    let w = c.pick(&[
                        0xffff_ffffu32,
                        0x7fff_ffff,
                        257,
                        256,
                        0x0100_0000,
                        0x0101_0000,
                        0x0000_0100,
                        0xffff_ffe1,
                        0x1000_0000,
                    ]);
                    v[at..at + 4].copy_from_slice(&w.to_le_bytes());
                }
            }
            7 => {
                c.fault("splice");
                let a = spot(c, v.len().max(1));
                let b = c.draw(other.len() as u64 + 1) as usize;
                v.truncate(a);
                v.extend_from_slice(&other[b..]);
            }
            8 => {
                c.fault("garbage_tail");
                let n = c.range(1, 40) as usize;
                let t = c.vec(n);
                v.extend(t);
            }
            9 => {
                c.fault("zero_fill");
                if !v.is_empty() {
                    let at = spot(c, v.len());
                    let n = c.range(1, 32) as usize;
                    for x in v.iter_mut().skip(at).take(n) {
                        *x = 0;
                    }
                }
            }
            10 => {
                c.fault("kind_overwrite");
                if !bounds.is_empty() {
                    let b = bounds[c.draw(bounds.len() as u64) as usize];
                    if b < v.len() {
                        v[b] = if c.bool() { c.pick(&KNOWN) } else { c.u8() };
                    }
                }
            }
            _ => {
                c.fault("garbage");
                let n = c.pick(&[0usize, 1, 3, 19, 20, 21, 24, 40, 100]);
                v = c.vec(n);
                if n >= 5 && c.bool() {
                    v[..4].copy_from_slice(b"RTPS");
                    v[4] &= 1;
                }
            }
        }
    }
    v
}

pub type MakeMsg<'a> = dyn FnMut(&mut Ctx, usize, Prefix) -> Res<Vec<u8>> + 'a;

/// Senders, a lossy network, and receivers, until everything is delivered.
pub fn world(
    c: &mut Ctx,
    a: Aspects,
    net: &NetCfg,
    make: &mut MakeMsg,
    max_msgs: u64,
) -> Res<Vec<Node>> {
    let senders = c.range(1, 4) as usize;
    let nodes_n = c.range(1, 2) as usize;
    let msgs = c.many(1, max_msgs, 400, 400) as usize;
    let prefixes: Vec<Prefix> = (0..senders).map(|_| gen::prefix(c)).collect();
    let mut nodes = vec![];
    for i in 0..nodes_n {
        let kind = c.pick(&[LOC_INVALID, LOC_UDP4, LOC_UDP6, 0]);
        nodes.push(Node::new(i as u64, kind)?);
    }
    let mut q: Queue<Ev> = Queue::new();
    for _ in 0..msgs {
        let s = c.draw(senders as u64) as usize;
        let t = c.draw(200) * MS;
        q.at(t, Ev::Send(s));
    }
    for _ in 0..net.restarts {
        if c.bool() {
            let n = c.draw(nodes_n as u64) as usize;
            let t = c.draw(300) * MS;
            q.at(t, Ev::Restart(n));
        }
    }
    // Something in the network repeats one datagram (or two in turn) for long.
    let mut storm = c.storm(20_000);
    let mut storm_in = if storm > 0 { c.draw(8) } else { 0 };
    let mut before: Vec<u8> = vec![];
    let mut previous: Vec<u8> = vec![];
    let mut steps = 0u64;
    while let Some(ev) = q.pop() {
        steps += 1;
        if steps > 100_000 {
            fail!("no-progress", "the run does not come to an end");
        }
        match ev {
            Ev::Send(s) => {
                let m = make(c, s, prefixes[s])?;
                c.ev(&[q.now, 10, s as u64, hash_bytes(&m)]);
                for n in 0..nodes_n {
                    let mut copies = 1;
                    if c.chance(net.loss, 16) {
                        c.fault("loss");
                        copies = 0;
                    } else if c.chance(net.dup, 16) {
                        c.fault("duplicate");
                        copies = 2;
                    }
                    for _ in 0..copies {
                        let bytes = if c.chance(net.corrupt, 16) {
                            let v = corrupt(c, &m, &previous);
                            if !net.data && has_data(&v, 0) {
                                m.clone()
                            } else {
                                v
                            }
                        } else {
                            m.clone()
                        };
                        let mut d = MS;
                        if net.jitter > 0 && c.bool() {
                            c.fault("delay");
                            d += c.draw(net.jitter / MS) * MS;
                        }
                        q.after(d, Ev::Deliver(n, bytes));
                    }
                }
                previous = m;
            }
            Ev::Deliver(n, b) => {
                c.ev(&[q.now, 11, n as u64, hash_bytes(&b)]);
                if storm > 0 && storm_in == 0 && b.len() <= 600 {
                    let in_turn = c.bool();
                    for k in 0..storm {
                        let b = if in_turn && k % 2 == 1 { &before } else { &b };
                        nodes[n].inbox.push_back(b.clone());
                        while !nodes[n].idle() {
                            nodes[n].poll(c, a)?;
                        }
                    }
                    storm = 0;
                } else {
                    storm_in = storm_in.saturating_sub(1);
                }
                before.clone_from(&b);
                nodes[n].inbox.push_back(b);
                q.after(0, Ev::Poll(n));
            }
            Ev::Poll(n) => {
                if nodes[n].idle() {
                    continue;
                }
                // A few polls, then another task runs.
                let k = c.range(1, 4);
                for _ in 0..k {
                    nodes[n].poll(c, a)?;
                }
                if !nodes[n].idle() {
                    let d = if c.chance(1, 8) {
                        c.fault("stalled_receiver");
                        c.draw(50) * MS
                    } else {
                        c.draw(100) * US
                    };
                    q.after(d, Ev::Poll(n));
                }
            }
            Ev::Restart(n) => {
                nodes[n].restart(c)?;
                if !nodes[n].idle() {
                    q.after(MS, Ev::Poll(n));
                }
            }
        }
    }
    c.sim_ns += q.now;
    Ok(nodes)
}

const ALL: Aspects = Aspects {
    items: true,
    ctx: true,
    errors: true,
};

pub fn m01(c: &mut Ctx) -> Res<()> {
    let net = NetCfg::swarm(c);
    let cfg = GenCfg::plain(c);
    let a = Aspects { ctx: false, ..ALL };
    world(
        c,
        a,
        &net,
        &mut |c, _, p| {
            let h = gen::header(c, p);
            gen::message(c, &cfg, &h)
        },
        6,
    )?;
    Ok(())
}

pub fn m02(c: &mut Ctx) -> Res<()> {
    let mut net = NetCfg::swarm(c);
    // Some of the traffic in between may be damaged: what it established must
    // not leak into the messages that follow.
    net.corrupt = c.pick(&[0, 0, 2]);
    let mut cfg = GenCfg::plain(c);
    cfg.max_subs = c.pick(&[4, 8, 14]);
    // Content the flags of an INFO submessage say is not there.
    cfg.trailing = c.pick(&[0, 0, 2]);
    cfg.w = [4, 1, 1, 1, 1, 1, 0, 0, 0];
    for i in 1..6 {
        cfg.w[i] = c.pick(&[1, 0, 3]);
    }
    world(
        c,
        ALL,
        &net,
        &mut |c, _, p| {
            let h = gen::header(c, p);
            gen::message(c, &cfg, &h)
        },
        6,
    )?;
    Ok(())
}

pub fn m03(c: &mut Ctx) -> Res<()> {
    let mut net = NetCfg::swarm(c);
    net.corrupt = c.pick(&[8, 4, 14]);
    net.data = true;
    let mut cfg = GenCfg::plain(c);
    cfg.w = [6, 1, 1, 2, 1, 1, 1, 1, 0];
    cfg.w[8] = c.pick(&[0, 0, 0, 0, 0, 0, 0, 1]);
    cfg.trailing = c.pick(&[0, 2]);
    cfg.ragged = c.pick(&[0, 1]);
    cfg.odd = c.pick(&[0, 0, 2]);
    world(
        c,
        ALL,
        &net,
        &mut |c, _, p| {
            let h = gen::header(c, p);
            gen::message(c, &cfg, &h)
        },
        8,
    )?;
    Ok(())
}

pub fn m04(c: &mut Ctx) -> Res<()> {
    let net = NetCfg::swarm(c);
    let mut cfg = GenCfg::plain(c);
    cfg.max_subs = c.pick(&[4, 8, 14]);
    cfg.w = [5, 1, 1, 1, 1, 1, 2, 4, 0];
    cfg.trailing = c.pick(&[3, 0, 8]);
    cfg.ragged = c.pick(&[0, 2]);
    cfg.odd = c.pick(&[0, 2, 8]);
    cfg.big = c.pick(&[0, 0, 1]);
    world(
        c,
        ALL,
        &net,
        &mut |c, _, p| {
            let h = gen::header(c, p);
            gen::message(c, &cfg, &h)
        },
        5,
    )?;
    Ok(())
}

pub fn m05(c: &mut Ctx) -> Res<()> {
    let net = NetCfg::swarm(c);
    let mut cfg = GenCfg::plain(c);
    cfg.max_subs = 4;
    world(
        c,
        ALL,
        &net,
        &mut |c, _, p| {
            let mut h = gen::header(c, p);
            match c.draw(6) {
                0 | 1 => {
                    c.probe("header_acceptable");
                    h.version = match c.draw(4) {
                        0 => (2, 4),
                        1 => (2, c.pick(&[0u8, 1, 2, 3, 5, 255])),
                        2 => (2, c.u8()),
                        _ => (c.draw(3) as u8, c.u8()),
                    };
                }
                2 | 3 => {
                    c.probe("header_newer_major");
                    h.version = (
                        match c.draw(3) {
                            0 => 3,
                            1 => c.pick(&[4u8, 127, 128, 254, 255]),
                            _ => c.range(3, 255) as u8,
                        },
                        c.u8(),
                    );
                }
                4 => {
                    c.probe("header_wrong_protocol");
                    h.id = match c.draw(3) {
                        0 => **c.pick(&[
                            &b"RTPX",
                            &b"rtps",
                            &b"RTPs",
                            &b"STPR",
                            &b"XTPS",
                            &b"RXPS",
                            &b"RTXS",
                            &b"SPTR",
                            &b"\0\0\0\0",
                        ]),
                        1 => {
                            let mut i = *b"RTPS";
                            let k = c.draw(4) as usize;
                            i[k] ^= 1 << c.draw(8);
                            i
                        }
                        _ => {
                            let i: [u8; 4] = c.bytes();
                            if &i == b"RTPS" {
                                *b"RTPT"
                            } else {
                                i
                            }
                        }
                    };
                }
                _ => {
                    c.probe("header_short");
                    let m = gen::message(c, &cfg, &h)?;
                    let n = c.range(1, 19) as usize;
                    return Ok(m[..n].to_vec());
                }
            }
            gen::message(c, &cfg, &h)
        },
        8,
    )?;
    Ok(())
}
