//! W05: the whole reliable protocol.
//!
//! Participants with writers and readers on a network which loses, repeats,
//! delays, reorders and cuts.  Everything this library has of the protocol
//! runs as real code: numbering, history caches, reader proxies, the matched
//! readers, all encodings, the message receiver with its state, number sets,
//! locators.  What it does not have is the harness's: the reactions to
//! HEARTBEAT and ACKNACK, timers, discovery.  DATA is not implemented, so a
//! change travels as a HEARTBEAT_FRAG whose two last fields carry its content.

use crate::behavior::*;
use crate::conv::*;
use crate::ctx::{hash_bytes, hex, mix, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::Writable;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};

type G = (Prefix, Ent);
const ALL: Prefix = [0; 12];
const ANY: Ent = [0; 4];
const HB_PERIOD: u64 = 50 * MS;

struct Part {
    prefix: Prefix,
    rx: MessageReceiver,
    addr: SocketAddr,
    up: bool,
    life: i32,
    /// Busy with something else until then.
    stalled: u64,
}

struct Wr {
    part: usize,
    ent: Ent,
    start: i64,
    depth: usize,
    // Volatile.
    qos: Qos,
    sw: SimStatelessWriter,
    cache: Cache,
    sf: StatefulWriter,
    hb: i32,
    matched: BTreeSet<G>,
    pushed: BTreeMap<G, i64>,
    reach: BTreeMap<G, SocketAddr>,
    acked: BTreeMap<G, i64>,
    acks_seen: BTreeMap<G, i32>,
    pending: BTreeMap<G, BTreeSet<i64>>,
    // Durable.
    disk: BTreeMap<i64, Content>,
    disk_last: i64,
    // What is true.
    last: i64,
    written: BTreeMap<i64, Content>,
}

struct Rs {
    cache: Cache,
    held: BTreeSet<i64>,
    irrelevant: BTreeSet<i64>,
    /// The next change the application gets.
    next: i64,
    delivered: Vec<i64>,
    hb_count: i32,
    hb_last: i64,
    acks: i32,
    want_ack: bool,
}

struct Rd {
    part: usize,
    ent: Ent,
    of: Vec<Rs>,
}

#[derive(Clone, Debug)]
enum Dest {
    Addr(SocketAddr),
    Part(usize),
}

enum Ev {
    Write(usize, u64),
    Remove(usize),
    Push(usize),
    Hb(usize),
    Ack(usize),
    Respond(usize, G),
    Announce(usize),
    AnnArrive(usize, G, SocketAddr),
    Deliver(Dest, Vec<u8>),
    Crash(usize),
    Restart(usize),
    Cut(usize, usize),
    Heal,
    Stall(usize),
}

/// What a submessage is to be interpreted under by its receiver.
struct Under {
    ent: MEntity,
    src: Prefix,
    dst: Prefix,
    reply: Vec<Locator_t>,
}

struct World {
    q: Queue<Ev>,
    parts: Vec<Part>,
    ws: Vec<Wr>,
    rs: Vec<Rd>,
    link: Link,
    cut: BTreeSet<(usize, usize)>,
    gateway: Option<Prefix>,
    combined: bool,
    /// Flags of every HEARTBEAT.
    hb_flags: u8,
    /// Is an ACKNACK final: never, always, when it requests nothing.
    ack_final: u8,
    use_reply: bool,
    ts: bool,
    quiet: u64,
    // Everything ever sent, so that nothing else is received.
    sent_hb: BTreeMap<(usize, i32), (i64, i64)>,
    sent_ack: BTreeMap<(G, usize, i32), (i64, Vec<i64>)>,
    sent_gap: BTreeSet<(usize, G, i64, i64, Vec<i64>)>,
    sent_data: BTreeSet<(usize, G, i64)>,
}

fn tag_content(p: Prefix, e: Ent, tag: u64) -> Content {
    let mut handle = [0; 16];
    handle[..8].copy_from_slice(&tag.to_be_bytes());
    handle[8..].copy_from_slice(&mix(tag, 5).to_be_bytes());
    Content {
        kind: (tag % 3) as u8,
        handle,
        prefix: p,
        ent: e,
    }
}

fn tag_of(x: &Content) -> u64 {
    let mut b = [0; 8];
    b.copy_from_slice(&x.handle[..8]);
    u64::from_be_bytes(b)
}

fn new_rs(start: i64) -> Rs {
    Rs {
        cache: Cache::new(),
        held: BTreeSet::new(),
        irrelevant: BTreeSet::new(),
        next: start + 1,
        delivered: vec![],
        hb_count: i32::MIN,
        hb_last: start,
        acks: 0,
        want_ack: false,
    }
}

impl World {
    fn faulty(&self) -> bool {
        self.q.now < self.quiet
    }

    fn wguid(&self, w: usize) -> G {
        (self.parts[self.ws[w].part].prefix, self.ws[w].ent)
    }

    fn rguid(&self, r: usize) -> G {
        (self.parts[self.rs[r].part].prefix, self.rs[r].ent)
    }

    // -------------------------------------------------------- sending

    /// One message out of submessages with their destinations.
    fn build(
        &self,
        c: &mut Ctx,
        from: usize,
        items: &[(Prefix, MEntity)],
        reply: Option<SocketAddr>,
    ) -> Res<Vec<u8>> {
        let me = self.parts[from].prefix;
        let mut m = vec![];
        put_real_header(&mut m, self.gateway.unwrap_or(me))?;
        if self.gateway.is_some() {
            let en = if c.bool() { End::Le } else { End::Be };
            let b = real("encoding INFO_SRC", || {
                InfoSource {
                    protocol_version: ProtocolVersion_t::PROTOCOLVERSION,
                    vendor_id: VendorId_t::VENDOR_UNKNOWN,
                    guid_prefix: prefix_t(me),
                }
                .write_to_vec_with_ctx(endian(en))
                .unwrap()
            })?;
            put_real_sub(&mut m, INFO_SRC, flag_of(en), &b)?;
        }
        if let Some(a) = reply {
            let en = if c.bool() { End::Le } else { End::Be };
            let b = real("encoding INFO_REPLY", || {
                let v: LocatorList_t = vec![Locator_t::from(a)];
                v.write_to_vec_with_ctx(endian(en)).unwrap()
            })?;
            put_real_sub(&mut m, INFO_REPLY, flag_of(en), &b)?;
        }
        let mut dst = ALL;
        let n = items.len();
        for (i, (d, e)) in items.iter().enumerate() {
            let en = if c.bool() { End::Le } else { End::Be };
            if self.ts && c.chance(1, 4) {
                let b = real("encoding a timestamp", || {
                    Time_t::sim_new(1_700_000_000, 5)
                        .write_to_vec_with_ctx(endian(en))
                        .unwrap()
                })?;
                put_real_sub(&mut m, INFO_TS, flag_of(en), &b)?;
            }
            if *d != dst {
                let b = real("encoding INFO_DST", || {
                    InfoDestination {
                        guid_prefix: prefix_t(*d),
                    }
                    .write_to_vec_with_ctx(endian(en))
                    .unwrap()
                })?;
                put_real_sub(&mut m, INFO_DST, flag_of(en), &b)?;
                dst = *d;
            }
            let (k, b) = real_body(e, en)?;
            let f = flag_of(en)
                | match e {
                    MEntity::AckNack { flags, .. } | MEntity::Heartbeat { flags, .. } => *flags,
                    _ => 0,
                };
            if i + 1 == n && c.chance(1, 8) {
                // The last submessage may leave its length open.
                put_sub(&mut m, k, f, 0, &b);
            } else {
                put_real_sub(&mut m, k, f, &b)?;
            }
        }
        Ok(m)
    }

    fn transmit(&mut self, c: &mut Ctx, from: usize, to: Option<Dest>, m: Vec<u8>) {
        c.ev(&[self.q.now, 20, from as u64, hash_bytes(&m)]);
        let targets: Vec<Dest> = match to {
            Some(d) => vec![d],
            None => (0..self.parts.len()).map(Dest::Part).collect(),
        };
        for d in targets {
            let target = match &d {
                Dest::Part(p) => Some(*p),
                Dest::Addr(a) => self.parts.iter().position(|p| p.addr == *a),
            };
            if let Some(t) = target {
                if self.cut.contains(&(from, t)) {
                    c.fault("partitioned");
                    continue;
                }
            }
            let link = if self.faulty() {
                &self.link
            } else {
                &GOOD
            };
            for t in link.arrivals(c) {
                self.q.after(t, Ev::Deliver(d.clone(), m.clone()));
            }
        }
    }

    fn data(&self, w: usize, to: Ent, s: i64, tag: u64) -> MEntity {
        MEntity::HeartbeatFrag {
            reader: to,
            writer: self.ws[w].ent,
            sn: s,
            last_frag: (tag >> 32) as u32,
            count: tag as u32 as i32,
        }
    }

    /// Sends what a writer has for some readers, in one message or several.
    fn send_for(
        &mut self,
        c: &mut Ctx,
        w: usize,
        items: Vec<(G, MEntity)>,
    ) -> Res<()> {
        let part = self.ws[w].part;
        let size = c.pick(&[8usize, 1, 24]);
        if self.combined {
            for chunk in items.chunks(size) {
                let list: Vec<(Prefix, MEntity)> =
                    chunk.iter().map(|(g, e)| (g.0, e.clone())).collect();
                let m = self.build(c, part, &list, None)?;
                self.transmit(c, part, None, m);
            }
        } else {
            let mut by: BTreeMap<G, Vec<(Prefix, MEntity)>> = BTreeMap::new();
            for (g, e) in items {
                by.entry(g).or_default().push((g.0, e));
            }
            for (g, list) in by {
                let to = match self.ws[w].reach.get(&g) {
                    Some(a) => Dest::Addr(*a),
                    None => continue,
                };
                for chunk in list.chunks(size) {
                    let m = self.build(c, part, chunk, None)?;
                    self.transmit(c, part, Some(to.clone()), m);
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------- writers

    fn write(&mut self, c: &mut Ctx, w: usize) -> Res<bool> {
        let part = self.ws[w].part;
        if !self.parts[part].up {
            return Ok(false);
        }
        let (p, e) = self.wguid(w);
        let x = tag_content(p, e, c.u64());
        let wr = &mut self.ws[w];
        let sw = &mut wr.sw;
        let ch = real("creating a change", || {
            sw.new_change(
                kind_t(x.kind),
                Data {},
                InstanceHandle_t {
                    entity_key: x.handle,
                },
            )
        })?;
        let (s, got) = content(&ch);
        c.compared += 1;
        ensure!(
            s == wr.last + 1 && got == x,
            "numbering",
            "writer {} made change {} of {:?}, its last one was {}",
            w,
            s,
            x,
            wr.last
        );
        wr.last = s;
        wr.disk_last = s;
        if self.q.now < self.quiet && c.chance(1, 64) {
            // The number is used up, the change is not stored.
            c.fault("crash_between_numbering_and_storing");
            self.crash(c, part);
            let d = c.range(1, 50) * MS;
            self.q.after(d, Ev::Restart(part));
            return Ok(false);
        }
        let wr = &mut self.ws[w];
        wr.disk.insert(s, x);
        wr.written.insert(s, x);
        let cache = &mut wr.cache;
        real("adding a change", || cache.add_change(ch))?;
        c.note(|| format!("writer {} writes {}", w, s));
        while wr.depth > 0 && wr.disk.len() > wr.depth {
            let cache = &wr.cache;
            let min = real("reading a history cache", || cache.get_seq_num_min())?;
            let want = *wr.disk.keys().next().unwrap();
            ensure!(
                min.map(i64::from) == Some(want),
                "bounds",
                "the oldest change of writer {} is {}, its cache says {:?}",
                w,
                want,
                min
            );
            let cache = &mut wr.cache;
            real("removing a change", || cache.remove_change(sn(want)))?;
            wr.disk.remove(&want);
            c.probe("change_dropped_by_depth");
        }
        Ok(true)
    }

    fn push(&mut self, c: &mut Ctx, w: usize) -> Res<()> {
        let part = self.ws[w].part;
        if !self.parts[part].up {
            return Ok(());
        }
        let budget = c.pick(&[16usize, 1, 4, 300]);
        let mut out: Vec<(G, i64, Content)> = vec![];
        let mut more = false;
        let wr = &mut self.ws[w];
        let cache = &wr.cache;
        let pushed = &mut wr.pushed;
        let sf = &mut wr.sf;
        let n = real("reading the matched readers", || {
            sf.sim_matched_readers().count()
        })?;
        for i in 0..n {
            for k in 0.. {
                if k >= budget {
                    more = true;
                    break;
                }
                let sf = &mut wr.sf;
                let (g, got) = real("asking for the next unsent change", || {
                    let p = sf.sim_matched_readers().nth(i).unwrap();
                    let g: G = (
                        p.remote_reader_guid.guid_prefix.entity_key,
                        m_ent(&p.remote_reader_guid.entity_id),
                    );
                    (g, p.next_unsent_change(cache.changes()).map(content))
                })?;
                let last = pushed.get(&g).copied().unwrap_or(i64::MIN);
                let want = wr.disk.keys().find(|s| **s > last).copied();
                c.compared += 1;
                ensure!(
                    got.as_ref().map(|g| g.0) == want,
                    "next-unsent",
                    "writer {} pushed {} to {:?}; next is {:?}, it pushes {:?}",
                    w,
                    last,
                    g,
                    want,
                    got
                );
                match got {
                    None => break,
                    Some((s, x)) => {
                        pushed.insert(g, s);
                        out.push((g, s, x));
                    }
                }
            }
        }
        let mut items = vec![];
        for (g, s, x) in out {
            ensure!(
                self.ws[w].written.get(&s) == Some(&x),
                "content",
                "writer {} pushes {:?} as change {}, written was {:?}",
                w,
                x,
                s,
                self.ws[w].written.get(&s)
            );
            self.sent_data.insert((w, g, s));
            items.push((g, self.data(w, g.1, s, tag_of(&x))));
        }
        self.send_for(c, w, items)?;
        if more {
            self.q.after(5 * MS, Ev::Push(w));
        }
        Ok(())
    }

    fn heartbeat(&mut self, c: &mut Ctx, w: usize) -> Res<()> {
        let part = self.ws[w].part;
        if !self.parts[part].up {
            return Ok(());
        }
        let wr = &mut self.ws[w];
        let cache = &wr.cache;
        let (min, max) = real("reading a history cache", || {
            (
                cache.get_seq_num_min().map(i64::from),
                cache.get_seq_num_max().map(i64::from),
            )
        })?;
        let last: i64 = wr.sw.as_writer().last_change_sequence_number.into();
        c.compared += 1;
        ensure!(
            min == wr.disk.keys().next().copied()
                && max == wr.disk.keys().next_back().copied()
                && last == wr.last,
            "bounds",
            "writer {} holds {:?} of {} changes, and reports {:?} to {:?} of {}",
            w,
            wr.disk.keys().collect::<Vec<_>>(),
            wr.last,
            min,
            max,
            last
        );
        let first = min.unwrap_or(last + 1);
        wr.hb += 1;
        let count = wr.hb;
        self.sent_hb.insert((w, count), (first, last));
        let e = MEntity::Heartbeat {
            reader: ANY,
            writer: self.ws[w].ent,
            first,
            last,
            count,
            flags: self.hb_flags,
        };
        let m = self.build(c, part, &[(ALL, e)], None)?;
        self.transmit(c, part, None, m);
        Ok(())
    }

    fn respond(&mut self, c: &mut Ctx, w: usize, g: G) -> Res<()> {
        let part = self.ws[w].part;
        if !self.parts[part].up {
            return Ok(());
        }
        let wanted = match self.ws[w].pending.remove(&g) {
            Some(p) => p,
            None => return Ok(()),
        };
        let mut items = vec![];
        let mut gone: Vec<i64> = vec![];
        for s in wanted {
            if s > self.ws[w].last {
                continue;
            }
            let cache = &self.ws[w].cache;
            let got = real("looking up a change", || {
                cache.get_change(sn(s)).map(content)
            })?;
            let want = self.ws[w].disk.get(&s).map(|x| (s, *x));
            c.compared += 1;
            ensure!(
                got == want,
                "lookup",
                "change {} of writer {} is {:?}, found was {:?}",
                s,
                w,
                want,
                got
            );
            match got {
                Some((_, x)) => {
                    c.probe("change_sent_again");
                    self.sent_data.insert((w, g, s));
                    items.push((g, self.data(w, g.1, s, tag_of(&x))));
                }
                None => gone.push(s),
            }
        }
        let mut i = 0;
        while i < gone.len() {
            let start = gone[i];
            let mut base = start + 1;
            i += 1;
            while i < gone.len() && gone[i] == base {
                base += 1;
                i += 1;
            }
            let mut members = vec![];
            while i < gone.len() && gone[i] <= base + 255 {
                members.push(gone[i]);
                i += 1;
            }
            c.probe("gap_sent");
            self.sent_gap.insert((w, g, start, base, members.clone()));
            items.push((
                g,
                MEntity::Gap {
                    reader: g.1,
                    writer: self.ws[w].ent,
                    start,
                    set: MSet { base, members },
                },
            ));
        }
        self.send_for(c, w, items)
    }

    // -------------------------------------------------------- readers

    fn send_acks(&mut self, c: &mut Ctx, part: usize) -> Res<()> {
        if !self.parts[part].up {
            return Ok(());
        }
        let mut out: Vec<(usize, MEntity)> = vec![];
        for r in 0..self.rs.len() {
            if self.rs[r].part != part {
                continue;
            }
            for w in 0..self.ws.len() {
                let went = self.ws[w].ent;
                let g = self.rguid(r);
                let rent = self.rs[r].ent;
                let life = self.parts[part].life;
                let rs = &mut self.rs[r].of[w];
                if !rs.want_ack {
                    continue;
                }
                rs.want_ack = false;
                let mut members = vec![];
                let mut base = None;
                let mut s = rs.next;
                let cache = &rs.cache;
                while s <= rs.hb_last && base.map_or(true, |b| s <= b + 255) {
                    let have = rs.irrelevant.contains(&s)
                        || real("looking up a change", || {
                            cache.get_change(sn(s)).is_some()
                        })?;
                    if !have {
                        base = base.or(Some(s));
                        members.push(s);
                    }
                    s += 1;
                }
                let base = base.unwrap_or(rs.hb_last.max(rs.next - 1) + 1);
                if members.len() == 256 {
                    c.probe("request_fills_window");
                }
                rs.acks += 1;
                let count = life << 16 | rs.acks;
                self.sent_ack
                    .insert((g, w, count), (base, members.clone()));
                let flags = match self.ack_final {
                    0 => 0,
                    1 => 2,
                    _ => 2 * members.is_empty() as u8,
                };
                out.push((
                    w,
                    MEntity::AckNack {
                        reader: rent,
                        writer: went,
                        set: MSet { base, members },
                        count,
                        flags,
                    },
                ));
            }
        }
        let reply = if self.use_reply {
            Some(self.parts[part].addr)
        } else {
            None
        };
        if self.combined {
            let list: Vec<(Prefix, MEntity)> = out
                .into_iter()
                .map(|(w, e)| (self.wguid(w).0, e))
                .collect();
            if !list.is_empty() {
                let m = self.build(c, part, &list, reply)?;
                self.transmit(c, part, None, m);
            }
        } else {
            for (w, e) in out {
                let to = self.wguid(w).0;
                let m = self.build(c, part, &[(to, e)], reply)?;
                let d = Dest::Part(self.ws[w].part);
                self.transmit(c, part, Some(d), m);
            }
        }
        Ok(())
    }

    fn deliver_to_app(&mut self, c: &mut Ctx, r: usize, w: usize) -> Res<()> {
        let rs = &mut self.rs[r].of[w];
        loop {
            let s = rs.next;
            if rs.irrelevant.contains(&s) {
                rs.next += 1;
                continue;
            }
            let cache = &rs.cache;
            let got = real("looking up a change", || {
                cache.get_change(sn(s)).map(content)
            })?;
            ensure!(
                got.is_some() == rs.held.contains(&s),
                "lookup",
                "reader {} holds {:?}; asked for {} its cache says {:?}",
                r,
                rs.held,
                s,
                got
            );
            let x = match got {
                Some((_, x)) => x,
                None => return Ok(()),
            };
            c.compared += 1;
            ensure!(
                self.ws[w].written.get(&s) == Some(&x),
                "content",
                "reader {} is given {:?} as change {} of writer {}, written was {:?}",
                r,
                x,
                s,
                w,
                self.ws[w].written.get(&s)
            );
            rs.delivered.push(s);
            c.ev(&[self.q.now, 21, r as u64, w as u64, s as u64]);
            let cache = &mut rs.cache;
            real("removing a change", || cache.remove_change(sn(s)))?;
            rs.held.remove(&s);
            rs.next += 1;
        }
    }

    fn irrelevant(&mut self, c: &mut Ctx, r: usize, w: usize, s: i64) -> Res<()> {
        ensure!(
            s <= self.ws[w].last && !self.ws[w].disk.contains_key(&s),
            "live-change-skipped",
            "reader {} is told that change {} of writer {} does not matter; it is there",
            r,
            s,
            w
        );
        let rs = &mut self.rs[r].of[w];
        if s >= rs.next && !rs.held.contains(&s) && rs.irrelevant.insert(s) {
            c.probe("change_skipped");
        }
        Ok(())
    }

    // -------------------------------------------------------- receiving

    fn receive(&mut self, c: &mut Ctx, p: usize, m: &[u8]) -> Res<()> {
        let part = &mut self.parts[p];
        let (got, err) = receive(&mut part.rx, m, |e, r| {
            Ok(Under {
                src: r.source_guid_prefix.entity_key,
                dst: r.dest_guid_prefix.entity_key,
                reply: r
                    .unicast_reply_locator_list
                    .iter()
                    .map(|l| Locator_t {
                        kind: l.kind,
                        port: l.port,
                        address: l.address,
                    })
                    .collect(),
                ent: m_entity(e)?,
            })
        })?;
        ensure!(
            err.is_none(),
            "spurious-error",
            "{:?} after {} submessages of {}",
            err,
            got.len(),
            hex(m)
        );
        c.compared += got.len() as u64;
        for u in got {
            if !self.parts[p].up {
                return Ok(());
            }
            if u.dst != ALL && u.dst != self.parts[p].prefix {
                continue;
            }
            self.submessage(c, p, u, m)?;
        }
        Ok(())
    }

    fn submessage(&mut self, c: &mut Ctx, p: usize, u: Under, m: &[u8]) -> Res<()> {
        match &u.ent {
            MEntity::AckNack {
                reader,
                writer,
                set,
                count,
                ..
            } => {
                for w in 0..self.ws.len() {
                    if self.ws[w].part == p && (self.ws[w].ent == *writer || *writer == ANY) {
                        self.on_ack(c, w, (u.src, *reader), set, *count, &u.reply, m)?;
                    }
                }
                Ok(())
            }
            other => {
                let (reader, writer) = match other {
                    MEntity::Heartbeat { reader, writer, .. }
                    | MEntity::Gap { reader, writer, .. }
                    | MEntity::HeartbeatFrag { reader, writer, .. } => (*reader, *writer),
                    x => fail!("wrong-item", "{:?} was received from {}", x, hex(m)),
                };
                let g: G = (u.src, writer);
                let w = match (0..self.ws.len()).find(|w| self.wguid(*w) == g) {
                    Some(w) => w,
                    None => fail!(
                        "unknown-writer",
                        "{:?} is said to come from {:?}, in {}",
                        other,
                        g,
                        hex(m)
                    ),
                };
                for r in 0..self.rs.len() {
                    if self.rs[r].part == p && (self.rs[r].ent == reader || reader == ANY) {
                        self.on_writer(c, r, w, other, m)?;
                    }
                }
                Ok(())
            }
        }
    }

    fn on_ack(
        &mut self,
        c: &mut Ctx,
        w: usize,
        g: G,
        set: &MSet,
        count: i32,
        reply: &[Locator_t],
        m: &[u8],
    ) -> Res<()> {
        c.compared += 1;
        match self.sent_ack.get(&(g, w, count)) {
            Some((base, members)) => ensure!(
                *base == set.base && *members == set.members,
                "request",
                "{:?} asked writer {} for {:?} from {}, the writer read {:?} from {} in {}",
                g,
                w,
                members,
                base,
                set.members,
                set.base,
                hex(m)
            ),
            None => fail!(
                "request",
                "{:?} never sent writer {} request {}: {}",
                g,
                w,
                count,
                hex(m)
            ),
        }
        let known = {
            let sf = &self.ws[w].sf;
            real("looking up a reader", || {
                sf.matched_reader_lookup(guid(g.0, g.1))
                    .filter(|p| p.remote_reader_guid == guid(g.0, g.1))
                    .count()
            })?
        };
        ensure!(
            known == self.ws[w].matched.contains(&g) as usize,
            "lookup",
            "{:?} is matched with writer {} or not: {:?}; it was found {} times",
            g,
            w,
            self.ws[w].matched,
            known
        );
        if known == 0 {
            c.probe("request_of_unmatched_reader");
            return Ok(());
        }
        let seen = self.ws[w].acks_seen.get(&g).copied().unwrap_or(i32::MIN);
        if count <= seen {
            c.probe("stale_request");
            return Ok(());
        }
        self.ws[w].acks_seen.insert(g, count);
        self.ws[w].acked.insert(g, set.base);
        if self.use_reply {
            ensure!(
                reply.len() == 1,
                "reply-address",
                "{} reply locators in {}",
                reply.len(),
                hex(m)
            );
            let l = Locator_t {
                kind: reply[0].kind,
                port: reply[0].port,
                address: reply[0].address,
            };
            let a = real("reading a locator", || SocketAddr::from(l))?;
            self.ws[w].reach.insert(g, a);
        }
        if !set.members.is_empty() {
            let fresh = !self.ws[w].pending.contains_key(&g);
            self.ws[w]
                .pending
                .entry(g)
                .or_default()
                .extend(set.members.iter().copied());
            if fresh {
                let d = c.draw(8) * MS;
                self.q.after(d, Ev::Respond(w, g));
            }
        }
        Ok(())
    }

    fn on_writer(&mut self, c: &mut Ctx, r: usize, w: usize, e: &MEntity, m: &[u8]) -> Res<()> {
        let g = self.rguid(r);
        c.compared += 1;
        match e {
            MEntity::Heartbeat {
                first, last, count, ..
            } => {
                ensure!(
                    self.sent_hb.get(&(w, *count)) == Some(&(*first, *last)),
                    "heartbeat",
                    "heartbeat {} of writer {} said {:?}, reader {} read {:?} in {}",
                    count,
                    w,
                    self.sent_hb.get(&(w, *count)),
                    r,
                    (first, last),
                    hex(m)
                );
                let rs = &mut self.rs[r].of[w];
                if *count <= rs.hb_count {
                    c.probe("stale_heartbeat");
                    return Ok(());
                }
                rs.hb_count = *count;
                rs.hb_last = rs.hb_last.max(*last);
                let from = rs.next;
                let idle = !self.rs.iter().any(|x| {
                    x.part == self.rs[r].part && x.of.iter().any(|s| s.want_ack)
                });
                self.rs[r].of[w].want_ack = true;
                for s in from..*first {
                    self.irrelevant(c, r, w, s)?;
                }
                self.deliver_to_app(c, r, w)?;
                if idle {
                    let d = c.draw(5) * MS;
                    let p = self.rs[r].part;
                    self.q.after(d, Ev::Ack(p));
                }
                Ok(())
            }
            MEntity::Gap { start, set, .. } => {
                ensure!(
                    self.sent_gap
                        .contains(&(w, g, *start, set.base, set.members.clone())),
                    "gap",
                    "writer {} never told reader {} of a gap {} {:?}: {}",
                    w,
                    r,
                    start,
                    set,
                    hex(m)
                );
                for s in *start..set.base {
                    self.irrelevant(c, r, w, s)?;
                }
                for s in &set.members {
                    self.irrelevant(c, r, w, *s)?;
                }
                self.deliver_to_app(c, r, w)
            }
            MEntity::HeartbeatFrag {
                sn: s,
                last_frag,
                count,
                ..
            } => {
                ensure!(
                    self.sent_data.contains(&(w, g, *s)),
                    "data",
                    "writer {} never sent change {} to reader {}: {}",
                    w,
                    s,
                    r,
                    hex(m)
                );
                let tag = (*last_frag as u64) << 32 | *count as u32 as u64;
                let (p, we) = self.wguid(w);
                let x = tag_content(p, we, tag);
                let rs = &mut self.rs[r].of[w];
                if *s < rs.next || rs.irrelevant.contains(s) {
                    c.probe("change_arrived_again");
                    return Ok(());
                }
                let cache = &mut rs.cache;
                let have = real("looking up a change", || {
                    cache.get_change(sn(*s)).is_some()
                })?;
                ensure!(
                    have == rs.held.contains(s),
                    "lookup",
                    "reader {} holds {:?}; asked for {} its cache says {}",
                    r,
                    rs.held,
                    s,
                    have
                );
                if have {
                    c.probe("change_arrived_again");
                } else {
                    real("adding a change", || cache.add_change(change(*s, &x)))?;
                    rs.held.insert(*s);
                }
                self.deliver_to_app(c, r, w)
            }
            x => fail!("wrong-item", "{:?} was received from {}", x, hex(m)),
        }
    }

    // -------------------------------------------------------- life

    fn crash(&mut self, c: &mut Ctx, p: usize) {
        if self.parts[p].up {
            c.fault("participant_crash");
            self.parts[p].up = false;
            c.note(|| format!("participant {} crashes", p));
        }
    }

    fn restart(&mut self, c: &mut Ctx, p: usize) -> Res<()> {
        if self.parts[p].up {
            return Ok(());
        }
        c.fault("participant_restart");
        let writes = self.ws.iter().any(|w| w.part == p);
        let part = &mut self.parts[p];
        part.up = true;
        part.life += 1;
        part.rx = new_rx(LOC_UDP4)?;
        part.addr.set_port(part.addr.port() + 1);
        if !writes && c.bool() {
            // Comes back as somebody else.
            part.prefix[11] = part.prefix[11].wrapping_add(0x10);
        }
        let (prefix, life) = (part.prefix, part.life);
        c.note(|| format!("participant {} restarts", p));
        for w in 0..self.ws.len() {
            if self.ws[w].part != p {
                continue;
            }
            let wr = &mut self.ws[w];
            wr.sw = stateless(prefix, wr.ent, wr.disk_last, &wr.qos)?;
            wr.cache = rebuild(c, &wr.disk)?;
            wr.sf = stateful(prefix, wr.ent, wr.disk_last, &wr.qos)?;
            wr.hb = life << 16;
            wr.matched.clear();
            wr.pushed.clear();
            wr.reach.clear();
            wr.acked.clear();
            wr.acks_seen.clear();
            wr.pending.clear();
        }
        for r in 0..self.rs.len() {
            if self.rs[r].part != p {
                continue;
            }
            for w in 0..self.ws.len() {
                self.rs[r].of[w] = new_rs(self.ws[w].start);
            }
        }
        Ok(())
    }
}

const GOOD: Link = Link {
    loss: 0,
    dup: 0,
    jitter: 4 * MS,
};

pub fn w05(c: &mut Ctx) -> Res<()> {
    let parts_n = c.range(2, 4) as usize;
    let base = gen::prefix(c);
    let mut parts = vec![];
    for i in 0..parts_n {
        let mut prefix = base;
        // Ids which are close to each other.
        prefix[(i * 5) % 11] ^= 1 + i as u8;
        prefix[11] = prefix[11] & 0x0F | 0x40;
        parts.push(Part {
            prefix,
            rx: new_rx(LOC_UDP4)?,
            addr: SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1 + i as u8)), 7400),
            up: true,
            life: 1,
            stalled: 0,
        });
    }
    let bulk = c.chance(1, 48);
    let mut ws: Vec<Wr> = vec![];
    let writers_n = if bulk { 1 } else { c.range(1, 3) };
    for i in 0..writers_n {
        let part = if i == 0 {
            0
        } else {
            c.draw(parts_n as u64) as usize
        };
        let here = ws.iter().filter(|w: &&Wr| w.part == part).count() as u8;
        let e: Ent = [0, 0, 1 + here, 2];
        let start = if c.chance(1, 4) {
            c.pick(&[0xFFFF_FFF8i64, 0x7FFF_FFFC, 0xFFFF_FF00, 1 << 40])
        } else {
            0
        };
        let p = parts[part].prefix;
        let qos = Qos::any(c);
        ws.push(Wr {
            part,
            ent: e,
            start,
            depth: if bulk { c.pick(&[0, 300]) } else { c.pick(&[0, 0, 1, 4]) },
            sw: stateless(p, e, start, &qos)?,
            cache: Cache::new(),
            sf: stateful(p, e, start, &qos)?,
            qos,
            hb: 1 << 16,
            matched: BTreeSet::new(),
            pushed: BTreeMap::new(),
            reach: BTreeMap::new(),
            acked: BTreeMap::new(),
            acks_seen: BTreeMap::new(),
            pending: BTreeMap::new(),
            disk: BTreeMap::new(),
            disk_last: start,
            last: start,
            written: BTreeMap::new(),
        });
    }
    let mut rs: Vec<Rd> = vec![];
    let readers_n = if bulk { 1 } else { c.range(1, 4) };
    for i in 0..readers_n {
        let part = if i == 0 {
            parts_n - 1
        } else {
            c.draw(parts_n as u64) as usize
        };
        let here = rs.iter().filter(|r: &&Rd| r.part == part).count() as u8;
        rs.push(Rd {
            part,
            ent: [0, 0, 1 + here, 7],
            of: ws.iter().map(|w| new_rs(w.start)).collect(),
        });
    }
    let span = c.pick(&[200u64, 400, 50]);
    let quiet = span * MS;
    let mut x = World {
        q: Queue::new(),
        parts,
        ws,
        rs,
        link: Link::swarm(c),
        cut: BTreeSet::new(),
        gateway: if c.chance(1, 4) { Some([0xA5; 12]) } else { None },
        combined: c.bool(),
        hb_flags: c.pick(&[0, 2, 4, 6]),
        ack_final: c.draw(3) as u8,
        use_reply: c.bool(),
        ts: c.bool(),
        quiet,
        sent_hb: BTreeMap::new(),
        sent_ack: BTreeMap::new(),
        sent_gap: BTreeSet::new(),
        sent_data: BTreeSet::new(),
    };
    for w in 0..x.ws.len() {
        x.q.at(c.draw(50) * MS, Ev::Hb(w));
        let k = c.range(1, 6);
        for _ in 0..k {
            let n = if bulk {
                c.range(100, 400)
            } else {
                c.pick(&[1, 1, 2, 5])
            };
            x.q.at(c.draw(span + 1) * MS, Ev::Write(w, n));
        }
        for _ in 0..c.draw(4) {
            x.q.at(c.draw(span) * MS, Ev::Remove(w));
        }
    }
    for r in 0..x.rs.len() {
        // Some are discovered late.
        let t = if c.chance(1, 3) {
            c.draw(span)
        } else {
            c.draw(20)
        };
        x.q.at(t * MS, Ev::Announce(r));
    }
    for _ in 0..c.pick(&[0u64, 0, 1, 3]) {
        let p = c.draw(parts_n as u64) as usize;
        let t = c.draw(span) * MS;
        x.q.at(t, Ev::Crash(p));
        let back = c.range(1, 60) * MS;
        x.q.at((t + back).min(quiet), Ev::Restart(p));
    }
    for _ in 0..c.pick(&[0u64, 0, 1, 3]) {
        let (a, b) = (
            c.draw(parts_n as u64) as usize,
            c.draw(parts_n as u64) as usize,
        );
        x.q.at(c.draw(span) * MS, Ev::Cut(a, b));
        if c.bool() {
            x.q.at(c.draw(span) * MS, Ev::Heal);
        }
    }
    for _ in 0..c.pick(&[0u64, 0, 2]) {
        let p = c.draw(parts_n as u64) as usize;
        x.q.at(c.draw(span) * MS, Ev::Stall(p));
    }
    // The faults stop; everybody is back.
    x.q.at(quiet, Ev::Heal);
    for p in 0..parts_n {
        x.q.at(quiet, Ev::Restart(p));
    }
    // So many heartbeats later all must have arrived.
    let most = |x: &World| {
        x.ws.iter()
            .map(|w| (w.last - w.start) as u64)
            .max()
            .unwrap_or(0)
    };
    let mut end = u64::MAX;
    let mut steps = 0u64;
    while let Some(ev) = x.q.pop() {
        steps += 1;
        if steps > 400_000 {
            fail!("no-progress", "the run does not come to an end");
        }
        let now = x.q.now;
        if end == u64::MAX && now > quiet + 60 * MS {
            end = quiet + HB_PERIOD * (14 + 4 * (most(&x) / 200 + 1));
        }
        if now > end {
            break;
        }
        match ev {
            Ev::Write(w, n) => {
                for _ in 0..n {
                    if !x.write(c, w)? {
                        break;
                    }
                }
                let d = c.draw(3) * MS;
                x.q.after(d, Ev::Push(w));
            }
            Ev::Remove(w) => {
                let wr = &mut x.ws[w];
                if !x.parts[wr.part].up || wr.disk.is_empty() {
                    continue;
                }
                for _ in 0..c.range(1, 3) {
                    if wr.disk.is_empty() {
                        break;
                    }
                    let k = c.draw(wr.disk.len() as u64) as usize;
                    let s = *wr.disk.keys().nth(k).unwrap();
                    wr.disk.remove(&s);
                    let cache = &mut wr.cache;
                    real("removing a change", || cache.remove_change(sn(s)))?;
                    c.probe("change_removed");
                    c.note(|| format!("writer {} removes {}", w, s));
                }
            }
            Ev::Push(w) => x.push(c, w)?,
            Ev::Hb(w) => {
                x.heartbeat(c, w)?;
                x.push(c, w)?;
                x.q.after(HB_PERIOD, Ev::Hb(w));
            }
            Ev::Ack(p) => x.send_acks(c, p)?,
            Ev::Respond(w, g) => x.respond(c, w, g)?,
            Ev::Announce(r) => {
                let p = x.rs[r].part;
                if x.parts[p].up {
                    let (g, a) = (x.rguid(r), x.parts[p].addr);
                    for w in 0..x.ws.len() {
                        if x.cut.contains(&(p, x.ws[w].part)) {
                            continue;
                        }
                        let times = if x.faulty() {
                            x.link.arrivals(c)
                        } else {
                            GOOD.arrivals(c)
                        };
                        for t in times {
                            x.q.after(t, Ev::AnnArrive(w, g, a));
                        }
                    }
                }
                x.q.after(60 * MS, Ev::Announce(r));
            }
            Ev::AnnArrive(w, g, a) => {
                if !x.parts[x.ws[w].part].up {
                    continue;
                }
                let wr = &mut x.ws[w];
                let sf = &wr.sf;
                let known = real("looking up a reader", || {
                    sf.matched_reader_lookup(guid(g.0, g.1)).count()
                })?;
                c.compared += 1;
                ensure!(
                    known == wr.matched.contains(&g) as usize,
                    "lookup",
                    "matched with writer {} are {:?}; {:?} was found {} times",
                    w,
                    wr.matched,
                    g,
                    known
                );
                wr.reach.insert(g, a);
                if known == 0 {
                    let sf = &mut wr.sf;
                    real("matching a reader", || {
                        sf.matched_reader_add(ReaderProxy::new(guid(g.0, g.1), false))
                    })?;
                    wr.matched.insert(g);
                    c.note(|| format!("writer {} matches {:?}", w, g));
                }
            }
            Ev::Deliver(d, m) => {
                let p = match &d {
                    Dest::Part(p) => Some(*p),
                    Dest::Addr(a) => x.parts.iter().position(|p| p.addr == *a),
                };
                match p {
                    Some(p) if x.parts[p].up => {
                        if x.parts[p].stalled > now {
                            let t = x.parts[p].stalled;
                            x.q.at(t, Ev::Deliver(Dest::Part(p), m));
                            continue;
                        }
                        x.receive(c, p, &m)?;
                    }
                    _ => c.probe("datagram_to_nobody"),
                }
            }
            Ev::Crash(p) => x.crash(c, p),
            Ev::Restart(p) => x.restart(c, p)?,
            Ev::Cut(a, b) => {
                if a != b && x.faulty() {
                    c.fault("partition");
                    x.cut.insert((a, b));
                    if c.bool() {
                        x.cut.insert((b, a));
                    }
                }
            }
            Ev::Heal => x.cut.clear(),
            Ev::Stall(p) => {
                if x.faulty() {
                    c.fault("stalled_participant");
                    x.parts[p].stalled = (now + c.draw(40) * MS).min(quiet);
                }
            }
        }
    }
    // Everything that is there has reached everybody, once and in order.
    for r in 0..x.rs.len() {
        let g = x.rguid(r);
        for w in 0..x.ws.len() {
            let (wr, rs) = (&x.ws[w], &x.rs[r].of[w]);
            c.compared += 1;
            ensure!(
                rs.delivered.windows(2).all(|p| p[0] < p[1]),
                "order",
                "reader {} was given {:?}",
                r,
                rs.delivered
            );
            let got: BTreeSet<i64> = rs.delivered.iter().copied().collect();
            let missing: Vec<i64> = wr
                .disk
                .keys()
                .copied()
                .filter(|s| !got.contains(s))
                .collect();
            ensure!(
                missing.is_empty() && rs.next == wr.last + 1,
                "not-delivered",
                "{} ms after the last fault reader {} misses {:?} of writer {} (next is {}, last is {})",
                (end.min(x.q.now) - quiet) / MS,
                r,
                missing,
                w,
                rs.next,
                wr.last
            );
            ensure!(
                wr.acked.get(&g) == Some(&(wr.last + 1)),
                "not-acknowledged",
                "reader {} has all up to {} of writer {}, the writer knows of {:?}",
                r,
                wr.last,
                w,
                wr.acked.get(&g)
            );
        }
    }
    c.sim_ns += x.q.now;
    Ok(())
}
