//! W01-W04: writers, reader proxies, history caches and memberships, each
//! driven by several simulated processes with crashes and bad networks.

use crate::choice::splitmix;
use crate::conv::*;
use crate::ctx::{real, Ctx, Res};
use crate::ensure;
use crate::gen;
use crate::net::*;
use crate::sched::*;
use crate::wire::*;
use rtps_rs::sim::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Bound;

/// What a change says, in the model.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Content {
    pub kind: u8,
    pub handle: [u8; 16],
    pub prefix: Prefix,
    pub ent: Ent,
}

pub fn kind_t(k: u8) -> ChangeKind_t {
    match k {
        0 => ChangeKind_t::ALIVE,
        1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
        _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
    }
}

pub fn change(sn_: i64, x: &Content) -> CacheChange {
    CacheChange {
        kind: kind_t(x.kind),
        writer_guid: guid(x.prefix, x.ent),
        instance_handle: InstanceHandle_t {
            entity_key: x.handle,
        },
        sequence_number: sn(sn_),
        data_value: Data {},
    }
}

pub fn content(ch: &CacheChange) -> (i64, Content) {
    (
        ch.sequence_number.into(),
        Content {
            kind: match ch.kind {
                ChangeKind_t::ALIVE => 0,
                ChangeKind_t::NOT_ALIVE_DISPOSED => 1,
                ChangeKind_t::NOT_ALIVE_UNREGISTERED => 2,
            },
            handle: ch.instance_handle.entity_key,
            prefix: ch.writer_guid.guid_prefix.entity_key,
            ent: m_ent(&ch.writer_guid.entity_id),
        },
    )
}

/// What a change of a storm says, out of the one draw behind the storm.
fn quick_content(st: &mut u64, prefix: Prefix, ent: Ent) -> Content {
    let (a, b) = (splitmix(st), splitmix(st));
    let mut h = [0; 16];
    h[..8].copy_from_slice(&a.to_be_bytes());
    if b % 3 > 0 {
        h[8..].copy_from_slice(&b.to_be_bytes());
    }
    Content {
        kind: (b >> 40) as u8 % 3,
        handle: h,
        prefix,
        ent,
    }
}

pub fn handle(c: &mut Ctx) -> [u8; 16] {
    match c.draw(3) {
        0 => [0; 16],
        1 => {
            let mut h = [7; 16];
            h[c.draw(16) as usize] = c.u8();
            h
        }
        _ => c.bytes(),
    }
}

#[cfg(feature = "stateless")]
/// How a writer is configured.
#[derive(Clone, Debug, PartialEq)]
pub struct Qos {
    pub keyed: bool,
    pub reliable: bool,
    pub push: bool,
    pub heartbeat: (i32, u32),
    pub response: (i32, u32),
    pub suppression: (i32, u32),
    pub resend: (i32, u32),
    pub unicast: MLoc,
    pub multicast: MLoc,
}

#[cfg(feature = "stateless")]
impl Qos {
    pub fn any(c: &mut Ctx) -> Qos {
        let none = MLoc {
            kind: LOC_INVALID,
            port: 0,
            addr: [0; 16],
        };
        let mut q = Qos {
            keyed: true,
            reliable: true,
            push: true,
            heartbeat: (0, 100_000_000),
            response: (0, 5_000_000),
            suppression: (0, 0),
            resend: (1, 0),
            unicast: none.clone(),
            multicast: none,
        };
        if c.bool() {
            q.keyed = c.bool();
            q.reliable = c.bool();
            q.push = c.bool();
            for d in [
                &mut q.heartbeat,
                &mut q.response,
                &mut q.suppression,
                &mut q.resend,
            ] {
                *d = match c.draw(3) {
                    0 => (0, 0),
                    1 => c.pick(&[(-1, 0xFFFF_FFFF), (0x7FFF_FFFF, 0xFFFF_FFFF), (1, 0), (0, 1)]),
                    _ => (c.u32() as i32, c.u32()),
                };
            }
            q.unicast = gen::mloc(c);
            q.multicast = gen::mloc(c);
        }
        q
    }

    pub fn endpoint(&self) -> EndpointAttributes {
        EndpointAttributes {
            topic_kind: if self.keyed {
                TopicKind_t::WITH_KEY
            } else {
                TopicKind_t::NO_KEY
            },
            reliability_level: if self.reliable {
                ReliabilityKind_t::RELIABLE
            } else {
                ReliabilityKind_t::BEST_EFFORT
            },
            unicast_locator_list: loc(&self.unicast),
            multicast_locator_list: loc(&self.multicast),
        }
    }

    pub fn writer(&self, last: i64) -> WriterAttributes {
        let d = |(s, f): (i32, u32)| Duration_t::sim_new(s, f);
        WriterAttributes {
            push_mode: self.push,
            heartbeat_period: d(self.heartbeat),
            nack_response_delay: d(self.response),
            nack_suppression_duration: d(self.suppression),
            last_change_sequence_number: sn(last),
        }
    }

    /// Does a writer still report this configuration?
    fn reported(&self, w: &SimStatelessWriter) -> Res<bool> {
        real("reading a writer's attributes", || {
            let (e, a) = (w.as_endpoint(), w.as_writer());
            let want = self.endpoint();
            e.topic_kind == want.topic_kind
                && e.reliability_level == want.reliability_level
                && m_loc(&e.unicast_locator_list) == self.unicast
                && m_loc(&e.multicast_locator_list) == self.multicast
                && a.push_mode == self.push
                && a.heartbeat_period.sim_parts() == self.heartbeat
                && a.nack_response_delay.sim_parts() == self.response
                && a.nack_suppression_duration.sim_parts() == self.suppression
        })
    }
}

#[cfg(feature = "stateless")]
pub fn stateless(p: Prefix, e: Ent, last: i64, qos: &Qos) -> Res<SimStatelessWriter> {
    real("creating a writer", || {
        SimStatelessWriter::new(
            EntityAttributes { guid: guid(p, e) },
            qos.endpoint(),
            qos.writer(last),
            Time_t::sim_new(qos.resend.0, qos.resend.1),
        )
    })
}

#[cfg(feature = "writers")]
pub fn stateful(p: Prefix, e: Ent, last: i64, qos: &Qos) -> Res<StatefulWriter> {
    real("creating a writer", || {
        StatefulWriter::sim_new(
            EntityAttributes { guid: guid(p, e) },
            qos.endpoint(),
            qos.writer(last),
        )
    })
}

// ---------------------------------------------------------------- W01

#[cfg(feature = "stateless")]
struct Numbered {
    prefix: Prefix,
    ent: Ent,
    qos: Qos,
    w: SimStatelessWriter,
    /// The number of the change created last.
    last: i64,
    /// What stable storage holds of it.
    stored: i64,
    seen: BTreeMap<i64, Content>,
    sends_to: Vec<(MLoc, bool)>,
}

#[cfg(feature = "stateless")]
enum NEv {
    Write(usize, u64),
    Sync(usize),
    Crash(usize),
    /// Where the writer sends to changes, so often.
    Locators(usize, u64),
}

/// Where numbering starts.
fn start_sn(c: &mut Ctx) -> i64 {
    match c.draw(6) {
        4 => (c.literal() >> 2) as i64,
        0 | 1 => 0,
        2 => c.pick(&[1, 254, 255, 256, 0x7FFF_FFFE, 0x7FFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FFFF]),
        3 => 0xFFFF_FFFF - c.draw(40) as i64,
        _ => (c.u64() >> 2) as i64,
    }
}

#[cfg(feature = "stateless")]
pub fn w01(c: &mut Ctx) -> Res<()> {
    let n = c.range(1, 4) as usize;
    // Storage written after each change, or now and then.
    let write_through = !c.chance(1, 3);
    let base_prefix = gen::prefix(c);
    let mut ws: Vec<Numbered> = vec![];
    for i in 0..n {
        let mut prefix = base_prefix;
        let mut e = [0, 0, 1, 0x02];
        // Writers of one participant, or of neighbouring participants.
        if c.bool() {
            prefix[c.draw(12) as usize] ^= 1 + i as u8;
        } else {
            e[c.draw(3) as usize] = 0x10 + i as u8;
        }
        if c.chance(1, 4) {
            e = gen::ent_id(c);
        }
        let mut last = start_sn(c);
        if c.chance(1, 32) {
            last = c.pick(&[-1, -2, -1000, -0x1_0000_0000, i64::MIN]);
        }
        if c.chance(1, 64) {
            // The numbers end at some point.
            last = i64::MAX - c.draw(60) as i64;
        }
        let qos = Qos::any(c);
        ws.push(Numbered {
            prefix,
            ent: e,
            w: stateless(prefix, e, last, &qos)?,
            qos,
            last,
            stored: last,
            seen: BTreeMap::new(),
            sends_to: vec![],
        });
    }
    let mut q: Queue<NEv> = Queue::new();
    for _ in 0..c.range(1, 12) {
        let w = c.draw(n as u64) as usize;
        let burst = c.pick(&[1u64, 1, 2, 5, 40]);
        let burst = c.many(burst, burst, 2000, 20_000);
        q.at(c.draw(200) * MS, NEv::Write(w, burst));
    }
    let storm = c.storm(100_000);
    if storm > 0 {
        let w = c.draw(n as u64) as usize;
        q.at(c.draw(200) * MS, NEv::Write(w, storm));
    }
    for _ in 0..c.draw(4) {
        let w = c.draw(n as u64) as usize;
        q.at(c.draw(200) * MS, NEv::Crash(w));
    }
    if !write_through {
        for _ in 0..4 {
            let w = c.draw(n as u64) as usize;
            q.at(c.draw(200) * MS, NEv::Sync(w));
        }
    }
    for _ in 0..c.draw(5) {
        let w = c.draw(n as u64) as usize;
        let k = c.many(1, 8, 300, 300);
        q.at(c.draw(200) * MS, NEv::Locators(w, k));
    }
    while let Some(ev) = q.pop() {
        match ev {
            NEv::Write(i, burst) => {
                let mut st = if burst > 40 { c.draw(1 << 63) } else { 0 };
                for _ in 0..burst {
                    // Between any two changes another publisher may run.
                    let i = if n > 1 && burst <= 40 && c.chance(1, 4) {
                        c.draw(n as u64) as usize
                    } else {
                        i
                    };
                    let w = &mut ws[i];
                    if w.last == i64::MAX {
                        continue;
                    }
                    let want = if burst > 40 {
                        quick_content(&mut st, w.prefix, w.ent)
                    } else {
                        Content {
                            kind: c.draw(3) as u8,
                            handle: handle(c),
                            prefix: w.prefix,
                            ent: w.ent,
                        }
                    };
                    let r = &mut w.w;
                    let ch = real("creating a change", || {
                        r.new_change(
                            kind_t(want.kind),
                            Data {},
                            InstanceHandle_t {
                                entity_key: want.handle,
                            },
                        )
                    })?;
                    let (got_sn, got) = content(&ch);
                    c.compared += 1;
                    c.ev(&[q.now, i as u64, got_sn as u64]);
                    c.note(|| format!("writer {} creates {}", i, got_sn));
                    ensure!(
                        got_sn == w.last + 1,
                        "numbering",
                        "writer {} numbered a change {} after {}",
                        i,
                        got_sn,
                        w.last
                    );
                    ensure!(
                        got == want,
                        "content",
                        "change {} of writer {} says {:?}, written was {:?}",
                        got_sn,
                        i,
                        got,
                        want
                    );
                    let (a, e) = (w.w.as_writer(), w.w.as_entity());
                    ensure!(
                        i64::from(a.last_change_sequence_number) == got_sn
                            && e.guid == guid(w.prefix, w.ent),
                        "attributes",
                        "writer {} reports {:?} and {:?} after change {}",
                        i,
                        a.last_change_sequence_number,
                        e.guid,
                        got_sn
                    );
                    ensure!(
                        w.qos.reported(&w.w)?,
                        "attributes",
                        "writer {} was created with {:?}",
                        i,
                        w.qos
                    );
                    w.last = got_sn;
                    if write_through {
                        w.stored = got_sn;
                        ensure!(
                            w.seen.insert(got_sn, want).is_none(),
                            "reused-number",
                            "writer {} used number {} twice",
                            i,
                            got_sn
                        );
                    }
                    // The other writers are not affected.
                    for (j, o) in ws.iter().enumerate() {
                        ensure!(
                            i64::from(o.w.as_writer().last_change_sequence_number) == o.last,
                            "other-writer",
                            "writer {} moved to {:?} while writer {} created a change",
                            j,
                            o.w.as_writer().last_change_sequence_number,
                            i
                        );
                    }
                }
            }
            NEv::Sync(i) => ws[i].stored = ws[i].last,
            NEv::Locators(i, k) => {
                let w = &mut ws[i];
                // One comes or goes, or all of them go.
                let last_one = w.sends_to.len() as u64 + k;
                let empty = c.chance(1, 4);
                for j in 0..if empty { last_one } else { k } {
                    let add = if empty { j < k } else { c.draw(3) > 0 };
                    let r = &mut w.w;
                    if add || w.sends_to.is_empty() {
                        let mut l = gen::mloc(c);
                        l.port = l.port.wrapping_add(j as u32);
                        let inline = c.bool();
                        real("adding a locator", || {
                            r.reader_locator_add(ReaderLocator::sim_new(loc(&l), inline))
                        })?;
                        w.sends_to.push((l, inline));
                    } else {
                        let at = c.draw(w.sends_to.len() as u64) as usize;
                        let (l, inline) = w.sends_to.swap_remove(at);
                        real("removing a locator", || {
                            r.reader_locator_remove(ReaderLocator::sim_new(loc(&l), inline))
                        })?;
                    }
                    c.ev(&[q.now, 7, i as u64, add as u64]);
                    let (a, e) = (w.w.as_writer(), w.w.as_entity());
                    ensure!(
                        i64::from(a.last_change_sequence_number) == w.last
                            && e.guid == guid(w.prefix, w.ent)
                            && w.qos.reported(&w.w)?,
                        "attributes",
                        "writer {} reports {:?} and {:?} after a locator came or went, its last change is {}",
                        i,
                        a.last_change_sequence_number,
                        e.guid,
                        w.last
                    );
                }
                c.note(|| format!("writer {} sends to {} locators", i, ws[i].sends_to.len()));
            }
            NEv::Crash(i) => {
                // Only what is stored comes back.
                c.fault("writer_restart");
                let w = &mut ws[i];
                if w.stored < w.last {
                    c.fault("lost_unsynced_state");
                }
                w.last = w.stored;
                w.w = stateless(w.prefix, w.ent, w.stored, &w.qos)?;
                w.sends_to.clear();
                c.note(|| format!("writer {} restarts at {}", i, w.stored));
            }
        }
    }
    c.sim_ns += q.now;
    Ok(())
}

// ---------------------------------------------------------------- W02

struct Push {
    proxy: ReaderProxy,
    guid: GUID_t,
    last: Option<i64>,
    /// What has reached the reader.
    arrived: BTreeSet<i64>,
}

enum PEv {
    Write(u64),
    Remove,
    Push(usize),
    Look(usize),
    Join,
    ReaderRestart(usize),
    WriterRestart,
    Arrive(usize, i64),
    /// So many changes, each pushed at once to this reader.
    Storm(usize, u64),
    /// A history of so many changes.
    Long(u64),
}

/// A history cache, and the history as a writer hands it over to its proxies:
/// changes are private to the cache, in whatever way it keeps them.
pub struct Cache {
    cache: SimHistoryCache,
    view: Vec<CacheChange>,
    /// Some of those which were removed.
    gone: Vec<i64>,
}

impl Cache {
    pub fn new() -> Cache {
        Cache {
            cache: SimHistoryCache::new(),
            view: vec![],
            gone: vec![],
        }
    }

    pub fn add_change(&mut self, ch: CacheChange) {
        let (s, x) = content(&ch);
        self.view.push(change(s, &x));
        self.cache.add_change(ch)
    }

    pub fn remove_change(&mut self, s: SequenceNumber_t) {
        let n = i64::from(s);
        self.view.retain(|x| i64::from(x.sequence_number) != n);
        if self.gone.len() == 32 {
            self.gone.remove(0);
        }
        self.gone.push(n);
        self.cache.remove_change(s)
    }

    pub fn get_change(&self, s: SequenceNumber_t) -> Option<&CacheChange> {
        self.cache.get_change(s)
    }

    pub fn get_seq_num_min(&self) -> Option<SequenceNumber_t> {
        self.cache.get_seq_num_min()
    }

    pub fn get_seq_num_max(&self) -> Option<SequenceNumber_t> {
        self.cache.get_seq_num_max()
    }

    pub fn changes(&self) -> &[CacheChange] {
        &self.view
    }
}

pub fn rebuild(c: &mut Ctx, store: &BTreeMap<i64, Content>) -> Res<Cache> {
    // Storage gives the changes back in its own order.
    let mut v: Vec<i64> = store.keys().copied().collect();
    for i in (1..v.len()).rev() {
        let j = c.draw(i as u64 + 1) as usize;
        v.swap(i, i - (j.min(i)));
    }
    let mut h = real("creating a history cache", Cache::new)?;
    for s in v {
        let x = store[&s];
        let hh = &mut h;
        real("adding a change", || hh.add_change(change(s, &x)))?;
    }
    Ok(h)
}

pub fn w02(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let prefix = gen::prefix(c);
    let e: Ent = [0, 0, 1, 2];
    let mut store: BTreeMap<i64, Content> = BTreeMap::new();
    let mut cache = Cache::new();
    let mut next = start_sn(c) + 1;
    // A proxy takes the numbers as they are, also those no writer starts at.
    if c.chance(1, 12) {
        next = match c.draw(5) {
            4 => i64::MAX - c.draw(60) as i64,
            0 => -(c.draw(40) as i64),
            1 => -0x1_0000_0000 - c.draw(40) as i64,
            2 => i64::MIN + 1 + c.draw(40) as i64,
            _ => -((c.u64() >> 1) as i64),
        };
    }
    // Changes of one writer, or passed on for several of them.
    let mixed = c.chance(1, 6);
    // The highest number there is has been used.
    let mut over = false;
    let sparse = c.chance(1, 3);
    // Or with gaps of any size.
    let wide = c.chance(1, 8);
    // Does the writer hand over its history as it is, or another view of it
    // at each push (a page sorted in some way)?
    let views = c.chance(1, 3);
    let mut readers: Vec<Push> = vec![];
    let join = |c: &mut Ctx, readers: &mut Vec<Push>| -> Res<()> {
        let g = guid(gen::prefix(c), [0, 0, readers.len() as u8, 7]);
        let inline = c.bool();
        readers.push(Push {
            proxy: real("creating a reader proxy", || ReaderProxy::new(g, inline))?,
            guid: g,
            last: None,
            arrived: BTreeSet::new(),
        });
        Ok(())
    };
    join(c, &mut readers)?;
    let mut q: Queue<PEv> = Queue::new();
    let span = 200;
    for _ in 0..c.range(1, 8) {
        let burst = c.pick(&[1u64, 2, 5, 30]);
        let burst = c.many(burst, burst, 2000, 1200);
        q.at(c.draw(span) * MS, PEv::Write(burst));
    }
    for _ in 0..c.draw(5) {
        q.at(c.draw(span) * MS, PEv::Remove);
    }
    for _ in 0..c.draw(3) {
        q.at(c.draw(span) * MS, PEv::Join);
    }
    for _ in 0..c.many(1, 20, 300, 300) {
        let r = c.draw(4) as usize;
        q.at(c.draw(span) * MS, PEv::Push(r));
        if c.bool() {
            let r = c.draw(4) as usize;
            q.at(c.draw(span) * MS, PEv::Look(r));
        }
    }
    if c.chance(1, 4) {
        q.at(c.draw(span) * MS, PEv::WriterRestart);
    }
    if c.chance(1, 4) {
        let r = c.draw(3) as usize;
        q.at(c.draw(span) * MS, PEv::ReaderRestart(r));
    }
    let storm = c.storm(6_000);
    if storm > 0 {
        let r = c.draw(2) as usize;
        q.at(c.draw(span) * MS, PEv::Storm(r, storm));
    }
    let all = c.storm(4_000);
    if all > 0 {
        q.at(c.draw(span) * MS, PEv::Long(all));
    }
    // Once all is quiet each reader is pushed what is left.
    for r in 0..4 {
        q.at((span + 200) * MS, PEv::Push(r + 1000));
    }
    while let Some(ev) = q.pop() {
        match ev {
            PEv::Write(burst) => {
                for _ in 0..burst {
                    let x = Content {
                        kind: c.draw(3) as u8,
                        handle: handle(c),
                        prefix: if mixed { gen::prefix(c) } else { prefix },
                        ent: if mixed { gen::ent_id(c) } else { e },
                    };
                    let s = next;
                    let gap = if wide && c.chance(1, 4) {
                        c.probe("wide_gap");
                        let d = c.range(0, 55);
                        (1i64 << d) + c.draw(4) as i64 - 2
                    } else if sparse && c.bool() {
                        c.draw(400) as i64
                    } else {
                        0
                    };
                    if over {
                        break;
                    }
                    match next.checked_add(1 + gap.max(0)) {
                        Some(n) => next = n,
                        None => {
                            c.probe("highest_number_used");
                            over = true;
                            next = i64::MAX;
                        }
                    }
                    store.insert(s, x);
                    let cc = &mut cache;
                    real("adding a change", || cc.add_change(change(s, &x)))?;
                    c.ev(&[q.now, 1, s as u64]);
                    c.note(|| format!("change {} added", s));
                }
            }
            PEv::Remove => {
                if store.is_empty() {
                    continue;
                }
                let s = *store
                    .keys()
                    .nth(c.draw(store.len() as u64) as usize)
                    .unwrap();
                store.remove(&s);
                let cc = &mut cache;
                real("removing a change", || cc.remove_change(sn(s)))?;
                c.ev(&[q.now, 2, s as u64]);
                c.note(|| format!("change {} removed", s));
            }
            PEv::Join => {
                c.probe("late_joiner");
                join(c, &mut readers)?;
            }
            PEv::WriterRestart => {
                // Proxies are volatile; storage gives the history back.
                c.fault("writer_restart");
                cache = rebuild(c, &store)?;
                for r in readers.iter_mut() {
                    let g = r.guid;
                    r.proxy = real("creating a reader proxy", || ReaderProxy::new(g, false))?;
                    r.last = None;
                    r.arrived.clear();
                }
            }
            PEv::ReaderRestart(r) => {
                if r >= readers.len() {
                    continue;
                }
                c.fault("reader_restart");
                let g = readers[r].guid;
                readers[r].proxy = real("creating a reader proxy", || ReaderProxy::new(g, true))?;
                readers[r].last = None;
                readers[r].arrived.clear();
            }
            PEv::Storm(r, n) => {
                if r >= readers.len() {
                    continue;
                }
                let mut st = c.draw(1 << 63);
                // How many changes the writer keeps.
                let keep = c.pick(&[1usize, 2, 5]);
                let silent = c.chance(1, 4);
                while store.len() > 5 {
                    let s = *store.keys().next().unwrap();
                    store.remove(&s);
                    let cc = &mut cache;
                    real("removing a change", || cc.remove_change(sn(s)))?;
                }
                for k in 0..n {
                    if next > i64::MAX - 1000 {
                        break;
                    }
                    // Nothing new for long, or something new every time.
                    if !silent || k == 0 || k + 3 > n {
                        let x = quick_content(&mut st, prefix, e);
                        let s = next;
                        next += 1;
                        store.insert(s, x);
                        let cc = &mut cache;
                        real("adding a change", || cc.add_change(change(s, &x)))?;
                        if store.len() > keep {
                            let s = *store.keys().next().unwrap();
                            store.remove(&s);
                            let cc = &mut cache;
                            real("removing a change", || cc.remove_change(sn(s)))?;
                        }
                    }
                    let p = &mut readers[r];
                    let want = match p.last {
                        None => store.iter().next(),
                        Some(l) => store.range((Bound::Excluded(l), Bound::Unbounded)).next(),
                    }
                    .map(|(s, x)| (*s, *x));
                    let (proxy, slice) = (&mut p.proxy, cache.changes());
                    let got = real("asking for the next unsent change", || {
                        proxy.next_unsent_change(slice).map(content)
                    })?;
                    c.compared += 1;
                    ensure!(
                        got == want,
                        "next-unsent",
                        "push {} of a row: reader {} was last pushed {:?}; of {:?} it must be pushed {:?}, it was pushed {:?}",
                        k,
                        r,
                        p.last,
                        store.keys().collect::<Vec<_>>(),
                        want.map(|g| g.0),
                        got.map(|g| g.0)
                    );
                    if let Some((s, _)) = got {
                        p.last = Some(s);
                    }
                }
                c.ev(&[q.now, 7, n]);
                look(c, &readers[r], r, cache.changes(), &store)?;
            }
            PEv::Long(n) => {
                let mut st = c.draw(1 << 63);
                long(c, prefix, e, n, &mut st)?;
            }
            PEv::Look(r) => {
                if r >= readers.len() {
                    continue;
                }
                look(c, &readers[r], r, cache.changes(), &store)?;
            }
            PEv::Push(r) => {
                let (r, all) = if r >= 1000 { (r - 1000, true) } else { (r, false) };
                if r >= readers.len() {
                    continue;
                }
                let k = if all { usize::MAX } else { c.range(1, 6) as usize };
                for round in 0.. {
                    if round >= k {
                        break;
                    }
                    let view;
                    let slice: &[CacheChange] = if views {
                        view = rebuild(c, &store)?;
                        view.changes()
                    } else {
                        cache.changes()
                    };
                    if c.chance(1, 4) {
                        look(c, &readers[r], r, slice, &store)?;
                    }
                    let p = &mut readers[r];
                    let want = match p.last {
                        None => store.iter().next(),
                        Some(l) => store.range((Bound::Excluded(l), Bound::Unbounded)).next(),
                    }
                    .map(|(s, x)| (*s, *x));
                    let proxy = &mut p.proxy;
                    let got = real("asking for the next unsent change", || {
                        proxy.next_unsent_change(slice).map(content)
                    })?;
                    c.compared += 1;
                    c.ev(&[q.now, 3, r as u64, got.map(|g| g.0).unwrap_or(0) as u64]);
                    c.note(|| format!("reader {} is pushed {:?}", r, got.map(|g| g.0)));
                    ensure!(
                        got == want,
                        "next-unsent",
                        "reader {} was last pushed {:?}; of {:?} it must be pushed {:?}, it was pushed {:?}",
                        r,
                        p.last,
                        store.keys().collect::<Vec<_>>(),
                        want.map(|g| g.0),
                        got.map(|g| g.0)
                    );
                    ensure!(
                        p.proxy.remote_reader_guid == p.guid,
                        "proxy-identity",
                        "reader {} became {:?}",
                        r,
                        p.proxy.remote_reader_guid
                    );
                    match got {
                        None => break,
                        Some((s, _)) => {
                            p.last = Some(s);
                            for d in link.arrivals(c) {
                                q.after(d, PEv::Arrive(r, s));
                            }
                        }
                    }
                }
            }
            PEv::Arrive(r, s) => {
                if !readers[r].arrived.insert(s) {
                    c.probe("arrived_twice");
                }
            }
        }
    }
    c.sim_ns += q.now;
    Ok(())
}

/// Pushes out of a history of very many changes, in whatever order it is.
fn long(c: &mut Ctx, prefix: Prefix, e: Ent, n: u64, st: &mut u64) -> Res<()> {
    let mut s = (splitmix(st) >> (2 + splitmix(st) % 62)) as i64;
    let mut order: Vec<i64> = vec![];
    for _ in 0..n {
        order.push(s);
        s += 1 + (splitmix(st) % 16 == 0) as i64;
    }
    let sorted = order.clone();
    match splitmix(st) % 4 {
        0 => {}
        1 => order.reverse(),
        2 => order.rotate_left(n as usize / 3),
        _ => {
            for i in (1..order.len()).rev() {
                order.swap(i, (splitmix(st) % (i as u64 + 1)) as usize);
            }
        }
    }
    let mut slice: Vec<CacheChange> = vec![];
    let mut held: HashMap<i64, Content> = HashMap::new();
    for s in &order {
        let x = quick_content(st, prefix, e);
        slice.push(change(*s, &x));
        held.insert(*s, x);
    }
    let g = guid(prefix, [0, 0, 9, 7]);
    let inline = splitmix(st) % 2 == 0;
    let mut proxy = real("creating a reader proxy", || ReaderProxy::new(g, inline))?;
    let mut at = 0;
    for round in 0..4 {
        // A few pushes, then all of a part of the history at once.
        for _ in 0..3 {
            let want = sorted.get(at).map(|s| (*s, held[s]));
            let p = &mut proxy;
            let got = real("asking for the next unsent change", || {
                p.next_unsent_change(&slice).map(content)
            })?;
            c.compared += 1;
            ensure!(
                got == want,
                "next-unsent",
                "of {} changes the reader was pushed {}; it must be pushed {:?}, it was pushed {:?}",
                n,
                at,
                want,
                got
            );
            at = (at + 1).min(sorted.len());
        }
        let p = &proxy;
        let mut left: Vec<i64> = real("listing the unsent changes", || {
            p.unsent_changes(&slice)
                .map(|x| i64::from(x.sequence_number))
                .collect()
        })?;
        left.sort_unstable();
        ensure!(
            left[..] == sorted[at..],
            "unsent",
            "of {} changes the reader was pushed {}; {} are listed as unsent, first and last of them {:?} and {:?}",
            n,
            at,
            left.len(),
            left.first(),
            left.last()
        );
        c.ev(&[9, n, at as u64]);
        if round < 3 {
            let to = (at + (splitmix(st) % n) as usize).min(sorted.len());
            if to > at {
                let s = sorted[to - 1];
                let only = [change(s, &held[&s])];
                let p = &mut proxy;
                let got = real("asking for the next unsent change", || {
                    p.next_unsent_change(&only).map(content)
                })?;
                ensure!(
                    got == Some((s, held[&s])),
                    "next-unsent",
                    "the reader must be pushed {}, it was pushed {:?}",
                    s,
                    got
                );
                at = to;
            }
        }
    }
    Ok(())
}

fn look(
    c: &mut Ctx,
    p: &Push,
    r: usize,
    slice: &[CacheChange],
    store: &BTreeMap<i64, Content>,
) -> Res<()> {
    let proxy = &p.proxy;
    let mut got: Vec<(i64, Content)> = real("listing the unsent changes", || {
        proxy.unsent_changes(slice).map(content).collect()
    })?;
    got.sort();
    let want: Vec<(i64, Content)> = store
        .iter()
        .filter(|(s, _)| p.last.map_or(true, |l| **s > l))
        .map(|(s, x)| (*s, *x))
        .collect();
    c.compared += 1;
    c.ev(&[4, r as u64, got.len() as u64]);
    ensure!(
        got == want,
        "unsent",
        "reader {} was last pushed {:?}; unsent are {:?}, listed are {:?}",
        r,
        p.last,
        want.iter().map(|g| g.0).collect::<Vec<_>>(),
        got.iter().map(|g| g.0).collect::<Vec<_>>()
    );
    Ok(())
}

// ---------------------------------------------------------------- W03

struct Hist {
    cache: Cache,
    model: BTreeMap<i64, Content>,
    prefix: Prefix,
    ent: Ent,
}

impl Hist {
    fn check(&self, c: &mut Ctx, id: usize, probe: i64) -> Res<()> {
        let cache = &self.cache;
        let (min, max, got, len) = real("reading a history cache", || {
            (
                cache.get_seq_num_min().map(i64::from),
                cache.get_seq_num_max().map(i64::from),
                cache.get_change(sn(probe)).map(content),
                cache.changes().len(),
            )
        })?;
        c.compared += 1;
        c.ev(&[5, id as u64, probe as u64, len as u64]);
        let want_min = self.model.keys().next().copied();
        let want_max = self.model.keys().next_back().copied();
        ensure!(
            min == want_min && max == want_max,
            "bounds",
            "cache {} holds {:?} and reports {:?} to {:?}",
            id,
            self.model.keys().collect::<Vec<_>>(),
            min,
            max
        );
        let want = self.model.get(&probe).map(|x| (probe, *x));
        ensure!(
            got == want,
            "lookup",
            "cache {}: change {} is {:?}, found was {:?}",
            id,
            probe,
            want,
            got
        );
        Ok(())
    }

    fn check_all(&self, c: &mut Ctx, id: usize) -> Res<()> {
        let cache = &self.cache;
        let mut got: Vec<(i64, Content)> = real("reading a history cache", || {
            self.model
                .keys()
                .chain(&cache.gone)
                .filter_map(|s| cache.get_change(sn(*s)).map(content))
                .collect()
        })?;
        got.sort();
        got.dedup();
        let want: Vec<(i64, Content)> = self.model.iter().map(|(s, x)| (*s, *x)).collect();
        c.compared += 1;
        ensure!(
            got == want,
            "held",
            "cache {} must hold {:?}, it holds {:?}",
            id,
            want,
            got
        );
        Ok(())
    }

    fn add(&mut self, s: i64, x: Content) -> Res<()> {
        let cache = &mut self.cache;
        real("adding a change", || cache.add_change(change(s, &x)))?;
        self.model.insert(s, x);
        Ok(())
    }

    fn remove(&mut self, s: i64) -> Res<()> {
        let cache = &mut self.cache;
        real("removing a change", || cache.remove_change(sn(s)))?;
        self.model.remove(&s);
        Ok(())
    }
}

enum HEv {
    Write(u64),
    Evict,
    Arrive(usize, i64, Content),
    Take(usize),
    Crash(usize),
    Ask(usize),
    /// So many changes through a cache which keeps only a few.
    Storm(usize, u64),
    /// So many through one which keeps all of them.
    Grow(usize, u64),
}

pub fn w03(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let prefix = gen::prefix(c);
    let n = c.range(1, 3) as usize;
    let mut hs: Vec<Hist> = vec![];
    for i in 0..=n {
        hs.push(Hist {
            cache: real("creating a history cache", Cache::new)?,
            model: BTreeMap::new(),
            prefix,
            ent: [0, 0, i as u8, 2],
        });
    }
    let mut next = start_sn(c) + 1;
    // Changes of one writer, or passed on for several of them.
    let mixed = c.chance(1, 6);
    let depth = c.pick(&[0usize, 1, 4, 16]);
    // Numbers one after the other, or any.
    let anywhere = c.chance(1, 6);
    // Is what is there already added again?
    let again = c.chance(1, 6);
    let mut any: BTreeSet<i64> = BTreeSet::new();
    let mut disk: BTreeMap<i64, Content> = BTreeMap::new();
    let mut q: Queue<HEv> = Queue::new();
    let span = 200;
    for _ in 0..c.range(1, 8) {
        let burst = c.pick(&[1u64, 2, 6, 20]);
        let burst = c.many(burst, burst, 4000, 2000);
        q.at(c.draw(span) * MS, HEv::Write(burst));
    }
    for _ in 0..c.draw(6) {
        q.at(c.draw(span) * MS, HEv::Evict);
    }
    for _ in 0..c.draw(12) {
        let r = c.range(1, n as u64) as usize;
        q.at(c.draw(span + 100) * MS, HEv::Take(r));
    }
    for _ in 0..c.draw(8) {
        let r = c.range(0, n as u64) as usize;
        q.at(c.draw(span + 100) * MS, HEv::Ask(r));
    }
    if c.chance(1, 3) {
        let r = c.range(0, n as u64) as usize;
        q.at(c.draw(span) * MS, HEv::Crash(r));
    }
    let storm = c.storm(25_000);
    if storm > 0 && !anywhere {
        let r = c.range(0, n as u64) as usize;
        q.at(c.draw(span) * MS, HEv::Storm(r, storm));
    }
    let all = c.storm(4_000);
    if all > 0 {
        let r = c.range(0, n as u64) as usize;
        q.at(c.draw(span) * MS, HEv::Grow(r, all));
    }
    while let Some(ev) = q.pop() {
        match ev {
            HEv::Grow(r, n) => {
                let mut st = c.draw(1 << 63);
                grow(c, &mut hs[r], r, n, next, &mut st)?;
                hs[r].check_all(c, r)?;
            }
            HEv::Storm(r, n) => {
                let mut st = c.draw(1 << 63);
                let keep = c.pick(&[1usize, 3, 8]);
                while hs[r].model.len() > keep {
                    let s = *hs[r].model.keys().next().unwrap();
                    hs[r].remove(s)?;
                    disk.remove(&s);
                }
                // Numbers of its own, far from all others.
                let mut s = next + 1_000_000;
                if s > i64::MAX - 1_000_000 {
                    continue;
                }
                let latest = c.bool();
                let mut mine = vec![];
                for k in 0..n {
                    let h = &mut hs[r];
                    let x = quick_content(&mut st, h.prefix, h.ent);
                    s += 1 + (splitmix(&mut st) % 16 == 0) as i64;
                    h.add(s, x)?;
                    mine.push(s);
                    if k % 7 == 0 {
                        let p = s - (splitmix(&mut st) % 12) as i64;
                        h.check(c, r, p)?;
                    }
                    h.check(c, r, s)?;
                    while h.model.len() > keep {
                        let gone = if latest {
                            *h.model.keys().next_back().unwrap()
                        } else {
                            *h.model.keys().next().unwrap()
                        };
                        h.remove(gone)?;
                        if k % 7 == 1 {
                            h.check(c, r, gone)?;
                        }
                    }
                }
                hs[r].check_all(c, r)?;
                // What is left of it goes, so that the rest of the run is as
                // it would have been.
                for s in mine {
                    if hs[r].model.contains_key(&s) {
                        hs[r].remove(s)?;
                    }
                }
                hs[r].check_all(c, r)?;
            }
            HEv::Write(burst) => {
                for _ in 0..burst {
                    if next > i64::MAX - 1000 {
                        break;
                    }
                    let mut s = next;
                    next += 1;
                    if anywhere && c.bool() {
                        s = gen::sn_value(c);
                    }
                    // A number is used once.
                    if anywhere && !any.insert(s) {
                        continue;
                    }
                    let x = Content {
                        kind: c.draw(3) as u8,
                        handle: handle(c),
                        prefix: if mixed { gen::prefix(c) } else { hs[0].prefix },
                        ent: if mixed { gen::ent_id(c) } else { hs[0].ent },
                    };
                    hs[0].add(s, x)?;
                    if !c.chance(1, 8) {
                        disk.insert(s, x);
                    }
                    c.note(|| format!("change {} written", s));
                    if depth > 0 && hs[0].model.len() > depth {
                        // The oldest one, by the cache's own account.
                        let cache = &hs[0].cache;
                        let min = real("reading a history cache", || cache.get_seq_num_min())?;
                        let want = *hs[0].model.keys().next().unwrap();
                        ensure!(
                            min.map(i64::from) == Some(want),
                            "bounds",
                            "the oldest change is {}, the cache says {:?}",
                            want,
                            min
                        );
                        hs[0].remove(want)?;
                        disk.remove(&want);
                    }
                    for r in 1..=n {
                        for d in link.arrivals(c) {
                            q.after(d, HEv::Arrive(r, s, x));
                        }
                    }
                    hs[0].check(c, 0, s)?;
                }
            }
            HEv::Evict => {
                // One it holds, one it has dropped, or one it never had.
                let s = match c.draw(3) {
                    0 if !hs[0].model.is_empty() => {
                        let k = c.draw(hs[0].model.len() as u64) as usize;
                        *hs[0].model.keys().nth(k).unwrap()
                    }
                    1 => next,
                    _ => next - 1 - c.draw(20) as i64,
                };
                hs[0].remove(s)?;
                disk.remove(&s);
                c.note(|| format!("change {} removed", s));
                hs[0].check(c, 0, s)?;
                let p = s.wrapping_add(c.draw(3) as i64 - 1);
                hs[0].check(c, 0, p)?;
            }
            HEv::Arrive(r, s, x) => {
                let h = &mut hs[r];
                let cache = &h.cache;
                // A reader keeps only the first copy.
                let have = real("looking up a change", || cache.get_change(sn(s)).is_some())?;
                ensure!(
                    have == h.model.contains_key(&s),
                    "lookup",
                    "cache {} holds {:?}; asked for {} it says {}",
                    r,
                    h.model.keys().collect::<Vec<_>>(),
                    s,
                    have
                );
                c.ev(&[q.now, 6, r as u64, s as u64, have as u64]);
                if have {
                    c.probe("duplicate_kept_out");
                    if again && h.model.get(&s) == Some(&x) {
                        c.probe("duplicate_added");
                        h.add(s, x)?;
                    }
                } else {
                    h.add(s, x)?;
                }
                h.check(c, r, s)?;
            }
            HEv::Take(r) => {
                // The application takes changes, not always the oldest.
                if hs[r].model.is_empty() {
                    continue;
                }
                let k = if c.bool() {
                    0
                } else {
                    c.draw(hs[r].model.len() as u64) as usize
                };
                let s = *hs[r].model.keys().nth(k).unwrap();
                hs[r].remove(s)?;
                hs[r].check(c, r, s)?;
            }
            HEv::Crash(r) => {
                c.fault("restart");
                if r == 0 {
                    // What was not stored is gone.
                    if disk.len() < hs[0].model.len() {
                        c.fault("lost_unsynced_state");
                    }
                    hs[0].cache = rebuild(c, &disk)?;
                    hs[0].model = disk.clone();
                } else {
                    hs[r].cache = real("creating a history cache", Cache::new)?;
                    hs[r].model.clear();
                }
            }
            HEv::Ask(r) => {
                let p = match c.draw(4) {
                    0 if !hs[r].model.is_empty() => {
                        let k = c.draw(hs[r].model.len() as u64) as usize;
                        *hs[r].model.keys().nth(k).unwrap()
                    }
                    1 => gen::sn_value(c),
                    2 => 0,
                    _ => next - c.draw(30) as i64,
                };
                hs[r].check(c, r, p)?;
                // Numbers equal in one half only are different numbers.
                let (k, twin) = match hs[r].model.keys().next() {
                    Some(k) => (*k, *k ^ (1i64 << c.draw(64))),
                    None => (0, 0),
                };
                if twin != 0 && twin != k {
                    hs[r].check(c, r, twin)?;
                    if c.chance(1, 4) && !hs[r].model.contains_key(&twin) {
                        // Removing it must not take the other one along.
                        hs[r].remove(twin)?;
                        hs[r].check(c, r, k)?;
                    }
                }
                hs[r].check_all(c, r)?;
            }
        }
    }
    for (i, h) in hs.iter().enumerate() {
        h.check_all(c, i)?;
    }
    c.sim_ns += q.now;
    Ok(())
}

/// A cache which keeps everything, of very many changes: looked up are the
/// ones at its ends, around powers of two and some between.
fn grow(c: &mut Ctx, h: &mut Hist, id: usize, n: u64, from: i64, st: &mut u64) -> Res<()> {
    if from > i64::MAX - 2_000_000 {
        return Ok(());
    }
    let from = from + 1_000_000;
    let before = h.model.clone();
    let mut cache = real("creating a history cache", SimHistoryCache::new)?;
    let mut held: BTreeMap<i64, Content> = BTreeMap::new();
    for (s, x) in &before {
        let ch = &mut cache;
        real("adding a change", || ch.add_change(change(*s, x)))?;
        held.insert(*s, *x);
    }
    let mut order: Vec<i64> = vec![];
    let mut s = from;
    for _ in 0..n {
        s += 1 + (splitmix(st) % 16 == 0) as i64;
        order.push(s);
    }
    match splitmix(st) % 3 {
        0 => {}
        1 => order.reverse(),
        // Two streams, one of them late.
        _ => order.rotate_left(n as usize / 3),
    }
    let removals = splitmix(st) % 20;
    for s in &order {
        let x = quick_content(st, h.prefix, h.ent);
        let ch = &mut cache;
        real("adding a change", || ch.add_change(change(*s, &x)))?;
        held.insert(*s, x);
    }
    for round in 0..2 {
        let mut ask: Vec<i64> = vec![];
        for i in [0, 1, 2, n / 2, n - 3, n - 2, n - 1] {
            ask.push(order[i as usize]);
        }
        for bit in 4..17 {
            for d in [-1i64, 0, 1] {
                let i = (1i64 << bit) + d;
                if i < n as i64 {
                    ask.push(order[i as usize]);
                    ask.push(order[(n as i64 - 1 - i) as usize]);
                }
            }
        }
        for _ in 0..40 {
            let i = splitmix(st) % n;
            ask.push(order[i as usize]);
            ask.push(order[i as usize] + 1);
        }
        ask.push(from);
        ask.extend(before.keys());
        for s in ask {
            let got = real("looking up a change", || cache.get_change(sn(s)).map(content))?;
            c.compared += 1;
            let want = held.get(&s).map(|x| (s, *x));
            ensure!(
                got == want,
                "lookup",
                "cache {} of {} changes: change {} is {:?}, found was {:?}",
                id,
                held.len(),
                s,
                want,
                got
            );
        }
        let (min, max) = real("reading a history cache", || {
            (
                cache.get_seq_num_min().map(i64::from),
                cache.get_seq_num_max().map(i64::from),
            )
        })?;
        let want = (
            held.keys().next().copied(),
            held.keys().next_back().copied(),
        );
        ensure!(
            (min, max) == want,
            "bounds",
            "cache {} of {} changes holds {:?} and reports {:?} to {:?}",
            id,
            held.len(),
            want,
            min,
            max
        );
        c.ev(&[8, id as u64, n, held.len() as u64]);
        if round == 0 {
            for k in 0..removals {
                // The lowest, the latest, or one between.
                let s = match k % 3 {
                    0 => *held.keys().next().unwrap(),
                    1 => *held.keys().next_back().unwrap(),
                    _ => order[(splitmix(st) % n) as usize],
                };
                let ch = &mut cache;
                real("removing a change", || ch.remove_change(sn(s)))?;
                held.remove(&s);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- W04

#[cfg(feature = "writers")]
enum MEv {
    /// A participant announces one of its readers: this id of it.
    Announce(usize),
    Arrive(usize),
    Lookup,
    /// A locator comes or goes.
    LocUp(usize),
    LocDown(usize),
    LocArrive(usize, bool),
    /// The writer creates so many changes.
    Changes(u64),
    WriterRestart,
    /// So many matches and lookups, locators added and removed.
    Storm(u64),
}

#[cfg(feature = "writers")]
type MGuid = (Prefix, Ent);

#[cfg(feature = "writers")]
pub fn w04(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let wp = gen::prefix(c);
    let we: Ent = [0, 0, 1, 2];
    // Readers whose ids are close to each other.
    let base: MGuid = match c.draw(8) {
        // Nobody, as far as the protocol is concerned
        7 => ([0; 12], [0; 4]),
        6 => (gen::prefix(c), gen::ent_id(c)),
        _ => (gen::prefix(c), [0, 0, 1, 7]),
    };
    let mut guids: BTreeSet<MGuid> = BTreeSet::new();
    guids.insert(base);
    for _ in 0..c.many(1, 12, 300, 300) {
        let mut g = base;
        match c.draw(4) {
            0 => {
                let i = c.draw(12) as usize;
                g.0[i] ^= 1 << c.draw(8);
            }
            1 => {
                let i = c.draw(4) as usize;
                g.1[i] ^= 1 << c.draw(8);
            }
            2 => {
                g.0 = gen::prefix(c);
                g.1 = if c.bool() { c.bytes() } else { gen::ent_id(c) };
            }
            _ => {
                let i = c.draw(12) as usize;
                g.0[i] = g.0[i].wrapping_add(1);
                let j = c.draw(4) as usize;
                g.1[j] = g.1[j].wrapping_sub(1);
            }
        }
        guids.insert(g);
    }
    let guids: Vec<MGuid> = guids.into_iter().collect();
    // Locators which differ in one respect.
    let lbase = {
        let mut l = gen::mloc(c);
        l.kind = c.pick(&[LOC_UDP4, LOC_UDP6]);
        l
    };
    let mut locs: Vec<(MLoc, bool)> = vec![(lbase.clone(), false), (lbase.clone(), true)];
    let most = c.many(1, 8, 300, 400);
    for _ in 0..most {
        let mut l = lbase.clone();
        match c.draw(3) {
            0 => l.port ^= 1 << c.draw(32),
            1 => l.kind = c.pick(&[LOC_UDP4, LOC_UDP6, LOC_INVALID, 0]),
            _ => {
                let i = c.draw(16) as usize;
                l.addr[i] ^= 1 << c.draw(8);
            }
        }
        let inline = c.bool();
        if !locs.contains(&(l.clone(), inline)) {
            locs.push((l, inline));
        }
    }
    let qos = Qos::any(c);
    let mut sf = stateful(wp, we, 0, &qos)?;
    let from = start_sn(c);
    let mut sl = stateless(wp, we, from, &qos)?;
    let mut matched: BTreeMap<MGuid, usize> = BTreeMap::new();
    // A user which does not look before it matches again.
    let again = c.chance(1, 4);
    let mut listed: BTreeSet<usize> = BTreeSet::new();
    let mut q: Queue<MEv> = Queue::new();
    let span = 200;
    for i in 0..guids.len() {
        if c.chance(3, 4) {
            for _ in 0..c.range(1, 3) {
                q.at(c.draw(span) * MS, MEv::Announce(i));
            }
        }
    }
    for _ in 0..c.range(1, 10) {
        q.at(c.draw(span) * MS, MEv::Lookup);
    }
    if most > 8 {
        // All of them, before some go.
        for i in 0..locs.len() {
            q.at(c.draw(span / 2) * MS, MEv::LocUp(i));
        }
    }
    for _ in 0..c.many(2, 20, 300, 400) {
        let i = c.draw(locs.len() as u64) as usize;
        let t = c.draw(span) * MS;
        if c.draw(5) < 3 {
            q.at(t, MEv::LocUp(i));
        } else {
            q.at(t, MEv::LocDown(i));
        }
    }
    if c.chance(1, 4) {
        q.at(c.draw(span) * MS, MEv::WriterRestart);
    }
    for _ in 0..c.draw(4) {
        let n = c.pick(&[1u64, 3, 10, 64]);
        let n = c.many(n, n, 500, 2000);
        q.at(c.draw(span) * MS, MEv::Changes(n));
    }
    let storm = c.storm(50_000);
    if storm > 0 {
        q.at(c.draw(span) * MS, MEv::Storm(storm));
    }
    q.at((span + 200) * MS, MEv::Lookup);
    while let Some(ev) = q.pop() {
        match ev {
            MEv::Announce(i) => {
                for d in link.arrivals(c) {
                    q.after(d, MEv::Arrive(i));
                }
            }
            MEv::Arrive(i) => {
                let (p, e) = guids[i];
                let known = count(&sf, p, e)?;
                c.compared += 1;
                c.ev(&[q.now, 1, i as u64, known as u64]);
                let want = matched.get(&(p, e)).copied().unwrap_or(0);
                ensure!(
                    known == want,
                    "lookup",
                    "reader {:?} is matched {} times, found {} times",
                    (p, e),
                    want,
                    known
                );
                if known > 0 {
                    c.probe("announced_again");
                    if !(again && c.bool()) {
                        continue;
                    }
                    c.probe("matched_again");
                }
                let inline = c.bool();
                let s = &mut sf;
                real("matching a reader", || {
                    s.matched_reader_add(ReaderProxy::new(guid(p, e), inline))
                })?;
                *matched.entry((p, e)).or_insert(0) += 1;
                c.note(|| format!("reader {:?} matched", (p, e)));
            }
            MEv::Lookup => {
                // Every id, matched or not, and one nobody has.
                for (p, e) in guids.iter().copied().chain([([0x77; 12], [1, 1, 1, 1])]) {
                    let got = count(&sf, p, e)?;
                    c.compared += 1;
                    let want = matched.get(&(p, e)).copied().unwrap_or(0);
                    c.ev(&[2, got as u64]);
                    ensure!(
                        got == want,
                        "lookup",
                        "reader {:?} is matched {} times, found {} times",
                        (p, e),
                        want,
                        got
                    );
                }
                let s = &mut sf;
                let mut all: Vec<MGuid> = real("reading the matched readers", || {
                    s.sim_matched_readers()
                        .map(|r| {
                            (
                                r.remote_reader_guid.guid_prefix.entity_key,
                                m_ent(&r.remote_reader_guid.entity_id),
                            )
                        })
                        .collect()
                })?;
                all.sort();
                ensure!(
                    all == matched
                        .iter()
                        .flat_map(|(g, n)| std::iter::repeat(*g).take(*n))
                        .collect::<Vec<_>>(),
                    "matched",
                    "matched are {:?}, the writer has {:?}",
                    matched,
                    all
                );
            }
            MEv::LocUp(i) | MEv::LocDown(i) => {
                let up = matches!(ev, MEv::LocUp(_));
                for d in link.arrivals(c) {
                    q.after(d, MEv::LocArrive(i, up));
                }
            }
            MEv::LocArrive(i, up) => {
                let (l, inline) = locs[i].clone();
                c.ev(&[q.now, 3, i as u64, up as u64]);
                let s = &mut sl;
                if up {
                    if listed.contains(&i) {
                        c.probe("locator_announced_again");
                        if !(again && c.bool()) {
                            continue;
                        }
                        c.probe("locator_added_again");
                    }
                    listed.insert(i);
                    real("adding a locator", || {
                        s.reader_locator_add(ReaderLocator::sim_new(loc(&l), inline))
                    })?;
                } else {
                    if !listed.remove(&i) {
                        c.probe("absent_locator_removed");
                    }
                    real("removing a locator", || {
                        s.reader_locator_remove(ReaderLocator::sim_new(loc(&l), inline))
                    })?;
                }
                let got = sends_to(&sl)?;
                c.compared += 1;
                let want: Vec<&(MLoc, bool)> = listed.iter().map(|i| &locs[*i]).collect();
                ensure!(
                    (again || got.len() == want.len())
                        && want.iter().all(|w| got.contains(w))
                        && got.iter().all(|g| want.contains(&g)),
                    "locators",
                    "after {} {:?} the writer must send to {:?}, it sends to {:?}",
                    if up { "adding" } else { "removing" },
                    locs[i],
                    want,
                    got
                );
            }
            MEv::Changes(n) => {
                let mut st = c.draw(1 << 63);
                for k in 0..n {
                    let x = quick_content(&mut st, wp, we);
                    let s = &mut sl;
                    real("creating a change", || {
                        let h = InstanceHandle_t {
                            entity_key: x.handle,
                        };
                        s.new_change(kind_t(x.kind), Data {}, h);
                    })?;
                    if k > 2 && k % 64 > 0 && k + 1 < n {
                        continue;
                    }
                    let got = sends_to(&sl)?;
                    c.compared += 1;
                    let want: Vec<&(MLoc, bool)> = listed.iter().map(|i| &locs[*i]).collect();
                    ensure!(
                        (again || got.len() == want.len())
                            && want.iter().all(|w| got.contains(w))
                            && got.iter().all(|g| want.contains(&g)),
                        "locators",
                        "after {} changes the writer must send to {:?}, it sends to {:?}",
                        k + 1,
                        want,
                        got
                    );
                }
                c.ev(&[q.now, 6, n]);
            }
            MEv::Storm(n) => {
                let mut st = c.draw(1 << 63);
                // On writers of their own, which many readers come to.
                let mut sf = stateful(wp, we, 0, &qos)?;
                let mut sl = stateless(wp, we, 0, &qos)?;
                let some = match c.draw(4) {
                    0 => n.min(3),
                    1 => n.min(300),
                    _ => n,
                };
                let of = |k: u64| -> MGuid {
                    let (mut p, mut e) = base;
                    for (i, b) in k.to_be_bytes()[4..].iter().enumerate() {
                        p[8 + i] ^= b;
                    }
                    e[3] ^= (k % 3) as u8;
                    (p, e)
                };
                for k in 0..some {
                    let (p, e) = of(k);
                    let s = &mut sf;
                    real("matching a reader", || {
                        s.matched_reader_add(ReaderProxy::new(guid(p, e), k % 2 == 0))
                    })?;
                }
                let looks = (n / some).clamp(40, 70_000) * some.min(1000) / 1000 + 40;
                for _ in 0..looks.min(20_000_000 / some) {
                    let k = splitmix(&mut st) % (some + 2);
                    let (p, e) = of(k);
                    let got = count(&sf, p, e)?;
                    c.compared += 1;
                    ensure!(
                        got == (k < some) as usize,
                        "lookup",
                        "of {} readers matched, number {} ({:?}) is found {} times",
                        some,
                        k,
                        (p, e),
                        got
                    );
                }
                let have = real("reading the matched readers", || {
                    sf.sim_matched_readers().count()
                })?;
                ensure!(
                    have as u64 == some,
                    "matched",
                    "{} readers were matched, the writer has {}",
                    some,
                    have
                );
                // Two locators, one of which comes and goes.
                let (stay, come) = (locs[0].clone(), locs[1].clone());
                real("adding a locator", || {
                    sl.reader_locator_add(ReaderLocator::sim_new(loc(&stay.0), stay.1))
                })?;
                for k in 0..n {
                    let s = &mut sl;
                    let up = k % 2 == 0;
                    let got: Vec<(MLoc, bool)> = real("adding or removing a locator", || {
                        let l = ReaderLocator::sim_new(loc(&come.0), come.1);
                        if up {
                            s.reader_locator_add(l)
                        } else {
                            s.reader_locator_remove(l)
                        }
                        s.reader_locators()
                            .map(|r| {
                                let (l, i) = r.sim_locator();
                                (m_loc(l), i)
                            })
                            .collect()
                    })?;
                    c.compared += 1;
                    ensure!(
                        got.len() == 1 + up as usize
                            && got.contains(&stay)
                            && got.contains(&come) == up,
                        "locators",
                        "with {:?} there and {:?} {} for time {} the writer sends to {:?}",
                        stay,
                        come,
                        if up { "added" } else { "removed" },
                        k / 2 + 1,
                        got
                    );
                }
                c.ev(&[q.now, 5, n, some]);
            }
            MEv::WriterRestart => {
                c.fault("writer_restart");
                sf = stateful(wp, we, 0, &qos)?;
                sl = stateless(wp, we, from, &qos)?;
                matched.clear();
                listed.clear();
            }
        }
    }
    c.sim_ns += q.now;
    Ok(())
}

#[cfg(feature = "writers")]
/// Where a writer sends to.
fn sends_to(w: &SimStatelessWriter) -> Res<Vec<(MLoc, bool)>> {
    real("reading the locators", || {
        w.reader_locators()
            .map(|r| {
                let (l, i) = r.sim_locator();
                (m_loc(l), i)
            })
            .collect()
    })
}

#[cfg(feature = "writers")]
/// How often the writer finds this reader; each hit must be that reader.
fn count(sf: &StatefulWriter, p: Prefix, e: Ent) -> Res<usize> {
    let g = guid(p, e);
    let hits: Vec<GUID_t> = real("looking up a reader", || {
        sf.matched_reader_lookup(g)
            .map(|r| r.remote_reader_guid)
            .collect()
    })?;
    for h in &hits {
        ensure!(
            *h == g,
            "lookup-identity",
            "asked for {:?}, found {:?}",
            g,
            h
        );
    }
    Ok(hits.len())
}
