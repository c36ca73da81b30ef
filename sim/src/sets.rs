//! A01: number sets, as readers build them, as they travel, as writers read
//! them.

use crate::choice::splitmix;
use crate::conv::*;
use crate::ctx::{hex, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::Writable;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    AckNack,
    Gap,
    NackFrag,
}

enum Set {
    Sn(SequenceNumberSet_t),
    Frag(FragmentNumberSet_t),
}

/// A set under construction, and what it must mean.
struct Owner {
    kind: Kind,
    set: Set,
    base: i64,
    members: BTreeSet<i64>,
    en: End,
}

fn max_of(k: Kind) -> i64 {
    match k {
        Kind::NackFrag => u32::MAX as i64,
        _ => i64::MAX,
    }
}

impl Owner {
    fn new(c: &mut Ctx) -> Res<Owner> {
        let kind = c.pick(&[Kind::AckNack, Kind::Gap, Kind::NackFrag]);
        let base = match kind {
            Kind::NackFrag => gen::frag_value(c) as i64,
            _ => gen::sn_value(c),
        };
        Owner::with(c, kind, base)
    }

    fn with(c: &mut Ctx, kind: Kind, base: i64) -> Res<Owner> {
        let en = if c.bool() { End::Le } else { End::Be };
        Owner::with_end(kind, base, en)
    }

    fn with_end(kind: Kind, base: i64, en: End) -> Res<Owner> {
        let set = real("creating a number set", || match kind {
            Kind::NackFrag => Set::Frag(FragmentNumberSet_t::new(FragmentNumber_t::from(
                base as u32,
            ))),
            _ => Set::Sn(SequenceNumberSet_t::new(sn(base))),
        })?;
        Ok(Owner {
            kind,
            set,
            base,
            members: BTreeSet::new(),
            en,
        })
    }

    /// A number near the window, in it or not, new or not.
    fn candidate(&self, c: &mut Ctx) -> i64 {
        let off: i128 = match c.draw(9) {
            7 => c.literal() as i128 & 0x3FF,
            0 | 1 => c.draw(256) as i128,
            2 => c.pick(&[0i128, 255, 31, 32, 63, 64, 127, 128, 254]),
            3 => c.pick(&[256i128, 257, -1, -2, 511, 512, 288]),
            4 => match self.members.iter().next_back() {
                Some(m) => *m as i128 - self.base as i128,
                None => 0,
            },
            5 => match self.members.iter().nth(c.draw(4) as usize) {
                Some(m) => *m as i128 - self.base as i128,
                None => 1,
            },
            6 => c.draw(40) as i128,
            _ => {
                let v = match self.kind {
                    Kind::NackFrag => gen::frag_value(c) as i64,
                    _ => gen::sn_value(c),
                };
                return v;
            }
        };
        let v = self.base as i128 + off;
        match self.kind {
            Kind::NackFrag => (v as u32) as i64,
            _ => v as i64,
        }
    }

    fn insert(&mut self, c: &mut Ctx, v: i64) -> Res<()> {
        let off = v as i128 - self.base as i128;
        let inside = (0..256).contains(&off);
        let want = inside && !self.members.contains(&v);
        let set = &mut self.set;
        let got = real("inserting into a number set", || match set {
            Set::Sn(s) => s.insert(sn(v)),
            Set::Frag(s) => s.insert(FragmentNumber_t::from(v as u32)),
        })?;
        c.compared += 1;
        c.ev(&[1, v as u64, got as u64]);
        if !inside {
            c.probe("insert_outside_window");
        } else if !want {
            c.probe("insert_again");
        }
        ensure!(
            got == want,
            "insert",
            "inserting {} into a set with base {} holding {:?} returned {}",
            v,
            self.base,
            self.members,
            got
        );
        if want {
            self.members.insert(v);
        }
        Ok(())
    }

    fn meaning(&self) -> MSet {
        MSet {
            base: self.base,
            members: self.members.iter().copied().collect(),
        }
    }

    /// Encodes the set in a submessage of its kind; consumes and gives back
    /// the set, as a message owns what it carries.
    fn encode(&mut self, count: i32) -> Res<Vec<u8>> {
        let e = endian(self.en);
        let (rid, wid) = (ent([1, 2, 3, 4]), ent([5, 6, 7, 8]));
        let kind = self.kind;
        let base = self.base;
        let taken = std::mem::replace(&mut self.set, Set::Sn(SequenceNumberSet_t::new(sn(0))));
        let (bytes, back, k) = real("encoding a number set", move || match taken {
            Set::Frag(s) => {
                let m = NackFrag {
                    reader_id: rid,
                    writer_id: wid,
                    writer_sn: sn(7),
                    fragment_number_state: s,
                    count: Count_t::from(count),
                };
                let b = m.write_to_vec_with_ctx(e).unwrap();
                (b, Set::Frag(m.fragment_number_state), NACK_FRAG)
            }
            Set::Sn(s) if kind == Kind::AckNack => {
                let m = AckNack {
                    reader_id: rid,
                    writer_id: wid,
                    reader_sn_state: s,
                    count: Count_t::from(count),
                };
                let b = m.write_to_vec_with_ctx(e).unwrap();
                (b, Set::Sn(m.reader_sn_state), ACKNACK)
            }
            Set::Sn(s) => {
                let m = Gap {
                    reader_id: rid,
                    writer_id: wid,
                    gap_start: sn(count as i64),
                    gap_list: s,
                };
                let b = m.write_to_vec_with_ctx(e).unwrap();
                (b, Set::Sn(m.gap_list), GAP)
            }
        })?;
        let _ = base;
        self.set = back;
        let mut m = vec![];
        put_real_header(&mut m, [3; 12])?;
        put_real_sub(&mut m, k, flag_of(self.en), &bytes)?;
        Ok(m)
    }
}

fn open(e: EntitySubmessage) -> Res<(i32, Kind, Set)> {
    Ok(match e {
        EntitySubmessage::AckNack(a, _) => {
            (a.count.into(), Kind::AckNack, Set::Sn(a.reader_sn_state))
        }
        EntitySubmessage::Gap(g) => (
            i64::from(g.gap_start) as i32,
            Kind::Gap,
            Set::Sn(g.gap_list),
        ),
        EntitySubmessage::NackFrag(n) => (
            n.count.into(),
            Kind::NackFrag,
            Set::Frag(n.fragment_number_state),
        ),
        other => fail!("wrong-item", "unexpected {:?}", other),
    })
}

fn read_out(set: Set) -> Res<MSet> {
    match set {
        Set::Sn(s) => m_sn_set(s),
        Set::Frag(s) => m_frag_set(s),
    }
}

enum Ev {
    Insert(usize),
    Send(usize),
    Crash(usize),
    Deliver(Vec<u8>),
}

pub fn a01(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 3) as usize;
    let mut owners = vec![];
    for _ in 0..n {
        owners.push(Owner::new(c)?);
    }
    let mut rx = new_rx(LOC_UDP4)?;
    let mut sent: BTreeMap<i32, (Kind, MSet, End)> = BTreeMap::new();
    let mut count = 0;
    let mut q: Queue<Ev> = Queue::new();
    let inserts = c.pick(&[6u64, 1, 20, 60]);
    for _ in 0..c.range(0, inserts) {
        let o = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Insert(o));
    }
    for _ in 0..c.many(1, 4, 300, 300) {
        let o = c.draw(n as u64) as usize;
        q.at(c.draw(120) * MS, Ev::Send(o));
    }
    if c.chance(1, 4) {
        let o = c.draw(n as u64) as usize;
        q.at(c.draw(120) * MS, Ev::Crash(o));
    }
    while let Some(ev) = q.pop() {
        match ev {
            Ev::Insert(o) => {
                let burst = c.pick(&[1u64, 1, 3, 32]);
                if c.chance(1, 16) {
                    // A whole stretch, or everything there is room for.
                    c.probe("stretch_inserted");
                    let a = c.draw(260);
                    let b = c.range(a, 260);
                    let down = c.bool();
                    for i in a..=b {
                        let off = if down { a + b - i } else { i } as i128;
                        let base = owners[o].base as i128;
                        if base + off <= max_of(owners[o].kind) as i128 {
                            owners[o].insert(c, (base + off) as i64)?;
                        }
                    }
                }
                for _ in 0..burst {
                    let v = owners[o].candidate(c);
                    owners[o].insert(c, v)?;
                }
            }
            Ev::Crash(o) => {
                // The owner forgets what it asked for and starts anew.
                c.fault("sender_restart");
                owners[o] = Owner::new(c)?;
            }
            Ev::Send(o) => {
                count += 1;
                let m = if c.chance(1, 4) {
                    // Another implementation's encoding.
                    c.probe("foreign_encoding");
                    let kind = owners[o].kind;
                    let base = owners[o].base;
                    let raw = gen::raw_set(c, base);
                    let set = raw.meaning(max_of(kind));
                    let en = owners[o].en;
                    let (reader, writer) = ([1, 2, 3, 4], [5, 6, 7, 8]);
                    let e = match kind {
                        Kind::AckNack => MEntity::AckNack {
                            reader,
                            writer,
                            set: set.clone(),
                            count,
                            flags: 0,
                        },
                        Kind::Gap => MEntity::Gap {
                            reader,
                            writer,
                            start: count as i64,
                            set: set.clone(),
                        },
                        Kind::NackFrag => MEntity::NackFrag {
                            reader,
                            writer,
                            sn: 7,
                            set: set.clone(),
                            count,
                        },
                    };
                    let (k, body) = ref_body(&e, en, Some(&raw));
                    sent.insert(count, (kind, set, en));
                    let mut m = vec![];
                    put_header(&mut m, *b"RTPS", (2, 4), [1, 1], [4; 12]);
                    put_sub(&mut m, k, flag_of(en), body.len() as u16, &body);
                    m
                } else {
                    let m = owners[o].encode(count)?;
                    sent.insert(count, (owners[o].kind, owners[o].meaning(), owners[o].en));
                    m
                };
                c.note(|| format!("set {} sent as {}", count, hex(&m)));
                for d in link.arrivals(c) {
                    q.after(d, Ev::Deliver(m.clone()));
                }
            }
            Ev::Deliver(m) => {
                let (got, err) = receive(&mut rx, &m, |e, _| open(e))?;
                c.compared += 1;
                ensure!(
                    err.is_none() && got.len() == 1,
                    "not-received",
                    "{} items and {:?} from {}",
                    got.len(),
                    err,
                    hex(&m)
                );
                for (n, kind, set) in got {
                    let (wk, want, en) = match sent.get(&n) {
                        Some(w) => w.clone(),
                        None => fail!("wrong-count", "{} from {}", n, hex(&m)),
                    };
                    ensure!(kind == wk, "wrong-kind", "{:?} from {}", kind, hex(&m));
                    if c.chance(1, 3) {
                        // A relay adds to what it received and passes it on.
                        c.probe("set_extended_after_decoding");
                        let mut relay = Owner {
                            kind,
                            set,
                            base: want.base,
                            members: want.members.iter().copied().collect(),
                            en,
                        };
                        for _ in 0..c.range(1, 6) {
                            let v = relay.candidate(c);
                            relay.insert(c, v)?;
                        }
                        let again = relay.encode(n)?;
                        let (g2, e2) = receive(&mut rx, &again, |e, _| open(e))?;
                        ensure!(
                            e2.is_none() && g2.len() == 1,
                            "not-received",
                            "{} items and {:?} from relayed {}",
                            g2.len(),
                            e2,
                            hex(&again)
                        );
                        let want = relay.meaning();
                        for (_, _, s) in g2 {
                            same(c, s, &want, "relayed", &again)?;
                        }
                        same(c, relay.set, &want, "extended", &m)?;
                    } else {
                        same(c, set, &want, "received", &m)?;
                    }
                }
            }
        }
    }
    let storm = c.storm(40_000);
    if storm > 0 {
        sets_storm(c, &mut rx, storm)?;
    }
    // What each owner holds in the end.
    for o in owners {
        let want = o.meaning();
        same(c, o.set, &want, "built", &[])?;
    }
    c.sim_ns += q.now;
    Ok(())
}

/// One set after another, built, sent and read, all of them out of one draw.
fn sets_storm(c: &mut Ctx, rx: &mut MessageReceiver, n: u64) -> Res<()> {
    let mut st = c.draw(1 << 63);
    let first = Owner::new(c)?;
    let dense = c.pick(&[3u64, 0, 40]);
    for k in 0..n {
        let r = splitmix(&mut st);
        let base = match first.kind {
            Kind::NackFrag => (first.base as u32).saturating_add(k as u32) as i64,
            _ => first.base.saturating_add(k as i64),
        };
        let mut o = Owner::with_end(first.kind, base, if r & 1 == 0 { End::Le } else { End::Be })?;
        let room = (max_of(o.kind) as i128 - base as i128 + 1).min(256) as u64;
        let size = 1 + splitmix(&mut st) % room;
        for _ in 0..splitmix(&mut st) % (dense + 1) {
            let v = base + (splitmix(&mut st) % size) as i64;
            o.insert(c, v)?;
        }
        let m = o.encode(k as i32)?;
        let (got, err) = receive(rx, &m, |e, _| open(e))?;
        c.compared += 1;
        ensure!(
            err.is_none() && got.len() == 1,
            "not-received",
            "set {} of a row: {} items and {:?} from {}",
            k,
            got.len(),
            err,
            hex(&m)
        );
        let want = o.meaning();
        for (id, kind, set) in got {
            ensure!(
                id == k as i32 && kind == o.kind,
                "wrong-kind",
                "{} {:?} from {}",
                id,
                kind,
                hex(&m)
            );
            same(c, set, &want, "received", &m)?;
        }
        same(c, o.set, &want, "built", &m)?;
    }
    Ok(())
}

fn build(want: &MSet, frag: bool) -> Res<Set> {
    Ok(if frag {
        Set::Frag(real("building a number set", || frag_set(want))?)
    } else {
        Set::Sn(real("building a number set", || sn_set(want))?)
    })
}

/// Sets are equal exactly if their bases and numbers are.
fn equality(c: &mut Ctx, set: &Set, want: &MSet, what: &str, m: &[u8]) -> Res<()> {
    let frag = matches!(set, Set::Frag(_));
    let max = if frag { u32::MAX as i64 } else { i64::MAX };
    if want.base > max - 255 {
        // There may be bits for numbers which do not exist.
        return Ok(());
    }
    let mut other = want.clone();
    if c.bool() {
        other.members.reverse();
    }
    let n = other.members.len();
    match c.draw(6) {
        1 if n > 0 => {
            let i = c.draw(n as u64) as usize;
            other.members.remove(i);
        }
        2 => {
            let v = want.base + c.draw(256) as i64;
            if !other.members.contains(&v) {
                other.members.push(v);
            }
        }
        3 => {
            // The same bits from another base
            let d = c.pick(&[1, 32, 64, 1 << 32]);
            if want.base <= max - 255 - d {
                other.base += d;
                for v in other.members.iter_mut() {
                    *v += d;
                }
            }
        }
        4 if n > 0 => {
            // The same numbers from another base, if they fit.
            let lo = *want.members.iter().min().unwrap();
            other.base = want.base + c.draw((lo - want.base) as u64 + 1) as i64;
        }
        5 if n > 0 => {
            let i = c.draw(n as u64) as usize;
            let v = want.base + c.draw(256) as i64;
            if !other.members.contains(&v) {
                other.members[i] = v;
            }
        }
        _ => {}
    }
    let b = build(&other, frag)?;
    let equal = |a: &Set, b: &Set| match (a, b) {
        (Set::Sn(a), Set::Sn(b)) => a == b,
        (Set::Frag(a), Set::Frag(b)) => a == b,
        _ => false,
    };
    let (there, back) = real("comparing number sets", || (equal(set, &b), equal(&b, set)))?;
    other.members.sort_unstable();
    let must = other == *want;
    c.compared += 1;
    c.ev(&[3, must as u64]);
    c.probe(if must {
        "equal_sets_compared"
    } else {
        "different_sets_compared"
    });
    ensure!(
        there == must && back == must,
        "equality",
        "the {} set {:?} equals {:?}: {}, the other way around {} ({})",
        what,
        want,
        other,
        there,
        back,
        hex(m)
    );
    Ok(())
}

fn same(c: &mut Ctx, set: Set, want: &MSet, what: &str, m: &[u8]) -> Res<()> {
    if c.chance(1, 4) {
        equality(c, &set, want, what, m)?;
    }
    let got = read_out(set)?;
    c.compared += 1;
    c.ev(&[2, got.base as u64, got.members.len() as u64]);
    ensure!(
        got == *want,
        "wrong-members",
        "the {} set must be {:?}, it is {:?} ({})",
        what,
        want,
        got,
        hex(m)
    );
    Ok(())
}
