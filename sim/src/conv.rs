//! Between the model's types and the real ones.

use crate::ctx::{real, Res};
use crate::wire::*;
use rtps_rs::sim::*;
use speedy::{Endianness, Writable};

pub fn endian(e: End) -> Endianness {
    match e {
        End::Le => Endianness::LittleEndian,
        End::Be => Endianness::BigEndian,
    }
}

pub fn ent(e: Ent) -> EntityId_t {
    EntityId_t::sim_new([e[0], e[1], e[2]], e[3])
}

pub fn m_ent(e: &EntityId_t) -> Ent {
    let (k, kind) = e.sim_parts();
    [k[0], k[1], k[2], kind]
}

pub fn sn(v: i64) -> SequenceNumber_t {
    SequenceNumber_t::from(v)
}

pub fn loc_kind(k: u32) -> LocatorKind_t {
    match k {
        0 => LocatorKind_t::LOCATOR_KIND_RESERVED,
        1 => LocatorKind_t::LOCATOR_KIND_UDPv4,
        2 => LocatorKind_t::LOCATOR_KIND_UDPv6,
        _ => LocatorKind_t::LOCATOR_KIND_INVALID,
    }
}

pub fn m_kind(k: &LocatorKind_t) -> u32 {
    match k {
        LocatorKind_t::LOCATOR_KIND_RESERVED => 0,
        LocatorKind_t::LOCATOR_KIND_UDPv4 => 1,
        LocatorKind_t::LOCATOR_KIND_UDPv6 => 2,
        LocatorKind_t::LOCATOR_KIND_INVALID => LOC_INVALID,
    }
}

pub fn loc(l: &MLoc) -> Locator_t {
    Locator_t {
        kind: loc_kind(l.kind),
        port: l.port,
        address: l.addr,
    }
}

pub fn m_loc(l: &Locator_t) -> MLoc {
    MLoc {
        kind: m_kind(&l.kind),
        port: l.port,
        addr: l.address,
    }
}

pub fn m_ctx(r: &Receiver) -> MCtx {
    MCtx {
        version: (r.source_version.major, r.source_version.minor),
        vendor: r.source_vendor_id.vendor_id,
        src: r.source_guid_prefix.entity_key,
        dst: r.dest_guid_prefix.entity_key,
        uni: r.unicast_reply_locator_list.iter().map(m_loc).collect(),
        multi: r.multicast_reply_locator_list.iter().map(m_loc).collect(),
        ts: if r.have_timestamp {
            Some(r.timestamp.sim_parts())
        } else {
            None
        },
    }
}

/// The base of a real sequence number set: its first field on the wire.
fn sn_base(s: &SequenceNumberSet_t) -> i64 {
    let b = s.write_to_vec_with_ctx(Endianness::BigEndian).unwrap();
    i64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}

fn frag_base(s: &FragmentNumberSet_t) -> i64 {
    let b = s.write_to_vec_with_ctx(Endianness::BigEndian).unwrap();
    u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as i64
}

/// At most this many members are taken out of a set (it holds at most 256).
const MEMBERS: usize = 300;

pub fn m_sn_set(s: SequenceNumberSet_t) -> Res<MSet> {
    let base = real("encoding a sequence number set", || sn_base(&s))?;
    let members = real("iterating a sequence number set", || {
        s.into_iter().take(MEMBERS).map(i64::from).collect()
    })?;
    Ok(MSet { base, members })
}

pub fn m_frag_set(s: FragmentNumberSet_t) -> Res<MSet> {
    let base = real("encoding a fragment number set", || frag_base(&s))?;
    let members = real("iterating a fragment number set", || {
        s.into_iter()
            .take(MEMBERS)
            .map(|v| u32::from(v) as i64)
            .collect()
    })?;
    Ok(MSet { base, members })
}

/// Flags as an application reads them, one by one.
fn m_flags(f: &SubmessageFlag) -> Res<u8> {
    let (read, le) = real("reading flags", || {
        let read = (0..8).filter(|b| f.is_flag_set(1 << b)).fold(0, |a, b| a | 1u8 << b);
        (read, f.endianness_flag() == speedy::Endianness::LittleEndian)
    })?;
    crate::ensure!(
        read == f.flags && le == (f.flags & 1 == 1),
        "flags",
        "the flags {:08b} are read as {:08b}, little endian {}",
        f.flags,
        read,
        le
    );
    Ok(read)
}

pub fn m_entity(e: EntitySubmessage) -> Res<MEntity> {
    Ok(match e {
        EntitySubmessage::AckNack(a, f) => MEntity::AckNack {
            reader: m_ent(&a.reader_id),
            writer: m_ent(&a.writer_id),
            set: m_sn_set(a.reader_sn_state)?,
            count: a.count.into(),
            flags: m_flags(&f)?,
        },
        EntitySubmessage::Gap(g) => MEntity::Gap {
            reader: m_ent(&g.reader_id),
            writer: m_ent(&g.writer_id),
            start: g.gap_start.into(),
            set: m_sn_set(g.gap_list)?,
        },
        EntitySubmessage::Heartbeat(h, f) => MEntity::Heartbeat {
            reader: m_ent(&h.reader_id),
            writer: m_ent(&h.writer_id),
            first: h.first_sn.into(),
            last: h.last_sn.into(),
            count: h.count.into(),
            flags: m_flags(&f)?,
        },
        EntitySubmessage::HeartbeatFrag(h) => MEntity::HeartbeatFrag {
            reader: m_ent(&h.reader_id),
            writer: m_ent(&h.writer_id),
            sn: h.writer_sn.into(),
            last_frag: h.last_fragment_num.into(),
            count: h.count.into(),
        },
        EntitySubmessage::NackFrag(n) => MEntity::NackFrag {
            reader: m_ent(&n.reader_id),
            writer: m_ent(&n.writer_id),
            sn: n.writer_sn.into(),
            set: m_frag_set(n.fragment_number_state)?,
            count: n.count.into(),
        },
        #[allow(unreachable_patterns)]
        _ => MEntity::Other("data".to_string()),
    })
}

/// Real set built by inserting, as an application does.
pub fn sn_set(m: &MSet) -> SequenceNumberSet_t {
    let mut s = SequenceNumberSet_t::new(sn(m.base));
    for x in &m.members {
        s.insert(sn(*x));
    }
    s
}

pub fn frag_set(m: &MSet) -> FragmentNumberSet_t {
    let mut s = FragmentNumberSet_t::new(FragmentNumber_t::from(m.base as u32));
    for x in &m.members {
        s.insert(FragmentNumber_t::from(*x as u32));
    }
    s
}

/// Encodes the content of a submessage with the real code; also its kind and
/// the flags a decoder reports back.
pub fn real_body(e: &MEntity, en: End) -> Res<(u8, Vec<u8>)> {
    let c = endian(en);
    real("encoding a submessage", || match e {
        MEntity::AckNack {
            reader,
            writer,
            set,
            count,
            ..
        } => (
            ACKNACK,
            AckNack {
                reader_id: ent(*reader),
                writer_id: ent(*writer),
                reader_sn_state: sn_set(set),
                count: Count_t::from(*count),
            }
            .write_to_vec_with_ctx(c)
            .unwrap(),
        ),
        MEntity::Gap {
            reader,
            writer,
            start,
            set,
        } => (
            GAP,
            Gap {
                reader_id: ent(*reader),
                writer_id: ent(*writer),
                gap_start: sn(*start),
                gap_list: sn_set(set),
            }
            .write_to_vec_with_ctx(c)
            .unwrap(),
        ),
        MEntity::Heartbeat {
            reader,
            writer,
            first,
            last,
            count,
            ..
        } => (
            HEARTBEAT,
            Heartbeat {
                reader_id: ent(*reader),
                writer_id: ent(*writer),
                first_sn: sn(*first),
                last_sn: sn(*last),
                count: Count_t::from(*count),
            }
            .write_to_vec_with_ctx(c)
            .unwrap(),
        ),
        MEntity::HeartbeatFrag {
            reader,
            writer,
            sn: s,
            last_frag,
            count,
        } => (
            HEARTBEAT_FRAG,
            HeartbeatFrag {
                reader_id: ent(*reader),
                writer_id: ent(*writer),
                writer_sn: sn(*s),
                last_fragment_num: FragmentNumber_t::from(*last_frag),
                count: Count_t::from(*count),
            }
            .write_to_vec_with_ctx(c)
            .unwrap(),
        ),
        MEntity::NackFrag {
            reader,
            writer,
            sn: s,
            set,
            count,
        } => (
            NACK_FRAG,
            NackFrag {
                reader_id: ent(*reader),
                writer_id: ent(*writer),
                writer_sn: sn(*s),
                fragment_number_state: frag_set(set),
                count: Count_t::from(*count),
            }
            .write_to_vec_with_ctx(c)
            .unwrap(),
        ),
        MEntity::Other(_) => unreachable!(),
    })
}

/// The same with the reference encoder.
pub fn ref_body(e: &MEntity, en: End, raw: Option<&RawSet>) -> (u8, Vec<u8>) {
    let mut w = W::new(en);
    let put = |w: &mut W, set: &MSet, frag: bool| {
        let r = match raw {
            Some(r) => r.clone(),
            None => canonical(set),
        };
        if frag {
            r.put_frag(w)
        } else {
            r.put_sn(w)
        }
    };
    let kind = match e {
        MEntity::AckNack {
            reader,
            writer,
            set,
            count,
            ..
        } => {
            w.raw(reader);
            w.raw(writer);
            put(&mut w, set, false);
            w.i32(*count);
            ACKNACK
        }
        MEntity::Gap {
            reader,
            writer,
            start,
            set,
        } => {
            w.raw(reader);
            w.raw(writer);
            w.sn(*start);
            put(&mut w, set, false);
            GAP
        }
        MEntity::Heartbeat {
            reader,
            writer,
            first,
            last,
            count,
            ..
        } => {
            w.raw(reader);
            w.raw(writer);
            w.sn(*first);
            w.sn(*last);
            w.i32(*count);
            HEARTBEAT
        }
        MEntity::HeartbeatFrag {
            reader,
            writer,
            sn,
            last_frag,
            count,
        } => {
            w.raw(reader);
            w.raw(writer);
            w.sn(*sn);
            w.u32(*last_frag);
            w.i32(*count);
            HEARTBEAT_FRAG
        }
        MEntity::NackFrag {
            reader,
            writer,
            sn,
            set,
            count,
        } => {
            w.raw(reader);
            w.raw(writer);
            w.sn(*sn);
            put(&mut w, set, true);
            w.i32(*count);
            NACK_FRAG
        }
        MEntity::Other(_) => unreachable!(),
    };
    (kind, w.b)
}

/// The shortest encoding of a set in whole words.
pub fn canonical(m: &MSet) -> RawSet {
    let n = m
        .members
        .iter()
        .map(|x| (x - m.base) as usize + 1)
        .max()
        .unwrap_or(0);
    let words = (n + 31) / 32;
    let mut v = vec![0u32; words];
    for x in &m.members {
        let i = (x - m.base) as usize;
        v[i / 32] |= 1 << (i % 32);
    }
    RawSet {
        base: m.base,
        nbits: (words * 32) as u32,
        words: v,
    }
}
