//! C01: every wire type through unreliable byte streams.
//!
//! A writer encodes values one after the other into a simulated pipe which
//! takes and gives short pieces, is interrupted, fills up or closes; a reader
//! decodes them from there, from a datagram, or from a buffer holding more.

use crate::conv::*;
use crate::ctx::{hash_bytes, hex, real, Ctx, Res};
use crate::gen;
use crate::net::prefix_t;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::{Endianness, Readable, Writable};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::rc::Rc;

/// A value of some wire type, its encoding by the reference codec.
trait Case {
    fn name(&self) -> &'static str;
    fn en(&self) -> End;
    fn bytes(&self) -> &[u8];
    fn show(&self) -> String;
    fn write(&self, to: &mut dyn Write) -> Result<(), String>;
    fn to_vec(&self) -> Result<Vec<u8>, String>;
    /// Ok(Some(text)) if something else was read.
    fn read(&self, from: &mut dyn Read) -> Result<Option<String>, String>;
    fn read_buffer(&self, from: &[u8]) -> Result<Option<String>, String>;
    /// What these bytes say, if they say anything, and whether that is equal.
    fn read_near(&self, from: &[u8]) -> Option<(bool, bool, String)>;
    /// Also how many bytes were used.
    fn read_front(&self, from: &[u8]) -> (Result<Option<String>, String>, usize);
}

struct Of<T> {
    name: &'static str,
    v: T,
    /// What it reads back as, if that is not the same: padding stays.
    back: Option<T>,
    en: End,
    bytes: Vec<u8>,
}

impl<T> Of<T>
where
    T: Debug + PartialEq + Writable<Endianness>,
{
    fn same(&self, got: T) -> Option<String> {
        if got == *self.back.as_ref().unwrap_or(&self.v) {
            None
        } else {
            Some(format!("{:?}", got))
        }
    }
}

impl<T> Case for Of<T>
where
    T: Debug + PartialEq + Writable<Endianness> + for<'a> Readable<'a, Endianness>,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn en(&self) -> End {
        self.en
    }
    fn bytes(&self) -> &[u8] {
        &self.bytes
    }
    fn show(&self) -> String {
        format!("{:?}", self.v)
    }
    fn write(&self, to: &mut dyn Write) -> Result<(), String> {
        self.v
            .write_to_stream_with_ctx(endian(self.en), to)
            .map_err(|e| e.to_string())
    }
    fn to_vec(&self) -> Result<Vec<u8>, String> {
        self.v
            .write_to_vec_with_ctx(endian(self.en))
            .map_err(|e| e.to_string())
    }
    fn read(&self, from: &mut dyn Read) -> Result<Option<String>, String> {
        T::read_from_stream_unbuffered_with_ctx(endian(self.en), from)
            .map(|g| self.same(g))
            .map_err(|e| e.to_string())
    }
    fn read_buffer(&self, from: &[u8]) -> Result<Option<String>, String> {
        T::read_from_buffer_owned_with_ctx(endian(self.en), from)
            .map(|g| self.same(g))
            .map_err(|e| e.to_string())
    }
    fn read_near(&self, from: &[u8]) -> Option<(bool, bool, String)> {
        let (r, n) = T::read_with_length_from_buffer_with_ctx(endian(self.en), from);
        let got = r.ok()?;
        if n != from.len() {
            return None;
        }
        let v = self.back.as_ref().unwrap_or(&self.v);
        Some((got == *v, *v == got, format!("{:?}", got)))
    }
    fn read_front(&self, from: &[u8]) -> (Result<Option<String>, String>, usize) {
        let (r, n) = T::read_with_length_from_buffer_with_ctx(endian(self.en), from);
        (r.map(|g| self.same(g)).map_err(|e| e.to_string()), n)
    }
}

fn of<T>(name: &'static str, v: T, w: W) -> Box<dyn Case>
where
    T: Debug + PartialEq + Writable<Endianness> + for<'a> Readable<'a, Endianness> + 'static,
{
    Box::new(Of {
        name,
        v,
        back: None,
        en: w.e,
        bytes: w.b,
    })
}

fn i32_value(c: &mut Ctx) -> i32 {
    match c.draw(4) {
        3 => c.literal() as i32,
        0 => c.range(0, 1000) as i32,
        1 => c.pick(&[0, -1, i32::MAX, i32::MIN, 1 << 24, 256, 65536, -256]),
        _ => c.u32() as i32,
    }
}

fn u16_value(c: &mut Ctx) -> u16 {
    match c.draw(4) {
        0 => c.pick(&[0, 1, 7400, 0x7FFF, 0x8000, 0xFFFF, 0x3FFF, 0x4000]),
        1 | 2 => c.literal() as u16,
        _ => c.u16(),
    }
}

fn u32_value(c: &mut Ctx) -> u32 {
    i32_value(c) as u32
}

fn put_set(w: &mut W, m: &MSet, frag: bool) {
    let r = canonical(m);
    if frag {
        r.put_frag(w)
    } else {
        r.put_sn(w)
    }
}

/// The words a set is encoded in are those up to its largest number.
fn sn_case(c: &mut Ctx) -> MSet {
    let base = gen::sn_value(c);
    gen::mset(c, base, i64::MAX)
}

fn frag_case(c: &mut Ctx) -> MSet {
    let base = gen::frag_value(c) as i64;
    gen::mset(c, base, u32::MAX as i64)
}

fn real_set<T>(f: impl FnOnce() -> T) -> Res<T> {
    real("building a number set", f)
}

fn case(c: &mut Ctx) -> Res<Box<dyn Case>> {
    let mut w = W::new(if c.bool() { End::Le } else { End::Be });
    Ok(match c.draw(30) {
        0 => {
            let e = gen::ent_id(c);
            w.raw(&e);
            of("EntityId", ent(e), w)
        }
        1 => {
            let p = gen::prefix(c);
            w.raw(&p);
            of("GuidPrefix", prefix_t(p), w)
        }
        2 => {
            let p = gen::prefix(c);
            let e = gen::ent_id(c);
            w.raw(&p);
            w.raw(&e);
            of("GUID", crate::net::guid(p, e), w)
        }
        3 => {
            let v = gen::sn_value(c);
            w.sn(v);
            of("SequenceNumber", sn(v), w)
        }
        4 => {
            let v = gen::frag_value(c);
            w.u32(v);
            of("FragmentNumber", FragmentNumber_t::from(v), w)
        }
        5 => {
            let v = i32_value(c);
            w.i32(v);
            of("Count", Count_t::from(v), w)
        }
        6 => {
            let (s, f) = (i32_value(c), u32_value(c));
            w.i32(s);
            w.u32(f);
            of("Time", Time_t::sim_new(s, f), w)
        }
        7 => {
            let (s, f) = (i32_value(c), u32_value(c));
            w.i32(s);
            w.u32(f);
            of("Duration", Duration_t::sim_new(s, f), w)
        }
        8 => {
            let l = gen::mloc(c);
            w.loc(&l);
            of("Locator", loc(&l), w)
        }
        9 => {
            let n = c.many(0, 4, 100, 400);
            let ls: Vec<MLoc> = (0..n).map(|_| gen::mloc(c)).collect();
            w.u32(n as u32);
            for l in &ls {
                w.loc(l);
            }
            let v: LocatorList_t = ls.iter().map(loc).collect();
            of("LocatorList", v, w)
        }
        10 => {
            let a = u32::from_be_bytes(gen::ip4(c));
            let p = u16_value(c);
            w.u32(a);
            w.u32(p as u32);
            let v = real("making a UDPv4 locator", || {
                LocatorUDPv4_t::from(std::net::SocketAddrV4::new(a.into(), p))
            })?;
            of("LocatorUDPv4", v, w)
        }
        11 => {
            w.raw(b"RTPS");
            of("ProtocolId", ProtocolId_t::PROTOCOL_RTPS, w)
        }
        12 => {
            let (major, minor) = (c.u8(), c.u8());
            w.raw(&[major, minor]);
            of("ProtocolVersion", ProtocolVersion_t { major, minor }, w)
        }
        13 => {
            let v = gen::vendor(c);
            w.raw(&v);
            of("VendorId", VendorId_t::from(v), w)
        }
        14 => {
            let p = gen::prefix(c);
            let (major, minor) = (c.u8(), c.u8());
            let v = gen::vendor(c);
            w.raw(b"RTPS");
            w.raw(&[major, minor]);
            w.raw(&v);
            w.raw(&p);
            let h = Header {
                protocol_id: ProtocolId_t::PROTOCOL_RTPS,
                protocol_version: ProtocolVersion_t { major, minor },
                vendor_id: VendorId_t::from(v),
                guid_prefix: prefix_t(p),
            };
            of("Header", h, w)
        }
        15 => {
            // Its length follows its own flag, not the context.
            let (k, f, n) = (c.u8(), c.u8(), u16_value(c));
            w.raw(&[k, f]);
            if f & 1 == 1 {
                w.raw(&n.to_le_bytes());
            } else {
                w.raw(&n.to_be_bytes());
            }
            let h = SubmessageHeader {
                submessage_id: SubmessageKind::sim_new(k),
                flags: SubmessageFlag { flags: f },
                submessage_length: n,
            };
            of("SubmessageHeader", h, w)
        }
        16 => {
            let h: [u8; 16] = c.bytes();
            w.raw(&h);
            of("InstanceHandle", InstanceHandle_t { entity_key: h }, w)
        }
        17 => {
            let k = c.bool();
            w.u32(1 + k as u32);
            let v = if k {
                TopicKind_t::WITH_KEY
            } else {
                TopicKind_t::NO_KEY
            };
            of("TopicKind", v, w)
        }
        18 => {
            let k = c.bool();
            w.u32(1 + k as u32);
            let v = if k {
                ReliabilityKind_t::RELIABLE
            } else {
                ReliabilityKind_t::BEST_EFFORT
            };
            of("ReliabilityKind", v, w)
        }
        19 => {
            let k = c.pick(&[0, 1, 2, LOC_INVALID]);
            w.u32(k);
            of("LocatorKind", loc_kind(k), w)
        }
        20 => {
            let v = u16_value(c);
            w.u16(v);
            of("ParameterId", ParameterId::sim_new(v), w)
        }
        21 => {
            let id = u16_value(c);
            let n = match c.draw(6) {
                5 => c.many(0, 40, 16, 65532),
                0 => c.draw(4) * 4,
                1 => c.draw(20),
                2 => c.pick(&[63, 64, 65, 66, 255, 256, 257]),
                3 => c.draw(4),
                _ => 16,
            } as usize;
            let mut v = c.vec(n.min(300));
            v.resize(n, 0xA5);
            let mut padded = v.clone();
            padded.resize((n + 3) / 4 * 4, 0);
            w.u16(id);
            w.u16(padded.len() as u16);
            w.raw(&padded);
            Box::new(Of {
                name: "Parameter",
                v: Parameter::sim_new(ParameterId::sim_new(id), v),
                back: Some(Parameter::sim_new(ParameterId::sim_new(id), padded)),
                en: w.e,
                bytes: w.b,
            })
        }
        22 => {
            let m = sn_case(c);
            put_set(&mut w, &m, false);
            of("SequenceNumberSet", real_set(|| sn_set(&m))?, w)
        }
        23 => {
            let m = frag_case(c);
            put_set(&mut w, &m, true);
            of("FragmentNumberSet", real_set(|| frag_set(&m))?, w)
        }
        24 => {
            let (r, wr, m, n) = (gen::ent_id(c), gen::ent_id(c), sn_case(c), i32_value(c));
            w.raw(&r);
            w.raw(&wr);
            put_set(&mut w, &m, false);
            w.i32(n);
            let v = AckNack {
                reader_id: ent(r),
                writer_id: ent(wr),
                reader_sn_state: real_set(|| sn_set(&m))?,
                count: Count_t::from(n),
            };
            of("AckNack", v, w)
        }
        25 => {
            let (r, wr, s, m) = (gen::ent_id(c), gen::ent_id(c), gen::sn_value(c), sn_case(c));
            w.raw(&r);
            w.raw(&wr);
            w.sn(s);
            put_set(&mut w, &m, false);
            let v = Gap {
                reader_id: ent(r),
                writer_id: ent(wr),
                gap_start: sn(s),
                gap_list: real_set(|| sn_set(&m))?,
            };
            of("Gap", v, w)
        }
        26 => {
            let (r, wr, a, b, n) = (
                gen::ent_id(c),
                gen::ent_id(c),
                gen::sn_value(c),
                gen::sn_value(c),
                i32_value(c),
            );
            w.raw(&r);
            w.raw(&wr);
            w.sn(a);
            w.sn(b);
            w.i32(n);
            let v = Heartbeat {
                reader_id: ent(r),
                writer_id: ent(wr),
                first_sn: sn(a),
                last_sn: sn(b),
                count: Count_t::from(n),
            };
            of("Heartbeat", v, w)
        }
        27 => {
            let (r, wr, a, f, n) = (
                gen::ent_id(c),
                gen::ent_id(c),
                gen::sn_value(c),
                gen::frag_value(c),
                i32_value(c),
            );
            w.raw(&r);
            w.raw(&wr);
            w.sn(a);
            w.u32(f);
            w.i32(n);
            let v = HeartbeatFrag {
                reader_id: ent(r),
                writer_id: ent(wr),
                writer_sn: sn(a),
                last_fragment_num: FragmentNumber_t::from(f),
                count: Count_t::from(n),
            };
            of("HeartbeatFrag", v, w)
        }
        28 => {
            let (r, wr, a, m, n) = (
                gen::ent_id(c),
                gen::ent_id(c),
                gen::sn_value(c),
                frag_case(c),
                i32_value(c),
            );
            w.raw(&r);
            w.raw(&wr);
            w.sn(a);
            put_set(&mut w, &m, true);
            w.i32(n);
            let v = NackFrag {
                reader_id: ent(r),
                writer_id: ent(wr),
                writer_sn: sn(a),
                fragment_number_state: real_set(|| frag_set(&m))?,
                count: Count_t::from(n),
            };
            of("NackFrag", v, w)
        }
        _ => {
            let p = gen::prefix(c);
            if c.bool() {
                w.raw(&p);
                let v = InfoDestination {
                    guid_prefix: prefix_t(p),
                };
                of("InfoDestination", v, w)
            } else {
                let (major, minor) = (c.u8(), c.u8());
                let vid = gen::vendor(c);
                w.raw(&[major, minor]);
                w.raw(&vid);
                w.raw(&p);
                let v = InfoSource {
                    protocol_version: ProtocolVersion_t { major, minor },
                    vendor_id: VendorId_t::from(vid),
                    guid_prefix: prefix_t(p),
                };
                of("InfoSource", v, w)
            }
        }
    })
}

/// A pipe whose every operation may be cut short or interrupted.
struct Pipe {
    buf: VecDeque<u8>,
    /// Bytes it still takes, then it is full, for good or just once.
    room: usize,
    room_comes_back: bool,
    /// A read fails once after so many bytes.
    hiccup: Option<usize>,
    chunk: usize,
    /// The script of what happens next, drawn before the run, since the real
    /// code calls back without access to the run's source.
    script: Vec<u8>,
    at: usize,
    pub taken: usize,
    pub interrupted: u64,
    pub short: u64,
    pub full: u64,
    closed: bool,
}

impl Pipe {
    fn next(&mut self) -> u8 {
        if self.script.is_empty() {
            return 0;
        }
        let v = self.script[self.at % self.script.len()];
        self.at += 1;
        v
    }
}

#[derive(Clone)]
struct Ends(Rc<RefCell<Pipe>>);

impl Write for Ends {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        let v = p.next();
        if v == 3 {
            p.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(p.chunk);
        if v == 2 {
            n = 1;
        }
        if n < b.len() {
            p.short += 1;
        }
        if p.room < n {
            n = p.room;
        }
        if n == 0 {
            p.full += 1;
            if p.room_comes_back {
                p.room = usize::MAX;
            }
            return if v == 1 {
                Ok(0)
            } else {
                // ENOSPC
                Err(io::Error::from_raw_os_error(28))
            };
        }
        p.room -= n;
        p.buf.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Read for Ends {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut p = self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        let v = p.next();
        if v == 3 {
            p.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(p.chunk).min(p.buf.len());
        if v == 2 {
            n = n.min(1);
        }
        if let Some(at) = p.hiccup {
            n = n.min(at - p.taken);
            if n == 0 {
                p.hiccup = None;
                return Err(io::ErrorKind::TimedOut.into());
            }
        }
        if n == 0 {
            return if p.closed {
                Ok(0)
            } else {
                Err(io::ErrorKind::ConnectionReset.into())
            };
        }
        if n < b.len() {
            p.short += 1;
        }
        for x in b.iter_mut().take(n) {
            *x = p.buf.pop_front().unwrap();
        }
        p.taken += n;
        Ok(n)
    }
}

fn pipe(c: &mut Ctx) -> Ends {
    let n = c.pick(&[0usize, 8, 16]);
    let script: Vec<u8> = (0..n)
        .map(|i| {
            let v = c.draw(5) as u8;
            // Interruptions end: a script of nothing else would never return.
            if v == 3 && i % 2 == 1 {
                0
            } else {
                v
            }
        })
        .collect();
    Ends(Rc::new(RefCell::new(Pipe {
        buf: VecDeque::new(),
        room: usize::MAX,
        room_comes_back: false,
        hiccup: None,
        chunk: c.pick(&[usize::MAX, 1, 2, 3, 5]),
        script,
        at: 0,
        taken: 0,
        interrupted: 0,
        short: 0,
        full: 0,
        closed: true,
    })))
}

fn judge(k: &dyn Case, how: &str, r: Result<Option<String>, String>, from: &[u8]) -> Res<()> {
    match r {
        Ok(None) => Ok(()),
        Ok(Some(t)) => crate::ctx::violation(
            "decoded-differently",
            format!(
                "{} {} ({}, {:?}) read back {} is {}",
                k.name(),
                k.show(),
                hex(from),
                k.en(),
                how,
                t
            ),
        ),
        Err(e) => crate::ctx::violation(
            "not-decoded",
            format!(
                "{} {} ({}, {:?}) cannot be read back {}: {}",
                k.name(),
                k.show(),
                hex(from),
                k.en(),
                how,
                e
            ),
        ),
    }
}

pub fn c01(c: &mut Ctx) -> Res<()> {
    let n = c.range(1, 8);
    let mut cases: Vec<Box<dyn Case>> = vec![];
    for _ in 0..n {
        cases.push(case(c)?);
    }
    // The bytes themselves.
    for k in &cases {
        let b = real("encoding", || k.to_vec())?;
        c.compared += 1;
        c.ev(&[1, hash_bytes(k.bytes()), hash_bytes(k.name().as_bytes())]);
        ensure!(
            b.as_deref() == Ok(k.bytes()),
            "encoded-differently",
            "{} {} ({:?}) is {} on the wire, it was encoded as {:?}",
            k.name(),
            k.show(),
            k.en(),
            hex(k.bytes()),
            b.map(|b| hex(&b))
        );
    }
    // One after the other through a pipe.
    let p = pipe(c);
    let total: usize = cases.iter().map(|k| k.bytes().len()).sum();
    let mode = c.draw(6);
    if mode == 1 || mode == 3 {
        let mut b = p.0.borrow_mut();
        b.room = c.draw(total as u64 + 1) as usize;
        b.room_comes_back = mode == 3;
        c.fault(if mode == 1 { "sink_full" } else { "sink_full_once" });
    }
    let mut written = 0;
    for (i, k) in cases.iter().enumerate() {
        let mut to = p.clone();
        let r = real("encoding to a stream", || k.write(&mut to))?;
        c.compared += 1;
        let fits = p.0.borrow().full == 0;
        match r {
            Ok(()) => {
                ensure!(
                    fits,
                    "write-error-lost",
                    "{} {} reported as written to a full stream",
                    k.name(),
                    k.show()
                );
                written = i + 1;
            }
            Err(e) => {
                ensure!(
                    !fits,
                    "not-written",
                    "{} {} cannot be written: {}",
                    k.name(),
                    k.show(),
                    e
                );
                break;
            }
        }
    }
    {
        let p = p.0.borrow();
        let mut want: Vec<u8> = cases.iter().flat_map(|k| k.bytes().to_vec()).collect();
        let have: Vec<u8> = p.buf.iter().copied().collect();
        want.truncate(have.len());
        ensure!(
            have == want && (written < cases.len() || have.len() == total),
            "stream-content",
            "the stream holds {}, written was {}",
            hex(&have),
            hex(&want)
        );
    }
    // The reader's side: the connection may be cut anywhere.
    let mut cut = p.0.borrow().buf.len();
    if mode == 2 && cut > 0 {
        cut = c.draw(cut as u64) as usize;
        let mut b = p.0.borrow_mut();
        b.buf.truncate(cut);
        b.closed = c.bool();
        c.fault(if b.closed {
            "stream_closed_early"
        } else {
            "connection_reset"
        });
    }
    if mode == 4 && cut > 0 {
        // It holds everything, but one read in between fails.
        cut = c.draw(cut as u64) as usize;
        p.0.borrow_mut().hiccup = Some(cut);
        c.fault("read_timeout_once");
    }
    let mut at = 0;
    for k in &cases {
        let mut from = p.clone();
        let r = real("decoding from a stream", || k.read(&mut from))?;
        c.compared += 1;
        let all_there = at + k.bytes().len() <= cut;
        c.ev(&[2, at as u64, all_there as u64, r.is_ok() as u64]);
        if !all_there {
            ensure!(
                r.is_err(),
                "decoded-from-part",
                "{} of which only {} of {} bytes arrived was decoded",
                k.name(),
                cut - at,
                k.bytes().len()
            );
            break;
        }
        judge(k.as_ref(), "from a stream", r, k.bytes())?;
        at += k.bytes().len();
        let taken = p.0.borrow().taken;
        ensure!(
            taken == at,
            "consumed",
            "{} {} took {} bytes of the stream, it is {} long",
            k.name(),
            k.show(),
            taken + k.bytes().len() - at,
            k.bytes().len()
        );
    }
    {
        let p = p.0.borrow();
        for _ in 0..p.interrupted.min(20) {
            c.fault("interrupted_call");
        }
        for _ in 0..p.short.min(20) {
            c.fault("short_read_or_write");
        }
    }
    // From buffers: exact, too long, too short.
    for k in &cases {
        let b = k.bytes().to_vec();
        let r = real("decoding from a buffer", || k.read_buffer(&b))?;
        judge(k.as_ref(), "from a buffer", r, &b)?;
        let mut more = b.clone();
        let t = c.range(1, 9) as usize;
        let t = c.vec(t);
        more.extend(t);
        let (r, used) = real("decoding from a buffer", || k.read_front(&more))?;
        judge(k.as_ref(), "from a longer buffer", r, &more)?;
        ensure!(
            used == b.len(),
            "consumed",
            "{} took {} of the buffer {}, it is {} long",
            k.name(),
            used,
            hex(&more),
            b.len()
        );
        c.compared += 2;
        // Other bytes are another value, for all types whose every byte counts.
        let sets = ["SequenceNumberSet", "FragmentNumberSet", "AckNack", "Gap", "NackFrag"];
        if !b.is_empty() && !sets.contains(&k.name()) && c.bool() {
            let mut near = b.clone();
            let i = c.draw(b.len() as u64) as usize;
            near[i] = if c.bool() { c.u8() } else { b[i] ^ 1 << c.draw(8) };
            // A declared length may leave the padding out or not.
            let length = k.name() == "Parameter" && (i == 2 || i == 3);
            if near != b && !length {
                let got = real("decoding from a buffer", || k.read_near(&near))?;
                if let Some((there, back, text)) = got {
                    c.compared += 1;
                    c.probe("near_values_compared");
                    ensure!(
                        !there && !back,
                        "different-values-equal",
                        "{} {} ({}) equals {} ({})",
                        k.name(),
                        k.show(),
                        hex(&b),
                        text,
                        hex(&near)
                    );
                }
            }
        }
        if !b.is_empty() {
            c.fault("truncate");
            let short = &b[..c.draw(b.len() as u64) as usize];
            let r = real("decoding from a buffer", || k.read_buffer(short))?;
            c.compared += 1;
            ensure!(
                r.is_err(),
                "decoded-from-part",
                "{} was decoded from {}, a part of {}",
                k.name(),
                hex(short),
                hex(&b)
            );
        }
    }
    let storm = c.storm(60_000);
    if storm > 0 {
        // The same few values again and again.
        for i in 0..storm {
            let k = &cases[i as usize % cases.len()];
            let (b, back) = real("encoding and decoding", || {
                let b = k.to_vec();
                let back = k.read_buffer(k.bytes());
                (b, back)
            })?;
            c.compared += 1;
            ensure!(
                b.as_deref() == Ok(k.bytes()),
                "encoded-differently",
                "{} {} ({:?}) is {} on the wire, time {} of a row it was encoded as {:?}",
                k.name(),
                k.show(),
                k.en(),
                hex(k.bytes()),
                i,
                b.map(|b| hex(&b))
            );
            judge(k.as_ref(), "from a buffer, after many others", back, k.bytes())?;
        }
        c.ev(&[9, storm]);
    }
    // Values which do not exist.
    if c.chance(1, 4) {
        c.fault("unknown_discriminant");
        let en = if c.bool() { End::Le } else { End::Be };
        let mut w = W::new(en);
        let v = match c.draw(3) {
            0 => c.pick(&[3u32, 0x0100_0000, 0x0200_0000, 0xFFFF_FFFE, 0x7FFF_FFFF]),
            1 => c.range(3, 300) as u32,
            _ => c.u32(),
        };
        w.u32(v);
        let e = endian(en);
        let b = w.b.clone();
        if ![0, 1, 2, LOC_INVALID].contains(&v) {
            let r = real("decoding a locator kind", || {
                LocatorKind_t::read_from_buffer_owned_with_ctx(e, &b)
            })?;
            if let Ok(g) = r {
                fail!("nonsense-accepted", "locator kind {} was read as {:?}", v, g);
            }
            let mut w = W::new(en);
            w.u32(v);
            w.u32(7400);
            w.raw(&[1; 16]);
            let b = w.b;
            let r = real("decoding a locator", || {
                Locator_t::read_from_buffer_owned_with_ctx(e, &b)
            })?;
            if let Ok(g) = r {
                fail!("nonsense-accepted", "locator kind {} was read as {:?}", v, g);
            }
        }
        if ![1, 2].contains(&v) {
            let r = real("decoding a topic kind", || {
                TopicKind_t::read_from_buffer_owned_with_ctx(e, &b)
            })?;
            if let Ok(g) = r {
                fail!("nonsense-accepted", "topic kind {} was read as {:?}", v, g);
            }
        }
    }
    // Header validity: the protocol, and no later major version.
    if c.chance(1, 2) {
        let mut id = *b"RTPS";
        if c.bool() {
            id[c.draw(4) as usize] = c.u8();
        }
        let (major, minor) = (c.pick(&[2u8, 0, 1, 3, 255]), c.u8());
        let mut m = vec![];
        put_header(&mut m, id, (major, minor), [0, 0], [1; 12]);
        let valid = real("validating a header", || {
            Header::read_from_buffer_owned_with_ctx(Endianness::BigEndian, &m)
                .map(|h| h.valid())
                .unwrap_or(false)
        })?;
        c.compared += 1;
        let want = id == *b"RTPS" && major <= 2;
        ensure!(
            valid == want,
            "header-validity",
            "header {} valid: {}",
            hex(&m),
            valid
        );
    }
    // Time passes in steps of the pipe.
    c.sim_ns += (p.0.borrow().at as u64 + 1) * 1000;
    Ok(())
}
