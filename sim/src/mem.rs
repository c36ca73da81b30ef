//! Memory: what a receiver may take while it decodes, and what it may keep.

use crate::alloc;
use crate::choice::splitmix;
use crate::ctx::{hash_bytes, hex, real, Ctx, Res};
use crate::gen::{self, GenCfg};
use crate::recv::{corrupt, new_rx};
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use bytes::BytesMut;
use rtps_rs::sim::MessageReceiver;
use tokio_util::codec::Decoder;

/// A datagram whose counts promise far more than it holds.
fn hostile(c: &mut Ctx, p: Prefix) -> Vec<u8> {
    let mut m = vec![];
    put_header(&mut m, *b"RTPS", (2, 4), [0, 0], p);
    let n = c.range(1, 4);
    for _ in 0..n {
        let f = c.draw(2) as u8;
        let mut w = W::new(if f & 1 == 1 { End::Le } else { End::Be });
        let count = match c.draw(4) {
            0 => c.pick(&[
                0xFFFF_FFFFu32,
                0x7FFF_FFFF,
                0x1000_0000,
                0x0100_0000,
                0x0010_0000,
                0x0001_0000,
            ]),
            1 => c.range(257, 100_000) as u32,
            2 => 1 << c.draw(32),
            _ => c.u32(),
        };
        let kind = match c.draw(4) {
            0 => {
                c.fault("locator_count");
                w.u32(count);
                for _ in 0..c.draw(3) {
                    let l = gen::mloc(c);
                    w.loc(&l);
                }
                INFO_REPLY
            }
            1 => {
                c.fault("locator_count");
                w.u32(0);
                w.u32(count);
                INFO_REPLY
            }
            2 => {
                c.fault("bit_count");
                w.raw(&[0; 8]);
                w.sn(1);
                w.u32(count);
                for _ in 0..c.draw(12) {
                    w.u32(c.u32());
                }
                ACKNACK
            }
            _ => {
                c.fault("bit_count");
                w.raw(&[0; 8]);
                w.sn(1);
                w.u32(1);
                w.u32(count);
                for _ in 0..c.draw(12) {
                    w.u32(c.u32());
                }
                NACK_FRAG
            }
        };
        let f = if kind == INFO_REPLY { f | 2 } else { f };
        put_sub(&mut m, kind, f, w.b.len() as u16, &w.b);
    }
    m
}

/// Takes everything out of one datagram; the most memory in use on the way.
fn drain(rx: &mut MessageReceiver, rd: &mut BytesMut, limit: usize) -> Res<(u64, usize)> {
    let mut items = 0;
    let mut worst = 0i64;
    let mut polls = 0;
    loop {
        polls += 1;
        let at = alloc::start();
        let r = real("decoding a datagram", || rx.decode_eof(rd))?;
        worst = worst.max(alloc::peak_since(at));
        match r {
            Ok(None) => break,
            Ok(Some(_)) => items += 1,
            Err(_) => {}
        }
        if polls > limit {
            fail!("no-progress", "the receiver produces without end");
        }
    }
    Ok((items, worst as usize))
}

/// One small datagram of a flood, all of it out of one draw: hardly one is like
/// another in who sends it and what it says.
fn flood(seed: u64) -> Vec<u8> {
    let mut st = seed;
    let mut r = move |n: u64| splitmix(&mut st) % n;
    let mut p = [0u8; 12];
    for x in p.iter_mut().skip(4 * r(3) as usize) {
        *x = r(256) as u8;
    }
    let mut m = vec![];
    put_header(&mut m, *b"RTPS", (2, r(256) as u8), [r(256) as u8, r(4) as u8], p);
    for _ in 0..1 + r(12) {
        let le = r(2) as u8;
        let mut flags = (r(256) as u8 & 0xfe) | le;
        let mut w = W::new(if le == 1 { End::Le } else { End::Be });
        let mut junk = |w: &mut W, n: u64| {
            for _ in 0..n {
                w.raw(&[r(256) as u8]);
            }
            r(256)
        };
        let kind = match junk(&mut w, 0) % 11 {
            0 => {
                junk(&mut w, 28);
                HEARTBEAT
            }
            1 => {
                junk(&mut w, 24);
                HEARTBEAT_FRAG
            }
            2 => {
                junk(&mut w, 16);
                w.u32(32);
                junk(&mut w, 8);
                ACKNACK
            }
            3 => {
                junk(&mut w, 20);
                INFO_SRC
            }
            4 => {
                junk(&mut w, 12);
                INFO_DST
            }
            5 => {
                w.u32(1);
                w.u32(1);
                junk(&mut w, 20);
                flags &= 0xfd;
                INFO_REPLY
            }
            6 => {
                junk(&mut w, 8);
                INFO_TS
            }
            7 => {
                junk(&mut w, 6);
                w.raw(&[0; 2]);
                junk(&mut w, 8);
                INFO_REPLY_IP4
            }
            8 => {
                junk(&mut w, 24);
                w.u32(40);
                junk(&mut w, 8);
                GAP
            }
            9 => {
                junk(&mut w, 20);
                w.u32(7);
                junk(&mut w, 8);
                NACK_FRAG
            }
            _ => {
                let n = junk(&mut w, 4) % 29;
                let k = junk(&mut w, n) as u8;
                // Neither defined nor unimplemented ones.
                if k < 0x20 {
                    k | 0x80
                } else {
                    k
                }
            }
        };
        put_sub(&mut m, kind, flags, w.b.len() as u16, &w.b);
    }
    if r(8) == 0 {
        let n = r(m.len() as u64) as usize;
        m.truncate(n);
    }
    m
}

/// One of many large datagrams, out of one draw.
fn bulk(seed: u64) -> Vec<u8> {
    let mut st = seed;
    let mut r = move |n: u64| splitmix(&mut st) % n;
    let mut p = [7u8; 12];
    p[11] = r(256) as u8;
    let mut m = vec![];
    put_header(&mut m, *b"RTPS", (2, 1), [1, r(4) as u8], p);
    // One large submessage, or several which fill a datagram.
    let parts = if r(2) == 0 { 1 } else { 1 + r(6) };
    let size = |r: &mut dyn FnMut(u64) -> u64| match r(3) {
        0 => 65_535 - r(600),
        _ => 40_000 + r(25_000),
    } / parts;
    for i in 0..parts {
        let le = r(2) as u8;
        let mut w = W::new(if le == 1 { End::Le } else { End::Be });
        let n = size(&mut r) as usize;
        let (kind, flags) = match r(5) {
            0 | 1 => (0x80 | r(128) as u8, r(256) as u8 & 0xfe),
            2 => (PAD, 0),
            3 => {
                let k = (n / 24).saturating_sub(1) as u32;
                w.u32(k);
                for j in 0..k {
                    w.u32(1);
                    w.u32(j);
                    w.raw(&[j as u8; 16]);
                }
                (INFO_REPLY, 0)
            }
            _ => {
                w.raw(&[0, 0, 1, 4, 0, 0, 2, 3]);
                w.sn(1);
                w.sn(9);
                w.u32(i as u32);
                (HEARTBEAT, 0)
            }
        };
        let fill = r(256) as u8;
        w.b.resize(n.max(w.b.len()), fill);
        let last = i + 1 == parts && kind != PAD;
        let len = if last && r(4) == 0 { 0 } else { w.b.len() as u16 };
        put_sub(&mut m, kind, flags | le, len, &w.b);
    }
    if r(8) == 0 {
        let n = r(m.len() as u64) as usize;
        m.truncate(n);
    }
    m
}

pub fn m07(c: &mut Ctx) -> Res<()> {
    let mut cfg = GenCfg::plain(c);
    cfg.max_subs = c.pick(&[4, 10, 20]);
    cfg.w = [4, 1, 1, 3, 1, 1, 1, 1, 0];
    cfg.big = c.pick(&[0, 0, 1]);
    let kind = LOC_INVALID;
    let flooded = c.chance(1, 500);
    let long = flooded || c.chance(1, 64);
    let storm = if flooded { c.storm(40) } else { 0 };
    let large = !flooded && c.chance(1, 1000);
    let n = if large {
        c.range(4, 90)
    } else if storm > 0 {
        storm
    } else if flooded {
        c.range(2000, 6000)
    } else if long {
        c.range(200, 600)
    } else {
        c.range(1, 8)
    };
    let streaming = c.chance(1, 3);
    let hostile_rate = c.pick(&[4, 0, 8, 15]);
    let corrupt_rate = c.pick(&[0, 4, 8]);
    let mut now = 0;
    let mut rx = new_rx(kind)?;
    let mut previous = vec![];
    let mut biggest = 0usize;
    // What decoding took and did not give back, in the receiver or elsewhere.
    let mut held = 0i64;
    for i in 0..n {
        let mut m;
        if large {
            c.fault("large_datagram");
            now += MS;
            m = bulk(c.draw(1 << 63));
        } else if flooded {
            now += MS;
            m = flood(c.draw(1 << 63));
        } else {
            now += c.draw(20) * MS;
            let p = gen::prefix(c);
            m = if c.chance(hostile_rate, 16) {
                hostile(c, p)
            } else {
                let h = gen::header(c, p);
                gen::message(c, &cfg, &h)?
            };
        }
        if !flooded && !large && c.chance(corrupt_rate, 16) {
            let v = corrupt(c, &m, &previous);
            if !has_data(&v, 0) {
                m = v;
            }
        }
        c.ev(&[now, hash_bytes(&m)]);
        c.note(|| format!("datagram {} {}", i, hex(&m)));
        biggest = biggest.max(m.len());
        let bound = 16 * m.len() + 16 * 1024;
        let worst;
        let step = if streaming && large {
            4096
        } else if streaming && !flooded {
            c.range(1, 97) as usize
        } else {
            0
        };
        let before = alloc::live();
        if step > 0 {
            // The same bytes in small pieces, nothing complete for long.
            let mut rd = BytesMut::new();
            let mut w = 0usize;
            let mut dead = false;
            for part in m.chunks(step) {
                rd.extend_from_slice(part);
                loop {
                    let at = alloc::start();
                    let rx = &mut rx;
                    let rd = &mut rd;
                    let r = real("decoding a stream", || rx.decode(rd))?;
                    w = w.max(alloc::peak_since(at) as usize);
                    match r {
                        Ok(Some(_)) => {}
                        Ok(None) => break,
                        Err(_) => {
                            dead = true;
                            break;
                        }
                    }
                }
                if dead {
                    break;
                }
            }
            let (_, w2) = drain(&mut rx, &mut rd, m.len() + 8)?;
            worst = w.max(w2);
        } else {
            let mut rd = BytesMut::from(&m[..]);
            worst = drain(&mut rx, &mut rd, m.len() + 8)?.1;
        }
        held += alloc::live() - before;
        let allowed = (4 * biggest + 16 * 1024) as i64;
        ensure!(
            held <= allowed,
            "memory-kept",
            "after {} datagrams of at most {} bytes the receiver keeps {} bytes (allowed {})",
            i + 1,
            biggest,
            held,
            allowed
        );
        c.compared += 1;
        ensure!(
            worst <= bound,
            "memory-while-decoding",
            "{} bytes of memory were taken for a datagram of {} bytes (allowed {}): {}",
            worst,
            m.len(),
            bound,
            hex(&m[..m.len().min(400)])
        );
        previous = m;
        previous.shrink_to_fit();
    }
    drop(rx);
    if long {
        c.probe("long_history");
    }
    if large {
        c.probe("many_large_datagrams");
    }
    if flooded {
        c.probe("flood_of_different_datagrams");
    }
    c.sim_ns += now;
    Ok(())
}
