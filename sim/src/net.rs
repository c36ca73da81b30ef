//! The unreliable datagram network the scenarios share, and sending with the
//! real encoders.

use crate::conv::*;
use crate::ctx::{real, Ctx, Res};
use crate::sched::*;
use crate::wire::{End, Prefix};
use bytes::BytesMut;
use rtps_rs::sim::*;
use speedy::Writable;
use tokio_util::codec::Decoder;

pub struct Link {
    pub loss: u64,
    pub dup: u64,
    /// Additional delay of up to so much, which also reorders.
    pub jitter: u64,
}

impl Link {
    pub fn swarm(c: &mut Ctx) -> Link {
        Link {
            loss: c.pick(&[0, 0, 2, 6]),
            dup: c.pick(&[0, 0, 2, 6]),
            jitter: c.pick(&[0, 10 * MS, 80 * MS]),
        }
    }

    pub fn good() -> Link {
        Link {
            loss: 0,
            dup: 0,
            jitter: 0,
        }
    }

    /// When the copies of a datagram sent now arrive.
    pub fn arrivals(&self, c: &mut Ctx) -> Vec<u64> {
        let mut n = 1;
        if c.chance(self.loss, 16) {
            c.fault("loss");
            n = 0;
        } else if c.chance(self.dup, 16) {
            c.fault("duplicate");
            n = 2;
        }
        let mut v = vec![];
        for _ in 0..n {
            let mut d = MS;
            if self.jitter > 0 && c.bool() {
                c.fault("delay");
                d += c.draw(self.jitter / (100 * US)) * 100 * US;
            }
            v.push(d);
        }
        v
    }
}

pub fn prefix_t(p: Prefix) -> GuidPrefix_t {
    GuidPrefix_t::from(p)
}

pub fn put_real_header(out: &mut Vec<u8>, p: Prefix) -> Res<()> {
    let b = real("encoding a message header", || {
        Header::new(prefix_t(p))
            .write_to_vec_with_ctx(speedy::Endianness::LittleEndian)
            .unwrap()
    })?;
    out.extend(b);
    Ok(())
}

pub fn put_real_sub(out: &mut Vec<u8>, kind: u8, flags: u8, body: &[u8]) -> Res<()> {
    let b = real("encoding a submessage header", || {
        let mut f = SubmessageFlag { flags: 0 };
        f.set_flag(0xFF);
        f.clear_flag(!flags);
        f.set_flag(flags);
        let e = f.endianness_flag();
        SubmessageHeader {
            submessage_id: SubmessageKind::sim_new(kind),
            flags: f,
            submessage_length: body.len() as u16,
        }
        .write_to_vec_with_ctx(e)
        .unwrap()
    })?;
    out.extend(b);
    out.extend_from_slice(body);
    Ok(())
}

pub fn flag_of(e: End) -> u8 {
    match e {
        End::Le => 1,
        End::Be => 0,
    }
}

/// One datagram through a real receiver: what comes out, and the reply state
/// in force for each.
pub fn receive<T>(
    rx: &mut MessageReceiver,
    bytes: &[u8],
    mut with: impl FnMut(EntitySubmessage, &Receiver) -> Res<T>,
) -> Res<(Vec<T>, Option<String>)> {
    let mut rd = BytesMut::from(bytes);
    let mut out = vec![];
    for _ in 0..bytes.len() + 8 {
        match real("decoding a datagram", || rx.decode_eof(&mut rd))? {
            Ok(Some(e)) => out.push(with(e, rx.sim_receiver())?),
            Ok(None) => return Ok((out, None)),
            Err(e) => return Ok((out, Some(e.to_string()))),
        }
    }
    crate::fail!(
        "no-progress",
        "the receiver keeps producing without end on {}",
        crate::ctx::hex(bytes)
    )
}

pub fn guid(p: Prefix, e: [u8; 4]) -> GUID_t {
    GUID_t {
        guid_prefix: prefix_t(p),
        entity_id: ent(e),
    }
}
