//! The same decoder behind byte streams: `tokio_util::codec::FramedRead` over a
//! simulated socket, and by hand over a growing buffer.  When bytes arrive, in
//! which pieces, when the task is polled, when a connection ends or breaks is
//! drawn from the run's source.

use crate::conv::{loc_kind, m_ctx, m_entity};
use crate::ctx::{hash_bytes, hex, real, Ctx, Res};
use crate::fail;
use crate::gen::{self, GenCfg};
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use bytes::BytesMut;
use futures_core::Stream;
use rtps_rs::sim::{EntitySubmessage, MessageReceiver};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, ReadBuf};
use tokio_util::codec::{Decoder, FramedRead};

/// A socket: what has arrived and not been read, and how it ends.
pub struct Sock {
    arrived: VecDeque<u8>,
    max_read: usize,
    eof: bool,
    reset: bool,
    read: usize,
}

impl AsyncRead for Sock {
    fn poll_read(
        mut self: Pin<&mut Self>,
        _cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        if self.arrived.is_empty() {
            if self.reset {
                self.reset = false;
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if self.eof {
                // One end of stream per connection.
                self.eof = false;
                return Poll::Ready(Ok(()));
            }
            return Poll::Pending;
        }
        let n = buf.remaining().min(self.max_read).min(self.arrived.len());
        let part: Vec<u8> = self.arrived.drain(..n).collect();
        buf.put_slice(&part);
        self.read += n;
        Poll::Ready(Ok(()))
    }
}

enum Task {
    Framed(Box<FramedRead<Sock, MessageReceiver>>),
    Manual {
        rx: MessageReceiver,
        rd: BytesMut,
        sock: Sock,
        ending: bool,
        errored: bool,
    },
}

#[derive(Debug)]
enum Got {
    Item(EntitySubmessage),
    Err(io::Error),
    End,
    Pending,
}

impl Task {
    fn sock(&mut self) -> &mut Sock {
        match self {
            Task::Framed(f) => f.get_mut(),
            Task::Manual { sock, .. } => sock,
        }
    }

    fn rx(&self) -> &MessageReceiver {
        match self {
            Task::Framed(f) => f.decoder(),
            Task::Manual { rx, .. } => rx,
        }
    }

    fn poll(&mut self, extra: bool) -> Got {
        let mut cx = Context::from_waker(Waker::noop());
        match self {
            Task::Framed(f) => match Pin::new(&mut **f).poll_next(&mut cx) {
                Poll::Pending => Got::Pending,
                Poll::Ready(None) => Got::End,
                Poll::Ready(Some(Ok(i))) => Got::Item(i),
                Poll::Ready(Some(Err(e))) => Got::Err(e),
            },
            Task::Manual {
                rx,
                rd,
                sock,
                ending,
                errored,
            } => {
                if *errored {
                    *errored = false;
                    *ending = false;
                    return Got::End;
                }
                loop {
                    let r = if *ending {
                        rx.decode_eof(rd)
                    } else {
                        rx.decode(rd)
                    };
                    match r {
                        Ok(Some(i)) => return Got::Item(i),
                        Err(e) => {
                            *errored = true;
                            return Got::Err(e);
                        }
                        Ok(None) if *ending => {
                            *ending = false;
                            return Got::End;
                        }
                        Ok(None) => {}
                    }
                    if extra {
                        // Asking again without new bytes changes nothing.
                        if let Ok(Some(i)) = rx.decode(rd) {
                            return Got::Item(i);
                        }
                    }
                    if !sock.arrived.is_empty() {
                        let n = sock.max_read.min(sock.arrived.len());
                        let part: Vec<u8> = sock.arrived.drain(..n).collect();
                        rd.extend_from_slice(&part);
                        sock.read += n;
                    } else if sock.reset {
                        sock.reset = false;
                        *errored = true;
                        return Got::Err(io::ErrorKind::ConnectionReset.into());
                    } else if sock.eof {
                        sock.eof = false;
                        *ending = true;
                    } else {
                        return Got::Pending;
                    }
                }
            }
        }
    }
}

enum Ev {
    /// The next piece of the message arrives at this connection.
    Piece(usize),
    Poll(usize),
    Kill(usize),
}

struct Conn {
    task: Task,
    kind: u32,
    left: u64,
    /// The message of the current connection, as it will arrive.
    bytes: Vec<u8>,
    sent: usize,
    exp: Expect,
    next: usize,
    errs: usize,
    resets: bool,
    ended: bool,
    chunk: u64,
    start: usize,
    polls: usize,
}

fn task(c: &mut Ctx, kind: u32) -> Res<Task> {
    let rx = new_rx(kind)?;
    let sock = Sock {
        arrived: VecDeque::new(),
        max_read: c.pick(&[65536usize, 1, 2, 3, 7, 20, 64]),
        eof: false,
        reset: false,
        read: 0,
    };
    let _ = loc_kind(kind);
    Ok(if c.draw(3) < 2 {
        let cap = c.pick(&[8192usize, 0, 1, 16, 64]);
        Task::Framed(Box::new(FramedRead::with_capacity(sock, rx, cap)))
    } else {
        c.probe("decoder_driven_by_hand");
        Task::Manual {
            rx,
            rd: BytesMut::new(),
            sock,
            ending: false,
            errored: false,
        }
    })
}

fn next_message(c: &mut Ctx, n: &mut Conn, cfg: &GenCfg) -> Res<()> {
    let p = gen::prefix(c);
    let h = gen::header(c, p);
    let mut m = gen::message(c, cfg, &h)?;
    n.resets = false;
    match c.draw(8) {
        0 => {
            c.fault("connection_closed_inside_message");
            let at = c.draw(m.len() as u64) as usize;
            m.truncate(at);
        }
        1 => {
            c.fault("connection_reset");
            n.resets = true;
            let at = c.draw(m.len() as u64 + 1) as usize;
            m.truncate(at);
        }
        2 => {
            c.fault("byte_overwrite");
            let at = c.draw(m.len() as u64) as usize;
            let mut v = m.clone();
            v[at] = c.u8();
            if !has_data(&v, 0) {
                m = v;
            }
        }
        _ => {}
    }
    if m.len() > 20 && c.chance(1, 2000) {
        // A stream has no bound of its own on a message.
        c.probe("message_longer_than_a_datagram");
        let want = c.range(60_000, 300_000) as usize;
        let subs = m[20..].to_vec();
        let mut v = m.clone();
        while v.len() < want {
            v.extend_from_slice(&subs);
        }
        // What was cut short above may now read on as anything.
        if !has_data(&v, 0) {
            m = v;
            n.task.sock().max_read = 65536;
        }
    }
    n.exp = expect(&m, n.kind);
    n.bytes = m;
    n.sent = 0;
    n.next = 0;
    n.errs = 0;
    n.polls = 0;
    n.ended = false;
    n.chunk = c
        .pick(&[4096, 1, 2, 5, 13, 40, 1 << 20])
        .max(n.bytes.len() as u64 / 300);
    n.start = n.task.sock().read;
    Ok(())
}

/// One task, to which one peer after another connects for one message.
fn many_connections(c: &mut Ctx, cfg: &GenCfg, n: u64) -> Res<()> {
    let mut small = cfg.clone();
    small.max_subs = 3;
    small.big = 0;
    let p = gen::prefix(c);
    let h = gen::header(c, p);
    let m = gen::message(c, &small, &h)?;
    if m.len() > 1000 {
        return Ok(());
    }
    let kind = LOC_UDP4;
    let exp = expect(&m, kind);
    if exp.outcome != Outcome::Complete {
        return Ok(());
    }
    let mut t = task(c, kind)?;
    t.sock().max_read = 65536;
    // All at once, or in two pieces.
    let at = if c.bool() { c.draw(m.len() as u64) as usize } else { 0 };
    for k in 0..n {
        let mut next = 0;
        for (part, last) in [(&m[..at], false), (&m[at..], true)] {
            t.sock().arrived.extend(part);
            t.sock().eof = last;
            loop {
                let got = real("polling the framed stream", || t.poll(false))?;
                match got {
                    Got::Item(e) => {
                        c.compared += 1;
                        let ctx = m_ctx(t.rx().sim_receiver());
                        let ent = m_entity(e)?;
                        let fine = exp
                            .items
                            .get(next)
                            .map_or(false, |w| w.ent == ent && w.ctx == ctx);
                        if !fine {
                            fail!(
                                "wrong-item",
                                "connection {} of a row: item {} is {:?} under {:?}, on a stream carrying {}",
                                k,
                                next,
                                ent,
                                ctx,
                                hex(&m)
                            );
                        }
                        next += 1;
                    }
                    Got::Err(e) => fail!(
                        "spurious-error",
                        "connection {} of a row: \"{}\" on a stream carrying {}",
                        k,
                        e,
                        hex(&m)
                    ),
                    Got::Pending if last => fail!(
                        "no-end",
                        "connection {} of a row: the end is never reported on {}",
                        k,
                        hex(&m)
                    ),
                    Got::Pending => break,
                    Got::End if !last => fail!(
                        "lost-items",
                        "connection {} of a row ends too early on {}",
                        k,
                        hex(&m)
                    ),
                    Got::End => break,
                }
            }
        }
        if next != exp.items.len() {
            fail!(
                "lost-items",
                "connection {} of a row: {} of {} items came out of {}",
                k,
                next,
                exp.items.len(),
                hex(&m)
            );
        }
    }
    c.ev(&[9, n]);
    Ok(())
}

/// How many items must have come out once `have` bytes have been read.
fn due(n: &Conn, have: usize) -> usize {
    n.exp
        .items
        .iter()
        .filter(|i| !i.open_ended && i.end <= have)
        .count()
}

pub fn m06(c: &mut Ctx) -> Res<()> {
    let mut cfg = GenCfg::plain(c);
    cfg.max_subs = c.pick(&[3, 6, 10]);
    cfg.w[6] = 1;
    cfg.w[7] = 1;
    cfg.trailing = c.pick(&[0, 3]);
    cfg.odd = c.pick(&[0, 0, 3]);
    cfg.zero_last = c.pick(&[1, 4]);
    cfg.big = c.pick(&[0, 0, 0, 1]);
    let conns_n = c.range(1, 3) as usize;
    let mut q: Queue<Ev> = Queue::new();
    let mut conns: Vec<Conn> = vec![];
    for i in 0..conns_n {
        let kind = c.pick(&[LOC_INVALID, LOC_UDP4]);
        let mut n = Conn {
            task: task(c, kind)?,
            kind,
            left: c.many(1, 3, 300, 60),
            bytes: vec![],
            sent: 0,
            exp: expect(&[], kind),
            next: 0,
            errs: 0,
            resets: false,
            ended: false,
            chunk: 1,
            start: 0,
            polls: 0,
        };
        next_message(c, &mut n, &cfg)?;
        conns.push(n);
        q.at(c.draw(20) * MS, Ev::Piece(i));
    }
    if c.chance(1, 4) {
        let i = c.draw(conns_n as u64) as usize;
        let t = c.draw(60) * MS;
        q.at(t, Ev::Kill(i));
    }
    let storm = c.storm(10_000);
    if storm > 0 {
        many_connections(c, &cfg, storm)?;
    }
    let mut steps = 0u64;
    while let Some(ev) = q.pop() {
        steps += 1;
        if steps > 2_000_000 {
            fail!("no-progress", "the run does not come to an end");
        }
        match ev {
            Ev::Piece(i) => {
                let n = &mut conns[i];
                if n.ended {
                    continue;
                }
                let left = n.bytes.len() - n.sent;
                if left > 0 {
                    let k = (c.range(1, n.chunk) as usize).min(left);
                    if k < left {
                        c.fault("short_delivery");
                    }
                    let part: Vec<u8> = n.bytes[n.sent..n.sent + k].to_vec();
                    n.task.sock().arrived.extend(part);
                    n.sent += k;
                }
                if n.sent == n.bytes.len() {
                    if n.resets {
                        n.task.sock().reset = true;
                    } else {
                        n.task.sock().eof = true;
                    }
                    n.ended = true;
                }
                c.ev(&[q.now, i as u64, n.sent as u64]);
                if !n.ended {
                    let d = c.draw(3) * MS;
                    q.after(d, Ev::Piece(i));
                }
                if n.ended || !c.chance(1, 3) {
                    q.after(0, Ev::Poll(i));
                } else {
                    c.fault("stalled_task");
                }
            }
            Ev::Kill(i) => {
                // The process dies; a new one starts over on a new connection.
                c.fault("receiver_restart");
                let n = &mut conns[i];
                if n.left == 0 {
                    continue;
                }
                n.task = task(c, n.kind)?;
                next_message(c, n, &cfg)?;
                q.after(MS, Ev::Piece(i));
            }
            Ev::Poll(i) => {
                let n = &mut conns[i];
                if n.left == 0 {
                    continue;
                }
                if c.chance(1, 8) {
                    // The application is busy with something else.
                    q.after(MS, Ev::Poll(i));
                    continue;
                }
                let extra = c.chance(1, 4);
                let what = |n: &Conn| {
                    format!(
                        "a stream carrying {} ({} of {} bytes read)",
                        hex(&n.bytes),
                        0,
                        n.bytes.len()
                    )
                };
                loop {
                    n.polls += 1;
                    if n.polls > 4 * n.bytes.len() + n.exp.items.len() + 64 {
                        fail!("no-progress", "polling without end on {}", what(n));
                    }
                    let t = &mut n.task;
                    let got = match real("polling the framed stream", || t.poll(extra)) {
                        Ok(g) => g,
                        Err(v) => fail!("panic", "{} on {}", v.msg, what(n)),
                    };
                    let have = n.task.sock().read - n.start;
                    let open = matches!(n.exp.outcome, Outcome::Unspecified(_));
                    match got {
                        Got::Item(e) => {
                            c.compared += 1;
                            let ctx = m_ctx(n.task.rx().sim_receiver());
                            let ent = m_entity(e)?;
                            c.ev(&[i as u64, 1, hash_bytes(format!("{:?}", ent).as_bytes())]);
                            c.note(|| format!("connection {}: {:?} after {} bytes", i, ent, have));
                            if n.errs > 0 {
                                fail!("item-after-error", "{:?} on {}", ent, what(n));
                            }
                            match n.exp.items.get(n.next) {
                                None if open => {}
                                None => fail!(
                                    "extra-item",
                                    "{:?} beyond the {} items of {}",
                                    ent,
                                    n.exp.items.len(),
                                    what(n)
                                ),
                                Some(w) => {
                                    if w.ent != ent {
                                        fail!(
                                            "wrong-item",
                                            "item {}: expected {:?}, got {:?}, on {}",
                                            n.next,
                                            w.ent,
                                            ent,
                                            what(n)
                                        );
                                    }
                                    if w.ctx != ctx {
                                        fail!(
                                            "wrong-context",
                                            "item {}: expected {:?}, got {:?}, on {}",
                                            n.next,
                                            w.ctx,
                                            ctx,
                                            what(n)
                                        );
                                    }
                                }
                            }
                            n.next += 1;
                        }
                        Got::Err(e) => {
                            c.compared += 1;
                            c.ev(&[i as u64, 2]);
                            c.note(|| format!("connection {}: {} after {} bytes", i, e, have));
                            if n.next < due(n, have) {
                                fail!(
                                    "lost-before-damage",
                                    "\"{}\" after {} of {} items of {}",
                                    e,
                                    n.next,
                                    due(n, have),
                                    what(n)
                                );
                            }
                            n.errs += 1;
                            if !n.resets && n.exp.outcome == Outcome::Complete {
                                fail!("spurious-error", "\"{}\" on {}", e, what(n));
                            }
                            if n.resets || !n.ended || !n.task.sock().arrived.is_empty() {
                                // The application gives this connection up.
                                n.left -= 1;
                                if n.left > 0 {
                                    n.task = task(c, n.kind)?;
                                    next_message(c, n, &cfg)?;
                                    q.after(MS, Ev::Piece(i));
                                }
                                break;
                            }
                        }
                        Got::Pending => {
                            c.compared += 1;
                            if n.next < due(n, have) {
                                fail!(
                                    "late-item",
                                    "{} bytes hold {} complete items, {} came out, on {}",
                                    have,
                                    due(n, have),
                                    n.next,
                                    what(n)
                                );
                            }
                            if n.ended && n.errs == 0 {
                                // Pending although the end has arrived.
                                fail!("no-end", "the end is never reported on {}", what(n));
                            }
                            break;
                        }
                        Got::End => {
                            c.compared += 1;
                            c.ev(&[i as u64, 3, n.next as u64]);
                            if n.next < n.exp.items.len() {
                                fail!(
                                    "lost-items",
                                    "{} of {} items came out of {}",
                                    n.next,
                                    n.exp.items.len(),
                                    what(n)
                                );
                            }
                            let damaged =
                                matches!(n.exp.outcome, Outcome::Damaged(_) | Outcome::Rejected);
                            if damaged && n.errs == 0 {
                                fail!("silent-damage", "no error was reported on {}", what(n));
                            }
                            n.left -= 1;
                            if n.left > 0 {
                                // The peer connects again; the task stays.
                                c.probe("decoder_reused_after_end");
                                if n.errs > 0 {
                                    c.probe("decoder_reused_after_error");
                                }
                                // What the old connection still holds is gone.
                                let s = n.task.sock();
                                s.arrived.clear();
                                s.eof = false;
                                s.reset = false;
                                next_message(c, n, &cfg)?;
                                q.after(MS, Ev::Piece(i));
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
    c.sim_ns += q.now;
    Ok(())
}
