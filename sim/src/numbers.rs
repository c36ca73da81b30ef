//! A02: sequence and fragment numbers as the integers they stand for, on nodes
//! which compute with them and tell each other.

use crate::conv::*;
use crate::ctx::{hex, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::recv::new_rx;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, ToPrimitive};
use rtps_rs::sim::*;
use speedy::Writable;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Div, Mul, Rem, Sub};

trait Number:
    Copy
    + Debug
    + Default
    + Ord
    + Hash
    + CheckedAdd
    + CheckedSub
    + CheckedMul
    + CheckedDiv
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + FromPrimitive
    + ToPrimitive
{
    const MIN: i128;
    const MAX: i128;
    fn of(v: i128) -> Self;
    fn val(self) -> i128;
    fn any(c: &mut Ctx) -> i128;
}

impl Number for SequenceNumber_t {
    const MIN: i128 = i64::MIN as i128;
    const MAX: i128 = i64::MAX as i128;
    fn of(v: i128) -> Self {
        SequenceNumber_t::from(v as i64)
    }
    fn val(self) -> i128 {
        i64::from(self) as i128
    }
    fn any(c: &mut Ctx) -> i128 {
        gen::sn_value(c) as i128
    }
}

impl Number for FragmentNumber_t {
    const MIN: i128 = 0;
    const MAX: i128 = u32::MAX as i128;
    fn of(v: i128) -> Self {
        FragmentNumber_t::from(v as u32)
    }
    fn val(self) -> i128 {
        u32::from(self) as i128
    }
    fn any(c: &mut Ctx) -> i128 {
        gen::frag_value(c) as i128
    }
}

fn fits<T: Number>(v: Option<i128>) -> Option<i128> {
    v.filter(|v| (T::MIN..=T::MAX).contains(v))
}

/// What a node has computed or been told so far, and what it must be.
struct Regs<T: Number>(Vec<(T, i128)>);

const ROOM: usize = 24;

impl<T: Number> Regs<T> {
    fn new() -> Res<Self> {
        let first = real("the first number", T::default)?;
        Ok(Regs(vec![(first, 1)]))
    }

    fn keep(&mut self, x: (T, i128)) {
        if self.0.len() == ROOM {
            self.0.remove(0);
        }
        self.0.push(x);
    }

    /// One it has, or a new one.
    fn some(&mut self, c: &mut Ctx) -> Res<(T, i128)> {
        if c.chance(1, 3) {
            let v = T::any(c);
            let x = (real("making a number", || T::of(v))?, v);
            c.compared += 1;
            let back = real("reading a number", || x.0.val())?;
            ensure!(back == v, "conversion", "{} reads as {}", v, back);
            self.keep(x);
            return Ok(x);
        }
        let i = c.draw(self.0.len() as u64) as usize;
        // The latest is the simplest choice.
        let x = self.0[self.0.len() - 1 - i];
        if c.chance(1, 6) {
            // One which differs in a single bit
            let bits = if T::MIN < 0 { 64 } else { 32 };
            let v = x.1 as u64 ^ 1 << c.draw(bits);
            let v = if T::MIN < 0 { v as i64 as i128 } else { v as i128 };
            c.probe("differs_in_one_bit");
            return Ok((real("making a number", || T::of(v))?, v));
        }
        Ok(x)
    }

    fn compute(&mut self, c: &mut Ctx) -> Res<()> {
        let (x, a) = self.some(c)?;
        let (y, b) = if c.chance(1, 4) {
            // Small steps, as from one number to the next.
            let b = fits::<T>(Some(c.draw(5) as i128 - 2)).unwrap_or(1);
            (real("making a number", || T::of(b))?, b)
        } else {
            self.some(c)?
        };
        let op = c.draw(5);
        let want = fits::<T>(match op {
            0 => Some(a + b),
            1 => Some(a - b),
            2 => a.checked_mul(b),
            3 if b != 0 => Some(a / b),
            4 if b != 0 => Some(a % b),
            _ => None,
        });
        let name = ["+", "-", "*", "/", "%"][op as usize];
        if op < 4 {
            let got = real("computing with overflow checks", || match op {
                0 => x.checked_add(&y),
                1 => x.checked_sub(&y),
                2 => x.checked_mul(&y),
                _ => x.checked_div(&y),
            })?;
            c.compared += 1;
            ensure!(
                got.map(|g| g.val()) == want,
                "checked",
                "{} {} {} is {:?}, computed {:?}",
                a,
                name,
                b,
                want,
                got
            );
            if want.is_none() {
                c.probe("does_not_fit");
            }
        }
        if let Some(w) = want {
            // MIN % -1 fits but is not computed by any integer.
            if !(op == 4 && b == -1) {
                let got = real("computing", || match op {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    3 => x / y,
                    _ => x % y,
                })?;
                c.compared += 1;
                ensure!(
                    got.val() == w,
                    "computed",
                    "{} {} {} is {}, computed {:?}",
                    a,
                    name,
                    b,
                    w,
                    got
                );
                self.keep((got, w));
            }
        }
        c.ev(&[1, op, a as u64, b as u64]);
        Ok(())
    }

    fn compare(&mut self, c: &mut Ctx) -> Res<()> {
        let (x, a) = self.some(c)?;
        let (y, b) = self.some(c)?;
        let want = a.cmp(&b);
        let (ord, part, eq, less, most, least) = real("comparing numbers", || {
            (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x.max(y), x.min(y))
        })?;
        let ops = real("comparing numbers", || [x != y, x <= y, x > y, x >= y])?;
        ensure!(
            ops == [a != b, a <= b, a > b, a >= b],
            "order",
            "{} and {}: !=, <=, >, >= are {:?}",
            a,
            b,
            ops
        );
        c.compared += 1;
        ensure!(
            ord == want
                && part == Some(want)
                && eq == (a == b)
                && less == (a < b)
                && most.val() == a.max(b)
                && least.val() == a.min(b),
            "order",
            "{} and {} compare as {:?}, {:?}, equal {}, less {}, max {:?}, min {:?}",
            a,
            b,
            ord,
            part,
            eq,
            less,
            most,
            least
        );
        if want == Ordering::Equal {
            let hash = |v: &T| {
                let mut h = DefaultHasher::new();
                v.hash(&mut h);
                h.finish()
            };
            let same = real("hashing numbers", || hash(&x) == hash(&y))?;
            ensure!(same, "hash", "two times {} have different hashes", a);
        }
        c.ev(&[2, a as u64, b as u64]);
        Ok(())
    }

    fn convert(&mut self, c: &mut Ctx) -> Res<()> {
        let (x, a) = self.some(c)?;
        let got = real("reading a number", || {
            (
                x.to_i64(),
                x.to_u64(),
                x.to_i32(),
                x.to_u32(),
                x.to_u16(),
                x.to_u8(),
                x.to_usize(),
            )
        })?;
        let want = (
            i64::try_from(a).ok(),
            u64::try_from(a).ok(),
            i32::try_from(a).ok(),
            u32::try_from(a).ok(),
            u16::try_from(a).ok(),
            u8::try_from(a).ok(),
            usize::try_from(a).ok(),
        );
        c.compared += 1;
        ensure!(
            got == want,
            "conversion",
            "{} as smaller integers is {:?}, got {:?}",
            a,
            want,
            got
        );
        // Numbers of any integer, also those which do not fit.
        let v = gen::sn_value(c);
        let (s, u) = real("making a number", || {
            (T::from_i64(v), T::from_u64(v as u64))
        })?;
        let (ws, wu) = (fits::<T>(Some(v as i128)), fits::<T>(Some(v as u64 as i128)));
        c.compared += 1;
        ensure!(
            s.map(|s| s.val()) == ws && u.map(|u| u.val()) == wu,
            "conversion",
            "numbers from {} and {} are {:?} and {:?}, got {:?} and {:?}",
            v,
            v as u64,
            ws,
            wu,
            s,
            u
        );
        c.ev(&[3, a as u64, v as u64]);
        Ok(())
    }

    /// Everything it has, in order.
    fn audit(&self, c: &mut Ctx) -> Res<()> {
        let (sorted, tree, hashed) = real("ordering numbers", || {
            let mut v: Vec<T> = self.0.iter().map(|x| x.0).collect();
            v.sort();
            let t: BTreeSet<T> = v.iter().copied().collect();
            let h: HashSet<T> = v.iter().copied().collect();
            (
                v.iter().map(|x| x.val()).collect::<Vec<_>>(),
                t.iter().map(|x| x.val()).collect::<Vec<_>>(),
                h.len(),
            )
        })?;
        let mut want: Vec<i128> = self.0.iter().map(|x| x.1).collect();
        want.sort();
        c.compared += 1;
        ensure!(sorted == want, "order", "{:?} is sorted as {:?}", want, sorted);
        want.dedup();
        ensure!(
            tree == want && hashed == want.len(),
            "order",
            "{:?} became {:?} and {} different ones",
            want,
            tree,
            hashed
        );
        Ok(())
    }
}

struct Node {
    sns: Regs<SequenceNumber_t>,
    frags: Regs<FragmentNumber_t>,
}

impl Node {
    fn new() -> Res<Node> {
        Ok(Node {
            sns: Regs::new()?,
            frags: Regs::new()?,
        })
    }
}

enum Ev {
    Work(usize),
    Tell(usize, usize),
    Deliver(usize, Vec<u8>),
    Crash(usize),
}

pub fn a02(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 3) as usize;
    let mut nodes = vec![];
    for _ in 0..n {
        nodes.push(Node::new()?);
    }
    let mut rx = new_rx(LOC_UDP4)?;
    let mut told: Vec<(i128, i128)> = vec![];
    let mut q: Queue<Ev> = Queue::new();
    let work = c.pick(&[6u64, 2, 20]);
    for _ in 0..c.range(1, work) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Work(i));
    }
    for _ in 0..c.draw(6) {
        let (i, j) = (c.draw(n as u64) as usize, c.draw(n as u64) as usize);
        q.at(c.draw(100) * MS, Ev::Tell(i, j));
    }
    if c.chance(1, 4) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Crash(i));
    }
    while let Some(ev) = q.pop() {
        match ev {
            Ev::Work(i) => {
                let frags = c.bool();
                let what = c.draw(4);
                macro_rules! go {
                    ($r:expr) => {
                        match what {
                            0 | 1 => $r.compute(c)?,
                            2 => $r.compare(c)?,
                            _ => $r.convert(c)?,
                        }
                    };
                }
                if frags {
                    go!(nodes[i].frags)
                } else {
                    go!(nodes[i].sns)
                }
            }
            Ev::Tell(i, j) => {
                let (s, a) = nodes[i].sns.some(c)?;
                let (f, b) = nodes[i].frags.some(c)?;
                let id = told.len() as i32;
                told.push((a, b));
                let en = if c.bool() { End::Le } else { End::Be };
                let body = real("encoding numbers", || {
                    HeartbeatFrag {
                        reader_id: ent([1, 2, 3, 4]),
                        writer_id: ent([5, 6, 7, 8]),
                        writer_sn: s,
                        last_fragment_num: f,
                        count: Count_t::from(id),
                    }
                    .write_to_vec_with_ctx(endian(en))
                    .unwrap()
                })?;
                let mut m = vec![];
                put_real_header(&mut m, [i as u8; 12])?;
                put_real_sub(&mut m, HEARTBEAT_FRAG, flag_of(en), &body)?;
                c.note(|| format!("{} tells {} of {} and {}", i, j, a, b));
                for d in link.arrivals(c) {
                    q.after(d, Ev::Deliver(j, m.clone()));
                }
            }
            Ev::Deliver(j, m) => {
                let (got, err) = receive(&mut rx, &m, |e, _| match e {
                    EntitySubmessage::HeartbeatFrag(h) => Ok(h),
                    e => fail!("wrong-item", "unexpected {:?}", e),
                })?;
                ensure!(
                    err.is_none() && got.len() == 1,
                    "not-received",
                    "{} items and {:?} from {}",
                    got.len(),
                    err,
                    hex(&m)
                );
                for h in got {
                    let id = i32::from(h.count);
                    let (a, b) = told[id as usize];
                    c.compared += 1;
                    ensure!(
                        h.writer_sn.val() == a && h.last_fragment_num.val() == b,
                        "told",
                        "{} and {} were told, {:?} and {:?} arrived",
                        a,
                        b,
                        h.writer_sn,
                        h.last_fragment_num
                    );
                    nodes[j].sns.keep((h.writer_sn, a));
                    nodes[j].frags.keep((h.last_fragment_num, b));
                    nodes[j].sns.compare(c)?;
                    nodes[j].frags.compare(c)?;
                }
            }
            Ev::Crash(i) => {
                c.fault("restart");
                nodes[i] = Node::new()?;
            }
        }
    }
    for x in &nodes {
        x.sns.audit(c)?;
        x.frags.audit(c)?;
    }
    c.sim_ns += q.now;
    Ok(())
}
