//! A03: identifiers, versions, counts and times as keys: nodes keep directories
//! of what they were told of, sorted by the order the library defines, and
//! find in them exactly what they must.

use crate::conv::*;
use crate::ctx::{hash_bytes, hex, real, Ctx, Res};
use crate::gen;
use crate::net::*;
use crate::sched::*;
use crate::wire::*;
use crate::{ensure, fail};
use rtps_rs::sim::*;
use speedy::{Endianness, Readable, Writable};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// What two values are to each other, by every way of asking.
struct Rel {
    eq: bool,
    ne: bool,
    ord: Option<[Option<Ordering>; 3]>,
}

trait Ident: Sized + Debug {
    const LEN: usize;
    /// From and to its bytes, most significant first.
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
    fn rel(&self, o: &Self) -> Rel;
    fn put(&self, e: Endianness) -> Vec<u8>;
    fn get(b: &[u8], e: Endianness) -> Result<Self, String>;
    /// The order it has by what it means, if the protocol gives it any.
    fn natural(_b: &[u8]) -> Option<i128> {
        None
    }
    /// The greater and the smaller one of two.
    fn extremes(_a: &[u8], _b: &[u8]) -> Option<[Vec<u8>; 2]> {
        None
    }
    /// Copies, made in every way there is.
    fn copies(&self) -> Vec<Self> {
        vec![]
    }
    fn hashed(&self) -> u64 {
        0
    }
    /// Values to start from.
    fn some(c: &mut Ctx) -> Vec<u8>;
}

macro_rules! ordered {
    () => {
        fn rel(&self, o: &Self) -> Rel {
            let by_less = match (self < o, self <= o, self > o, self >= o) {
                (true, true, false, false) => Some(Ordering::Less),
                (false, false, true, true) => Some(Ordering::Greater),
                (false, true, false, true) => Some(Ordering::Equal),
                _ => None,
            };
            Rel {
                eq: self == o,
                ne: self != o,
                ord: Some([Some(self.cmp(o)), self.partial_cmp(o), by_less]),
            }
        }
        fn extremes(a: &[u8], b: &[u8]) -> Option<[Vec<u8>; 2]> {
            Some([
                Self::of(a).max(Self::of(b)).bytes(),
                Self::of(a).min(Self::of(b)).bytes(),
            ])
        }
    };
}

macro_rules! copied {
    () => {
        #[allow(clippy::clone_on_copy)]
        fn copies(&self) -> Vec<Self> {
            let mut over = Self::of(&[0; 16]);
            over.clone_from(self);
            vec![*self, self.clone(), over]
        }
    };
}

macro_rules! unordered {
    () => {
        fn rel(&self, o: &Self) -> Rel {
            Rel {
                eq: self == o,
                ne: self != o,
                ord: None,
            }
        }
    };
}

macro_rules! on_the_wire {
    () => {
        fn put(&self, e: Endianness) -> Vec<u8> {
            self.write_to_vec_with_ctx(e).unwrap()
        }
        fn get(b: &[u8], e: Endianness) -> Result<Self, String> {
            Self::read_from_buffer_with_ctx(e, b).map_err(|e| e.to_string())
        }
    };
}

fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    b[..N].try_into().unwrap()
}

impl Ident for GuidPrefix_t {
    const LEN: usize = 12;
    fn of(b: &[u8]) -> Self {
        GuidPrefix_t::from(arr::<12>(b))
    }
    fn bytes(&self) -> Vec<u8> {
        self.entity_key.to_vec()
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        gen::prefix(c).to_vec()
    }
    copied!();
    ordered!();
    on_the_wire!();
}

impl Ident for EntityId_t {
    const LEN: usize = 4;
    fn of(b: &[u8]) -> Self {
        ent(arr(b))
    }
    fn bytes(&self) -> Vec<u8> {
        m_ent(self).to_vec()
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        gen::ent_id(c).to_vec()
    }
    copied!();
    ordered!();
    on_the_wire!();
}

impl Ident for GUID_t {
    const LEN: usize = 16;
    fn of(b: &[u8]) -> Self {
        guid(arr(b), arr(&b[12..]))
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.guid_prefix.entity_key.to_vec();
        v.extend(m_ent(&self.entity_id));
        v
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        let mut v = gen::prefix(c).to_vec();
        v.extend(gen::ent_id(c));
        v
    }
    copied!();
    ordered!();
    on_the_wire!();
}

impl Ident for InstanceHandle_t {
    const LEN: usize = 16;
    fn of(b: &[u8]) -> Self {
        InstanceHandle_t { entity_key: arr(b) }
    }
    fn bytes(&self) -> Vec<u8> {
        self.entity_key.to_vec()
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        GUID_t::some(c)
    }
    ordered!();
    on_the_wire!();
}

impl Ident for ProtocolVersion_t {
    const LEN: usize = 2;
    fn of(b: &[u8]) -> Self {
        ProtocolVersion_t {
            major: b[0],
            minor: b[1],
        }
    }
    fn bytes(&self) -> Vec<u8> {
        vec![self.major, self.minor]
    }
    fn natural(b: &[u8]) -> Option<i128> {
        Some(i128::from(b[0]) * 256 + i128::from(b[1]))
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        vec![c.draw(4) as u8, c.draw(12) as u8]
    }
    copied!();
    ordered!();
    on_the_wire!();
}

impl Ident for Count_t {
    const LEN: usize = 4;
    fn of(b: &[u8]) -> Self {
        Count_t::from(i32::from_be_bytes(arr(b)))
    }
    fn bytes(&self) -> Vec<u8> {
        i32::from(*self).to_be_bytes().to_vec()
    }
    fn natural(b: &[u8]) -> Option<i128> {
        Some(i32::from_be_bytes(arr(b)).into())
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        let v = match c.draw(4) {
            0 => c.draw(20) as i32 - 5,
            1 => c.pick(&[i32::MIN, i32::MAX, 0, -1]),
            2 => c.literal() as i32,
            _ => c.u32() as i32,
        };
        v.to_be_bytes().to_vec()
    }
    copied!();
    ordered!();
    on_the_wire!();
}

fn seconds_and_fraction(b: &[u8]) -> i128 {
    let s = i32::from_be_bytes(arr(b));
    let f = u32::from_be_bytes(arr(&b[4..]));
    (i128::from(s) << 32) + i128::from(f)
}

fn some_time(c: &mut Ctx) -> Vec<u8> {
    let s = match c.draw(4) {
        0 => c.draw(5) as u32,
        1 => c.pick(&[0, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
        2 => c.literal() as u32,
        _ => c.u32(),
    };
    let f = match c.draw(4) {
        0 => c.draw(5) as u32,
        1 => c.pick(&[0, 1, 999_999_999, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
        2 => c.literal() as u32,
        _ => c.u32(),
    };
    let mut v = s.to_be_bytes().to_vec();
    v.extend(f.to_be_bytes());
    v
}

macro_rules! times {
    ($t:ty, { $($more:item)* }) => {
        impl Ident for $t {
            const LEN: usize = 8;
            fn of(b: &[u8]) -> Self {
                <$t>::sim_new(i32::from_be_bytes(arr(b)), u32::from_be_bytes(arr(&b[4..])))
            }
            fn bytes(&self) -> Vec<u8> {
                let (s, f) = self.sim_parts();
                let mut v = s.to_be_bytes().to_vec();
                v.extend(f.to_be_bytes());
                v
            }
            fn natural(b: &[u8]) -> Option<i128> {
                Some(seconds_and_fraction(b))
            }
            fn some(c: &mut Ctx) -> Vec<u8> {
                some_time(c)
            }
            ordered!();
            on_the_wire!();
            $($more)*
        }
    };
}

times!(Time_t, {
    fn copies(&self) -> Vec<Self> {
        vec![*self, Clone::clone(self)]
    }
    fn hashed(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
});
times!(Duration_t, {});

impl Ident for VendorId_t {
    const LEN: usize = 2;
    fn of(b: &[u8]) -> Self {
        VendorId_t::from(arr::<2>(b))
    }
    fn bytes(&self) -> Vec<u8> {
        self.vendor_id.to_vec()
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        gen::vendor(c).to_vec()
    }
    copied!();
    unordered!();
    on_the_wire!();
}

impl Ident for Locator_t {
    const LEN: usize = 24;
    fn of(b: &[u8]) -> Self {
        loc(&MLoc {
            // Of the kinds there are
            kind: [LOC_UDP4, LOC_UDP6, LOC_INVALID, 0][(b[3] & 3) as usize],
            port: u32::from_be_bytes(arr(&b[4..])),
            addr: arr(&b[8..]),
        })
    }
    fn bytes(&self) -> Vec<u8> {
        let l = m_loc(self);
        let k = [LOC_UDP4, LOC_UDP6, LOC_INVALID, 0]
            .iter()
            .position(|k| *k == l.kind)
            .unwrap_or(9);
        let mut v = vec![0, 0, 0, k as u8];
        v.extend(l.port.to_be_bytes());
        v.extend(l.addr);
        v
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        Locator_t::bytes(&loc(&gen::mloc(c)))
    }
    unordered!();
    on_the_wire!();
}

impl Ident for CacheChange {
    // Kind, writer, instance, number
    const LEN: usize = 1 + 16 + 16 + 8;
    fn of(b: &[u8]) -> Self {
        CacheChange {
            kind: match b[0] % 3 {
                0 => ChangeKind_t::ALIVE,
                1 => ChangeKind_t::NOT_ALIVE_DISPOSED,
                _ => ChangeKind_t::NOT_ALIVE_UNREGISTERED,
            },
            writer_guid: GUID_t::of(&b[1..]),
            instance_handle: InstanceHandle_t::of(&b[17..]),
            sequence_number: sn(i64::from_be_bytes(arr(&b[33..]))),
            data_value: Data {},
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![match self.kind {
            ChangeKind_t::ALIVE => 0,
            ChangeKind_t::NOT_ALIVE_DISPOSED => 1,
            ChangeKind_t::NOT_ALIVE_UNREGISTERED => 2,
        }];
        v.extend(self.writer_guid.bytes());
        v.extend(self.instance_handle.bytes());
        v.extend(i64::from(self.sequence_number).to_be_bytes());
        v
    }
    fn some(c: &mut Ctx) -> Vec<u8> {
        let mut v = vec![c.draw(3) as u8];
        v.extend(GUID_t::some(c));
        v.extend(GUID_t::some(c));
        v.extend(gen::sn_value(c).to_be_bytes());
        v
    }
    ordered!();
    fn put(&self, e: Endianness) -> Vec<u8> {
        let mut v = vec![self.bytes()[0]];
        v.extend(self.writer_guid.put(e));
        v.extend(self.instance_handle.put(e));
        v.extend(self.sequence_number.write_to_vec_with_ctx(e).unwrap());
        v
    }
    fn get(b: &[u8], e: Endianness) -> Result<Self, String> {
        let mut c = CacheChange::of(&[0; 41]);
        c.kind = CacheChange::of(&{
            let mut k = [0; 41];
            k[0] = b[0];
            k
        })
        .kind;
        c.writer_guid = GUID_t::get(&b[1..17], e)?;
        c.instance_handle = InstanceHandle_t::get(&b[17..33], e)?;
        c.sequence_number =
            SequenceNumber_t::read_from_buffer_with_ctx(e, &b[33..]).map_err(|e| e.to_string())?;
        Ok(c)
    }
}

/// As the value itself sees the bytes it was made of.
fn canonical_bytes<T: Ident>(b: &[u8]) -> Res<Vec<u8>> {
    real("making a value", || T::of(b).bytes())
}

/// One near those there are.
fn near<T: Ident>(c: &mut Ctx, pool: &[Vec<u8>]) -> Res<Vec<u8>> {
    let mut b = if pool.is_empty() || c.chance(1, 4) {
        T::some(c)
    } else {
        pool[c.draw(pool.len() as u64) as usize].clone()
    };
    let n = T::LEN as u64;
    match c.draw(8) {
        0 => {}
        1 | 2 => b[c.draw(n) as usize] ^= 1 << c.draw(8),
        3 => b[c.draw(n) as usize] = c.u8(),
        4 => {
            let (i, j) = (c.draw(n) as usize, c.draw(n) as usize);
            b.swap(i, j);
        }
        5 => {
            // The one after or before
            let up = c.bool();
            for x in b.iter_mut().rev() {
                *x = if up { x.wrapping_add(1) } else { x.wrapping_sub(1) };
                if *x != if up { 0 } else { 0xFF } {
                    break;
                }
            }
        }
        6 => {
            let i = c.draw(n) as usize;
            b[i..].iter_mut().for_each(|x| *x = 0);
        }
        _ => b.rotate_left(c.draw(n) as usize),
    }
    canonical_bytes::<T>(&b)
}

struct Node<T> {
    /// Sorted by the order of the library, and as they came.
    sorted: Vec<T>,
    list: Vec<T>,
    model: BTreeSet<Vec<u8>>,
}

/// What has been found of pairs so far; it must never change.
type Seen = BTreeMap<(Vec<u8>, Vec<u8>), Ordering>;

/// Compares two values in both directions.
fn compare<T: Ident>(c: &mut Ctx, seen: &mut Seen, x: &T, y: &T) -> Res<Option<Ordering>> {
    let (a, b, xy, yx) = real("comparing values", || (x.bytes(), y.bytes(), x.rel(y), y.rel(x)))?;
    c.compared += 1;
    let same = a == b;
    ensure!(
        xy.eq == same && yx.eq == same && xy.ne != same && yx.ne != same,
        "equality",
        "{} and {} are equal: {} and {}, unequal: {} and {}",
        hex(&a),
        hex(&b),
        xy.eq,
        yx.eq,
        xy.ne,
        yx.ne
    );
    if same {
        let (h, k) = real("hashing values", || (x.hashed(), y.hashed()))?;
        ensure!(h == k, "hash", "two times {} have different hashes", hex(&a));
    }
    let (xy, yx) = match (xy.ord, yx.ord) {
        (Some(xy), Some(yx)) => (xy, yx),
        _ => return Ok(None),
    };
    let o = match xy[0] {
        Some(o) => o,
        None => fail!("order", "{} and {} do not compare", hex(&a), hex(&b)),
    };
    ensure!(
        xy == [Some(o); 3] && yx == [Some(o.reverse()); 3] && (o == Ordering::Equal) == same,
        "order",
        "{} and {} compare as {:?} one way, {:?} the other",
        hex(&a),
        hex(&b),
        xy,
        yx
    );
    if let (Some(m), Some(n)) = (T::natural(&a), T::natural(&b)) {
        ensure!(
            o == m.cmp(&n),
            "order",
            "{} and {} compare as {:?}",
            hex(&a),
            hex(&b),
            o
        );
    }
    if let Some(e) = real("the greater of two", || T::extremes(&a, &b))? {
        let want = match o {
            Ordering::Less => [b.clone(), a.clone()],
            _ => [a.clone(), b.clone()],
        };
        ensure!(
            e == want,
            "order",
            "the greater and smaller of {} and {} are {} and {}",
            hex(&a),
            hex(&b),
            hex(&e[0]),
            hex(&e[1])
        );
    }
    let before = if seen.len() < 4000 {
        *seen.entry((a.clone(), b.clone())).or_insert(o)
    } else {
        o
    };
    ensure!(
        before == o,
        "order",
        "{} and {} compare as {:?}, did as {:?} before",
        hex(&a),
        hex(&b),
        o,
        before
    );
    Ok(Some(o))
}

impl<T: Ident> Node<T> {
    fn new() -> Self {
        Node {
            sorted: vec![],
            list: vec![],
            model: BTreeSet::new(),
        }
    }

    /// Where it is, or where it belongs.
    fn search(&self, c: &mut Ctx, seen: &mut Seen, x: &T) -> Res<Option<Result<usize, usize>>> {
        let (mut lo, mut hi) = (0, self.sorted.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            match compare(c, seen, &self.sorted[mid], x)? {
                None => return Ok(None),
                Some(Ordering::Less) => lo = mid + 1,
                Some(Ordering::Greater) => hi = mid,
                Some(Ordering::Equal) => return Ok(Some(Ok(mid))),
            }
        }
        Ok(Some(Err(lo)))
    }

    fn find(&self, c: &mut Ctx, seen: &mut Seen, x: &T) -> Res<bool> {
        let b = real("reading a value", || x.bytes())?;
        let want = self.model.contains(&b);
        let mut in_list = false;
        for y in &self.list {
            compare(c, seen, y, x)?;
            in_list |= real("comparing values", || y.rel(x).eq)?;
        }
        let found = self.search(c, seen, x)?;
        c.compared += 1;
        ensure!(
            in_list == want && !matches!(found, Some(f) if f.is_ok() != want),
            "lookup",
            "{} is known: {}, found in the list: {}, in the sorted one: {:?}",
            hex(&b),
            want,
            in_list,
            found
        );
        Ok(want)
    }

    fn add(&mut self, c: &mut Ctx, seen: &mut Seen, x: T) -> Res<()> {
        if self.find(c, seen, &x)? {
            c.probe("known_already");
            return Ok(());
        }
        let b = real("reading a value", || x.bytes())?;
        if let Some(at) = self.search(c, seen, &x)? {
            let again = real("copying a value", || T::of(&b))?;
            self.sorted.insert(at.unwrap_or_else(|at| at), again);
        }
        self.list.push(x);
        self.model.insert(b);
        Ok(())
    }

    fn remove(&mut self, c: &mut Ctx, seen: &mut Seen, x: T) -> Res<()> {
        self.find(c, seen, &x)?;
        if let Some(Ok(at)) = self.search(c, seen, &x)? {
            self.sorted.remove(at);
        }
        let b = real("reading a value", || x.bytes())?;
        real("comparing values", || self.list.retain(|y| y.rel(&x).ne))?;
        self.model.remove(&b);
        Ok(())
    }

    /// What it holds, and that the order of it is one.
    fn audit(&self, c: &mut Ctx, seen: &mut Seen) -> Res<()> {
        let held = real("reading values", || {
            self.list.iter().map(|x| x.bytes()).collect::<BTreeSet<_>>()
        })?;
        c.compared += 1;
        ensure!(
            held == self.model && self.list.len() == self.model.len(),
            "lookup",
            "{} values are held, {} of them different, {} must be",
            self.list.len(),
            held.len(),
            self.model.len()
        );
        for i in 0..self.sorted.len() {
            for j in i + 1..self.sorted.len().min(i + 40) {
                let o = compare(c, seen, &self.sorted[i], &self.sorted[j])?;
                ensure!(
                    o == Some(Ordering::Less),
                    "order",
                    "of values sorted by their order, {:?} and {:?} are {:?}",
                    self.sorted[i],
                    self.sorted[j],
                    o
                );
            }
        }
        Ok(())
    }
}

enum Ev {
    Announce(bool),
    Deliver(usize, bool, Vec<u8>, Endianness, Vec<u8>),
    Look(usize),
    Crash(usize),
}

fn run<T: Ident>(c: &mut Ctx) -> Res<()> {
    let link = Link::swarm(c);
    let n = c.range(1, 3) as usize;
    let mut nodes: Vec<Node<T>> = (0..n).map(|_| Node::new()).collect();
    let mut pool: Vec<Vec<u8>> = vec![];
    let mut seen: Seen = BTreeMap::new();
    let mut q: Queue<Ev> = Queue::new();
    for _ in 0..c.many(1, 12, 300, 200) {
        let leaves = c.chance(1, 4);
        q.at(c.draw(100) * MS, Ev::Announce(leaves));
    }
    for _ in 0..c.draw(6) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(150) * MS, Ev::Look(i));
    }
    if c.chance(1, 4) {
        let i = c.draw(n as u64) as usize;
        q.at(c.draw(100) * MS, Ev::Crash(i));
    }
    while let Some(ev) = q.pop() {
        match ev {
            Ev::Announce(leaves) => {
                let b = if leaves && !pool.is_empty() {
                    pool[c.draw(pool.len() as u64) as usize].clone()
                } else {
                    near::<T>(c, &pool)?
                };
                if pool.len() < 64 {
                    pool.push(b.clone());
                }
                let en = if c.bool() { End::Le } else { End::Be };
                let wire = real("encoding a value", || T::of(&b).put(endian(en)))?;
                c.ev(&[1, leaves as u64, hash_bytes(&b)]);
                c.note(|| format!("{} {}", if leaves { "leaves:" } else { "comes:" }, hex(&b)));
                for i in 0..n {
                    for d in link.arrivals(c) {
                        q.after(
                            d,
                            Ev::Deliver(i, leaves, wire.clone(), endian(en), b.clone()),
                        );
                    }
                }
            }
            Ev::Deliver(i, leaves, wire, en, b) => {
                let x = match real("decoding a value", || T::get(&wire, en))? {
                    Ok(x) => x,
                    Err(e) => fail!("not-received", "{} for {}", e, hex(&wire)),
                };
                // The one on the wire is the one which was sent.
                let own = real("making a value", || T::of(&b))?;
                compare(c, &mut seen, &x, &own)?;
                for y in real("copying a value", || x.copies())? {
                    compare(c, &mut seen, &y, &own)?;
                    ensure!(
                        real("reading a value", || y.bytes())? == b,
                        "equality",
                        "a copy of {} is {:?}",
                        hex(&b),
                        y
                    );
                }
                ensure!(
                    real("comparing values", || x.rel(&own).eq)?,
                    "equality",
                    "{} arrived as {:?}",
                    hex(&b),
                    x
                );
                c.ev(&[2, i as u64, hash_bytes(&b)]);
                if leaves {
                    nodes[i].remove(c, &mut seen, x)?;
                } else {
                    nodes[i].add(c, &mut seen, x)?;
                }
            }
            Ev::Look(i) => {
                let b = near::<T>(c, &pool)?;
                let x = real("making a value", || T::of(&b))?;
                let known = nodes[i].find(c, &mut seen, &x)?;
                c.ev(&[3, i as u64, known as u64]);
            }
            Ev::Crash(i) => {
                c.fault("restart");
                nodes[i] = Node::new();
            }
        }
    }
    for x in &nodes {
        x.audit(c, &mut seen)?;
    }
    c.sim_ns += q.now;
    Ok(())
}

pub fn a03(c: &mut Ctx) -> Res<()> {
    match c.draw(10) {
        0 => run::<GUID_t>(c),
        1 => run::<GuidPrefix_t>(c),
        2 => run::<EntityId_t>(c),
        3 => run::<InstanceHandle_t>(c),
        4 => run::<ProtocolVersion_t>(c),
        5 => run::<Count_t>(c),
        6 => run::<Time_t>(c),
        7 => run::<Duration_t>(c),
        8 => run::<CacheChange>(c),
        _ => {
            if c.bool() {
                run::<VendorId_t>(c)
            } else {
                run::<Locator_t>(c)
            }
        }
    }
}
