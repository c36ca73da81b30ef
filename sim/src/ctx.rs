//! Per-run context: choices, event log, counters, and the guard around calls
//! into the real code.

use crate::choice::Source;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// What kind of violation: minimisation keeps this fixed.
    pub class: String,
    pub msg: String,
}

pub type Res<T> = Result<T, Violation>;

pub fn violation<T>(class: &str, msg: String) -> Res<T> {
    Err(Violation {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return $crate::ctx::violation($class, format!($($arg)*))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::ctx::violation($class, format!($($arg)*));
        }
    };
}

thread_local! {
    static IN_REAL: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_REAL.with(|f| f.get()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", shorten(l.file()), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
        } else {
            default(info);
        }
    }));
}

fn shorten(f: &str) -> String {
    match f.rfind("/src/") {
        Some(i) => {
            let head = &f[..i];
            let start = head.rfind('/').map(|j| j + 1).unwrap_or(0);
            f[start..].to_string()
        }
        None => f.to_string(),
    }
}

/// Runs a call into the real code.  A panic there is a violation; a panic
/// anywhere else is an error of the harness.
pub fn real<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    IN_REAL.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_REAL.with(|c| c.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(_) => violation(
            "panic",
            format!(
                "{} panicked: {}",
                what,
                LAST_PANIC.with(|p| p.borrow().clone())
            ),
        ),
    }
}

pub struct Ctx {
    pub src: Source,
    pub hash: u64,
    pub events: u64,
    pub compared: u64,
    pub sim_ns: u64,
    pub trace: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// Findings the known-findings file lists for this property, and how often
    /// this run met each.
    pub listed: &'static [String],
    pub findings: BTreeMap<String, u64>,
    /// Values this run has used, by what they are.
    used: [Used; USES],
}

/// What values are used for, see `Ctx::again`.
#[derive(Clone, Copy)]
pub enum Use {
    Sequence,
    Fragment,
    Count,
    Prefix,
    Entity,
    Time,
    Locator,
}

const USES: usize = 7;
const REMEMBERED: usize = 8;

#[derive(Clone, Copy, Default)]
struct Used {
    n: usize,
    last: [[u8; 24]; REMEMBERED],
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 32;
    z = z.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z ^ (z >> 29)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64 + 0x51_7C_C1_B7;
    for c in b.chunks(8) {
        let mut v = 0u64;
        for x in c {
            v = v << 8 | *x as u64;
        }
        h = mix(h, v);
    }
    h
}

impl Ctx {
    pub fn new(src: Source, trace: bool) -> Ctx {
        Ctx {
            src,
            hash: 1,
            events: 0,
            compared: 0,
            sim_ns: 0,
            trace: if trace { Some(Vec::new()) } else { None },
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            listed: &[],
            findings: BTreeMap::new(),
            used: [Used::default(); USES],
        }
    }

    /// A violation with an identity of its own: passed over if it is listed.
    pub fn finding(&mut self, id: &str, v: &Violation) -> Res<()> {
        if self.listed.iter().any(|l| l == id) {
            *self.findings.entry(id.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(v.clone())
        }
    }

    pub fn draw(&mut self, n: u64) -> u64 {
        self.src.draw(n)
    }

    /// lo..=hi, `lo` being the simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    pub fn u8(&mut self) -> u8 {
        self.draw(256) as u8
    }

    pub fn u16(&mut self) -> u16 {
        self.draw(1 << 16) as u16
    }

    pub fn u32(&mut self) -> u32 {
        self.draw(1 << 32) as u32
    }

    pub fn u64(&mut self) -> u64 {
        let hi = self.u32() as u64;
        hi << 32 | self.u32() as u64
    }

    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        for x in b.iter_mut() {
            *x = self.u8();
        }
        b
    }

    pub fn vec(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.u8()).collect()
    }

    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.draw(s.len() as u64) as usize]
    }

    /// A number near one which the code under test mentions.
    pub fn literal(&mut self) -> u64 {
        let v = self.src.number(crate::dict::numbers());
        match self.draw(16) {
            0..=7 => v,
            8 | 9 => v.wrapping_add(1),
            10 | 11 => v.wrapping_sub(1),
            // A little before or behind a multiple of it
            12 | 13 => {
                let k = self.draw(1 << 17);
                v.wrapping_mul(k).wrapping_add(self.draw(3)).wrapping_sub(1)
            }
            14 => (self.draw(1 << 31) << 32).wrapping_add(v),
            _ => {
                let w = self.src.number(crate::dict::numbers());
                v.wrapping_add(w)
            }
        }
    }

    /// One of the values last used for that, as it was or a little changed:
    /// what differs little, or not at all, is what gets confused.
    pub fn again<const N: usize>(&mut self, what: Use) -> Option<[u8; N]> {
        let u = &self.used[what as usize];
        let n = u.n.min(REMEMBERED);
        if n == 0 {
            return None;
        }
        let i = self.draw(n as u64) as usize;
        let u = &self.used[what as usize];
        let mut b: [u8; N] = u.last[(u.n - 1 - i) % REMEMBERED][..N].try_into().unwrap();
        match self.draw(8) {
            0..=2 => {}
            3 | 4 => {
                // As a number, the one after or before
                let up = self.bool();
                for x in b.iter_mut().rev() {
                    *x = if up { x.wrapping_add(1) } else { x.wrapping_sub(1) };
                    if *x != if up { 0 } else { 0xFF } {
                        break;
                    }
                }
            }
            5 => b[self.draw(N as u64) as usize] ^= 1 << self.draw(8),
            6 => b[self.draw(N as u64) as usize] = self.u8(),
            _ => {
                let (i, j) = (self.draw(N as u64) as usize, self.draw(N as u64) as usize);
                b.swap(i, j);
            }
        }
        Some(b)
    }

    pub fn used<const N: usize>(&mut self, what: Use, b: [u8; N]) {
        let u = &mut self.used[what as usize];
        u.last[u.n % REMEMBERED][..N].copy_from_slice(&b);
        u.n += 1;
    }

    /// lo..=hi, rarely many more: up to `far`, or as many as a number which
    /// the code under test mentions.
    pub fn many(&mut self, lo: u64, hi: u64, odds: u64, far: u64) -> u64 {
        if !self.chance(1, odds) {
            return self.range(lo, hi);
        }
        self.probe("long_run");
        let n = if self.bool() {
            self.literal()
        } else {
            self.draw(far + 1)
        };
        if (hi..=far).contains(&n) {
            n
        } else {
            self.range(lo, far)
        }
    }

    /// How often something is repeated in a storm; mostly 0, no storm.  One
    /// draw stands for all the repetitions, so what takes tens of thousands of
    /// them still has a short schedule.
    pub fn storm(&mut self, odds: u64) -> u64 {
        if !self.chance(1, odds) {
            // Now and then a small one, around what fits a byte.
            if !self.chance(1, 400) {
                return 0;
            }
            self.fault("repeat_storm");
            return match self.draw(4) {
                0 => self.range(20, 300),
                1 => self.pick(&[16, 32, 64, 128, 256, 512, 1024]) + self.range(0, 4),
                _ => self.range(254, 262),
            };
        }
        self.fault("repeat_storm");
        match self.draw(4) {
            0 => self.range(200, 3000),
            1 => {
                let n = self.literal();
                if (200..140_000).contains(&n) {
                    n + 2
                } else {
                    self.range(200, 20_000)
                }
            }
            2 => self.range(300, 70_000),
            _ => self.range(65_400, 66_600),
        }
    }

    /// One simulated event: goes into the fingerprint of the run.
    pub fn ev(&mut self, vals: &[u64]) {
        self.events += 1;
        let mut h = self.hash;
        for v in vals {
            h = mix(h, *v);
        }
        self.hash = mix(h, vals.len() as u64);
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() >= 3000 {
                // The middle of a very long run goes.
                t.splice(1500..2500, ["...".to_string()]);
            }
            t.push(f());
        }
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }

    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
