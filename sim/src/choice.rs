//! The single source of nondeterminism of a run.
//!
//! Every decision a run takes (what is generated, who runs next, how long a
//! datagram travels, which fault strikes where) is one `draw`.  In seeded mode
//! draws come from one PRNG; every draw is recorded on a tape.  In tape mode
//! the draws come from such a tape, which is how a run is replayed exactly and
//! how it is minimised (draw 0 is always the simplest alternative; draws past
//! the end of the tape are 0).

pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut st = seed;
        Rng {
            s: [
                splitmix(&mut st),
                splitmix(&mut st),
                splitmix(&mut st),
                splitmix(&mut st),
            ],
        }
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

pub enum Mode {
    Seeded(Rng),
    Tape { tape: Vec<u64>, pos: usize },
}

pub struct Source {
    mode: Mode,
    pub rec: Vec<u64>,
    /// Where every draw is written at once, for runs that end the process.
    pub log: Option<std::fs::File>,
}

impl Source {
    pub fn seeded(seed: u64) -> Source {
        Source {
            mode: Mode::Seeded(Rng::new(seed)),
            rec: Vec::new(),
            log: None,
        }
    }

    pub fn tape(tape: Vec<u64>) -> Source {
        Source {
            mode: Mode::Tape { tape, pos: 0 },
            rec: Vec::new(),
            log: None,
        }
    }

    /// A number in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Seeded(rng) => ((rng.next() as u128 * n as u128) >> 64) as u64,
            Mode::Tape { tape, pos } => {
                let v = tape.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }

    /// One of `among`; the tape holds the number itself, so that a replay does
    /// not depend on what there was to choose from.
    pub fn number(&mut self, among: &[u64]) -> u64 {
        let v = match &mut self.mode {
            Mode::Seeded(rng) => among[((rng.next() as u128 * among.len() as u128) >> 64) as usize],
            Mode::Tape { tape, pos } => {
                let v = tape.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }
}
