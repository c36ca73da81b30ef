//! Discrete-event time: a queue ordered by (simulated time, insertion number).

use std::cmp::Reverse;
use std::collections::BinaryHeap;

struct Entry<E> {
    key: Reverse<(u64, u64)>,
    ev: E,
}

impl<E> PartialEq for Entry<E> {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl<E> Eq for Entry<E> {}
impl<E> PartialOrd for Entry<E> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<E> Ord for Entry<E> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.key.cmp(&o.key)
    }
}

pub struct Queue<E> {
    heap: BinaryHeap<Entry<E>>,
    seq: u64,
    /// Simulated nanoseconds since the start of the run.
    pub now: u64,
}

impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue {
            heap: BinaryHeap::new(),
            seq: 0,
            now: 0,
        }
    }

    pub fn at(&mut self, when: u64, ev: E) {
        self.seq += 1;
        self.heap.push(Entry {
            key: Reverse((when.max(self.now), self.seq)),
            ev,
        });
    }

    pub fn after(&mut self, delay: u64, ev: E) {
        self.at(self.now.saturating_add(delay), ev)
    }

    pub fn pop(&mut self) -> Option<E> {
        let e = self.heap.pop()?;
        self.now = e.key.0 .0;
        Some(e.ev)
    }

    pub fn len(&self) -> usize {
        self.heap.len()
    }
}

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
