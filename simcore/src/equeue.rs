//! Discrete-event queue: virtual time, total order by (time, sequence number).
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap};

pub struct EventQueue<E> {
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    items: HashMap<u64, E>,
    seq: u64,
    pub now: u64,
}
impl<E> Default for EventQueue<E> {
    fn default() -> Self {
        EventQueue { heap: BinaryHeap::new(), items: HashMap::new(), seq: 0, now: 0 }
    }
}
impl<E> EventQueue<E> {
    pub fn after(&mut self, d: u64, e: E) -> u64 {
        self.seq += 1;
        self.heap.push(Reverse((self.now + d, self.seq)));
        self.items.insert(self.seq, e);
        self.seq
    }
    pub fn pop(&mut self) -> Option<E> {
        while let Some(Reverse((t, s))) = self.heap.pop() {
            if let Some(e) = self.items.remove(&s) {
                self.now = t;
                return Some(e);
            }
        }
        None
    }
    pub fn cancel(&mut self, id: u64) {
        self.items.remove(&id);
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
}
