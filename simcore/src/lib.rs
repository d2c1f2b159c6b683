//! Shared simulator machinery: seeded choice tapes, swarm helpers, the exploration
//! runner, the minimiser, replay files and evidence output. No dependency beyond std.
pub mod choices;
pub mod json;
pub mod runner;
pub mod hashseed;
pub mod equeue;
pub mod ident;

pub use choices::{Choices, Rng, Tape};
pub use json::Json;
pub use runner::{CheckSpec, Obs, Scenario, Violation};
pub use equeue::EventQueue;

/// 64-bit FNV-1a, used for state / schedule digests (stable across processes).
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
/// Mix one value into a digest.
pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
