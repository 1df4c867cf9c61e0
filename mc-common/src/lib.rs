//! Pieces shared by the model checkers: the explorer of choice sequences, the
//! pool that runs executions, and the report (violations, evidence).
pub mod explore;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
pub mod report;
pub mod sink;
pub use explore::*;
pub use report::*;
pub use sink::*;

static STATES: [Mutex<Option<HashSet<u64>>>; 64] = [const { Mutex::new(None) }; 64];

/// Counts the distinct states (of the model, or of what was observed) in which
/// the code was compared.
pub fn state(s: &impl Hash) {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    let h = h.finish();
    STATES[h as usize % 64].lock().unwrap().get_or_insert_with(HashSet::new).insert(h);
}

pub fn states() -> u64 {
    STATES.iter().map(|s| s.lock().unwrap().as_ref().map_or(0, |s| s.len() as u64)).sum()
}

/// A byte string in hex, for reports.
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
