//! Node types and small helpers.
use plotline::{id::Identify, property::Property, schema::Error};
use std::collections::BTreeMap;

// countdown of calls into N after which the user code panics (0: never)
thread_local!(pub static TRAP: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

fn trap() {
    TRAP.with(|t| match t.get() {
        0 => {}
        1 => {
            t.set(0);
            std::panic::panic_any(Mine(0xdead));
        }
        k => t.set(k - 1),
    })
}

impl Clone for N {
    fn clone(&self) -> Self {
        trap();
        N { id: self.id, val: self.val, edges: self.edges.clone() }
    }
}

#[derive(Debug, PartialEq)]
pub struct N {
    pub id: u8,
    pub val: u32,
    pub edges: Vec<u8>,
}

pub fn n(id: u8, val: u32) -> N {
    N { id, val, edges: vec![] }
}

impl Identify for N {
    type Id = u8;
    fn id(&self) -> &u8 {
        trap();
        &self.id
    }
}

#[derive(Clone, Debug)]
pub struct E(pub u8);

impl Identify for E {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.0
    }
}

impl Property<N> for E {
    fn all(s: &N) -> Vec<Self> {
        s.edges.iter().copied().map(E).collect()
    }
}

pub type M = BTreeMap<u8, N>;

pub const IDS: u8 = 5;

/// message of an error
pub fn text(e: &Error) -> String {
    e.to_string()
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
}

/// a panic of the test program itself
pub struct Mine(pub u32);

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
