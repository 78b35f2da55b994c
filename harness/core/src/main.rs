//! Replay harness: reference models executed against the real code. Usage: replay P05 [--deep]
//! Prints `FAIL <property> <input>: <what was observed>` and exits 1 when an execution contradicts the property.
mod docs;
mod graph;
mod large;
mod nodes;
mod ops;
mod res;
mod setup;
mod tx;
#[cfg(feature = "cli")]
mod cli;

use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// the input being executed, for reports about hangs and aborts
pub static CASE: Mutex<String> = Mutex::new(String::new());

/// inputs executed so far
pub static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn case(s: impl Into<String>) {
    COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let s = s.into();
    if std::env::var_os("REPLAY_TRACE").is_some() {
        eprintln!("CASE {s}");
    }
    *CASE.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

pub fn current() -> String {
    CASE.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Cfg {
    pub seed: u64,
    pub deep: bool,
    pub start: Instant,
    pub budget: Duration,
}

impl Cfg {
    /// number of random cases, cut short by the time budget
    pub fn rounds(&self, n: u64) -> impl Iterator<Item = u64> + '_ {
        let n = if self.deep { n * 40 } else { n };
        (0..n).take_while(move |_| self.start.elapsed() < self.budget)
    }
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

fn checks() -> Vec<(&'static str, fn(&Cfg) -> R)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, fn(&Cfg) -> R)> = vec![
        ("P01", graph::p01), ("P02", graph::p02), ("P03", graph::p03), ("P04", graph::p04),
        ("P05", tx::p05), ("P06", tx::p06), ("P07", tx::p07), ("P08", tx::p08), ("P09", tx::p09),
        ("P10", ops::p10), ("P11", ops::p11), ("P12", ops::p12), ("P13", ops::p13), ("P14", tx::p14),
        ("P15", res::p15), ("P16", res::p16), ("P17", docs::p17), ("P18", docs::p18), ("P28", setup::p28),
    ];
    #[cfg(feature = "cli")]
    v.extend([("P19", cli::p19 as fn(&Cfg) -> R), ("P20", cli::p20), ("P27", cli::p27)]);
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "cli")]
    if args.get(1).map(String::as_str) == Some("list-child") {
        return cli::list_child(&args[2..]);
    }
    let pid = args.get(1).cloned().unwrap_or_default();
    let deep = args.iter().any(|a| a == "--deep");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let Some(f) = checks().into_iter().find(|c| c.0 == pid).map(|c| c.1) else {
        eprintln!("unknown property {pid}");
        std::process::exit(2);
    };
    let budget = Duration::from_secs(if deep { 150 } else { 20 });
    let (s, r) = mpsc::channel();
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let cfg = Cfg { seed, deep, start: Instant::now(), budget };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&cfg)));
        let res = match res {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {}", nodes::panic_text(&p))),
        };
        let _ = s.send(res);
    });
    let _ = worker;
    match r.recv_timeout(budget + Duration::from_secs(60)) {
        Ok(Ok(())) => println!("CASES {}\nQUIET {pid}", COUNT.load(std::sync::atomic::Ordering::Relaxed)),
        Ok(Err(e)) => {
            println!("FAIL {pid} input [{}]: {e}", current());
            std::process::exit(1);
        }
        Err(_) => {
            println!("FAIL {pid} input [{}]: does not return (blocked or diverging)", current());
            std::process::exit(1);
        }
    }
}
