//! Replay harness for the interval crate (P21-P25); appended to a copy of the crate as a module.
use super::{Interval, IntervalExt, IntervalSearchTree};
use crate::date::{BigEndian, Date, LittleEndian};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

type R = Result<(), String>;
static CASE: Mutex<String> = Mutex::new(String::new());
static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn case(s: String) {
    COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if std::env::var_os("REPLAY_TRACE").is_some() {
        eprintln!("CASE {s}");
    }
    *CASE.lock().unwrap_or_else(|e| e.into_inner()) = s;
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
struct Cfg {
    seed: u64,
    deep: bool,
    start: Instant,
    budget: Duration,
}
impl Cfg {
    fn rounds(&self, n: u64) -> impl Iterator<Item = u64> + '_ {
        let n = if self.deep { n * 40 } else { n };
        (0..n).take_while(move |_| self.start.elapsed() < self.budget)
    }
}
struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Iv {
    lo: i32,
    hi: i32,
    tag: u8,
}
impl Interval for Iv {
    type Bound = i32;
    fn lo(&self) -> i32 {
        self.lo
    }
    fn hi(&self) -> i32 {
        self.hi
    }
}

fn p21(_: &Cfg) -> R {
    const VALS: [i32; 8] = [i32::MIN, -2, -1, 0, 1, 2, 3, i32::MAX];
    for a in VALS {
        for b in VALS {
            for x in VALS {
                let i = Iv { lo: a, hi: b, tag: 0 };
                case(format!("interval [{a}, {b}], bound {x}"));
                ensure!(i.contains(x) == (a <= x && x <= b), "contains says {}", i.contains(x));
                for y in VALS {
                    if a > b || x > y {
                        continue;
                    }
                    let j = Iv { lo: x, hi: y, tag: 1 };
                    case(format!("intervals [{a}, {b}] and [{x}, {y}]"));
                    ensure!(i.intersects(&j) == (a <= y && x <= b), "intersects says {}", i.intersects(&j));
                    case(format!("a tree holding [{a}, {b}], query [{x}, {y}]"));
                    let tree = IntervalSearchTree::default().with_interval(i);
                    ensure!(tree.intersects(&j) == (a <= y && x <= b), "the query says {}", tree.intersects(&j));
                }
            }
        }
    }
    Ok(())
}

/// a component ordered against its representation
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Back(i8);
impl PartialOrd for Back {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Back {
    fn cmp(&self, o: &Self) -> Ordering {
        o.0.cmp(&self.0)
    }
}

fn date<const N: usize, T: Copy, E>(c: [T; N]) -> Date<N, T, E> {
    assert_eq!(std::mem::size_of::<Date<N, T, E>>(), std::mem::size_of::<[T; N]>(), "HARNESS: representation of dates");
    unsafe { std::mem::transmute_copy(&c) }
}

fn dates<const N: usize, T: Copy + Ord + std::fmt::Debug>(cfg: &Cfg, salt: u64, gen: fn(u64) -> T) -> R {
    for i in cfg.rounds(4000) {
        let mut r = Rng::new(cfg.seed * 7001 + i * 31 + salt);
        let a: [T; N] = std::array::from_fn(|_| gen(r.below(3)));
        let mut b: [T; N] = std::array::from_fn(|_| gen(r.below(3)));
        if r.below(2) == 0 {
            b = a;
            if N > 0 {
                b[r.below(N as u64) as usize] = gen(r.below(3));
            }
        }
        case(format!("dates {a:?} and {b:?}"));
        let big = a.cmp(&b);
        let little = a.iter().rev().cmp(b.iter().rev());
        let (x, y) = (date::<N, T, BigEndian>(a), date::<N, T, BigEndian>(b));
        ensure!(x.cmp(&y) == big, "big-endian order is {:?}", x.cmp(&y));
        ensure!(x.partial_cmp(&y) == Some(big), "big-endian partial order is {:?}", x.partial_cmp(&y));
        ensure!((x == y) == (a == b) && (x != y) == (a != b), "big-endian equality is {}", x == y);
        ensure!(Interval::lo(&x) == x && Interval::hi(&x) == x, "big-endian limits differ from the date");
        let (x, y) = (date::<N, T, LittleEndian>(a), date::<N, T, LittleEndian>(b));
        ensure!(x.cmp(&y) == little, "little-endian order is {:?}", x.cmp(&y));
        ensure!(x.partial_cmp(&y) == Some(little), "little-endian partial order is {:?}", x.partial_cmp(&y));
        ensure!((x == y) == (a == b) && (x != y) == (a != b), "little-endian equality is {}", x == y);
        ensure!(Interval::lo(&x) == x && Interval::hi(&x) == x, "little-endian limits differ from the date");
        ensure!((x < y) == (little == Ordering::Less) && (x >= y) == (little != Ordering::Less), "little-endian comparison operators");
    }
    Ok(())
}

fn p22(cfg: &Cfg) -> R {
    let n = |k: u64| [0u64, 1, 1000][k as usize];
    dates::<0, u64>(cfg, 0, n)?;
    dates::<1, u64>(cfg, 1, n)?;
    dates::<2, u64>(cfg, 2, n)?;
    dates::<3, u64>(cfg, 3, n)?;
    dates::<7, u64>(cfg, 4, n)?;
    dates::<20, u64>(cfg, 9, n)?;
    dates::<67, i8>(cfg, 10, |k| [-128, 0, 127][k as usize])?;
    dates::<3, i8>(cfg, 5, |k| [-128, 0, 127][k as usize])?;
    dates::<4, i32>(cfg, 6, |k| [i32::MIN, -1, i32::MAX][k as usize])?;
    dates::<3, Back>(cfg, 7, |k| Back([-128, 0, 127][k as usize]))?;
    dates::<3, &'static str>(cfg, 8, |k| ["", "12", "2"][k as usize])
}

#[derive(Debug, Clone)]
enum Step {
    Insert(Iv),
    Delete(Iv),
}

fn history(cfg: &Cfg, n: u64, check: impl Fn(&IntervalSearchTree<Iv>, &[Iv], &mut Rng) -> R) -> R {
    for i in cfg.rounds(n) {
        let mut r = Rng::new(cfg.seed * 991 + i);
        let span = [3, 6, 20][r.below(3) as usize];
        let tags = 1 + r.below(2);
        let most = [6, 14, 40][r.below(3) as usize];
        let len = r.below(most);
        let gen = |r: &mut Rng| {
            let lo = r.below(span) as i32;
            Iv { lo, hi: lo + r.below(span) as i32, tag: r.below(tags) as u8 }
        };
        let dels = 2 + r.below(8);
        let mut model: Vec<Iv> = vec![];
        let mut steps = vec![];
        for _ in 0..len {
            if r.below(10) < dels {
                let v = if !model.is_empty() && r.below(5) > 0 { model[r.below(model.len() as u64) as usize] } else { gen(&mut r) };
                if let Some(k) = model.iter().position(|x| *x == v) {
                    model.remove(k);
                }
                steps.push(Step::Delete(v));
            } else {
                let v = gen(&mut r);
                model.push(v);
                steps.push(Step::Insert(v));
            }
        }
        case(format!("{steps:?}"));
        let mut tree = IntervalSearchTree::default();
        for s in &steps {
            match s {
                Step::Insert(v) if r.below(2) == 0 => tree.insert(*v),
                Step::Insert(v) => tree = tree.with_interval(*v),
                Step::Delete(v) => tree.delete(v),
            }
        }
        check(&tree, &model, &mut r).map_err(|e| format!("{e} (stored: {model:?})"))?;
    }
    Ok(())
}

/// One long history over many intervals, compared with the model now and then.
fn large(cfg: &Cfg, check: impl Fn(&IntervalSearchTree<Iv>, &[Iv], &Iv) -> R) -> R {
    for round in 0..3 {
        let mut r = Rng::new(cfg.seed * 557 + round);
        let span = [40, 2000, 1 << 20][round as usize];
        let mut model: Vec<Iv> = vec![];
        let mut tree = IntervalSearchTree::default();
        for i in 0..3000u64 {
            let fresh = |r: &mut Rng| {
                let lo = r.below(span) as i32;
                Iv { lo, hi: lo + r.below(1 + span / 16) as i32, tag: r.below(2) as u8 }
            };
            // grow, shrink, grow again
            let dels = [2, 9, 4][(i / 1000) as usize];
            if !model.is_empty() && r.below(10) < dels {
                let v = model.swap_remove(r.below(model.len() as u64) as usize);
                case(format!("round {round} of the long history, step {i}: delete {v:?}"));
                tree.delete(&v);
            } else {
                let v = fresh(&mut r);
                model.push(v);
                case(format!("round {round} of the long history, step {i}: insert {v:?}"));
                tree.insert(v);
            }
            if i % 20 == 19 {
                let mut q = fresh(&mut r);
                if r.below(2) == 0 {
                    q.hi = q.lo;
                }
                check(&tree, &model, &q).map_err(|e| format!("{e} ({} intervals stored)", model.len()))?;
            }
        }
        while let Some(v) = model.pop() {
            case(format!("round {round} of the long history, emptying: delete {v:?}"));
            tree.delete(&v);
            if model.len() % 97 == 0 {
                check(&tree, &model, &Iv { lo: 0, hi: i32::MAX, tag: 0 })?;
            }
        }
    }
    Ok(())
}

fn queries(r: &mut Rng) -> Vec<Iv> {
    let mut v = vec![Iv { lo: -100, hi: 100, tag: 0 }];
    for _ in 0..12 {
        let lo = r.below(24) as i32 - 2;
        v.push(Iv { lo, hi: lo + if r.below(2) == 0 { 0 } else { r.below(8) as i32 }, tag: 0 });
    }
    v
}

fn p23(cfg: &Cfg) -> R {
    let one = |tree: &IntervalSearchTree<Iv>, model: &[Iv], q: &Iv| {
        let want = model.iter().any(|m| m.lo <= q.hi && q.lo <= m.hi);
        ensure!(tree.intersects(q) == want, "query [{}, {}] answers {}", q.lo, q.hi, tree.intersects(q));
        // what is stored, asked for in place
        let own = std::cell::Cell::new(None);
        if model.len() < 20 {
            tree.for_each_intersection(q, |v| if v.lo <= v.hi && !tree.intersects(v) { own.set(Some(*v)) });
        }
        ensure!(own.get().is_none(), "the stored interval {:?}, asked for in place, is not found", own.get());
        Ok(())
    };
    history(cfg, 20000, |tree, model, r| queries(r).iter().try_for_each(|q| one(tree, model, q)))?;
    large(cfg, one)
}

fn enumerate(tree: &IntervalSearchTree<Iv>, q: &Iv) -> Vec<Iv> {
    let seen = RefCell::new(vec![]);
    tree.for_each_intersection(q, |v| seen.borrow_mut().push(*v));
    let mut seen = seen.into_inner();
    seen.sort();
    seen
}

fn p24(cfg: &Cfg) -> R {
    let one = |tree: &IntervalSearchTree<Iv>, model: &[Iv], q: &Iv| {
        let mut want: Vec<Iv> = model.iter().copied().filter(|m| m.lo <= q.hi && q.lo <= m.hi).collect();
        want.sort();
        let got = enumerate(tree, q);
        ensure!(got == want, "query [{}, {}] visits {got:?}, expected {want:?}", q.lo, q.hi);
        Ok(())
    };
    history(cfg, 20000, |tree, model, r| queries(r).iter().try_for_each(|q| one(tree, model, q)))?;
    large(cfg, one)
}

fn p25(cfg: &Cfg) -> R {
    let all = |tree: &IntervalSearchTree<Iv>, model: &[Iv]| {
        let mut want = model.to_vec();
        want.sort();
        let got = enumerate(tree, &Iv { lo: i32::MIN, hi: i32::MAX, tag: 0 });
        ensure!(got == want, "the tree holds {got:?}, expected {want:?}");
        Ok(())
    };
    history(cfg, 30000, |tree, model, _| all(tree, model))?;
    large(cfg, |tree, model, _| all(tree, model))
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let pid = args.get(1).cloned().unwrap_or_default();
    let deep = args.iter().any(|a| a == "--deep");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let checks: [(&str, fn(&Cfg) -> R); 5] = [("P21", p21), ("P22", p22), ("P23", p23), ("P24", p24), ("P25", p25)];
    let Some(f) = checks.into_iter().find(|c| c.0 == pid).map(|c| c.1) else {
        eprintln!("unknown property {pid}");
        std::process::exit(2);
    };
    let budget = Duration::from_secs(if deep { 150 } else { 20 });
    let (s, r) = mpsc::channel();
    let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let cfg = Cfg { seed, deep, start: Instant::now(), budget };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&cfg)));
        let _ = s.send(res.unwrap_or_else(|p| {
            Err(format!("panic: {}", p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()))
        }));
    });
    let cur = || CASE.lock().unwrap_or_else(|e| e.into_inner()).clone();
    match r.recv_timeout(budget + Duration::from_secs(60)) {
        Ok(Ok(())) => println!("CASES {}\nQUIET {pid}", COUNT.load(std::sync::atomic::Ordering::Relaxed)),
        Ok(Err(e)) if e.contains("HARNESS:") => std::process::exit(3),
        Ok(Err(e)) => {
            println!("FAIL {pid} input [{}]: {e}", cur());
            std::process::exit(1);
        }
        Err(_) => {
            println!("FAIL {pid} input [{}]: does not return", cur());
            std::process::exit(1);
        }
    }
}
