//! P01-P04
use crate::nodes::*;
use crate::*;
use plotline::deref::TryDeref;
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::{transaction::Transaction, Error, Schema};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

fn same(g: &Graph<N>, m: &M) -> R {
    for id in 0..=IDS {
        ensure!(g.get(&id) == m.get(&id).cloned(), "get({id}) is {:?}, expected {:?}", g.get(&id), m.get(&id));
        ensure!(g.contains(&id) == m.contains_key(&id), "contains({id}) is {}, expected {}", g.contains(&id), m.contains_key(&id));
    }
    let all: Vec<N> = g.into_iter().cloned().collect();
    let want: Vec<N> = m.values().cloned().collect();
    ensure!(all == want, "enumeration is {all:?}, expected {want:?}");
    Ok(())
}

fn rnode(r: &mut Rng) -> N {
    let mut x = n(r.below(IDS as u64) as u8, r.below(1000) as u32);
    for _ in 0..r.below(4) {
        x.edges.push(r.below(IDS as u64 + 1) as u8);
    }
    x
}

fn history(cfg: &Cfg, rounds: u64) -> R {
    for i in cfg.rounds(rounds) {
        let mut r = Rng::new(cfg.seed * 1000003 + i);
        let init: Vec<N> = (0..r.below(6)).map(|_| rnode(&mut r)).collect();
        let mut log = format!("from_iter({init:?})");
        let mut m: M = M::new();
        for x in &init {
            m.insert(x.id, x.clone());
        }
        case(&log);
        let mut g: Graph<N> = init.into_iter().collect();
        same(&g, &m)?;
        for _ in 0..r.below(8) {
            match r.below(3) {
                0 => {
                    let x = rnode(&mut r);
                    log += &format!("; insert({x:?})");
                    case(&log);
                    let old = g.insert(x.clone());
                    let want = m.insert(x.id, x);
                    ensure!(old == want, "insert returned {old:?}, expected {want:?}");
                }
                1 => {
                    let x = rnode(&mut r);
                    log += &format!("; with_node({x:?})");
                    case(&log);
                    g = g.with_node(x.clone());
                    m.insert(x.id, x);
                }
                _ => {
                    let id = r.below(IDS as u64) as u8;
                    log += &format!("; remove({id})");
                    case(&log);
                    let old = g.remove(&id);
                    let want = m.remove(&id);
                    ensure!(old == want, "remove returned {old:?}, expected {want:?}");
                }
            }
            same(&g, &m)?;
        }
    }
    Ok(())
}

/// ids whose order is not the order of their values
#[derive(Clone, Debug, PartialEq, Eq)]
struct Odd(u16);
impl Odd {
    fn k(&self) -> u16 {
        self.0.wrapping_mul(0x9E37).rotate_left(5)
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Self) -> Ordering {
        self.k().cmp(&o.k())
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
#[derive(Clone, Debug, PartialEq)]
struct OddNode(Odd, u32);
impl Identify for OddNode {
    type Id = Odd;
    fn id(&self) -> &Odd {
        &self.0
    }
}

/// a node of no size
#[derive(Debug, Clone, PartialEq)]
struct Unit;
impl Identify for Unit {
    type Id = u8;
    fn id(&self) -> &u8 {
        &7
    }
}

pub fn p01(cfg: &Cfg) -> R {
    case("a graph of nodes of no size");
    let mut units = Graph::<Unit>::default();
    ensure!(units.insert(Unit).is_none() && units.insert(Unit).is_some() && units.get(&7).is_some(), "what is stored twice is not kept as one");
    ensure!(units.remove(&7).is_some() && units.remove(&7).is_none() && !units.contains(&7), "what is removed stays");
    case("Graph::default()");
    same(&Graph::default(), &M::new())?;
    history(cfg, 20000)?;
    large::graph(cfg)
}

pub fn p02(cfg: &Cfg) -> R {
    history(cfg, 8000)?;
    large::graph(cfg)?;
    for i in cfg.rounds(400) {
        let mut r = Rng::new(cfg.seed + i * 7);
        let mut m = std::collections::BTreeMap::new();
        let mut g = Graph::<OddNode>::default();
        let mut log = String::new();
        for _ in 0..r.below(60) {
            let id = Odd(r.below(400) as u16);
            if r.chance(1, 4) {
                g.remove(&id);
                m.remove(&id);
                log += &format!("remove({id:?}); ");
            } else {
                let x = OddNode(id, r.below(99) as u32);
                log += &format!("insert({x:?}); ");
                g.insert(x.clone());
                m.insert(x.0.clone(), x);
            }
        }
        case(&log);
        let all: Vec<OddNode> = (&g).into_iter().cloned().collect();
        let want: Vec<OddNode> = m.values().cloned().collect();
        ensure!(all == want, "enumeration is {all:?}, expected {want:?}");
        let mut it = (&g).into_iter();
        for (k, w) in want.iter().enumerate() {
            let x = it.next();
            ensure!(x == Some(w), "item {k} is {x:?}, expected {w:?}");
        }
        ensure!(it.next().is_none(), "enumeration goes on after the last node");
    }
    Ok(())
}

fn agree<S: Source<Node = N>>(s: &S, node: impl Fn(u8) -> (bool, Option<N>, u8)) -> R {
    for id in 0..=IDS {
        let got = s.get(&id);
        let (virt, deref, hid) = node(id);
        ensure!(s.contains(&id) == got.is_some(), "contains({id}) = {} but get gives {got:?}", s.contains(&id));
        ensure!(virt == got.is_none(), "handle to {id} virtual = {virt} but get gives {got:?}");
        ensure!(deref == got, "handle to {id} dereferences to {deref:?} but get gives {got:?}");
        ensure!(hid == id, "handle to {id} carries id {hid}");
        if let Some(x) = got {
            ensure!(*x.id() == id, "node found under {id} carries id {}", x.id());
        }
    }
    Ok(())
}

macro_rules! handle {
    ($s:expr) => {
        |id| {
            let h = $s.node(id);
            let v = h.is_virtual();
            (v, h.try_deref().cloned(), *h.id())
        }
    };
}

pub fn p03(cfg: &Cfg) -> R {
    for i in cfg.rounds(20000) {
        let mut r = Rng::new(cfg.seed * 31 + i);
        let init: Vec<N> = (0..r.below(5)).map(|_| rnode(&mut r)).collect();
        let ops: Vec<(u8, N)> = (0..r.below(10)).map(|_| (r.below(4) as u8, rnode(&mut r))).collect();
        case(format!("graph {init:?}, operations (0/1 save, 2 delete, 3 open nested) {ops:?}"));
        let mut g: Graph<N> = if i % 2 == 0 { init.into_iter().collect() } else { init.into_iter().fold(Graph::default(), Graph::with_node) };
        agree(&g, handle!(g))?;
        for (op, x) in ops.iter().filter(|o| i % 3 == 0 && o.1.val % 2 == 0) {
            if *op == 2 { drop(g.remove(&x.id)) } else { drop(g.insert(x.clone())) }
            agree(&g, handle!(g))?;
        }
        let schema = Schema::from(g);
        type C<'a> = plotline::schema::transaction::Context<'a, N>;
        fn all_agree(open: &[&C<'_>]) -> R {
            open.iter().try_for_each(|ctx| agree(*ctx, handle!(ctx)))
        }
        // operations go to any of the contexts open
        fn go(open: &[&C<'_>], ops: &[(u8, N)]) -> R {
            all_agree(open)?;
            for (k, (op, x)) in ops.iter().enumerate() {
                let last = open.len() - 1;
                let ctx = open[last - if x.val % 3 == 0 { (x.val as usize / 3) % open.len() } else { 0 }];
                // a handle already read still tells whether its node is there
                let h = ctx.node(x.id);
                let _ = h.try_deref();
                if *op < 3 {
                    if *op == 2 { ctx.delete(x.id) } else { ctx.save(x.clone()) }
                    ensure!(h.is_virtual() == (ctx.get(&x.id).is_none()), "handle to {} read before operation {k} is virtual = {} but get gives {:?}", x.id, h.is_virtual(), ctx.get(&x.id));
                }
                match op {
                    0 | 1 => ctx.save(x.clone()),
                    2 => ctx.delete(x.id),
                    _ => {
                        let mut res = Ok(());
                        let mut done = true;
                        ctx.transaction().with(|c| {
                            let open: Vec<&C<'_>> = open.iter().copied().chain([&c]).collect();
                            res = go(&open, &ops[k + 1..]);
                            done = x.val % 4 != 1;
                            if done { Ok(()) } else { Err(Error::Noop) }
                        }).or_else(|e| if done { Err(text(&e)) } else { Ok(()) })?;
                        res?;
                        return all_agree(open);
                    }
                }
                all_agree(open)?;
            }
            Ok(())
        }
        let mut res = Ok(());
        schema.transaction().with(|ctx| { res = go(&[&ctx], &ops); Ok(()) }).map_err(|e| text(&e))?;
        res?;
        let g = schema.read();
        agree(&*g, handle!(g))?;
    }
    Ok(())
}

/// a source which counts what it is asked and may change its mind
struct Src {
    now: RefCell<M>,
    asked: Cell<u32>,
}
impl Source for Src {
    type Node = N;
    fn get(&self, id: &u8) -> Option<N> {
        self.asked.set(self.asked.get() + 1);
        self.now.borrow().get(id).cloned()
    }
    fn contains(&self, id: &u8) -> bool {
        self.now.borrow().contains_key(id)
    }
}

pub fn p04(cfg: &Cfg) -> R {
    large::edges(cfg)?;
    for i in cfg.rounds(4000) {
        let mut r = Rng::new(cfg.seed * 77 + i);
        let mut m = M::new();
        for _ in 0..r.below(6) {
            let x = rnode(&mut r);
            m.insert(x.id, x);
        }
        let id = r.below(IDS as u64 + 1) as u8;
        case(format!("source {m:?}, handle to {id}"));
        let src = Src { now: RefCell::new(m.clone()), asked: Cell::new(0) };
        let h = NodeProxy::new(&src, id);
        ensure!(*h.id() == id, "handle reports id {}", h.id());
        ensure!(src.asked.get() == 0, "making a handle reads the source");
        let early = h.clone();
        let want = m.get(&id).cloned();
        let via_succ = r.chance(1, 2);
        let check_succ = |h: &NodeProxy<'_, Src>, want: &Option<N>| -> R {
            let s = h.successors::<E>();
            let ids: Vec<u8> = s.iter().map(|x| *x.id()).collect();
            let exp: Vec<u8> = want.as_ref().map(|x| E::all(x).iter().map(|e| e.0).collect()).unwrap_or_default();
            ensure!(ids == exp, "successors are {ids:?}, expected {exp:?}");
            for x in &s {
                let before = src.asked.get();
                let v = x.try_deref().cloned();
                ensure!(src.asked.get() == before + 1, "successor {} had been read before", x.id());
                ensure!(v == src.now.borrow().get(x.id()).cloned(), "successor {} is not of the same source", x.id());
            }
            Ok(())
        };
        if via_succ {
            check_succ(&h, &want)?;
        }
        ensure!(h.try_deref().cloned() == want, "handle dereferences to {:?}, expected {want:?}", h.try_deref());
        let after = src.asked.get();
        let late = h.clone();
        // the source changes
        let changed = rnode(&mut r);
        src.now.borrow_mut().insert(changed.id, changed.clone());
        src.now.borrow_mut().insert(id, n(id, 7777));
        for (name, x) in [("handle", &h), ("clone made after reading", &late)] {
            ensure!(x.try_deref().cloned() == want, "{name} changed its value to {:?} from {want:?}", x.try_deref());
            ensure!(src.asked.get() == after, "{name} consulted the source again");
            ensure!(*x.id() == id, "{name} reports id {}", x.id());
        }
        check_succ(&late, &want)?;
        let now = src.now.borrow().get(&id).cloned();
        let e = early.try_deref().cloned();
        ensure!(e == now || e == want, "clone made before reading is {e:?}, expected {now:?} or {want:?}");
    }
    Ok(())
}
