//! The same properties on big inputs: thousands of nodes, operations, triggers, resources and edges.
use crate::nodes::{text, E};
use crate::*;
use plotline::deref::{TryDeref, With};
use plotline::graph::{Graph, NodeProxy, Source};
use plotline::id::Identify;
use plotline::property::Property;
use plotline::schema::{
    resource::Res,
    transaction::{Context, Ctx, Transaction},
    trigger::Trigger,
    Error, Result as PResult, Schema,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct W {
    id: u32,
    val: u64,
}
impl Identify for W {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}
type M = BTreeMap<u32, u64>;

const SIZES: [u32; 5] = [40, 300, 1100, 5000, 12000];

fn same(g: &Graph<W>, m: &M, what: &str) -> R {
    let all: M = g.into_iter().map(|x| (x.id, x.val)).collect();
    ensure!(g.into_iter().count() == m.len(), "{what}: {} nodes are enumerated, expected {}", g.into_iter().count(), m.len());
    ensure!(all == *m, "{what}: the nodes differ from the expected ones, first at id {:?}", diff(&all, m));
    ensure!(g.into_iter().map(|x| x.id).eq(m.keys().copied()), "{what}: the enumeration is not in id order");
    Ok(())
}

fn diff(a: &M, b: &M) -> Option<u32> {
    a.keys().chain(b.keys()).copied().find(|k| a.get(k) != b.get(k))
}

/// ids in a scattered order, some of them more than once
fn scattered(n: u32, r: &mut Rng) -> Vec<u32> {
    (0..n).map(|_| r.below(n as u64) as u32).collect()
}

pub fn graph(cfg: &Cfg) -> R {
    for (k, n) in SIZES.into_iter().enumerate() {
        let mut r = Rng::new(cfg.seed * 17 + k as u64);
        let ids = scattered(n, &mut r);
        case(format!("{n} scattered insertions, then removals (seed {}, size {n})", cfg.seed));
        let mut m = M::new();
        let mut g: Graph<W> = ids.iter().enumerate().map(|(i, id)| W { id: *id, val: i as u64 }).collect();
        for (i, id) in ids.iter().enumerate() {
            m.insert(*id, i as u64);
        }
        same(&g, &m, "built from an iterator")?;
        let mut h = Graph::<W>::default();
        let mut hm = M::new();
        for (i, id) in ids.iter().enumerate() {
            let x = W { id: *id, val: i as u64 };
            if i % 3 == 0 {
                h = h.with_node(x);
                hm.insert(*id, i as u64);
            } else {
                let old = h.insert(x).map(|x| x.val);
                let want = hm.insert(*id, i as u64);
                ensure!(old == want, "insertion {i} of id {id} returned {old:?}, expected {want:?}");
            }
            ensure!(h.get(id).map(|x| x.val) == Some(i as u64) && h.contains(id), "id {id} is not found after insertion {i}");
        }
        same(&h, &hm, "built by insertions")?;
        for (i, id) in scattered(n / 2, &mut r).into_iter().enumerate() {
            let old = g.remove(&id).map(|x| x.val);
            let want = m.remove(&id);
            ensure!(old == want, "removal {i} of id {id} returned {old:?}, expected {want:?}");
            ensure!(g.get(&id).is_none() && !g.contains(&id), "id {id} is found after its removal");
        }
        same(&g, &m, "after removals")?;
    }
    Ok(())
}

struct Star(usize);
#[derive(Clone)]
struct Hub(u8, usize);
impl Identify for Hub {
    type Id = u8;
    fn id(&self) -> &u8 {
        &self.0
    }
}
impl Property<Hub> for E {
    fn all(s: &Hub) -> Vec<Self> {
        (0..s.1).map(|i| E((i % 251) as u8)).collect()
    }
}
impl Source for Star {
    type Node = Hub;
    fn get(&self, id: &u8) -> Option<Hub> {
        Some(Hub(*id, self.0))
    }
    fn contains(&self, _: &u8) -> bool {
        true
    }
}

pub fn edges(_: &Cfg) -> R {
    for n in [16usize, 17, 70, 300, 1500, 70_000] {
        case(format!("a node with {n} edges, the i-th to id i mod 251"));
        let src = Star(n);
        let ids: Vec<u8> = NodeProxy::new(&src, 3).successors::<E>().iter().map(|x| *x.id()).collect();
        let want: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        ensure!(ids == want, "{} successors, not the expected ones", ids.len());
    }
    Ok(())
}

fn look(ctx: &Context<'_, W>, m: &M, ids: impl Iterator<Item = u32>, what: &str) -> R {
    for id in ids {
        let got = ctx.get(&id).map(|x| x.val);
        ensure!(got == m.get(&id).copied(), "{what}: id {id} reads {got:?}, expected {:?}", m.get(&id));
        ensure!(ctx.contains(&id) == got.is_some(), "{what}: id {id} presence {} but reads {got:?}", ctx.contains(&id));
        let handle = ctx.node(id);
        ensure!(handle.try_deref().map(|x| x.val) == got && handle.is_virtual() == got.is_none(), "{what}: the handle to {id} disagrees");
    }
    Ok(())
}

fn ops(ctx: &Context<'_, W>, m: &mut M, n: u32, span: u32, r: &mut Rng) {
    for i in 0..n {
        let id = r.below(span as u64) as u32;
        if r.chance(1, 4) {
            ctx.delete(id);
            m.remove(&id);
        } else {
            let val = i as u64 * 1000 + r.below(1000);
            ctx.save(W { id, val });
            m.insert(id, val);
        }
    }
}

/// long transactions, deep ones, and ones whose nested transactions are long
pub fn tx(cfg: &Cfg, fail: bool) -> R {
    for (k, n) in [40u32, 300, 1300, 3000, 12000].into_iter().enumerate() {
        for nested in [false, true] {
            if nested && n > 5000 {
                continue;
            }
            let mut r = Rng::new(cfg.seed * 29 + k as u64);
            let span = n / 2 + 3;
            let m0: M = (0..span).filter(|i| i % 3 == 0).map(|i| (i, i as u64)).collect();
            let schema = Schema::from(m0.iter().map(|(id, val)| W { id: *id, val: *val }).collect::<Graph<W>>());
            case(format!("a{} transaction of {n} operations over {span} ids (seed {}){}", if nested { " nested" } else { "" }, cfg.seed, if fail { ", failing" } else { "" }));
            let mut m = m0.clone();
            let mut res: R = Ok(());
            let out = schema.transaction().with(|ctx| {
                res = (|| {
                    let probe = (0..span).step_by((span as usize / 60).max(1));
                    if !nested {
                        ops(&ctx, &mut m, n, span, &mut r);
                        return look(&ctx, &m, probe, "in the transaction");
                    }
                    ops(&ctx, &mut m, n / 2, span, &mut r);
                    let before = m.clone();
                    let o: PResult<()> = ctx.transaction().with(|sub| {
                        ops(&sub, &mut m, n, span, &mut r);
                        look(&sub, &m, probe.clone(), "in the nested transaction").map_err(Error::custom)?;
                        look(&ctx, &before, probe.clone(), "in the parent, meanwhile").map_err(Error::custom)?;
                        if fail { Err(Error::custom("mine")) } else { Ok(()) }
                    });
                    match o {
                        Ok(()) if !fail => {}
                        Err(e) if fail && text(&e) == "mine" => m = before,
                        o => return Err(format!("the nested transaction reports {:?}", o.map_err(|e| text(&e)))),
                    }
                    look(&ctx, &m, probe, "in the parent, afterwards")?;
                    ops(&ctx, &mut m, 50, span, &mut r);
                    look(&ctx, &m, 0..span.min(80), "in the parent, later")
                })();
                if fail { Err(Error::custom("mine")) } else { Ok(7) }
            });
            res?;
            match out {
                Ok(7) if !fail => {}
                Err(e) if fail && text(&e) == "mine" => m = m0,
                o => return Err(format!("the transaction reports {:?}", o.map_err(|e| text(&e)))),
            }
            same(&schema.read(), &m, "afterwards")?;
        }
    }
    Ok(())
}

fn dive(ctx: &Context<'_, W>, m: &mut M, depth: u32, fail: bool) -> R {
    look(ctx, m, 0..6, &format!("{depth} levels above the bottom"))?;
    if depth == 0 {
        return Ok(());
    }
    let before = m.clone();
    let mut res: R = Ok(());
    let o = ctx.transaction().with(|sub| {
        res = (|| {
            sub.save(W { id: depth % 5, val: depth as u64 });
            m.insert(depth % 5, depth as u64);
            sub.delete((depth + 2) % 5);
            m.remove(&((depth + 2) % 5));
            look(&sub, m, 0..6, "nested")?;
            look(ctx, &before, 0..6, "the parent, meanwhile")?;
            dive(&sub, m, depth - 1, fail)
        })();
        if fail && depth % 3 == 0 { Err(Error::custom("mine")) } else { Ok(()) }
    });
    res?;
    if o.is_err() {
        *m = before;
    }
    ensure!(o.is_ok() != (fail && depth % 3 == 0), "a nested transaction {depth} levels above the bottom reports {:?}", o.as_ref().map_err(text));
    look(ctx, m, 0..6, &format!("{depth} levels above the bottom, afterwards"))
}

pub fn deep(_: &Cfg, fail: bool) -> R {
    for depth in [3u32, 8, 20, 60] {
        case(format!("transactions nested {depth} deep{}", if fail { ", every third failing" } else { "" }));
        let m0: M = (0..3).map(|i| (i, i as u64 + 500)).collect();
        let schema = Schema::from(m0.iter().map(|(id, val)| W { id: *id, val: *val }).collect::<Graph<W>>());
        let mut m = m0.clone();
        let mut res: R = Ok(());
        let o = schema.transaction().with(|ctx| {
            res = dive(&ctx, &mut m, depth, fail);
            Ok(())
        });
        res?;
        ensure!(o.is_ok(), "the outermost transaction reports {:?}", o.map_err(|e| text(&e)));
        same(&schema.read(), &m, "afterwards")?;
    }
    Ok(())
}

pub fn triggers(cfg: &Cfg) -> R {
    struct Ev;
    struct Other;
    for n in [10usize, 70, 300, 1100] {
        for bad in [None, Some(n - 1), Some(n / 2)] {
            case(format!("{n} triggers of one event, interleaved with another's; failing one: {bad:?} (seed {})", cfg.seed));
            let ran: Rc<RefCell<Vec<usize>>> = Default::default();
            let mut s = Schema::from(Graph::<W>::default());
            for i in 0..n {
                let l = ran.clone();
                s = s.with_trigger(Ev, move |_: Ctx<W>| {
                    l.borrow_mut().push(i);
                    if bad == Some(i) { Err(Error::custom(format!("trigger {i}"))) } else { Ok(()) }
                });
                if i % 4 == 0 {
                    let l = ran.clone();
                    s = s.with_trigger(Other, move |_: Ctx<W>| {
                        l.borrow_mut().push(n + i);
                        Ok(())
                    });
                }
            }
            let mut res = Ok(());
            let _ = s.transaction().with(|ctx| {
                res = s.triggers().select(Ev).execute(&ctx).map_err(|e| text(&e));
                Ok(())
            });
            let want: Vec<usize> = (0..bad.map(|b| b + 1).unwrap_or(n)).collect();
            ensure!(*ran.borrow() == want, "{} triggers ran, not the first {} in order", ran.borrow().len(), want.len());
            ensure!(res == bad.map(|b| Err(format!("trigger {b}"))).unwrap_or(Ok(())), "the event reports {res:?}");
        }
    }
    Ok(())
}

#[derive(Debug, PartialEq)]
struct K<const I: usize>(usize);

macro_rules! each {
    ($m:ident $s:ident $($a:literal)*) => { $($m!($s, $a 0); $m!($s, $a 1); $m!($s, $a 2); $m!($s, $a 3); $m!($s, $a 4); $m!($s, $a 5); $m!($s, $a 6); $m!($s, $a 7);)* };
}
macro_rules! put {
    ($s:ident, $a:literal $b:literal) => { $s = $s.with_resource(K::<{ $a * 8 + $b }>($a * 8 + $b)) };
}
macro_rules! again {
    ($s:ident, $a:literal $b:literal) => { $s = $s.with_resource(K::<{ $a * 8 + $b }>(9000 + $a * 8 + $b)) };
}
macro_rules! got {
    ($s:ident, $a:literal $b:literal) => {{
        let x = Res::<K<{ $a * 8 + $b }>>::from($s.resources()).with(|x| x.0);
        let want = if $a < 5 { 9000 } else { 0 } + $a * 8 + $b;
        ensure!(x == Some(want), "resource type {} holds {x:?}, expected {want}", $a * 8 + $b);
    }};
}

pub fn resources(_: &Cfg) -> R {
    case("320 resource types, the first 40 registered twice");
    let mut s = Schema::from(Graph::<W>::default());
    each!(put s 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    each!(again s 0 1 2 3 4);
    each!(got s 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);
    ensure!(!Res::<K<4000>>::from(s.resources()).exists(), "a resource type never registered exists");
    Ok(())
}
