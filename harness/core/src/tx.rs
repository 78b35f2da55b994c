//! P05-P09 and P14: random transaction programs against a model of operation logs.
use crate::nodes::*;
use crate::*;
use plotline::deref::TryDeref;
use plotline::graph::{Graph, Source};
use plotline::schema::{transaction::{Context, Transaction}, Error, Schema};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Op {
    Save(usize, u8, u32),
    Delete(usize, u8),
    /// user code panics during a read; the panic is caught
    BadRead(usize, u8, u32),
    /// opens a transaction and drops it without running it
    Unrun(usize),
    /// nested transaction on an open context
    Nest(usize, Vec<Op>, End),
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Ok(u32),
    Err(u32),
    Noop,
    Panic(u32),
    /// the context outlives the body
    Leak(u32),
}

fn rend(r: &mut Rng, bias: u64) -> End {
    let v = r.below(100000) as u32;
    match r.below(10) {
        x if x < bias => End::Ok(v),
        7 => End::Noop,
        8 => End::Leak(v),
        9 => End::Panic(v),
        _ => End::Err(v),
    }
}

fn rops(r: &mut Rng, depth: usize, len: u64) -> Vec<Op> {
    (0..r.below(len))
        .map(|_| {
            let on = if r.chance(2, 3) { 0 } else { r.below(4) as usize };
            let id = r.below(IDS as u64) as u8;
            match r.below(if depth < 4 { 12 } else { 9 }) {
                0..=4 => Op::Save(on, id, r.below(100000) as u32),
                5..=6 => Op::Delete(on, id),
                7 => Op::BadRead(on, id, 1 + r.below(6) as u32),
                8 => Op::Unrun(on),
                _ => {
                    let body = rops(r, depth + 1, len);
                    let e = rend(r, 6);
                    Op::Nest(on, body, e)
                }
            }
        })
        .collect()
}

#[derive(Clone)]
struct Ctxm {
    log: Vec<(u8, Option<N>)>,
    parent: Option<usize>,
}

struct World {
    graph: M,
    ctxs: Vec<Ctxm>,
    fails: BTreeMap<&'static str, String>,
    nested_ok: bool,
    /// an earlier top-level transaction failed
    failed_before: bool,
}

impl World {
    fn read(&self, c: usize, id: u8) -> Option<N> {
        let x = &self.ctxs[c];
        match x.log.iter().rev().find(|o| o.0 == id) {
            Some(o) => o.1.as_ref().map(|n| N { id: n.id, val: n.val, edges: vec![] }),
            None => match x.parent {
                Some(p) => self.read(p, id),
                None => self.graph.get(&id).map(|n| N { id: n.id, val: n.val, edges: vec![] }),
            },
        }
    }
    fn fail(&mut self, class: &'static str, s: String) {
        self.fails.entry(class).or_insert(s);
    }
    /// every open context reads as the model says
    fn look(&mut self, ctxs: &[(usize, &Context<'_, N>)], class: &'static str, when: &str) {
        for (i, c) in ctxs {
            for id in 0..=IDS {
                let want = self.read(*i, id);
                let got = c.get(&id);
                let pres = c.contains(&id);
                let h = c.node(id).try_deref().cloned();
                let off = got != want || pres != want.is_some() || h != want;
                if off && self.failed_before && when == "transaction opened" {
                    self.fail("failed-shows", format!("a transaction opened after a failed one reads {id} as {got:?}, expected {want:?}"));
                }
                if got != want || pres != want.is_some() || h != want {
                    self.fail(class, format!("{when}: context {i} reads {id} as get {got:?}, contains {pres}, node {h:?}; expected {want:?}"));
                    self.fail("read", format!("{when}: context {i} reads {id} as get {got:?}, contains {pres}, node {h:?}; expected {want:?}"));
                }
            }
        }
    }
}

fn body(w: &mut World, ctxs: &[(usize, &Context<'_, N>)], ops: &[Op]) {
    for op in ops {
        let pick = |on: &usize| ctxs[ctxs.len() - 1 - on % ctxs.len()];
        match op {
            Op::Save(on, id, v) => {
                let (i, c) = pick(on);
                c.save(n(*id, *v));
                w.ctxs[i].log.push((*id, Some(n(*id, *v))));
                w.look(ctxs, "after-op", &format!("after {op:?}"));
            }
            Op::Delete(on, id) => {
                let (i, c) = pick(on);
                c.delete(*id);
                w.ctxs[i].log.push((*id, None));
                w.look(ctxs, "after-op", &format!("after {op:?}"));
            }
            Op::BadRead(on, id, k) => {
                let (_, c) = pick(on);
                TRAP.with(|t| t.set(*k));
                let _ = catch(|| (c.get(id), c.contains(id)));
                TRAP.with(|t| t.set(0));
                w.look(ctxs, "after-op", &format!("after {op:?}"));
            }
            Op::Unrun(on) => {
                let (_, c) = pick(on);
                drop(c.transaction());
                w.look(ctxs, "after-op", &format!("after {op:?}"));
            }
            Op::Nest(on, ops, end) => {
                let (i, c) = pick(on);
                let before: Vec<Ctxm> = w.ctxs.clone();
                let me = w.ctxs.len();
                w.ctxs.push(Ctxm { log: vec![], parent: Some(i) });
                let mut runs = 0;
                let res = catch(|| c.transaction().with(|d| run_body(w, ctxs, me, d, ops, end, &mut runs)));
                let child = w.ctxs.remove(me);
                let _ = before;
                finish(w, &res, end, runs, "nested");
                let ok = matches!(res, Ok(Ok(_)));
                if ok {
                    w.ctxs[i].log.extend(child.log);
                    w.nested_ok = true;
                }
                w.look(ctxs, if ok { "nested-ok" } else { "nested-failed" }, &format!("after nested transaction on {i} ending {end:?}"));
            }
        }
    }
}

fn run_body(w: &mut World, ctxs: &[(usize, &Context<'_, N>)], me: usize, d: Context<'_, N>, ops: &[Op], end: &End, runs: &mut u32) -> Result<u32, Error> {
    *runs += 1;
    let d = if ops.len() % 3 == 2 { d.with_target(n(0, 1)) } else { d };
    {
        let mut v: Vec<(usize, &Context<'_, N>)> = ctxs.to_vec();
        v.push((me, &d));
        w.look(&v, "open", "nested transaction opened");
        body(w, &v, ops);
    }
    match end {
        End::Ok(v) => Ok(*v),
        End::Err(v) => Err(Error::custom(format!("mine {v}"))),
        End::Noop => Err(Error::Noop),
        End::Panic(v) => std::panic::panic_any(Mine(*v)),
        End::Leak(v) => {
            std::mem::forget(d);
            Ok(*v)
        }
    }
}

type Out = Result<Result<u32, Error>, Box<dyn std::any::Any + Send>>;

fn finish(w: &mut World, res: &Out, end: &End, runs: u32, what: &'static str) {
    let (ok, er) = if what == "nested" { ("nested-value", "nested-error") } else { ("top-value", "top-error") };
    if runs != 1 {
        w.fail(ok, format!("{what} body ran {runs} times"));
    }
    match (res, end) {
        (Ok(Ok(v)), End::Ok(x) | End::Leak(x)) => {
            if v != x {
                w.fail(ok, format!("{what} transaction returned {v}, its body {x}"));
            }
        }
        (Ok(Err(_)), End::Leak(_)) => {}
        (Ok(Err(e)), End::Err(x)) => {
            if text(e) != format!("mine {x}") || matches!(e, Error::Noop) {
                w.fail(er, format!("{what} transaction reported '{}', its body 'mine {x}'", text(e)));
            }
        }
        (Ok(Err(Error::Noop)), End::Noop) => {}
        (Err(p), End::Panic(x)) => match p.downcast_ref::<Mine>() {
            Some(m) if m.0 == *x => {}
            _ => w.fail(er, format!("{what} transaction panicked with another payload: {}", panic_text(p))),
        },
        (Err(p), _) => {
            let t = panic_text(p);
            w.fail("panic", format!("{what} transaction ending {end:?} panicked: {t}"));
            w.fail(er, format!("{what} transaction ending {end:?} panicked: {t}"));
            w.fail(ok, format!("{what} transaction ending {end:?} panicked: {t}"));
        }
        (r, End::Ok(_)) => {
            let t = match r { Ok(Err(e)) => text(e), _ => "?".into() };
            w.fail(ok, format!("{what} transaction whose body succeeded ({end:?}) reported '{t}'"));
        }
        (r, _) => {
            let t = match r { Ok(Ok(v)) => format!("success {v}"), Ok(Err(e)) => text(e), _ => "?".into() };
            w.fail(er, format!("{what} transaction ending {end:?} reported {t}"));
        }
    }
}

fn dump(g: &Graph<N>) -> M {
    g.into_iter().map(|x| (x.id, n(x.id, x.val))).collect()
}

/// runs random histories; reports failures of the given classes only
fn programs(cfg: &Cfg, rounds: u64, bias: u64, classes: &[&'static str]) -> R {
    for i in cfg.rounds(rounds) {
        let mut r = Rng::new(cfg.seed * 7919 + i);
        let mut graph = M::new();
        for _ in 0..r.below(5) {
            let id = r.below(IDS as u64) as u8;
            graph.insert(id, n(id, r.below(1000) as u32));
        }
        let txs: Vec<(Vec<Op>, End)> = (0..1 + r.below(3)).map(|_| { let o = rops(&mut r, 0, 6); let e = rend(&mut r, bias); (o, e) }).collect();
        case(format!("graph {:?}, transactions {txs:?}", graph.values().map(|x| (x.id, x.val)).collect::<Vec<_>>()));
        let schema = Schema::from(graph.values().cloned().collect::<Graph<N>>());
        let mut w = World { graph, ctxs: vec![], fails: BTreeMap::new(), nested_ok: false, failed_before: false };
        for (ops, end) in &txs {
            w.ctxs = vec![Ctxm { log: vec![], parent: None }];
            let mut runs = 0;
            let mut seen: M = M::new();
            let res = catch(|| {
                schema.transaction().with(|d| {
                    runs += 1;
                    {
                        let v = [(0usize, &d)];
                        w.look(&v, "after-op", "transaction opened");
                        body(&mut w, &v, ops);
                        for id in 0..=IDS {
                            if let Some(x) = d.get(&id) {
                                seen.insert(id, x);
                            }
                        }
                    }
                    match end {
                        End::Ok(v) => Ok(*v),
                        End::Err(v) => Err(Error::custom(format!("mine {v}"))),
                        End::Noop => Err(Error::Noop),
                        End::Panic(v) => std::panic::panic_any(Mine(*v)),
                        End::Leak(v) => {
                            std::mem::forget(d);
                            Ok(*v)
                        }
                    }
                })
            });
            finish(&mut w, &res, end, runs, "top-level");
            let ok = matches!(res, Ok(Ok(_)));
            let was = std::mem::take(&mut w.graph);
            let mut want: M = was.values().map(|x| (x.id, n(x.id, x.val))).collect();
            if ok {
                for (id, x) in std::mem::take(&mut w.ctxs[0].log) {
                    match x {
                        Some(x) => want.insert(id, x),
                        None => want.remove(&id),
                    };
                }
            }
            let now = match catch(|| dump(&schema.read())) {
                Ok(g) => g,
                Err(_) => {
                    w.fail("usable", format!("reading the graph panics after {end:?}"));
                    w.fail(if ok { "top-ok" } else { "top-failed" }, format!("reading the graph panics after {end:?}"));
                    break;
                }
            };
            if now != want {
                let d = format!("after a transaction ending {end:?} ({}) the graph is {now:?}, expected {want:?}", if ok { "success" } else { "failure" });
                w.fail(if ok { "top-ok" } else { "top-failed" }, d.clone());
                if w.nested_ok {
                    w.fail("nested-ok", d);
                }
            }
            if ok && now != seen {
                w.fail("top-ok", format!("the transaction last saw {seen:?}, the graph is {now:?}"));
            }
            // usable afterwards
            let r2 = catch(|| {
                let mut g = schema.write();
                let x = g.insert(n(IDS + 1, 5));
                let y = g.remove(&(IDS + 1));
                x.is_none() && y == Some(n(IDS + 1, 5))
            });
            if !matches!(r2, Ok(true)) {
                w.fail("usable", format!("writing the graph directly fails after {end:?}"));
            }
            drop(schema.transaction());
            let r3 = catch(|| schema.transaction().with(|c| { c.save(n(IDS + 2, 1)); Ok(1) }));
            let r4 = catch(|| schema.transaction().with(|c| { let p = c.contains(&(IDS + 2)); c.delete(IDS + 2); Ok(p) }));
            if !matches!(r3, Ok(Ok(1))) || !matches!(r4, Ok(Ok(true))) {
                w.fail("usable", format!("new transactions fail after {end:?}"));
            }
            w.graph = match catch(|| dump(&schema.read())) { Ok(g) => g, Err(_) => break };
            w.failed_before |= !ok;
            if w.graph != now {
                if w.failed_before {
                    w.fail("failed-shows", format!("after a transaction failed ({end:?}) another one saving and deleting a node left {:?}, expected {now:?}", w.graph));
                }
                w.fail("usable", "saving and deleting a node in transactions left other changes".into());
                break;
            }
        }
        for c in classes {
            if let Some(f) = w.fails.remove(c) {
                return Err(f);
            }
        }
    }
    Ok(())
}

pub fn p05(cfg: &Cfg) -> R {
    crate::ops::unwinding()?;
    large::tx(cfg, false)?;
    large::deep(cfg, false)?;
    programs(cfg, 6000, 7, &["read"])
}
pub fn p06(cfg: &Cfg) -> R {
    crate::ops::unwinding()?;
    large::tx(cfg, false)?;
    programs(cfg, 6000, 8, &["top-ok", "top-value"])
}
pub fn p07(cfg: &Cfg) -> R {
    large::tx(cfg, true)?;
    programs(cfg, 6000, 2, &["top-failed", "top-error", "failed-shows"])
}
pub fn p08(cfg: &Cfg) -> R {
    crate::ops::unwinding()?;
    large::tx(cfg, false)?;
    large::deep(cfg, false)?;
    programs(cfg, 6000, 8, &["nested-ok", "nested-value"])
}
pub fn p09(cfg: &Cfg) -> R {
    large::tx(cfg, true)?;
    large::deep(cfg, true)?;
    programs(cfg, 6000, 6, &["nested-failed", "nested-error", "open", "after-op"])
}
pub fn p14(cfg: &Cfg) -> R {
    programs(cfg, 4000, 4, &["usable", "panic"])?;
    crate::ops::endings(cfg)
}
