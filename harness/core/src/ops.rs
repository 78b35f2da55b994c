//! P10-P13: save, delete and triggers against a model.
use crate::nodes::*;
use crate::*;
use plotline::deref::{ReadWrite, TryDerefMut, With, WithMut};
use plotline::graph::{Graph, Source};
use plotline::schema::{
    ops::{delete::*, save::*},
    resource::Res,
    transaction::{Context, Ctx, Target, Transaction},
    trigger::Trigger,
    Error, Result as PResult, Schema,
};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Act {
    /// change the target's value
    Set(u32),
    /// change the target's id
    SetId(u8),
    /// save / delete another node through a nested transaction
    Save(u8, u32),
    Delete(u8),
    /// a nested transaction which fails, after saving
    Undone(u8, u32),
    Fail(u32),
    FailNoop,
    Panic(u32),
    /// leaves the target's lock poisoned
    Poison,
    /// looks at the target and at an id
    Look(u8),
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Run(usize),
    Target(Option<N>),
    Sees(u8, Option<N>),
}

#[derive(Clone, Debug)]
struct Tr {
    event: u8,
    acts: Vec<Act>,
}

fn racts(r: &mut Rng, calm: bool) -> Vec<Act> {
    (0..r.below(4))
        .map(|_| {
            let id = r.below(IDS as u64) as u8;
            let v = r.below(100000) as u32;
            match r.below(if calm { 7 } else { 12 }) {
                0 | 1 => Act::Set(v),
                2 => Act::Save(id, v),
                3 => Act::Delete(id),
                4 => Act::Undone(id, v),
                5 => Act::Look(id),
                6 => Act::SetId(id),
                7 | 8 => Act::Fail(v),
                9 => Act::FailNoop,
                10 => Act::Panic(v),
                _ => Act::Poison,
            }
        })
        .collect()
}

type Log = Rc<RefCell<Vec<Ev>>>;

fn trigger(k: usize, acts: Vec<Act>, log: Log) -> impl Fn(Ctx<N>, Target<N>) -> PResult<()> {
    move |ctx: Ctx<N>, target: Target<N>| -> PResult<()> {
        log.borrow_mut().push(Ev::Run(k));
        for a in &acts {
            match a {
                Act::Set(v) => {
                    target.with_mut(|t| t.val = *v);
                }
                Act::SetId(i) => {
                    target.with_mut(|t| t.id = *i);
                }
                Act::Save(i, v) => ctx.transaction().with(|c| { c.save(n(*i, *v)); Ok(()) })?,
                Act::Delete(i) => ctx.transaction().with(|c| { c.delete(*i); Ok(()) })?,
                Act::Undone(i, v) => {
                    let _ = ctx.transaction().with(|c| { c.save(n(*i, *v)); c.delete(i + 1); Err::<(), _>(Error::Noop) });
                }
                Act::Fail(v) => return Err(Error::custom(format!("mine {v}"))),
                Act::FailNoop => return Err(Error::Noop),
                Act::Panic(v) => std::panic::panic_any(Mine(*v)),
                Act::Poison => {
                    let _ = catch(|| {
                        let mut g = target.write();
                        let _t = g.try_deref_mut();
                        std::panic::panic_any(Mine(0));
                    });
                }
                Act::Look(i) => {
                    let t = target.with(|t| n(t.id, t.val));
                    log.borrow_mut().push(Ev::Target(t));
                    let s = ctx.transaction().with(|c| Ok(c.get(i)))?;
                    log.borrow_mut().push(Ev::Sees(*i, s));
                }
            }
        }
        Ok(())
    }
}

#[derive(Debug, PartialEq)]
enum Stop {
    Err(String),
    Noop,
    Panic(u32),
    Poisoned,
}

/// the model: executes the triggers of an event on a working copy
fn round(trs: &[Tr], event: u8, work: &mut M, target: &mut N, poisoned: &mut bool, log: &mut Vec<Ev>) -> Result<(), Stop> {
    for (k, t) in trs.iter().enumerate().filter(|t| t.1.event == event) {
        log.push(Ev::Run(k));
        for a in &t.acts {
            match a {
                Act::Set(v) => if !*poisoned { target.val = *v },
                Act::SetId(i) => if !*poisoned { target.id = *i },
                Act::Save(i, v) => { work.insert(*i, n(*i, *v)); }
                Act::Delete(i) => { work.remove(i); }
                Act::Undone(..) => {}
                Act::Fail(v) => return Err(Stop::Err(format!("mine {v}"))),
                Act::FailNoop => return Err(Stop::Noop),
                Act::Panic(v) => return Err(Stop::Panic(*v)),
                Act::Poison => *poisoned = true,
                Act::Look(i) => {
                    log.push(Ev::Target(if *poisoned { None } else { Some(target.clone()) }));
                    log.push(Ev::Sees(*i, work.get(i).cloned()));
                }
            }
        }
    }
    Ok(())
}

fn schema_of(graph: &M, trs: &[Tr], log: &Log) -> Schema<N> {
    let mut s = Schema::from(graph.values().cloned().collect::<Graph<N>>());
    for (k, t) in trs.iter().enumerate() {
        let f = trigger(k, t.acts.clone(), log.clone());
        s = match t.event {
            0 => s.with_trigger(BeforeSave, f),
            1 => s.with_trigger(AfterSave, f),
            2 => s.with_trigger(BeforeDelete, f),
            _ => s.with_trigger(AfterDelete, f),
        };
    }
    s
}

fn dump(g: &Graph<N>) -> M {
    g.into_iter().map(|x| (x.id, n(x.id, x.val))).collect()
}

fn copy(m: &M) -> M {
    m.values().map(|x| (x.id, n(x.id, x.val))).collect()
}

fn operations(cfg: &Cfg, delete: bool, rounds: u64) -> R {
    for i in cfg.rounds(rounds) {
        let mut r = Rng::new(cfg.seed * 104729 + i * 2 + delete as u64);
        let mut graph = M::new();
        for _ in 0..r.below(6) {
            let id = r.below(IDS as u64) as u8;
            graph.insert(id, n(id, r.below(1000) as u32));
        }
        let calm = r.chance(1, 2);
        let trs: Vec<Tr> = (0..r.below(6)).map(|_| Tr { event: if r.chance(3, 4) { r.below(2) as u8 + 2 * delete as u8 } else { r.below(4) as u8 }, acts: racts(&mut r, calm) }).collect();
        let node = n(r.below(IDS as u64) as u8, 500000 + r.below(100) as u32);
        let nested = r.below(3);
        let what = if delete { format!("delete {}", node.id) } else { format!("save {node:?}") };
        case(format!("graph {:?}, triggers (event 0 before-save 1 after-save 2 before-delete 3 after-delete) {trs:?}, {what}, {nested} levels of nesting",
            graph.values().map(|x| (x.id, x.val)).collect::<Vec<_>>()));
        // model
        let mut want_log = vec![];
        let mut work = copy(&graph);
        let mut poisoned = false;
        let (b, a) = if delete { (2, 3) } else { (0, 1) };
        let present = graph.get(&node.id).map(|x| n(x.id, x.val));
        let want: Result<(), Stop> = (|| {
            let mut target = if delete { present.clone().ok_or(Stop::Noop)? } else { node.clone() };
            round(&trs, b, &mut work, &mut target, &mut poisoned, &mut want_log)?;
            if delete {
                work.remove(&node.id);
            } else if poisoned {
                return Err(Stop::Poisoned);
            } else {
                work.insert(target.id, target.clone());
            }
            round(&trs, a, &mut work, &mut target, &mut poisoned, &mut want_log)
        })();
        if want.is_err() {
            work = copy(&graph);
        }
        // real
        let log: Log = Default::default();
        let schema = schema_of(&graph, &trs, &log);
        let mut parent_view: Option<M> = None;
        let res = catch(|| {
            fn go(ctx: &Context<'_, N>, left: u64, delete: bool, node: &N, view: &mut Option<M>) -> PResult<()> {
                if left > 1 {
                    return ctx.transaction().with(|c| go(&c, left - 1, delete, node, view));
                }
                let r = if delete { Delete::new(node.id).execute(ctx.transaction()) } else { Save::new(node.clone()).execute(ctx.transaction()) };
                *view = Some((0..=IDS).filter_map(|i| ctx.get(&i).map(|x| (i, x))).collect());
                r
            }
            if nested == 0 {
                if delete { Delete::new(node.id).execute(schema.transaction()) } else { Save::new(node.clone()).execute(schema.transaction()) }
            } else {
                schema.transaction().with(|c| go(&c, nested, delete, &node, &mut parent_view))
            }
        });
        match (&res, &want) {
            (Ok(Ok(())), Ok(())) => {}
            (Ok(Err(Error::Noop)), Err(Stop::Noop)) => {}
            (Ok(Err(e @ Error::Msg(_))), Err(Stop::Err(t))) if text(e) == *t => {}
            (Ok(Err(_)), Err(Stop::Poisoned)) => {}
            (Err(p), Err(Stop::Panic(v))) if p.downcast_ref::<Mine>().is_some_and(|m| m.0 == *v) => {}
            _ => {
                let got = match &res { Ok(Ok(())) => "success".into(), Ok(Err(e)) => format!("error '{}'", text(e)), Err(p) => format!("panic {}", panic_text(p)) };
                return Err(format!("{what} reported {got}, expected {want:?}"));
            }
        }
        let got = log.borrow();
        ensure!(*got == want_log, "triggers observed {got:?}, expected {want_log:?}");
        let now = dump(&schema.read());
        ensure!(now == work, "afterwards the graph is {now:?}, expected {work:?}");
        if let Some(v) = parent_view {
            ensure!(v == work, "afterwards the enclosing transaction reads {v:?}, expected {work:?}");
        }
    }
    Ok(())
}

pub fn p10(cfg: &Cfg) -> R {
    operations(cfg, false, 20000)
}

pub fn p11(cfg: &Cfg) -> R {
    operations(cfg, true, 20000)
}

/// P14: endings through operations, with triggers that fail or panic, leave the schema usable
pub fn endings(cfg: &Cfg) -> R {
    for i in cfg.rounds(1500) {
        let mut r = Rng::new(cfg.seed * 15485863 + i);
        let trs: Vec<Tr> = (0..r.below(4)).map(|_| Tr { event: r.below(4) as u8, acts: racts(&mut r, false) }).collect();
        let ops: Vec<(bool, u8)> = (0..4).map(|_| (r.chance(1, 2), r.below(IDS as u64) as u8)).collect();
        case(format!("triggers {trs:?}, operations (true: save) {ops:?}"));
        let log: Log = Default::default();
        let graph: M = (0..3).map(|i| (i, n(i, 1))).collect();
        let schema = schema_of(&graph, &trs, &log);
        for (save, id) in ops {
            let _ = catch(|| if save { Save::new(n(id, 9)).execute(schema.transaction()) } else { Delete::<N>::new(id).execute(schema.transaction()) });
            let ok = catch(|| {
                let before = dump(&schema.read());
                schema.write().insert(n(IDS + 3, 1));
                schema.write().remove(&(IDS + 3));
                schema.transaction().with(|c| Ok(c.get(&0))).is_ok() && dump(&schema.read()) == before
            });
            ensure!(matches!(ok, Ok(true)), "the schema is not usable after an operation on {id}");
        }
    }
    Ok(())
}

/// a destructor that works on a schema, or on the context of an open transaction
struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

/// transactions made while a panic unwinds
pub fn unwinding() -> R {
    case("a transaction made by a destructor while a panic unwinds");
    let schema = Schema::from(Graph::<N>::default().with_node(n(1, 1)));
    let mut done = vec![];
    let _ = catch(|| {
        let _later = OnDrop(|| {
            done.push(Save::new(n(2, 5)).execute(schema.transaction()).is_ok());
            done.push(Delete::<N>::new(1).execute(schema.transaction()).is_ok());
        });
        panic!("unwind")
    });
    ensure!(done == [true, true], "the transactions report {done:?}");
    let want: M = [(2, n(2, 5))].into_iter().collect();
    ensure!(dump(&schema.read()) == want, "the graph holds {:?}, expected {want:?}", dump(&schema.read()));
    case("a nested transaction made by a destructor while a panic unwinds");
    let mut done = vec![];
    let res = schema.transaction().with(|ctx| {
        let _ = catch(|| {
            let _later = OnDrop(|| {
                done.push(ctx.transaction().with(|c| Ok(c.save(n(3, 5)))).is_ok());
                done.push(ctx.transaction().with(|c| Ok(c.delete(2))).is_ok());
            });
            panic!("unwind")
        });
        ensure2(done == [true, true])?;
        ensure2(ctx.contains(&3) && !ctx.contains(&2))
    });
    ensure!(res.is_ok(), "operations of the nested transactions do not show, they report {done:?}");
    let want: M = [(3, n(3, 5))].into_iter().collect();
    ensure!(dump(&schema.read()) == want, "the graph holds {:?}, expected {want:?}", dump(&schema.read()));
    Ok(())
}

struct A0;
struct A1;
struct Probe<const K: usize>(usize);
thread_local!(static ORDER: RefCell<Vec<usize>> = const { RefCell::new(vec![]) });
impl<const K: usize> From<&Context<'_, N>> for Probe<K> {
    fn from(c: &Context<'_, N>) -> Self {
        ORDER.with(|o| o.borrow_mut().push(K));
        Probe(c.get(&0).map(|x| x.val as usize).unwrap_or(usize::MAX))
    }
}

/// types of the same name, in the eyes of type_name, are not the same event
fn namesakes() -> R {
    case("two events whose types have the same name");
    let log: Rc<RefCell<Vec<u8>>> = Default::default();
    let (l1, l2) = (log.clone(), log.clone());
    let mut s = Schema::from(Graph::<N>::default());
    s = {
        struct Same;
        s.with_trigger(Same, move |_: Ctx<N>| -> PResult<()> { l1.borrow_mut().push(1); Ok(()) })
    };
    struct Other;
    s = {
        struct Same;
        let s = s.with_trigger(Same, move |_: Ctx<N>| -> PResult<()> { l2.borrow_mut().push(2); Ok(()) });
        s.transaction().with(|ctx| ctx.triggers().select(Same).execute(&ctx)).map_err(|e| text(&e))?;
        ensure!(*log.borrow() == [2], "ran triggers {:?}, expected [2]", log.borrow());
        s
    };
    s.transaction().with(|ctx| ctx.triggers().select(Other).execute(&ctx)).map_err(|e| text(&e))?;
    ensure!(*log.borrow() == [2], "an event without triggers ran some");
    Ok(())
}

pub fn p12(cfg: &Cfg) -> R {
    namesakes()?;
    large::triggers(cfg)?;
    #[derive(Clone)]
    struct S2;
    struct S3<T>(#[allow(dead_code)] T);
    for i in cfg.rounds(12000) {
        let mut r = Rng::new(cfg.seed * 6151 + i);
        let n_ = r.below(8) as usize;
        // (event, arity, outcome: 0 ok, 1 error, 2 noop)
        let trs: Vec<(u64, u64, u64)> = (0..n_).map(|_| (r.below(5), r.below(8), if r.chance(1, 5) { 1 + r.below(2) } else { 0 })).collect();
        case(format!("triggers (event, arity, outcome: 0 ok 1 error 2 no-op) {trs:?}"));
        let log: Rc<RefCell<Vec<usize>>> = Default::default();
        let mut s = Schema::from(Graph::<N>::default());
        for (k, (e, ar, out)) in trs.iter().copied().enumerate() {
            let l = log.clone();
            let run = move || -> PResult<()> {
                l.borrow_mut().push(k);
                match out {
                    0 => Ok(()),
                    1 => Err(Error::custom(format!("trigger {k}"))),
                    _ => Err(Error::Noop),
                }
            };
            macro_rules! add {
                ($ev:expr) => {
                    match ar {
                        0 => s.with_trigger($ev, move |_: Ctx<N>| run()),
                        1 => s.with_trigger($ev, move |_: Ctx<N>, _: Target<N>| run()),
                        2 => s.with_trigger($ev, move |_: Ctx<N>, _: Res<u8>, _: Target<N>| run()),
                        // the same, of other sizes and alignments
                        3 => s.with_trigger($ev, move |_: Ctx<N>| {
                            std::hint::black_box(&[k as u8; 61]);
                            run()
                        }),
                        4 => {
                            let pad = [k as u128; 9];
                            s.with_trigger($ev, move |_: Ctx<N>| {
                                std::hint::black_box(&pad);
                                run()
                            })
                        }
                        5 => {
                            let pad = [k as u8; 3];
                            s.with_trigger($ev, move |_: Ctx<N>, _: Target<N>| {
                                std::hint::black_box(&pad);
                                run()
                            })
                        }
                        6 => {
                            let run = Box::new(run);
                            s.with_trigger($ev, move |_: Ctx<N>| run())
                        }
                        _ => s.with_trigger($ev, move |_: Ctx<N>, _: Probe<0>, _: Probe<1>, _: Res<u8>| run()),
                    }
                };
            }
            s = match e {
                0 => add!(A0),
                1 => add!(A1),
                2 => add!(S2),
                3 => add!(S3(1u8)),
                _ => add!(S3("x")),
            };
        }
        for _ in 0..2 {
            for ev in 0..6u64 {
                log.borrow_mut().clear();
                let res = s
                    .transaction()
                    .with(|ctx| {
                        let t = s.triggers();
                        Ok(match ev {
                            0 => t.select(A0).execute(&ctx),
                            1 => t.select(A1).execute(&ctx),
                            2 => t.select(S2).execute(&ctx),
                            3 => t.select(S3(7u8)).execute(&ctx),
                            4 => t.select(S3("y")).execute(&ctx),
                            _ => t.select(S3(1u64)).execute(&ctx),
                        })
                    })
                    .map_err(|e| text(&e))?;
                let mut want = vec![];
                let mut err: Option<(usize, u64)> = None;
                for (k, t) in trs.iter().enumerate() {
                    if t.0 == ev {
                        want.push(k);
                        if t.2 != 0 {
                            err = Some((k, t.2));
                            break;
                        }
                    }
                }
                ensure!(*log.borrow() == want, "event {ev} ran triggers {:?}, expected {want:?}", log.borrow());
                match (&res, err) {
                    (Ok(()), None) => {}
                    (Err(Error::Noop), Some((_, 2))) => {}
                    (Err(Error::Msg(m)), Some((k, 1))) if *m == format!("trigger {k}") => {}
                    _ => return Err(format!("event {ev} reported {:?}, expected failure of {err:?}", res.as_ref().map_err(text))),
                }
            }
        }
    }
    Ok(())
}

pub fn p13(cfg: &Cfg) -> R {
    // arguments of every arity, in order, from the very context
    for val in [3u32, 9] {
        case(format!("triggers with 0 to 8 arguments, node 0 with value {val}"));
        let hits: Rc<RefCell<Vec<(Vec<usize>, Vec<usize>)>>> = Default::default();
        let mut s = Schema::from(Graph::<N>::default().with_node(n(0, 1)));
        macro_rules! add {
            ($($k:literal $a:ident),*) => {{
                let h = hits.clone();
                s = s.with_trigger(A0, move |c: Ctx<N>, $($a: Probe<$k>),*| {
                    let order = ORDER.with(|o| std::mem::take(&mut *o.borrow_mut()));
                    h.borrow_mut().push((order, vec![$($a.0),*]));
                    c.transaction().with(|c| { let v = c.get(&7).map(|x| x.val).unwrap_or(0); c.save(n(7, v + 1)); Ok(()) })
                });
            }};
        }
        add!();
        add!(0 a);
        add!(0 a, 1 b);
        add!(0 a, 1 b, 2 c1);
        add!(0 a, 1 b, 2 c1, 3 d);
        add!(0 a, 1 b, 2 c1, 3 d, 4 e);
        add!(0 a, 1 b, 2 c1, 3 d, 4 e, 5 f);
        add!(0 a, 1 b, 2 c1, 3 d, 4 e, 5 f, 6 g);
        add!(0 a, 1 b, 2 c1, 3 d, 4 e, 5 f, 6 g, 7 h1);
        ORDER.with(|o| o.borrow_mut().clear());
        let seen = s
            .transaction()
            .with(|ctx| {
                ctx.save(n(0, val));
                s.triggers().select(A0).execute(&ctx)?;
                Ok(ctx.get(&7))
            })
            .map_err(|e| text(&e))?;
        for (k, (order, vals)) in hits.borrow().iter().enumerate() {
            let want: Vec<usize> = (0..k).collect();
            ensure!(*order == want, "trigger with {k} arguments took them in order {order:?}");
            ensure!(vals.iter().all(|v| *v == val as usize), "trigger with {k} arguments got {vals:?} from another context");
        }
        ensure!(hits.borrow().len() == 9, "{} of 9 triggers ran", hits.borrow().len());
        ensure!(seen == Some(n(7, 9)), "nested transactions of triggers became {seen:?} in the operation's context, expected value 9");
        ensure!(s.read().get(&7) == Some(n(7, 9)), "nested transactions of triggers are not part of the operation");
    }
    // no target
    case("a context without a target");
    let none: Rc<RefCell<Vec<bool>>> = Default::default();
    let h = none.clone();
    let s = Schema::from(Graph::<N>::default()).with_trigger(A0, move |_: Ctx<N>, t: Target<N>| {
        h.borrow_mut().push(t.with(|_| ()).is_some() || t.with_mut(|_| ()).is_some());
        Ok(())
    });
    s.transaction()
        .with(|ctx| {
            s.triggers().select(A0).execute(&ctx)?;
            ctx.transaction().with(|c| s.triggers().select(A0).execute(&c))?;
            let with = ctx.with_target(n(1, 1));
            let inner = with.transaction().with(|c| {
                s.triggers().select(A0).execute(&c)?;
                let deeper = c.transaction().with(|d| Ok(Target::from(&d).with(|_| ()).is_some()))?;
                Ok(deeper || c.target().with(|_| ()).is_some() || Target::from(&c).with(|_| ()).is_some())
            });
            ensure2(matches!(inner, Ok(false)))?;
            s.triggers().select(A0).execute(&with)
        })
        .map_err(|e| format!("a nested context offers the enclosing context's target ({})", text(&e)))?;
    ensure!(*none.borrow() == [false, false, false, true], "target offered: {:?}, expected [false, false, false, true]", none.borrow());
    // shared target, nested operations with targets of their own
    for i in cfg.rounds(3000) {
        let mut r = Rng::new(cfg.seed * 911 + i);
        let k = 1 + r.below(5) as usize;
        let steps: Vec<u32> = (0..k).map(|_| r.below(1000) as u32).collect();
        let inner_at = r.below(6) as usize;
        case(format!("save with before triggers setting the target to {steps:?}, trigger {inner_at} performing another save"));
        let log: Rc<RefCell<Vec<(usize, N)>>> = Default::default();
        let mut s = Schema::from(Graph::<N>::default()).with_resource(41u64);
        for (j, v) in steps.iter().copied().enumerate() {
            let l = log.clone();
            s = s.with_trigger(BeforeSave, move |ctx: Ctx<N>, t: Target<N>, r: Res<u64>, none: Res<i8>| {
                let cur = t.with(|x| x.clone()).ok_or(Error::Noop)?;
                ensure2(r.with(|x| *x) == Some(41) && !none.exists())?;
                if cur.id == 3 {
                    return Ok(());
                }
                l.borrow_mut().push((j, cur));
                t.with_mut(|x| x.val = v).ok_or(Error::Noop)?;
                if j == inner_at {
                    Save::new(n(3, 77)).execute(ctx.transaction())?;
                }
                Ok(())
            });
        }
        let res = Save::new(n(2, 0)).execute(s.transaction());
        ensure!(res.is_ok(), "the save reported {:?}", res.map_err(|e| text(&e)));
        let mut want = vec![];
        let mut cur = 0;
        for (j, v) in steps.iter().enumerate() {
            want.push((j, n(2, cur)));
            cur = *v;
        }
        ensure!(*log.borrow() == want, "triggers saw targets {:?}, expected {want:?}", log.borrow());
        let mut g: M = M::new();
        g.insert(2, n(2, cur));
        if inner_at < k {
            g.insert(3, n(3, 77));
        }
        ensure!(dump(&s.read()) == g, "afterwards the graph is {:?}, expected {g:?}", dump(&s.read()));
    }
    operations(cfg, false, 3000)?;
    operations(cfg, true, 3000)
}

fn ensure2(b: bool) -> PResult<()> {
    if b { Ok(()) } else { Err(Error::custom("unexpected arguments")) }
}
