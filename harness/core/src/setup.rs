//! P28: setting up a schema
use crate::nodes::*;
use crate::*;
use plotline::deref::With;
use plotline::graph::Graph;
use plotline::schema::{plugin::Plugin, resource::Res, transaction::{Ctx, Transaction}, trigger::Trigger, Result as PResult, Schema};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Debug, PartialEq, Clone)]
struct A(u64);
struct E0;
struct E1(#[allow(dead_code)] u8);

#[derive(Debug, Clone)]
enum Step {
    Res(u8, u64),
    Trig(u8, usize),
    Plug(Vec<Step>),
    /// looks at the schema between two steps
    Look,
}

type Log = Rc<RefCell<Vec<usize>>>;
type M = BTreeMap<u8, u32>;

struct P {
    steps: Vec<Step>,
    seen: Rc<RefCell<Seen>>,
}

struct Seen {
    log: Log,
    graph: M,
    res: [Option<u64>; 3],
    trigs: Vec<(u8, usize)>,
    plugged: usize,
    bad: Option<String>,
}

fn look(s: &Schema<N>, seen: &Rc<RefCell<Seen>>, when: &str) {
    let r = check(s, &seen.borrow());
    if let Err(e) = r {
        seen.borrow_mut().bad.get_or_insert(format!("{when}: {e}"));
    }
}

fn check(s: &Schema<N>, w: &Seen) -> R {
    let g: M = s.read().into_iter().map(|x| (x.id, x.val)).collect();
    ensure!(g == w.graph, "the graph holds {g:?}, expected {:?}", w.graph);
    let res = [
        Res::<A>::from(s.resources()).with(|x| x.0),
        Res::<u64>::from(s.resources()).with(|x| *x),
        Res::<String>::from(s.resources()).with(|x| x.parse().unwrap()),
    ];
    ensure!(res == w.res, "resources are {res:?}, expected {:?}", w.res);
    for ev in 0..2u8 {
        w.log.borrow_mut().clear();
        s.transaction()
            .with(|ctx| match ev {
                0 => s.triggers().select(E0).execute(&ctx),
                _ => s.triggers().select(E1(9)).execute(&ctx),
            })
            .map_err(|e| text(&e))?;
        let want: Vec<usize> = w.trigs.iter().filter(|t| t.0 == ev).map(|t| t.1).collect();
        ensure!(*w.log.borrow() == want, "event {ev} runs triggers {:?}, expected {want:?}", w.log.borrow());
    }
    Ok(())
}

fn apply(mut s: Schema<N>, steps: &[Step], seen: &Rc<RefCell<Seen>>) -> Schema<N> {
    for st in steps {
        s = match st {
            Step::Res(t, v) => {
                seen.borrow_mut().res[*t as usize] = Some(*v);
                match t {
                    0 => s.with_resource(A(*v)),
                    1 => s.with_resource(*v),
                    _ => s.with_resource(v.to_string()),
                }
            }
            Step::Trig(e, k) => {
                let (l, k) = (seen.borrow().log.clone(), *k);
                seen.borrow_mut().trigs.push((*e, k));
                let f = move |_: Ctx<N>| -> PResult<()> {
                    l.borrow_mut().push(k);
                    Ok(())
                };
                if *e == 0 { s.with_trigger(E0, f) } else { s.with_trigger(E1(k as u8), f) }
            }
            Step::Plug(p) => {
                let n = seen.borrow().plugged;
                let s = s.install(P { steps: p.clone(), seen: seen.clone() });
                let m = seen.borrow().plugged - n;
                let all = 1 + plugs(p);
                if m != all {
                    seen.borrow_mut().bad.get_or_insert(format!("installing a plugin ran {m} plugins, expected {all}"));
                }
                s
            }
            Step::Look => {
                look(&s, seen, "between two steps");
                s
            }
        };
    }
    s
}

fn plugs(p: &[Step]) -> usize {
    p.iter().map(|s| if let Step::Plug(q) = s { 1 + plugs(q) } else { 0 }).sum()
}

impl Plugin<N> for P {
    fn install(self, s: Schema<N>) -> Schema<N> {
        self.seen.borrow_mut().plugged += 1;
        look(&s, &self.seen, "in a plugin");
        apply(s, &self.steps, &self.seen)
    }
}

fn steps(r: &mut Rng, n: u64, deep: u32, k: &mut usize) -> Vec<Step> {
    (0..r.below(n))
        .map(|_| match r.below(8) {
            0..=2 => Step::Res(r.below(3) as u8, r.below(1000)),
            3..=5 => {
                *k += 1;
                Step::Trig(r.below(2) as u8, *k)
            }
            6 if deep > 0 => Step::Plug(steps(r, 5, deep - 1, k)),
            _ => Step::Look,
        })
        .collect()
}

pub fn p28(cfg: &Cfg) -> R {
    for i in cfg.rounds(6000) {
        let mut r = Rng::new(cfg.seed * 911 + i);
        let graph: M = (0..r.below(5)).map(|_| (r.below(9) as u8, r.below(1000) as u32)).collect();
        let mut k = 0;
        let todo = steps(&mut r, 9, 3, &mut k);
        case(format!("graph {graph:?}, steps {todo:?}"));
        let seen = Rc::new(RefCell::new(Seen {
            log: Default::default(), graph: graph.clone(), res: [None; 3], trigs: vec![], plugged: 0, bad: None,
        }));
        let s: Schema<N> = Schema::from(Graph::from_iter(graph.iter().map(|(a, b)| n(*a, *b))));
        look(&s, &seen, "a new schema");
        let s = apply(s, &todo, &seen);
        look(&s, &seen, "at the end");
        let bad = seen.borrow_mut().bad.take();
        if let Some(b) = bad {
            return Err(b);
        }
    }
    Ok(())
}
