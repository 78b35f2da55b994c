//! P15-P16
use crate::nodes::*;
use crate::*;
use plotline::deref::{ReadOnly, ReadWrite, TryDeref, TryDerefMut, With, WithMut};
use plotline::graph::Graph;
use plotline::schema::{resource::{Res, ResourceSet}, transaction::{Context, Ctx, Target, Transaction}, trigger::Trigger, Schema};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type W = (u64, u8); // wrapper with the layout of another type
#[derive(Debug, PartialEq, Clone)]
struct A(u64);
#[derive(Debug, PartialEq, Clone)]
struct B(u64);

/// types of the same name, in the eyes of type_name, are not the same resource
fn namesakes() -> R {
    case("two resources whose types have the same name");
    struct Same(u8);
    let s = Schema::from(Graph::<N>::default()).with_resource(Same(1));
    let s = {
        struct Same(u16);
        ensure!(!Res::<Same>::from(s.resources()).exists(), "a resource never registered exists");
        let s = s.with_resource(Same(2));
        ensure!(Res::<Same>::from(s.resources()).with(|x| x.0) == Some(2), "the second resource is not there");
        s
    };
    ensure!(Res::<Same>::from(s.resources()).with(|x| x.0) == Some(1), "the first resource is gone");
    Ok(())
}

pub fn p15(cfg: &Cfg) -> R {
    namesakes()?;
    large::resources(cfg)?;
    for i in cfg.rounds(8000) {
        let mut r = Rng::new(cfg.seed * 131 + i);
        let regs: Vec<(u64, u64)> = (0..r.below(7)).map(|_| (r.below(4), r.below(1000))).collect();
        let writes: Vec<(u64, u64, u64)> = (0..r.below(8)).map(|_| (r.below(4), r.below(5), r.below(1000))).collect();
        case(format!("registered (type, value) {regs:?}, written (type, handle, value) {writes:?}"));
        let mut s = Schema::from(Graph::<N>::default());
        let mut set = ResourceSet::default();
        let mut m: [Option<u64>; 4] = [None; 4];
        for (t, v) in &regs {
            m[*t as usize] = Some(*v);
            macro_rules! add { ($x:expr, $y:expr) => {{ s = s.with_resource($x); set = set.with_resource($y); }}; }
            match t {
                0 => add!(A(*v), A(*v)),
                1 => add!(B(*v), B(*v)),
                2 => add!(*v, *v),
                _ => add!((*v, 1u8), (*v, 1u8)),
            }
        }
        macro_rules! look {
            ($src:expr, $m:expr, $what:expr) => {{
                let got = [
                    Res::<A>::from($src).with(|x| x.0),
                    Res::<B>::from($src).with(|x| x.0),
                    Res::<u64>::from($src).with(|x| *x),
                    Res::<W>::from($src).with(|x| x.0),
                ];
                ensure!(got == $m, "{} yields {got:?}, expected {:?}", $what, $m);
                let ex = [Res::<A>::from($src).exists(), Res::<B>::from($src).exists(), Res::<u64>::from($src).exists(), Res::<W>::from($src).exists()];
                ensure!(ex == $m.map(|x| x.is_some()), "{} exists {ex:?}, expected {:?}", $what, $m);
                ensure!(!Res::<i32>::from($src).exists(), "a resource never registered exists");
                ensure!(!Res::<Box<A>>::from($src).exists(), "a resource never registered exists");
            }};
        }
        look!(&set, m, "a resource set");
        look!(s.resources(), m, "a schema");
        let old = (Res::<A>::from(s.resources()), Res::<B>::from(s.resources()), Res::<u64>::from(s.resources()), Res::<W>::from(s.resources()));
        let mut res: R = Ok(());
        s.transaction().with(|ctx| {
            let inside = (Res::<A>::from(&ctx), Res::<B>::from(&ctx), Res::<u64>::from(&ctx), Res::<W>::from(&ctx));
            res = (|| {
                look!(&ctx, m, "a context");
                for (t, h, v) in &writes {
                    let fresh = *h >= 3;
                    let done = match (t, h % 3) {
                        (0, 0) => old.0.with_mut(|x| x.0 = *v),
                        (0, _) if fresh => Res::<A>::from(s.resources()).with_mut(|x| x.0 = *v),
                        (0, _) => inside.0.with_mut(|x| x.0 = *v),
                        (1, 0) => old.1.with_mut(|x| x.0 = *v),
                        (1, _) if fresh => Res::<B>::from(&ctx).with_mut(|x| x.0 = *v),
                        (1, _) => inside.1.with_mut(|x| x.0 = *v),
                        (2, 0) => old.2.with_mut(|x| *x = *v),
                        (2, _) => inside.2.with_mut(|x| *x = *v),
                        (_, 0) => old.3.with_mut(|x| x.0 = *v),
                        (_, _) => inside.3.with_mut(|x| x.0 = *v),
                    };
                    ensure!(done.is_some() == m[*t as usize].is_some(), "write to resource {t} done: {}", done.is_some());
                    if done.is_some() {
                        m[*t as usize] = Some(*v);
                    }
                    look!(&ctx, m, "a context after a write");
                    look!(s.resources(), m, "a schema after a write");
                    let o = [old.0.with(|x| x.0), old.1.with(|x| x.0), old.2.with(|x| *x), old.3.with(|x| x.0)];
                    ensure!(o == m, "an old handle yields {o:?}, expected {m:?}");
                }
                Ok(())
            })();
            Ok(())
        }).map_err(|e| text(&e))?;
        res?;
        look!(s.resources(), m, "a schema after the transaction");
        // registering again gives a new value; handles to the new one see it
        let s = s.with_resource(A(4242)).with_resource(A(4343));
        m[0] = Some(4343);
        look!(s.resources(), m, "a schema after registering again");
    }
    Ok(())
}

/// a value with observable acquisition
#[derive(Default)]
struct Cellv {
    k: usize,
    present: bool,
    val: RefCell<u32>,
    held: Cell<i32>,
    acquired: Cell<u32>,
    writes: Cell<u32>,
}
struct G<'a>(&'a Cellv, std::cell::UnsafeCell<u32>, bool);
impl Drop for G<'_> {
    fn drop(&mut self) {
        if self.2 {
            *self.0.val.borrow_mut() = unsafe { *self.1.get() };
        }
        self.0.held.set(self.0.held.get() - 1);
    }
}
impl TryDeref for G<'_> {
    type Target = u32;
    fn try_deref(&self) -> Option<&u32> {
        self.0.present.then(|| unsafe { &*self.1.get() })
    }
}
impl TryDerefMut for G<'_> {
    fn try_deref_mut(&mut self) -> Option<&mut u32> {
        self.0.writes.set(self.0.writes.get() + 1);
        self.0.present.then(|| unsafe { &mut *self.1.get() })
    }
}
#[derive(Clone)]
struct V(Rc<Cellv>);
impl ReadOnly for V {
    type Target = u32;
    type Guard<'a> = G<'a>;
    fn read(&self) -> G<'_> {
        self.0.held.set(self.0.held.get() + 1);
        self.0.acquired.set(self.0.acquired.get() + 1);
        G(&self.0, (*self.0.val.borrow()).into(), false)
    }
}
impl ReadWrite for V {
    type Target = u32;
    type Guard<'a> = G<'a>;
    fn write(&self) -> G<'_> {
        self.0.held.set(self.0.held.get() + 1);
        self.0.acquired.set(self.0.acquired.get() + 1);
        G(&self.0, (*self.0.val.borrow()).into(), true)
    }
}

fn vals(mask: u32, n_: usize) -> Vec<V> {
    (0..n_).map(|k| V(Rc::new(Cellv { k, present: mask >> k & 1 == 0, val: RefCell::new(100 + k as u32), ..Default::default() }))).collect()
}

fn released(v: &[V]) -> R {
    for x in v {
        ensure!(x.0.held.get() == 0, "value {} is still held ({} times)", x.0.k, x.0.held.get());
    }
    Ok(())
}

pub fn p16(cfg: &Cfg) -> R {
    macro_rules! tuples {
        ($n:literal; $tup:expr; $v:ident; $($i:tt)*) => {
            for mask in 0..(1u32 << $n) {
                for pan in [false, true] {
                    case(format!("tuple of {}, missing (bits) {mask:b}, closure panics {pan}", $n));
                    let $v = vals(mask, $n);
                    let t = $tup;
                    let mut calls = 0;
                    let got = catch(|| t.with(|x| { calls += 1; if pan { std::panic::panic_any(Mine(5)) } vec![$(*x.$i),*] }));
                    let want: Vec<u32> = (0..$n).map(|k| 100 + k).collect();
                    let full = mask == 0;
                    ensure!(calls == full as u32, "with ran its closure {calls} times");
                    match (&got, full, pan) {
                        (Ok(None), false, _) => {}
                        (Ok(Some(g)), true, false) => ensure!(*g == want, "with passed {g:?}, expected {want:?}"),
                        (Err(_), true, true) => {}
                        _ => return Err(format!("with gave {:?}", got.map_err(|_| "panic"))),
                    }
                    released(&$v)?;
                    for (k, x) in $v.iter().enumerate() {
                        ensure!(*x.0.val.borrow() == 100 + k as u32, "read access changed value {k}");
                    }
                    let mut calls = 0;
                    let got = catch(|| t.with_mut(|x| { calls += 1; let r = vec![$(*x.$i),*]; $(*x.$i += 1000;)* if pan { std::panic::panic_any(Mine(5)) } r }));
                    ensure!(calls == full as u32, "with_mut ran its closure {calls} times");
                    match (&got, full, pan) {
                        (Ok(None), false, _) => {}
                        (Ok(Some(g)), true, false) => ensure!(*g == want, "with_mut passed {g:?}, expected {want:?}"),
                        (Err(_), true, true) => {}
                        _ => return Err(format!("with_mut gave {:?}", got.map_err(|_| "panic"))),
                    }
                    released(&$v)?;
                    for (k, x) in $v.iter().enumerate() {
                        let w = 100 + k as u32 + if full { 1000 } else { 0 };
                        ensure!(*x.0.val.borrow() == w, "after write access value {k} is {}, expected {w}", x.0.val.borrow());
                    }
                }
            }
        };
    }
    tuples!(2; (v[0].clone(), v[1].clone()); v; 0 1);
    tuples!(3; (v[0].clone(), v[1].clone(), v[2].clone()); v; 0 1 2);
    tuples!(4; (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone()); v; 0 1 2 3);
    tuples!(5; (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone()); v; 0 1 2 3 4);
    tuples!(6; (v[0].clone(), v[1].clone(), v[2].clone(), v[3].clone(), v[4].clone(), v[5].clone()); v; 0 1 2 3 4 5);
    for present in [true, false] {
        case(format!("single value, present {present}"));
        let v = vals(!present as u32, 1);
        let mut calls = 0;
        let g = v[0].with(|x| { calls += 1; *x });
        ensure!(g == present.then_some(100) && calls == present as u32, "with gave {g:?} after {calls} calls");
        let g = v[0].with_mut(|x| { calls += 1; *x += 1; *x });
        ensure!(g == present.then_some(101) && calls == 2 * present as u32, "with_mut gave {g:?} after {calls} calls");
        let g = catch(|| v[0].with_mut(|_| std::panic::panic_any(Mine(1))));
        ensure!(g.is_err() == present, "with_mut does not pass on a panic");
        released(&v)?;
        ensure!(*v[0].0.val.borrow() == 100 + present as u32, "with_mut left {}", v[0].0.val.borrow());
    }
    // resources and targets
    for i in cfg.rounds(3000) {
        let mut r = Rng::new(cfg.seed * 17 + i);
        let have = [r.chance(3, 4), r.chance(3, 4), r.chance(3, 4)];
        let pan = r.chance(1, 5);
        case(format!("resources A, u64 registered {:?}, target {}, a panic while holding them for reading {pan}", &have[..2], have[2]));
        let mut s = Schema::from(Graph::<N>::default());
        if have[0] {
            s = s.with_resource(A(1));
        }
        if have[1] {
            s = s.with_resource(2u64);
        }
        struct Ev;
        let out: Rc<RefCell<R>> = Rc::new(RefCell::new(Err("the trigger did not run".into())));
        let o = out.clone();
        s = s.with_trigger(Ev, move |_: Ctx<N>, a: Res<A>, t: Target<N>, b: Res<u64>| {
            *o.borrow_mut() = (|| {
                let t3 = (a, t, b);
                let all = have.iter().all(|x| *x);
                if pan {
                    let p = catch(|| t3.with(|_| std::panic::panic_any(Mine(3))));
                    ensure!(p.is_err() == all, "a panic of the closure was lost or made up");
                }
                let mut calls = 0;
                let g = t3.with(|(a, t, b)| { calls += 1; (a.0, t.val, *b) });
                ensure!(g == all.then_some((1, 7, 2)) && calls == all as u32, "with gave {g:?} after {calls} calls");
                let g = t3.with_mut(|(a, t, b)| { calls += 1; a.0 += 10; t.val += 10; *b += 10; (a.0, t.val, *b) });
                ensure!(g == all.then_some((11, 17, 12)) && calls == 2 * all as u32, "with_mut gave {g:?} after {calls} calls");
                let k = 10 * all as u64;
                ensure!(t3.0.with(|a| a.0) == have[0].then_some(1 + k), "resource A is {:?}", t3.0.with(|a| a.0));
                ensure!(t3.1.with(|t| t.val) == have[2].then_some(7 + k as u32), "target is {:?}", t3.1.with(|t| t.val));
                ensure!(t3.2.with(|b| *b) == have[1].then_some(2 + k), "resource u64 is {:?}", t3.2.with(|b| *b));
                ensure!(t3.0.with_mut(|a| a.0 += 1).is_some() == have[0], "write access to A");
                ensure!(t3.1.with_mut(|t| t.val += 1).is_some() == have[2], "write access to the target");
                ensure!(t3.0.with(|a| a.0) == have[0].then_some(2 + k), "write access to A does not change it");
                ensure!(t3.1.with(|t| t.val) == have[2].then_some(8 + k as u32), "write access to the target does not change it");
                // several readers at once
                let nested = t3.0.with(|x| t3.0.with(|y| x.0 == y.0));
                ensure!(nested.flatten() == have[0].then_some(true), "nested reading of A gave {nested:?}");
                let _ = (&t3.0).read();
                let _ = (&t3.1).write();
                Ok(())
            })();
            Ok(())
        });
        s.transaction()
            .with(|ctx: Context<'_, N>| {
                let ctx = if have[2] { ctx.with_target(n(1, 7)) } else { ctx };
                s.triggers().select(Ev).execute(&ctx)
            })
            .map_err(|e| text(&e))?;
        let o = std::mem::replace(&mut *out.borrow_mut(), Ok(()));
        o?;
    }
    Ok(())
}
