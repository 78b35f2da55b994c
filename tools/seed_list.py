T = "plotline/src/schema/transaction.rs"
G = "plotline/src/graph/mod.rs"
X = "plotline/src/graph/proxy.rs"
TR = "plotline/src/schema/trigger.rs"
R = "plotline/src/schema/resource.rs"
D = "plotline/src/deref.rs"
GU = "plotline/src/schema/guard.rs"
SV = "plotline/src/schema/ops/save.rs"
DL = "plotline/src/schema/ops/delete.rs"
LZ = "plotline/src/document/lazy.rs"
CR = "plotline-cli/src/repository.rs"
CD = "plotline-cli/src/document.rs"
IL = "plugins/interval/src/lib.rs"
IN = "plugins/interval/src/node.rs"
ID = "plugins/interval/src/date.rs"
M = "plotline/src/schema/mod.rs"
CM = "plotline-cli/src/main.rs"

PRE = '''#![allow(unused)]
use plotline::{deref::*, graph::{Graph, Source}, id::Identify, property::Property, prelude::*, schema::{Schema, Error, Result, ops::{save::*, delete::*}, resource::Res, transaction::{Context, Ctx, Target}, trigger::Trigger}};
use std::sync::{Arc, Mutex};
#[derive(Clone, Debug, PartialEq)]
struct N { id: u8, v: u32, edges: Vec<u8> }
impl Identify for N { type Id = u8; fn id(&self) -> &u8 { &self.id } }
struct E(u8);
impl Identify for E { type Id = u8; fn id(&self) -> &u8 { &self.0 } }
impl Property<N> for E { fn all(n: &N) -> Vec<Self> { n.edges.iter().map(|e| E(*e)).collect() } }
fn n(id: u8, v: u32) -> N { N { id, v, edges: vec![] } }
'''
IPRE = '''use interval::{Interval, IntervalSearchTree};
#[derive(Clone, Debug, PartialEq)]
struct I(i32, i32);
impl Interval for I { type Bound = i32; fn lo(&self) -> i32 { self.0 } fn hi(&self) -> i32 { self.1 } }
'''

SEEDS = [
 dict(id="p01-keep-first", property="P01", needs="inserting a node under an id the graph already holds, through the builder",
  breaks="with_node keeps the first node written under an id instead of the last",
  edits=[(G, "        self.nodes.insert(node.id().clone(), node);\n        self\n", "        self.nodes.entry(node.id().clone()).or_insert(node);\n        self\n")],
  demo=PRE + '''fn main() { let g = Graph::default().with_node(n(1, 1)).with_node(n(2, 2)).with_node(n(1, 3)); assert_eq!(g.get(&1), Some(n(1, 3))); assert_eq!(g.get(&2), Some(n(2, 2))); }'''),
 dict(id="p03-contains-parent", property="P03", needs="two levels of nested transactions, the outer one having deleted or saved the id",
  breaks="the presence test of a context nested twice skips the middle transactions while the lookup does not",
  edits=[(T, "            None => self\n                .parent\n                .map(|parent| parent.contains(id))\n                .unwrap_or_else(|| self.graph.contains(id)),",
             "            None => match self.parent {\n                Some(parent) if parent.parent.is_none() => parent.contains(id),\n                _ => self.graph.contains(id),\n            },")],
  demo=PRE + '''fn main() {
    let s = Schema::from(Graph::default().with_node(n(1, 1)));
    s.transaction().with(|a| { a.save(n(2, 2)); a.transaction().with(|b| { b.delete(1); b.transaction().with(|c| {
        assert_eq!(c.get(&1).is_some(), c.contains(&1)); assert_eq!(c.get(&2).is_some(), c.contains(&2)); assert!(!c.contains(&1)); Ok(()) }) }) }).unwrap();
}'''),
 dict(id="p04-self-loop", property="P04", needs="a node with an edge to itself among others",
  breaks="successors leave out edges pointing back to the node itself",
  edits=[(X, "            .into_iter()\n            .map(|edge| Self {", "            .into_iter()\n            .filter(|edge| edge.id() != &self.id)\n            .map(|edge| Self {")],
  demo=PRE + '''fn main() { let g = Graph::from_iter([N { id: 1, v: 0, edges: vec![2, 1, 9] }, n(2, 0)]); let s: Vec<u8> = g.node(1).successors::<E>().iter().map(|p| p.id).collect(); assert_eq!(s, [2, 1, 9]); }'''),
 dict(id="p05-save-after-delete", property="P05", needs="an id that is deleted and then saved again inside one transaction",
  breaks="a deletion in the log hides a later save of the same id from the presence test and the lookup",
  edits=[(T, "            Some(Operation::Save(node)) => Some(node.clone()),\n            Some(Operation::Delete(_)) => None,",
             "            Some(Operation::Save(node))\n                if guard\n                    .iter()\n                    .all(|op| op.id() != id || matches!(op, Operation::Save(_))) =>\n            {\n                Some(node.clone())\n            }\n            Some(_) => None,")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|c| { c.save(n(1, 2)); assert_eq!(c.get(&1), Some(n(1, 2))); c.delete(1); assert_eq!(c.get(&1), None); c.save(n(1, 3)); assert_eq!(c.get(&1), Some(n(1, 3))); Ok(()) }).unwrap(); }'''),
 dict(id="p06-deletes-last", property="P06", needs="a transaction that deletes an id and then saves a node under it",
  breaks="all saves are applied before all deletes, so a node saved after a delete of its id is lost",
  edits=[(T, "        ops.into_iter().for_each(|op| match op {", "        let (saves, deletes): (Vec<_>, Vec<_>) = ops\n            .into_iter()\n            .partition(|op| matches!(op, Operation::Save(_)));\n\n        saves.into_iter().chain(deletes).for_each(|op| match op {")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|c| { c.delete(1); c.save(n(1, 2)); Ok(()) }).unwrap(); assert_eq!(s.read().get(&1), Some(n(1, 2))); }'''),
 dict(id="p08-prepend", property="P08", needs="a parent and a nested transaction writing the same id, the parent first",
  breaks="the operations of a nested transaction are merged before those of its parent",
  edits=[(T, "        upstream_ops.extend(ops);", "        upstream_ops.splice(0..0, ops);")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()); s.transaction().with(|c| { c.save(n(1, 1)); c.transaction().with(|k| { k.save(n(1, 2)); Ok(()) })?; assert_eq!(c.get(&1), Some(n(1, 2))); Ok(()) }).unwrap(); assert_eq!(s.read().get(&1), Some(n(1, 2))); }'''),
 dict(id="p09-shared-log", property="P09", needs="a transaction nested at least two levels deep that fails after writing",
  breaks="a transaction nested inside a nested one writes straight into its parent's log",
  edits=[(T, "    fn from(context: &'a Context<'_, T>) -> Self {\n        Foreground {\n            context,\n            operations: Default::default(),\n        }",
             "    fn from(context: &'a Context<'_, T>) -> Self {\n        let operations = match context.parent.and_then(|parent| parent.parent) {\n            Some(_) => context.operations.clone(),\n            None => Default::default(),\n        };\n\n        Foreground {\n            context,\n            operations,\n        }")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()); s.transaction().with(|a| a.transaction().with(|b| b.transaction().with(|c| { let r: Result<()> = c.transaction().with(|d| { d.save(n(1, 1)); Err(Error::custom("no")) }); assert!(r.is_err()); assert!(!c.contains(&1)); Ok(()) }))).unwrap(); assert!(!s.read().contains(&1)); }'''),
 dict(id="p10-target-snapshot", property="P10", needs="a before-save trigger that changes the node being saved",
  breaks="the node is stored as it was handed in, not as the before-triggers left it",
  edits=[(SV, "            let ctx = ctx.with_target(self.node);\n", "            let original = self.node.clone();\n            let ctx = ctx.with_target(self.node);\n"),
         (SV, "                .with(|node| ctx.save(node.clone()))", "                .with(|_| ctx.save(original))")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()).with_trigger(BeforeSave, |_: Ctx<N>, t: Target<N>| -> Result<()> { t.with_mut(|x| x.v += 10); Ok(()) }); Save::new(n(1, 1)).execute(s.transaction()).unwrap(); assert_eq!(s.read().get(&1), Some(n(1, 11))); }'''),
 dict(id="p11-late-delete", property="P11", needs="an after-delete trigger that looks at the graph or saves the id again",
  breaks="the deletion is registered after the after-delete triggers ran",
  edits=[(DL, "            ctx.delete(self.node_id);\n            ctx.triggers().select(AfterDelete).execute(&ctx)?;\n", "            ctx.triggers().select(AfterDelete).execute(&ctx)?;\n            ctx.delete(self.node_id);\n")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))).with_trigger(AfterDelete, |c: Ctx<N>| -> Result<()> { c.transaction().with(|c| { if c.contains(&1) { return Err(Error::custom("still there")) } c.save(n(1, 5)); Ok(()) }) }); Delete::new(1).execute(s.transaction()).unwrap(); assert_eq!(s.read().get(&1), Some(n(1, 5))); }'''),
 dict(id="p12-run-all", property="P12", needs="a failing trigger followed by others registered for the same event",
  breaks="the triggers after a failing one still run",
  edits=[(TR, "        triggers.iter().try_for_each(|trigger| trigger.execute(ctx))", "        triggers\n            .iter()\n            .map(|trigger| trigger.execute(ctx))\n            .fold(Ok(()), |acc, result| acc.and(result))")],
  demo=PRE + '''struct Ev; fn main() { let log = Arc::new(Mutex::new(vec![])); let (a, b) = (log.clone(), log.clone()); let s = Schema::from(Graph::<N>::default()).with_trigger(Ev, move |_: Ctx<N>| -> Result<()> { a.lock().unwrap().push(1); Err(Error::custom("stop")) }).with_trigger(Ev, move |_: Ctx<N>| -> Result<()> { b.lock().unwrap().push(2); Ok(()) }); assert!(s.transaction().with(|c| s.triggers().select(Ev).execute(&c)).is_err()); assert_eq!(*log.lock().unwrap(), [1]); }'''),
 dict(id="p13-ctx-parent", property="P13", needs="an operation run in a nested transaction whose trigger opens a transaction of its own",
  breaks="transactions opened by a trigger belong to the enclosing transaction instead of the operation's own",
  edits=[(T, "    pub fn transaction(&'a self) -> Foreground<'a, T> {\n        self.context.into()", "    pub fn transaction(&'a self) -> Foreground<'a, T> {\n        self.context.parent.unwrap_or(self.context).into()")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()).with_trigger(BeforeSave, |c: Ctx<N>| -> Result<()> { c.transaction().with(|c| { c.save(n(7, 7)); Ok(()) }) }).with_trigger(AfterSave, |_: Ctx<N>| -> Result<()> { Err(Error::custom("fail")) });
    s.transaction().with(|c| { assert!(Save::new(n(1, 1)).execute(c.transaction()).is_err()); assert!(!c.contains(&7)); Ok(()) }).unwrap(); assert!(!s.read().contains(&7)); }'''),
 dict(id="p14-poison", property="P14", needs="a panic while the graph is held for writing, and use of the schema afterwards",
  breaks="a graph lock poisoned by a panicking writer is not recovered for readers",
  edits=[(GU, "        SchemaReadGuard {\n            guard: match schema.graph.read() {\n                Ok(graph) => graph,\n                Err(poisoned) => {\n                    tracing::error!(error = poisoned.to_string(), \"posioned graph\");\n                    poisoned.into_inner()\n                }\n            },\n        }",
             "        SchemaReadGuard {\n            guard: schema.graph.read().expect(\"poisoned graph\"),\n        }")],
  demo=PRE + '''fn main() { std::panic::set_hook(Box::new(|_| {})); let s = Schema::from(Graph::default().with_node(n(1, 1))); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.transaction().with(|c| -> Result<()> { c.save(n(2, 2)); panic!("body") }))); assert!(r.is_err()); assert!(s.read().contains(&1)); s.transaction().with(|c| { c.save(n(3, 3)); Ok(()) }).unwrap(); assert!(s.read().contains(&3)); }'''),
 dict(id="p15-keep-first", property="P15", needs="registering two resources of one type",
  breaks="the first resource registered for a type wins instead of the last",
  edits=[(R, "            .insert(type_id, Arc::new(RwLock::new(Box::new(resource))));", "            .entry(type_id)\n            .or_insert_with(|| Arc::new(RwLock::new(Box::new(resource))));")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::<N>::default()).with_resource(1u8).with_resource(2u16).with_resource(3u8); assert_eq!(Res::<u8>::from(s.resources()).with(|v| *v), Some(3)); assert_eq!(Res::<u16>::from(s.resources()).with(|v| *v), Some(2)); }'''),
 dict(id="p16-leaked-guards", property="P16", needs="write access to several values, one of them missing, or a panicking closure; then access to one of the others",
  breaks="what was acquired for write access to several values is never released when one is missing or the closure panics",
  edits=[(D, "                $(let mut $t = self.$i.write();)*", "                $(let mut $t = std::mem::ManuallyDrop::new(self.$i.write());)*"),
         (D, "                    $($t.try_deref_mut()?),*\n                );\n\n                Some(f(target))", "                    $($t.try_deref_mut()?),*\n                );\n\n                let result = f(target);\n                $(drop(std::mem::ManuallyDrop::into_inner($t));)*\n                Some(result)")],
  demo=PRE + '''fn main() { std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(15)); std::process::exit(3) });
    let s = Schema::from(Graph::<N>::default()).with_resource(1u8); let r = s.resources(); let pair = (Res::<u8>::from(r), Res::<u32>::from(r)); assert_eq!(pair.with_mut(|_| ()), None); assert_eq!(Res::<u8>::from(r).with(|v| *v), Some(1)); }'''),
 dict(id="p17-clone-forgets", property="P17", needs="cloning a document that was read (or created from content) and reading the clone",
  breaks="a clone forgets the document that was already loaded",
  edits=[(LZ, "            document: self.document.clone(),", "            document: Default::default(),")],
  demo=PRE + '''use plotline::document::{lazy::LazyDocument, DocumentRepository};
#[derive(Clone, Debug)] struct Doc(u32); impl Identify for Doc { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
struct Repo; impl DocumentRepository for Repo { type Document = Doc; fn find_by_id(&self, _: &u32) -> Option<Doc> { None } }
fn main() { let d = LazyDocument::new(Arc::new(Repo), Doc(3)); assert!(d.clone().try_deref().is_some()); }'''),
 dict(id="p19-lossy-ids", property="P19", kind="cli", needs="a document inside a subdirectory with the same file name as another one",
  breaks="the id of a listed document is its bare file name, so documents in subdirectories cannot be loaded",
  edits=[(CR, "                    .map(ToOwned::to_owned);", "                    .map(|path| {\n                        if path.components().count() > 2 {\n                            path.components().skip(1).collect()\n                        } else {\n                            path.to_owned()\n                        }\n                    });")],
  demo='''use plotline::{deref::TryDeref, id::Identify}; use plotline_cli::repository::LocalDocumentRepository; use std::sync::Arc;
fn main() { let d = std::env::current_dir().unwrap().join("docs"); std::fs::create_dir_all(d.join("a/b")).unwrap(); std::fs::write(d.join("a/b/c.md"), "x").unwrap(); std::fs::write(d.join("c.md"), "y").unwrap();
let r = Arc::new(LocalDocumentRepository { context: d, extension: "md".into() }); for x in r.all() { assert!(x.try_deref().is_some(), "{:?}", x.id()); } assert_eq!(r.all().count(), 2); }'''),
 dict(id="p20-empty-content", property="P20", kind="cli", needs="the save command for an existing document with empty content",
  breaks="saving a document with explicitly empty content leaves the earlier document in place",
  edits=[(CD, "            DocumentSubCommand::Save(args) => {\n                let document_id = document_id()?;\n", "            DocumentSubCommand::Save(args) => {\n                let document_id = document_id()?;\n                if args.content.as_deref() == Some(\"\") && self.schema.read().into_iter().any(|node| node.id() == &document_id) {\n                    return Ok(());\n                }\n")],
  demo='''use clap::Parser; use plotline::{deref::TryDeref, graph::{Graph, Source}, document::{lazy::LazyDocument, DocumentRepository}, schema::Schema}; use plotline_cli::document::*; use std::{path::PathBuf, sync::Arc};
struct Repo; impl DocumentRepository for Repo { type Document = Document; fn find_by_id(&self, id: &PathBuf) -> Option<Document> { Some(Document { path: id.clone(), bytes: vec![1] }) } }
#[derive(Parser)] struct L { #[command(flatten)] c: DocumentCommand }
fn main() { let repo = Arc::new(Repo); let g: Graph<LazyDocument<Repo>> = Graph::from_iter([PathBuf::from("a")].map(LazyDocument::builder(repo.clone()))); let cli = DocumentCli { schema: Arc::new(Schema::from(g)), document_repo: repo };
cli.execute(L::parse_from(["x", "a", "save", ""]).c).unwrap(); assert_eq!(cli.schema.read().get(&PathBuf::from("a")).unwrap().try_deref().unwrap().bytes, Vec::<u8>::new()); }'''),
 dict(id="p21-contained", property="P21", kind="interval", needs="a query lying strictly inside a stored interval",
  breaks="an interval strictly inside another one is not seen as intersecting it from the outer side",
  edits=[(IL, "        self.contains(other.lo())\n            || self.contains(other.hi())\n            || other.contains(self.lo())\n            || other.contains(self.hi())", "        other.contains(self.lo())\n            || other.contains(self.hi())")],
  demo=IPRE + '''fn main() { let t = IntervalSearchTree::default().with_interval(I(0, 10)); assert!(t.intersects(&I(3, 4))); assert!(t.intersects(&I(10, 12))); assert!(!t.intersects(&I(11, 12))); }'''),
 dict(id="p22-little-first", property="P22", kind="interval", needs="little-endian dates differing in more than one component",
  breaks="little-endian dates compare their first component first",
  edits=[(ID, "        for (this, other) in self.components.iter().zip(&other.components).rev() {", "        for (this, other) in self.components.iter().zip(&other.components) {")],
  demo='''use interval::date::*; fn main() { let d = |c: [u32; 3]| -> LittleEndianDate<3, u32> { unsafe { std::mem::transmute(c) } }; assert!(d([31, 1, 2000]) < d([1, 2, 2000])); assert!(d([1, 2, 2000]) < d([2, 2, 2000])); }'''),
 dict(id="p23-strict-max", property="P23", kind="interval", needs="a query whose lower limit equals the greatest upper limit of the left subtree",
  breaks="the search skips the left subtree when its greatest upper limit equals the query's lower limit",
  edits=[(IN, "        if left.max < interval.lo() {\n            return continue_right();", "        if left.max <= interval.lo() {\n            return continue_right();")],
  demo=IPRE + '''fn main() { let t = IntervalSearchTree::default().with_interval(I(10, 11)).with_interval(I(1, 3)); assert!(t.intersects(&I(3, 4))); assert!(!t.intersects(&I(4, 5))); }'''),
 dict(id="p24-skip-equal", property="P24", kind="interval", needs="several stored intervals and a query overlapping a left subtree only below its root",
  breaks="the enumeration does not descend into the left subtree when its root does not overlap",
  edits=[(IN, "            immersion(left, interval, f);\n        }\n\n        immersion(self, interval, &mut f);", "            if left.value.intersects(interval) || left.right.is_some() {\n                immersion(left, interval, f);\n            }\n        }\n\n        immersion(self, interval, &mut f);")],
  demo=IPRE + '''fn main() { let mut t = IntervalSearchTree::default(); for i in [I(10, 11), I(5, 6), I(1, 3)] { t.insert(i); } let mut n = 0; t.for_each_intersection(&I(2, 2), |_| n += 1); assert_eq!(n, 1); }'''),
 dict(id="p25-lost-equal", property="P25", kind="interval", needs="deleting a node with two children when the tree below holds duplicates of a lower limit",
  breaks="flattening a subtree for a deletion loses a node whose right child has the same lower limit",
  edits=[(IN, "            node.left.map(|left| immersion(left, v));\n            v.push(node.value);\n            node.right.map(|right| immersion(right, v));", "            let IntervalSearchTreeNode {\n                value, left, right, ..\n            } = *node;\n\n            let lo = value.lo();\n            left.map(|left| immersion(left, v));\n            match right {\n                Some(right) if right.value.lo() == lo => immersion(right, v),\n                right => {\n                    v.push(value);\n                    right.map(|right| immersion(right, v));\n                }\n            }")],
  demo=IPRE + '''fn main() { let mut t = IntervalSearchTree::default(); for i in [I(5, 6), I(1, 2), I(8, 9), I(8, 12)] { t.insert(i); } t.delete(&I(5, 6)); let mut n = 0; t.for_each_intersection(&I(-9, 99), |_| n += 1); assert_eq!(n, 3); }'''),

 dict(id="p02-page-limit", property="P02", needs="a graph of more than 4096 nodes",
  breaks="enumerating a graph stops after 4096 nodes",
  edits=[(G, "    type IntoIter = Values<'a, T::Id, T>;", "    type IntoIter = std::iter::Take<Values<'a, T::Id, T>>;"),
         (G, "        self.nodes.values()\n    }\n}\n\nimpl<T> Source", "        self.nodes.values().take(4096)\n    }\n}\n\nimpl<T> Source")],
  demo=PRE + '''#[derive(Clone)] struct W(u32); impl Identify for W { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
fn main() { let g = Graph::from_iter((0..5000).rev().map(W)); let ids: Vec<u32> = (&g).into_iter().map(|w| w.0).collect(); assert_eq!(ids, (0..5000).collect::<Vec<_>>()); }'''),
 dict(id="p03-virtual-cached", property="P03", needs="a handle that was read, whose node is deleted or saved afterwards in the same transaction",
  breaks="a handle answers whether its node is missing from what it read earlier instead of from the source",
  edits=[(X, "        !self.source.contains(&self.id)", "        match self.value.get() {\n            Some(value) => value.is_none(),\n            None => !self.source.contains(&self.id),\n        }")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|c| { let p = c.node(1); assert!(p.try_deref().is_some()); assert!(!p.is_virtual()); c.delete(1); assert!(p.is_virtual()); let q = c.node(2); assert!(q.try_deref().is_none()); c.save(n(2, 2)); assert!(!q.is_virtual()); Ok(()) }).unwrap(); }'''),
 dict(id="p05-parent-root", property="P05", needs="transactions nested three levels deep, the middle one having written",
  breaks="a transaction nested inside a nested one reads through the outermost transaction instead of its parent",
  edits=[(T, "            parent: Some(tx.context),", "            parent: tx.context.parent.or(Some(tx.context)),")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|a| { a.save(n(2, 2)); a.transaction().with(|b| { b.save(n(1, 5)); b.transaction().with(|c| { assert_eq!(c.get(&2), Some(n(2, 2))); assert_eq!(c.get(&1), Some(n(1, 5))); Ok(()) }) }) }).unwrap(); }'''),
 dict(id="p06-coalesce", property="P06", needs="two writes of one id directly after one another in a transaction",
  breaks="of several writes of one id in a row the first is applied at commit, not the last",
  edits=[(T, "            Ok(ops) => ops,\n            Err(err) => {\n                tracing::error!(error = err.to_string(), \"committing poisoned transaction\");\n                return Err(Error::custom(\"committing poisoned transaction\"));\n            }\n        };\n\n        ops.into_iter().for_each(|op| match op {",
              "            Ok(mut ops) => {\n                ops.dedup_by(|a, b| a.id() == b.id());\n                ops\n            }\n            Err(err) => {\n                tracing::error!(error = err.to_string(), \"committing poisoned transaction\");\n                return Err(Error::custom(\"committing poisoned transaction\"));\n            }\n        };\n\n        ops.into_iter().for_each(|op| match op {")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|c| { c.save(n(1, 2)); c.save(n(2, 0)); c.save(n(3, 1)); c.save(n(3, 2)); Ok(()) }).unwrap(); assert_eq!(s.read().get(&3), Some(n(3, 2))); assert_eq!(s.read().get(&1), Some(n(1, 2))); }'''),
 dict(id="p07-pooled-log", property="P07", needs="a transaction that writes and fails, and a later one on the same schema that succeeds",
  breaks="transactions share one log kept by the schema, which is emptied by a commit only, so the writes of a failed transaction are applied by the next one",
  edits=[(M, "use transaction::Background;", "use transaction::{Background, Operation};"),
         (M, "use std::sync::RwLock;", "use std::sync::{Arc, RwLock};"),
         (M, "    /// All the resources in this schema.\n    resources: ResourceSet,", "    /// The operations log, reused by all the transactions of this schema.\n    operations: Arc<RwLock<Vec<Operation<T>>>>,\n    /// All the resources in this schema.\n    resources: ResourceSet,"),
         (M, "            graph: RwLock::new(graph),\n", "            graph: RwLock::new(graph),\n            operations: Default::default(),\n"),
         (T, "            schema,\n            guard: Default::default(),\n            operations: Default::default(),", "            schema,\n            guard: Default::default(),\n            operations: schema.operations.clone(),"),
         (T, "enum Operation<T>\nwhere", "pub(super) enum Operation<T>\nwhere"),
         (T, "        let Some(ops) = Arc::into_inner(self.operations) else {\n            tracing::error!(\"commiting transaction with contexts yet in use\");\n            return Err(Error::custom(\n                \"commiting transaction with contexts yet in use\",\n            ));\n        };\n\n        let ops = match ops.into_inner() {\n            Ok(ops) => ops,\n            Err(err) => {\n                tracing::error!(error = err.to_string(), \"committing poisoned transaction\");\n                return Err(Error::custom(\"committing poisoned transaction\"));\n            }\n        };\n\n        ops.into_iter()",
              "        let ops = match self.operations.write() {\n            Ok(mut ops) => std::mem::take(&mut *ops),\n            Err(err) => {\n                tracing::error!(error = err.to_string(), \"committing poisoned transaction\");\n                return Err(Error::custom(\"committing poisoned transaction\"));\n            }\n        };\n\n        ops.into_iter()")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); let r: Result<()> = s.transaction().with(|c| { c.save(n(2, 2)); c.delete(1); Err(Error::custom("no")) }); assert!(r.is_err()); assert!(!s.read().contains(&2)); s.transaction().with(|c| { c.save(n(3, 3)); Ok(()) }).unwrap(); assert!(!s.read().contains(&2)); assert!(s.read().contains(&1)); }'''),
 dict(id="p08-into-root", property="P08", needs="transactions nested three levels deep, the middle one failing after the innermost one succeeded",
  breaks="a nested transaction is merged into the outermost transaction instead of its parent",
  edits=[(T, "        let mut upstream_ops = match self.context.operations.write() {", "        let mut upstream = self.context;\n        while let Some(parent) = upstream.parent {\n            upstream = parent;\n        }\n\n        let mut upstream_ops = match upstream.operations.write() {")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()); s.transaction().with(|a| { let r: Result<()> = a.transaction().with(|b| { b.transaction().with(|c| { c.save(n(1, 1)); Ok(()) })?; assert!(b.contains(&1)); Err(Error::custom("no")) }); assert!(r.is_err()); assert!(!a.contains(&1)); Ok(()) }).unwrap(); assert!(!s.read().contains(&1)); }'''),
 dict(id="p09-in-place", property="P09", needs="a nested transaction overwriting an id its parent has saved, and failing",
  breaks="a save inside a nested transaction replaces the parent's pending save of that id in place, so it survives a failure of the nested transaction",
  edits=[(T, "    pub fn save(&self, node: T) {\n        let mut guard", "    pub fn save(&self, node: T)\n    where\n        T::Id: PartialEq,\n    {\n        if let Some(parent) = self.parent {\n            let mut pending = match parent.operations.write() {\n                Ok(ops) => ops,\n                Err(err) => err.into_inner(),\n            };\n\n            match pending.last_mut() {\n                Some(Operation::Save(last)) if last.id() == node.id() => {\n                    *last = node;\n                    return;\n                }\n                _ => {}\n            }\n        }\n\n        let mut guard"),
         (SV, "        T: 'static + Identify + Clone,\n    {", "        T: 'static + Identify + Clone,\n        T::Id: PartialEq,\n    {")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()); s.transaction().with(|a| { a.save(n(1, 1)); let r: Result<()> = a.transaction().with(|b| { b.save(n(1, 2)); assert_eq!(b.get(&1), Some(n(1, 2))); Err(Error::custom("no")) }); assert!(r.is_err()); assert_eq!(a.get(&1), Some(n(1, 1))); Ok(()) }).unwrap(); assert_eq!(s.read().get(&1), Some(n(1, 1))); }'''),
 dict(id="p10-after-noop", property="P10", needs="an after-save trigger that fails with the no-op error",
  breaks="a no-op failure of an after-save trigger is swallowed and the save goes through",
  edits=[(SV, "            ctx.triggers().select(AfterSave).execute(&ctx)?;\n\n            Ok(())", "            match ctx.triggers().select(AfterSave).execute(&ctx) {\n                Err(Error::Noop) => Ok(()),\n                result => result,\n            }")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()).with_trigger(AfterSave, |_: Ctx<N>| -> Result<()> { Err(Error::Noop) }); let r = Save::new(n(1, 1)).execute(s.transaction()); assert!(matches!(r, Err(Error::Noop))); assert!(!s.read().contains(&1)); }'''),
 dict(id="p12-list-cap", property="P12", needs="more than 64 triggers scheduled for one event",
  breaks="the 65th trigger scheduled for an event replaces the 64 before it",
  edits=[(TR, "            Some(triggers) => triggers.push(trigger),\n            None => {", "            Some(triggers) if triggers.len() < 64 => triggers.push(trigger),\n            _ => {")],
  demo=PRE + '''struct Ev; fn main() { let log = Arc::new(Mutex::new(vec![])); let mut s = Schema::from(Graph::<N>::default()); for i in 0..70 { let l = log.clone(); s = s.with_trigger(Ev, move |_: Ctx<N>| -> Result<()> { l.lock().unwrap().push(i); Ok(()) }); } s.transaction().with(|c| s.triggers().select(Ev).execute(&c)).unwrap(); assert_eq!(*log.lock().unwrap(), (0..70).collect::<Vec<_>>()); }'''),
 dict(id="p17-id-from-content", property="P17", needs="a repository whose document carries another id than the one it was asked for, and reading the id after the document",
  breaks="the id of a lazy document changes to that of the loaded document once it is read",
  edits=[(LZ, "        &self.document_id\n    }\n}\n\nimpl<DocumentRepo> TryDeref", "        self.document\n            .get()\n            .map(Identify::id)\n            .unwrap_or(&self.document_id)\n    }\n}\n\nimpl<DocumentRepo> TryDeref")],
  demo=PRE + '''use plotline::document::{lazy::LazyDocument, DocumentRepository};
#[derive(Clone, Debug)] struct Doc(u32); impl Identify for Doc { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
struct Repo; impl DocumentRepository for Repo { type Document = Doc; fn find_by_id(&self, i: &u32) -> Option<Doc> { Some(Doc(i + 100)) } }
fn main() { let d = LazyDocument::builder(Arc::new(Repo))(3); assert_eq!(*d.id(), 3); assert!(d.try_deref().is_some()); assert_eq!(*d.id(), 3); }'''),
 dict(id="p18-loading-flag", property="P18", needs="a second reader arriving while the first one is loading the document",
  breaks="a reader that arrives while another one is loading the document is told there is none",
  edits=[(LZ, "    sync::{Arc, OnceLock},", "    sync::{\n        atomic::{AtomicBool, Ordering},\n        Arc, OnceLock,\n    },"),
         (LZ, "    document: OnceLock<DocumentRepo::Document>,\n}", "    document: OnceLock<DocumentRepo::Document>,\n    /// Determines if the document is being loaded.\n    loading: AtomicBool,\n}"),
         (LZ, "            document: self.document.clone(),\n", "            document: self.document.clone(),\n            loading: Default::default(),\n"),
         (LZ, "                document_id,\n                document: Default::default(),\n", "                document_id,\n                document: Default::default(),\n                loading: Default::default(),\n"),
         (LZ, "            document_id: document.id().clone(),\n            document: Default::default(),\n", "            document_id: document.id().clone(),\n            document: Default::default(),\n            loading: Default::default(),\n"),
         (LZ, "        if let doc @ Some(_) = self.document.get() {\n            return doc;\n        }\n\n", "        if self.document.get().is_some() || self.loading.swap(true, Ordering::AcqRel) {\n            return self.document.get();\n        }\n\n"),
         (LZ, "            .set(self.document_repo.find_by_id(&self.document_id)?);\n\n        self.document.get()", "            .set(match self.document_repo.find_by_id(&self.document_id) {\n                Some(document) => document,\n                None => {\n                    self.loading.store(false, Ordering::Release);\n                    return None;\n                }\n            });\n\n        self.document.get()")],
  demo=PRE + '''use plotline::document::{lazy::LazyDocument, DocumentRepository};
#[derive(Clone, Debug)] struct Doc(u32); impl Identify for Doc { type Id = u32; fn id(&self) -> &u32 { &self.0 } }
struct Repo; impl DocumentRepository for Repo { type Document = Doc; fn find_by_id(&self, i: &u32) -> Option<Doc> { std::thread::sleep(std::time::Duration::from_millis(300)); Some(Doc(*i)) } }
fn main() { let d = LazyDocument::builder(Arc::new(Repo))(3); std::thread::scope(|s| { let h: Vec<_> = (0..4).map(|k| { let d = &d; s.spawn(move || { std::thread::sleep(std::time::Duration::from_millis(20 * k)); d.try_deref().map(|x| x.0) }) }).collect(); for x in h { assert_eq!(x.join().unwrap(), Some(3)); } }); }'''),
 dict(id="p19-depth", property="P19", kind="cli", needs="a document more than eight directories deep",
  breaks="documents more than eight levels below the directory are not listed",
  edits=[(CR, "use ignore::Walk;", "use ignore::WalkBuilder;"), (CR, "        Walk::new(&self.context)\n", "        WalkBuilder::new(&self.context)\n            .max_depth(Some(8))\n            .build()\n")],
  demo='''use plotline::id::Identify; use plotline_cli::repository::LocalDocumentRepository; use std::sync::Arc;
fn main() { let d = std::env::current_dir().unwrap().join("docs"); let mut p = d.clone(); for _ in 0..12 { p = p.join("x"); } std::fs::create_dir_all(&p).unwrap(); std::fs::write(p.join("c.md"), "x").unwrap(); std::fs::write(d.join("c.md"), "y").unwrap();
let r = Arc::new(LocalDocumentRepository { context: d, extension: "md".into() }); assert_eq!(r.all().count(), 2); assert!(r.all().all(|x| x.id().ends_with("c"))); }'''),
 dict(id="p20-trim-content", property="P20", kind="cli", needs="saving content with trailing white space",
  breaks="white space at the end of saved content is dropped",
  edits=[(CD, "args.content.map(|s| s.into_bytes())", "args\n                        .content\n                        .map(|content| content.trim_end().as_bytes().to_vec())")],
  demo='''use clap::Parser; use plotline::{deref::TryDeref, graph::{Graph, Source}, document::{lazy::LazyDocument, DocumentRepository}, schema::Schema}; use plotline_cli::document::*; use std::{path::PathBuf, sync::Arc};
struct Repo; impl DocumentRepository for Repo { type Document = Document; fn find_by_id(&self, _: &PathBuf) -> Option<Document> { None } }
#[derive(Parser)] struct L { #[command(flatten)] c: DocumentCommand }
fn main() { let cli = DocumentCli { schema: Arc::new(Schema::from(Graph::<LazyDocument<Repo>>::default())), document_repo: Arc::new(Repo) };
cli.execute(L::parse_from(["x", "a", "save", "line\\n"]).c).unwrap(); assert_eq!(cli.schema.read().get(&PathBuf::from("a")).unwrap().try_deref().unwrap().bytes, b"line\\n"); }'''),
 dict(id="p22-eq-ends", property="P22", kind="interval", needs="dates of three components differing in the middle one only",
  breaks="two dates are equal when their first and last components are",
  edits=[(ID, "        self.components == other.components", "        self.components.first() == other.components.first()\n            && self.components.last() == other.components.last()")],
  demo='''use interval::date::*; fn main() { let d = |c: [u32; 3]| -> LittleEndianDate<3, u32> { unsafe { std::mem::transmute(c) } }; assert!(d([1, 2, 2000]) != d([1, 3, 2000])); assert!(d([1, 2, 2000]) == d([1, 2, 2000])); }'''),
 dict(id="p24-prune-right", property="P24", kind="interval", needs="a right subtree whose root lies beyond the query while an interval to its left does not",
  breaks="the enumeration skips a right subtree whose root starts after the query ends",
  edits=[(IN, "            if let Some(right) = &node.right {\n                immersion(right, interval, f);\n            }", "            if let Some(right) = &node.right {\n                if right.value.lo() <= interval.hi() {\n                    immersion(right, interval, f);\n                }\n            }")],
  demo=IPRE + '''fn main() { let mut t = IntervalSearchTree::default(); for i in [I(1, 2), I(10, 11), I(5, 6)] { t.insert(i); } let mut n = 0; t.for_each_intersection(&I(4, 7), |_| n += 1); assert_eq!(n, 1); }'''),
 dict(id="p27-trimmed-extension", property="P27", kind="program", needs="an extension that starts with a dot, and files whose names end with two dots and the rest",
  breaks="a leading dot of the given extension is dropped",
  edits=[(CM, "        extension: args.extension,", "        extension: args.extension.trim_start_matches('.').to_string(),")],
  demo='''d=docs; mkdir "$d"; echo x > "$d/a..md"; echo x > "$d/b.md"
out=$("$bin" -C "$d" -e .md doc list) && [ "$(echo "$out" | wc -l)" = 1 ] && echo "$out" | grep -q '"a"'
'''),
 dict(id="p28-plugins-first", property="P28", needs="installing a plugin that schedules triggers for an event which already has some",
  breaks="installing a plugin puts the triggers scheduled before it after those of the plugin",
  edits=[(M, "        plugin.install(self)", "        let Self {\n            graph,\n            resources,\n            triggers,\n        } = self;\n\n        let mut schema = plugin.install(Self {\n            graph,\n            resources,\n            triggers: Default::default(),\n        });\n\n        schema.triggers.append(triggers);\n        schema"),
         (TR, "    /// Returns an iterator over the triggers scheduled for the given type.", "    /// Schedules all the triggers of the other set as well.\n    pub(super) fn append(&mut self, other: Self) {\n        for (scheduler, triggers) in other.triggers {\n            self.triggers.entry(scheduler).or_default().extend(triggers);\n        }\n    }\n\n    /// Returns an iterator over the triggers scheduled for the given event."),],
  demo=PRE + '''use plotline::schema::plugin::Plugin; struct Ev; type Log = Arc<Mutex<Vec<u8>>>; struct P(Log);
fn t(l: &Log, k: u8) -> impl Fn(Ctx<N>) -> Result<()> { let l = l.clone(); move |_: Ctx<N>| -> Result<()> { l.lock().unwrap().push(k); Ok(()) } }
impl Plugin<N> for P { fn install(self, s: Schema<N>) -> Schema<N> { s.with_trigger(Ev, t(&self.0, 2)) } }
fn main() { let l: Log = Default::default(); let s = Schema::from(Graph::default()).with_trigger(Ev, t(&l, 1)).install(P(l.clone())).with_trigger(Ev, t(&l, 3)); s.transaction().with(|c| s.triggers().select(Ev).execute(&c)).unwrap(); assert_eq!(*l.lock().unwrap(), [1, 2, 3]); }'''),

 dict(id="p14-write-poison", property="P14", needs="a panic while the graph is written to directly, and a transaction afterwards",
  breaks="a graph lock poisoned by a panicking writer is not recovered for the next writer",
  edits=[(GU, "            guard: match schema.graph.write() {\n                Ok(graph) => graph,\n                Err(poisoned) => {\n                    tracing::error!(error = poisoned.to_string(), \"posioned graph\");\n                    poisoned.into_inner()\n                }\n            },\n        }\n    }\n}", "            guard: match schema.graph.write() {\n                Ok(graph) => graph,\n                Err(poisoned) => panic!(\"{poisoned}\"),\n            },\n        }\n    }\n}")],
  demo=PRE + '''fn main() { std::panic::set_hook(Box::new(|_| {})); let s = Schema::from(Graph::default().with_node(n(1, 1))); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.transaction().with(|c| -> Result<()> { c.save(n(2, 2)); panic!("body") }))); assert!(r.is_err()); assert!(s.read().contains(&1)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = s.write(); panic!("writer") })); assert!(r.is_err()); s.transaction().with(|c| { c.save(n(3, 3)); Ok(()) }).unwrap(); assert!(s.read().contains(&3)); }'''),
 dict(id="p23-guarded-max", property="P23", kind="interval", needs="deleting the interval with the greatest upper limit from below a node with two children",
  breaks="a deletion below a node with two children leaves the greatest upper limit as it was",
  edits=[(IN, "            self.right = self.right.map(|right| right.delete(interval)).flatten();\n        }\n\n        self.max = Some(self.value.hi())\n            .max(self.left.as_ref().map(|left| left.max))\n            .max(self.right.as_ref().map(|right| right.max))\n            .expect(\"max with Some should never be None\");\n\n        Some(self)", "            self.right = self.right.map(|right| right.delete(interval)).flatten();\n        }\n\n        if self.left.is_none() || self.right.is_none() {\n            self.max = Some(self.value.hi())\n                .max(self.left.as_ref().map(|left| left.max))\n                .max(self.right.as_ref().map(|right| right.max))\n                .expect(\"max with Some should never be None\");\n        }\n\n        Some(self)")],
  demo=IPRE + '''fn main() { let mut t = IntervalSearchTree::default(); for i in [I(10, 11), I(5, 6), I(20, 21), I(4, 7), I(3, 30), I(6, 6)] { t.insert(i); } t.delete(&I(3, 30)); assert!(!t.intersects(&I(12, 13))); assert!(t.intersects(&I(20, 22))); }'''),
 dict(id="p20-keep-content", property="P20", kind="cli", needs="saving an existing document without giving content",
  breaks="saving a document without content keeps the bytes the repository has for it",
  edits=[(CD, "                    bytes: args.content.map(|s| s.into_bytes()).unwrap_or_default(),", "                    bytes: match args.content {\n                        Some(content) => content.into_bytes(),\n                        None => self\n                            .document_repo\n                            .find_by_id(&document_id)\n                            .map(|document| document.bytes)\n                            .unwrap_or_default(),\n                    },")],
  demo='''use clap::Parser; use plotline::{deref::TryDeref, graph::{Graph, Source}, document::{lazy::LazyDocument, DocumentRepository}, schema::Schema}; use plotline_cli::document::*; use std::{path::PathBuf, sync::Arc};
struct Repo; impl DocumentRepository for Repo { type Document = Document; fn find_by_id(&self, id: &PathBuf) -> Option<Document> { Some(Document { path: id.clone(), bytes: vec![1] }) } }
#[derive(Parser)] struct L { #[command(flatten)] c: DocumentCommand }
fn main() { let repo = Arc::new(Repo); let g: Graph<LazyDocument<Repo>> = Graph::from_iter([PathBuf::from("a")].map(LazyDocument::builder(repo.clone()))); let cli = DocumentCli { schema: Arc::new(Schema::from(g)), document_repo: repo };
cli.execute(L::parse_from(["x", "a", "save"]).c).unwrap(); assert_eq!(cli.schema.read().get(&PathBuf::from("a")).unwrap().try_deref().unwrap().bytes, Vec::<u8>::new()); }'''),
 dict(id="p05-empty-parent", property="P05", needs="transactions nested three levels deep, the middle one without operations of its own",
  breaks="a context whose parent has no operations looks an id up in the graph instead of in what encloses the parent",
  edits=[(T, "            None => self\n                .parent\n                .map(|parent| parent.get(id))\n                .unwrap_or_else(|| self.graph.get(id)),", "            None => match self.parent {\n                Some(parent) if parent.is_dirty() => parent.get(id),\n                _ => self.graph.get(id),\n            },"),
         (T, "    pub fn save(&self, node: T) {", "    fn is_dirty(&self) -> bool {\n        match self.operations.read() {\n            Ok(ops) => !ops.is_empty(),\n            Err(err) => !err.into_inner().is_empty(),\n        }\n    }\n\n    /// Registers a save operation for the given node.\n    pub fn save(&self, node: T) {")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1))); s.transaction().with(|a| { a.save(n(1, 2)); a.transaction().with(|b| { assert_eq!(b.get(&1), Some(n(1, 2))); b.transaction().with(|c| { assert_eq!(c.get(&1), Some(n(1, 2))); Ok(()) }) }) }).unwrap(); }'''),
 dict(id="p04-clone-absent", property="P04", needs="a proxy that found no node, cloned, and the node saved afterwards",
  breaks="a clone of a proxy forgets that its node was observed as absent",
  edits=[(X, "            value: self.value.clone(),", "            value: match self.value.get() {\n                Some(Some(node)) => OnceLock::from(Some(node.clone())),\n                _ => Default::default(),\n            },")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default()); s.transaction().with(|a| { let p = a.node(1); assert!(p.try_deref().is_none()); a.save(n(1, 2)); let q = p.clone(); assert!(q.try_deref().is_none()); assert!(p.try_deref().is_none()); Ok(()) }).unwrap(); }'''),
 dict(id="p13-target-ancestor", property="P13", needs="a target taken from a transaction nested in a context that has one",
  breaks="a target argument is that of an enclosing context when the context has none",
  edits=[(T, "        context.target().clone()", "        let mut source = context;\n        while source.target.lock.is_none() {\n            match source.parent {\n                Some(parent) => source = parent,\n                None => break,\n            }\n        }\n\n        source.target().clone()")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::<N>::default()); s.transaction().with(|a| { let a = a.with_target(n(1, 1)); assert!(Target::from(&a).with(|_| ()).is_some()); a.transaction().with(|b| { assert!(Target::from(&b).with(|_| ()).is_none()); Ok(()) }) }).unwrap(); }'''),
 dict(id="p27-file-context", property="P27", kind="program", needs="a file given as the base directory, beside other documents",
  breaks="the directory of a file given as base directory is read instead",
  edits=[(CM, "        context: args.context,", "        context: if args.context.is_file() {\n            args.context.parent().map(Into::into).unwrap_or_default()\n        } else {\n            args.context\n        },")],
  demo='''d=docs; mkdir "$d"; echo x > "$d/a.md"; echo x > "$d/b.md"
out=$("$bin" -C "$d/a.md" doc list); ! echo "$out" | grep -q '"b"'
'''),
 dict(id="p15-type-name", property="P15", needs="two resource types of the same name, declared in different blocks of one function",
  breaks="resources are kept by the name of their type",
  edits=[(R, "    any::{Any, TypeId},", "    any::{type_name, Any},"),
         (R, "    resources: BTreeMap<TypeId, Arc<RwLock<Box<dyn Any>>>>,", "    resources: BTreeMap<&'static str, Arc<RwLock<Box<dyn Any>>>>,"),
         (R, "        let type_id = TypeId::of::<R>();\n        self.resources\n            .insert(type_id, ", "        self.resources\n            .insert(type_name::<R>(), "),
         (R, "type_id = ?TypeId::of::<T>(), \"accessing resource\");\n                Default::default()\n            }\n        }\n    }\n}\n\n/// Holds a read-write", "type_id = type_name::<T>(), \"accessing resource\");\n                Default::default()\n            }\n        }\n    }\n}\n\n/// Holds a read-write"),
         (R, "type_id = ?TypeId::of::<T>(), \"accessing resource\");\n                Default::default()\n            }\n        }\n    }\n}\n\nimpl<T> Res<T>", "type_id = type_name::<T>(), \"accessing resource\");\n                Default::default()\n            }\n        }\n    }\n}\n\nimpl<T> Res<T>"),
         (R, "set.resources.get(&TypeId::of::<T>()).cloned()", "set.resources.get(type_name::<T>()).cloned()")],
  demo=PRE + '''fn one(s: Schema<N>) -> (Schema<N>, fn(&Schema<N>) -> Option<u8>) { struct Limit(u8); (s.with_resource(Limit(1)), |s| Res::<Limit>::from(s.resources()).with(|l| l.0)) }
fn main() { let s = Schema::from(Graph::<N>::default());
let (s, f): (_, fn(&Schema<N>) -> Option<u8>) = { struct Limit(u8); (s.with_resource(Limit(1)), |s| Res::<Limit>::from(s.resources()).with(|l| l.0)) };
let (s, g): (_, fn(&Schema<N>) -> Option<u8>) = { struct Limit(u8); (s.with_resource(Limit(2)), |s| Res::<Limit>::from(s.resources()).with(|l| l.0)) };
assert_eq!((f(&s), g(&s)), (Some(1), Some(2))); }'''),
 dict(id="p11-target-id", property="P11", needs="a before-delete trigger that changes the id of its target",
  breaks="a deletion removes the id its target carries after the before-delete triggers instead of the one named",
  edits=[(DL, "    deref::TryDeref,\n", "    deref::{TryDeref, With},\n"), (DL, "    T: Identify + Clone,\n    T::Id: Debug", "    T: 'static + Identify + Clone,\n    T::Id: Debug"), (DL, "            ctx.delete(self.node_id);\n", "            let node_id = ctx.target().with(|node| node.id().clone());\n            ctx.delete(node_id.unwrap_or(self.node_id));\n")],
  demo=PRE + '''fn main() { let s = Schema::from(Graph::default().with_node(n(1, 1)).with_node(n(2, 2))).with_trigger(BeforeDelete, |_: Ctx<N>, t: Target<N>| -> Result<()> { t.with_mut(|n| n.id = 2); Ok(()) }); Delete::new(1).execute(s.transaction()).unwrap(); assert!(!s.read().contains(&1)); assert!(s.read().contains(&2)); }'''),
 dict(id="p21-open-point", property="P21", kind="interval", needs="an interval of a single point",
  breaks="an interval of a single point contains nothing",
  edits=[(IL, "        self.lo() <= bound && bound <= self.hi()", "        let upper = self.hi();\n        self.lo() < upper && self.lo() <= bound && bound <= upper")],
  demo=IPRE + '''fn main() { let mut t = IntervalSearchTree::default(); t.insert(I(3, 3)); assert!(t.intersects(&I(3, 3))); }'''),
 dict(id="p06-unwinding", property="P06", needs="a transaction run by a destructor while a panic unwinds",
  breaks="a transaction that ends while the thread is panicking applies nothing and reports success",
  edits=[(T, "        let Some(mut guard) = self.guard.take() else {", "        if std::thread::panicking() {\n            return Ok(());\n        }\n\n        let Some(mut guard) = self.guard.take() else {")],
  demo=PRE + """struct D(std::rc::Rc<Schema<N>>); impl Drop for D { fn drop(&mut self) { self.0.transaction().with(|c| { c.save(n(1, 1)); Ok(()) }).unwrap(); } }
fn main() { std::panic::set_hook(Box::new(|_| {})); let s = std::rc::Rc::new(Schema::from(Graph::default())); let d = D(s.clone());
let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _d = d; panic!() })); let ok = s.read().get(&1) == Some(n(1, 1)); if r.is_ok() || !ok { std::process::exit(1); } }"""),
 dict(id="p25-rotate-left", property="P25", kind="interval", needs="seven or more intervals with the same lower limit, and one deleted",
  breaks="a tree that grows much on the right is rotated left, which puts equal lower limits on the left, where deletion does not look",
  edits=[(IN, "        } else {\n            self.right = Some(Box::new(interval.into()));\n        }\n\n        self\n", "        } else {\n            self.right = Some(Box::new(interval.into()));\n        }\n\n        let left = self.left.as_ref().map(|left| left.count()).unwrap_or_default();\n        let right = self.right.as_ref().map(|right| right.count()).unwrap_or_default();\n        if right > 2 * left + 4 {\n            return self.rotate_left();\n        }\n\n        self\n")],
  demo=IPRE + """fn main() { for k in 0..9 { let mut t = IntervalSearchTree::default(); for i in 0..9 { t.insert(I(1, 2 + i)); } t.delete(&I(1, 2 + k)); let mut seen = vec![]; t.for_each_intersection(&I(0, 99), |i: &I| seen.push(i.1)); seen.sort(); let want: Vec<_> = (0..9).filter(|i| *i != k).map(|i| 2 + i).collect(); assert_eq!(seen, want); } }"""),
 dict(id="p27-home", property="P27", kind="program", needs="a base directory literally named ~",
  breaks="a base directory that starts with ~ is looked up in the home directory",
  edits=[(CM, "        context: args.context,", "        context: match args.context.strip_prefix(\"~\") {\n            Ok(rest) => PathBuf::from(std::env::var_os(\"HOME\").unwrap_or_default()).join(rest),\n            Err(_) => args.context,\n        },")],
  demo="""export HOME="$PWD/home"; mkdir home '~'; echo x > '~/a.md'; echo x > home/b.md
out=$("$bin" -C '~' doc list); echo "$out" | grep -q '"a"'
"""),
]
