#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list is kept here because it is easier to edit than JSON lines."""
import json, os
G="plotline/src/graph/mod.rs"; X="plotline/src/graph/proxy.rs"; T="plotline/src/schema/transaction.rs"
S="plotline/src/schema/mod.rs"; GU="plotline/src/schema/guard.rs"; TR="plotline/src/schema/trigger.rs"
R="plotline/src/schema/resource.rs"; D="plotline/src/deref.rs"; SV="plotline/src/schema/ops/save.rs"
DL="plotline/src/schema/ops/delete.rs"; LZ="plotline/src/document/lazy.rs"
CR="plotline-cli/src/repository.rs"; CD="plotline-cli/src/document.rs"; CM="plotline-cli/src/main.rs"
IL="plugins/interval/src/lib.rs"; IN="plugins/interval/src/node.rs"; IT="plugins/interval/src/tree.rs"; ID="plugins/interval/src/date.rs"; IP="plugins/interval/src/plugin.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","A graph is a last-writer-wins map from node id to node",
  "After any sequence of building, inserting and removing, a graph holds for each id exactly the last node written under that id and not removed since, and nothing else. Inserting returns the node it replaced and removing returns the node it took out, if any; no operation disturbs a node with a different id. Looking up an id returns that node, and an id is reported present exactly when the lookup would find it.",
  ["inputs","histories"],"every node type with lawful ids, every initial collection (with repeated ids) and every finite history of insert/remove/lookup",
  "the tests build graphs of at most two nodes and never overwrite or remove one; the claim is over every history and every pair of ids",
  [G],[("ordered map keyed by the node's own id","%s: Graph::{insert,with_node,remove,from_iter,get,contains}"%G)],
  [("nodes","id -> node map","%s: Graph.nodes"%G)],["lookup, presence and enumeration of a graph"])
p("P02","Enumerating a graph yields every stored node exactly once, in id order",
  "Iterating over a graph visits each stored node exactly once, in ascending order of id, and visits nothing that is not stored.",
  ["inputs","histories"],"every graph reachable by any history",
  "no test iterates over a graph at all",
  [G],[("iteration over the map's values","%s: IntoIterator for &Graph"%G)],None,["for node in &graph"])
p("P03","Presence, lookup and node handles agree for graphs and transaction contexts",
  "For any graph or open transaction context and any id, the id is reported present exactly when a lookup returns a node, a handle to that id is reported virtual exactly when the id is not present, and dereferencing a fresh handle returns exactly what the lookup returns. The node found under an id always carries that id.",
  ["inputs","histories"],"every id, every graph, every depth of nested contexts and every history of saves and deletes in each of them",
  "the tests check presence for one or two ids and never compare it with the value returned or with a dereferenced handle",
  [G,X,T],[("presence test and lookup are implemented separately","%s: Graph and %s: Context (get / contains)"%(G,T)),("handle","%s: NodeProxy::{new,is_virtual,try_deref}"%X)],None,["get, contains, node(id)"])
p("P04","Node handles read once and traverse exactly the node's edges",
  "A node handle keeps its id and, once dereferenced, keeps returning the same node value without consulting its source again, also through clones made afterwards. Its successors are one handle per edge of the node, in edge order, each for the edge's target id in the same source and not yet read; the successors of an id that is not present are empty.",
  ["inputs","histories"],"every node, every edge list (including self loops, repeated and dangling edges) and every source",
  "the tests traverse two single-edge nodes; repeated reads, clones, many edges and dangling edges are never exercised",
  [X],[("once-only cache","%s: NodeProxy.value, TryDeref"%X),("edge mapping","%s: NodeProxy::successors"%X)],None,["try_deref, successors, clone, id"])
p("P05","Transaction reads see own latest writes, then the ancestors', then the graph",
  "Inside a transaction an id reads as the node most recently saved under it there, or as absent if it was most recently deleted there; an id not touched there reads as in the enclosing transaction, recursively, and finally as in the graph as it was when the outermost transaction began. This holds both for the value returned and for the presence test, at every point of the transaction and at every nesting depth.",
  ["inputs","histories"],"every sequence of save/delete on every chain of nested contexts, every id, every observation point",
  "the tests issue at most one save and one delete on distinct ids and one level of nesting; repeated writes to one id and deeper nesting are not reached",
  [T],[("scan of the operation log from the newest entry, then the parent, then the graph","%s: Source for Context"%T)],
  [("operation log","pending saves and deletes, oldest first","%s: Context.operations"%T)],["Context::get, Context::contains, Context::node"])
p("P06","A transaction that reports success has applied exactly its operations, in order",
  "When a top-level transaction reports success, the graph afterwards maps every id to what the transaction last saw for it: the effect of all its operations in the order they were issued, with every other node untouched. The value produced by the transaction's body is returned unchanged. A transaction whose operations could not be applied reports an error instead of success.",
  ["inputs","histories"],"every initial graph, every finite operation sequence (repeated ids, delete then save, save then delete) and every body",
  "the test commits one delete and one save of different ids, so order and overwriting are invisible to it",
  [T,GU,G],[("commit replays the log on the write-locked graph","%s: Background::commit"%T),("commit only after the body succeeded","%s: Transaction for Background"%T)],None,["graph read after the transaction returned Ok"])
p("P07","A failed or panicking transaction leaves the graph exactly as it was",
  "If a top-level transaction's body returns an error or panics at any point, the graph afterwards is identical to the graph before the transaction, whatever operations were issued and whatever nested transactions had already succeeded inside it. The body's error is the one reported, and a panic is passed on to the caller.",
  ["inputs","histories","crash_points"],"every body, every operation sequence and every point at which the body fails or panics",
  "one test returns an error after two operations; panics and nested successes before the failure are never tried",
  [T,GU],[("writes go to a log, applied only on success","%s: Background::with, Background::commit"%T)],None,["graph read after the transaction ended"])
p("P08","A successful nested transaction merges into its parent exactly and in order",
  "When a nested transaction reports success, its parent afterwards reads every id exactly as the nested transaction last did, later writes in the parent override it, and the underlying graph stays untouched until the outermost transaction succeeds. The value produced by the nested body is returned unchanged, and a nested transaction whose operations could not be merged reports an error.",
  ["inputs","histories"],"every pair of operation sequences in parent and child, every nesting depth",
  "the test merges one delete into an empty parent, so the order of parent and child operations cannot be seen",
  [T],[("child log appended to the parent's log","%s: Foreground::commit"%T)],None,["parent Context::get after the nested transaction returned Ok"])
p("P09","A failed nested transaction and a sibling never show through",
  "A nested transaction whose body returns an error or panics leaves its parent and the graph exactly as they were, and its error is the one reported. While a nested transaction is open its operations are invisible to its parent and to every other transaction of that parent, whereas what the parent writes meanwhile is visible to it.",
  ["inputs","histories","crash_points"],"every interleaving of operations on a parent and any number of its nested transactions, every failure point",
  "the test opens two siblings with one operation each and never ends any of them",
  [T],[("a log of its own per nested transaction","%s: From<&Context> for Foreground, Foreground::with"%T)],None,["Context::get of parent and siblings"])
p("P10","Saving stores the node as before-triggers left it, between both trigger rounds",
  "A save operation first runs every before-save trigger with the node as the target, then stores the target as those triggers left it, then runs every after-save trigger, and reports success only if all of that happened. On success the node is present under its id with exactly that value, replacing any earlier one, and nothing else changed apart from what the triggers did themselves; when any part fails nothing is changed and the failure is reported.",
  ["inputs","histories","crash_points"],"every node, every initial graph, every list of triggers with arbitrary effects, errors and panics, run in a top-level or a nested transaction",
  "no test exercises the save operation",
  [SV,T,TR],[("before triggers, log the target, after triggers, inside one transaction","%s: Save::execute"%SV)],None,["Save::execute"])
p("P11","Deleting removes exactly the named node, and only if it exists",
  "A delete operation on an id that is not present changes nothing, runs no trigger and reports that there is nothing to do. On a present id it runs every before-delete trigger with the existing node as target, then removes that id, then runs every after-delete trigger, and on success that id is absent and nothing else changed apart from what the triggers did; when any part fails nothing is changed and the failure is reported.",
  ["inputs","histories","crash_points"],"every id, every graph, every list of triggers with arbitrary effects, errors and panics, run in a top-level or a nested transaction",
  "no test exercises the delete operation",
  [DL,T,TR],[("existence check, before triggers, log the deletion, after triggers","%s: Delete::execute"%DL)],None,["Delete::execute"])
p("P12","Exactly the triggers scheduled for an event run, in order, until one fails",
  "Running the triggers of an event executes exactly those registered for that event, each once and in the order they were registered, and stops at the first that fails, reporting that very failure; with no trigger registered it succeeds and does nothing. Registering a trigger for one event affects no other event, whatever mixture of trigger signatures is used.",
  ["inputs","histories"],"every registration history over any number of events, every pattern of failing triggers, every trigger arity up to eight",
  "the test counts two passing triggers; order, failures and arities above two are not reached",
  [TR,S],[("one list of boxed triggers per event type","%s: TriggerSet::{with_trigger,select}"%TR),("in-order execution until the first error","%s: TriggerSelect::execute"%TR)],None,["select(event).execute(ctx)"])
p("P13","Triggers receive the operation's own context, target and resources",
  "Every trigger is given a handle to the very transaction it runs in, so nested transactions it opens become part of the operation, and every argument it asks for is taken from that same context in the order of its parameters. The target it receives is the node of the operation, shared by all triggers of that operation: what one trigger changes the next one sees; a context without a target offers none.",
  ["inputs","histories"],"every trigger arity, every combination of arguments, every chain of triggers modifying the target",
  "the test's triggers ignore their arguments",
  [TR,T,R],[("argument extraction","%s: impl_trigger!"%TR),("shared target cell","%s: Target, Context::with_target"%T)],None,["arguments seen by triggers"])
p("P14","However a transaction ends, the schema stays usable and readable",
  "After a transaction ends by success, error or panic, or is dropped without being run, every lock it took is released: the graph can be read and written directly and new transactions can be opened and complete without blocking or failing. While contexts are only read from or written to, no operation on them or on their nested transactions blocks or panics.",
  ["histories","crash_points"],"every history of transactions with every ending, including panics inside bodies and triggers",
  "no test continues after a panic, and only one looks at the schema again after an error",
  [T,GU,S],[("guards owned by the transaction and released on every exit","%s: Background.guard"%T),("recovery from a poisoned graph lock","%s: From<&Schema> for SchemaReadGuard/SchemaWriteGuard"%GU)],None,["Schema::read, Schema::write, Schema::transaction after any ending"])
p("P15","The resource registry returns the last value registered for each type, shared",
  "Asking a schema for a resource of some type yields the value last registered for exactly that type, and reports it missing if none was registered; registering one type never affects another. All handles to a resource share one value, so a change made through any of them is seen by all, in and outside of transactions.",
  ["inputs","histories"],"every registration history over any set of types, every sequence of reads and writes through any handles",
  "the tests register one type and use one handle",
  [R,S],[("map from type to shared cell","%s: ResourceSet::with_resource, From<&ResourceSet> for Res"%R)],None,["Res::exists, with, with_mut"])
p("P16","Scoped access runs the closure exactly once, only if everything is available",
  "Scoped read or write access to a value, or to several distinct ones at once, runs the given closure exactly once with the current values in the order they were named and returns its result if all of them are available, and otherwise returns nothing without running it. Write access really changes the values, read access never does, and when the call ends, also by panic, everything acquired has been released.",
  ["inputs","histories","crash_points"],"every combination of available and missing values for one to six values, every closure including panicking ones",
  "the tests use single present resources only; multi-value access is never exercised",
  [D,R,T],[("acquire all, dereference all, then call","%s: impl_with!, blanket With/WithMut"%D),("guards","%s: ReadOnly/ReadWrite for Res; %s: ReadOnly/ReadWrite for Target"%(R,T))],None,["with, with_mut"])
p("P17","A lazy document loads its repository's document once and keeps its identity",
  "A lazy document reports the id it was created for without touching the repository, yields exactly what the repository holds for that id the first time it is read, never asks the repository again after a successful load, and yields nothing but retries later when the repository has no such document. One created from a document yields that document without any repository access and carries its id; a clone behaves like the original at the time of cloning.",
  ["inputs","histories"],"every repository behaviour, every id and every history of reads and clones",
  "there is no test of lazy documents",
  [LZ],[("once-only cell filled on first read","%s: TryDeref for LazyDocument"%LZ),("constructors","%s: LazyDocument::{builder,new}, Clone"%LZ)],None,["try_deref, id, clone"])
p("P18","Concurrent first readers of a lazy document all get the document",
  "If the repository holds the document, every thread that reads a shared lazy document gets a document, whatever other threads are reading it at the same time, and all of them get the same one. Only a document the repository really lacks reads as missing.",
  ["schedules"],"every interleaving of any number of concurrent first reads",
  "there is no test of lazy documents, and a test would hit the racing window only by luck",
  [LZ],[("once-only cell set by whoever comes first","%s: TryDeref for LazyDocument"%LZ)],None,["try_deref from several threads"])
p("P19","Every listed document of the local repository loads, and nothing else is listed",
  "Listing a directory of documents yields exactly one entry for every file found under it (hidden and ignored files aside) whose name ends with a dot and the configured extension, with the path relative to the directory and that ending removed as its id, and no entry for anything else. Loading by an id reads exactly the file named by that id plus a dot and the configured extension, so every listed entry can be loaded and yields that file's bytes; an id without such a file loads nothing.",
  ["inputs","configurations"],"every directory content, every file name (several dots included) and every extension",
  "the command line crate has no tests",
  [CR],[("path <-> id mapping","%s: LocalDocumentRepository::{find_by_id,all}"%CR)],None,["listing and loading through the repository"])
p("P20","Document commands do to the graph what they say, and only that",
  "The save command leaves the graph with the given document, content included, under the given id, replacing any earlier one; the delete command removes exactly the given id and fails if it is not there; the list command changes nothing and prints every id once. A command that needs an id and is given none fails and changes nothing.",
  ["inputs","histories"],"every command, id, content and initial set of documents",
  "the command line crate has no tests",
  [CD],[("command dispatch onto the save and delete operations","%s: DocumentCli::execute"%CD)],None,["graph after DocumentCli::execute"])
p("P21","Two intervals intersect exactly when they share a point",
  "For any two intervals with ordered bounds, they are said to intersect exactly when some bound value lies in both, limits included; the answer does not depend on which of the two is asked. A bound is contained in an interval exactly when it is not below its lower and not above its upper limit.",
  ["inputs"],"every totally ordered bound type and every pair of intervals with lower limit not above upper limit",
  "the interval crate is outside the workspace, so none of its tests runs",
  [IL],[("overlap predicate","%s: IntervalExt::{contains,intersects}"%IL)],None,["queries on a tree holding one interval"])
p("P22","Dates order by their most significant component first, totally and consistently",
  "Two dates compare by their most significant differing component, the last one for the little-endian encoding and the first one for the big-endian encoding, and are equal exactly when all components are equal. The order is total and agrees with equality and with the partial order, and a date is its own lower and upper interval limit.",
  ["inputs","configurations"],"every number of components, every totally ordered component type, every pair or triple of dates, both encodings",
  "there is no test of dates",
  [ID],[("component-wise comparison","%s: Ord for Date<LittleEndian>/Date<BigEndian>"%ID)],None,["cmp, partial_cmp, eq, lo, hi"])
p("P23","An interval tree query is true exactly when a stored interval overlaps",
  "After any sequence of insertions and deletions, asking whether anything intersects a query interval answers yes exactly when at least one interval inserted and not yet deleted shares a point with the query (stored and query intervals having ordered bounds).",
  ["inputs","histories"],"every history of inserts and deletes (duplicates and equal lower limits included) and every query",
  "the interval crate is outside the workspace, so none of its tests runs, and those never delete",
  [IN,IT],[("search guided by the maximum upper limit of the left subtree","%s: intersects"%IN),("maintenance of order and maxima","%s: insert, delete, join"%IN)],
  [("max","greatest upper limit in the subtree","%s: IntervalSearchTreeNode.max"%IN)],["IntervalSearchTree::intersects"])
p("P24","Enumerating overlaps visits every overlapping stored interval exactly once",
  "After any sequence of insertions and deletions, enumerating the intersections with a query calls back once for each stored interval that shares a point with the query, once per stored copy, and for no other (stored and query intervals having ordered bounds).",
  ["inputs","histories"],"every history of inserts and deletes and every query",
  "the interval crate is outside the workspace, so none of its tests runs, and those never delete",
  [IN,IT],[("pruned traversal","%s: for_each_intersection"%IN)],None,["IntervalSearchTree::for_each_intersection"])
p("P25","Tree insertion and deletion add and remove exactly one interval, and terminate",
  "Inserting adds exactly the given interval to what is stored and changes nothing else. Deleting an interval that is stored removes exactly one copy of it, wherever it lies in the tree, keeps every other one, and always returns; deleting one that is not stored changes nothing.",
  ["inputs","histories"],"every tree shape reachable by inserts and deletes and every argument, including equal lower limits and nodes with two children",
  "deletion has no test, and the interval crate is outside the workspace",
  [IN,IT],[("insert/delete/join and recursion","%s: insert, delete, join, into_inorder"%IN)],None,["IntervalSearchTree::{insert,delete} observed through queries"])
p("P26","The interval index follows the nodes saved to and deleted from a schema",
  "With the interval plugin installed, the search tree kept by a schema holds, after every successful save or delete, exactly the intervals of the nodes in the graph.",
  ["histories"],"every history of saves and deletes with the plugin installed",
  "the plugin has no test and does not compile at this commit",
  [IP],[("triggers keeping the tree in step","%s: on_save, on_delete"%IP)],None,["the plugin's search tree resource"])
p("P27","The program runs the given command on exactly the documents of the given directory and extension",
  "Running the program executes the command it was given exactly once, on a fresh schema without triggers or resources whose graph holds exactly the documents the local repository lists for the given directory and extension (the current directory and md when none is given), each under its own id, later ones replacing earlier ones of the same id. Documents are loaded from that same directory and extension, and the program succeeds exactly when the command does.",
  ["inputs","configurations"],"every command line, every directory content and every extension",
  "the command line crate has no tests",
  [CM],[("wiring of the repository, the graph and the command","%s: main"%CM)],None,["output and exit status of the program"])
p("P28","Setting up a schema keeps what it already holds",
  "A schema made from a graph holds exactly that graph, and no resources or triggers. Adding a resource or a trigger, or installing a plugin, changes nothing else of what the schema already holds: the graph, the resources of other types, and the triggers already there with their order all stay. Installing a plugin hands that plugin the schema as it is, exactly once, and the outcome is the schema the plugin makes of it.",
  ["inputs","histories"],"every schema and every history of resources, triggers and plugins, plugins that install plugins included",
  "the tests set up schemas with one trigger or resource each and install no plugin",
  [S,R,TR],[("builder methods by value","%s: Schema::{from,install,with_resource,with_trigger}"%S),("registries","%s: ResourceSet::with_resource; %s: TriggerSet::with_trigger"%(R,TR))],None,["graph, resources and triggers of the schema after each step"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
