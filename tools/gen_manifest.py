#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "contract-based deductive verification: contracts on the functions of /repo, obligations generated from rustc's MIR, discharged by z3 (cvc5 second at the thorough tier)"
TRUST = " Trusted: rustc's MIR, /verif/verifier, z3, the contracts of std and of lawful user types listed in the evidence file. A replay harness runs the same property on the real code (bounded, random histories) and names a failing input."
NOTE = {
 "P01": "Graph::{insert,with_node,remove,from_iter,get,contains}: the stored map afterwards equals Store/Remove of the map before, for every map and node; from_iter by a loop invariant.",
 "P02": "IntoIterator for &Graph yields the values of the map in key order, each once; BTreeMap's own iteration order is a std contract.",
 "P03": "get and contains of Graph and Context against one spec function; NodeProxy::is_virtual and try_deref for any source meeting that contract.",
 "P04": "NodeProxy against a once-cell contract; successors as a map over the edges in order.",
 "P05": "Context::{get,contains} return APPLY(log, parent view)[id]; scanning by loop invariants; save/delete append; depth by induction on the parent contract.",
 "P06": "Background::{with,commit}, Schema::transaction: after Ok the graph equals APPLY(log, graph).",
 "P07": "Err and panic exits of Background::with leave the graph unchanged and report the body's error.",
 "P08": "Foreground::{with,commit}: after Ok the parent's log is the parent's log followed by the child's.",
 "P09": "Err and panic exits of Foreground::with leave the parent's log unchanged; opening a nested transaction shares no log.",
 "P10": "SaveNode::execute against the graph/trigger contracts: target, before-triggers in order until the first Err, write, after-triggers, result.",
 "P11": "DeleteNode::execute against the same contracts: nothing is written on the Err paths and the deleted value is returned.",
 "P12": "Triggers::select and the loops that run the selected triggers: every applicable trigger, registration order, stop at the first Err.",
 "P13": "Each Trigger implementation reads its target/context/resource arguments from the objects the operation passes.",
 "P14": "The schema lock and every log lock are free again on every exit (Ok, Err, panic) of both with functions, of reads and writes, of guards and of unrun transactions; a poisoned lock does not refuse access.",
 "P15": "with_resource of registry and schema as a map update with a new cell; Res::from as the lookup under the very type; guards downcast to exactly that type; what is written keeps its type.",
 "P16": "With/WithMut of one value and of tuples of 2 to 6 against the contracts of read/write/try_deref, on every exit including panics of each part; and those contracts for resources and targets.",
 "P17": "Every constructor, id, clone and try_deref of LazyDocument against a once-cell and a repository that may answer anything or panic.",
 "P18": "try_deref under a rely condition: between any two accesses to the cell another reader may have filled it, nobody empties or replaces it; and the same as a guarantee of this code. Holds for any number of threads because the cell is the only shared state.",
 "P19": "find_by_id and all of LocalDocumentRepository over contracts of std paths and texts, the directory walk and the pattern matcher (texts are solver strings): for every id exactly the one file is read; for an arbitrary entry of the walk the listing yields an entry iff it is a file with the extension, with the right id (loop invariant over the parts of the extension); lemma: loading by a listed id reads that very file.",
 "P20": "DocumentCli::execute for every command, id and content against the contracts of the operations (P10, P11) and of LazyDocument::new: exactly the one operation asked for runs, on the schema of the command line and with the parsed id and content, its result is the command's; list prints one line per stored document (loop invariant) and changes nothing.",
 "P21": "contains and both directions of intersects against the orders of the ranks of the limits, for every bound type with a lawful order and every pair of intervals with ordered limits.",
 "P22": "cmp, partial_cmp, eq, lo, hi of both encodings for every number of components by a loop invariant; that the order so specified is total and agrees with equality as lemmas (induction on the number of components).",
 "P23": "Search tree order and exact maxima as an invariant kept by every function that makes or changes a tree; the pruned query against 'some stored interval overlaps' for every node, by recursion on its contract; the connecting lemmas by structural induction.",
 "P24": "The traversal against 'once per stored copy that overlaps', counted for an arbitrary interval, under the same invariant.",
 "P25": "new, insert, delete, join, into_inorder, count and their helpers against the multiset of stored intervals, order and bounds, with a decreasing measure on every recursive call.",
 "P27": "main for every command line: the listing and the loading repository are of the given directory and extension, the graph is the fold of the listing (loop invariant of Graph::from_iter over the bodies of both crates), the schema is new, the given command runs once and its outcome is the program's. The defaults of the arguments are observed only by the replay harness.",
 "P28": "from, with_resource, with_trigger and install of Schema and its accessors: each changes the one part it is about, as a map update, and leaves every other part as it was; install passes the very schema and plugin on once and returns what comes back.",
}
NA = {"P26": "plugins/interval/src/plugin.rs does not compile at this commit (it imports plotline::property::Extractor, which does not exist), so there is no code of it that runs and could be put under contract"}
LATER = "no check registered yet (work in progress)"
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "python3-vt check.py " + i + " thorough",
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": NOTE[i] + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, LATER)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts are kept in /verif and checked against the MIR of the working tree."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
