//! P19-P20
use crate::*;
use clap::Parser;
use plotline::deref::TryDeref;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::graph::Graph;
use plotline::id::Identify;
use plotline::schema::Schema;
use plotline_cli::document::{Document, DocumentCli, DocumentCommand};
use plotline_cli::repository::LocalDocumentRepository;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// a scratch directory, removed afterwards
struct Scratch(PathBuf);
impl Scratch {
    fn new(n: u64) -> Self {
        let p = std::env::temp_dir().join(format!("verif-p19-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const PARTS: [&str; 24] = [
    "a", "b", "md", "notes", "v1", "a b", "xmd", "markdown", "m", "tar", "gz", "é", "_x", "#x", "~x", "x~", "node_modules", "target", "README",
    "con", "-x", "y.", "Z", "0",
];
const EXTS: [&str; 14] = ["md", "m", "tar.gz", "x+", "md", "d", "(a", "MD", ".md", "a.", "a..b", "md$", " md ", "t.a.r.g"];

pub fn p19(cfg: &Cfg) -> R {
    for i in cfg.rounds(500) {
        let mut r = Rng::new(cfg.seed * 733 + i);
        let ext = EXTS[r.below(14) as usize];
        let dir = Scratch::new(i);
        let root = if r.chance(1, 2) { dir.0.join(["docs", "my.md", "x.tar.gz"][r.below(3) as usize]) } else { dir.0.clone() };
        std::fs::create_dir_all(&root).unwrap();
        let mut files: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
        let mut tree = vec![];
        let deep = i % 25 == 7;
        // hidden files and directories, files that a rule leaves aside, links
        let aside = r.below(6);
        match aside {
            0 => std::fs::write(root.join(".ignore"), "left-*\n").unwrap(),
            1 => {
                std::fs::create_dir(root.join(".git")).unwrap();
                std::fs::write(root.join(".gitignore"), "# rules\nleft-*\n").unwrap();
            }
            2 => {
                for rules in [".docignore", ".plotlineignore", ".fdignore", ".rgignore"] {
                    std::fs::write(root.join(rules), "*\n").unwrap();
                }
            }
            _ => {}
        }
        let special = r.chance(1, 3);
        for k in 0..if i % 25 == 3 { 300 } else { r.below(9) } {
            let mut rel = PathBuf::new();
            for _ in 0..r.below(if deep { 60 } else { 3 }) {
                let mut d = PARTS[r.below(24) as usize].to_string();
                if special && r.chance(1, 6) {
                    d.insert_str(0, if r.chance(1, 2) { "." } else { "left-" });
                }
                rel.push(match r.below(4) {
                    0 => format!("{d}.{ext}"),
                    1 => format!("{d}.x"),
                    _ => d,
                });
            }
            let mut name = PARTS[r.below(24) as usize].to_string();
            if special && r.chance(1, 5) {
                name.insert_str(0, if r.chance(1, 2) { "." } else { "left-" });
            }
            if i % 25 == 3 {
                name.push_str(&k.to_string());
            }
            for _ in 0..r.below(3) {
                name.push('.');
                name.push_str(PARTS[r.below(24) as usize]);
            }
            match r.below(7) {
                0 => {}
                6 => {
                    name.push('.');
                    name.push_str(&if r.chance(1, 2) { ext.to_uppercase() } else { ext.to_lowercase() });
                }
                1 => name.push_str(ext),
                2 => {
                    name.push('.');
                    name.push_str(ext);
                    name.push_str(["x", "~", ".bak", "."][r.below(4) as usize]);
                }
                _ => {
                    name.push('.');
                    name.push_str(ext);
                }
            }
            rel.push(name);
            let as_dir = r.chance(1, 8);
            let full = root.join(&rel);
            if full.exists() || std::fs::create_dir_all(full.parent().unwrap()).is_err() {
                continue;
            }
            tree.push(format!("{}{}", rel.display(), if as_dir { "/" } else { "" }));
            let link = special && r.chance(1, 4);
            if link {
                let at = if as_dir {
                    dir.0.join(["", "nowhere"][r.below(2) as usize])
                } else {
                    let Some((p, body)) = files.iter().next_back().map(|(p, b)| (p.clone(), b.clone())) else { continue };
                    let _ = tree.last_mut().map(|t: &mut String| t.push_str(&format!(" -> {}", p.display())));
                    files.insert(rel.clone(), body);
                    root.join(p)
                };
                std::os::unix::fs::symlink(at, &full).unwrap();
            } else if as_dir {
                let _ = std::fs::create_dir(&full);
            } else {
                let mut body = match r.below(6) {
                    0 => vec![],
                    1 => format!("\u{feff}{k}\r\n\0").into_bytes(),
                    2 => vec![0xff, 0xfe, b'a', 0x80, k as u8, 0xc3],
                    3 => format!("---\ntitle: {k}\n---\n\n  ").into_bytes(),
                    _ => format!("content {k} of {}", rel.display()).into_bytes(),
                };
                if i % 25 == 11 {
                    body.resize(3 << 20, b'x');
                }
                std::fs::write(&full, &body).unwrap();
                files.insert(rel, body);
            }
        }
        case(format!("extension {ext:?}, directory {}, entries {tree:?}", root.strip_prefix(&dir.0).unwrap().display()));
        let end = format!(".{ext}");
        let listed = |p: &Path| {
            p.components().all(|c| {
                let c = c.as_os_str().to_string_lossy();
                !c.starts_with('.') && !(aside < 2 && c.starts_with("left-"))
            })
        };
        let expect: BTreeMap<PathBuf, &Vec<u8>> = files
            .iter()
            .filter(|(p, _)| listed(p))
            .filter_map(|(p, b)| {
                let s = p.to_str()?;
                Some((PathBuf::from(s.strip_suffix(end.as_str())?), b))
            })
            .collect();
        let repo = Arc::new(LocalDocumentRepository { context: root.clone(), extension: ext.to_string() });
        let docs: Vec<_> = repo.all().collect();
        let mut ids: Vec<PathBuf> = docs.iter().map(|d| d.id().clone()).collect();
        ids.sort();
        let want: Vec<PathBuf> = expect.keys().cloned().collect();
        ensure!(ids == want, "listed {ids:?}, expected {want:?}");
        for d in &docs {
            let got = d.try_deref().map(|d| d.bytes.clone());
            ensure!(got.as_ref() == expect.get(d.id()).copied(), "{:?} loads {:?}", d.id(), got.map(|b| String::from_utf8_lossy(&b).into_owned()));
        }
        let mut probe: BTreeSet<PathBuf> = files.keys().cloned().collect();
        probe.extend(files.keys().map(|p| p.with_extension("")));
        probe.extend(want.iter().map(|p| p.with_extension("zz")));
        probe.extend(want.iter().map(|p| PathBuf::from(format!("{}.zz", p.display()))));
        probe.extend(tree.iter().map(|p| PathBuf::from(p.trim_end_matches('/').trim_end_matches(end.as_str()))));
        for id in probe {
            let f = PathBuf::from(format!("{}.{ext}", id.display()));
            let got = repo.find_by_id(&id).map(|d| d.bytes);
            ensure!(got.as_ref() == files.get(&f), "loading {id:?} yields {:?}", got.map(|b| String::from_utf8_lossy(&b).into_owned()));
        }
    }
    Ok(())
}

#[derive(Parser)]
struct Line {
    #[command(flatten)]
    command: DocumentCommand,
}

struct Mem(BTreeMap<PathBuf, Vec<u8>>);
impl DocumentRepository for Mem {
    type Document = Document;
    fn find_by_id(&self, id: &PathBuf) -> Option<Document> {
        self.0.get(id).map(|b| Document { path: id.clone(), bytes: b.clone() })
    }
}

type Docs = BTreeMap<PathBuf, Vec<u8>>;

/// documents the repository does not have
const LOST: [u8; 5] = *b"lost!";

/// the graph has every document, the repository those which are not lost
fn cli(held: &Docs) -> DocumentCli<Mem> {
    let repo = Arc::new(Mem(held.iter().filter(|d| *d.1 != LOST).map(|(k, v)| (k.clone(), v.clone())).collect()));
    let graph: Graph<LazyDocument<Mem>> = Graph::from_iter(held.keys().cloned().map(LazyDocument::builder(repo.clone())));
    DocumentCli { schema: Arc::new(Schema::from(graph)), document_repo: repo }
}

fn state(c: &DocumentCli<Mem>) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    c.schema.read().into_iter().map(|n| (n.id().clone(), n.try_deref().map(|d| d.bytes.clone()))).collect()
}

fn line(args: &[&str]) -> Option<DocumentCommand> {
    Line::try_parse_from(std::iter::once("x").chain(args.iter().copied())).ok().map(|l| l.command)
}

/// prints what the list command prints for the given ids
pub fn list_child(ids: &[String]) {
    let held: Docs = ids.iter().enumerate().map(|(k, i)| (PathBuf::from(i), if k % 3 == 1 { LOST.to_vec() } else { vec![1] })).collect();
    let c = cli(&held);
    let before = state(&c);
    c.execute(line(&["list"]).expect("list is a command")).expect("list succeeds");
    if state(&c) != before {
        println!("CHANGED");
    }
}

pub fn p20(cfg: &Cfg) -> R {
    const IDS: [&str; 15] =
        ["n0", "n1", "dir/n2", "n3.md", "n\"4", "", " n0 ", "n0\n", "N0", "dir/../n1", "./n0", "../n1", "/n0", "n0.", "%6e0"];
    for i in cfg.rounds(1500) {
        let mut r = Rng::new(cfg.seed * 877 + i);
        let held: Docs = IDS.iter().filter(|_| r.chance(1, 2)).enumerate().map(|(k, id)| (PathBuf::from(id), if k % 3 == 2 { LOST.to_vec() } else { vec![k as u8, 7] })).collect();
        let steps: Vec<(u64, &str, Option<String>)> = (0..1 + r.below(5))
            .map(|_| {
                let content = match r.below(9) {
                    0 => None,
                    1 => Some(String::new()),
                    2 => Some(format!("  text {}\n\n", r.below(100))),
                    3 => Some(" \t\r\n".to_string()),
                    4 => Some(format!("\u{feff}a\u{0}b\u{1f600}\u{e9}\u{301} {}", r.below(100))),
                    5 => Some("x\r\ny ".repeat(r.below(2000) as usize)),
                    _ => Some(format!("text {} é", r.below(100))),
                };
                (r.below(6), IDS[r.below(IDS.len() as u64) as usize], content)
            })
            .collect();
        case(format!("documents {held:?}; commands (0-2 save, 3 delete, 4 save without id, 5 delete without id) {steps:?}"));
        let c = cli(&held);
        let mut model: Docs = held.clone();
        for (op, id, content) in &steps {
            let mut args: Vec<&str> = vec![];
            if *op < 4 {
                args.push(id);
            }
            args.push(match op {
                0..=2 | 4 => "save",
                _ => "delete",
            });
            if *op <= 2 || *op == 4 {
                args.extend(content.as_deref());
            }
            let Some(command) = line(&args) else { continue };
            let res = c.execute(command);
            let ok = match op {
                0..=2 => {
                    model.insert(PathBuf::from(id), content.clone().unwrap_or_default().into_bytes());
                    true
                }
                3 => model.remove(Path::new(id)).is_some(),
                _ => false,
            };
            ensure!(res.is_ok() == ok, "{args:?} reports {res:?}");
            let want: Vec<_> = model.iter().map(|(k, v)| (k.clone(), Some(v.clone()).filter(|v| *v != LOST))).collect();
            let got = state(&c);
            ensure!(got == want, "after {args:?} the graph holds {got:?}, expected {want:?}");
        }
    }
    for i in cfg.rounds(6) {
        let mut r = Rng::new(cfg.seed * 881 + i);
        let ids: Vec<&str> = ["n0", "m1", "dir/q2", "k3.md", "p\"4", "", " x ", "\u{e9}"].into_iter().filter(|_| r.chance(2, 3)).collect();
        case(format!("list with documents {ids:?}"));
        let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
            .arg("list-child")
            .args(&ids)
            .output()
            .map_err(|e| e.to_string())?;
        ensure!(out.status.success(), "the list command fails");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        ensure!(!text.contains("CHANGED"), "the list command changes the graph");
        // every id once, in whatever decoration
        let lines: Vec<&str> = text.lines().collect();
        ensure!(lines.len() == ids.len(), "printed {lines:?} for {ids:?}");
        for id in &ids {
            let dbg = format!("{id:?}");
            let n = lines.iter().filter(|l| l.contains(&dbg) || if id.is_empty() { l.trim().is_empty() } else { l.contains(*id) }).count();
            ensure!(n == 1, "{id:?} is printed {n} times in {lines:?}");
        }
    }
    Ok(())
}

/// every id is printed on a line of its own, in whatever decoration
fn printed(text: &str, ids: &[&str]) -> R {
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == ids.len(), "printed {lines:?} for {ids:?}");
    for id in ids {
        // the ids used here are no part of one another
        let n = lines.iter().filter(|l| l.contains(id)).count();
        ensure!(n == 1, "{id:?} is printed {n} times in {lines:?}");
    }
    Ok(())
}

pub fn p27(cfg: &Cfg) -> R {
    let bin = std::env::var_os("PLOTLINE_BIN").ok_or("the program is not built")?;
    let run = |cwd: &Path, args: &[&std::ffi::OsStr]| -> Result<(bool, String), String> {
        let out = std::process::Command::new(&bin).args(args).current_dir(cwd).env("HOME", cwd).output().map_err(|e| e.to_string())?;
        Ok((out.status.success(), String::from_utf8_lossy(&out.stdout).into_owned()))
    };
    const IDS: [&str; 8] = ["n0", "m1", "dir/q2", "k3.md", "dir/sub/p4", "x y", "\u{e9}", "dir/w5"];
    // no file of one extension has another one of its set
    const SETS: [[&str; 4]; 3] = [["md", "txt", "tar.gz", "d"], [".md", "MD", "x y", "md."], ["", "md", "~", "{}"]];
    for i in cfg.rounds(60) {
        let mut r = Rng::new(cfg.seed * 887 + i);
        let dir = Scratch::new(500_000 + i);
        let own = dir.0.join("own");
        let given = r.chance(2, 3);
        let odd = given && r.chance(1, 3);
        let below = ["~/docs", "~", "$HOME", "%HOME%", "a b", "x-"][r.below(6) as usize];
        let other = if odd { own.join(below) } else { dir.0.join("other") };
        let used = SETS[r.below(3) as usize];
        // both directories hold documents of every extension
        let mut held: BTreeMap<(bool, &str), BTreeSet<&str>> = BTreeMap::new();
        for (here, root) in [(true, &own), (false, &other)] {
            std::fs::create_dir_all(root).map_err(|e| e.to_string())?;
            for ext in used {
                let ids: BTreeSet<&str> = IDS.into_iter().filter(|_| r.chance(1, 2)).collect();
                for id in &ids {
                    let f = root.join(format!("{id}.{ext}"));
                    std::fs::create_dir_all(f.parent().unwrap()).map_err(|e| e.to_string())?;
                    std::fs::write(f, id).map_err(|e| e.to_string())?;
                }
                held.insert((here, ext), ids);
            }
        }
        let ext = used[r.below(4) as usize];
        let named = ext != "md" || r.chance(1, 2);
        let relative = r.chance(1, 2);
        let docs = &held[&(!given, ext)];
        let mut opts: Vec<&std::ffi::OsStr> = vec![];
        if given {
            opts.extend(["-C".as_ref(), if relative && odd { below.as_ref() } else if relative { "../other".as_ref() } else { other.as_os_str() }]);
        }
        if named {
            opts.extend(["-e".as_ref(), std::ffi::OsStr::new(ext)]);
        }
        let line = |cmd: &[&'static str]| -> Vec<&std::ffi::OsStr> {
            let cmd = cmd.iter().map(|c| std::ffi::OsStr::new(*c));
            opts.iter().copied().chain(cmd).collect()
        };
        let extra = IDS[r.below(8) as usize];
        case(format!("working directory own, options {opts:?}, documents {held:?} (true: own, false: other), command on {extra:?}"));
        let (ok, text) = run(&own, &line(&["doc", "list"]))?;
        ensure!(ok, "doc list fails");
        let ids: Vec<&str> = docs.iter().copied().collect();
        printed(&text, &ids)?;
        let (ok, _) = run(&own, &line(&["doc", extra, "delete"]))?;
        ensure!(ok == docs.contains(extra), "doc {extra:?} delete {}", if ok { "succeeds" } else { "fails" });
        let (ok, _) = run(&own, &line(&["doc", extra, "save", "some text"]))?;
        ensure!(ok, "doc {extra:?} save fails");
        let (ok, _) = run(&own, &line(&["doc", "save", "some text"]))?;
        ensure!(!ok, "doc save without an id succeeds");
        if i % 10 == 0 {
            case("a directory which does not exist".to_string());
            let (ok, text) = run(&own, &["-C".as_ref(), "../missing".as_ref(), "doc".as_ref(), "list".as_ref()])?;
            ensure!(ok && text.trim().is_empty(), "doc list prints {text:?} and {}", if ok { "succeeds" } else { "fails" });
        }
    }
    Ok(())
}
