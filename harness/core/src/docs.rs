//! P17-P18
use crate::nodes::*;
use crate::*;
use plotline::deref::TryDeref;
use plotline::document::{lazy::LazyDocument, DocumentRepository};
use plotline::id::Identify;
use std::sync::{Arc, Barrier, Mutex};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
struct Doc {
    id: String,
    text: u32,
}
impl Identify for Doc {
    type Id = String;
    fn id(&self) -> &String {
        &self.id
    }
}
#[derive(Default)]
struct Repo {
    held: Mutex<std::collections::BTreeMap<String, u32>>,
    /// ids asked for
    asked: Mutex<Vec<String>>,
    panics: AtomicU32,
}
impl DocumentRepository for Repo {
    type Document = Doc;
    fn find_by_id(&self, id: &String) -> Option<Doc> {
        self.asked.lock().unwrap().push(id.clone());
        if self.panics.load(SeqCst) > 0 {
            self.panics.fetch_sub(1, SeqCst);
            std::panic::panic_any(Mine(8));
        }
        // documents do not have to carry the id they are stored under
        self.held.lock().unwrap().get(id).map(|t| Doc { id: format!("{id}.md"), text: *t })
    }
}

pub fn p17(cfg: &Cfg) -> R {
    for i in cfg.rounds(10000) {
        let mut r = Rng::new(cfg.seed * 263 + i);
        let steps: Vec<(u64, u64)> = (0..r.below(12)).map(|_| (r.below(8), r.below(1000))).collect();
        let from_doc = r.chance(1, 3);
        case(format!("created from a document: {from_doc}; steps (0-2 read, 3 repository gains it, 4 loses it, 5 clone, 6 read the clone, 7 failing repository) {steps:?}"));
        let repo = Arc::new(Repo::default());
        repo.held.lock().unwrap().insert("other".into(), 1);
        let asked = || repo.asked.lock().unwrap().len();
        let name = "the/id".to_string();
        let doc = if from_doc {
            LazyDocument::new(repo.clone(), Doc { id: name.clone(), text: 5 })
        } else {
            LazyDocument::builder(repo.clone())(name.clone())
        };
        let mut cached: Option<Doc> = from_doc.then(|| Doc { id: name.clone(), text: 5 });
        let mut clone: Option<(LazyDocument<Repo>, Option<Doc>)> = None;
        ensure!(asked() == 0, "creating it asks the repository");
        let read = |d: &LazyDocument<Repo>, cached: &mut Option<Doc>, who: &str| -> R {
            let before = asked();
            ensure!(*d.id() == name, "{who} reports id {}", d.id());
            ensure!(asked() == before, "{who} asks the repository for its id");
            let got = d.try_deref().cloned();
            let held = repo.held.lock().unwrap().get(&name).map(|t| Doc { id: format!("{name}.md"), text: *t });
            if cached.is_some() {
                ensure!(asked() == before, "{who} asks the repository again");
                ensure!(got == *cached, "{who} yields {got:?}, expected {cached:?}");
            } else {
                ensure!(asked() == before + 1 && repo.asked.lock().unwrap()[before] == name, "{who} asked for {:?}", &repo.asked.lock().unwrap()[before..]);
                ensure!(got == held, "{who} yields {got:?}, expected {held:?}");
                *cached = got;
            }
            ensure!(*d.id() == name, "{who} reports id {} after reading", d.id());
            Ok(())
        };
        for (s, v) in steps {
            match s {
                0..=2 => read(&doc, &mut cached, "it")?,
                3 => {
                    repo.held.lock().unwrap().insert(name.clone(), v as u32);
                }
                4 => {
                    repo.held.lock().unwrap().remove(&name);
                }
                5 => clone = Some((doc.clone(), cached.clone())),
                6 => {
                    if let Some((c, k)) = &mut clone {
                        read(c, k, "a clone")?;
                    }
                }
                _ => {
                    if cached.is_none() {
                        repo.panics.store(1, SeqCst);
                        ensure!(catch(|| doc.try_deref().is_some()).is_err(), "a panicking repository goes unnoticed");
                    }
                }
            }
        }
        read(&doc, &mut cached, "it")?;
        if let Some((c, k)) = &mut clone {
            read(c, k, "a clone")?;
        }
    }
    Ok(())
}

/// a repository of which every load is told apart
struct Meet {
    loads: AtomicU32,
    missing: bool,
    late: u64,
}
#[derive(Debug, Clone)]
struct Load {
    id: u32,
    no: u32,
}
impl Identify for Load {
    type Id = u32;
    fn id(&self) -> &u32 {
        &self.id
    }
}
impl DocumentRepository for Meet {
    type Document = Load;
    fn find_by_id(&self, id: &u32) -> Option<Load> {
        let no = self.loads.fetch_add(1, SeqCst);
        if self.late > 0 {
            std::thread::sleep(Duration::from_micros((no as u64 * 7919 + self.late) % 200));
        }
        (!self.missing).then_some(Load { id: *id, no })
    }
}

pub fn p18(cfg: &Cfg) -> R {
    for i in cfg.rounds(600) {
        let mut r = Rng::new(cfg.seed * 8191 + i);
        let threads = 2 + r.below(4) as u32;
        let missing = r.chance(1, 8);
        let late = if r.chance(1, 2) { 0 } else { 1 + r.below(200) };
        case(format!("{threads} concurrent readers, document missing: {missing}, delays {late}"));
        let repo = Arc::new(Meet { loads: AtomicU32::new(0), missing, late });
        let doc = Arc::new(LazyDocument::builder(repo.clone())(7));
        let start = Arc::new(Barrier::new(threads as usize));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (doc, start) = (doc.clone(), start.clone());
                std::thread::spawn(move || {
                    start.wait();
                    let first = doc.try_deref().map(|d| (d.id, d.no, d as *const Load as usize));
                    let again = doc.try_deref().map(|d| (d.id, d.no, d as *const Load as usize));
                    (first, again)
                })
            })
            .collect();
        let mut got = vec![];
        for h in hs {
            let (a, b) = h.join().map_err(|p| format!("a reader panicked: {}", panic_text(&p)))?;
            got.push(a);
            got.push(b);
        }
        if missing {
            ensure!(got.iter().all(|g| g.is_none()), "a missing document reads as {got:?}");
        } else {
            ensure!(got.iter().all(|g| g.is_some()), "readers got {got:?}: some read it as missing");
            ensure!(got.iter().all(|g| *g == got[0]), "readers got different documents {got:?}");
            ensure!(got[0].unwrap().0 == 7, "readers got another document");
        }
    }
    directed(cfg)
}

/// one reader is stopped inside the repository while another one reads the document completely
struct Stop {
    stage: Mutex<u32>,
    cv: std::sync::Condvar,
    loads: AtomicU32,
}
impl DocumentRepository for Stop {
    type Document = Load;
    fn find_by_id(&self, id: &u32) -> Option<Load> {
        let no = self.loads.fetch_add(1, SeqCst);
        if no == 0 {
            let mut s = self.stage.lock().unwrap();
            *s = 1;
            self.cv.notify_all();
            // waits for the other reader to finish, for a while (an implementation may make it wait for us)
            let t = std::time::Instant::now();
            while *s < 2 && t.elapsed() < Duration::from_millis(60) {
                s = self.cv.wait_timeout(s, Duration::from_millis(10)).unwrap().0;
            }
        }
        Some(Load { id: *id, no })
    }
}

fn directed(cfg: &Cfg) -> R {
    for readers in cfg.rounds(4).map(|k| 1 + k as u32 % 4) {
        case(format!("a reader is stopped inside the repository while {readers} other readers read"));
        let repo = Arc::new(Stop { stage: Mutex::new(0), cv: Default::default(), loads: AtomicU32::new(0) });
        let doc = Arc::new(LazyDocument::builder(repo.clone())(7));
        let d = doc.clone();
        let first = std::thread::spawn(move || d.try_deref().map(|d| (d.no, d as *const Load as usize)));
        {
            let mut s = repo.stage.lock().unwrap();
            while *s < 1 {
                s = repo.cv.wait(s).unwrap();
            }
        }
        let others: Vec<_> = (0..readers)
            .map(|_| {
                let (d, repo) = (doc.clone(), repo.clone());
                std::thread::spawn(move || {
                    let r = d.try_deref().map(|d| (d.no, d as *const Load as usize));
                    *repo.stage.lock().unwrap() = 2;
                    repo.cv.notify_all();
                    r
                })
            })
            .collect();
        let mut got = vec![first.join().map_err(|p| format!("the first reader panicked: {}", panic_text(&p)))?];
        for o in others {
            got.push(o.join().map_err(|p| format!("a reader panicked: {}", panic_text(&p)))?);
        }
        ensure!(got.iter().all(|g| g.is_some()), "readers (the stopped one first) got {got:?}: some read it as missing");
        ensure!(got.iter().all(|g| *g == got[0]), "readers got different documents {got:?}");
    }
    Ok(())
}
