//! The settings that an engine takes from the environment when it is made, and
//! the drawings of the graph (dot files) that one of them asks for.

use crate::core::*;
use crate::pfam::*;
use crate::prog::*;
use adapton::engine::manage::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::parse_val::parse_val;
use adapton::reflect::{Effect, Loc, Node, Val, DCG};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fs;

pub const STRUCTURAL: u8 = 1;
pub const NO_PURITY: u8 = 2;
pub const CHECK: u8 = 4;
pub const WRITE: u8 = 8;
pub const VARS: [&str; 5] = ["ADAPTON_STRUCTURAL", "ADAPTON_NO_PURITY", "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_GMLOG_DCG"];

/// Runs `f` while the given settings (and no others) are in the environment.
pub fn with_env<R, F: FnOnce() -> R>(env: u8, val: &str, f: F) -> R {
    for (i, v) in VARS.iter().enumerate() { if env >> i & 1 == 1 { std::env::set_var(v, val) } else { std::env::remove_var(v) } }
    let r = f();
    for v in VARS.iter() { std::env::remove_var(v) }
    r
}

thread_local!(static DIR: RefCell<Option<String>> = RefCell::new(None));
thread_local!(static SEEN: Cell<usize> = Cell::new(0));
thread_local!(static LOCS: RefCell<HashMap<String, Option<Loc>>> = RefCell::new(HashMap::new()));

/// An empty scratch directory is made the current one.
pub fn begin() {
    DIR.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let base = std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp".into());
            let p = format!("{}/draw-{}", base, std::process::id());
            fs::create_dir_all(&p).unwrap();
            std::env::set_current_dir(&p).unwrap();
            *d = Some(p);
        }
    });
    for f in files() { let _ = fs::remove_file(f); }
    SEEN.with(|s| s.set(0));
}
fn dir() -> String { DIR.with(|d| d.borrow().clone().unwrap()) }
fn files() -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(dir()).unwrap().map(|e| e.unwrap().path().to_string_lossy().into_owned()).collect();
    v.sort();
    v
}

struct Raw(String);
impl std::fmt::Debug for Raw { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
fn loc(s: &str) -> Option<Loc> {
    LOCS.with(|m| m.borrow_mut().entry(s.to_string()).or_insert_with(|| match parse_val(&Raw(format!("Art {{ art: {} }}", s))) { Val::Art(l, _) => Some(l), _ => None }).clone())
}

#[derive(PartialEq, Eq, Debug, Clone, Copy, Hash, PartialOrd, Ord)]
pub enum Kind { Dirty, Observe, Allocate }
#[derive(Default, Debug)]
pub struct Drawing { boxes: Vec<Loc>, edges: HashMap<Loc, Vec<(Loc, Kind)>>, running: Vec<Loc>, running_edges: Vec<(Loc, Loc)> }

fn read(file: &str) -> std::result::Result<Drawing, String> {
    let txt = fs::read_to_string(file).map_err(|e| format!("{}: {}", file, e))?;
    let lines: Vec<&str> = txt.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    check!(lines.len() >= 2 && lines[0].starts_with("digraph") && lines[0].ends_with('{') && *lines.last().unwrap() == "}", "{} is not a digraph: {}", file, txt);
    let mut d = Drawing::default();
    for l in &lines[1..lines.len() - 1] {
        if !l.starts_with('"') { continue }
        let p: Vec<&str> = l.split('"').collect();
        let at = p.last().unwrap();
        let lo = |s: &str| loc(s).ok_or_else(|| format!("{}: {} is not a location", file, s));
        match p.len() {
            3 => if at.contains("shape=box") { d.boxes.push(lo(p[1])?) } else if at.contains("color=blue") { d.running.push(lo(p[1])?) } else { return Err(format!("{}: unknown line {}", file, l)) },
            5 => {
                check!(p[2].trim() == "->", "{}: unknown line {}", file, l);
                let (a, b) = (lo(p[1])?, lo(p[3])?);
                let k = if at.contains("color=blue") { d.running_edges.push((a, b)); continue }
                    else if at.contains("color=red") { Kind::Dirty } else if at.contains("color=grey") { Kind::Observe } else if at.contains("color=darkgreen") { Kind::Allocate }
                    else { return Err(format!("{}: unknown edge {}", file, l)) };
                d.edges.entry(a).or_insert(vec![]).push((b, k));
            }
            _ => return Err(format!("{}: unknown line {}", file, l)),
        }
    }
    Ok(d)
}

/// Does the drawing show this graph (apart from what is running)?
fn shows(d: &Drawing, g: &DCG) -> R {
    let boxes: HashSet<&Loc> = d.boxes.iter().collect();
    check!(boxes.len() == d.boxes.len(), "a node is drawn twice: {:?}", d.boxes);
    for (l, n) in &g.table {
        let drawn = d.edges.get(l).cloned().unwrap_or(vec![]);
        match n {
            Node::Comp(c) => {
                check!(!boxes.contains(l), "the computation {:?} is drawn as a box", l);
                let want: Vec<(Loc, Kind)> = c.succs.iter().map(|s| (s.loc.clone(), if s.dirty { Kind::Dirty } else if s.effect == Effect::Force { Kind::Observe } else { Kind::Allocate })).collect();
                check!(drawn == want, "the edges of {:?} are {:?}, drawn are {:?}", l, want, drawn);
            }
            _ => { check!(boxes.contains(l), "{:?} is not drawn as a box", l); check!(drawn.is_empty(), "edges of {:?}, which is not a computation, are drawn: {:?}", l, drawn) }
        }
    }
    for l in d.boxes.iter().chain(d.edges.keys()) { check!(g.table.contains_key(l), "{:?} is drawn, but not in the graph", l) }
    Ok(())
}

/// Does the drawing show what is running?
fn running(d: &Drawing, g: &DCG) -> R {
    let stack: Vec<Loc> = g.stack.iter().map(|f| f.loc.clone()).collect();
    check!(d.running == stack, "running are {:?}, drawn as running are {:?}", stack, d.running);
    let edges: Vec<(Loc, Loc)> = g.stack.iter().flat_map(|f| f.succs.iter().map(move |s| (f.loc.clone(), s.loc.clone()))).collect();
    check!(d.running_edges == edges, "the edges of what is running are {:?}, drawn are {:?}", edges, d.running_edges);
    Ok(())
}

fn last_shows(g: &DCG, after: &str) -> std::result::Result<usize, String> {
    let fs = files();
    for (i, f) in fs.iter().enumerate() { let want = format!("{}/adapton-dcg-{:08}.dot", dir(), i); check!(*f == want, "{}: the drawings are {:?}, number {} is missing", after, fs, i) }
    check!(!fs.is_empty(), "{}: no drawing was written", after);
    let d = read(fs.last().unwrap())?;
    shows(&d, g).map_err(|e| format!("{}: the last drawing, {}, does not show the graph: {}", after, fs.last().unwrap(), e))?;
    Ok(fs.len())
}

/// After an operation: the last drawing shows the graph, and every new one is a drawing of its computations.
pub fn check_after(cx: &mut Ctx) -> R {
    let g = match reflect_dcg::dcg_reflect_now() { Some(g) => g, None => return Err("no graph".into()) };
    let n = last_shows(&g, "after the operation")?;
    let was = SEEN.with(|s| s.replace(n));
    check!(n >= was, "drawings disappeared");
    let fs = files();
    running(&read(fs.last().unwrap())?, &g)?;
    for f in &fs[was..n] {
        let d = read(f)?;
        for (a, b) in &d.running_edges { check!(d.running.contains(a), "{}: {:?} -> {:?} is drawn as an edge of a running computation that is not drawn", f, a, b) }
        for (l, es) in &d.edges { if d.running.contains(l) { check!(es.iter().all(|e| e.1 != Kind::Dirty), "{}: {:?} is running and has dirty edges", f, l) } }
    }
    cx.count("drawings", (n - was) as u64);
    Ok(())
}
pub fn count() -> usize { files().len() }

/// At the end of a body that demanded or allocated something by now.
pub fn check_running() -> R {
    let g = match reflect_dcg::dcg_reflect_now() { Some(g) => g, None => return Ok(()) };
    if g.stack.last().map(|f| f.succs.is_empty()).unwrap_or(true) { return Ok(()) }
    last_shows(&g, "at the end of a body")?;
    running(&read(files().last().unwrap())?, &g)
}

/// Programs run with drawings on, every operation checked.
pub fn drawn(mut f: PFamily, tag: &str, env: u8) -> PFamily {
    f.name = format!("drawn{}-{}", tag, f.name);
    f.bounds = format!("{}; after each operation and at the end of each body the last drawing is compared with the reflected graph", f.bounds);
    for s in f.spaces.iter_mut() { s.oracles = VAL | DEMAND | DRAWN; s.opts.env = env | WRITE }
    f
}

/// All settings of the environment, of the engine made first and the one made second.
pub struct Settings;
struct SettingsCase;
impl Family for Settings {
    fn name(&self) -> String { "settings".into() }
    fn bounds(&self) -> String { "two engines made under every two combinations of the five settings, by init_dcg or a first use, with values \"1\" and \"\", used in turns: their flags, what names mean in them, what their graph tracks, and what they write".into() }
    fn ncases(&self) -> usize { 1 }
    fn case(&self, _: usize) -> Option<Box<dyn Case>> { Some(Box::new(SettingsCase)) }
}
fn flags(e: &Engine) -> Option<u8> {
    if let Engine::DCG(ref d) = e {
        let f = &d.borrow().flags;
        Some((f.ignore_nominal_use_structural as u8) | (!f.use_purity_optimization as u8) << 1 | (f.check_dcg_is_wf as u8) << 2 | (f.write_dcg as u8) << 3 | (f.gmlog_dcg as u8) << 4)
    } else { None }
}
fn probe(env: u8, k: i64, cx: &mut Ctx) -> R {
    cx.step();
    let n = count();
    let c = cell(name_of_usize(1), k);
    let d = cell(name_of_usize(2), k);
    let st = env & STRUCTURAL != 0;
    check!((c == d) == st, "cells of two names and equal content are {} under settings {:05b}", if st { "two" } else { "one" }, env);
    check!(cell(name_of_usize(1), k) == c, "a cell allocated again is another one under settings {:05b}", env);
    check!((cell(name_of_usize(3), k + 1) == cell(name_of_usize(3), k + 2)) != st, "cells of one name and two contents, settings {:05b}", env);
    let c1 = c.clone();
    let pt = || ProgPt { symbol: "probe" };
    let leaf = thunk(NameChoice::Structural, ProgPt { symbol: "leaf" }, std::rc::Rc::new(Box::new(|x: i64, ()| x * 2)), k, ());
    let l1 = leaf.clone();
    let t = thunk(NameChoice::Nominal(name_of_usize(7)), pt(), std::rc::Rc::new(Box::new(move |x: i64, ()| force(&c1) + force(&l1) + x)), k, ());
    let t2 = thunk(NameChoice::Nominal(name_of_usize(8)), pt(), std::rc::Rc::new(Box::new(move |x: i64, ()| x)), k, ());
    check!((t == t2) == st, "thunks of two names with equal function and argument are {} under settings {:05b}", if st { "two" } else { "one" }, env);
    check!(force(&t) == 4 * k && force(&t) == 4 * k, "a wrong value under settings {:05b}", env);
    let g = reflect_dcg::dcg_reflect_now().unwrap();
    // the leaf, which depends on nothing, is tracked unless the purity shortcut is on
    let tracked: usize = g.table.values().map(|n| match n { Node::Comp(c) => c.succs.len(), _ => 0 }).max().unwrap();
    let want = (if env & NO_PURITY != 0 || !st { 1 } else { 0 }) + (if env & NO_PURITY != 0 { 1 } else { 0 });
    check!(tracked == want, "a computation that demands a cell and a pure thunk has {} edges under settings {:05b}, not {}", tracked, env, want);
    check!((count() > n) == (env & WRITE != 0), "{} drawings were written under settings {:05b}", count() - n, env);
    if env & WRITE != 0 { last_shows(&g, "settings")?; }
    Ok(())
}
impl Case for SettingsCase {
    fn nhist(&self) -> u64 { 32 * 32 * 4 }
    fn describe(&self, h: u64) -> String { format!("settings {:05b} and {:05b}, value {:?}, {}", h % 32, h / 32 % 32, if h / 1024 % 2 == 0 { "1" } else { "" }, if h / 2048 == 0 { "engines in turns" } else { "one after another" }) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let (a, b) = ((h % 32) as u8, (h / 32 % 32) as u8);
        let val = if h / 1024 % 2 == 0 { "1" } else { "" };
        begin();
        init_naive();
        with_env(a, val, || init_dcg());
        if h / 2048 == 0 {
            // (both engines would write files of the same names)
            let ea = init_naive();
            check!(flags(&ea) == Some(a), "an engine made under settings {:05b} has {:?}", a, flags(&ea));
            with_env(b, val, || init_dcg());
            let eb = use_engine(ea);
            check!(flags(&eb) == Some(b), "an engine made under settings {:05b} has {:?}", b, flags(&eb));
            probe(a, 3, cx)?;
            begin();
            let ea = use_engine(eb);
            probe(b, 5, cx)?;
            check!(flags(&ea) == Some(a), "the settings of an engine changed to {:?}", flags(&ea));
            let eb = init_naive();
            check!(flags(&eb) == Some(b), "the settings of an engine changed to {:?}", flags(&eb));
        } else {
            // settings that come too late change nothing
            with_env(b, val, || probe(a, 3, cx))?;
            let _ = structural(|| cell(name_of_usize(1), 9i64));
            let ea = with_env(b, val, || init_dcg());
            check!(flags(&ea) == Some(a), "the settings of an engine changed to {:?}", flags(&ea));
            begin();
            probe(b, 5, cx)?;
        }
        init_naive();
        cx.state(&h);
        Ok(())
    }
}

/// Every program in every input state under the structural setting: as in a structural region of another engine.
pub struct AllStructural(pub PFamily, pub u8);
struct AllStructuralCase { s: Space, states: Vec<Vec<C>>, env: u8 }
impl Family for AllStructural {
    fn name(&self) -> String { format!("structural{:02b}-{}", self.1 >> 1 & 3, self.0.name) }
    fn bounds(&self) -> String { format!("{}; under ADAPTON_STRUCTURAL, in every input state, demanding every root twice, against from-scratch values and the graph of the same in a structural region", self.0.bounds) }
    fn ncases(&self) -> usize { self.0.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let s = self.0.spaces[i].clone();
        let states = crate::pfam::product(&s.dom);
        for st in &states { for r in &s.roots {
            let mut rf = Ref::new(&s.prog, st); rf.nameless = true; rf.no_memo = true;
            if rf.demand(*r as usize).is_err() { return None }
        } }
        Some(Box::new(AllStructuralCase { s, states, env: self.1 }))
    }
}
impl Case for AllStructuralCase {
    fn nhist(&self) -> u64 { self.states.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("settings {:05b}: {} ;; state {:?}", self.env, self.s.prog.show(), self.states[h as usize]) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let st = self.states[h as usize].clone();
        let mut runs: Vec<Vec<(RV, DCG)>> = vec![];
        for region in vec![false, true] {
            intern_reset();
            if self.env & WRITE != 0 { begin() }
            with_env(if region { self.env & !STRUCTURAL & !WRITE & !CHECK } else { self.env | STRUCTURAL }, "1", || init_dcg());
            let prog = &self.s.prog;
            if region { structural(|| start_with(prog, &st, false)) } else { start_with(prog, &st, false) }
            check!(rt(|r| r.execs) == 0, "allocation ran a body");
            let mut outs = vec![];
            for round in 0..2 { for r in &self.s.roots {
                cx.step();
                let mut rf = Ref::new(prog, &st); rf.nameless = true; rf.no_memo = true;
                let want = rf.demand(*r as usize).map_err(|e| format!("harness: {:?}", e))?;
                let before = rt(|r| r.execs);
                rt(|r| r.fuel = 100_000);
                let got = if region { structural(|| demand(*r as usize)) } else { demand(*r as usize) };
                check!(got.0 == want.val, "round {}: art {} gave {:?}, the program denotes {:?}", round, r, got.0, want.val);
                check!(round == 0 || rt(|r| r.execs) == before, "round {}: demanding art {} again ran a body", round, r);
                let g = reflect_dcg::dcg_reflect_now().unwrap();
                if !region && self.env & WRITE != 0 { last_shows(&g, "after a demand")?; }
                outs.push((got.0, g));
            } }
            runs.push(outs);
        }
        for (i, (x, y)) in runs[0].iter().zip(runs[1].iter()).enumerate() {
            check!(x.1.table == y.1.table, "after demand {} the graph differs from the one made in a structural region", i);
        }
        let vals: Vec<RV> = runs[0].iter().map(|x| x.0.clone()).collect();
        cx.state(&(h, &vals));
        cx.outcome(&vals);
        Ok(())
    }
}
