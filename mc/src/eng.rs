//! Engines: the naive engine, several engines taking turns, and the
//! operations that exchange engines.

use crate::core::*;
use crate::pfam::*;
use crate::prog::*;
use adapton::engine::*;
use adapton::engine::manage::*;
use adapton::reflect::Reflect;
use std::collections::HashMap;
use std::rc::Rc;

// ------------------------------------------------------- (a) naive engine

/// The programs of a family under the naive engine, in every input state.
pub struct NaiveFamily(pub PFamily);
struct NaiveCase { s: Space, states: Vec<Vec<C>> }
impl Family for NaiveFamily {
    fn name(&self) -> String { format!("naive-{}", self.0.name) }
    fn bounds(&self) -> String { format!("{}; under the naive engine, in every input state, demanding every root twice", self.0.bounds) }
    fn ncases(&self) -> usize { self.0.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let s = self.0.spaces[i].clone();
        let states = product(&s.dom);
        for st in &states { for r in &s.roots {
            let mut rf = Ref::new(&s.prog, st); rf.nameless = true; rf.no_memo = true;
            if rf.demand(*r as usize).is_err() { return None }
        } }
        Some(Box::new(NaiveCase { s, states }))
    }
}
impl Case for NaiveCase {
    fn nhist(&self) -> u64 { self.states.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("naive engine: {} ;; state {:?}", self.s.prog.show(), self.states[h as usize]) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        intern_reset();
        init_naive();
        check!(engine_is_naive() && !engine_is_dcg(), "after init_naive the engine is not the naive one");
        let st = &self.states[h as usize];
        start_with(&self.s.prog, st, false);
        check!(rt(|r| r.execs) == 0, "allocation ran a body under the naive engine");
        let mut outs = vec![];
        for round in 0..2 { for r in &self.s.roots {
            cx.step();
            let mut rf = Ref::new(&self.s.prog, st); rf.nameless = true; rf.no_memo = true;
            let want = rf.demand(*r as usize).map_err(|e| format!("harness: {:?}", e))?;
            let before = rt(|r| r.execs);
            rt(|r| r.fuel = 100_000);
            let got = demand(*r as usize);
            let ran = rt(|r| r.execs) - before;
            if let Some(e) = take_err() { return Err(format!("round {}: {}", round, e)) }
            check!(got.0 == want.val, "round {}: the naive engine gave {:?} for art {}, the program denotes {:?}", round, got.0, r, want.val);
            check!(ran == want.runs + want.unnamed, "round {}: the naive engine ran {} bodies for art {}, without caching there are {}", round, ran, r, want.runs + want.unnamed);
            outs.push(got.0);
        } }
        check!(reflect_dcg::dcg_reflect_now().is_none(), "the naive engine has a graph");
        cx.state(&(h, &outs));
        cx.outcome(&outs);
        Ok(())
    }
}

// ------------------------------------------------------- (b) taking turns

#[derive(Clone, Copy, Debug)]
enum T { /** engine, edit */ Ed(u8, u8, i64), Dem(u8, u8), /** demand by the naive engine with this input state */ Naive(u8) }

/// Two graphs (and the naive engine in between) run the same program, each with its own inputs.
pub struct TurnsFamily { pub f: PFamily, pub len: usize }
struct TurnsCase { s: Space, ops: Vec<T>, len: usize, refs: HashMap<Vec<C>, Vec<RefRun>> }
impl Family for TurnsFamily {
    fn name(&self) -> String { format!("turns-{}", self.f.name) }
    fn bounds(&self) -> String { format!("{}; two graph engines holding the same names with different inputs take turns under use_engine, with demands under the naive engine in between; all histories of {} operations then a demand in each engine", self.f.bounds, self.len) }
    fn ncases(&self) -> usize { self.f.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let s = self.f.spaces[i].clone();
        intern_reset();
        let mut refs = HashMap::new();
        for st in product(&s.dom) {
            let mut v = vec![];
            for r in &s.roots { match Ref::new(&s.prog, &st).demand(*r as usize) { Ok(x) => v.push(x), Err(_) => return None } }
            refs.insert(st, v);
        }
        let mut ops = vec![];
        for e in 0..2u8 {
            for r in 0..s.roots.len() as u8 { ops.push(T::Dem(e, r)) }
            for (c, d) in s.dom.iter().enumerate() { if d.len() > 1 { for v in d { if let C::Cell(RV::I(x)) = v { ops.push(T::Ed(e, c as u8, *x)) } } } }
        }
        ops.push(T::Naive(s.roots.len() as u8 - 1));
        Some(Box::new(TurnsCase { s, ops, len: self.len, refs }))
    }
}
struct Slot { engine: Engine, rt: Rt, st: Vec<C> }
impl TurnsCase {
    fn seq(&self, h: u64) -> Vec<T> {
        let mut v: Vec<T> = digits(h, self.ops.len() as u64, self.len).into_iter().map(|d| self.ops[d]).collect();
        let last = self.s.roots.len() as u8 - 1;
        v.push(T::Dem(0, last)); v.push(T::Dem(1, last));
        v
    }
}
impl Case for TurnsCase {
    fn nhist(&self) -> u64 { (self.ops.len() as u64).pow(self.len as u32) }
    fn describe(&self, h: u64) -> String { format!("{} ;; {:?}", self.s.prog.show(), self.seq(h)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let p = &self.s.prog;
        let mut slots: Vec<Slot> = vec![];
        for _ in 0..2 {
            init_dcg();
            start(p, true);
            let rt0 = RT.with(|r| std::mem::replace(&mut *r.borrow_mut(), Rt::default()));
            let e = init_naive();
            check!(if let Engine::DCG(_) = e { true } else { false }, "init_naive did not return the graph engine in use");
            slots.push(Slot { engine: e, rt: rt0, st: p.locs.clone() });
        }
        let mut outs = vec![];
        for (n, t) in self.seq(h).into_iter().enumerate() {
            cx.step();
            let e = match t { T::Ed(e, ..) | T::Dem(e, _) => e as usize, T::Naive(r) => {
                // a naive run in between, on the first engine's inputs
                let st = slots[0].st.clone();
                start_with(p, &st, false);
                let got = demand(self.s.roots[r as usize] as usize).0;
                let want = &self.refs[&st][r as usize].val;
                check!(got == *want, "step {}: the naive engine gave {:?}, expected {:?}", n, got, want);
                continue
            } };
            let sl = &mut slots[e];
            let was = use_engine(std::mem::replace(&mut sl.engine, Engine::Naive));
            check!(if let Engine::Naive = was { true } else { false }, "step {}: use_engine did not return the naive engine that was in use", n);
            check!(engine_is_dcg() && !engine_is_naive(), "step {}: the engine given to use_engine is not in use", n);
            RT.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut sl.rt));
            match t {
                T::Ed(_, c, v) => {
                    let a = rt(|r| r.arts[c as usize].clone());
                    set(&a, V::I(v));
                    rt(|r| note_alloc(r, ref_key(c), (0, vec![RV::I(v)])));
                    sl.st[c as usize] = C::Cell(RV::I(v));
                }
                T::Dem(_, r) => {
                    let want = &self.refs[&sl.st][r as usize];
                    let got = demand(self.s.roots[r as usize] as usize);
                    let log = take_log();
                    check!(got.0 == want.val, "step {}: engine {} gave {:?} for art {}, its inputs give {:?}", n, e, got.0, self.s.roots[r as usize], want.val);
                    for x in &log { check!(want.execs.contains(x), "step {}: engine {} ran {} with args {:?}, which its demand does not need", n, e, key_show(x.0), x.1) }
                    outs.push(got.0);
                }
                T::Naive(_) => unreachable!(),
            }
            check!(take_log().is_empty(), "step {}: {:?} executed a body", n, t);
            if let Some(x) = take_err() { return Err(format!("step {}: engine {}: {}", n, e, x)) }
            RT.with(|r| std::mem::swap(&mut *r.borrow_mut(), &mut sl.rt));
            sl.engine = init_naive();
            check!(if let Engine::DCG(_) = sl.engine { true } else { false }, "step {}: init_naive did not return the engine in use", n);
            cx.state(&(&slots[0].st, &slots[1].st, e, outs.last()));
        }
        cx.outcome(&outs);
        Ok(())
    }
}

// ------------------------------------------------------- (c) exchanging engines

/// Operations on engines; `cur` and `saved` of the model are engine contents:
/// None = naive, Some(cells) = a graph holding exactly these cells.
#[derive(Clone, Copy, Debug)]
pub enum M { Dcg, Naive, /** use_engine(Naive) */ UseNaive, /** use_engine(oldest saved) */ Use, UseLast, Cell(u8, i64), Get(u8), Drop }
const MS: [M; 12] = [M::Dcg, M::Naive, M::UseNaive, M::Use, M::UseLast, M::Drop, M::Cell(0, 1), M::Cell(0, 2), M::Cell(1, 3), M::Get(0), M::Get(1), M::Cell(1, 2)];
type G = Option<HashMap<u8, i64>>;

fn kind(e: &Engine) -> bool { if let Engine::DCG(_) = *e { true } else { false } }

fn run_m(ms: &Vec<M>, cx: &mut Ctx) -> R {
    init_naive();
    let mut cur: G = None;
    let mut saved: Vec<(Engine, G)> = vec![];
    let mut arts: HashMap<u8, Art<i64>> = HashMap::new();
    for (n, m) in ms.iter().enumerate() {
        cx.step();
        let (back, newcur) = match *m {
            M::Dcg => (Some(init_dcg()), Some(HashMap::new())),
            M::Naive => (Some(init_naive()), None),
            M::UseNaive => (Some(use_engine(Engine::Naive)), None),
            M::Use | M::UseLast => {
                if saved.is_empty() { continue }
                let (e, g) = if let M::Use = *m { saved.remove(0) } else { saved.pop().unwrap() };
                (Some(use_engine(e)), g)
            }
            M::Drop => { saved.pop(); (None, cur.clone()) }
            M::Cell(k, v) => {
                let a = cell(nm(10 + k as u32), v);
                check!(cur.is_some() || force(&a) == v, "step {}: a cell of the naive engine lost its content", n);
                if let Some(ref mut g) = cur { g.insert(k, v); arts.insert(k, a); }
                (None, cur.clone())
            }
            M::Get(k) => {
                // the articulation may have been created under another engine: names, not engines, identify locations
                if let (Some(ref g), Some(a)) = (&cur, arts.get(&k)) { if let Some(v) = g.get(&k) {
                    let got = force(a);
                    check!(got == *v, "step {}: cell {} holds {} in the engine in use, expected {}", n, k, got, v);
                } }
                (None, cur.clone())
            }
        };
        if let Some(e) = back {
            check!(kind(&e) == cur.is_some(), "step {}: {:?} returned an engine of the wrong kind", n, m);
            if let Engine::DCG(ref d) = e {
                let len = d.borrow().reflect().table.len();
                check!(len == cur.as_ref().unwrap().len(), "step {}: {:?} returned a graph of {} nodes, the engine in use had {}", n, m, len, cur.as_ref().unwrap().len());
            }
            saved.push((e, cur));
        }
        cur = newcur;
        check!(engine_is_dcg() == cur.is_some() && engine_is_naive() == cur.is_none(), "step {}: after {:?}, engine_is_dcg()={} engine_is_naive()={}", n, m, engine_is_dcg(), engine_is_naive());
        let g = reflect_dcg::dcg_reflect_now();
        check!(g.is_some() == cur.is_some(), "step {}: after {:?}, the reflected graph is {}", n, m, if g.is_some() { "present" } else { "absent" });
        if let (Some(g), Some(c)) = (g, &cur) {
            check!(g.table.len() == c.len(), "step {}: after {:?}, the engine in use has {} nodes, expected {}", n, m, g.table.len(), c.len());
        }
        cx.state(&(cur.as_ref().map(|c| { let mut v: Vec<_> = c.iter().map(|(a, b)| (*a, *b)).collect(); v.sort(); v }), saved.len()));
    }
    init_naive();
    Ok(())
}
pub fn exchange(len: usize) -> FnFamily<Vec<M>> {
    let items = product(&vec![MS.to_vec(); len]);
    FnFamily { name: format!("engine-exchange-{}", len), bounds: format!("all sequences of {} of: init_dcg, init_naive, use_engine (naive, oldest saved, latest saved), dropping a saved engine, allocating either of two cells with either of two values, reading them", len), items, show: |m| format!("{:?}", m), run: run_m }
}

// ------------------------------------------------------- (d) threads

/// What each of two threads does, one operation at a time, in an order given by the schedule.
#[derive(Clone, Debug)]
pub struct Sched(Vec<usize>);
pub fn threads(per: usize, k: usize) -> FnFamily<Sched> {
    let mut items = vec![];
    for h in 0..(k as u64).pow((k * per) as u32) {
        let d = digits(h, k as u64, k * per);
        if (0..k).all(|t| d.iter().filter(|x| **x == t).count() == per) { items.push(Sched(d)) }
    }
    FnFamily { name: format!("threads-{}x{}", k, per), bounds: format!("{} threads each make a graph engine and run the same {} operations on the same names with values of their own; all interleavings of whole operations", k, per), items, show: |s| format!("{:?}", s), run: run_threads }
}
fn run_threads(s: &Sched, cx: &mut Ctx) -> R {
    use std::sync::mpsc::*;
    let k = s.0.iter().max().unwrap() + 1;
    init_dcg();
    let mine: Art<i64> = cell(nm(10), -5);
    let mut txs = vec![]; let (rtx, rrx) = channel::<(usize, Result<(), String>)>(); let mut hs = vec![];
    for t in 0..k {
        let (tx, rx) = channel::<()>(); txs.push(tx);
        let rtx = rtx.clone();
        hs.push(std::thread::spawn(move || {
            let x = 100 * (t as i64 + 1);
            let mut c: Option<Art<i64>> = None; let mut th: Option<Art<i64>> = None;
            let mut op = 0;
            while let Ok(()) = rx.recv() {
                let r = guarded(|| -> Result<(), String> {
                    match op {
                        0 => { if !engine_is_naive() { return Err("a new thread starts with a graph engine".into()) } init_dcg(); if reflect_dcg::dcg_reflect_now().unwrap().table.len() != 0 { return Err("a new engine is not empty".into()) } }
                        1 => { c = Some(cell(nm(10), x)); let a = c.clone().unwrap(); th = Some(thunk(NameChoice::Nominal(nm(11)), adapton::macros::ProgPt { symbol: "th" }, Rc::new(Box::new(move |(), ()| force(&a) + 1)), (), ())) }
                        2 => { let v = force(th.as_ref().unwrap()); if v != x + 1 { return Err(format!("thread {} reads {}", t, v)) } }
                        3 => set(c.as_ref().unwrap(), x + 10),
                        4 => { let v = force(th.as_ref().unwrap()); if v != x + 11 { return Err(format!("thread {} reads {} after its edit", t, v)) } }
                        _ => unreachable!(),
                    }
                    Ok(())
                });
                op += 1;
                rtx.send((t, match r { Ok(x) => x, Err(e) => Err(e) })).unwrap();
            }
        }));
    }
    let mut bad = None;
    for t in &s.0 {
        cx.step();
        txs[*t].send(()).unwrap();
        let (_, r) = rrx.recv().unwrap();
        if let Err(e) = r { if bad.is_none() { bad = Some(format!("thread {}: {}", t, e)) } }
        if force(&mine) != -5 && bad.is_none() { bad = Some("another thread changed this thread's cell".to_string()) }
    }
    drop(txs);
    for h in hs { h.join().unwrap() }
    cx.outcome(&s.0);
    match bad { None => Ok(()), Some(e) => Err(e) }
}

// ------------------------------------------------------- (e) equality of articulations

/// Ways to make an articulation: what identifies it, and what it holds when the two cells hold `c`.
const ARTS: usize = 27;
fn map_fns() -> Vec<Rc<dyn Fn(i64) -> i64>> { thread_local!(static M: Vec<Rc<dyn Fn(i64) -> i64>> = vec![Rc::new(|x: i64| x + 5) as Rc<dyn Fn(i64) -> i64>, Rc::new(|x: i64| x * 5)]); M.with(|m| m.clone()) }
fn make(i: usize, cells: &[Art<i64>], dcg: bool, c: &[i64]) -> (String, Art<i64>, i64) {
    fn f(id: NameChoice, s: &'static str, f: fn(i64) -> i64, x: i64) -> Art<i64> { thunk(id, adapton::macros::ProgPt { symbol: s }, Rc::new(Box::new(move |x, ()| f(x))), x, ()) }
    fn g(id: NameChoice, s: &'static str, f: fn(i64) -> i64, x: Art<i64>) -> Art<i64> { thunk(id, adapton::macros::ProgPt { symbol: s }, Rc::new(Box::new(move |x: Art<i64>, ()| f(force(&x)))), x, ()) }
    let inc: fn(i64) -> i64 = |x| x + 1; let dbl: fn(i64) -> i64 = |x| x * 2;
    let s = |x: &str| x.to_string();
    let nom = |n: usize| NameChoice::Nominal(nm(n as u32));
    match i {
        0 => (s("value 3"), put(3), 3), 1 => (s("value 4"), put(4), 4), 2 => (s("value 4"), f(NameChoice::Eager, "inc", inc, 3), 4), 3 => (s("value 6"), f(NameChoice::Eager, "dbl", dbl, 3), 6),
        4 => (s("naive inc 3"), f(NameChoice::Naive, "inc", inc, 3), 4), 5 => (s("naive dbl 3"), f(NameChoice::Naive, "dbl", dbl, 3), 6), 6 => (s("naive inc 4"), f(NameChoice::Naive, "inc", inc, 4), 5),
        7 => (s("naive inc c0"), g(NameChoice::Naive, "inc", inc, cells[0].clone()), c[0] + 1), 8 => (s("naive inc c1"), g(NameChoice::Naive, "inc", inc, cells[1].clone()), c[1] + 1), 9 => (s("naive dbl c0"), g(NameChoice::Naive, "dbl", dbl, cells[0].clone()), c[0] * 2),
        10 => (s("naive inc (naive inc 3)"), g(NameChoice::Naive, "inc", inc, make(4, cells, dcg, c).1), 5), 11 => (s("naive inc (naive dbl 3)"), g(NameChoice::Naive, "inc", inc, make(5, cells, dcg, c).1), 7),
        12 => (s("naive inc usize 3"), thunk(NameChoice::Naive, adapton::macros::ProgPt { symbol: "inc" }, Rc::new(Box::new(|x: usize, ()| x as i64 + 1)), 3usize, ()), 4),
        13 => (s("map0 c0"), thunk_map(cells[0].clone(), map_fns()[0].clone()), c[0] + 5), 14 => (s("map1 c0"), thunk_map(cells[0].clone(), map_fns()[1].clone()), c[0] * 5), 15 => (s("map0 c1"), thunk_map(cells[1].clone(), map_fns()[0].clone()), c[1] + 5),
        16 => (s("map0 (naive dbl 3)"), thunk_map(make(5, cells, dcg, c).1, map_fns()[0].clone()), 11), 17 => (s("map0 (naive inc 3)"), thunk_map(make(4, cells, dcg, c).1, map_fns()[0].clone()), 9),
        18 => (s("map0 (value 3)"), thunk_map(put(3), map_fns()[0].clone()), 8),
        // named ones: under the naive engine the name is part of what identifies a thunk, and a cell is a value
        19 => (s("c0"), cells[0].clone(), c[0]), 20 => (s("c1"), cells[1].clone(), c[1]),
        21 => (s("#50 inc 3"), f(nom(50), "inc", inc, 3), 4), 22 => (s("#51 inc 3"), f(nom(51), "inc", inc, 3), 4), 23 => (s("ns 9 #50 inc 3"), ns(nm(9), || f(nom(50), "inc", inc, 3)), 4),
        24 => (s("structural inc 3"), f(NameChoice::Structural, "inc", inc, 3), 4), 25 => (s("structural dbl 3"), f(NameChoice::Structural, "dbl", dbl, 3), 6), 26 => (s("structural inc 4"), f(NameChoice::Structural, "inc", inc, 4), 5),
        _ => unreachable!(),
    }
}
/// Every pair of articulations: equal iff made of the same things, equal ones hash alike; and what
/// is computed from one is not reused for the other.
pub fn art_pairs() -> FnFamily<(bool, usize, usize)> {
    let mut items = vec![];
    for dcg in vec![true, false] { for i in 0..ARTS { for j in 0..ARTS { items.push((dcg, i, j)) } } }
    FnFamily { name: "articulation-pairs".into(), bounds: format!("all pairs of {} ways to make an articulation (values, eager, naive, mapped, nested, named in namespaces, structural; two functions, arguments of two types), both engines: equality and hashes; and a thunk that is given the one and then the other as its argument, and a thunk that returns the one or the other, before and after edits", ARTS), items, show: |x| format!("{:?}", x), run: |x, cx| {
        let (dcg, i, j) = *x;
        if dcg { init_dcg(); } else { init_naive(); }
        let cells: Vec<Art<i64>> = (0..2).map(|k| cell(nm(60 + k), 3 + k as i64)).collect();
        let c = [3, 4];
        let (ki, a, vi) = make(i, &cells, dcg, &c); let (kj, b, vj) = make(j, &cells, dcg, &c);
        // without a graph a cell is its value, and namespaces mean nothing
        let norm = |k: &str| if dcg { k.to_string() } else { k.replace("map0 c0", "map0 (value 3)").replace("c0", "value 3").replace("c1", "value 4").replace("ns 9 ", "").replace("(", "").replace(")", "") };
        let same = norm(&ki) == norm(&kj);
        check!((a == b) == same && (b == a) == same, "{} and {} compare {}", ki, kj, if a == b { "equal" } else { "different" });
        if same { check!(h64(&a) == h64(&b), "{} and {} are equal but have different hashes", ki, kj) }
        let c1 = a.clone();
        check!(c1 == a && h64(&c1) == h64(&a), "{} is different from its clone", ki);
        check!(force(&a) == vi && force(&b) == vj, "{} holds {}, {} holds {}; expected {} and {}", ki, force(&a), kj, force(&b), vi, vj);
        if !dcg { cx.states += 1; cx.transitions += 4; return Ok(()) }
        let user = |a: &Art<i64>| thunk(NameChoice::Nominal(nm(70)), adapton::macros::ProgPt { symbol: "user" }, Rc::new(Box::new(|a: Art<i64>, ()| 1000 + force(&a))), a.clone(), ());
        let sel = cell(nm(62), 0usize);
        let (a2, b2, s2) = (a.clone(), b.clone(), sel.clone());
        let either: Art<Art<i64>> = thunk(NameChoice::Nominal(nm(71)), adapton::macros::ProgPt { symbol: "either" }, Rc::new(Box::new(move |(), ()| if force(&s2) == 0 { a2.clone() } else { b2.clone() })), (), ());
        let e2 = either.clone();
        let of: Art<i64> = thunk(NameChoice::Nominal(nm(72)), adapton::macros::ProgPt { symbol: "of" }, Rc::new(Box::new(move |(), ()| { let a = force(&e2); 2000 + force(&a) })), (), ());
        let mut c = [3i64, 4];
        for step in 0..6 {
            if step == 3 { c[0] = 7; set(&cells[0], 7) }
            if step == 5 { c[1] = 9; set(&cells[1], 9) }
            let k = step % 2;
            let want = make(if k == 0 { i } else { j }, &cells, dcg, &c).2;
            let got = force(&user(if k == 0 { &a } else { &b }));
            check!(got == 1000 + want, "step {}: a thunk with the argument {} gives {}, expected {}", step, if k == 0 { &ki } else { &kj }, got, 1000 + want);
            set(&sel, k);
            let got = force(&of);
            check!(got == 2000 + want, "step {}: demanding the articulation returned by a thunk ({}) gives {}, expected {}", step, if k == 0 { &ki } else { &kj }, got, 2000 + want);
            cx.step();
        }
        cx.state(x); cx.outcome(&(vi, vj));
        Ok(())
    } }
}
