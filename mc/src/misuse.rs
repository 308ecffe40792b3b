//! Misuse is refused by a panic, and a refused editor operation changes nothing.

use crate::core::*;
use crate::pfam::product;
use crate::prog::nm;
use adapton::engine::*;
use adapton::engine::manage::*;
use adapton::macros::ProgPt;
use std::rc::Rc;

/// Which kind of articulation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A { Cell, Thunk, SThunk, SCell, Put, Eager, Naive, TMap }
const AS: [A; 8] = [A::Cell, A::Thunk, A::SThunk, A::SCell, A::Put, A::Eager, A::Naive, A::TMap];
/// How an articulation is observed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How { Force, Map, Abs, Cycle }
const HOWS: [How; 4] = [How::Force, How::Map, How::Abs, How::Cycle];

/// Contents that an editor may try to allocate under a name.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N { CellInt(i64), CellStr, ThunkInt(u8, i64), ThunkStr, ThunkArgStr(u8) }

#[derive(Clone, Copy, Debug)]
pub enum O {
    // legitimate
    Set(i64), Dem(A), DemU, Alloc(u8, N),
    // misuse
    SetOn(A), NaiveObs(A, How), NaiveSet, ReflectEnd, ReflectNest, SetIn(u8),
}

struct Fam0;
impl AbsMapFam<u8, u8, i64, u8, i64> for Fam0 {
    fn map(&self, _a: u8, x: i64) -> i64 { x }
    fn abs(&self, _a: u8) -> u8 { 1 }
    fn join(&self, a: u8, b: u8) -> u8 { a | b }
    fn diff(&self, a: &i64, b: &i64) -> u8 { if a == b { 0 } else { 1 } }
    fn is_dirty(&self, d: u8, abs: &u8) -> bool { d & *abs != 0 }
}
fn observe(a: &Art<i64>, how: How) -> i64 {
    match how { How::Force => force(a), How::Map => force_map(a, |_, x| x), How::Abs => force_abs(Box::new(Fam0), 0, a.clone()), How::Cycle => force_cycle(a, Some(-1)) }
}
type Bx<A2, T> = Rc<Box<dyn Fn(A2, ()) -> T>>;
fn int_thunk(nc: NameChoice, f: u8, k: i64, x: Art<i64>) -> Art<i64> {
    let b: Bx<i64, i64> = Rc::new(Box::new(move |k, _| 10 * (f as i64 + 1) + k + force(&x)));
    thunk(nc, ProgPt { symbol: ["f0", "f1"][f as usize] }, b, k, ())
}
fn str_arg_thunk(name: u32, f: u8) -> Art<i64> {
    let b: Bx<String, i64> = Rc::new(Box::new(move |s, _| s.len() as i64));
    thunk(NameChoice::Nominal(nm(name)), ProgPt { symbol: ["f0", "f1"][f as usize] }, b, "a".to_string(), ())
}
fn str_thunk(name: u32) -> Art<String> {
    let b: Bx<i64, String> = Rc::new(Box::new(|s, _| format!("{}", s)));
    thunk(NameChoice::Nominal(nm(name)), ProgPt { symbol: "f0" }, b, 0, ())
}

struct W { x: Art<i64>, arts: Vec<(A, Art<i64>)>, u: Art<i64> }
fn world() -> W {
    let x = cell(nm(1), 0i64);
    let one = Rc::new(|v: i64| v + 1);
    let arts = AS.iter().map(|a| (*a, match a {
        A::Cell => x.clone(),
        A::Thunk => int_thunk(NameChoice::Nominal(nm(2)), 0, 0, x.clone()),
        A::SThunk => int_thunk(NameChoice::Structural, 1, 5, x.clone()),
        A::SCell => structural(|| cell(nm(9), 77)),
        A::Put => put(5),
        A::Eager => int_thunk(NameChoice::Eager, 0, 0, put(1)),
        A::Naive => int_thunk(NameChoice::Naive, 0, 1, x.clone()),
        A::TMap => thunk_map(x.clone(), one.clone()),
    })).collect::<Vec<_>>();
    let all: Vec<Art<i64>> = arts.iter().map(|a| a.1.clone()).collect();
    let b: Bx<(), i64> = Rc::new(Box::new(move |(), _| all.iter().map(|a| force(a)).sum()));
    let u = thunk(NameChoice::Nominal(nm(3)), ProgPt { symbol: "sum" }, b, (), ());
    W { x, arts, u }
}
/// The model: the value of x, and the contents under names 4 and 5.
#[derive(Clone, Debug, PartialEq, Hash)]
struct Md { x: i64, names: [Option<(bool, u8, i64)>; 2] }
fn value(m: &Md, a: A) -> i64 {
    match a { A::Cell => m.x, A::Thunk => 10 + m.x, A::SThunk => 25 + m.x, A::SCell => 77, A::Put => 5, A::Eager => 11, A::Naive => 11 + m.x, A::TMap => m.x + 1 }
}

fn must_panic<T>(what: &str, n: usize, f: impl FnOnce() -> T) -> R {
    match guarded(std::panic::AssertUnwindSafe(f)) { Ok(_) => Err(format!("step {}: {} was accepted", n, what)), Err(_) => Ok(()) }
}

pub fn ops(rich: bool) -> Vec<O> {
    let mut v = vec![O::Set(0), O::Set(3), O::DemU, O::Dem(A::Thunk), O::NaiveSet, O::ReflectEnd, O::ReflectNest];
    for a in AS.iter() { if *a != A::Cell { v.push(O::SetOn(*a)) } }
    if rich { for a in vec![A::Cell, A::Thunk, A::SThunk] { for h in HOWS.iter() { v.push(O::NaiveObs(a, *h)) } } }
    else { v.push(O::NaiveObs(A::Cell, How::Force)); v.push(O::NaiveObs(A::Thunk, How::Map)); v.push(O::NaiveObs(A::Thunk, How::Abs)); v.push(O::NaiveObs(A::SThunk, How::Cycle)) }
    for i in 0..if rich { 2 } else { 1 } {
        v.push(O::Alloc(i, N::CellInt(7)));
        v.push(O::Alloc(i, N::CellStr));
        v.push(O::Alloc(i, N::ThunkInt(0, 1)));
        v.push(O::Alloc(i, N::ThunkInt(1, 1)));
        v.push(O::Alloc(i, N::ThunkInt(0, 2)));
        v.push(O::Alloc(i, N::ThunkStr));
        v.push(O::Alloc(i, N::ThunkArgStr(0)));
    }
    v
}

pub fn editor(len: usize, rich: bool) -> FnFamily<Vec<O>> {
    FnFamily { name: format!("editor-misuse{}-{}", if rich { "-rich" } else { "" }, len),
        bounds: format!("all sequences of {} editor operations, legitimate (set, demand, allocate) and illegitimate (set on anything but a cell, wrong result type, other function or argument type under a name, locations under the naive engine, unbalanced tracing); every illegitimate one must panic, every legitimate one must behave as if the illegitimate ones had not happened", len),
        items: product(&vec![ops(rich); len]), show: |v| format!("{:?}", v), run }
}

fn run(v: &Vec<O>, cx: &mut Ctx) -> R {
    init_dcg();
    let _ = guarded(|| reflect_dcg::dcg_reflect_end());
    let w = world();
    let mut m = Md { x: 0, names: [None, None] };
    let art = |a: A| w.arts.iter().find(|x| x.0 == a).unwrap().1.clone();
    for (n, o) in v.iter().enumerate() {
        cx.step();
        match *o {
            O::Set(k) => { set(&w.x, k); m.x = k }
            O::Dem(a) => { let g = force(&art(a)); check!(g == value(&m, a), "step {}: {:?} is {}, expected {}", n, a, g, value(&m, a)) }
            O::DemU => { let g = force(&w.u); let want: i64 = AS.iter().map(|a| value(&m, *a)).sum(); check!(g == want, "step {}: the sum is {}, expected {}", n, g, want) }
            O::Alloc(i, c) => {
                let name = 4 + i as u32;
                let was = m.names[i as usize];
                // strings under a name that holds integers, and conversely, are ill-typed
                match c {
                    N::CellInt(k) => { let a = cell(nm(name), k); m.names[i as usize] = Some((true, 0, k)); check!(force(&a) == k, "step {}: cell lost its content", n) }
                    N::ThunkInt(f, k) => {
                        let other = match was { Some((false, g, _)) => g != f, _ => false };
                        if other { must_panic("another function under the same name", n, || int_thunk(NameChoice::Nominal(nm(name)), f, k, w.x.clone()))? }
                        else {
                            let a = int_thunk(NameChoice::Nominal(nm(name)), f, k, w.x.clone());
                            m.names[i as usize] = Some((false, f, k));
                            let want = 10 * (f as i64 + 1) + k + m.x;
                            let got = force(&a);
                            check!(got == want, "step {}: thunk gives {}, expected {}", n, got, want);
                        }
                    }
                    N::CellStr => if was.is_some() { must_panic("a cell of another type under the same name", n, || cell(nm(name), "s".to_string()))? },
                    N::ThunkStr => if was.is_some() { must_panic("a thunk of another result type under the same name", n, || str_thunk(name))? },
                    N::ThunkArgStr(f) => if let Some((false, _, _)) = was { must_panic("a thunk of another argument type under the same name", n, || str_arg_thunk(name, f))? },
                }
            }
            O::SetOn(a) => must_panic(&format!("set on {:?}", a), n, || set(&art(a), 1))?,
            O::NaiveObs(a, h) => {
                let d = init_naive();
                let r = must_panic(&format!("{:?} of {:?} under the naive engine", h, a), n, || observe(&art(a), h));
                use_engine(d);
                r?
            }
            O::NaiveSet => {
                let d = init_naive();
                let r = must_panic("set under the naive engine", n, || set(&w.x, 9));
                use_engine(d);
                r?
            }
            O::ReflectEnd => must_panic("dcg_reflect_end without a begin", n, || reflect_dcg::dcg_reflect_end())?,
            O::ReflectNest => {
                reflect_dcg::dcg_reflect_begin();
                must_panic("nested dcg_reflect_begin", n, || reflect_dcg::dcg_reflect_begin())?;
                let t = reflect_dcg::dcg_reflect_end();
                check!(t.is_empty(), "step {}: a trace of nothing holds {} effects", n, t.len());
            }
            O::SetIn(_) => unreachable!(),
        }
        cx.state(&m);
    }
    // whatever was refused, the engine still works
    let g = force(&w.u); let want: i64 = AS.iter().map(|a| value(&m, *a)).sum();
    check!(g == want, "at the end, the sum is {}, expected {}", g, want);
    for (i, c) in m.names.iter().enumerate() { if let Some((is_cell, f, k)) = *c {
        let a = if is_cell { cell(nm(4 + i as u32), k) } else { int_thunk(NameChoice::Nominal(nm(4 + i as u32)), f, k, w.x.clone()) };
        let want = if is_cell { k } else { 10 * (f as i64 + 1) + k + m.x };
        let got = force(&a);
        check!(got == want, "at the end, name {} gives {}, expected {}", i, got, want);
    } }
    crate::graph::check_quiet()?;
    cx.outcome(&(g, &m.names));
    Ok(())
}

// ---------------------------------------------- misuse from within computations

/// How a thunk comes to run the offending operation.
#[derive(Clone, Debug)]
pub struct In { wraps: Vec<u8>, bad: u8, when: u8, target: u8, /** nothing precedes the operation */ first: bool, /** the panic is caught and the engine used on */ after: bool }
pub fn inner(depth: usize, after: bool) -> FnFamily<In> {
    let mut items = vec![];
    for d in 0..depth + 1 { for wraps in product(&vec![(0..6u8).collect::<Vec<_>>(); d]) { for bad in 0..5u8 { for when in 0..2 { for target in 0..3 {
        if bad != 0 && target > 0 { continue }
        items.push(In { wraps: wraps.clone(), bad, when, target, first: false, after });
        if when == 0 { items.push(In { wraps: wraps.clone(), bad, when, target, first: true, after }) }
    } } } } }
    FnFamily { name: format!("misuse-inside{}-{}", if after { "-resumed" } else { "" }, depth), bounds: format!("a set of a cell (own, outer, or unrelated), an ill-typed cell or thunk, another function or another argument type under a used name, performed below every nesting of at most {} of: nominal thunk, structural thunk, namespace, structural region, naive thunk, thunk_map; on the first evaluation (after a demand, or before anything else) or on re-evaluation{}", depth, if after { "; then edits and demands by the editor" } else { "" }),
        items, show: |v| format!("{:?}", v), run: run_in }
}
fn nest(ws: &[u8], lvl: u32, leaf: Rc<dyn Fn() -> i64>) -> i64 {
    if ws.is_empty() { return leaf() }
    let rest: Vec<u8> = ws[1..].to_vec();
    let l2 = leaf.clone();
    let sym = ["w0", "w1", "w2", "w3"][lvl as usize];
    let b: Bx<u32, i64> = Rc::new(Box::new(move |lvl, _| nest(&rest, lvl + 1, l2.clone())));
    match ws[0] {
        0 => force(&thunk(NameChoice::Nominal(nm(20 + lvl)), ProgPt { symbol: sym }, b, lvl, ())),
        1 => force(&thunk(NameChoice::Structural, ProgPt { symbol: sym }, b, lvl, ())),
        2 => ns(nm(30), || nest(&ws[1..], lvl + 1, leaf)),
        3 => structural(|| nest(&ws[1..], lvl + 1, leaf)),
        4 => force(&thunk(NameChoice::Naive, ProgPt { symbol: sym }, b, lvl, ())),
        _ => { let r: Vec<u8> = ws[1..].to_vec(); force(&thunk_map(put(0i64), Rc::new(move |_| nest(&r, lvl + 1, leaf.clone())))) }
    }
}
fn run_in(t: &In, cx: &mut Ctx) -> R {
    init_dcg();
    let _ = guarded(|| reflect_dcg::dcg_reflect_end());
    let x = cell(nm(1), 0i64);
    let y = cell(nm(2), 0i64);
    let _z: Art<i64> = int_thunk(NameChoice::Nominal(nm(7)), 0, 0, x.clone());
    let (x2, y2, bad, target) = (x.clone(), y.clone(), t.bad, t.target);
    let when = t.when as i64;
    let structural_in = t.wraps.contains(&3);
    let first = t.first;
    let leaf: Rc<dyn Fn() -> i64> = Rc::new(move || {
        if first || force(&x2) == when {
            match bad {
                0 => match target { 0 => set(&x2, 5), 1 => set(&y2, 5), _ => { let c = cell(nm(40), 0i64); set(&c, 1) } },
                // all in the namespace of the editor's own name
                1 => { cell(nm(41), 1i64); cell(nm(41), "s".to_string()); }
                2 => { cell(nm(42), 1i64); str_thunk(42); }
                3 => { int_thunk(NameChoice::Nominal(nm(43)), 0, 0, y2.clone()); int_thunk(NameChoice::Nominal(nm(43)), 1, 0, y2.clone()); }
                _ => { int_thunk(NameChoice::Nominal(nm(43)), 0, 0, y2.clone()); str_arg_thunk(43, 0); }
            }
        }
        1
    });
    let ws = t.wraps.clone();
    let l2 = leaf.clone();
    let b: Bx<(), i64> = Rc::new(Box::new(move |(), _| nest(&ws, 0, l2.clone())));
    let root = thunk(NameChoice::Nominal(nm(3)), ProgPt { symbol: "root" }, b, (), ());
    if t.when == 1 {
        cx.step();
        let v = force(&root);
        check!(v == 1, "the first evaluation gave {}", v);
        set(&x, 1);
    }
    cx.step();
    let r = guarded(|| force(&root));
    if t.after {
        if bad != 0 && structural_in { return Ok(()) }
        check!(r.is_err(), "the operation was accepted inside a computation, which returned {:?}", r);
        crate::graph::check_quiet()?;
        for k in vec![when, 7, 7, when, 8] {
            cx.step();
            guarded(|| set(&x, k)).map_err(|e| format!("after the panic was caught, the editor's set of its cell to {} is refused: {}", k, e))?;
            let z = guarded(|| force(&_z)).map_err(|e| format!("after the panic was caught, another thunk cannot be demanded: {}", e))?;
            check!(z == 10 + k, "after the panic was caught, another thunk gives {}, expected {}", z, 10 + k);
            let again = guarded(|| force(&root));
            if t.first || k == when { check!(again.is_err(), "demanded again with the same input, the computation returns {:?} instead of panicking", again) }
            else { check!(again == Ok(1), "demanded again with an input for which it does not panic, the computation gives {:?}", again) }
            let c = cell(nm(50), k);
            check!(force(&c) == k && force(&y) == 0, "after the panic was caught, the editor's cells hold {} and {}", force(&c), force(&y));
            crate::graph::check_quiet()?;
        }
        cx.outcome(&(t.bad, t.target, t.when));
        return Ok(())
    }
    init_naive();
    // names are ignored in a structural region: only the set is a misuse there
    if bad != 0 && structural_in { cx.outcome(&r.is_ok()); return Ok(()) }
    check!(r.is_err(), "the operation was accepted inside a computation, which returned {:?}", r);
    cx.outcome(&(t.bad, t.target, t.when));
    Ok(())
}

// ---------------------------------------------- locations of another engine

#[derive(Clone, Debug)]
pub struct Dangling { a: A, how: u8 }
pub fn dangling() -> FnFamily<Dangling> {
    let mut items = vec![];
    for a in vec![A::Cell, A::Thunk, A::SThunk, A::SCell] { for how in 0..5 { items.push(Dangling { a, how }) } }
    FnFamily { name: "dangling".into(), bounds: "every kind of tracked articulation x every observation and set, after the engine was replaced by an empty one".into(), items, show: |v| format!("{:?}", v), run: |t, cx| {
        init_dcg();
        let w = world();
        let a = w.arts.iter().find(|x| x.0 == t.a).unwrap().1.clone();
        let v = force(&a);
        let old = init_dcg();
        cx.step();
        let r = guarded(|| if t.how == 4 { set(&a, 1); 0 } else { observe(&a, HOWS[t.how as usize]) });
        check!(r.is_err(), "accepted: a location that the engine does not have, giving {:?}", r);
        use_engine(old);
        check!(force(&a) == v, "the engine it belongs to lost it");
        Ok(())
    } }
}
