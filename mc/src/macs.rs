//! The macros mean the engine calls that they stand for (C23).

use crate::core::*;
use adapton::engine::*;
use adapton::engine::reflect_dcg::dcg_reflect_now;
use adapton::macros::*;
use adapton::reflect::{self, Node};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;

thread_local!(static RUNS: Cell<u64> = Cell::new(0));
fn tick() { RUNS.with(|r| r.set(r.get() + 1)) }
fn add(x: i64, y: i64) -> i64 { tick(); 10 * x + y }
fn sub(x: i64, y: i64) -> i64 { tick(); 10 * x - y }
fn inc(x: i64) -> i64 { tick(); x + 1 }
fn dbl(x: i64) -> i64 { tick(); 2 * x }
fn gen<A: Into<i64> + Clone, B: Into<i64> + Clone>(x: A, y: B) -> i64 { tick(); let x: i64 = x.into(); let y: i64 = y.into(); 100 * x + y }
fn gen2<A: Into<i64> + Clone, F>(x: A, f: Rc<F>) -> i64 where F: Fn(i64) -> i64 { tick(); f(x.into()) }
fn n(s: &'static str) -> Name { name_of_str(s) }
fn nom(nm: Name) -> NameChoice { NameChoice::Nominal(nm) }
fn t2(nm: NameChoice, pp: &'static str, f: fn(i64, i64) -> i64, x: i64, y: i64) -> Art<i64> { thunk(nm, prog_pt!(pp), Rc::new(Box::new(move |(x, y, ()), ()| f(x, y))), (x, y, ()), ()) }

/// One step: the input cell (changed before each step), and two small numbers.
type Frag = fn(&Art<i64>, i64, i64) -> Vec<i64>;
/// name, with macros, with engine calls
pub const FORMS: &[(&str, Frag, Frag)] = &[
    ("get!", |c, _, _| vec![get!(c.clone())], |c, _, _| vec![force(c)]),
    ("get! with a value for cycles", |c, _, y| vec![get!(c.clone(), y)], |c, _, y| vec![force_cycle(c, Some(y))]),
    ("cell! [id]", |_, x, _| { let a = cell!([k] x); vec![get!(a)] }, |_, x, _| { let a = cell(n("k"), x); vec![force(&a)] }),
    ("cell! [Some]?", |_, x, y| { let a = cell!([Some(name_of_usize(y as usize))]? x); vec![get!(a)] }, |_, x, y| { let a = cell(name_of_usize(y as usize), x); vec![force(&a)] }),
    ("cell! [None]?", |_, x, _| { let a = cell!([None]? x); vec![get!(a)] }, |_, x, _| { let a = put(x); vec![force(&a)] }),
    ("thunk! [Some]? f", |_, x, y| { let t = thunk!([Some(n("t"))]? add ; a:x, b:y); vec![get!(t)] }, |_, x, y| vec![force(&t2(nom(n("t")), "add", add, x, y))]),
    ("thunk! [Some]? not forced", |_, x, y| { let _t = thunk!([Some(n("t"))]? add ; a:x, b:y); vec![] }, |_, x, y| { t2(nom(n("t")), "add", add, x, y); vec![] }),
    ("thunk! [None]? f", |_, x, y| { let t = thunk!([None]? add ; a:x, b:y); vec![get!(t)] }, |_, x, y| vec![force(&t2(NameChoice::Eager, "add", add, x, y))]),
    ("thunk! [Some]? one argument", |_, x, _| { let t = thunk!([Some(n("t"))]? inc ; a:x); vec![get!(t)] }, |_, x, _| vec![force(&thunk(nom(n("t")), prog_pt!("inc"), Rc::new(Box::new(move |(x, ()), ()| inc(x))), (x, ()), ()))]),
    ("thunk! [Some]? with ;;", |_, x, y| { let t = thunk!([Some(n("t"))]? |a: i64, f: Rc<dyn Fn(i64) -> i64>| f(a) ; a:x ;; f:{ let f: Rc<dyn Fn(i64) -> i64> = if x > 0 { Rc::new(inc) } else { Rc::new(dbl) }; f }); let _ = y; vec![get!(t)] },
        |_, x, _| { let f: Rc<dyn Fn(i64) -> i64> = if x > 0 { Rc::new(inc) } else { Rc::new(dbl) }; vec![force(&thunk(nom(n("t")), prog_pt!("f(a)"), Rc::new(Box::new(move |(x, ()), (f, ()): (Rc<dyn Fn(i64) -> i64>, ())| f(x))), (x, ()), (f, ())))] }),
    ("thunk! [id] f", |_, x, y| { let t = thunk!([t] add ; a:x, b:y); vec![get!(t)] }, |_, x, y| vec![force(&t2(nom(n("t")), "add", add, x, y))]),
    ("thunk! nm =>> f", |_, x, y| { let t = thunk!(name_of_usize(7) =>> add, a:x, b:y); vec![get!(t)] }, |_, x, y| vec![force(&t2(nom(name_of_usize(7)), "add", add, x, y))]),
    ("thunk! nm =>> f ;;", |_, x, y| { let t = thunk!(name_of_usize(7) =>> gen2::<i64, fn(i64) -> i64>, a:x ;; f:Rc::new(inc as fn(i64) -> i64)); let _ = y; vec![get!(t)] },
        |_, x, _| vec![force(&thunk(nom(name_of_usize(7)), prog_pt!("gen2"), Rc::new(Box::new(move |(x, ()), (f, ()): (Rc<fn(i64) -> i64>, ())| gen2(x, f))), (x, ()), (Rc::new(inc as fn(i64) -> i64), ())))]),
    ("thunk! [Some]? body", |c, _, _| { let c = c.clone(); let t = thunk![[Some(n("t"))]? inc(get!(c)) ]; vec![get!(t)] }, |c, _, _| { let c = c.clone(); vec![force(&thunk(nom(n("t")), prog_pt!("b"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()))] }),
    ("thunk! [id] body", |c, _, _| { let c = c.clone(); let t = thunk![[t] inc(get!(c)) ]; vec![get!(t)] }, |c, _, _| { let c = c.clone(); vec![force(&thunk(nom(n("t")), prog_pt!("b"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()))] }),
    ("thunk! [id] one of two bodies", |c, x, _| { let c = c.clone(); let t = if x > 0 { thunk![[t] inc(get!(c)) ] } else { thunk![[t] dbl(get!(c)) ] }; vec![get!(t)] },
        |c, x, _| { let c = c.clone(); let t = if x > 0 { thunk(nom(n("t")), prog_pt!("b1"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()) } else { thunk(nom(n("t")), prog_pt!("b2"), Rc::new(Box::new(move |(), ()| dbl(force(&c)))), (), ()) }; vec![force(&t)] }),
    ("thunk! [Some]? one of two bodies", |c, x, _| { let c = c.clone(); let t = if x > 0 { thunk![[Some(n("t"))]? inc(get!(c)) ] } else { thunk![[Some(n("t"))]? dbl(get!(c)) ] }; vec![get!(t)] },
        |c, x, _| { let c = c.clone(); let t = if x > 0 { thunk(nom(n("t")), prog_pt!("b1"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()) } else { thunk(nom(n("t")), prog_pt!("b2"), Rc::new(Box::new(move |(), ()| dbl(force(&c)))), (), ()) }; vec![force(&t)] }),
    ("thunk! nm =>> one of two functions", |_, x, y| { let t = if x > 0 { thunk!(n("t") =>> add, a:y, b:y) } else { thunk!(n("t") =>> sub, a:y, b:y) }; vec![get!(t)] },
        |_, x, y| { let t = if x > 0 { t2(nom(n("t")), "add", add, y, y) } else { t2(nom(n("t")), "sub", sub, y, y) }; vec![force(&t)] }),
    ("memo! [Some]? f", |_, x, y| { let (t, v) = memo!([Some(n("t"))]? add ; a:x, b:y); vec![get!(t), v] }, |_, x, y| { let t = t2(nom(n("t")), "add", add, x, y); let v = force(&t); vec![force(&t), v] }),
    ("memo! [Some]? f ;;", |_, x, _| { let (t, v) = memo!([Some(n("t"))]? gen2 ; a:x ;; f:Rc::new(inc as fn(i64) -> i64)); vec![get!(t), v] },
        |_, x, _| { let t = thunk(nom(n("t")), prog_pt!("gen2"), Rc::new(Box::new(move |(x, ()), (f, ()): (Rc<fn(i64) -> i64>, ())| gen2(x, f))), (x, ()), (Rc::new(inc as fn(i64) -> i64), ())); let v = force(&t); vec![force(&t), v] }),
    ("memo! [None]? f", |_, x, y| { let (t, v) = memo!([None]? add ; a:x, b:y); vec![get!(t), v] }, |_, x, y| { let t = t2(NameChoice::Eager, "add", add, x, y); let v = force(&t); vec![force(&t), v] }),
    ("memo! nm =>> f", |_, x, y| vec![memo!(n("t") =>> add, a:x, b:y)], |_, x, y| vec![force(&t2(nom(n("t")), "add", add, x, y))]),
    ("memo! nm =>> f ;;", |_, x, _| vec![memo!(n("t") =>> gen2, a:x ;; f:Rc::new(inc as fn(i64) -> i64))],
        |_, x, _| vec![force(&thunk(nom(n("t")), prog_pt!("gen2"), Rc::new(Box::new(move |(x, ()), (f, ()): (Rc<fn(i64) -> i64>, ())| gen2(x, f))), (x, ()), (Rc::new(inc as fn(i64) -> i64), ())))]),
    ("eager! nm =>> f", |_, x, y| { let nm = n("t"); let (t, v) = eager!(nm =>> add, a:x, b:y); vec![get!(t), v] }, |_, x, y| { let t = t2(nom(n("t")), "add", add, x, y); let v = force(&t); vec![force(&t), v] }),
    ("eager! nm =>> f =>> <T> ;;", |_, x, _| { let nm = n("t"); let (t, v) = eager!(nm =>> gen2 =>> <i64, fn(i64) -> i64>, a:x ;; f:Rc::new(inc as fn(i64) -> i64)); vec![get!(t), v] },
        |_, x, _| { let t = thunk(nom(n("t")), prog_pt!("gen2"), Rc::new(Box::new(move |(x, ()), (f, ()): (Rc<fn(i64) -> i64>, ())| gen2(x, f))), (x, ()), (Rc::new(inc as fn(i64) -> i64), ())); let v = force(&t); vec![force(&t), v] }),
    ("eager! nm =>> f::<T>", |_, x, y| { let nm = n("t"); let (t, v) = eager!(nm =>> gen::<i64, i32>, a:x, b:y as i32); vec![get!(t), v] }, |_, x, y| { let t = thunk(nom(n("t")), prog_pt!("gen"), Rc::new(Box::new(move |(x, y): (i64, i32), ()| gen(x, y))), (x, y as i32), ()); let v = force(&t); vec![force(&t), v] }),
    ("eager! f (structural)", |_, x, y| { let (t, v) = eager!(add, a:x, b:y); vec![get!(t), v] }, |_, x, y| { let t = t2(NameChoice::Structural, "add", add, x, y); let v = force(&t); vec![force(&t), v] }),
    ("eager! f::<T> (structural)", |_, x, y| { let (t, v) = eager!(gen::<i64, i32>, a:x, b:y as i32); vec![get!(t), v] }, |_, x, y| { let t = thunk(NameChoice::Structural, prog_pt!("gen"), Rc::new(Box::new(move |(x, y): (i64, i32), ()| gen(x, y))), (x, y as i32), ()); let v = force(&t); vec![force(&t), v] }),
    ("cell_call!", |_, x, y| { let c = cell_call!(n("c") =>> add, a:x, b:y); vec![get!(c)] }, |_, x, y| { let c = cell(n("c"), add(x, y)); vec![force(&c)] }),
    ("cell_call! <T>", |_, x, y| { let c = cell_call!(n("c") =>> gen::<i64, i32>, a:x, b:y as i32); vec![get!(c)] }, |_, x, y| { let c = cell(n("c"), gen(x, y as i32)); vec![force(&c)] }),
    ("let_cell!", |_, x, y| vec![let_cell! { a = x; b = y; get!(a) * 10 + get!(b) }], |_, x, y| { let a = cell(n("a"), x); let b = cell(n("b"), y); vec![force(&a) * 10 + force(&b)] }),
    ("let_thunk!", |c, x, y| { let c = c.clone(); vec![let_thunk! { f = { inc(get!(c)) }; get!(f) + 10 * x + y }] },
        |c, x, y| { let c = c.clone(); let f = thunk(nom(n("f")), prog_pt!("b"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()); vec![force(&f) + 10 * x + y] }),
    ("let_memo!", |c, _, _| { let c = c.clone(); vec![let_memo! { b =(g)= { let x = get!(c); let_cell! { b = x * x; b } }; d =(h)= { let x = get!(b); let_cell! { d = if x < 2 { x } else { 2 }; d } }; get!(d) + 100 * get!(get!(h)) + 1000 * get!(get!(g)) }] },
        |c, _, _| {
            let c = c.clone();
            let g = thunk(nom(n("g")), prog_pt!("b1"), Rc::new(Box::new(move |(), ()| { let x = force(&c); cell(n("b"), x * x) })), (), ());
            let b = force(&g); let b2 = b.clone();
            let h = thunk(nom(n("h")), prog_pt!("b2"), Rc::new(Box::new(move |(), ()| { let x = force(&b2); cell(n("d"), if x < 2 { x } else { 2 }) })), (), ());
            let d = force(&h);
            vec![force(&d) + 100 * force(&force(&h)) + 1000 * force(&force(&g))]
        }),
    ("fork!", |_, x, y| { let (a, b) = fork!(name_of_usize(y as usize)); let a = cell(a, x); let b = cell(b, y); vec![get!(a), get!(b)] }, |_, x, y| { let (a, b) = name_fork(name_of_usize(y as usize)); let a = cell(a, x); let b = cell(b, y); vec![force(&a), force(&b)] }),
    ("forko! Some", |_, x, y| { let (a, b) = forko!(Some(name_of_usize(y as usize))); let a = cell!([a]? x); let b = cell!([b]? y); vec![get!(a), get!(b)] }, |_, x, y| { let (a, b) = name_fork(name_of_usize(y as usize)); let a = cell(a, x); let b = cell(b, y); vec![force(&a), force(&b)] }),
    ("forko! None", |_, x, _| { let q: Option<Name> = None; let (a, b) = forko!(q); vec![a.is_none() as i64, b.is_none() as i64, x] }, |_, x, _| vec![1, 1, x]),
    // one of two functions, in each form: of the same name or of the same arguments
    ("thunk! [Some]? one of two functions", |_, x, y| { let t = if x > 0 { thunk!([Some(n("t"))]? add ; a:y, b:y) } else { thunk!([Some(n("t"))]? sub ; a:y, b:y) }; vec![get!(t)] }, two),
    ("thunk! [id] one of two functions", |_, x, y| { let t = if x > 0 { thunk!([t] add ; a:y, b:y) } else { thunk!([t] sub ; a:y, b:y) }; vec![get!(t)] }, two),
    ("memo! nm =>> one of two functions", |_, x, y| vec![if x > 0 { memo!(n("t") =>> add, a:y, b:y) } else { memo!(n("t") =>> sub, a:y, b:y) }], two),
    ("memo! [Some]? one of two functions", |_, x, y| vec![if x > 0 { memo!([Some(n("t"))]? add ; a:y, b:y).1 } else { memo!([Some(n("t"))]? sub ; a:y, b:y).1 }], two),
    ("eager! nm =>> one of two functions", |_, x, y| { let nm = n("t"); vec![if x > 0 { eager!(nm =>> add, a:y, b:y).1 } else { eager!(nm =>> sub, a:y, b:y).1 }] }, two),
    ("eager! one of two functions (structural)", |_, x, y| vec![if x > 0 { eager!(add, a:y, b:y).1 } else { eager!(sub, a:y, b:y).1 }],
        |_, x, y| vec![if x > 0 { force(&t2(NameChoice::Structural, "add", add, y, y)) } else { force(&t2(NameChoice::Structural, "sub", sub, y, y)) }]),
    ("thunk! [Some]? ;; one of two functions", |_, x, y| { let t = if x > 0 { thunk!([Some(n("t"))]? addf ; a:y ;; f:fp()) } else { thunk!([Some(n("t"))]? subf ; a:y ;; f:fp()) }; vec![get!(t)] }, twof),
    ("thunk! nm =>> ;; one of two functions", |_, x, y| { let t = if x > 0 { thunk!(n("t") =>> addf::<i64>, a:y ;; f:fp()) } else { thunk!(n("t") =>> subf::<i64>, a:y ;; f:fp()) }; vec![get!(t)] }, twof),
    ("memo! [Some]? ;; one of two functions", |_, x, y| vec![if x > 0 { memo!([Some(n("t"))]? addf ; a:y ;; f:fp()).1 } else { memo!([Some(n("t"))]? subf ; a:y ;; f:fp()).1 }], twof),
    ("memo! nm =>> ;; one of two functions", |_, x, y| vec![if x > 0 { memo!(n("t") =>> addf, a:y ;; f:fp()) } else { memo!(n("t") =>> subf, a:y ;; f:fp()) }], twof),
    ("eager! nm =>> <T> ;; one of two functions", |_, x, y| { let nm = n("t"); vec![if x > 0 { eager!(nm =>> addf =>> <i64>, a:y ;; f:fp()).1 } else { eager!(nm =>> subf =>> <i64>, a:y ;; f:fp()).1 }] }, twof),
    // one after the other, in different namespaces
    ("memo! of two functions in namespaces", |_, x, y| vec![ns(n("p"), || memo!(n("t") =>> add, a:x, b:y)), ns(n("q"), || memo!(n("t") =>> sub, a:x, b:y))],
        |_, x, y| vec![ns(n("p"), || force(&t2(nom(n("t")), "add", add, x, y))), ns(n("q"), || force(&t2(nom(n("t")), "sub", sub, x, y)))]),
    ("structural memo! of two functions", |_, x, y| vec![structural(|| memo!(n("t") =>> add, a:x, b:y)), structural(|| memo!(n("t") =>> sub, a:x, b:y)), structural(|| memo!(n("t") =>> addf, a:x ;; f:fp())), structural(|| memo!(n("t") =>> subf, a:x ;; f:fp()))],
        |_, x, y| vec![structural(|| force(&t2(nom(n("t")), "add", add, x, y))), structural(|| force(&t2(nom(n("t")), "sub", sub, x, y))), structural(|| force(&t1f("addf", addf, x))), structural(|| force(&t1f("subf", subf, x)))]),
    ("structural thunk! of two functions", |_, x, y| vec![structural(|| get!(thunk!([Some(n("t"))]? add ; a:x, b:y))), structural(|| get!(thunk!([Some(n("t"))]? sub ; a:x, b:y))), structural(|| get!(thunk!([Some(n("t"))]? addf ; a:x ;; f:fp()))), structural(|| get!(thunk!([Some(n("t"))]? subf ; a:x ;; f:fp())))],
        |_, x, y| vec![structural(|| force(&t2(nom(n("t")), "add", add, x, y))), structural(|| force(&t2(nom(n("t")), "sub", sub, x, y))), structural(|| force(&t1f("addf", addf, x))), structural(|| force(&t1f("subf", subf, x)))]),
    ("structural thunk! of two bodies", |c, _, _| { let (c, d) = (c.clone(), c.clone()); vec![structural(|| get!(thunk![[t] inc(get!(c))])), structural(|| get!(thunk![[t] dbl(get!(d))]))] },
        |c, _, _| { let (c, d) = (c.clone(), c.clone()); vec![structural(|| force(&thunk(nom(n("t")), prog_pt!("b1"), Rc::new(Box::new(move |(), ()| inc(force(&c)))), (), ()))), structural(|| force(&thunk(nom(n("t")), prog_pt!("b2"), Rc::new(Box::new(move |(), ()| dbl(force(&d)))), (), ())))] }),
    ("cell! in a structural region", |_, x, y| { let (a, b) = structural(|| (cell!([k] x), cell!([Some(n("k"))]? y))); vec![get!(a), get!(b)] },
        |_, x, y| { let (a, b) = structural(|| (cell(n("k"), x), cell(n("k"), y))); vec![force(&a), force(&b)] }),
    ("cell_call! of two functions", |_, x, y| { let c = if x > 0 { cell_call!(n("c") =>> add, a:x, b:y) } else { cell_call!(n("c") =>> sub, a:x, b:y) }; vec![get!(c)] }, |_, x, y| { let c = cell(n("c"), if x > 0 { add(x, y) } else { sub(x, y) }); vec![force(&c)] }),
    // one of two generic functions, and one of two instances of one function
    ("eager! nm =>> f::<T> one of two functions", |_, x, y| { let nm = n("t"); vec![if x > 0 { eager!(nm =>> gen::<i64, i64>, a:y, b:y).1 } else { eager!(nm =>> neg::<i64, i64>, a:y, b:y).1 }] }, twog),
    ("eager! f::<T> one of two functions (structural)", |_, x, y| vec![if x > 0 { eager!(gen::<i64, i64>, a:y, b:y).1 } else { eager!(neg::<i64, i64>, a:y, b:y).1 }],
        |_, x, y| vec![force(&if x > 0 { tg(NameChoice::Structural, "gen", gen, y) } else { tg(NameChoice::Structural, "neg", neg, y) })]),
    ("cell_call! <T> one of two functions", |_, x, y| { let c = if x > 0 { cell_call!(n("c") =>> gen::<i64, i64>, a:x, b:y) } else { cell_call!(n("c") =>> neg::<i64, i64>, a:x, b:y) }; vec![get!(c)] }, |_, x, y| { let c = cell(n("c"), if x > 0 { gen(x, y) } else { neg(x, y) }); vec![force(&c)] }),
    ("eager! nm =>> f::<T> one of two instances", |_, x, y| { let nm = n("t"); vec![if x > 0 { eager!(nm =>> wide::<i32>, a:y, b:y).1 } else { eager!(nm =>> wide::<i64>, a:y, b:y).1 }] }, twow),
    ("eager! f::<T> one of two instances (structural)", |_, x, y| vec![if x > 0 { eager!(wide::<i32>, a:y, b:y).1 } else { eager!(wide::<i64>, a:y, b:y).1 }],
        |_, x, y| vec![force(&if x > 0 { tg(NameChoice::Structural, "wide<i32>", wide::<i32>, y) } else { tg(NameChoice::Structural, "wide<i64>", wide::<i64>, y) })]),
    ("eager! nm =>> f =>> <T> ;; one of two instances", |_, x, y| { let nm = n("t"); vec![if x > 0 { eager!(nm =>> widef =>> <i32>, a:y ;; f:fp()).1 } else { eager!(nm =>> widef =>> <i64>, a:y ;; f:fp()).1 }] }, twowf),
    ("thunk! [Some]? one of two instances", |_, x, y| { let t = if x > 0 { thunk!([Some(n("t"))]? wide::<i32> ; a:y, b:y) } else { thunk!([Some(n("t"))]? wide::<i64> ; a:y, b:y) }; vec![get!(t)] }, twow),
    ("thunk! nm =>> one of two instances", |_, x, y| { let t = if x > 0 { thunk!(n("t") =>> wide::<i32>, a:y, b:y) } else { thunk!(n("t") =>> wide::<i64>, a:y, b:y) }; vec![get!(t)] }, twow),
    ("thunk! [id] one of two instances", |_, x, y| { let t = if x > 0 { thunk!([t] wide::<i32> ; a:y, b:y) } else { thunk!([t] wide::<i64> ; a:y, b:y) }; vec![get!(t)] }, twow),
    ("memo! nm =>> one of two instances", |_, x, y| vec![if x > 0 { memo!(n("t") =>> wide::<i32>, a:y, b:y) } else { memo!(n("t") =>> wide::<i64>, a:y, b:y) }], twow),
    ("memo! [Some]? ;; one of two instances", |_, x, y| vec![if x > 0 { memo!([Some(n("t"))]? widef::<i32> ; a:y ;; f:fp()).1 } else { memo!([Some(n("t"))]? widef::<i64> ; a:y ;; f:fp()).1 }], twowf),
];
fn neg<A: Into<i64> + Clone, B: Into<i64> + Clone>(x: A, y: B) -> i64 { tick(); let x: i64 = x.into(); let y: i64 = y.into(); 100 * x - y - 7 }
fn wide<T>(x: i64, y: i64) -> i64 { tick(); 1000 * std::mem::size_of::<T>() as i64 + 10 * x + y }
fn widef<T>(x: i64, f: Fp) -> i64 { tick(); 1000 * std::mem::size_of::<T>() as i64 + f(x) }
fn tg(nm: NameChoice, pp: &'static str, f: fn(i64, i64) -> i64, y: i64) -> Art<i64> { t2(nm, pp, f, y, y) }
fn twog(_: &Art<i64>, x: i64, y: i64) -> Vec<i64> { vec![force(&if x > 0 { tg(nom(n("t")), "gen", gen, y) } else { tg(nom(n("t")), "neg", neg, y) })] }
fn twow(_: &Art<i64>, x: i64, y: i64) -> Vec<i64> { vec![force(&if x > 0 { tg(nom(n("t")), "wide<i32>", wide::<i32>, y) } else { tg(nom(n("t")), "wide<i64>", wide::<i64>, y) })] }
fn twowf(_: &Art<i64>, x: i64, y: i64) -> Vec<i64> { vec![force(&if x > 0 { t1f("widef<i32>", widef::<i32>, y) } else { t1f("widef<i64>", widef::<i64>, y) })] }
fn two(_: &Art<i64>, x: i64, y: i64) -> Vec<i64> { let t = if x > 0 { t2(nom(n("t")), "add", add, y, y) } else { t2(nom(n("t")), "sub", sub, y, y) }; vec![force(&t)] }
fn twof(_: &Art<i64>, x: i64, y: i64) -> Vec<i64> { let t = if x > 0 { t1f("addf", addf, y) } else { t1f("subf", subf, y) }; vec![force(&t)] }
type Fp = Rc<fn(i64) -> i64>;
fn fp() -> Fp { Rc::new(inc as fn(i64) -> i64) }
fn addf<A: Into<i64>>(x: A, f: Fp) -> i64 { tick(); 10 + f(x.into()) }
fn subf<A: Into<i64>>(x: A, f: Fp) -> i64 { tick(); 20 - f(x.into()) }
fn t1f(pp: &'static str, f: fn(i64, Fp) -> i64, x: i64) -> Art<i64> { thunk(nom(n("t")), prog_pt!(pp), Rc::new(Box::new(move |(x, ()), (g, ()): (Fp, ())| f(x, g))), (x, ()), (fp(), ())) }

/// how the fragment is run
#[derive(Clone, Copy, Debug)]
enum How { Root, Inside, Naive }

pub struct Forms { pub steps: usize }
struct FormCase { steps: usize, i: usize, how: How }
impl Family for Forms {
    fn name(&self) -> String { format!("macros-{}", self.steps) }
    fn bounds(&self) -> String { format!("{} forms of the macros, run by the editor, inside a thunk, and under the naive engine: all histories of {} steps over 3 contents of the input cell and 2x2 arguments; results, runs of functions and the reflected graph equal those of the engine calls", FORMS.len(), self.steps) }
    fn ncases(&self) -> usize { FORMS.len() * 3 }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> { Some(Box::new(FormCase { steps: self.steps, i: i / 3, how: [How::Root, How::Inside, How::Naive][i % 3] })) }
}
type Snap = BTreeMap<String, String>;
fn snap() -> Snap {
    let g = match dcg_reflect_now() { Some(g) => g, None => return BTreeMap::new() };
    let loc = |l: &reflect::Loc| { let n = format!("{:?}", l.name); format!("{:?} {}", l.path, if n.starts_with("Hash64") { "Hash64" } else { &n }) };
    let mut out: BTreeMap<String, String> = BTreeMap::new();
    for (l, nd) in &g.table { let d = match nd {
        Node::Comp(c) => {
            // one of several edges to the same location may carry their dirtiness
            let mut d: BTreeMap<(String, String), (usize, bool)> = BTreeMap::new();
            for s in &c.succs { let e = d.entry((loc(&s.loc), format!("{:?}", s.effect))).or_insert((0, false)); e.0 += 1; e.1 |= s.dirty }
            format!("thunk {:?} {:?}", c.value, d)
        }
        Node::Ref(r) => format!("cell {:?}", r.value),
        Node::Pure(_) => "pure".to_string(),
    };
        // structural locations print alike: told apart by their contents
        let mut k = loc(l); if k.contains("Hash64") { k = format!("{} {}", k, d); while out.contains_key(&k) { k.push('+') } }
        out.insert(k, d);
    }
    out
}
impl Case for FormCase {
    fn nhist(&self) -> u64 { 12u64.pow(self.steps as u32) }
    fn describe(&self, h: u64) -> String { format!("{} {:?} {:?}", FORMS[self.i].0, self.how, digits(h, 12, self.steps)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let hist = digits(h, 12, self.steps);
        let go = |f: Frag| -> Vec<(Option<Vec<i64>>, u64, Snap)> {
            match self.how { How::Naive => { manage::init_naive(); } _ => { manage::init_dcg(); } }
            let mut o = vec![]; let mut c: Option<Art<i64>> = None;
            // the arguments of the fragment, when it runs inside a thunk
            let mut inside: Option<(Art<i64>, Art<i64>, Art<Vec<i64>>)> = None;
            for d in &hist {
                let (v, x, y) = ((d / 4) as i64, (d / 2 % 2) as i64, (d % 2) as i64);
                if let (&Some(ref c), How::Root) | (&Some(ref c), How::Inside) = (&c, self.how) { set(c, v) } else { c = Some(cell(name_of_str("input"), v)) }
                let c = c.clone().unwrap();
                RUNS.with(|r| r.set(0));
                // giving one name to two functions is refused: with the macro as without
                let r = guarded(|| match self.how {
                    How::Inside => {
                        if inside.is_none() {
                            let (a, b) = (cell(name_of_str("x"), x), cell(name_of_str("y"), y));
                            let (a2, b2) = (a.clone(), b.clone());
                            let m = thunk(NameChoice::Nominal(name_of_str("main")), prog_pt!("main"), Rc::new(Box::new(move |(), ()| f(&c, force(&a2), force(&b2)))), (), ());
                            inside = Some((a, b, m));
                        }
                        let (a, b, m) = inside.as_ref().unwrap();
                        set(a, x); set(b, y);
                        force(m)
                    }
                    _ => f(&c, x, y),
                });
                let stop = r.is_err();
                o.push(match r { Ok(r) => (Some(r), RUNS.with(|r| r.get()), snap()), Err(_) => (None, 0, BTreeMap::new()) });
                if stop { break }
            }
            o
        };
        let a = go(FORMS[self.i].1);
        let b = go(FORMS[self.i].2);
        for k in 0..a.len().min(b.len()) {
            check!(a[k].0 == b[k].0, "step {}: the macro gives {:?}, the engine calls {:?}", k, a[k].0, b[k].0);
            check!(a[k].1 == b[k].1, "step {}: with the macro, functions run {} times, with the engine calls {}", k, a[k].1, b[k].1);
            if a[k].2 != b[k].2 {
                for (l, x) in &a[k].2 { if b[k].2.get(l) != Some(x) { return Err(format!("step {}: with the macro {} is {}, with the engine calls {:?}", k, l, x, b[k].2.get(l))) } }
                return Err(format!("step {}: the engine calls make nodes that the macro does not: {:?}", k, b[k].2));
            }
            cx.step(); cx.step();
            cx.state(&(&a[k].0, k, h));
        }
        cx.outcome(&a[a.len() - 1].0);
        Ok(())
    }
}

/// forms that name by counting
pub fn counted() -> FnFamily<usize> {
    FnFamily { name: "counted-names".into(), bounds: "the forms of cell! and thunk! without names, and optional names of None, made n times for n up to 6: all hold their own value".into(), items: (0..7).collect(), show: |n| n.to_string(), run: |n, cx| {
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            let cells: Vec<Art<usize>> = (0..*n).map(|i| cell!(10 + i)).collect();
            let ths: Vec<Art<usize>> = (0..*n).map(|i| { let c = cells[i].clone(); thunk![ get!(c) + 100 ] }).collect();
            for i in 0..*n {
                check!(get!(cells[i]) == 10 + i, "cell {} of {} holds {}", i, n, get!(cells[i]));
                check!(get!(ths[i]) == 110 + i, "thunk {} of {} gives {}", i, n, get!(ths[i]));
                for j in 0..i { check!(cells[i] != cells[j] && ths[i] != ths[j], "articulations {} and {} are equal", i, j) }
            }
            if dcg == 1 { for i in 0..*n {
                set(&cells[i], 50 + i);
                for j in 0..*n { let e = if j <= i { 150 + j } else { 110 + j }; check!(get!(ths[j]) == e, "after setting cell {}: thunk {} gives {}, expected {}", i, j, get!(ths[j]), e) }
                cx.transitions += *n as u64;
            } }
            cx.states += 1;
        }
        cx.outcome(n);
        Ok(())
    } }
}
