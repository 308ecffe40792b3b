//! Reflected values mirror the data, reflected locations the articulations (C17).

use crate::core::*;
use adapton::engine::*;
use adapton::engine::reflect_dcg::dcg_reflect_now;
use adapton::macros::*;
use adapton::reflect::{self, Val, Const, ArtContent, Loc, Node};
use std::collections::{HashMap, HashSet};
use std::fmt::{self, Debug, Formatter};
use std::rc::Rc;

/// Data whose Debug text is that of derived Debug for structs and enums of any shape.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum D { Nat(usize), Num(isize), Str(String), Nm(Name), List(Vec<D>), Tup(Vec<D>), Con(&'static str, Vec<D>), Rec(&'static str, Vec<(&'static str, D)>), Art(Art<D>) }
impl Debug for D {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self {
            D::Nat(n) => n.fmt(f), D::Num(n) => n.fmt(f), D::Str(s) => s.fmt(f), D::Nm(n) => n.fmt(f), D::Art(a) => a.fmt(f),
            D::List(v) => v.fmt(f),
            D::Tup(v) => if v.is_empty() { ().fmt(f) } else { let mut t = f.debug_tuple(""); for x in v { t.field(x); } t.finish() },
            D::Con(c, v) => { let mut t = f.debug_tuple(c); for x in v { t.field(x); } t.finish() }
            D::Rec(c, v) => { let mut t = f.debug_struct(c); for (k, x) in v { t.field(k, x); } t.finish() }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Sp { Nat(usize), Num(isize), Str(&'static str), Nm(usize), List(Vec<Sp>), Tup(Vec<Sp>), Con(&'static str, Vec<Sp>), Rec(&'static str, Vec<(&'static str, Sp)>), Cell(Vec<usize>, usize, Box<Sp>), Thunk(Vec<usize>, usize, Box<Sp>), Structural(Box<Sp>), Put(Box<Sp>) }

const STRS: &[&str] = &["", "a", "a b", "\"", "\\", "a\"b\"c", "\\\"", "\n\t\r\0", "\u{e9}\u{2603}", "\u{7f}\u{301}\u{1f600}", ",", ":(){}[]", "'", "String(\"x\")", "0", "n", "\\n", "u{41}"];
fn nm(i: usize) -> Name {
    match i {
        0 => name_of_str("a"), 1 => name_of_usize(0), 2 => name_of_usize(usize::max_value()), 3 => name_of_isize(5), 4 => name_of_isize(-5), 5 => name_unit(),
        6 => name_pair(nm(0), nm(4)), 7 => name_fork(nm(0)).0, 8 => name_fork(nm(0)).1, 9 => name_fork(name_pair(name_fork(nm(1)).1, nm(5))).0,
        10 => name_of_hash64(12), 11 => name_pair(name_of_hash64(12), name_of_hash64(0)), 12 => name_of_isize(isize::min_value()), 13 => name_of_str("Unit"),
        i => name_of_str(STRS[i - 14]),
    }
}
const NAMES: usize = 14;
fn names() -> usize { NAMES + STRS.len() }

struct Built { arts: Vec<(Loc, Val, Option<Art<D>>)>, used: HashSet<Loc>, structural: HashMap<D, Loc> }
fn locs() -> HashSet<Loc> { dcg_reflect_now().map_or(HashSet::new(), |g| g.table.keys().cloned().collect()) }
fn within<X: 'static>(p: &[Name], f: &dyn Fn() -> X) -> X { match p.split_first() { None => f(), Some((n, r)) => ns(n.clone(), || within(r, f)) } }
fn body(d: D, (): ()) -> D { d }
fn th(c: NameChoice, d: D) -> Art<D> { thunk(c, prog_pt!("body"), Rc::new(Box::new(|d, s| body(d, s))), d, ()) }

impl Sp {
    /// the data, with its articulations allocated, and the value it should reflect as
    fn build(&self, b: &mut Built) -> (D, Val) {
        let many = |v: &Vec<Sp>, b: &mut Built| -> (Vec<D>, Vec<Val>) { v.iter().map(|x| x.build(b)).unzip() };
        let s = |n: &str| name_of_string(n.to_string());
        match self {
            Sp::Nat(n) => (D::Nat(*n), Val::Const(Const::Nat(*n))),
            // a number without a sign is a natural number
            Sp::Num(n) => (D::Num(*n), Val::Const(if *n < 0 { Const::Num(*n) } else { Const::Nat(*n as usize) })),
            Sp::Str(x) => (D::Str(x.to_string()), Val::Const(Const::String(x.to_string()))),
            Sp::Nm(i) => (D::Nm(nm(*i)), Val::Name(nm(*i))),
            Sp::List(v) => { let (d, w) = many(v, b); (D::List(d), Val::Vec(w)) }
            Sp::Tup(v) => { let (d, w) = many(v, b); (D::Tup(d), Val::Tuple(w)) }
            Sp::Con(c, v) => { let (d, w) = many(v, b); (D::Con(c, d), Val::Constr(s(c), w)) }
            Sp::Rec(c, v) => { let (d, w): (Vec<_>, Vec<_>) = v.iter().map(|(k, x)| { let (d, w) = x.build(b); ((*k, d), (s(k), w)) }).unzip(); (D::Rec(c, d), Val::Struct(s(c), w)) }
            Sp::Cell(p, n, x) | Sp::Thunk(p, n, x) => {
                let (d, w) = x.build(b);
                let mut path: Vec<Name> = p.iter().map(|i| nm(*i)).collect();
                while !b.used.insert(Loc { path: path.clone(), name: nm(*n) }) { path.push(name_of_str("again")) }
                let is_cell = match self { Sp::Cell(..) => true, _ => false };
                let a = within(&path, &|| if is_cell { cell(nm(*n), d.clone()) } else { th(NameChoice::Nominal(nm(*n)), d.clone()) });
                let l = Loc { path, name: nm(*n) };
                b.arts.push((l.clone(), w, if is_cell { None } else { Some(a.clone()) }));
                (D::Art(a), Val::Art(l, ArtContent::Unknown))
            }
            Sp::Structural(x) => {
                let (d, w) = x.build(b);
                let before = locs();
                let a = th(NameChoice::Structural, d.clone());
                let new: Vec<Loc> = locs().into_iter().filter(|l| !before.contains(l)).collect();
                let l = if new.is_empty() { b.structural.get(&d).expect("a structural thunk made no node").clone() } else { new[0].clone() };
                b.structural.insert(d, l.clone());
                b.arts.push((l.clone(), w, Some(a.clone())));
                (D::Art(a), Val::Art(l, ArtContent::Unknown))
            }
            Sp::Put(x) => { let (d, w) = x.build(b); (D::Art(put(d)), Val::Struct(s("Art"), vec![(s("art"), w)])) }
        }
    }
}

fn run(sp: &Sp, cx: &mut Ctx) -> R {
    manage::init_dcg();
    let mut b = Built { arts: vec![], used: HashSet::new(), structural: HashMap::new() };
    let (d, want) = sp.build(&mut b);
    let got = reflect::reflect_val(&d);
    check!(got == want, "{:?} reflects as {:?}, expected {:?}", d, got, want);
    let top = ns(name_of_str("top"), || cell(name_of_str("top"), d.clone()));
    let main = { let t = top.clone(); ns(name_of_str("top"), || thunk(NameChoice::Nominal(name_of_str("main")), prog_pt!("main"), Rc::new(Box::new(move |(), ()| force(&t))), (), ())) };
    let at = |s: &'static str| Loc { path: vec![name_of_str("top")], name: name_of_str(s) };
    let content = |l: &Loc| -> Result<Option<Val>, String> {
        let g = dcg_reflect_now().ok_or("no graph")?;
        match g.table.get(l) { None => Err(format!("there is no node at {:?}", l)), Some(Node::Comp(c)) => Ok(c.value.clone()), Some(Node::Ref(r)) => Ok(Some(r.value.clone())), Some(Node::Pure(p)) => Ok(Some(p.value.clone())) }
    };
    check!(content(&at("top"))? == Some(want.clone()), "a cell that holds {:?} is reflected with {:?}", d, content(&at("top")));
    check!(content(&at("main"))? == None, "a thunk not yet demanded is reflected with {:?}", content(&at("main")));
    check!(force(&main) == d, "the demand gives {:?}, expected {:?}", force(&main), d);
    check!(content(&at("main"))? == Some(want.clone()), "a thunk with value {:?} is reflected with {:?}", d, content(&at("main")));
    let g = dcg_reflect_now().unwrap();
    if let Some(Node::Comp(c)) = g.table.get(&at("main")) {
        check!(c.succs.len() == 1 && c.succs[0].loc == at("top"), "the demand of a cell that holds {:?} is reflected as {:?}", d, c.succs);
    } else { return Err("the thunk is not reflected as a computation".into()) }
    // the articulations in the value lead to their nodes
    for (l, w, t) in &b.arts {
        if let Some(t) = t {
            let c = content(l)?;
            check!(c == None || c == Some(w.clone()), "the thunk at {:?} is reflected with {:?}, expected {:?} or none", l, c, w);
            force(t);
        }
        check!(content(l)? == Some(w.clone()), "the articulation at {:?} is reflected with {:?}, expected {:?}", l, content(l), w);
    }
    cx.transitions += 3 + 2 * b.arts.len() as u64; cx.states += 1; cx.outcome(&want);
    Ok(())
}

/// every way to put values into one constructor of each shape
fn shapes(xs: &[Sp], wide: bool) -> Vec<Sp> {
    let mut o = vec![];
    let mut go = |v: Vec<Sp>| {
        o.push(Sp::List(v.clone())); o.push(Sp::Tup(v.clone())); o.push(Sp::Con("Cons", v.clone()));
        if !v.is_empty() {
            // (a struct without fields prints as a constructor)
            o.push(Sp::Rec("Node", v.iter().cloned().enumerate().map(|(i, x)| (["left", "art", "path"][i], x)).collect()));
            o.push(Sp::Con("Art", v.clone()));
            o.push(Sp::Rec("Art", v.iter().cloned().enumerate().map(|(i, x)| (["arts", "art", "path"][i], x)).collect()));
        }
        if v.len() == 2 { o.push(Sp::Rec("Loc", vec![("path", v[0].clone()), ("id", v[1].clone())])) }
        if v.len() == 1 {
            o.push(Sp::Con("Strings", v.clone())); o.push(Sp::Con("_F0", v.clone())); o.push(Sp::Con("Name", v.clone()));
            for p in &[vec![], vec![0], vec![4, 1]] { let x = Box::new(v[0].clone()); o.push(Sp::Cell(p.clone(), 0, x.clone())); o.push(Sp::Thunk(p.clone(), 1, x)) }
            o.push(Sp::Structural(Box::new(v[0].clone())));
            // (a struct of the user that prints just like a location is taken for one, inside of an articulation)
            match v[0] { Sp::Rec("Loc", _) => (), _ => o.push(Sp::Put(Box::new(v[0].clone()))) }
        }
    };
    go(vec![]);
    for x in xs { go(vec![x.clone()]); for y in xs { go(vec![x.clone(), y.clone()]); if wide { for z in xs { go(vec![x.clone(), y.clone(), z.clone()]) } } } }
    o
}
fn leaves() -> Vec<Sp> {
    let mut o: Vec<Sp> = vec![Sp::Nat(0), Sp::Nat(17), Sp::Nat(usize::max_value()), Sp::Num(-1), Sp::Num(isize::min_value()), Sp::Num(isize::max_value()), Sp::Con("Nil", vec![]), Sp::Con("true", vec![]), Sp::Con("_", vec![]), Sp::Con("Art", vec![]), Sp::Tup(vec![]), Sp::List(vec![])];
    o.extend(STRS.iter().map(|s| Sp::Str(s)));
    o.extend((0..names()).map(Sp::Nm));
    o
}
fn small() -> Vec<Sp> { vec![Sp::Nat(3), Sp::Num(-1), Sp::Str("a\"b"), Sp::Nm(6), Sp::Con("Nil", vec![])] }
fn family(name: &str, bounds: String, items: Vec<Sp>) -> FnFamily<Sp> {
    FnFamily { name: name.into(), bounds: format!("{} ({} values): reflected alone, as content of a cell, as value of a thunk; every articulation in them leads to its node", bounds, items.len()), items, show: |s| format!("{:?}", s), run }
}
/// all leaves, and all constructors of at most two leaves
pub fn flat() -> FnFamily<Sp> {
    let l = leaves(); let mut v = l.clone(); v.extend(shapes(&l, false));
    family("one-constructor", format!("all {} atoms (numbers, strings, names, nullary constructors), and all constructors, lists, tuples, structs, cells, thunks with at most two of them", l.len()), v)
}
/// every character class of identifiers, in every position
pub fn identifiers() -> FnFamily<Sp> {
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain("_".chars()).collect();
    let rest: Vec<char> = first.iter().cloned().chain('0'..='9').collect();
    let mut ids: Vec<&'static str> = vec![];
    let mut add = |s: String| { let s: &'static str = Box::leak(s.into_boxed_str()); ids.push(s) };
    for a in &first { add(format!("{}", a)); for b in &rest { add(format!("{}{}", a, b)) } }
    for b in &rest { add(format!("X1{}_9", b)); add(format!("_{}0", b)) }
    let mut v = vec![];
    for i in ids {
        v.push(Sp::Con(i, vec![])); v.push(Sp::Con(i, vec![Sp::Nat(1), Sp::Con(i, vec![])]));
        v.push(Sp::Rec(i, vec![("f", Sp::Nat(1))])); v.push(Sp::Rec("S", vec![(i, Sp::Nat(1)), ("g", Sp::Con(i, vec![]))]));
        v.push(Sp::List(vec![Sp::Con(i, vec![]), Sp::Num(-2)]));
    }
    family("identifiers", "constructor, struct and field names: all of one and two characters, and every character inside of longer ones".into(), v)
}
/// constructors of three leaves
pub fn triples() -> FnFamily<Sp> {
    let l: Vec<Sp> = leaves().into_iter().step_by(2).collect();
    family("three-parts", format!("all shapes with at most three parts among {} atoms", l.len()), shapes(&l, true))
}
/// constructors of constructors
pub fn nested(atoms: usize) -> FnFamily<Sp> {
    let one = shapes(&small()[..atoms], false);
    family(&format!("nested-{}", atoms), format!("all shapes with at most two parts, which are shapes with at most two parts over {} atoms", atoms), shapes(&one, false))
}
/// chains of shapes with one part
pub fn deep(n: usize) -> FnFamily<Sp> {
    let mut v = small();
    for _ in 0..n { v = shapes_of_one(&v) }
    family(&format!("chains-{}", n), format!("all chains of {} shapes with one part each around 5 atoms", n), v)
}
fn shapes_of_one(xs: &[Sp]) -> Vec<Sp> {
    let mut o = vec![];
    for x in xs {
        let v = vec![x.clone()]; let b = Box::new(x.clone());
        o.push(Sp::List(v.clone())); o.push(Sp::Tup(v.clone())); o.push(Sp::Con("Some", v.clone())); o.push(Sp::Rec("Art", vec![("arts", x.clone())])); o.push(Sp::Rec("S", vec![("f", x.clone())]));
        o.push(Sp::Cell(vec![0], 4, b.clone())); o.push(Sp::Thunk(vec![], 7, b.clone())); o.push(Sp::Structural(b.clone())); o.push(Sp::Put(b));
    }
    o
}
/// values of every size
pub fn long(max: usize) -> FnFamily<Sp> {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let mut v = vec![];
    let mut p: usize = 1;
    loop {
        for d in vec![p - 1, p, p + 1, p.wrapping_mul(7)] { v.push(Sp::Nat(d)); v.push(Sp::Num((d as isize).wrapping_neg())); v.push(Sp::List(vec![Sp::Nat(d), Sp::Num((d as isize).wrapping_neg())])) }
        match p.checked_mul(10) { Some(q) => p = q, None => break }
    }
    let at = small();
    let pick = |i: usize| -> Sp { at[i % at.len()].clone() };
    for n in crate::scale::sizes(max) {
        let es: Vec<Sp> = (0..n).map(pick).collect();
        v.push(Sp::List(es.clone())); v.push(Sp::Tup(es.clone())); v.push(Sp::Con("Cons", es.clone()));
        v.push(Sp::Rec("Node", es.iter().enumerate().map(|(i, x)| (leak(format!("f{}", i)), x.clone())).collect()));
        v.push(Sp::List((0..n).map(|i| Sp::Cell(vec![], 14 + i % 4, Box::new(pick(i)))).collect()));
        v.push(Sp::Tup((0..n).map(|i| Sp::Put(Box::new(pick(i)))).collect()));
        // the last, the first, or one in the middle is nested
        for i in vec![0, n / 2, n - 1] { let mut es = es.clone(); es[i] = Sp::Rec("Node", vec![("left", Sp::List(es.clone())), ("right", Sp::Tup(vec![]))]); v.push(Sp::Con("Cons", es)) }
        for f in 0..7 {
            let mut x = pick(n);
            for _ in 0..n { let b = Box::new(x.clone()); x = match f { 0 => Sp::List(vec![x]), 1 => Sp::Tup(vec![x]), 2 => Sp::Con("Some", vec![x]), 3 => Sp::Rec("S", vec![("f", x)]), 4 => Sp::Cell(vec![0], 4, b), 5 => Sp::Put(b), _ => Sp::Con("Cons", vec![pick(n), x]) } }
            v.push(x);
        }
        let id = leak((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect());
        v.push(Sp::Con(id, vec![])); v.push(Sp::Rec(id, vec![(id, Sp::Con(id, vec![Sp::Nat(n)]))]));
        for c in vec!['x', '"', '\\', '\n', '\u{7f}', '\u{2603}'] { for at in vec![0, n / 2, n - 1] {
            let s = leak((0..n).map(|i| if i == at { c } else { 'b' }).collect());
            v.push(Sp::Str(s)); v.push(Sp::List(vec![Sp::Str(s), Sp::Str(s)]));
            let s = leak((0..n).map(|i| if i == at { 'b' } else { c }).collect());
            v.push(Sp::Con("Some", vec![Sp::Str(s)]));
        } }
    }
    family(&format!("sizes-{}", max), format!("numbers of every number of digits; lists, tuples, constructors, structs, identifiers, strings and nestings of every size up to 20, and of sizes around the multiples of 16 up to {}", max), v)
}
