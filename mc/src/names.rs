//! The algebra of names, and locations made of names.

use crate::core::*;
use adapton::engine::*;
use adapton::engine::manage::*;
use adapton::macros::ProgPt;
use std::collections::HashSet;
use std::rc::Rc;
use std::hash::Hash;

/// How a name is built. Two names are equal exactly when they are built alike.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N { Unit, Us(usize), Is(isize), S(&'static str), P(Box<N>, Box<N>), L(Box<N>), R(Box<N>) }

impl N {
    pub fn mk(&self) -> Name {
        match self {
            N::Unit => name_unit(), N::Us(u) => name_of_usize(*u), N::Is(i) => name_of_isize(*i),
            N::S(s) => name_of_str(s),
            N::P(a, b) => name_pair(a.mk(), b.mk()), N::L(a) => name_fork(a.mk()).0, N::R(a) => name_fork(a.mk()).1,
        }
    }
    /// built another way that must give the same name
    fn mk2(&self) -> Name {
        match self {
            N::S(s) => name_of_string(s.to_string()),
            N::P(a, b) => { let b = b.mk2(); let a = a.mk2(); name_pair(a, b) }
            N::L(a) => { let x = a.mk2(); let f = name_fork(x.clone()); name_fork(x); f.0.clone() }
            N::R(a) => { let (_, r) = name_fork(a.mk2()); r }
            _ => self.mk(),
        }
    }
}
fn atoms(rich: bool) -> Vec<N> {
    let mut v = vec![N::Unit, N::Us(0), N::Us(1), N::Us(3), N::Is(0), N::Is(1), N::Is(-1), N::S(""), N::S("a"), N::S("1"), N::S("a-l")];
    if rich { v.extend(vec![N::Us(usize::max_value()), N::Us(11111111), N::Us(22222222), N::Is(isize::min_value()), N::S("ab"), N::S("b"), N::S("Hash64")]) }
    v
}
fn up(v: &[N]) -> Vec<N> {
    let mut o = vec![];
    for a in v { o.push(N::L(Box::new(a.clone()))); o.push(N::R(Box::new(a.clone()))); for b in v { o.push(N::P(Box::new(a.clone()), Box::new(b.clone()))) } }
    o
}
pub fn depth(d: usize, rich: bool) -> Vec<N> {
    let mut v = atoms(rich);
    for _ in 0..d { let u = up(&v); v.extend(u); let mut s = HashSet::new(); v.retain(|x| s.insert(x.clone())); }
    v
}

// ------------------------------------------------ equality

pub struct Pairs { pub name: String, pub bounds: String, pub terms: Rc<Vec<N>> }
struct PairsCase { terms: Rc<Vec<N>>, i: usize, names: Rc<Vec<Name>>, hashes: Rc<Vec<u64>> }
thread_local!(static NAMES: std::cell::RefCell<Option<(usize, Rc<Vec<Name>>, Rc<Vec<u64>>)>> = std::cell::RefCell::new(None));
impl Family for Pairs {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn ncases(&self) -> usize { self.terms.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let t = self.terms.clone();
        let (names, hashes) = NAMES.with(|n| {
            let mut n = n.borrow_mut();
            if let Some((l, ref v, ref h)) = *n { if l == t.len() { return (v.clone(), h.clone()) } }
            let v = Rc::new(t.iter().map(|x| x.mk()).collect::<Vec<_>>());
            let h = Rc::new(v.iter().map(|x| h64(x)).collect::<Vec<_>>());
            *n = Some((t.len(), v.clone(), h.clone()));
            (v, h)
        });
        Some(Box::new(PairsCase { terms: t, i, names, hashes }))
    }
}
impl Case for PairsCase {
    fn nhist(&self) -> u64 { 1 }
    fn describe(&self, _h: u64) -> String { format!("{:?} against {} names", self.terms[self.i], self.terms.len()) }
    fn run(&mut self, _h: u64, cx: &mut Ctx) -> R {
        let t = &self.terms[self.i];
        let n = t.mk2();
        for (j, m) in self.names.iter().enumerate() {
            check!((n == *m) == (self.i == j) && (*m == n) == (self.i == j), "the names {:?} and {:?} are {}", t, self.terms[j], if n == *m { "equal" } else { "different" });
        }
        let hn = h64(&n);
        for (j, hm) in self.hashes.iter().enumerate() { check!((hn == *hm) == (self.i == j), "the names {:?} and {:?} have the same hash", t, self.terms[j]); }
        check!(h64(&n) == h64(&self.names[self.i]), "two names built alike as {:?} hash differently", t);
        let s = reflect_dcg::string_of_name(&n);
        check!(s == reflect_dcg::string_of_name(&self.names[self.i]), "two names built alike as {:?} print differently", t);
        // three- and four-way forks
        let f2 = name_fork(n.clone()); let f3 = name_fork3(n.clone()); let f4 = name_fork4(n.clone());
        for (k, f) in vec![vec![f2.0, f2.1], vec![f3.0.clone(), f3.1.clone(), f3.2.clone()], vec![f4.0, f4.1, f4.2, f4.3]].into_iter().enumerate() {
            for (a, x) in f.iter().enumerate() {
                check!(*x != n, "a {}-way fork of {:?} returns the name itself", k + 2, t);
                for (b, y) in f.iter().enumerate() { check!((x == y) == (a == b), "results {} and {} of a {}-way fork of {:?} are {}", a, b, k + 2, t, if x == y { "equal" } else { "different" }) }
            }
        }
        let g3 = name_fork3(self.names[self.i].clone());
        check!((f3.0, f3.1, f3.2) == g3, "forking {:?} in three twice gives different names", t);
        cx.transitions += self.names.len() as u64;
        cx.states += 1;
        cx.outcome(&h64(&n));
        Ok(())
    }
}
pub fn pairs(d: usize, rich: bool) -> Pairs {
    let t = depth(d, rich);
    Pairs { name: format!("names-{}{}", d, if rich { "-rich" } else { "" }), bounds: format!("all pairs of the {} names built from {} atoms (unit, usize, isize, strings) by at most {} levels of pairing and forking: equal exactly when built alike", t.len(), atoms(rich).len(), d), terms: Rc::new(t) }
}

fn forked(n: &N) -> bool { match n { N::L(_) | N::R(_) => true, N::P(a, b) => forked(a) || forked(b), _ => false } }

#[derive(Clone, Debug)]
pub struct Forks(usize, Rc<Vec<N>>);
/// forks of different names are disjoint, and all of a larger set of names are distinct
pub fn forks(d: usize, rich: bool) -> FnFamily<Forks> {
    let t = Rc::new(depth(d, rich));
    FnFamily { name: format!("fork-sets-{}{}", d, if rich { "-rich" } else { "" }), bounds: format!("the {} names of {} levels: all distinct, and their forks, three- and four-way forks (of those not made by forking) and pairs with a fixed name (either side) disjoint", t.len(), d), items: (0..6).map(|k| Forks(k, t.clone())).collect(), show: |f| format!("set {} of {} names", f.0, f.1.len()), run: |f, cx| {
        let mut seen: HashSet<Name> = HashSet::new(); let mut all = 0;
        for t in f.1.iter() {
            // a fork of a fork may be part of a three-way fork
            if (f.0 == 2 || f.0 == 3) && forked(t) { continue }
            let n = t.mk();
            cx.transitions += 1;
            let new = match f.0 {
                0 => vec![n],
                1 => { let f = name_fork(n); vec![f.0, f.1] }
                2 => { let f = name_fork3(n); vec![f.0, f.1, f.2] }
                3 => { let f = name_fork4(n); vec![f.0, f.1, f.2, f.3] }
                4 => vec![name_pair(n, name_unit())],
                _ => vec![name_pair(name_of_str("a"), n)],
            };
            for x in new { all += 1; check!(seen.insert(x.clone()), "a name made from {:?} (set {}) equals one made from another name: {:?}", t, f.0, x) }
        }
        cx.states += all;
        Ok(())
    } }
}

// ------------------------------------------------ locations

/// A location: namespace path and name.
type L = (Vec<N>, N);
#[derive(Clone, Debug)]
pub struct Two(L, L);
fn at<T, F: FnOnce() -> T>(p: &[N], f: F) -> T { if p.is_empty() { f() } else { ns(p[0].mk2(), || at(&p[1..], f)) } }
fn th(l: &L, id: i64, x: Art<i64>) -> Art<i64> {
    at(&l.0, || thunk(NameChoice::Nominal(l.1.mk()), ProgPt { symbol: "two" }, Rc::new(Box::new(move |i: i64, _| i + force(&x))), id, ()))
}
fn run_two(t: &Two, cx: &mut Ctx) -> R {
    init_dcg();
    let same = t.0 == t.1;
    let mk = |l: &L, v: i64| at(&l.0, || cell(l.1.mk(), v));
    let a = mk(&t.0, 1);
    let b = mk(&t.1, 2);
    cx.step();
    check!((a == b) == same, "cells at {:?} and {:?} are {}", t.0, t.1, if a == b { "one" } else { "two" });
    check!((h64(&a) == h64(&b)) || !same, "equal articulations hash differently");
    check!(force(&b) == 2 && force(&a) == if same { 2 } else { 1 }, "after writing 1 at {:?} and 2 at {:?}, they hold {} and {}", t.0, t.1, force(&a), force(&b));
    set(&a, 5);
    check!(force(&a) == 5 && force(&b) == if same { 5 } else { 2 }, "after setting 5 at {:?}, {:?} holds {}", t.0, t.1, force(&b));
    // with thunks
    init_dcg();
    let x = cell(name_of_str("the input"), 10i64);
    let a = th(&t.0, 100, x.clone());
    let va = force(&a);
    let b = th(&t.1, 200, x.clone());
    cx.step();
    check!((a == b) == same, "thunks at {:?} and {:?} are {}", t.0, t.1, if a == b { "one" } else { "two" });
    check!(va == 110 && force(&b) == 210 && force(&a) == if same { 210 } else { 110 }, "thunks at {:?} and {:?} give {} and {}", t.0, t.1, force(&a), force(&b));
    // the editor is back in its own namespace
    check!(reflect_dcg::dcg_reflect_now().unwrap().path.is_empty(), "a namespace was not left");
    Ok(())
}
pub fn two_names(d: usize) -> FnFamily<Two> {
    let t = depth(d, false);
    let mut items = vec![];
    for a in &t { for b in &t { items.push(Two((vec![], a.clone()), (vec![], b.clone()))) } }
    FnFamily { name: format!("two-locations-{}", d), bounds: format!("all ordered pairs of {} names: cells and thunks written under both", t.len()), items, show: |t| format!("{:?}", t), run: run_two }
}
pub fn two_paths(n: usize, len: usize) -> FnFamily<Two> {
    let b = |n: N| Box::new(n);
    let ns: Vec<N> = vec![N::Us(3), N::Is(3), N::Unit, N::S("3"), N::P(b(N::Us(3)), b(N::Unit)), N::L(b(N::Us(3)))].into_iter().take(n).collect();
    let mut paths: Vec<Vec<N>> = vec![vec![]];
    let mut last = paths.clone();
    for _ in 0..len { let mut nx = vec![]; for p in &last { for x in &ns { let mut q = p.clone(); q.push(x.clone()); nx.push(q) } } paths.extend(nx.clone()); last = nx; }
    let mut locs: Vec<L> = vec![];
    for p in &paths { for x in &ns { locs.push((p.clone(), x.clone())) } }
    let mut items = vec![];
    for a in &locs { for b in &locs { items.push(Two(a.clone(), b.clone())) } }
    FnFamily { name: format!("two-paths-{}-{}", n, len), bounds: format!("all ordered pairs of locations: {} names under all namespace paths of at most {} of them", n, len), items, show: |t| format!("{:?}", t), run: run_two }
}

// ------------------------------------------------ structural identity by content

struct It { show: String, ty: &'static str, mk: Box<dyn Fn(u8) -> (u64, Box<dyn Fn() -> R>)> }
fn it<T: Hash + Eq + Clone + std::fmt::Debug + 'static>(v: T) -> It { itf(move || v.clone()) }
/// content that is made anew (in the engine, if it has articulations) each time
fn itf<T: Hash + Eq + Clone + std::fmt::Debug + 'static, F: Fn() -> T + 'static>(mkv: F) -> It {
    let ty = std::any::type_name::<T>();
    let show = format!("{:?}: {}", mkv(), ty);
    let sh2 = show.clone();
    let mk = move |how: u8| -> (u64, Box<dyn Fn() -> R>) {
        let v = mkv();
        let desc = sh2.clone();
        // one generic function, at many types
        let text = move |v: &T| format!("{:?}: {}", v, ty);
        match how {
            0 => { let a = structural(|| cell(name_unit(), v.clone())); (h64(&a), Box::new(move || { let w = force(&a); ensure(w == v, || format!("the structural cell of {} holds {:?}", desc, w)) })) }
            1 | 2 => {
                let f: Rc<Box<dyn Fn(T, ()) -> String>> = Rc::new(Box::new(move |v, ()| text(&v)));
                let a = if how == 1 { thunk(NameChoice::Structural, ProgPt { symbol: "generic" }, f, v, ()) }
                    else { structural(|| thunk(NameChoice::Nominal(name_unit()), ProgPt { symbol: "generic" }, f, v, ())) };
                (h64(&a), Box::new(move || { let w = force(&a); ensure(w == desc, || format!("the structural thunk of {} gives {}", desc, w)) }))
            }
            _ => {
                let f: Rc<Box<dyn Fn(T, ()) -> T>> = Rc::new(Box::new(|v, ()| v));
                let a = thunk(NameChoice::Structural, ProgPt { symbol: "generic" }, f, v.clone(), ());
                (h64(&a), Box::new(move || { let w = force(&a); ensure(w == v, || format!("the structural thunk of {} gives {:?}", desc, w)) }))
            }
        }
    };
    It { show, ty, mk: Box::new(mk) }
}
fn its() -> Vec<It> {
    use adapton::catalog::collections::*;
    let mut v = vec![];
    for i in 0..3i64 { v.push(it(i)); v.push(it(i as u64)); v.push(it(i as i32)); v.push(it(i as usize)); v.push(it(i as isize)); v.push(it(i as u8)); v.push(it(Some(i))); v.push(it(Some(Some(i)))); v.push(it((i, 1i64))); v.push(it((1i64, i))); v.push(it((i,))); v.push(it(vec![i])); v.push(it(vec![vec![i]])); v.push(it(vec![i, 1])); v.push(it(Rc::new(i))); v.push(it(i.to_string())); v.push(it(Ok::<i64, i64>(i))); v.push(it(Err::<i64, i64>(i))); }
    v.push(it(false)); v.push(it(true)); v.push(it(())); v.push(it(None::<i64>)); v.push(it(Vec::<i64>::new())); v.push(it(String::new()));
    v.push(it(("ab".to_string(), "c".to_string()))); v.push(it(("a".to_string(), "bc".to_string())));
    v.push(it((vec![1i64], Vec::<i64>::new()))); v.push(it((Vec::<i64>::new(), vec![1i64])));
    for n in depth(1, false).into_iter().filter(|n| match n { N::P(a, _) => **a == N::Us(0) || **a == N::Is(0) || **a == N::Unit, _ => true }) { v.push(it(n.mk())) }
    for l in vec![vec![], vec![0i64], vec![1], vec![0, 1], vec![1, 0]] {
        let plain = l.iter().rev().fold(List::<i64>::nil(), |t, h| List::cons(*h, t));
        let named = l.iter().rev().fold(List::<i64>::nil(), |t, h| List::name(name_of_usize(*h as usize), List::cons(*h, t)));
        v.push(it(plain)); if l.len() > 0 { v.push(it(named)) }
    }
    v
}
#[derive(Clone)]
pub struct Content { i: usize, how: u8, its: Rc<Vec<It>> }
pub fn contents() -> FnFamily<Content> { contents_of("contents", "contents of many types (numbers of several types, options, tuples, vectors, strings, names, lists)", its()) }
/// Data of the library: lists, trees, tries, articulations of every kind.
fn library(arts_only: bool) -> Vec<It> {
    use adapton::catalog::collections::*;
    use adapton::catalog::collections::trie::*;
    use adapton::catalog::bitstring::*;
    init_dcg();
    let mut v = vec![];
    // articulations
    fn arts() -> Vec<Rc<dyn Fn() -> Art<i64>>> {
        let up: Rc<dyn Fn(i64) -> i64> = { let k = 1; Rc::new(move |x| x + k) };
        let dn: Rc<dyn Fn(i64) -> i64> = { let k = 1; Rc::new(move |x| x - k) };
        fn tk(id: NameChoice, p: &'static str, f: fn(i64) -> i64, x: i64) -> Art<i64> { thunk(id, ProgPt { symbol: p }, Rc::new(Box::new(move |x, ()| f(x))), x, ()) }
        let mut v: Vec<Rc<dyn Fn() -> Art<i64>>> = vec![];
        for x in 0..2i64 {
            v.push(Rc::new(move || put(x)));
            v.push(Rc::new(move || tk(NameChoice::Eager, "inc", |x| x + 1, x + 5)));
            for p in vec!["inc", "dec"] { let f: fn(i64) -> i64 = if p == "inc" { |x| x + 1 } else { |x| x - 1 };
                v.push(Rc::new(move || tk(NameChoice::Naive, p, f, x)));
                v.push(Rc::new(move || tk(NameChoice::Structural, p, f, x))); }
            v.push(Rc::new(move || cell(name_of_usize(x as usize), 7)));
            v.push(Rc::new(move || ns(name_of_usize(x as usize), || cell(name_of_usize(0), 7))));
            v.push(Rc::new(move || structural(|| cell(name_unit(), x))));
            v.push(Rc::new(move || tk(NameChoice::Nominal(name_of_usize(x as usize + 10)), "inc", |x| x + 1, x)));
            for f in vec![up.clone(), dn.clone()] { v.push(Rc::new(move || thunk_map(cell(name_of_usize(x as usize), 7), f.clone()))); }
            let f = up.clone(); v.push(Rc::new(move || thunk_map(put(x), f.clone())));
        }
        v
    }
    let all = arts();
    for a in &all { let (a1, a2, a3) = (a.clone(), a.clone(), a.clone()); v.push(itf(move || a1())); v.push(itf(move || Some(a2()))); v.push(itf(move || (a3(), put(1i64)))); }
    if arts_only { return v }
    // lists and trees
    let n1 = || name_of_usize(1); let n2 = || name_of_usize(2);
    let mut ts: Vec<Tree<i64>> = vec![Tree::Nil, Tree::Leaf(1), Tree::Leaf(2)];
    let base = ts.clone();
    for l in &base { for r in &base { for k in 1..3 { ts.push(Tree::Bin(k, Box::new(l.clone()), Box::new(r.clone()))); } ts.push(Tree::Name(n1(), 1, Box::new(l.clone()), Box::new(r.clone()))); } }
    ts.push(Tree::Name(n2(), 1, Box::new(Tree::Nil), Box::new(Tree::Nil))); ts.push(Tree::Name(n1(), 2, Box::new(Tree::Nil), Box::new(Tree::Nil)));
    for t in &base { for k in 0..3 { let t = t.clone(); v.push(itf(move || Tree::Art(match k { 0 => put(t.clone()), 1 => cell(name_of_usize(20), t.clone()), _ => structural(|| cell(name_unit(), t.clone())) }))) } }
    for t in ts { v.push(it(t)) }
    let mut ls: Vec<List<i64>> = vec![List::Nil];
    for _ in 0..2 { let mut nx = vec![]; for l in &ls { let b = || Box::new(l.clone());
        nx.push(List::Cons(1, b())); nx.push(List::Cons(2, b())); nx.push(List::Name(n1(), b())); nx.push(List::Name(n2(), b()));
        for d in vec![Dir2::Left, Dir2::Right] { nx.push(List::Tree(Box::new(Tree::Leaf(1)), d, b())) }
        nx.push(List::Tree(Box::new(Tree::Nil), Dir2::Left, b())); } nx.insert(0, List::Nil); ls = nx; }
    for l in ls.iter().take(8) { for k in 0..3 { let l = l.clone(); v.push(itf(move || List::Art(match k { 0 => put(l.clone()), 1 => cell(name_of_usize(21), l.clone()), _ => structural(|| cell(name_unit(), l.clone())) }))) } }
    for l in ls { v.push(it(l)) }
    for d in vec![Dir2::Left, Dir2::Right] { v.push(it(d)); }
    for e in vec![NameElse::Name(n1()), NameElse::Name(n2()), NameElse::Else(1i64), NameElse::Else(2)] { v.push(it(e)) }
    // bit strings and tries
    for length in 0..3 { for value in 0..3 { v.push(it(BS { length, value })) } }
    for m in 0..3 { v.push(it(Meta { min_depth: m })) }
    let bs = |length, value| BS { length, value };
    let mut ts: Vec<Trie<i64>> = vec![];
    for (l, x) in vec![(0, 0), (1, 0), (1, 1)] { ts.push(Trie::Nil(bs(l, x))); ts.push(Trie::Leaf(bs(l, x), 1)); ts.push(Trie::Leaf(bs(l, x), 2)); }
    for l in 0..3 { for r in 0..3 { ts.push(Trie::Bin(bs(0, 0), Box::new(ts[3 + l].clone()), Box::new(ts[6 + r].clone()))) } }
    for t in ts.clone().into_iter().step_by(3) { for m in 0..2 { ts.push(Trie::Root(Meta { min_depth: m }, Box::new(t.clone()))) } ts.push(Trie::Name(n1(), Box::new(t.clone()))); ts.push(Trie::Name(n2(), Box::new(t.clone()))); ts.push(Trie::Name(n1(), Box::new(Trie::Name(n2(), Box::new(t.clone()))))); }
    for t in ts.iter().take(6) { for k in 0..3 { let t = t.clone(); v.push(itf(move || Trie::Art(match k { 0 => put(t.clone()), 1 => cell(name_of_usize(22), t.clone()), _ => structural(|| cell(name_unit(), t.clone())) }))) } }
    for t in ts { v.push(it(t)) }
    v
}
pub fn articulation_contents() -> FnFamily<Content> { contents_of("articulation-contents", "articulations of every kind, alone, as options and in pairs,", library(true)) }
pub fn library_contents() -> FnFamily<Content> { contents_of("library-contents", "data of the library (articulations of every kind, lists, trees, directions, entries, bit strings, tries)", library(false)) }
fn contents_of(name: &str, what: &str, v: Vec<It>) -> FnFamily<Content> {
    let v = Rc::new(v);
    let mut items = vec![];
    for i in 0..v.len() { for how in 0..4 { items.push(Content { i, how, its: v.clone() }) } }
    let what = what.to_string();
    FnFamily { name: name.into(), bounds: format!("all ordered pairs of {} {}, as structural cells, as arguments of one generic function in structural thunks, within a structural region or not, and as arguments and results: one articulation exactly when type and content agree", v.len(), what), items,
        show: |c| format!("{} (form {})", c.its[c.i].show, c.how), run: |c, cx| {
            for j in 0..c.its.len() {
                init_dcg();
                let (a, b) = (&c.its[c.i], &c.its[j]);
                let (h1, c1) = (a.mk)(c.how);
                let (h2, c2) = (b.mk)(c.how);
                let same = a.show == b.show && a.ty == b.ty;
                check!((h1 == h2) == same, "{} and {} have {} articulation", a.show, b.show, if same { "not one" } else { "the same" });
                let r = guarded(|| { c1()?; c2()?; c1() });
                match r { Ok(r) => r?, Err(p) => return Err(format!("with {} and {}: panic: {}", a.show, b.show, p)) }
                cx.step(); cx.step();
            }
            cx.states += c.its.len() as u64;
            Ok(())
        } }
}

/// names of every size: forks of forks, pairs of pairs on either side, long texts, long numbers
pub fn long(max: usize) -> Pairs {
    let mut v = vec![];
    let b = |n: N| Box::new(n);
    let text = |c: char, n: usize, at: usize| -> &'static str { Box::leak((0..n).map(|i| if i == at { c } else { 'a' }).collect::<String>().into_boxed_str()) };
    for k in 0..64 { v.push(N::Us(1 << k)); v.push(N::Us((1 << k) + 1)); v.push(N::Is(1isize.wrapping_shl(k).wrapping_neg())); }
    for n in crate::scale::sizes(max) {
        for a in vec![N::Us(3), N::S("3")] { for f in 0..6 {
            let mut x = a.clone();
            for i in 0..n { x = match f { 0 => N::L(b(x)), 1 => N::R(b(x)), 2 => N::P(b(x), b(N::Unit)), 3 => N::P(b(N::Us(7)), b(x)), 4 => if i % 2 == 0 { N::L(b(x)) } else { N::R(b(x)) }, _ => if i + 1 == n { N::R(b(x)) } else { N::L(b(x)) } } }
            v.push(x);
        } }
        for at in vec![0, n / 2, n - 1, n] { v.push(N::S(text('b', n, at))) }
    }
    let mut seen = HashSet::new(); v.retain(|x| seen.insert(x.clone()));
    Pairs { name: format!("long-names-{}", max), bounds: format!("all pairs of {} names: chains of forks, of pairs on the left and on the right, texts, of every length up to 20 and lengths around the multiples of 16 up to {}, numbers of every number of bits: equality, ordering, hashes, as for short ones", v.len(), max), terms: Rc::new(v) }
}
