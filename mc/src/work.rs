//! How much work collections do: lazily what the demand asks for, after an
//! edit what the change asks for (C25). Work is counted by the functions given
//! by the user (mapped functions, predicates, operations) and by the
//! comparisons of elements.

use crate::core::*;
use crate::coll::{alpha, words, nsp, Alpha, Ent};
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;

thread_local!(static CMPS: Cell<u64> = Cell::new(0));
thread_local!(static RUNS: Cell<u64> = Cell::new(0));
fn tick() { RUNS.with(|r| r.set(r.get() + 1)) }
fn took<X, F: FnOnce() -> X>(f: F) -> (X, u64, u64) {
    let (c, r) = (CMPS.with(|c| c.get()), RUNS.with(|c| c.get()));
    let x = f();
    (x, CMPS.with(|x| x.get()) - c, RUNS.with(|x| x.get()) - r)
}

/// an element that counts how often it is compared for order
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct K(pub usize);
impl Ord for K { fn cmp(&self, o: &K) -> Ordering { CMPS.with(|c| c.set(c.get() + 1)); self.0.cmp(&o.0) } }
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<Ordering> { Some(self.cmp(o)) } }

type L = List<K>;
type T = Tree<K>;
type V = Vec<NameElse<K>>;

fn entries(a: &Alpha, s: &[Ent]) -> V {
    s.iter().map(|e| match e { Ent::E(i) => NameElse::Else(K(a.vals[*i])), Ent::N(i) => NameElse::Name(name_of_usize(a.names[*i])) }).collect()
}
fn elems(v: &V) -> Vec<usize> { v.iter().filter_map(|x| match x { NameElse::Else(e) => Some(e.0), _ => None }).collect() }
fn strip(t: &T) -> T {
    match t {
        Tree::Nil => Tree::Nil, Tree::Leaf(x) => Tree::Leaf(*x),
        Tree::Bin(v, l, r) => Tree::Bin(*v, Box::new(strip(l)), Box::new(strip(r))),
        Tree::Name(n, v, l, r) => Tree::Name(n.clone(), *v, Box::new(strip(l)), Box::new(strip(r))),
        Tree::Art(a) => strip(&force(a)),
    }
}

// ------------------------------------------------------------ lazy lists

#[derive(Clone)]
pub struct Item { a: Rc<Alpha>, s: Vec<Ent> }
fn show(i: &Item) -> String { format!("{} {:?}", i.a.tag, i.s) }

pub fn lazy_lists(len: usize, k: u64) -> FnFamily<Item> {
    let a = Rc::new(alpha("up"));
    let w: Vec<Item> = words(len, k).into_iter().filter(|s| s.iter().all(|e| match e { Ent::N(i) => *i < 6, _ => true })).map(|s| Item { a: a.clone(), s }).collect();
    FnFamily { name: format!("lazy-lists-{}", len), bounds: format!("all {} sequences of at most {} entries (elements of {} values, names); lazy map, and lazy filter by every subset of the values; demanded up to every limit, in increasing order and at once: function runs are at most the elements up to the end of the segment of the last entry demanded, none for what was demanded before", w.len(), len, k), items: w, show, run: |it, cx| {
        let v = entries(&it.a, &it.s);
        // elements up to the next name after entry i
        let reach = |n: usize, keep: &dyn Fn(usize) -> bool| -> u64 {
            let (mut seen, mut runs) = (0, 0);
            for x in &v { match x {
                NameElse::Name(_) => if seen >= n { return runs },
                NameElse::Else(e) => { runs += 1; if keep(e.0) { seen += 1 } }
            } }
            runs
        };
        for fun in 0..1 + (1usize << it.a.vals.len()) {
            let keep: Vec<usize> = if fun == 0 { it.a.vals.clone() } else { (0..it.a.vals.len()).filter(|i| (fun - 1) >> i & 1 == 1).map(|i| it.a.vals[i]).collect() };
            let n = v.iter().filter(|x| match x { NameElse::Else(e) => keep.contains(&e.0), _ => false }).count();
            let make = || -> L {
                let l: L = list_of_vec(&v);
                if fun == 0 { nsp("p", || list_map_lazy(l, Rc::new(|x: K| { tick(); K(x.0 + 1) }))) }
                else { let k = keep.clone(); nsp("p", || list_filter_lazy(l, Rc::new(move |x: &K| { tick(); k.contains(&x.0) }))) }
            };
            let what = if fun == 0 { "list_map_lazy".to_string() } else { format!("list_filter_lazy by {:?}", keep) };
            let of = |x: usize| keep.contains(&x);
            for start in 0..n + 2 {
                manage::init_dcg();
                let (l, _, mut total) = took(make);
                check!(total <= reach(0, &of), "{}: {} function runs before any demand, where {} elements are in front of the first name", what, total, reach(0, &of));
                for k in start..n + 2 {
                    let (o, _, r) = took(|| vec_of_list(l.clone(), Some(k)));
                    check!(o.len() == k.min(n), "{}: {} entries for a limit of {}", what, o.len(), k);
                    total += r;
                    check!(total <= reach(k, &of), "{}: {} function runs for the first {} entries, where {} elements are up to the end of their segments", what, total, k, reach(k, &of));
                    let (_, _, r) = took(|| vec_of_list(l.clone(), Some(k)));
                    check!(r == 0, "{}: {} function runs when the first {} entries are demanded again", what, r, k);
                    cx.transitions += 2;
                }
                cx.states += 1;
            }
        }
        cx.outcome(&v.len());
        Ok(())
    } }
}

// ------------------------------------------------------------ sorts

/// sum, over the inner nodes, of the comparisons that merging takes at most; height; inner nodes; unnamed inner nodes (with elements on both sides)
fn merging(t: &T) -> (usize, u64, u64, u64, u64) {
    match t {
        Tree::Nil => (0, 0, 0, 0, 0), Tree::Leaf(_) => (1, 0, 0, 0, 0),
        Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => {
            let (a, b) = (merging(l), merging(r));
            let here = if a.0 > 0 && b.0 > 0 { (a.0 + b.0 - 1) as u64 } else { 0 };
            let h = if here > 0 { 1 } else { 0 };
            let bin = match t { Tree::Bin(..) => h, _ => 0 };
            (a.0 + b.0, a.1 + b.1 + here, a.2.max(b.2) + h, a.3 + b.3 + h, a.4 + b.4 + bin)
        }
        Tree::Art(a) => merging(&force(a)),
    }
}
fn sort(w: usize, t: T) -> L {
    match w {
        0 => nsp("p", || mergesort_list_of_tree(t)),
        1 => { let t: T = nsp("q", || prune_tree_of_tree(t)); nsp("p", || mergesort_list_of_tree(t)) }
        2 => nsp("p", || mergesort_list_of_tree2(t, Some(name_of_str("first")))),
        _ => { let t: T = nsp("q", || prune_tree_of_tree(t)); nsp("p", || mergesort_list_of_tree2(t, Some(name_of_str("first")))) }
    }
}
const SORTS: &[&str] = &["mergesort_list_of_tree", "mergesort_list_of_tree after pruning", "mergesort_list_of_tree2", "mergesort_list_of_tree2 after pruning"];

/// sequences of elements, with the name in front of each, if `all`, or of some
fn gaps(len: usize, all: bool) -> Vec<(Vec<usize>, usize)> {
    let mut o = vec![];
    for n in 0..len + 1 { for p in perms(n) { for g in 0..1usize << n { if !all || g == (1 << n) - 1 { o.push((p.clone(), g)) } } } }
    o
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut o = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); o.push(q) } }
    o
}
pub fn sorts(len: usize, all: bool) -> FnFamily<(Rc<Vec<usize>>, Vec<usize>, usize)> {
    let mut its = vec![];
    for tag in ["up", "down", "mixed", "flat"] {
        // names whose levels go up, down, up and down, or are equal
        let f = |x: usize| <usize as Level>::new(&name_of_usize(x));
        let mut nm = vec![]; let mut x = 1;
        let lev: Vec<usize> = (0..len).map(|i| match tag { "up" => i, "down" => len - i, "mixed" => [2, 0, 3, 1, 2, 0, 4, 1][i % 8], _ => 1 }).collect();
        for l in lev { while f(x) != l { x += 1 } nm.push(x); x += 1 }
        let nm = Rc::new(nm);
        for (p, g) in gaps(len, all) { its.push((nm.clone(), p, g)) }
    }
    FnFamily { name: format!("sorts-{}{}", len, if all { "-named" } else { "" }), bounds: format!("all {} lists of at most {} different elements in any order, with a name in front of {}, of 4 assignments of levels: the sorts take at most the comparisons of merging{}; demanded in steps and at once; none again for what was demanded before", its.len(), len, if all { "each" } else { "any of them" }, if all { ", at most n-1 for the first entry, and for each further one at most the height of the tree" } else { "" }), items: its, show: |x| format!("{:?} {:?} names {:b}", x.0, x.1, x.2), run: |x, cx| {
        let mut v: V = vec![];
        for (i, e) in x.1.iter().enumerate() { if x.2 >> i & 1 == 1 { v.push(NameElse::Name(name_of_usize(x.0[i]))) } v.push(NameElse::Else(K(10 + e))) }
        let n = x.1.len();
        let all = x.2 == (1 << n) - 1;
        for w in 0..SORTS.len() {
            for step in vec![1, n + 1] {
                manage::init_dcg();
                let l: L = list_of_vec(&v);
                let t: T = nsp("tol", || tree_of_list::<usize, K, T, L>(Dir2::Left, l));
                let (_, bound, height, _, bins) = merging(&t);
                let (s, mut total, _) = took(|| sort(w, t));
                let mut last = total;
                // without pruning, names passed down end at empty leaves
                let strict = all && bins == 0 && n > 0 && w != 2;
                // entries of the output include names: demand by elements
                let mut k = 0; let mut seen = 0;
                loop {
                    k += step;
                    let (o, c, _) = took(|| vec_of_list(s.clone(), Some(k)));
                    total += c;
                    let e = elems(&o);
                    if strict && step == 1 && e.len() > seen {
                        if e.len() == 1 { check!(total <= n as u64 - 1, "{}: {} comparisons for the first of {} elements", SORTS[w], total, n); last = total }
                        else { check!(total - last <= height, "{}: {} comparisons from element {} to element {}, in a tree of height {}", SORTS[w], total - last, seen, e.len(), height); last = total }
                        seen = e.len();
                        cx.count("lazy sort bounds checked", 1);
                    }
                    let (_, c, _) = took(|| vec_of_list(s.clone(), Some(k)));
                    check!(c == 0, "{}: {} comparisons when the first {} entries are demanded again", SORTS[w], c, k);
                    cx.transitions += 2;
                    if o.len() < k { break }
                }
                check!(total <= bound, "{}: {} comparisons, where merging takes at most {}", SORTS[w], total, bound);
            }
            cx.states += 1;
        }
        cx.outcome(&x.1);
        Ok(())
    } }
}

// ------------------------------------------------------------ trees after edits

/// the parts of a tree between named nodes: what is below the left or right of a
/// named node, with the work at its own nodes: operations at inner nodes, leaves
type Units = HashMap<Option<(Name, bool)>, (T, u64, u64)>;
fn units(t: &T) -> Units { let mut u = HashMap::new(); let (o, l) = own(t, &mut u); u.insert(None, (t.clone(), o, l)); u }
fn own(t: &T, u: &mut Units) -> (u64, u64) {
    match t {
        Tree::Nil => (0, 0), Tree::Leaf(_) => (0, 1),
        Tree::Bin(_, l, r) => { let (a, b) = (own(l, u), own(r, u)); (a.0 + b.0 + 1, a.1 + b.1) }
        Tree::Name(n, _, l, r) => {
            for (s, x) in vec![(false, l), (true, r)] { let (o, lv) = own(x, u); u.insert(Some((n.clone(), s)), ((**x).clone(), o, lv)); }
            (1, 0)
        }
        Tree::Art(_) => unreachable!(),
    }
}
/// operations and leaves of the parts that are not as they were
fn changed(old: &Units, new: &Units) -> (u64, u64) {
    new.iter().filter(|(k, x)| match old.get(k) { Some(y) => y.0 != x.0, None => true }).fold((0, 0), |a, (_, x)| (a.0 + x.1, a.1 + x.2))
}

/// compositions that end in work on a tree; what is counted: runs of the given operation
/// (at inner nodes), runs of the given predicate (at leaves), or comparisons (at inner nodes,
/// one at each, for the first element of a sort, if there is no unnamed node with elements on both sides)
#[derive(Clone, Copy, PartialEq)]
enum Work { Ops, Leaves, Cmps }
use self::Work::*;
const TREES: &[(&str, Work, fn(T) -> Vec<usize>)] = &[
    ("monoid_of_tree (maximum)", Ops, |t| vec![nsp("p", || monoid_of_tree(t, K(0), Rc::new(|x: K, y: K| { tick(); if x.0 > y.0 { x } else { y } }))).0]),
    ("monoid_of_tree (first)", Ops, |t| vec![nsp("p", || monoid_of_tree(t, K(0), Rc::new(|x: K, y: K| { tick(); if x.0 == 0 { y } else { x } }))).0]),
    ("monoid_of_tree (sum)", Ops, |t| vec![nsp("p", || monoid_of_tree(t, K(0), Rc::new(|x: K, y: K| { tick(); K(x.0 + y.0) }))).0]),
    ("filter_tree_of_tree", Leaves, |t| { let t: T = nsp("p", || filter_tree_of_tree(t, Box::new(|x: &K| { tick(); x.0 % 4 != 2 }))); leaves(&t) }),
    ("first element of mergesort_list_of_tree", Cmps, |t| first(nsp("p", || mergesort_list_of_tree(t)))),
];
fn first(l: L) -> Vec<usize> { let mut k = 1; loop { let v = vec_of_list(l.clone(), Some(k)); let e = elems(&v); if e.len() > 0 || v.len() < k { return e } k += 1 } }
fn leaves(t: &T) -> Vec<usize> { fn go(t: &T, o: &mut Vec<usize>) { match t { Tree::Nil => (), Tree::Leaf(x) => o.push(x.0), Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => { go(l, o); go(r, o) } Tree::Art(a) => go(&force(a), o) } } let mut o = vec![]; go(t, &mut o); o }

const SLOT: &[&[usize]] = &[&[], &[0], &[1], &[2, 0]];
/// how the input is changed, and who calls the functions
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Realloc, SetCall, SetThunk }
#[derive(Clone)]
pub struct TreeWork { pub slots: usize, pub contents: usize, pub steps: usize, pub tag: &'static str, /** one segment differs from the usual */ pub long: bool }
impl TreeWork { fn nstates(&self) -> u64 { if self.long { return (self.slots * self.contents) as u64 + 1 } (self.contents as u64).pow(self.slots as u32) }
    fn funs(&self) -> usize { if self.contents < 4 { TREES.len() } else { 4 } }
}
const MODES: &[Mode] = &[Mode::Realloc, Mode::SetCall, Mode::SetThunk];
impl Family for TreeWork {
    fn name(&self) -> String { format!("{}tree-work-{}x{}-{}-{}", if self.long { "long-" } else { "" }, self.slots, self.contents, self.steps, self.tag) }
    fn bounds(&self) -> String { format!("{} functions of trees made from a list (monoids, filters, and the first elements of sorts if no segment has two elements), {} ways to change it, both directions; all histories of {} states{} of a list of {} named segments, each with one of {} contents, levels '{}': the given function runs at most at the nodes of those parts of the tree (between named nodes) below which something is not as it was, and not at all if nothing is", self.funs(), MODES.len(), self.steps, if self.long { " (the usual one, with one segment changed, then back, or changed again, or with another one changed instead, and the usual one)" } else { "" }, self.slots, self.contents, self.tag) }
    fn ncases(&self) -> usize { self.funs() * MODES.len() * 2 * if self.long { 1 } else { self.nstates() as usize } }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let n = if self.long { 1 } else { self.nstates() as usize }; let (first, i) = (i % n, i / n);
        Some(Box::new(TreeCase { f: self.clone(), a: alpha(self.tag), first, dir: if i % 2 == 0 { Dir2::Left } else { Dir2::Right }, m: MODES[i / 2 % MODES.len()], p: i / 2 / MODES.len(), us: vec![], want: vec![] }))
    }
}
struct TreeCase { f: TreeWork, a: Alpha, first: usize, dir: Dir2, m: Mode, p: usize, us: Vec<Units>, want: Vec<Vec<usize>> }
impl TreeCase {
    fn decode(&self, mut h: u64) -> Vec<usize> {
        if self.f.long {
            let (i, c, k) = (h as usize / 3 / self.f.contents, h as usize / 3 % self.f.contents, h % 3);
            let st = |i: usize, c: usize| 1 + (i % self.f.slots) * self.f.contents + c % self.f.contents;
            return vec![0, st(i, c), match k { 0 => 0, 1 => st(i, c + 1), _ => st(i * 7 + 3, c) }, 0]
        }
        let mut v = vec![self.first]; for _ in 1..self.f.steps { v.push((h % self.f.nstates()) as usize); h /= self.f.nstates() } v
    }
    fn seg(&self, s: usize, i: usize) -> Vec<K> { SLOT[if !self.f.long { digits(s as u64, self.f.contents as u64, self.f.slots)[i] } else if s > 0 && (s - 1) / self.f.contents == i { (s - 1) % self.f.contents } else { 1 + i % 2 }].iter().map(|x| K(self.a.vals[*x])).collect() }
    fn list(&self, s: usize) -> V {
        let mut v = vec![];
        for i in 0..self.f.slots {
            let seg = self.seg(s, i);
            if self.m == Mode::Realloc && seg.is_empty() { continue }
            v.push(NameElse::Name(name_of_usize(self.a.names[i])));
            v.extend(seg.into_iter().map(NameElse::Else));
        }
        v
    }
}
fn tol(d: Dir2, l: L) -> T { nsp("tol", || tree_of_list::<usize, K, T, L>(d, l)) }
impl Case for TreeCase {
    fn nhist(&self) -> u64 { if self.f.long { return (self.f.slots * self.f.contents * 3) as u64 } self.f.nstates().pow(self.f.steps as u32 - 1) }
    fn describe(&self, h: u64) -> String { format!("{} {:?} {:?} {}", TREES[self.p].0, self.dir, self.m, self.decode(h).into_iter().map(|s| format!("{:?}", (0..self.f.slots).map(|i| self.seg(s, i).iter().map(|k| k.0).collect::<Vec<_>>()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ")) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let (_, work, fun) = TREES[self.p];
        let dir = self.dir;
        if self.us.is_empty() {
            manage::init_naive();
            for s in 0..self.f.nstates() as usize {
                let t = tol(dir, list_of_vec(&self.list(s)));
                self.us.push(units(&strip(&t))); self.want.push(fun(t));
            }
        }
        manage::init_dcg();
        let hist = self.decode(h);
        let segment = |me: &TreeCase, s: usize, i: usize, rest: L| -> L { let mut l = rest; for x in me.seg(s, i).into_iter().rev() { l = List::Cons(x, Box::new(l)) } l };
        let (mut arts, mut head): (Vec<Art<L>>, L) = (vec![], L::Nil);
        if self.m != Mode::Realloc {
            for i in (0..self.f.slots).rev() {
                let n = name_of_usize(self.a.names[i]);
                let c = cell(n.clone(), segment(self, hist[0], i, head));
                arts.insert(0, c.clone());
                head = List::Name(n, Box::new(List::Art(c)));
            }
        }
        let mut main: Option<Art<Vec<usize>>> = None;
        for (k, s) in hist.iter().enumerate() {
            if k > 0 && self.m != Mode::Realloc {
                for i in 0..self.f.slots { if self.seg(hist[k - 1], i) != self.seg(*s, i) {
                    let rest = if i + 1 < self.f.slots { List::Name(name_of_usize(self.a.names[i + 1]), Box::new(List::Art(arts[i + 1].clone()))) } else { L::Nil };
                    set(&arts[i], segment(self, *s, i, rest));
                    cx.step();
                } }
            }
            let (got, cmps, runs) = took(|| match self.m {
                Mode::Realloc => fun(tol(dir, list_of_vec(&self.list(*s)))),
                Mode::SetCall => fun(tol(dir, head.clone())),
                Mode::SetThunk => {
                    if main.is_none() { let hd = head.clone(); main = Some(thunk(NameChoice::Nominal(name_of_str("main")), prog_pt!("main"), Rc::new(Box::new(move |(), ()| fun(tol(dir, hd.clone())))), (), ())); }
                    force(main.as_ref().unwrap())
                }
            });
            cx.step();
            check!(got == self.want[*s], "after step {}: {:?}, from scratch {:?}", k, got, self.want[*s]);
            let empty = HashMap::new();
            let (mut ops, mut lvs) = changed(if k > 0 { &self.us[hist[k - 1]] } else { &empty }, &self.us[*s]);
            // the root is not memoised by the function itself
            if k > 0 && self.m != Mode::SetThunk && self.us[hist[k - 1]][&None].0 == self.us[*s][&None].0 { ops += self.us[*s][&None].1; lvs += self.us[*s][&None].2 }
            let bound = if work == Leaves { lvs } else { ops };
            let runs = if work == Cmps { cmps } else { runs };
            check!(runs <= bound, "after step {}: {} runs of the given function (or comparisons), where {} nodes are in changed parts of the tree", k, runs, bound);
            if k > 0 && bound < self.us[*s].values().map(|x| if work == Leaves { x.2 } else { x.1 }).sum() { cx.count("edits with a bound below that from scratch", 1) }
        }
        cx.state(&(h, self.p));
        cx.outcome(&self.want[*hist.last().unwrap()]);
        Ok(())
    }
}
