//! The collections: what their functions compute, for all small inputs, under
//! both engines (C18), the trees made from lists (C20).

use crate::core::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::*;
use std::rc::Rc;
use std::collections::HashSet;

pub type L = List<usize>;
pub type T = Tree<usize>;
pub type V = Vec<NameElse<usize>>;

/// One entry of an input sequence: the i-th value of the alphabet, or the i-th name.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ent { E(usize), N(usize) }
use self::Ent::*;

/// Values (ascending) and names whose levels follow the given pattern.
#[derive(Clone, Debug)]
pub struct Alpha { pub vals: Vec<usize>, pub names: Vec<usize>, pub tag: &'static str }

fn scan(levels: &[usize], f: fn(usize) -> usize, from: usize) -> Vec<usize> {
    let mut v = vec![]; let mut x = from;
    for l in levels { while f(x) != *l { x += 1 } v.push(x); x += 1 }
    v
}
pub fn alpha(tag: &'static str) -> Alpha {
    match tag {
        "many" => return Alpha { vals: vec![1, 2, 3], names: (1..400).collect(), tag },
        "wide" => return Alpha { vals: (1..400).map(|i| i * 37 % 401).collect(), names: (1..400).collect(), tag },
        _ => (),
    }
    let (ev, nv): (&[usize], &[usize]) = match tag {
        "up" => (&[0, 1, 3], &[0, 1, 2, 3, 4, 5]),
        "down" => (&[3, 1, 0], &[5, 4, 3, 2, 1, 0]),
        "high" => (&[9, 13, 10], &[10, 14, 9, 12, 10, 8]),
        "mixed" => (&[0, 2, 1], &[1, 3, 1, 2, 4, 0]),
        _ => (&[1, 1, 1], &[2, 2, 2, 2, 2, 2]),
    };
    Alpha { vals: scan(ev, |x| <usize as Level>::new(&x), 1), names: scan(nv, |x| <usize as Level>::new(&name_of_usize(x)), 1), tag }
}
pub fn entries(a: &Alpha, s: &[Ent]) -> V {
    s.iter().map(|e| match e { E(i) => NameElse::Else(a.vals[*i]), N(i) => NameElse::Name(name_of_usize(a.names[*i])) }).collect()
}
/// All sequences of at most `len` elements over `k` values, with no name or one name in each gap.
pub fn sequences(len: usize, k: u64) -> Vec<Vec<Ent>> {
    let mut out = vec![];
    for n in 0..len + 1 {
        for h in 0..k.pow(n as u32) {
            let d = digits(h, k, n);
            for g in 0..1u64 << (n + 1) {
                let mut s = vec![]; let mut c = 0;
                for i in 0..n + 1 {
                    if g >> i & 1 == 1 { s.push(N(c)); c += 1 }
                    if i < n { s.push(E(d[i])) }
                }
                out.push(s);
            }
        }
    }
    out
}
/// all words over elements of `k` values and "the next name", of at most `len` entries
pub fn words(len: usize, k: u64) -> Vec<Vec<Ent>> {
    let mut out = vec![];
    for n in 0..len + 1 { for h in 0..(k + 1).pow(n as u32) {
        let mut c = 0;
        out.push(digits(h, k + 1, n).into_iter().map(|d| if d as u64 == k { c += 1; N(c - 1) } else { E(d) }).collect());
    } }
    out
}

/// one sequence of every size and pattern of names (none, in front of every element, of every third one, two in a row, only names)
pub fn sized(max: usize, k: usize) -> Vec<Vec<Ent>> {
    let mut out = vec![];
    for n in crate::scale::sizes(max) { for pat in 0..6 {
        let mut s = vec![]; let mut c = 0;
        for i in 0..n {
            for _ in 0..match pat { 0 => 0, 1 => 1, 2 => if i % 3 == 0 { 1 } else { 0 }, 3 => if i % 2 == 0 { 2 } else { 0 }, 4 => 1, _ => if i == n / 2 { 1 } else { 0 } } { s.push(N(c)); c += 1 }
            if pat != 4 { s.push(E((i * 5 + i / 7) % k)) }
        }
        out.push(s);
    } }
    out
}

pub fn elems(v: &V) -> Vec<usize> { v.iter().filter_map(|x| match x { NameElse::Else(e) => Some(*e), _ => None }).collect() }
pub fn names(v: &V) -> Vec<Name> { v.iter().filter_map(|x| match x { NameElse::Name(n) => Some(n.clone()), _ => None }).collect() }
pub fn nsp<X: 'static, F: FnOnce() -> X>(s: &str, f: F) -> X { ns(name_of_string(s.to_string()), f) }

/// every element with the names directly in front of it
fn fronts(v: &V, lead: Option<Name>) -> Vec<(usize, Vec<Name>)> {
    let mut acc: Vec<Name> = lead.into_iter().collect(); let mut o = vec![];
    for x in v { match x { NameElse::Name(n) => acc.push(n.clone()), NameElse::Else(e) => o.push((*e, std::mem::replace(&mut acc, vec![]))) } }
    o
}

/// in-order entries of a tree, and the order of its levels
pub fn walk(t: &T) -> V { let mut o = vec![]; walk_(t, &mut o); o }
fn walk_(t: &T, o: &mut V) {
    match t {
        Tree::Nil => (),
        Tree::Leaf(x) => o.push(NameElse::Else(*x)),
        Tree::Bin(_, l, r) => { walk_(l, o); walk_(r, o) }
        Tree::Name(n, _, l, r) => { walk_(l, o); o.push(NameElse::Name(n.clone())); walk_(r, o) }
        Tree::Art(a) => walk_(&force(a), o),
    }
}
fn strip(t: &T) -> T {
    match t {
        Tree::Nil => Tree::Nil, Tree::Leaf(x) => Tree::Leaf(*x),
        Tree::Bin(v, l, r) => Tree::Bin(*v, Box::new(strip(l)), Box::new(strip(r))),
        Tree::Name(n, v, l, r) => Tree::Name(n.clone(), *v, Box::new(strip(l)), Box::new(strip(r))),
        Tree::Art(a) => strip(&force(a)),
    }
}
fn inner_nil(t: &T) -> bool { match t {
    Tree::Nil => true, Tree::Leaf(_) => false,
    Tree::Bin(_, l, r) | Tree::Name(_, _, l, r) => inner_nil(l) || inner_nil(r),
    Tree::Art(a) => inner_nil(&force(a)),
} }

pub type Pred = fn(usize, &[usize]) -> bool;
fn keeps(k: usize, vals: &[usize]) -> Vec<usize> { (0..vals.len()).filter(|i| k >> i & 1 == 1).map(|i| vals[i]).collect() }

fn both<X, F: Fn() -> Result<X, String>>(what: &str, f: F) -> Result<(X, X), String> {
    manage::init_naive();
    let a = f().map_err(|e| format!("naive engine: {}: {}", what, e))?;
    manage::init_dcg();
    let b = f().map_err(|e| format!("DCG engine: {}: {}", what, e))?;
    Ok((a, b))
}

macro_rules! same { ($got:expr, $want:expr, $($w:tt)*) => { { let g = $got; let w = $want; if g != w { return Err(format!("{}: {:?}, expected {:?}", format!($($w)*), g, w)) } } } }

#[derive(Clone)]
pub struct Item { pub a: Rc<Alpha>, pub s: Vec<Ent>, pub k: usize }
fn show(i: &Item) -> String { format!("{} {:?}{}", i.a.tag, i.s, if i.k > 0 { format!(" /{}", i.k) } else { String::new() }) }
fn items(tags: &[&'static str], seqs: &Vec<Vec<Ent>>, ks: usize) -> Vec<Item> {
    let mut o = vec![];
    for t in tags { let a = Rc::new(alpha(t)); for s in seqs { for k in 0..ks { o.push(Item { a: a.clone(), s: s.clone(), k }) } } }
    o
}

// ------------------------------------------------------------ lists

pub fn lists(len: usize, k: u64) -> FnFamily<Item> { lists_of(words(len, k), "up", format!("lists-{}", len), format!("sequences of at most {} entries (elements of {} values, names)", len, k)) }
const PATTERNS: &str = "(sizes around the multiples of 16, beyond 20), with names nowhere, before every element, before every third one, two in a row, in the middle, or nothing but names";
pub fn long_lists(max: usize) -> FnFamily<Item> { lists_of(sized(max, 3), "many", format!("long-lists-{}", max), format!("sequences of up to {} entries {}", max, PATTERNS)) }
fn lists_of(w: Vec<Vec<Ent>>, tag: &'static str, name: String, what: String) -> FnFamily<Item> {
    FnFamily { name, bounds: format!("all {} {}: construction, demand up to every limit, push, pop, emptiness, fold, maps, filters, reversal", w.len(), what), items: items(&[tag], &w, 1), show, run: |it, cx| {
        let v = entries(&it.a, &it.s); let es = elems(&v); let nms = names(&v);
        both("lists", || {
            let l: L = list_of_vec(&v);
            same!(vec_of_list(l.clone(), None), v.clone(), "vec_of_list(list_of_vec)");
            for k in 0..v.len() + 2 {
                let want: V = v.iter().take(k).cloned().collect();
                same!(vec_of_list(l.clone(), Some(k)), want.clone(), "vec_of_list limited to {}", k);
                same!(list_demand(l.clone(), k), want, "list_demand of {}", k);
            }
            same!(list_is_empty::<usize, L>(&l), es.is_empty(), "list_is_empty");
            same!(<L as ListElim<usize>>::is_name(&l), match v.first() { Some(NameElse::Name(_)) => true, _ => false }, "is_name");
            let p = list_push(l.clone(), 77);
            same!(vec_of_list(p.clone(), None), { let mut w = v.clone(); w.insert(0, NameElse::Else(77)); w }, "list_push");
            let (h, t) = list_pop::<usize, L>(p);
            same!((h, vec_of_list(t, None)), (77, v.clone()), "list_pop of list_push");
            if !es.is_empty() {
                let (h, t) = list_pop::<usize, L>(l.clone());
                let i = v.iter().position(|x| match x { NameElse::Else(_) => true, _ => false }).unwrap();
                same!((h, vec_of_list(t, None)), (es[0], v[i + 1..].to_vec()), "list_pop");
            }
            same!(list_fold(l.clone(), vec![], Rc::new(|x: usize, mut r: Vec<usize>| { r.push(x); r })), es.iter().rev().cloned().collect::<Vec<_>>(), "list_fold");
            same!(vec_of_list(list_name_op(Some(name_of_str("x")), l.clone()), Some(1)), vec![NameElse::Name(name_of_str("x"))] as V, "list_name_op");
            same!(vec_of_list(list_name_op::<usize, L>(None, l.clone()), None), v.clone(), "list_name_op of no name");
            let na: L = list_name_art_op(Some(name_of_str("y")), l.clone());
            same!(vec_of_list(na, None), { let mut w = v.clone(); w.insert(0, NameElse::Name(name_of_str("y"))); w }, "list_name_art_op");
            let na: L = <L as ListIntro<usize>>::name_art(Some(name_of_str("y")), l.clone());
            same!(vec_of_list(na, None), { let mut w = v.clone(); w.insert(0, NameElse::Name(name_of_str("y"))); w }, "name_art");
            // maps
            let f = |x: usize| 2 * x + 1;
            let me: Vec<usize> = es.iter().map(|x| f(*x)).collect();
            let mv = |g: &dyn Fn(&Name) -> Name| -> V { v.iter().map(|x| match x { NameElse::Else(e) => NameElse::Else(f(*e)), NameElse::Name(n) => NameElse::Name(g(n)) }).collect() };
            let r: L = nsp("ml", || list_map_lazy(l.clone(), Rc::new(f)));
            same!(elems(&vec_of_list(r, None)), me.clone(), "list_map_lazy");
            let r: L = nsp("me", || list_map_eager(l.clone(), Rc::new(f)));
            same!(vec_of_list(r, None), mv(&|n| n.clone()), "list_map_eager");
            let r: L = nsp("m2", || list_map_eager2(l.clone(), Rc::new(f)));
            same!(elems(&vec_of_list(r, None)), me, "list_map_eager2");
            let r: L = nsp("m2b", || list_map_eager2(l.clone(), Rc::new(f)));
            same!(names(&vec_of_list(r, None)).into_iter().collect::<HashSet<_>>().len(), nms.len(), "number of different names of list_map_eager2");
            // filters: every subset of the values
            for k in 0..1usize << it.a.vals.len() {
                let keep = Rc::new(keeps(k, &it.a.vals));
                let (k1, k2) = (keep.clone(), keep.clone());
                let want: V = v.iter().filter(|x| match x { NameElse::Else(e) => keep.contains(e), _ => true }).cloned().collect();
                let r: L = ns(name_pair(name_of_str("fl"), name_of_usize(k)), || list_filter_lazy(l.clone(), Rc::new(move |x: &usize| k1.contains(x))));
                same!(elems(&vec_of_list(r, None)), elems(&want), "list_filter_lazy by {:?}", keep);
                let r: L = ns(name_pair(name_of_str("fe"), name_of_usize(k)), || list_filter_eager(l.clone(), Rc::new(move |x: &usize| k2.contains(x))));
                same!(vec_of_list(r, None), want, "list_filter_eager by {:?}", keep);
            }
            let r: L = nsp("rev", || list_reverse(l.clone(), L::Nil));
            let rv = vec_of_list(r.clone(), None);
            same!(elems(&rv), es.iter().rev().cloned().collect::<Vec<_>>(), "list_reverse");
            same!(names(&rv).into_iter().collect::<HashSet<_>>(), nms.iter().cloned().collect::<HashSet<_>>(), "the names of list_reverse");
            // the input is as it was
            same!(vec_of_list(l.clone(), None), v.clone(), "the input list afterwards");
            Ok(())
        })?;
        cx.states += 2; cx.transitions += 2 * (40 + v.len() as u64);
        cx.outcome(&v);
        Ok(())
    } }
}

pub fn gens(max: usize) -> FnFamily<usize> {
    FnFamily { name: "list_gen".into(), bounds: format!("list_gen of every length up to {}", max), items: (0..max + 1).collect(), show: |n| n.to_string(), run: |n, cx| {
        let n = *n;
        both("list_gen", || {
            let l: L = list_gen(n, |i| 3 * i + 1);
            let v = vec_of_list(l, None);
            same!(elems(&v), (0..n).map(|i| 3 * i + 1).collect::<Vec<_>>(), "the elements of list_gen");
            same!(names(&v).into_iter().collect::<HashSet<_>>().len(), names(&v).len(), "different names of list_gen");
            // every name comes with an articulation: the rest of the list is in a cell with the same name
            if let Some(g) = adapton::engine::reflect_dcg::dcg_reflect_now() {
                for m in names(&v) { check!(g.table.keys().any(|l| l.name == m), "list_gen put the name {:?} without an articulation", m) }
            }
            Ok(())
        })?;
        cx.states += 2; cx.transitions += 2 * n as u64; cx.outcome(&n);
        Ok(())
    } }
}

/// two lists: append; merging of sorted lists
pub fn two_lists(len: usize, k: u64) -> FnFamily<(Rc<Alpha>, Vec<Ent>, Vec<Ent>)> {
    let w = words(len, k);
    let a = Rc::new(alpha("up"));
    let mut its = vec![];
    for x in &w { for y in &w {
        // names of the second list differ from those of the first
        let y2: Vec<Ent> = y.iter().map(|e| match e { N(i) => N(i + 3), E(i) => E(*i) }).collect();
        if x.iter().chain(y.iter()).all(|e| match e { N(i) => *i < 3, _ => true }) { its.push((a.clone(), x.clone(), y2)) }
    } }
    FnFamily { name: format!("two-lists-{}", len), bounds: format!("all {} pairs of sequences of at most {} entries over {} values and names: append, and merge of the sorted elements with names as they fall (4 choices of leading names, demanded at every limit)", its.len(), len, k), items: its, show: |x| format!("{:?} {:?}", x.1, x.2), run: |x, cx| {
        let (v1, v2) = (entries(&x.0, &x.1), entries(&x.0, &x.2));
        let sorted = |v: &V| -> V { let mut e = elems(v); e.sort(); let mut e = e.into_iter(); v.iter().map(|y| match y { NameElse::Else(_) => NameElse::Else(e.next().unwrap()), NameElse::Name(n) => NameElse::Name(n.clone()) }).collect() };
        let (s1, s2) = (sorted(&v1), sorted(&v2));
        let mut all = elems(&v1); all.extend(elems(&v2)); all.sort();
        both("two lists", || {
            let (l1, l2): (L, L) = nsp("ins", || (list_of_vec(&v1), list_of_vec(&v2)));
            let r = list_append(l1.clone(), l2.clone());
            let mut want: V = elems(&v1).into_iter().map(NameElse::Else).collect(); want.extend(v2.iter().cloned());
            let got = vec_of_list(r, None);
            same!(elems(&got), elems(&want), "list_append");
            for m in 0..4 {
                let f = |b: usize, s: &str| if m >> b & 1 == 1 { Some(name_of_string(s.to_string())) } else { None };
                let (l1, l2): (L, L) = ns(name_of_usize(m), || (list_of_vec(&s1), list_of_vec(&s2)));
                let r = ns(name_pair(name_of_str("merge"), name_of_usize(m)), || list_merge(f(0, "n1"), l1, f(1, "n2"), l2));
                for k in 0..all.len() + 1 {
                    let e = elems(&vec_of_list(r.clone(), Some(k)));
                    same!(e.clone(), all[..e.len()].to_vec(), "the first {} entries of list_merge with leading names {}", k, m);
                }
                let got = vec_of_list(r, None);
                same!(elems(&got), all.clone(), "list_merge with leading names {}", m);
                let ns_ = names(&got);
                same!(ns_.iter().cloned().collect::<HashSet<_>>().len(), ns_.len(), "different names of list_merge with leading names {}", m);
                // a name in front of an element was made from one in front of that element in its input
                let (f1, f2) = (fronts(&s1, f(0, "n1")), fronts(&s2, f(1, "n2")));
                // ... and every element that had one has one
                let named = |f: &[&Vec<(usize, Vec<Name>)>]| -> Vec<usize> { let mut v: Vec<usize> = f.iter().flat_map(|f| f.iter()).filter(|(_, ns_)| !ns_.is_empty()).map(|x| x.0).collect(); v.sort(); v };
                same!(named(&[&fronts(&got, None)]), named(&[&f1, &f2]), "the elements with a name in front of them, list_merge with leading names {}", m);
                for (e, ns_) in fronts(&got, None) { for n in ns_ {
                    let ok = f1.iter().chain(f2.iter()).any(|(x, ms)| *x == e && ms.iter().any(|m| { let (a, b) = name_fork(m.clone()); n == *m || n == a || n == b }));
                    check!(ok, "list_merge with leading names {} moves the name {:?} in front of {}", m, n, e);
                } }
            }
            Ok(())
        })?;
        cx.states += 2; cx.transitions += 2 * (all.len() as u64 * 5 + 1); cx.outcome(&all);
        Ok(())
    } }
}

// ------------------------------------------------------------ trees

fn filter_names(v: &V, got: &V, keep: &[usize]) -> Result<(), String> {
    // the segments between kept elements, as sets of names
    let segs = |v: &V| -> Vec<Vec<Name>> {
        let mut o = vec![vec![]];
        for x in v { match x { NameElse::Else(e) => if keep.contains(e) { o.push(vec![]) }, NameElse::Name(n) => o.last_mut().unwrap().push(n.clone()) } }
        o
    };
    let (a, b) = (segs(v), segs(got));
    check!(a.len() == b.len(), "a different number of elements");
    for i in 0..a.len() {
        check!(b[i].iter().all(|n| a[i].contains(n)), "names {:?} where the input has {:?}", b[i], a[i]);
        let inner = i > 0 && i + 1 < a.len();
        check!(if inner { b[i].len() == if a[i].is_empty() { 0 } else { 1 } } else { b[i].len() <= 1 }, "{} names {} the kept elements, where the input has {}", b[i].len(), if inner { "between two of" } else { "around" }, a[i].len());
    }
    Ok(())
}

/// everything computed from one tree
fn tree_functions(tag: &str, t: &T, v: &V, vals: &[usize], full: bool) -> R {
    let sec = |s: &str| name_pair(name_of_string(tag.to_string()), name_of_string(s.to_string()));
    let es = elems(v);
    let revd: V = v.iter().rev().cloned().collect();
    let plain = strip(t);
    let g: L = ns(sec("ll"), || list_of_tree(t.clone(), Dir2::Left));
    same!(vec_of_list(g, None), v.clone(), "list_of_tree, left to right");
    let g: L = ns(sec("lr"), || list_of_tree(t.clone(), Dir2::Right));
    same!(vec_of_list(g, None), revd, "list_of_tree, right to left");
    let e: T = ns(sec("eager"), || eager_tree_of_tree(t.clone()));
    same!(e, plain.clone(), "eager_tree_of_tree");
    let p: T = ns(sec("prune"), || prune_tree_of_tree(t.clone()));
    let pv = walk(&p);
    same!(elems(&pv), es.clone(), "the elements of prune_tree_of_tree");
    check!(match strip(&p) { Tree::Nil => true, ref p => !inner_nil(p) }, "prune_tree_of_tree leaves empty subtrees in {:?}", strip(&p));
    same!(strip(&p), pruned(&plain), "prune_tree_of_tree");
    for (tag, t) in vec![("a", t), ("p", &p)] {
        let m: Vec<usize> = ns(sec(&format!("seq{}", tag)), || tree_fold_seq(t.clone(), Dir2::Left, vec![], Rc::new(|x: usize, mut r: Vec<usize>| { r.push(x); r }), Rc::new(|_, r| r), Rc::new(|_, _, r| r)));
        same!(m, es.clone(), "tree_fold_seq, left to right");
    }
    let s = ns(sec("max"), || monoid_of_tree(t.clone(), 0, Rc::new(|x, y| if x > y { x } else { y })));
    same!(s, es.iter().cloned().max().unwrap_or(0), "monoid_of_tree (maximum)");
    let s = ns(sec("digits"), || monoid_of_tree(t.clone(), 0, Rc::new(|x, y| if x == 0 { y } else { x })));
    same!(s, es.first().cloned().unwrap_or(0), "monoid_of_tree (first)");
    same!(<T as TreeElim<usize, usize>>::is_empty(t), es.is_empty(), "is_empty of the tree");
    for k in 0..1usize << vals.len() {
        let keep = keeps(k, vals);
        let want: Vec<usize> = es.iter().filter(|e| keep.contains(e)).cloned().collect();
        let (k1, k2) = (keep.clone(), keep.clone());
        let g: L = ns(sec(&format!("fl{}", k)), || filter_list_of_tree(t.clone(), Box::new(move |x: &usize| k1.contains(x))));
        let got = vec_of_list(g, None);
        same!(elems(&got), want.clone(), "filter_list_of_tree by {:?}", keep);
        filter_names(v, &got, &keep).map_err(|e| format!("filter_list_of_tree by {:?} gives {:?}: {}", keep, got, e))?;
        let g: T = ns(sec(&format!("ft{}", k)), || filter_tree_of_tree(t.clone(), Box::new(move |x: &usize| k2.contains(x))));
        let got = walk(&g);
        same!(elems(&got), want, "filter_tree_of_tree by {:?}", keep);
        let mut left = v.iter();
        check!(got.iter().all(|x| left.any(|y| x == y)), "filter_tree_of_tree by {:?} gives {:?}, not a part of the input", keep, got);
    }
    let mut so = es.clone(); so.sort();
    for w in 1..4 {
        for first in 0..2 {
            if w == 1 && first == 1 || !full && first == 1 { continue }
            let nm = if first == 1 { Some(name_of_str("first")) } else { None };
            let g: L = ns(sec(&format!("sort{}{}", w, first)), || match w { 1 => mergesort_list_of_tree(t.clone()), 2 => mergesort_list_of_tree2(t.clone(), nm), _ => mergesort_list_of_tree3(t.clone(), nm) });
            let which = if w == 1 { "mergesort_list_of_tree".into() } else { format!("mergesort_list_of_tree{}", w) };
            for k in 0..so.len() {
                let e = elems(&vec_of_list(g.clone(), Some(k)));
                same!(e.clone(), so[..e.len()].to_vec(), "the first {} entries of {}", k, which);
            }
            let got = vec_of_list(g, None);
            same!(elems(&got), so.clone(), "{}", which);
            let ns_ = names(&got);
            same!(ns_.iter().cloned().collect::<HashSet<_>>().len(), ns_.len(), "different names of {}", which);
        }
    }
    same!(walk(t), v.clone(), "the input tree afterwards");
    Ok(())
}
fn pruned(t: &T) -> T { match t {
    Tree::Bin(v, l, r) => { let (l, r) = (pruned(l), pruned(r)); if l == Tree::Nil { r } else if r == Tree::Nil { l } else { Tree::Bin(*v, Box::new(l), Box::new(r)) } }
    Tree::Name(n, v, l, r) => { let (l, r) = (pruned(l), pruned(r)); if l == Tree::Nil { r } else if r == Tree::Nil { l } else { Tree::Name(n.clone(), *v, Box::new(l), Box::new(r)) } }
    t => t.clone(),
} }

/// level order: no node is above a node of a higher level
pub fn ordered(t: &T) -> Result<usize, String> {
    match t {
        Tree::Nil => Ok(0), Tree::Leaf(_) => Ok(0),
        Tree::Art(a) => ordered(&force(a)),
        Tree::Bin(v, l, r) | Tree::Name(_, v, l, r) => {
            let (a, b) = (ordered(l)?, ordered(r)?);
            if a > *v || b > *v { Err(format!("a subtree of level {} below level {}", a.max(b), v)) } else { Ok(*v) }
        }
    }
}
/// the level of every node is that of the element or name it was made for
fn levels(t: &T, left: bool) -> R {
    fn edge(t: &T, left: bool) -> Option<NameElse<usize>> { let v = walk(t); if left { v.first().cloned() } else { v.last().cloned() } }
    match t {
        Tree::Art(a) => levels(&force(a), left),
        Tree::Bin(v, l, r) => {
            levels(l, left)?; levels(r, left)?;
            let x = if left { edge(r, true) } else { edge(l, false) };
            match x { Some(NameElse::Else(x)) => ensure(*v == <usize as Level>::new(&x) + 1, || format!("level {} for the element {}, of level {}", v, x, <usize as Level>::new(&x))), x => Err(format!("a binary node is followed by {:?}", x)) }
        }
        Tree::Name(n, v, l, r) => { levels(l, left)?; levels(r, left)?; ensure(*v == <usize as Level>::new(n) + 33, || format!("level {} for the name {:?}", v, n)) }
        _ => Ok(()),
    }
}

/// C20: the trees made from lists
pub fn trees_of_lists(len: usize, k: u64, tags: &'static [&'static str]) -> FnFamily<Item> {
    let mut w = sequences(len, k);
    w.extend(words(len, k).into_iter().filter(|s| s.iter().all(|e| *e != N(5))));
    w.sort_by_key(|s| (s.len(), format!("{:?}", s))); w.dedup();
    w.retain(|s| s.iter().all(|e| match e { N(i) => *i < 6, _ => true }));
    trees_of(w, tags, format!("trees-of-lists-{}-{}", len, tags.join("+")), format!("sequences of at most {} elements over {} values and names, for the assignments {:?} of levels to values and names", len, k, tags))
}
pub fn long_trees_of_lists(max: usize) -> FnFamily<Item> { trees_of(sized(max, 399), &["wide"], format!("trees-of-long-lists-{}", max), format!("sequences of up to {} entries {}", max, PATTERNS)) }
fn trees_of(w: Vec<Vec<Ent>>, tags: &'static [&'static str], name: String, what: String) -> FnFamily<Item> {
    FnFamily { name, bounds: format!("all {} {}, in both directions: the tree has the entries in order, level order, levels as assigned, and does not depend on the engine or on how the list is cut by articulations", w.len(), what), items: items(tags, &w, 2), show, run: |it, cx| {
        let v = entries(&it.a, &it.s);
        let (dir, left) = if it.k == 0 { (Dir2::Left, true) } else { (Dir2::Right, false) };
        let (a, b) = both("tree_of_list", || {
            let l: L = list_of_vec(&v);
            let t: T = nsp("tol", || tree_of_list::<usize, usize, T, L>(dir, l.clone()));
            let w = walk(&t);
            let got: V = if left { w } else { w.into_iter().rev().collect() };
            same!(got, v.clone(), "the entries of tree_of_list {:?}", dir);
            ordered(&t).map_err(|e| format!("tree_of_list {:?} gives {:?}: {}", dir, strip(&t), e))?;
            levels(&t, left).map_err(|e| format!("tree_of_list {:?} gives {:?}: {}", dir, strip(&t), e))?;
            // the same list without articulations
            let mut l2 = L::Nil;
            for x in v.iter().rev() { l2 = match x { NameElse::Else(e) => List::Cons(*e, Box::new(l2)), NameElse::Name(n) => List::Name(n.clone(), Box::new(l2)) } }
            let t2: T = nsp("tol2", || tree_of_list::<usize, usize, T, L>(dir, l2));
            same!(strip(&t2), strip(&t), "tree_of_list of the list without articulations");
            let back: L = nsp("back", || list_of_tree(t.clone(), dir));
            same!(vec_of_list(back, None), v.clone(), "list_of_tree of tree_of_list {:?}", dir);
            let t3: T = nsp("again", || { let l: L = nsp("l", || list_of_tree(t.clone(), dir)); tree_of_list::<usize, usize, T, L>(dir, l) });
            same!(strip(&t3), strip(&t), "tree_of_list of list_of_tree of tree_of_list");
            Ok(strip(&t))
        })?;
        check!(a == b, "tree_of_list {:?} gives {:?} under the naive engine and {:?} under the DCG engine", dir, a, b);
        cx.states += 2; cx.transitions += 8; cx.outcome(&a);
        Ok(())
    } }
}

/// C18: functions of trees, on the trees made from lists
pub fn tree_fns(len: usize, k: u64, tags: &'static [&'static str]) -> FnFamily<Item> {
    let mut w = sequences(len, k);
    w.retain(|s| s.iter().all(|e| match e { N(i) => *i < 6, _ => true }));
    tree_fns_of(w, tags, format!("functions-of-trees-{}-{}", len, tags.join("+")), format!("sequences of at most {} elements over {} values with a name or none in each gap, for the assignments {:?} of levels", len, k, tags))
}
pub fn long_tree_fns(max: usize) -> FnFamily<Item> { tree_fns_of(sized(max, 3), &["many"], format!("functions-of-big-trees-{}", max), format!("sequences of up to {} entries {}", max, PATTERNS)) }
fn tree_fns_of(w: Vec<Vec<Ent>>, tags: &'static [&'static str], name: String, what: String) -> FnFamily<Item> {
    FnFamily { name, bounds: format!("all {} {}, made into trees: listing in both directions, filters by every subset of values, folds, monoids, pruning, the three merge sorts (demanded at every limit)", w.len(), what), items: items(tags, &w, 1), show, run: |it, cx| {
        let v = entries(&it.a, &it.s);
        both("functions of trees", || {
            let l: L = list_of_vec(&v);
            let t: T = nsp("tol", || tree_of_list::<usize, usize, T, L>(Dir2::Left, l.clone()));
            tree_functions("f", &t, &v, &it.a.vals, true)
        })?;
        cx.states += 2; cx.transitions += 2 * 30; cx.outcome(&v);
        Ok(())
    } }
}

/// a tree given by its shape: (kind, left, right) or leaf
#[derive(Clone, Debug)]
pub enum Sh { Nil, Leaf(usize), Bin(Box<Sh>, Box<Sh>), Name(Box<Sh>, Box<Sh>) }
pub fn shapes(n: usize, k: usize) -> Vec<Sh> {
    if n == 0 { let mut v = vec![Sh::Nil]; v.extend((0..k).map(Sh::Leaf)); return v }
    let mut o = vec![];
    for i in 0..n { for l in shapes(i, k) { for r in shapes(n - 1 - i, k) {
        o.push(Sh::Bin(Box::new(l.clone()), Box::new(r.clone())));
        o.push(Sh::Name(Box::new(l.clone()), Box::new(r.clone())));
    } } }
    o
}
fn build(s: &Sh, a: &Alpha, arts: usize, c: &mut usize) -> T {
    let art = |t: T, c: &mut usize, here: bool| if here { *c += 1; Tree::Art(cell(name_of_usize(1000 + *c), t)) } else { t };
    match s {
        Sh::Nil => Tree::Nil,
        Sh::Leaf(i) => art(Tree::Leaf(a.vals[*i]), c, arts & 2 != 0),
        Sh::Bin(l, r) => { let l = build(l, a, arts, c); let r = build(r, a, arts, c); *c += 1; Tree::Bin(*c, Box::new(l), Box::new(r)) }
        Sh::Name(l, r) => {
            let l = build(l, a, arts, c); let r = build(r, a, arts, c); *c += 1;
            let t = Tree::Name(name_of_usize(a.names[0] + 100 + *c), *c, Box::new(l), Box::new(r));
            art(t, c, arts & 1 != 0)
        }
    }
}
pub fn raw_trees(n: usize, k: usize) -> FnFamily<(Sh, usize)> {
    let mut its = vec![];
    for i in 0..n + 1 { for s in shapes(i, k) { for arts in 0..if i < n || n < 3 { 4 } else { 2 } { its.push((s.clone(), arts)) } } }
    FnFamily { name: format!("any-tree-{}-{}", n, k), bounds: format!("all {} trees of at most {} inner nodes (named or not; with or without articulations around named nodes and leaves) over empty leaves and {} values: the same functions", its.len(), n, k), items: its, show: |x| format!("{:?} arts {}", x.0, x.1), run: |x, cx| {
        let a = alpha("up");
        both("functions of trees", || {
            let mut c = 0;
            let t = build(&x.0, &a, x.1, &mut c);
            let v = walk(&t);
            tree_functions("f", &t, &v, &a.vals[..2], false)
        })?;
        cx.states += 2; cx.transitions += 2 * 30; cx.outcome(&format!("{:?}", x.0));
        Ok(())
    } }
}

// ------------------------------------------------------------ C19: histories of edits

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out { v: V, t: Option<T>, x: usize }
thread_local!(static RUNS: std::cell::Cell<u64> = std::cell::Cell::new(0));
fn tick() { RUNS.with(|r| r.set(r.get() + 1)) }
fn dbl(x: usize) -> usize { tick(); 2 * x + 1 }
fn odd(x: &usize) -> bool { tick(); x % 4 != 2 }
fn lst(l: L, lim: Option<usize>) -> Out { Out { v: vec_of_list(l, lim), t: None, x: 0 } }
fn tol(d: Dir2, l: L) -> T { nsp("tol", || tree_of_list::<usize, usize, T, L>(d, l)) }

pub const PIPES: &[(&str, fn(L, Option<usize>) -> Out)] = &[
    ("map_eager", |l, k| lst(nsp("p", || list_map_eager(l, Rc::new(dbl))), k)),
    ("map_eager2", |l, k| lst(nsp("p", || list_map_eager2(l, Rc::new(dbl))), k)),
    ("map_lazy", |l, k| lst(nsp("p", || list_map_lazy(l, Rc::new(dbl))), k)),
    ("filter_eager", |l, k| lst(nsp("p", || list_filter_eager(l, Rc::new(odd))), k)),
    ("filter_lazy", |l, k| lst(nsp("p", || list_filter_lazy(l, Rc::new(odd))), k)),
    ("reverse", |l, k| lst(nsp("p", || list_reverse(l, L::Nil)), k)),
    ("append", |l, k| lst(list_append(nsp("p", || list_map_eager(l.clone(), Rc::new(dbl))), l), k)),
    ("tree-list", |l, k| lst({ let t = tol(Dir2::Left, l); nsp("p", || list_of_tree(t, Dir2::Left)) }, k)),
    ("tree-list-right", |l, k| lst({ let t = tol(Dir2::Right, l); nsp("p", || list_of_tree(t, Dir2::Right)) }, k)),
    ("tree-backwards", |l, k| lst({ let t = tol(Dir2::Left, l); nsp("p", || list_of_tree(t, Dir2::Right)) }, k)),
    ("tree-eager", |l, _| Out { v: vec![], t: Some({ let t = tol(Dir2::Left, l); nsp("p", || eager_tree_of_tree(t)) }), x: 0 }),
    ("tree-max", |l, _| Out { v: vec![], t: None, x: { let t = tol(Dir2::Left, l); nsp("p", || monoid_of_tree(t, 0, Rc::new(|x, y| { tick(); if x > y { x } else { y } }))) } }),
    ("tree-last", |l, _| Out { v: vec![], t: None, x: { let t = tol(Dir2::Right, l); nsp("p", || monoid_of_tree(t, 0, Rc::new(|x, y| { tick(); if x == 0 { y } else { x } }))) } }),
    ("tree-filter_list", |l, k| lst({ let t = tol(Dir2::Left, l); nsp("p", || filter_list_of_tree(t, Box::new(odd))) }, k)),
    ("tree-filter_tree-list", |l, k| lst({ let t = tol(Dir2::Left, l); let t: T = nsp("p", || filter_tree_of_tree(t, Box::new(odd))); nsp("q", || list_of_tree(t, Dir2::Left)) }, k)),
    ("tree-filter_tree", |l, _| Out { v: vec![], t: Some({ let t = tol(Dir2::Left, l); let t: T = nsp("p", || filter_tree_of_tree(t, Box::new(odd))); strip(&t) }), x: 0 }),
    ("tree-prune", |l, _| Out { v: vec![], t: Some({ let t = tol(Dir2::Left, l); let t: T = nsp("p", || prune_tree_of_tree(t)); strip(&t) }), x: 0 }),
    ("tree-prune-list", |l, k| lst({ let t = tol(Dir2::Left, l); let t: T = nsp("p", || prune_tree_of_tree(t)); nsp("q", || list_of_tree(t, Dir2::Left)) }, k)),
    ("sort", |l, k| lst({ let t = tol(Dir2::Left, l); nsp("p", || mergesort_list_of_tree(t)) }, k)),
    ("prune-sort2", |l, k| lst({ let t = tol(Dir2::Left, l); let t: T = nsp("p", || prune_tree_of_tree(t)); nsp("q", || mergesort_list_of_tree2(t, Some(name_of_str("first")))) }, k)),
    ("sort2", |l, k| lst({ let t = tol(Dir2::Left, l); nsp("p", || mergesort_list_of_tree2(t, None)) }, k)),
    ("sort3", |l, k| lst({ let t = tol(Dir2::Right, l); nsp("p", || mergesort_list_of_tree3(t, Some(name_of_str("first")))) }, k)),
    ("map-filter-tree-sort", |l, k| lst({ let l: L = nsp("m", || list_map_eager(l, Rc::new(dbl))); let l: L = nsp("f", || list_filter_eager(l, Rc::new(|x: &usize| *x > 4))); let t = tol(Dir2::Left, l); nsp("p", || mergesort_list_of_tree(t)) }, k)),
    ("merge", |l, k| lst({ let a: L = nsp("m", || list_map_eager(l.clone(), Rc::new(dbl))); let b: L = nsp("f", || list_filter_eager(l, Rc::new(odd))); nsp("p", || list_merge(None, a, None, nsp("r", || list_map_eager2(b, Rc::new(|x| x)) ))) }, k)),
    ("two-trees", |l, k| lst({ let t = tol(Dir2::Left, l); let l: L = nsp("q", || list_of_tree(t, Dir2::Right)); let t = nsp("x", || tol(Dir2::Left, l)); nsp("p", || list_of_tree(t, Dir2::Right)) }, k)),
];

/// what the elements must be
fn expect(p: usize, e: &[usize]) -> Option<Vec<usize>> {
    let d = |e: &[usize]| e.iter().map(|x| 2 * x + 1).collect::<Vec<_>>();
    let f = |e: &[usize]| e.iter().filter(|x| *x % 4 != 2).cloned().collect::<Vec<_>>();
    let s = |mut v: Vec<usize>| { v.sort(); v };
    let r = |mut v: Vec<usize>| { v.reverse(); v };
    Some(match PIPES[p].0 {
        "map_eager" | "map_eager2" | "map_lazy" => d(e),
        "filter_eager" | "filter_lazy" | "tree-filter_list" | "tree-filter_tree-list" => f(e),
        "reverse" | "tree-backwards" => r(e.to_vec()),
        "append" => { let mut v = d(e); v.extend(e); v }
        "tree-list" | "tree-list-right" | "tree-prune-list" | "two-trees" => e.to_vec(),
        "sort" | "sort2" | "sort3" | "prune-sort2" => s(e.to_vec()),
        "map-filter-tree-sort" => s(d(e).into_iter().filter(|x| *x > 4).collect()),
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// the input list is allocated anew, with the same names, and the functions are called again
    Realloc,
    /// the cells of the input list are changed, and the functions are called again
    SetCall,
    /// the cells of the input list are changed; the functions are called by a thunk
    SetThunk,
}
/// the contents a slot may have
const SLOT: &[&[usize]] = &[&[], &[0], &[1], &[2, 0]];

#[derive(Clone)]
pub struct Edits { pub slots: usize, pub contents: usize, pub steps: usize, pub lims: bool, pub tag: &'static str, pub pipes: Vec<usize>, pub modes: Vec<Mode>, /** one segment differs from the rest */ pub long: bool }
impl Edits { fn nstates(&self) -> u64 { if self.long { (self.slots * self.contents) as u64 + 1 } else { (self.contents as u64).pow(self.slots as u32) } } }
impl Family for Edits {
    fn name(&self) -> String { format!("{}edits-{}x{}-{}-{}{}", if self.long { "long-" } else { "" }, self.slots, self.contents, self.steps, self.tag, if self.lims { "-demand" } else { "" }) }
    fn bounds(&self) -> String { format!("{} compositions of collection functions, for {} ways to change the input ({:?}); all histories of {} states of an input list of {} named segments, each with one of {} contents{}{}; levels '{}'", self.pipes.len(), self.modes.len(), self.modes, self.steps, self.slots, self.contents, if self.long { ", where one segment differs from the usual, then none, the same segment, or another one" } else { "" }, if self.lims { "; after each change the output is demanded in full, or up to its first or its second entry" } else { "" }, self.tag) }
    fn ncases(&self) -> usize { self.pipes.len() * self.modes.len() * if self.long { 1 } else { self.nstates() as usize } }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let ns_ = if self.long { 1 } else { self.nstates() as usize };
        let p = self.pipes[i / ns_ / self.modes.len()]; let m = self.modes[i / ns_ % self.modes.len()]; let s = i % ns_;
        Some(Box::new(EditCase { f: self.clone(), a: alpha(self.tag), p, m, first: s, want: Default::default() }))
    }
}
struct EditCase { f: Edits, a: Alpha, p: usize, m: Mode, first: usize, want: std::collections::HashMap<usize, Out> }
impl EditCase {
    fn state(&self, s: usize) -> Vec<usize> {
        if self.f.long {
            let mut v: Vec<usize> = (0..self.f.slots).map(|i| 1 + i % 2).collect();
            if s > 0 { v[(s - 1) / self.f.contents] = (s - 1) % self.f.contents }
            return v
        }
        digits(s as u64, self.f.contents as u64, self.f.slots)
    }
    /// states and limits of a history
    fn decode(&self, h: u64) -> Vec<(usize, Option<usize>)> {
        let nl = if self.f.lims { 3 } else { 1 };
        let lim = |d: usize| if d == 0 { None } else { Some(d) };
        if self.f.long {
            let (i, c, k) = (h as usize / 3 / self.f.contents, h as usize / 3 % self.f.contents, h % 3);
            let st = |i: usize, c: usize| (1 + (i % self.f.slots) * self.f.contents + c % self.f.contents, None);
            return vec![(0, None), st(i, c), match k { 0 => (0, None), 1 => st(i, c + 1), _ => st(i * 7 + 3, c) }, (0, None)]
        }
        let mut v = vec![]; let mut h = h;
        for i in 0..self.f.steps {
            let s = if i == 0 { self.first } else { let s = (h % self.f.nstates()) as usize; h /= self.f.nstates(); s };
            v.push((s, lim((h % nl) as usize))); h /= nl;
        }
        v
    }
    fn seg(&self, s: usize, i: usize) -> Vec<usize> { SLOT[self.state(s)[i]].iter().map(|x| self.a.vals[*x]).collect() }
    fn list(&self, s: usize) -> V {
        let mut v = vec![];
        for i in 0..self.f.slots {
            let seg = self.seg(s, i);
            // when the list is allocated anew, an empty segment has no name
            if self.m == Mode::Realloc && seg.is_empty() { continue }
            v.push(NameElse::Name(name_of_usize(self.a.names[i])));
            v.extend(seg.into_iter().map(NameElse::Else));
        }
        v
    }
}
impl Case for EditCase {
    fn nhist(&self) -> u64 { if self.f.long { return (self.f.slots * self.f.contents * 3) as u64 } self.f.nstates().pow(self.f.steps as u32 - 1) * if self.f.lims { 3u64.pow(self.f.steps as u32) } else { 1 } }
    fn describe(&self, h: u64) -> String { format!("{} {:?} {}", PIPES[self.p].0, self.m, self.decode(h).into_iter().map(|(s, l)| format!("{:?}{}", (0..self.f.slots).map(|i| self.seg(s, i)).collect::<Vec<_>>(), match l { None => String::new(), Some(l) => format!("!{}", l) })).collect::<Vec<_>>().join(" ")) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let pipe = PIPES[self.p].1;
        let hist = self.decode(h);
        for (s, _) in &hist {
            // from scratch, under the naive engine and against the definition
            if self.want.contains_key(s) { continue }
            manage::init_naive();
            let v = self.list(*s);
            let o = pipe(list_of_vec(&v), None);
            if let Some(e) = expect(self.p, &elems(&v)) { same!(elems(&o.v), e, "naive engine, from scratch, on {:?}", v) }
            self.want.insert(*s, o);
        }
        manage::init_dcg();
        let arts: Vec<Art<L>>; let head: L; let mut thunk_: Option<Art<Out>> = None;
        let segment = |me: &EditCase, s: usize, i: usize, rest: L| -> L { let mut l = rest; for x in me.seg(s, i).into_iter().rev() { l = List::Cons(x, Box::new(l)) } l };
        if self.m == Mode::Realloc { arts = vec![]; head = L::Nil } else {
            let mut rev: Vec<Art<L>> = vec![]; let mut l = L::Nil;
            for i in (0..self.f.slots).rev() {
                let n = name_of_usize(self.a.names[i]);
                let c = cell(n.clone(), segment(self, hist[0].0, i, l));
                rev.push(c.clone());
                l = List::Name(n, Box::new(List::Art(c)));
            }
            rev.reverse(); arts = rev; head = l;
        }
        let lim_cell: Art<Option<usize>> = cell(name_of_str("limit"), None);
        for (k, (s, lim)) in hist.iter().enumerate() {
            let before = RUNS.with(|r| r.get());
            if k > 0 && self.m != Mode::Realloc {
                for i in 0..self.f.slots {
                    if self.seg(hist[k - 1].0, i) != self.seg(*s, i) {
                        let rest = if i + 1 < self.f.slots { List::Name(name_of_usize(self.a.names[i + 1]), Box::new(List::Art(arts[i + 1].clone()))) } else { L::Nil };
                        set(&arts[i], segment(self, *s, i, rest));
                        cx.step();
                    }
                }
            }
            let got = match self.m {
                Mode::Realloc => pipe(list_of_vec(&self.list(*s)), *lim),
                Mode::SetCall => pipe(head.clone(), *lim),
                Mode::SetThunk => {
                    set(&lim_cell, *lim);
                    if thunk_.is_none() {
                        let (hd, lc) = (head.clone(), lim_cell.clone());
                        thunk_ = Some(thunk(NameChoice::Nominal(name_of_str("main")), prog_pt!("main"), Rc::new(Box::new(move |(), ()| pipe(hd.clone(), force(&lc)))), (), ()));
                    }
                    force(thunk_.as_ref().unwrap())
                }
            };
            cx.step();
            let mut want = self.want[s].clone();
            if let Some(l) = lim { want.v.truncate(*l) }
            if got != want { return Err(format!("after step {}: {:?}, from scratch {:?}", k, got, want)) }
            let runs = RUNS.with(|r| r.get()) - before;
            if k > 0 && self.m == Mode::SetThunk && hist[k - 1] == hist[k] {
                check!(runs == 0, "after step {}: {} runs of user functions although nothing changed", k, runs);
            }
            // maps and filters run again for the changed segments and those before them
            if k > 0 && self.m == Mode::SetThunk && self.p < 5 && hist[..k + 1].iter().all(|x| x.1.is_none()) {
                let changed = |i: usize| self.seg(hist[k - 1].0, i) != self.seg(*s, i);
                let bound: usize = (0..self.f.slots).filter(|i| changed(*i) || *i + 1 < self.f.slots && changed(*i + 1)).map(|i| self.seg(*s, i).len()).sum();
                check!(runs as usize <= bound, "after step {}: {} runs of the user function, where at most {} elements are in or before changed segments", k, runs, bound);
                cx.count("cost bounds checked", 1);
            }
        }
        // a second demand of everything changes nothing
        if self.m == Mode::SetCall || self.m == Mode::Realloc {
            let s = hist.last().unwrap().0;
            let l = if self.m == Mode::SetCall { head.clone() } else { list_of_vec(&self.list(s)) };
            let got = pipe(l, None);
            if got != self.want[&s] { return Err(format!("called again in the end: {:?}, from scratch {:?}", got, self.want[&s])) }
        }
        cx.state(&(h, self.p));
        cx.outcome(&self.want[&hist.last().unwrap().0]);
        Ok(())
    }
}
pub fn edits(slots: usize, contents: usize, steps: usize, lims: bool, tag: &'static str) -> Edits {
    let lazy = ["map_lazy", "filter_lazy", "merge", "sort", "prune-sort2", "sort3", "map-filter-tree-sort"];
    let pipes = (0..PIPES.len()).filter(|p| !lims || lazy.contains(&PIPES[*p].0)).collect();
    Edits { slots, contents, steps, lims, tag, pipes, modes: vec![Mode::Realloc, Mode::SetCall, Mode::SetThunk], long: false }
}
pub fn long_edits(slots: usize) -> Edits { Edits { long: true, ..edits(slots, 4, 4, false, "many") } }
