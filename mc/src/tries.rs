//! Bit strings and tries (C21), maps and sets over lists (C22).

use crate::core::*;
use crate::coll::nsp;
use adapton::catalog::bitstring::*;
use adapton::catalog::collections as coll;
use adapton::catalog::collections::trie::*;
use adapton::catalog::collections::{List, ListIntro, ListElim};
use adapton::engine::*;
use adapton::macros::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------------ bit strings

/// all bit strings of one length
pub fn bits(max: i64) -> FnFamily<i64> {
    FnFamily { name: format!("bit-strings-{}", max), bounds: format!("all bit strings of at most {} bits (every operation against the sequence of bits: prepending both bits, testing and flipping every bit, every shift)", max), items: (0..max + 1).collect(), show: |n| format!("length {}", n), run: |n, cx| {
        let n = *n;
        for v in 0..1i64 << n { one(n, v, n + 1)?; }
        cx.transitions += (1 << n) * (2 * n as u64 + 4); cx.states += 1 << n; cx.outcome(&n);
        Ok(())
    } }
}
/// long bit strings with few ones, few zeros, or ones only at one end
pub fn long_bits() -> FnFamily<i64> {
    FnFamily { name: "long-bit-strings".into(), bounds: "all lengths from 0 to 30: the strings with at most two ones, with at most two zeros, and with all ones at one end".into(), items: (0..31).collect(), show: |n| format!("length {}", n), run: |n, cx| {
        let n = *n; let all = (1i64 << n) - 1;
        let mut vs: BTreeSet<i64> = BTreeSet::new();
        for i in 0..n { for j in 0..n { let v = 1 << i | 1 << j; vs.insert(v); vs.insert(all & !v); } vs.insert((1 << i) - 1); vs.insert(all & !((1 << i) - 1)); }
        vs.insert(0); vs.insert(all);
        for v in &vs { one(n, *v, n + 1)?; }
        cx.transitions += vs.len() as u64 * (2 * n as u64 + 4); cx.states += vs.len() as u64; cx.outcome(&n);
        Ok(())
    } }
}
fn vec(b: BS) -> Vec<bool> { (0..b.length).map(|i| b.value >> i & 1 == 1).collect() }
fn bs(v: &[bool]) -> BS { BS { length: v.len() as i64, value: v.iter().enumerate().map(|(i, b)| (*b as i64) << i).sum() } }
fn one(n: i64, v: i64, upto: i64) -> R {
    let b = BS { length: n, value: v };
    let m = vec(b);
    check!(BS::length(b) == n, "the length of {:?} is {}", b, BS::length(b));
    for x in 0..2 { if n < 60 {
        let p = BS::prepend(x, b);
        let mut w = m.clone(); w.push(x == 1);
        check!(p == bs(&w), "prepend of {} to {:?} gives {:?}, expected {:?}", x, b, p, bs(&w));
        check!(p != b && BS::prepend(1 - x, b) != p, "prepend of {} to {:?} is not a new string", x, b);
    } }
    for i in 0..upto {
        let set = i < n && m[i as usize];
        check!(BS::is_set(i, v) == set, "bit {} of {:?} is reported as {}", i, b, BS::is_set(i, v));
        let f = BS::flip(i, v);
        check!(f == v ^ 1 << i, "flip of bit {} of {} gives {}", i, v, f);
        check!(BS::flip(i, f) == v, "flipping bit {} of {} twice gives {}", i, v, BS::flip(i, f));
        let s = BS::shift_left(b, i);
        let mut w = vec![false; (i.min(n)) as usize]; w.extend(m.iter().take((n - i).max(0) as usize));
        check!(s == bs(&w), "shift_left of {:?} by {} gives {:?}, expected {:?}", b, i, s, bs(&w));
    }
    Ok(())
}
pub fn pows() -> FnFamily<i64> {
    FnFamily { name: "powers".into(), bounds: "pow(b, n) for every b from -12 to 12 and every n whose power fits".into(), items: (-12..13).collect(), show: |b| format!("base {}", b), run: |b, cx| {
        let mut p: i64 = 1;
        for n in 0..63 {
            check!(BS::pow(*b, n) == p, "pow({}, {}) is {}, expected {}", b, n, BS::pow(*b, n), p);
            cx.transitions += 1; cx.states += 1;
            p = match p.checked_mul(*b) { Some(q) if q.checked_abs().map_or(false, |x| x < 1 << 62) => q, _ => break };
        }
        cx.outcome(b);
        Ok(())
    } }
}

// ------------------------------------------------------------ tries

/// An element whose hash (the place in the trie) has the low bits of `.0`.
type X = usize;
fn hash_bits(x: &X) -> i64 { h64(x) as i64 }
/// `n` elements: the first whose hashes end in the given patterns of low bits
fn universe() -> Vec<X> {
    let pats: &[(i64, u32)] = &[(0b000, 3), (0b100, 3), (0b010, 3), (0b01, 2), (0b0111, 4), (0b1111, 4), (0b0000, 4)];
    let mut v = vec![]; let mut x = 1;
    for (p, n) in pats { while hash_bits(&x) & ((1 << n) - 1) != *p || v.contains(&x) { x += 1 } v.push(x); x = 1 }
    v
}
/// Insertion as in the papers: split a leaf until the two elements part.
fn insert(t: Trie<X>, bs: BS, min: i64, x: X, h: i64) -> Trie<X> {
    match t {
        Trie::Nil(_) if bs.length < min => {
            let (b0, b1) = (BS::prepend(0, bs), BS::prepend(1, bs));
            let t = Trie::bin(bs, Trie::nil(b0), Trie::nil(b1));
            insert(t, bs, min, x, h)
        }
        Trie::Nil(_) => Trie::leaf(bs, x),
        Trie::Leaf(_, e) => if e == x { Trie::leaf(bs, e) } else { insert(Trie::split_atomic(Trie::leaf(bs, e)), bs, min, x, h) },
        Trie::Bin(_, l, r) => if h % 2 == 0 { Trie::bin(bs, insert(*l, BS::prepend(0, bs), min, x, h >> 1), *r) } else { Trie::bin(bs, *l, insert(*r, BS::prepend(1, bs), min, x, h >> 1)) },
        t => t,
    }
}
/// the canonical trie of a set, with names and articulations at the chosen inner places
fn trie_of(xs: &[X], min: i64, deco: usize) -> Trie<X> {
    let mut t = Trie::nil(BS { length: 0, value: 0 });
    for x in xs { t = insert(t, BS { length: 0, value: 0 }, min, *x, hash_bits(x)) }
    let mut c = 0;
    let t = decorate(t, deco, &mut c);
    Trie::root(Meta { min_depth: min }, t)
}
fn decorate(t: Trie<X>, deco: usize, c: &mut usize) -> Trie<X> {
    *c += 1; let k = *c;
    let here = deco >> ((k - 1) % 6) & 1 == 1;
    let t = match t { Trie::Bin(b, l, r) => { let l = decorate(*l, deco, c); let r = decorate(*r, deco, c); Trie::bin(b, l, r) } t => t };
    if here { let n = name_of_usize(k); Trie::name(n.clone(), Trie::art(cell(n, t))) } else { t }
}
fn order(t: &Trie<X>) -> Vec<X> { match t {
    Trie::Nil(_) => vec![], Trie::Leaf(_, x) => vec![*x],
    Trie::Bin(_, l, r) => { let mut v = order(l); v.extend(order(r)); v }
    Trie::Root(_, t) | Trie::Name(_, t) => order(t), Trie::Art(a) => order(&force(a)),
} }
fn bins(t: &Trie<X>) -> usize { match t { Trie::Bin(_, l, r) => 1 + bins(l) + bins(r), Trie::Root(_, t) | Trie::Name(_, t) => bins(t), Trie::Art(a) => bins(&force(a)), _ => 0 } }
/// every leaf is where the hash of its element says; every position is labelled with its path
fn placed(t: &Trie<X>, bs: BS) -> R { match t {
    Trie::Nil(b) => ensure(*b == bs, || format!("an empty leaf at {:?} is labelled {:?}", bs, b)),
    Trie::Leaf(b, x) => ensure(*b == bs && hash_bits(x) & ((1 << bs.length) - 1) == bs.value, || format!("the leaf of {}, whose hash ends in {:b}, is at {:?}, labelled {:?}", x, hash_bits(x) & 0xff, bs, b)),
    Trie::Bin(b, l, r) => { check!(*b == bs, "a branch at {:?} is labelled {:?}", bs, b); placed(l, BS::prepend(0, bs))?; placed(r, BS::prepend(1, bs)) }
    Trie::Root(_, t) | Trie::Name(_, t) => placed(t, bs),
    Trie::Art(a) => placed(&force(a), bs),
} }

fn subset(u: &[X], m: usize) -> Vec<X> { u.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect() }
macro_rules! same { ($got:expr, $want:expr, $($w:tt)*) => { { let g = $got; let w = $want; if g != w { return Err(format!("{}: {:?}, expected {:?}", format!($($w)*), g, w)) } } } }

fn queries(t: &Trie<X>, s: &[X], u: &[X], tag: usize) -> R {
    let mut want: Vec<X> = s.to_vec(); want.sort();
    for x in u {
        same!(SetElim::mem(t, x), s.contains(x), "membership of {}", x);
        same!(Trie::find(t, x, hash_bits(x)), if s.contains(x) { Some(*x) } else { None }, "find of {}", x);
    }
    // (a branch of two empty tries is not canonical: no operation makes one)
    if !(s.is_empty() && bins(t) > 0) { same!(Trie::<X>::is_empty(t), s.is_empty(), "is_empty") }
    let o = order(t);
    let f = Rc::new(|x: X, mut r: Vec<X>| { r.push(x); r });
    same!(SetElim::fold(t.clone(), vec![], f.clone()), o.clone(), "fold");
    let tf: Vec<X> = ns(name_pair(name_of_str("fold"), name_of_usize(tag)), || trie_fold(t.clone(), vec![], f.clone()));
    same!(tf, o.clone(), "trie_fold");
    let mut o2 = o; o2.sort();
    same!(o2, want, "the elements");
    Ok(())
}
pub fn tries(n: usize, decos: &'static [usize]) -> FnFamily<(usize, usize)> {
    let k = 1usize << n;
    FnFamily { name: format!("tries-{}-{}", n, decos.len()), bounds: format!("all subsets of {} elements (with hashes that part after 1 to 4 bits), {} placements of names and articulations, minimum depths 1 to 3, both orders of insertion (splitting leaves), both engines: membership, find, emptiness, both folds, equality and hash, leaves placed by their hashes", n, decos.len()), items: (0..k).flat_map(|s| (0..decos.len()).map(move |d| (s, decos[d]))).collect(), show: |x| format!("subset {:b} decoration {:b}", x.0, x.1), run: |x, cx| {
        let u = universe();
        let mut s = subset(&u, x.0);
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            for min in 1..4 {
                let t = nsp("t", || trie_of(&s, min, x.1));
                placed(&t, BS { length: 0, value: 0 })?;
                queries(&t, &s, &u, min as usize)?;
                s.reverse();
                let t2 = nsp("t", || trie_of(&s, min, x.1));
                queries(&t2, &s, &u, 10 + min as usize)?;
                // the same set, built in the other order, is the same trie
                if x.1 == 0 || dcg == 1 {
                    check!(t == t2, "tries of one set built in two orders differ: {:?} {:?}", t, t2);
                    check!(h64(&t) == h64(&t2), "equal tries hash differently: {:?}", t);
                }
                if !s.is_empty() && x.1 == 0 {
                    let t3 = trie_of(&s[1..], min, 0);
                    check!(t3 != t, "tries of different sets are equal: {:?}", t);
                }
                cx.transitions += 40; cx.states += 2;
            }
            // splitting
            for e in &s {
                let l = Trie::leaf(BS { length: 0, value: 0 }, *e);
                let mut t = l; let mut path = BS { length: 0, value: 0 };
                for _ in 0..8 {
                    t = Trie::split_atomic(t);
                    placed(&t, path)?;
                    same!(order(&t), vec![*e], "the elements after split_atomic");
                    same!(Trie::split_atomic(t.clone()), t.clone(), "split_atomic of a branch");
                    let b = hash_bits(e) >> path.length & 1;
                    t = match t { Trie::Bin(_, l, r) => if b == 0 { *l } else { *r }, t => return Err(format!("split_atomic gives {:?}", t)) };
                    path = BS::prepend(b, path);
                }
            }
            for m in 0..5 {
                let e: Trie<X> = nsp("empty", || TrieIntro::empty(Meta { min_depth: m }));
                queries(&e, &[], &u, 100 + m as usize)?;
            }
            let e: Trie<X> = nsp("empty", || SetIntro::empty());
            queries(&e, &[], &u, 200)?;
        }
        cx.outcome(x);
        Ok(())
    } }
}

/// Tries whose four parts are in cells; histories of edits; the fold is demanded by the root or by a thunk.
pub struct TrieEdits { pub per: usize, pub steps: usize }
struct TrieEditsCase { per: usize, steps: usize, first: usize, mode: usize }
impl TrieEdits { fn parts(per: usize) -> Vec<Vec<X>> {
    // elements by their two low bits
    let mut v = vec![vec![]; 4]; let mut x = 1;
    while v.iter().any(|p| p.len() < per) { let k = (hash_bits(&x) & 3) as usize; if v[k].len() < per { v[k].push(x) } x += 1 }
    v
} }
impl Family for TrieEdits {
    fn name(&self) -> String { format!("trie-edits-{}-{}", self.per, self.steps) }
    fn bounds(&self) -> String { format!("tries whose lower and upper half are in named cells, each half over {} elements: all histories of {} states of the two halves; fold, membership demanded by the root, or fold by a thunk", 2 * self.per, self.steps) }
    fn ncases(&self) -> usize { 2 << (4 * self.per) }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> { Some(Box::new(TrieEditsCase { per: self.per, steps: self.steps, first: i >> 1, mode: i & 1 })) }
}
impl Case for TrieEditsCase {
    fn nhist(&self) -> u64 { 1u64 << (4 * self.per * (self.steps - 1)) }
    fn describe(&self, h: u64) -> String { format!("states {:x} {:x} mode {}", self.first, h, self.mode) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let b = 4 * self.per; let parts = TrieEdits::parts(self.per);
        let u: Vec<X> = parts.iter().flat_map(|p| p.iter().cloned()).collect();
        let mut states = vec![self.first];
        for i in 0..self.steps - 1 { states.push((h >> (b * i)) as usize & ((1 << b) - 1)) }
        manage::init_dcg();
        let set_of = |s: usize| -> Vec<X> { subset(&u, s) };
        let half = |s: usize, bit: i64| -> Trie<X> {
            let z = BS { length: 0, value: 0 };
            let mut t = Trie::nil(z);
            for x in set_of(s) { t = insert(t, z, 2, x, hash_bits(&x)) }
            match t { Trie::Bin(_, l, r) => if bit == 0 { *l } else { *r }, _ => Trie::nil(BS::prepend(bit, z)) }
        };
        let z = BS { length: 0, value: 0 };
        let cells: Vec<Art<Trie<X>>> = (0..2).map(|k| cell(name_of_usize(k), half(states[0], k as i64))).collect();
        let side = |k: usize| Trie::name(name_of_usize(k), Trie::art(cells[k].clone()));
        let t: Trie<X> = Trie::root(Meta { min_depth: 2 }, Trie::bin(z, side(0), side(1)));
        let t2 = t.clone();
        let main = thunk(NameChoice::Nominal(name_of_str("main")), prog_pt!("main"), Rc::new(Box::new(move |(), ()| nsp("fold", || trie_fold(t2.clone(), vec![], Rc::new(|x: X, mut r: Vec<X>| { r.push(x); r }))))), (), ());
        for (k, s) in states.iter().enumerate() {
            for j in 0..2 { if k > 0 { set(&cells[j], half(*s, j as i64)) } }
            let want = set_of(*s);
            if self.mode == 0 { queries(&t, &want, &u, 0).map_err(|e| format!("step {}: {}", k, e))? }
            else {
                let mut got: Vec<X> = force(&main); let o = order(&t);
                check!(got == o, "step {}: the fold gives {:?}, in order {:?}", k, got, o);
                got.sort(); let mut w = want; w.sort();
                check!(got == w, "step {}: the fold gives {:?}, expected {:?}", k, got, w);
            }
            cx.step();
        }
        cx.state(&(h, self.first)); cx.outcome(&states[self.steps - 1]);
        Ok(())
    }
}

// ------------------------------------------------------------ maps and sets over lists

type M = List<(usize, usize)>;
type S = List<(usize, ())>;
/// an update: key, value; or wrap the map so far in a name and an articulation (3) an articulation only (4), or a name only (5)
fn apply(ops: &[usize], nk: usize) -> (M, BTreeMap<usize, usize>) {
    let mut m: M = coll::map_empty(); let mut o = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        if *op < nk * 2 { m = coll::map_update(m, op / 2, 10 * (op % 2) + op / 2); o.insert(op / 2, 10 * (op % 2) + op / 2); }
        else if *op == nk * 2 { m = <M as ListIntro<(usize, usize)>>::name_art(Some(name_of_usize(i)), m) }
        else if *op == nk * 2 + 1 { m = <M as ListIntro<(usize, usize)>>::art(cell(name_of_usize(i), m)) }
        else { m = <M as ListIntro<(usize, usize)>>::name(name_of_usize(i), m) }
    }
    (m, o)
}
pub fn maps(len: usize, nk: usize) -> FnFamily<(usize, Vec<usize>)> {
    let n = nk * 2 + 3;
    let mut items = vec![];
    for l in 0..len + 1 { for h in 0..(n as u64).pow(l as u32) { items.push((nk, digits(h, n as u64, l))) } }
    FnFamily { name: format!("maps-{}-{}", len, nk), bounds: format!("all sequences of at most {} updates of {} keys with two values, with names and articulations in between, both engines: find of every key, fold", len, nk), items, show: |x| format!("{:?}", x), run: |x, cx| {
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            let (m, o) = apply(&x.1, x.0);
            for k in 0..x.0 + 1 { same!(coll::map_find(&m, &k), o.get(&k).cloned(), "find of {}", k) }
            // later bindings are visited after the earlier ones that they shadow
            let f = coll::map_fold(m.clone(), BTreeMap::new(), Rc::new(|k: usize, v: usize, mut r: BTreeMap<usize, usize>| { r.insert(k, v); r }));
            same!(f, o.clone(), "fold");
            same!(<M as ListElim<(usize, usize)>>::is_empty(&m), o.is_empty(), "emptiness");
            cx.transitions += x.0 as u64 + 3; cx.states += 1;
        }
        cx.outcome(&x.1);
        Ok(())
    } }
}
pub fn sets(n: usize) -> FnFamily<(usize, usize, usize, usize)> {
    let mut items = vec![];
    for a in 0..1usize << n { for b in 0..1 << n { for d in 0..8 { items.push((n, a, b, d)) } } }
    FnFamily { name: format!("sets-{}", n), bounds: format!("all pairs of subsets of {} elements, 8 placements of names and articulations, both engines: membership, addition, intersection, fold", n), items, show: |x| format!("{:?}", x), run: |x, cx| {
        use adapton::catalog::collections::{SetIntro as SI, SetElim as SE};
        let (n, a, b, d) = *x;
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            let mk = |m: usize, off: usize| -> S {
                let mut s: S = SI::empty();
                for i in 0..n { if m >> i & 1 == 1 {
                    s = SI::add(s, i);
                    if d & 1 == 1 { s = <S as ListIntro<(usize, ())>>::name_art(Some(name_of_usize(off + i)), s) }
                    if d & 4 == 4 { s = <S as ListIntro<(usize, ())>>::name(name_of_usize(off + 20 + i), s) }
                    if d & 2 == 2 { s = <S as ListIntro<(usize, ())>>::art(cell(name_of_usize(off + 50 + i), s)) }
                } }
                s
            };
            let (s, t) = (mk(a, 0), mk(b, 100));
            let el = |s: &S| -> BTreeSet<usize> { SE::fold(s.clone(), BTreeSet::new(), |x: usize, mut r: BTreeSet<usize>| { r.insert(x); r }) };
            let bits = |m: usize| -> BTreeSet<usize> { (0..n).filter(|i| m >> i & 1 == 1).collect() };
            same!(el(&s), bits(a), "fold of a set");
            for i in 0..n { same!(SE::is_mem(&s, &i), a >> i & 1 == 1, "membership of {}", i) }
            let st: S = SI::inter(s.clone(), t.clone());
            same!(el(&st), bits(a & b), "intersection");
            for i in 0..n { same!(SE::is_mem(&st, &i), (a & b) >> i & 1 == 1, "membership of {} in the intersection", i) }
            same!(SE::fold(s.clone(), 0usize, |_: usize, r: usize| r + 1), bits(a).len(), "number of elements");
            same!(el(&t), bits(b), "fold of the other set afterwards");
            cx.transitions += 4 + 2 * n as u64; cx.states += 1;
        }
        cx.outcome(&(a, b));
        Ok(())
    } }
}

/// tries of every size
pub fn long_tries(max: usize) -> FnFamily<(usize, usize)> {
    let mut items = vec![];
    for n in crate::scale::sizes(max) { for deco in 0..3 { items.push((n, deco)) } }
    FnFamily { name: format!("big-tries-{}", max), bounds: format!("tries of the first n elements, for every n up to 20 and around the multiples of 16 up to {}; with and without names and articulations; minimum depths 1 to 3; two orders of insertion; both engines: membership of every element and of others, lookup, folds, placement, equality", max), items, show: |x| format!("{:?}", x), run: |x, cx| {
        let (n, d) = (x.0, [0, 63, 42][x.1]);
        let u: Vec<X> = (1..n + 9).collect();
        let mut s: Vec<X> = (0..n).map(|i| 1 + i).collect();
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            for min in 1..4 {
                let t = nsp("t", || trie_of(&s, min, d));
                placed(&t, BS { length: 0, value: 0 })?;
                queries(&t, &s, &u, min as usize)?;
                s.reverse();
                let t2 = nsp("t", || trie_of(&s, min, d));
                queries(&t2, &s, &u, 10 + min as usize)?;
                if d == 0 || dcg == 1 { check!(t == t2 && h64(&t) == h64(&t2), "tries of one set built in two orders differ") }
                if d == 0 { check!(trie_of(&s[1..], min, 0) != t, "tries of different sets are equal") }
                cx.transitions += 40; cx.states += 2;
            }
        }
        cx.outcome(x);
        Ok(())
    } }
}
/// maps and sets of every size
pub fn long_maps(max: usize) -> FnFamily<(usize, usize)> {
    let mut items = vec![];
    for n in crate::scale::sizes(max) { for how in 0..4 { items.push((n, how)) } }
    FnFamily { name: format!("big-maps-{}", max), bounds: format!("maps with n updates (of n keys, or of n/2 keys twice) and sets of n elements, for every n up to 20 and around the multiples of 16 up to {}; without and with names and articulations in between; both engines: find of every key, fold, membership, intersection", max), items, show: |x| format!("{:?}", x), run: |x, cx| {
        use adapton::catalog::collections::{SetIntro as SI, SetElim as SE};
        let (n, how) = *x;
        let nk = if how & 1 == 0 { n } else { n / 2 + 1 };
        let mut ops = vec![];
        for i in 0..n { ops.push(2 * (i * 7 % nk) + i / nk % 2); if how & 2 == 2 { ops.push(2 * nk + i % 3) } }
        for dcg in 0..2 {
            if dcg == 0 { manage::init_naive(); } else { manage::init_dcg(); }
            let (m, o) = apply(&ops, nk);
            for k in 0..nk + 1 { same!(coll::map_find(&m, &k), o.get(&k).cloned(), "find of {}", k) }
            let f = coll::map_fold(m.clone(), BTreeMap::new(), Rc::new(|k: usize, v: usize, mut r: BTreeMap<usize, usize>| { r.insert(k, v); r }));
            same!(f, o.clone(), "fold");
            let mk = |from: usize, step: usize, off: usize| -> S { let mut s: S = SI::empty(); for i in 0..n { s = SI::add(s, from + step * i); if how & 2 == 2 && i % 2 == 0 { s = <S as ListIntro<(usize, ())>>::name_art(Some(name_of_usize(off + i)), s) } } s };
            let (s, t) = (mk(0, 1, 1000), mk(n / 2, 2, 2000));
            let el = |s: &S| -> BTreeSet<usize> { SE::fold(s.clone(), BTreeSet::new(), |x: usize, mut r: BTreeSet<usize>| { r.insert(x); r }) };
            let (bs, bt): (BTreeSet<usize>, BTreeSet<usize>) = ((0..n).collect(), (0..n).map(|i| n / 2 + 2 * i).collect());
            same!(el(&s), bs.clone(), "fold of a set"); same!(el(&t), bt.clone(), "fold of a set");
            for i in 0..3 * n { same!(SE::is_mem(&t, &i), bt.contains(&i), "membership of {}", i) }
            let st: S = SI::inter(s.clone(), t.clone());
            same!(el(&st), bs.intersection(&bt).cloned().collect::<BTreeSet<_>>(), "intersection");
            same!(SE::fold(s.clone(), 0usize, |_: usize, r: usize| r + 1), n, "number of elements");
            cx.transitions += 4 * n as u64; cx.states += 1;
        }
        cx.outcome(x);
        Ok(())
    } }
}
