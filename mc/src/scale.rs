//! The size axis: programs of one shape and of every size up to a bound, with
//! every single edit (and what goes wrong only beyond some number of cells,
//! edges, arguments, namespaces or edits).

use crate::core::*;
use crate::pfam::*;
use crate::prog::*;
use std::rc::Rc;

pub fn sizes(max: usize) -> Vec<usize> { (1..max + 1).filter(|n| *n <= 20 || *n % 16 <= 1 || *n % 16 == 15).collect() }
fn k(i: i64) -> E { E::K(i) }
fn add(a: E, b: E) -> E { E::Add(bx(a), bx(b)) }
fn mul(a: E, b: E) -> E { E::Mul(bx(a), bx(b)) }
fn sum(es: Vec<E>) -> E { es.into_iter().fold(k(0), add) }
fn g(e: E) -> E { E::Get(bx(e)) }
fn rf(i: usize) -> E { E::Ref(i as u8) }

pub const SHAPES: &[&str] = &["chain", "fan-in", "fan-out", "lattice", "repeated", "cells", "thunks", "arguments", "namespaces", "deep-names", "wide-names", "toggles", "structural-chain", "structural-fan", "returned", "naive", "pairs", "mapped", "switches", "roots"];
pub const ABS: &[&str] = &["absolute-pairs", "absolute-mapped"];

/// program, contents of the editor's names, roots, histories
fn shape(s: &str, n: usize) -> (Vec<E>, Vec<C>, Vec<u8>, Vec<Vec<Op>>) {
    use crate::pfam::Op::*;
    let c = |i: i64| C::Cell(RV::I(i));
    let set = |i: usize, v: i64| Set(i as u8, RV::I(v));
    let d = |i: usize| Demand(i as u8);
    // edits of the editor's cells, one or two at a time, and demands of the last root
    let cells_of = |m: usize, top: usize| -> Vec<Vec<Op>> {
        let mut h = vec![];
        for i in 0..m {
            h.push(vec![d(top), set(i, 1), d(top)]);
            h.push(vec![d(top), set(i, 2), set(i, 0), d(top), set(i, 3), d(top), set(i, 0), d(top)]);
            let j = (i * 7 + 3) % m;
            h.push(vec![d(top), set(i, 2), set(j, 1), d(top), set(j, 0), d(top)]);
        }
        let mut all: Vec<Op> = (0..m).map(|i| set(i, 1)).collect();
        all.insert(0, d(top)); all.push(d(top)); all.push(set(m / 2, 5)); all.push(d(top));
        h.push(all);
        h
    };
    let names = |m: usize| -> Vec<C> { let mut v: Vec<C> = (0..m).map(|_| c(0)).collect(); v.push(th(0)); v };
    // one cell, and thunks that are demanded in the middle
    let mid = |m: usize, top: usize, ps: Vec<usize>| -> Vec<Vec<Op>> {
        let mut h = vec![];
        for p in ps { h.push(vec![d(top), set(0, 1), d(p), d(top)]); h.push(vec![d(p), set(0, 1), d(top), set(0, 0), d(p), set(0, 1), d(top)]); h.push(vec![d(top), set(0, 1), d(p), set(0, 0), d(top), set(0, 2), d(top)]); }
        let _ = m; h
    };
    match s {
        "chain" => {
            let fs = (0..n).map(|i| add(g(rf(i)), k(1))).collect();
            let mut l = vec![c(0)]; l.extend((0..n).map(|i| th(i as u8)));
            (fs, l, (1..n + 1).map(|i| i as u8).collect(), mid(n, n, (1..n + 1).collect()))
        }
        "fan-in" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(rf(i)))).collect())], names(n), vec![n as u8], cells_of(n, n)),
        // every second cell is read only if the one before it is odd
        "switches" => (vec![sum((0..n).map(|i| if i % 2 == 0 { mul(k(i as i64 + 1), g(rf(i))) } else { E::If(bx(E::Mod2(bx(g(rf(i - 1))))), bx(g(rf(i))), bx(k(9))) }).collect())], names(n), vec![n as u8], cells_of(n, n)),
        "fan-out" => {
            let mut fs: Vec<E> = (0..n).map(|i| add(g(rf(0)), k(i as i64))).collect();
            fs.push(sum((0..n).map(|i| mul(k(i as i64 + 1), g(rf(i + 1)))).collect()));
            let mut l = vec![c(0)]; l.extend((0..n + 1).map(|i| th(i as u8)));
            (fs, l, (1..n + 2).map(|i| i as u8).collect(), mid(n, n + 1, (1..n + 1).collect()))
        }
        // many observers, each demanded on its own
        "roots" => {
            let fs: Vec<E> = (0..n).map(|i| add(g(rf(0)), k(i as i64))).collect();
            let mut l = vec![c(0)]; l.extend((0..n).map(|i| th(i as u8)));
            let mut all: Vec<Op> = (1..n + 1).map(d).collect();
            let mut h = vec![];
            for p in 1..n + 1 { let mut x = all.clone(); x.push(set(0, 1)); x.push(d(p)); x.push(d(1 + (p * 7) % n)); x.push(set(0, 2)); x.push(d(p)); h.push(x) }
            let b = all.clone(); all.push(set(0, 1)); all.extend(b.iter().rev().cloned()); h.push(all);
            (fs, l, (1..n + 1).map(|i| i as u8).collect(), h)
        }
        "lattice" => {
            let mut fs = vec![];
            for i in 0..n { let (a, b) = if i == 0 { (0, 0) } else { (2 * i - 1, 2 * i) };
                fs.push(add(E::Half(bx(add(g(rf(a)), g(rf(b))))), k(1))); fs.push(E::Mod2(bx(add(g(rf(a)), g(rf(b)))))); }
            let mut l = vec![c(0)]; l.extend((0..2 * n).map(|i| th(i as u8)));
            (fs, l, (1..2 * n + 1).map(|i| i as u8).collect(), mid(2 * n, 2 * n, (1..2 * n + 1).collect()))
        }
        "repeated" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(rf(i % 2)))).collect())], names(2), vec![2], cells_of(2, 2)),
        "cells" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(E::Cell(i as u8, bx(g(rf(i))))))).collect())], names(n), vec![n as u8], cells_of(n, n)),
        "thunks" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(E::Thunk(i as u8, 1, vec![g(rf(i))])))).collect()), add(E::Arg(0), k(1))], names(n), vec![n as u8], cells_of(n, n)),
        "arguments" => (vec![g(E::Thunk(0, 1, (0..n).map(|i| g(rf(i))).collect())), sum((0..n).map(|i| mul(k(i as i64 + 1), E::Arg(i as u8))).collect())], names(n), vec![n as u8], cells_of(n, n)),
        "namespaces" => {
            let mut e = g(E::Cell(0, bx(g(rf(0)))));
            for i in 0..n { e = add(E::Ns((n - i) as u8, bx(e)), g(E::Cell(1, bx(k(i as i64))))); if i + 1 < n { e = add(e, mul(k(3), g(E::Thunk(2, 1, vec![g(rf(1))])))) } }
            (vec![e, E::Arg(0)], names(2), vec![2], cells_of(2, 2))
        }
        // two cells and two thunks with the same name in siblings of a namespace of depth n
        "deep-names" => {
            let leaf = |i: u8| E::Ns(200 + i, bx(E::Cell(1, bx(g(rf(i as usize))))));
            let work = |i: u8| E::Ns(202 + i, bx(E::Thunk(2, 2, vec![g(rf(i as usize))])));
            let mut e = g(E::Thunk(5, 1, vec![leaf(0), leaf(1), work(0), work(1)]));
            for i in 0..n { e = E::Ns(i as u8, bx(e)) }
            (vec![e, (0..4).fold(k(0), |a, i| add(mul(k(7), a), g(E::Arg(i)))), g(E::Cell(3, bx(add(E::Arg(0), k(1)))))], names(2), vec![2], cells_of(2, 2))
        }
        // the same name in n siblings
        "wide-names" => {
            let e = g(E::Thunk(5, 1, (0..n).map(|i| E::Ns(i as u8, bx(if i % 3 == 1 { E::Thunk(2, 2, vec![g(rf(i))]) } else { E::Cell(1, bx(g(rf(i)))) }))).collect()));
            (vec![e, sum((0..n).map(|i| mul(k(i as i64 + 1), g(E::Arg(i as u8)))).collect()), g(E::Cell(3, bx(add(E::Arg(0), k(1)))))], names(n), vec![n as u8], cells_of(n, n))
        }
        // as many edits as there are
        "toggles" => {
            let fs = vec![add(E::Half(bx(g(rf(0)))), k(1)), add(g(rf(1)), g(rf(0))), mul(g(rf(2)), k(3))];
            let l = vec![c(0), th(0), th(1), th(2)];
            let tog = |a: i64, b: i64, dm: usize| -> Vec<Op> { let mut v = vec![d(3)]; for i in 0..n { v.push(set(0, if i % 2 == 0 { a } else { b })); if dm > 0 && i % dm == 0 { v.push(d(3 - i % 3)) } } v.push(d(3)); v };
            (fs, l, vec![1, 2, 3], vec![tog(1, 0, 0), tog(2, 0, 0), tog(1, 0, 1), tog(2, 0, 1), tog(3, 1, 2), tog(2, 0, 3)])
        }
        "structural-chain" => (vec![g(E::SThunk(1, vec![k(n as i64)])), E::If(bx(E::Arg(0)), bx(add(k(1), g(E::SThunk(1, vec![add(E::Arg(0), k(-1))])))), bx(g(rf(0))))], names(1), vec![1], cells_of(1, 1)),
        "structural-fan" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(E::SThunk(1, vec![k(i as i64 % 11)])))).collect()), add(E::Arg(0), g(rf(0)))], names(1), vec![1], cells_of(1, 1)),
        "returned" => {
            let fs: Vec<E> = (0..n).map(|i| if i == 0 { g(rf(0)) } else { rf(i) }).collect();
            let mut l = vec![c(0)]; l.extend((0..n).map(|i| th(i as u8)));
            (fs, l, (1..n + 1).map(|i| i as u8).collect(), mid(n, n, (1..n + 1).collect()))
        }
        "naive" => (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), g(E::NThunk(1, vec![rf(i)])))).collect()), g(E::Arg(0))], names(n), vec![n as u8], cells_of(n, n)),
        "pairs" | "absolute-pairs" => {
            let proj = |x: E, p: u8| if s == "pairs" { E::Map(bx(x), p) } else { E::Abs(bx(x), p) };
            let mut l: Vec<C> = (0..n).map(|_| C::Cell(RV::P(0, 0))).collect(); l.push(th(0));
            let mut h = vec![];
            for i in 0..n { for v in vec![(0, 1), (1, 0), (1, 1)] { h.push(vec![d(n), Set(i as u8, RV::P(v.0, v.1)), d(n), Set(i as u8, RV::P(0, 0)), Set((i * 7 + 3) as u8 % n as u8, RV::P(1, 0)), d(n)]) } }
            (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), proj(rf(i), (i % 2) as u8))).collect())], l, vec![n as u8], h)
        }
        // one cell, observed through projections many times
        "mapped" | "absolute-mapped" => {
            let proj = |x: E, p: u8| if s == "mapped" { E::Map(bx(x), p) } else { E::Abs(bx(x), p) };
            let l = vec![C::Cell(RV::P(0, 0)), th(0)];
            let mut h = vec![];
            for v in vec![(0, 1), (1, 0), (1, 1)] { for w in vec![(0, 0), (1, 0)] { h.push(vec![d(1), Set(0, RV::P(v.0, v.1)), d(1), Set(0, RV::P(w.0, w.1)), d(1)]) } }
            (vec![sum((0..n).map(|i| mul(k(i as i64 + 1), proj(rf(0), if i + 1 == n { 1 } else { 0 }))).collect())], l, vec![1], h)
        }
        _ => unreachable!(),
    }
}

pub struct ScaleFamily { pub name: String, pub bounds: String, pub items: Vec<(&'static str, usize)>, pub oracles: u32, pub opts: Opts, /** a computation panics, at every event */ pub faults: bool }
struct ScaleCase { what: (&'static str, usize), c: PCase, hist: Vec<Vec<Op>> }
impl Family for ScaleFamily {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn ncases(&self) -> usize { self.items.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {

        intern_reset();
        let (s, n) = self.items[i];
        let (funs, locs, roots, mut hist) = shape(s, n);
        if self.faults {
            let int = match locs[0] { C::Cell(RV::P(..)) => false, _ => true };
            let (a, b) = if int { (RV::I(1), RV::I(2)) } else { (RV::P(1, 0), RV::P(0, 1)) };
            let top = *roots.last().unwrap();
            BIG.with(|b| b.set(true));
            fresh_dcg(&self.opts);
            start_with(&Rc::new(Prog { funs: funs.clone(), locs: locs.clone() }), &locs, false);
            rt(|x| x.fault = Some(100_000));
            let ok = guarded(|| demand(top as usize)).is_ok();
            BIG.with(|b| b.set(false));
            if ok {
                use crate::pfam::Op::*;
                let most = 100_000 - rt(|x| x.fault.unwrap());
                hist = (0..most).flat_map(|k| vec![
                    vec![Fault(top, k), Demand(top), Set(0, a.clone()), Demand(top)],
                    vec![Demand(top), Set(0, a.clone()), Fault(top, k), Demand(top), Set(0, b.clone()), Demand(top)],
                    vec![Demand(top), Set(0, a.clone()), Fault(top, k), Set(0, b.clone()), Demand(top), Demand(roots[roots.len() / 2])],
                ]).collect();
            }
        }
        let c = PCase::on_demand(Space { prog: Rc::new(Prog { funs, locs }), dom: vec![], roots, how: SET, len: 0, oracles: self.oracles, opts: self.opts });
        Some(Box::new(ScaleCase { what: (s, n), c, hist }))
    }
}
impl Case for ScaleCase {
    fn nhist(&self) -> u64 { self.hist.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("{} of size {} ;; {:?}", self.what.0, self.what.1, self.hist[h as usize]) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        BIG.with(|b| b.set(true));
        let r = guarded(|| self.c.run_ops(&self.hist[h as usize].clone(), cx));
        BIG.with(|b| b.set(false));
        match r { Ok(x) => x, Err(e) => Err(format!("panic: {}", e)) }
    }
}
pub fn scale(shapes: &[&'static str], max: usize, oracles: u32) -> ScaleFamily {
    let mut items = vec![];
    for n in sizes(max) { for s in shapes { items.push((*s, n)) } }
    ScaleFamily { name: format!("sizes-{}-{}", max, if shapes.len() == SHAPES.len() { "all".to_string() } else { shapes.join("+") }), bounds: format!("programs of the shapes {:?}, of every size up to 20 and sizes around the multiples of 16 up to {}; histories with every single edit, pairs of edits, edits undone, and demands of every thunk in between", shapes, max), items, oracles, opts: Opts::default(), faults: false }
}
pub fn scale_opts(tag: &str, mut f: ScaleFamily, o: Opts) -> ScaleFamily { f.name += tag; f.bounds += &format!("; {:?}", o); f.opts = o; f }
pub fn scale_faults(shapes: &[&'static str], max: usize, oracles: u32) -> ScaleFamily {
    let mut f = scale(shapes, max, oracles);
    f.name = format!("faults-{}", f.name); f.faults = true;
    f.bounds = format!("programs of the shapes {:?}, of every size up to 20 and sizes around the multiples of 16 up to {}; a computation panics at every event of the first demand, or of the one after an edit; then it is demanded, edited and demanded again", shapes, max);
    f
}
/// the programs alone, for the naive engine
pub fn scale_static(shapes: &[&'static str], max: usize) -> PFamily {
    let mut spaces = vec![];
    for n in sizes(max) { for s in shapes {
        let (funs, locs, roots, _) = shape(s, n);
        let dom = locs.iter().map(|c| vec![c.clone()]).collect();
        spaces.push(Space { prog: Rc::new(Prog { funs, locs }), dom, roots, how: SET, len: 1, oracles: 0, opts: Opts::default() });
    } }
    PFamily { name: format!("sizes-{}", max), bounds: format!("programs of the shapes {:?}, of every size up to 20 and sizes around the multiples of 16 up to {}", shapes, max), spaces }
}
