//! Projections that are partial: the mapping function (or the difference of
//! an abstract one) panics for some contents.  A set is not a demand: it
//! takes effect without a panic, whatever the cell is projected to; a demand
//! panics exactly if a from-scratch run does.

use crate::core::*;
use adapton::engine::*;
use adapton::engine::reflect_dcg;
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P { /** 6/x */ Inv, /** x, but panics for 1 */ Odd, /** x%2 */ Par, /** 6/x through `force_abs` */ AbsInv }
#[derive(Clone, Debug)]
pub enum B { M(u8, P), Full(u8), If(u8, Box<B>, Box<B>), T(u8), Add(Box<B>, Box<B>), K }
use B::*;

fn proj(p: P, x: i64) -> i64 {
    match p {
        P::Inv | P::AbsInv => { if x == 0 { panic!("partial") } 6 / x }
        P::Odd => { if x == 1 { panic!("partial") } x }
        P::Par => x % 2,
    }
}
fn proj_ref(p: P, x: i64) -> Option<i64> { match (p, x) { (P::Inv, 0) | (P::AbsInv, 0) | (P::Odd, 1) => None, _ => Some(proj(p, x)) } }

struct Fam;
impl AbsMapFam<u8, u8, i64, i64, i64> for Fam {
    fn map(&self, _: u8, x: i64) -> i64 { proj(P::Inv, x) }
    fn abs(&self, a: u8) -> u8 { a }
    fn join(&self, a: u8, _: u8) -> u8 { a }
    fn diff(&self, a: &i64, b: &i64) -> i64 { proj(P::Inv, *a) - proj(P::Inv, *b) }
    fn is_dirty(&self, d: i64, _: &u8) -> bool { d != 0 }
}

thread_local! {
    static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]);
}

fn eval(b: &B, cs: &[Art<i64>], ts: &[Art<i64>]) -> i64 {
    match b {
        K => 40,
        Full(c) => force(&cs[*c as usize]),
        M(c, P::AbsInv) => force_abs(Box::new(Fam) as Box<dyn AbsMapFam<u8, u8, i64, i64, i64>>, 0u8, cs[*c as usize].clone()),
        M(c, p) => { let p = *p; force_map(&cs[*c as usize], move |_, x| proj(p, x)) }
        If(c, x, y) => if force(&cs[*c as usize]) != 0 { eval(x, cs, ts) } else { eval(y, cs, ts) },
        T(i) => force(&ts[*i as usize]),
        Add(x, y) => { let a = eval(x, cs, ts); 10 * a + eval(y, cs, ts) }
    }
}

#[derive(Clone, Debug)]
enum Obs { F(u8), P(u8, P), T(u8) }
/// From scratch: the value (None: a panic), the observations made with what
/// they gave, and the bodies run.
fn scratch(b: &B, bs: &[B], st: &[i64], obs: &mut Vec<(Obs, Option<i64>)>, runs: &mut Vec<u8>) -> Option<i64> {
    match b {
        K => Some(40),
        Full(c) => { let v = st[*c as usize]; obs.push((Obs::F(*c), Some(v))); Some(v) }
        M(c, p) => { let v = proj_ref(*p, st[*c as usize]); obs.push((Obs::P(*c, *p), v)); v }
        If(c, x, y) => { let v = st[*c as usize]; obs.push((Obs::F(*c), Some(v))); scratch(if v != 0 { x } else { y }, bs, st, obs, runs) }
        T(i) => { let v = demand(*i, bs, st, runs); obs.push((Obs::T(*i), v)); v }
        Add(x, y) => { let a = scratch(x, bs, st, obs, runs)?; Some(10 * a + scratch(y, bs, st, obs, runs)?) }
    }
}
fn demand(i: u8, bs: &[B], st: &[i64], runs: &mut Vec<u8>) -> Option<i64> {
    if !runs.contains(&i) { runs.push(i) }
    scratch(&bs[i as usize], bs, st, &mut vec![], runs)
}
fn now(o: &Obs, bs: &[B], st: &[i64]) -> Option<i64> {
    match o { Obs::F(c) => Some(st[*c as usize]), Obs::P(c, p) => proj_ref(*p, st[*c as usize]), Obs::T(i) => demand(*i, bs, st, &mut vec![]) }
}

#[derive(Clone, Debug)]
enum Op { Set(u8, i64), Alloc(u8, i64), Demand(u8) }

pub struct Partial { name: String, progs: Vec<Vec<B>>, len: usize, alloc: bool }
struct PC { bs: Vec<B>, edits: Vec<Op>, len: usize }

impl Case for PC {
    fn nhist(&self) -> u64 { (self.edits.len() as u64).pow(self.len as u32 - 1) * self.bs.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("{:?} ;; {:?}", self.bs, self.ops(h)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let ops = self.ops(h);
        manage::init_dcg();
        LOG.with(|l| l.borrow_mut().clear());
        let mut st = vec![2i64, 2];
        let cs: Vec<Art<i64>> = (0..2).map(|i| cell(name_of_usize(i), st[i])).collect();
        let mut ts: Vec<Art<i64>> = vec![];
        for (i, b) in self.bs.iter().enumerate() {
            let (b, cs1, ts1) = (b.clone(), cs.clone(), ts.clone());
            ts.push(thunk(NameChoice::Nominal(name_of_usize(10 + i)), ProgPt { symbol: "partial" }, Rc::new(Box::new(move |i: u8, _: ()| {
                LOG.with(|l| l.borrow_mut().push(i));
                eval(&b, &cs1, &ts1)
            })), i as u8, ()));
        }
        // what each computation observed when it last ran to its end
        let mut last: Vec<Option<Vec<(Obs, Option<i64>)>>> = vec![None; self.bs.len()];
        let mut seen = vec![];
        for (n, op) in ops.iter().enumerate() {
            cx.step();
            LOG.with(|l| l.borrow_mut().clear());
            match op {
                Op::Set(c, v) | Op::Alloc(c, v) => {
                    let alloc = if let Op::Alloc(..) = op { true } else { false };
                    let a = &cs[*c as usize];
                    if let Err(p) = guarded(|| if alloc { cell(name_of_usize(*c as usize), *v); } else { set(a, *v) }) { return Err(format!("step {}: {:?} panicked ({}), though it demands nothing", n, op, p)) }
                    st[*c as usize] = *v;
                    check!(LOG.with(|l| l.borrow().is_empty()), "step {}: {:?} ran a thunk body", n, op);
                }
                Op::Demand(i) => {
                    let mut runs = vec![];
                    let want = demand(*i, &self.bs, &st, &mut runs);
                    let got = guarded(|| force(&ts[*i as usize]));
                    let log = LOG.with(|l| l.borrow().clone());
                    match (&got, want) {
                        (Ok(g), Some(w)) => check!(*g == w, "step {}: {:?} gave {}, from scratch {}", n, op, g, w),
                        (Ok(g), None) => return Err(format!("step {}: {:?} gave {}, a from-scratch run panics", n, op, g)),
                        (Err(p), Some(w)) => return Err(format!("step {}: {:?} panicked ({}), a from-scratch run gives {}", n, op, p, w)),
                        (Err(p), None) => check!(p.contains("partial"), "step {}: {:?} panicked with {}", n, op, p),
                    }
                    if want.is_none() { cx.count("demands_that_panic", 1) }
                    for (k, t) in log.iter().enumerate() {
                        check!(runs.contains(t), "step {}: {:?} ran the body of t{}, which a from-scratch run does not demand", n, op, t);
                        check!(!log[..k].contains(t), "step {}: {:?} ran the body of t{} twice", n, op, t);
                        if let Some(ref os) = last[*t as usize] {
                            check!(os.iter().any(|(o, v)| now(o, &self.bs, &st) != *v), "step {}: {:?} ran the body of t{} again, though nothing that it observed changed: {:?}", n, op, t, os);
                        }
                    }
                    for t in log {
                        let mut os = vec![];
                        last[t as usize] = scratch(&self.bs[t as usize], &self.bs, &st, &mut os, &mut vec![]).map(|_| os);
                    }
                    seen.push(want);
                }
            }
            let g = reflect_dcg::dcg_reflect_now().unwrap();
            check!(g.stack.is_empty() && g.path.is_empty(), "step {}: {:?} left a stack or namespace behind", n, op);
            crate::graph::structure(&g).map_err(|e| format!("after step {} ({:?}): {}", n, op, e))?;
            cx.state(&(n, &st, &seen));
        }
        cx.outcome(&seen);
        Ok(())
    }
}
impl PC {
    fn ops(&self, h: u64) -> Vec<Op> {
        let nr = self.bs.len() as u64;
        let mut v: Vec<Op> = digits(h / nr, self.edits.len() as u64, self.len - 1).into_iter().map(|d| self.edits[d].clone()).collect();
        v.push(Op::Demand((h % nr) as u8));
        v
    }
}
impl Family for Partial {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { format!("all programs of two thunks over two cells with partial projections, partial abstract maps, full observations, branches and sums; every history of {} sets{} (contents 0..2) and demands, ending in a demand; every step checked", self.len, if self.alloc { ", re-allocations" } else { "" }) }
    fn ncases(&self) -> usize { self.progs.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let bs = self.progs[i].clone();
        let mut edits: Vec<Op> = (0..bs.len() as u8).map(Op::Demand).collect();
        for c in 0..2u8 { for v in 0..3 { edits.push(Op::Set(c, v)); if self.alloc { edits.push(Op::Alloc(c, v)) } } }
        Some(Box::new(PC { bs, edits, len: self.len }))
    }
}

pub fn partial(len: usize, alloc: bool) -> Partial {
    let b = |x: &B| Box::new(x.clone());
    let mut atoms = vec![];
    for c in 0..2 { for p in &[P::Inv, P::Odd, P::AbsInv] { atoms.push(M(c, *p)) } }
    let mut firsts = atoms.clone();
    for a in &atoms[..3] { for x in &[If(1, b(a), b(&K)), Add(b(&M(0, P::Par)), b(a)), Add(b(a), b(&M(0, P::Par))), Add(b(a), b(&Full(1)))] { firsts.push(x.clone()) } }
    firsts.push(Add(b(&atoms[0]), b(&atoms[1])));
    let seconds = vec![T(0), Full(0), M(0, P::Par), M(0, P::Odd), If(1, b(&T(0)), b(&K)), If(0, b(&T(0)), b(&Full(1))), Add(b(&T(0)), b(&M(0, P::Inv))), Add(b(&M(0, P::Inv)), b(&T(0))), Add(b(&M(1, P::Odd)), b(&T(0)))];
    let mut progs = vec![];
    for f in &firsts { for s in &seconds { progs.push(vec![f.clone(), s.clone()]) } }
    Partial { name: format!("partial-projections{}", if alloc { "+alloc" } else { "" }), progs, len, alloc }
}
