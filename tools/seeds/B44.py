prop = 'C01'
needs = 'a cell observed by more than 24 computations'
breaks = 'a cell records at most 24 predecessors; computations beyond it keep a stale result when the cell is set'
edits = [('src/engine.rs', '        match *self { Node::Mut(ref mut nd) => nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()}),\n                      Node::Comp(ref mut nd) => nd.preds.push', '        match *self { Node::Mut(ref mut nd) => if nd.preds.len() < 24 { nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()}) },\n                      Node::Comp(ref mut nd) => nd.preds.push')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    let ts: Vec<Art<i64>> = (0..40).map(|i| { let c = c.clone(); thunk(NameChoice::Nominal(name_of_usize(i)), ProgPt{symbol:"t"}, Rc::new(Box::new(move |(), ()| force(&c))), (), ()) }).collect();
    for t in &ts { assert_eq!(force(t), 1); }
    set(&c, 2);
    for t in &ts { assert_eq!(force(t), 2); }
}
'''
