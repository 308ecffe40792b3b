prop = "C09"
needs = "a thunk that observes one cell through several projections, and an edit that changes only a projection observed later than the first"
breaks = "only the first of several observations of one cell by one thunk has a back-edge, so later projections are never marked dirty"
edits = [("src/engine.rs", "match *self { Node::Mut(ref mut nd) => nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()}),", "match *self { Node::Mut(ref mut nd) => if ! nd.preds.iter().any(|pred| pred.effect == eff && &pred.loc == loc) { nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()}) },")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (1i64, 2i64));
    let c2 = c.clone();
    let o = th("o", move || force_map(&c2, |_, x| x.0) + force_map(&c2, |_, x| x.1));
    assert_eq!(force(&o), 3);
    set(&c, (1, 5));
    assert_eq!(force(&o), 6);
}
'''
