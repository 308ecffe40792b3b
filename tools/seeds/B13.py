prop = "C12"
needs = "a cyclic thunk that is re-evaluated after an edit, i.e. that has a cached result from before the edit while it runs"
breaks = "when a cycle is closed during re-evaluation, the outdated cached result is returned instead of the given cycle value"
edits = [("src/engine.rs", "Some(out) => (true, is_dup, is_pure, true, Some(out)),", "Some(out) => (true, is_dup, is_pure, true, nd.res.clone().or(Some(out))),")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    fn t(c:Art<i64>) -> Art<i64> { thunk(NameChoice::Nominal(name_of_str("t")), ProgPt{symbol:"t"}, Rc::new(Box::new(|c:Art<i64>, ()| force(&c) + force_cycle(&t(c.clone()), Some(100)))), c, ()) }
    assert_eq!(force(&t(c.clone())), 101);
    set(&c, 2);
    assert_eq!(force(&t(c.clone())), 102);
}
'''
