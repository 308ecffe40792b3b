prop = "C08"
needs = "a structural region within another structural region, and an allocation after the inner one, in the outer one"
breaks = "leaving an inner structural region also ends the outer one, so that names are no longer ignored in the rest of the outer region"
edits = [("src/engine.rs", "g.borrow_mut().flags.ignore_nominal_use_structural = saved;", "g.borrow_mut().flags.ignore_nominal_use_structural = saved && false;")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let (a, b) = structural(|| {
        let _ = structural(|| cell(name_of_str("i"), 0i64));
        (cell(name_of_str("x"), 5i64), cell(name_of_str("y"), 5i64))
    });
    assert_eq!(a, b);
    let c = cell(name_of_str("x"), 6i64);
    assert!(a != c);
    assert_eq!((force(&a), force(&c)), (5, 6));
}
'''
