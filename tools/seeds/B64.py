prop = 'C10'
needs = 'well-formedness checks enabled, and a location of which one observer is dirty and another is not'
breaks = 'the well-formedness check takes the target of a dirty edge for dirty instead of its source, and fails on sound graphs'
edits = [('src/engine.rs', 'dirty(st, &mut cs, loc)\n', 'dirty(st, &mut cs, &succ.loc)\n')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    std::env::set_var("ADAPTON_CHECK_DCG", "1");
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1);
    let (c1, c2) = (c.clone(), c.clone());
    let a = th("a", move || force(&c1) + 1);
    let b = th("b", move || force(&c2) + 2);
    assert_eq!((force(&a), force(&b)), (2, 3));
    set(&c, 2);
    assert_eq!((force(&a), force(&b)), (3, 4));
}
'''
