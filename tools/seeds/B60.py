prop = 'C16'
needs = 'two unnamed articulations of equal content that were made apart from each other'
breaks = 'unnamed articulations are equal only if they share one allocation'
edits = [('src/engine.rs', 'if let EnumArt::Rc(ref rc2) = *other { rc == rc2 } else { false },', 'if let EnumArt::Rc(ref rc2) = *other { Rc::ptr_eq(rc, rc2) } else { false },')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    assert!(put(3) == put(3));
    assert!(put(3) != put(4));
}
'''
