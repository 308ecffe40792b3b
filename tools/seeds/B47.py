prop = 'C13'
needs = 'a set from a computation that another computation demanded'
breaks = 'a cell may be set by a computation unless it is the outermost one'
edits = [('src/engine.rs', '        assert!( self.stack.is_empty() ); // => outer layer has control.\n        set_(self, cell, val);', '        assert!( self.stack.len() != 1 ); // => outer layer has control.\n        set_(self, cell, val);')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    let c1 = c.clone();
    let a = th("a", move || { set(&c1, 5); 1i64 });
    let b = th("b", move || force(&a));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&b))).is_err());
    assert_eq!(force(&c), 1);
}
'''
