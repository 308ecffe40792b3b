prop = "C13"
needs = "a set within a computation that has not demanded or allocated anything yet"
breaks = "setting a cell from within a computation is only refused if this computation has already demanded or allocated something"
edits = [("src/engine.rs", "assert!( self.stack.is_empty() ); // => outer layer has control.", "assert!( self.stack.iter().all(|frame| frame.succs.is_empty()) ); // => outer layer has control.")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    let c2 = c.clone();
    let t = th("t", move || { set(&c2, 2); 0i64 });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&t)));
    assert!(r.is_err());
}
'''
