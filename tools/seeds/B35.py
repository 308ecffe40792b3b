prop = 'C12'
needs = 'a cycle of two thunks, where the input of the first one changes and the second one is demanded on its own'
breaks = 'a demand that closes a cycle is not recorded as a dependency of the demanding computation'
edits = [('src/engine.rs', 'Some(out) => (true, is_dup, is_pure, true, Some(out)),', 'Some(out) => (true, true, is_pure, true, Some(out)),')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), true);
    // a: (if c then b) ; b: 10 + (a, or 0 for the cycle)
    fn a(c:&Art<bool>) -> Art<i64> { let c = c.clone(); th("a", move || if force(&c) { 1 + force(&b(&c)) } else { 5 }) }
    fn b(c:&Art<bool>) -> Art<i64> { let c = c.clone(); th("b", move || 10 + force_cycle(&a(&c), Some(0))) }
    assert_eq!(force(&a(&c)), 11);
    set(&c, false);
    assert_eq!(force(&a(&c)), 5);
    assert_eq!(force(&b(&c)), 15);
}
'''
