prop = 'C12'
needs = 'an edit that makes a computation, which is being cleaned as a dependency, the end of a cycle that plain demands close'
breaks = 'an unexpected cycle through a computation that is being cleaned gives its stale result instead of a panic'
edits = [('src/engine.rs', 'None => { panic!("unexpected cycle detected in DCG") }', 'None => { match nd.res { Some(ref res) => (true, is_dup, is_pure, true, Some(res.clone())), None => panic!("unexpected cycle detected in DCG") } }')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), false);
    // a demands b; b demands a if c
    fn a(c:&Art<bool>) -> Art<i64> { let c = c.clone(); th("a", move || 1 + force(&b(&c))) }
    fn b(c:&Art<bool>) -> Art<i64> { let c = c.clone(); th("b", move || if force(&c) { force(&a(&c)) } else { 10 }) }
    assert_eq!(force(&a(&c)), 11);
    set(&c, true);
    let c1 = c.clone();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || force(&a(&c1)))).is_err());
}
'''
