prop = 'C04'
needs = 'a thunk name re-allocated by the editor twice with changed arguments, the first one without a demand of it in between, but with a demand of the computation that allocates it'
breaks = 'the second of two overwrites of a thunk that was not demanded in between does not dirty the computation that allocates it, which does not restore its argument'
edits = [('src/engine.rs', '                                        comp_nd.res = None ; // clear the cache\n                                        // do_dirty=true; do_insert=false\n                                        (true, false, false)', '                                        // clear the cache; without one, nobody observes it\n                                        (comp_nd.res.take().is_some(), false, false)')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn id(x:i64, _:()) -> i64 { x }
fn mk(x:i64) -> Art<i64> { thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("id"), Rc::new(Box::new(id)), x, ()) }
fn main() {
    manage::init_dcg();
    let a = th("a", || mk(1));
    let a1 = a.clone(); let r = th("r", move || force(&force(&a1)));
    assert_eq!(force(&r), 1);
    mk(2);
    force(&a);
    mk(3);
    assert_eq!(force(&r), 1);
}
'''
