prop = 'C08'
needs = 'a nominal thunk without dependencies, demanded by a computation that does not allocate it, and then allocated again by the editor with another argument'
breaks = 'the purity shortcut is taken for nominal thunks as well: demands of a thunk without dependencies are not recorded'
edits = [('src/engine.rs', '                                ArtId::Nominal(_)    => false } ;', '                                ArtId::Nominal(_)    => nd.succs.len() == 0 && nd.res.is_some() && is_pure_opt } ;')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn mk(a: i64) -> Art<i64> { thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!(stringify!(t)), std::rc::Rc::new(Box::new(|a: i64, _: ()| a + 1)), a, ()) }
fn main() {
    manage::init_dcg();
    let t = mk(1); force(&t);
    let t2 = t.clone();
    let o = th("o", move || force(&t2) * 10);
    assert_eq!(force(&o), 20);
    mk(5);
    assert_eq!(force(&t), 6);
    assert_eq!(force(&o), 60);
}
'''
