prop = 'C01'
needs = 'a thunk demanded by the editor between two demands of its observer, that gives the value of the first of its own two demands at the later one'
breaks = 'a re-evaluated thunk is taken for unchanged if its result equals the one it had cached, whatever its observer saw'
edits = [('src/engine.rs', '            let changed = result != this_dep.res ;', '            let changed = result != cache ;')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1);
    let c1 = c.clone();
    let t = th("t", move || force(&c1) % 10);
    let t1 = t.clone();
    let o = th("o", move || force(&t1) * 100);
    assert_eq!(force(&o), 100);
    set(&c, 2);
    assert_eq!(force(&t), 2);
    set(&c, 12);
    assert_eq!(force(&o), 200);
}
'''
