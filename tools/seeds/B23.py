prop = "C22"
needs = "a map kept in cells where one articulation follows another (in the content of a cell), under the graph engine"
breaks = "the lookup recurs within a projection of the cell, where nothing may be demanded: it panics when the content contains a further articulation"
edits = [("src/catalog/collections.rs", "List::Art(ref a) => { Self::find(&(force(a)), d) }", "List::Art(ref a) => { let d = d.clone(); force_map(a, move |_, l| Self::find(&l, &d)) }")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let m : List<(i64,i64)> = map_empty();
    let m = map_update(m, 1, 10);
    let m = List::Art(cell(name_of_str("a"), m));
    assert_eq!(map_find(&m, &1), Some(10));
    let m = map_update(m, 2, 20);
    let m = List::Art(cell(name_of_str("b"), m));
    assert_eq!(map_find(&m, &2), Some(20));
    assert_eq!(map_find(&m, &1), Some(10));
}
'''
