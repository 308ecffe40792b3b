prop = 'C22'
needs = 'a map kept as a list that has a name followed by another name (e.g. of an empty segment) in front of the binding'
breaks = 'a lookup in a map stops at two names in a row'
edits = [('src/catalog/collections.rs', 'List::Name(_, ref list) => Self::find(&*list, d),', 'List::Name(_, ref list) => match **list { List::Name(_, _) => None, ref list => Self::find(list, d) },')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let m: List<(usize, usize)> = List::Cons((1, 2), Box::new(List::Nil));
    let m = List::Name(name_of_usize(1), Box::new(m));
    assert_eq!(map_find(&m, &1usize), Some(2));
    let m = List::Name(name_of_usize(2), Box::new(m));
    assert_eq!(map_find(&m, &1usize), Some(2));
}
'''
