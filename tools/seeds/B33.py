prop = 'C18'
needs = 'a merge in which the first list ends while the name in front of the rest of the second one is still pending'
breaks = 'a merge of lists drops a name in front of the rest of the second list when the first one is exhausted'
edits = [('src/catalog/collections.rs', '/* Nil */  |_,(_n1, n2,l2)| list_name_op(n2, l2),', '/* Nil */  |_,(_n1, _n2,l2)| l2,')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let l1: List<usize> = List::Cons(1, Box::new(List::Nil));
    let l2: List<usize> = List::Cons(2, Box::new(List::Nil));
    let m: List<usize> = list_merge(None, l1, Some(name_of_usize(7)), l2);
    let v = vec_of_list(m, None);
    assert_eq!(v.iter().filter(|x| match x { NameElse::Name(_) => true, _ => false }).count(), 1, "{:?}", v);
}
'''
