prop = "C18"
needs = "a tree that is listed from right to left"
breaks = "list_of_tree always lists from left to right"
edits = [("src/catalog/collections.rs", "    (tree, dir.invert(), nil,\n     Rc::new(|x,xs| L::cons(x,xs)),", "    (tree, match dir { Dir2::Left => Dir2::Right, d => d }, nil,\n     Rc::new(|x,xs| L::cons(x,xs)),")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::catalog::collections::*;
fn main() {
    manage::init_naive();
    let l : List<i64> = list_of_vec(&vec![NameElse::Else(1), NameElse::Else(2), NameElse::Else(3)]);
    let t : Tree<i64> = tree_of_list(Dir2::Left, l);
    let r : List<i64> = list_of_tree(t, Dir2::Right);
    assert_eq!(vec_of_list(r, None), vec![NameElse::Else(3), NameElse::Else(2), NameElse::Else(1)]);
}
'''
