prop = "C20"
needs = "a tree made from right to left from a list with names"
breaks = "named nodes of trees built from right to left bear the level of the tree before them instead of their own, so levels increase below named nodes"
edits = [("src/catalog/collections.rs", "Dir2::Right => T::name ( nm.clone(), lev_nm.clone(), tree2, tree  ),", "Dir2::Right => T::name ( nm.clone(), tree_lev.clone(), tree2, tree  ),")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::catalog::collections::*;
fn lev(t:&Tree<i64>, max:usize) { match *t {
    Tree::Nil | Tree::Leaf(_) => (),
    Tree::Bin(l, ref a, ref b) | Tree::Name(_, l, ref a, ref b) => { assert!(l <= max); lev(a, l); lev(b, l) },
    Tree::Art(ref a) => lev(&force(a), max) } }
fn main() {
    manage::init_naive();
    for k in 0..16usize {
        let v = (0..8).map(|i| NameElse::Name(name_of_usize(k * 8 + i))).collect();
        let l : List<i64> = list_of_vec(&v);
        let t : Tree<i64> = tree_of_list(Dir2::Right, l);
        lev(&t, usize::max_value());
    }
}
'''
