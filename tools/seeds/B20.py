prop = "C19"
needs = "an edit that changes the name passed down to the left subtree of a named node, but not this subtree itself"
breaks = "the name passed down to left subtrees is no longer among the compared arguments of the memoised fold, so a demand after the edit yields results with the old name"
edits = [("src/catalog/collections.rs", "tree:l, nm:nm.clone()  ;; nil:nil.clone(), leaf", "tree:l ;; nm:nm.clone(), nil:nil.clone(), leaf")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let mk = || Tree::Name(name_of_str("n"), 1, Box::new(Tree::Leaf(1i64)), Box::new(Tree::Leaf(2)));
    let t : Tree<i64> = mk();
    let go = |n:&'static str| { let t = t.clone(); ns(name_of_str("s"), || { let l : List<i64> = mergesort_list_of_tree3(t, Some(name_of_str(n))); vec_of_list(l, None) }) };
    let a = go("a"); let b = go("b");
    assert!(a != b);
    manage::init_dcg();
    let t : Tree<i64> = mk();
    let l : List<i64> = ns(name_of_str("s"), || mergesort_list_of_tree3(t, Some(name_of_str("b"))));
    assert_eq!(vec_of_list(l, None), b);
}
'''
