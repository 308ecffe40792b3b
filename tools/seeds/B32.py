prop = 'C25'
needs = 'a tree with nested named nodes, aggregated again after a change in the left part of it'
breaks = 'folds of trees run the right subtree of a named node within the computation of its parent, so a change elsewhere in the tree runs the operation again at all nodes to the right'
edits = [('src/catalog/collections.rs', 'let resr = memo!(n2 =>> tree_fold_up, tree:r ;; nil:nil, leaf:leaf, bin:bin, name:name.clone());', 'let _ = n2; let resr = tree_fold_up(r, nil, leaf, bin, name.clone());')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    // sum of a list of many named elements, as a tree, after a change of the first element
    let n = 64usize;
    let mut arts: Vec<Art<List<usize>>> = vec![]; let mut l: List<usize> = List::Nil;
    for i in (0..n).rev() { let a = cell(name_of_usize(i), List::Cons(i, Box::new(l))); arts.insert(0, a.clone()); l = List::Name(name_of_usize(i), Box::new(List::Art(a))); }
    let go = |l: List<usize>| -> usize {
        let t: Tree<usize> = ns(name_of_str("tree"), || tree_of_list::<usize, usize, Tree<usize>, List<usize>>(Dir2::Left, l));
        ns(name_of_str("sum"), || monoid_of_tree(t, 0, Rc::new(|x, y| { tick(); x + y })))
    };
    assert_eq!(go(l.clone()), n * (n - 1) / 2);
    // tree made again from scratch of the changed list: only the path to the change is new
    let rest = match force(&arts[0]) { List::Cons(_, t) => t, _ => unreachable!() };
    set(&arts[0], List::Cons(1000, rest));
    let c = cnt();
    assert_eq!(go(l.clone()), n * (n - 1) / 2 + 1000);
    let runs = cnt() - c;
    assert!(runs <= 30, "{} additions", runs);
}
'''
