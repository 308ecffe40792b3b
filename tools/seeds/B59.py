prop = 'C18'
needs = 'a fold that passes names down, over a tree with an unnamed binary node'
breaks = 'the name passed down reaches both subtrees of an unnamed binary node instead of the left one only'
edits = [('src/catalog/collections.rs', 'tree_fold_up_nm_dn(r, None, nil,', 'tree_fold_up_nm_dn(r, nm.clone(), nil,')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let t: Tree<usize> = Tree::Bin(3, Box::new(Tree::Leaf(1)), Box::new(Tree::Leaf(2)));
    let v: Vec<Option<Name>> = tree_fold_up_nm_dn(t, Some(name_of_str("n")), Rc::new(|_| vec![]), Rc::new(|m, _| vec![m]),
        Rc::new(|_, _, l: Vec<Option<Name>>, r: Vec<Option<Name>>| l.into_iter().chain(r).collect::<Vec<_>>()), Rc::new(|_, _, _, l: Vec<Option<Name>>, _| l));
    assert_eq!(v, vec![Some(name_of_str("n")), None]);
}
'''
