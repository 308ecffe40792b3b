prop = 'C25'
needs = 'a tree with named nodes, filtered twice'
breaks = 'the filter of trees allocates the parts of its result under the names of its own memoised calls: they overwrite each other, and everything is filtered again each time'
edits = [('src/catalog/collections.rs', '     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))\n     )\n}\n\n/// Aggregates', '     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))\n     )\n}\n\n/// Aggregates')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let l: List<usize> = ns(name_of_str("l"), || list_of_vec(&vec![NameElse::Else(1), NameElse::Name(name_of_usize(1)), NameElse::Else(2), NameElse::Name(name_of_usize(2)), NameElse::Else(3), NameElse::Name(name_of_usize(3)), NameElse::Else(4)]));
    let t: Tree<usize> = ns(name_of_str("t"), || tree_of_list(Dir2::Left, l));
    let f = || ns(name_of_str("f"), || filter_tree_of_tree::<_, _, _, Tree<usize>>(t.clone(), Box::new(|_| { tick(); true })));
    let r1 = f(); assert_eq!(cnt(), 4);
    let r2 = f(); assert_eq!(cnt(), 4);
    assert_eq!(r1, r2);
}
'''
