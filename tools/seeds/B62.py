prop = 'C20'
needs = 'a list with an element whose level exceeds that of a name'
breaks = 'names do not rank above the elements when a tree is made from a list'
edits = [('src/catalog/collections.rs', 'let lev_nm = Lev::inc( &Lev::add( &Lev::bits() , &Lev::new(&nm) ) ) ;', 'let lev_nm = Lev::inc( &Lev::new(&nm) ) ;')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::*;
fn top(t: &Tree<usize>) -> usize { match *t { Tree::Nil | Tree::Leaf(_) => 0, Tree::Bin(_, ref l, ref r) => 1 + top(l).max(top(r)), Tree::Name(..) => 0, Tree::Art(ref a) => top(&force(a)) } }
fn named_below_bin(t: &Tree<usize>, b: bool) -> bool { match *t { Tree::Nil | Tree::Leaf(_) => false, Tree::Bin(_, ref l, ref r) => named_below_bin(l, true) || named_below_bin(r, true), Tree::Name(_, _, ref l, ref r) => b || named_below_bin(l, false) || named_below_bin(r, false), Tree::Art(ref a) => named_below_bin(&force(a), b) } }
fn main() {
    manage::init_dcg();
    for s in 0..40usize {
        let v: Vec<NameElse<usize>> = (0..12).map(|i| if i % 3 == 0 { NameElse::Name(name_of_usize(s * 100 + i)) } else { NameElse::Else(s * 50 + i) }).collect();
        let l = ns(name_of_str("l"), || ns(name_of_usize(s), || list_of_vec::<_, List<usize>>(&v)));
        let t: Tree<usize> = ns(name_of_usize(s), || tree_of_list(Dir2::Left, l));
        let _ = top(&t);
        assert!(!named_below_bin(&t, false));
    }
}
'''
