prop = "C15"
needs = "two pairs of names with the same components in different order, used where identity is structural (e.g. as arguments of structurally identified thunks)"
breaks = "the hash of a pair of names does not depend on the order of its components; so do the hashes of its forks, and structural identity confuses them"
edits = [("src/engine.rs", "let h = my_hash( &(n1.hash,n2.hash) ) ;", "let h = my_hash( &(n1.hash.wrapping_add(n2.hash)) ) ;")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let (a, b) = (name_of_str("a"), name_of_str("b"));
    let t = |n:Name| thunk(NameChoice::Structural, ProgPt{symbol:"t"}, Rc::new(Box::new(|n:Name, ()| n)), n, ());
    let (p, q) = (name_pair(a.clone(), b.clone()), name_pair(b, a));
    assert!(p != q);
    assert_eq!(force(&t(p.clone())), p);
    assert_eq!(force(&t(q.clone())), q);
}
'''
