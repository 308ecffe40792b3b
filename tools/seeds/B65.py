prop = 'C08'
needs = 'structural cells or thunks whose content or argument are tries that differ in an element only'
breaks = 'the hash of a trie does not depend on the elements in its leaves: structural identities of different tries coincide'
edits = [('src/catalog/trie.rs', '                x.hash(state);\n                bs.hash(state)', '                let _ = x;\n                bs.hash(state)')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::collections::trie::*; use adapton::catalog::bitstring::*;
fn main() {
    manage::init_dcg();
    let bs = BS { length: 0, value: 0 };
    let (x, y) = (Trie::Leaf(bs, 1i64), Trie::Leaf(bs, 2i64));
    structural(|| {
        let a = cell(name_of_str("c"), x.clone());
        let b = cell(name_of_str("c"), y.clone());
        assert!(a != b);
        assert!(force(&a) == x && force(&b) == y);
    });
}
'''
