prop = 'C24'
needs = 'a thunk evaluated before, whose re-evaluation panics'
breaks = 'a thunk keeps the edges of its previous evaluation until the next is complete: after a panic they remain without back-edges'
edits = [('src/engine.rs', '            replace(node.succs_mut(), succs)', '            { drop(succs); node.succs().clone() }')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1);
    let c1 = c.clone();
    let t = th("t", move || { let x = force(&c1); if x == 2 { panic!("two") }; x });
    assert_eq!(force(&t), 1);
    set(&c, 2);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&t))).is_err());
    let d = reflect_dcg::dcg_reflect_now().unwrap();
    for (_, nd) in d.table.iter() { if let adapton::reflect::Node::Comp(ref c) = *nd { assert_eq!(c.succs.len(), 0); } }
}
'''
