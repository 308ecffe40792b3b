prop = 'C26'
needs = 'a cell allocated in a structural region of an engine made under ADAPTON_NO_PURITY'
breaks = 'cells in structural regions are never tracked, even where the purity shortcut is switched off'
edits = [('src/engine.rs', '(Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization)', '(Rc::new(ArtId::Structural(hash)), true)')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::reflect::Node;
fn main() {
    std::env::set_var("ADAPTON_NO_PURITY", "1");
    manage::init_dcg();
    let t = th("t", || structural(|| force(&cell(name_of_str("c"), 5i64))));
    assert_eq!(force(&t), 5);
    let _ = &reflect_dcg::dcg_reflect_now;
    let n: usize = reflect_dcg::dcg_reflect_now().unwrap().table.values().map(|n| match n { Node::Comp(c) => c.succs.len(), _ => 0 }).sum();
    assert_eq!(n, 2);
}
'''
