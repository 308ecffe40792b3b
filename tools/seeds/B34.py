prop = 'C01'
needs = 'a cell that is set to a different value which prints (Debug) like the old one'
breaks = 'setting a cell compares the contents by their Debug output'
edits = [('src/engine.rs', '                Node::Mut(ref mut nd) => {\n                    if nd.val == val {\n', '                Node::Mut(ref mut nd) => {\n                    if nd.val == val || format!("{:?}", nd.val) == format!("{:?}", val) {\n')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



#[derive(Clone,PartialEq,Eq,Hash)] struct Secret(i64);
impl std::fmt::Debug for Secret { fn fmt(&self, f:&mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "***") } }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), Secret(1));
    let c1 = c.clone(); let t = th("t", move || force(&c1).0);
    assert_eq!(force(&t), 1);
    set(&c, Secret(2));
    assert_eq!(force(&t), 2);
}
'''
