prop = 'C04'
needs = 'a computation that allocates a named thunk, overwritten by the editor with another argument, and demanded again'
breaks = 'cleaning takes the allocation of a thunk for unchanged, so the computation that allocates it does not restore its argument'
edits = [('src/engine.rs', '    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} } // TODO-Later: Make this a little better.\n}\n\n#[derive(Debug)]\nstruct AllocCell', '    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:false} }\n}\n\n#[derive(Debug)]\nstruct AllocCell')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn id(x:i64, _:()) -> i64 { x }
fn mk(x:i64) -> Art<i64> { thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("id"), Rc::new(Box::new(id)), x, ()) }
fn main() {
    manage::init_dcg();
    let a = th("a", || mk(1));
    let a1 = a.clone(); let r = th("r", move || force(&force(&a1)));
    assert_eq!(force(&r), 1);
    mk(2);
    assert_eq!(force(&r), 1);
}
'''
