prop = 'C07'
needs = 'a structurally identified thunk made within a namespace, which allocates a name that is also used outside of it'
breaks = 'structurally identified thunks are located in the root namespace instead of the current one, so the names they allocate collide with those of the root, and of each other'
edits = [('src/engine.rs', '                let loc = loc_of_id(current_path(self),\n                                    Rc::new(ArtId::Structural(hash)));', '                let loc = loc_of_id(Rc::new(Path::Empty),\n                                    Rc::new(ArtId::Structural(hash)));')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let outer = cell(name_of_str("c"), 5i64);
    let t = ns(name_of_str("space"), || thunk(NameChoice::Structural, prog_pt!("t"), Rc::new(Box::new(|x:i64, ()| cell(name_of_str("c"), x))), 7i64, ()));
    let inner = force(&t);
    assert_eq!(force(&inner), 7);
    assert_eq!(force(&outer), 5);
}
'''
