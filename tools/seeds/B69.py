prop = 'C08'
needs = 'naive thunks of one function and different arguments, as arguments of structural thunks'
breaks = 'the hash of naive thunks does not depend on the argument: structural identities of different ones coincide'
edits = [('src/engine.rs', '        self.prog_pt.hash( &mut hasher );\n        self.arg.hash( &mut hasher );\n        hasher.finish()', '        self.prog_pt.hash( &mut hasher );\n        hasher.finish()')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let nv = |x: i64| thunk(NameChoice::Naive, prog_pt!("inc"), Rc::new(Box::new(|x: i64, _: ()| x + 1)), x, ());
    let st = |a: Art<i64>| thunk(NameChoice::Structural, prog_pt!("get"), Rc::new(Box::new(|a: Art<i64>, _: ()| force(&a))), a, ());
    assert_eq!(force(&st(nv(1))), 2);
    assert_eq!(force(&st(nv(2))), 3);
}
'''
