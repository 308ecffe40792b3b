prop = 'C16'
needs = 'two naive thunks of different functions with equal arguments, compared with each other (alone, or within the argument of a thunk)'
breaks = 'naive thunks of different functions are equal if their arguments are'
edits = [('src/engine.rs', '            && &self.prog_pt == other.prog_pt()\n            && other.arg().downcast_ref::<A>() == Some(&self.arg)', '            && other.arg().downcast_ref::<A>() == Some(&self.arg)')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    fn naive(s:&'static str, f: fn(i64) -> i64) -> Art<i64> { thunk(NameChoice::Naive, ProgPt{symbol:s}, Rc::new(Box::new(move |x, ()| f(x))), 3, ()) }
    let (inc, dbl) = (naive("inc", |x| x + 1), naive("dbl", |x| x * 2));
    assert!(inc == naive("inc", |x| x + 1));
    assert!(inc != dbl);
    let user = |a: &Art<i64>| thunk(NameChoice::Nominal(name_of_str("user")), ProgPt{symbol:"user"}, Rc::new(Box::new(|a: Art<i64>, ()| force(&a))), a.clone(), ());
    assert_eq!(force(&user(&inc)), 4);
    assert_eq!(force(&user(&dbl)), 6);
}
'''
