prop = "C16"
needs = "two naive thunks with arguments of the same type and hash-relevant parts, of the same function, one compared with the other inside a value"
breaks = "two naive thunks of the same function are equal whatever their arguments are"
edits = [("src/engine.rs", "if let EnumArt::Force(ref f2) = *other { f.eq(&**f2) } else { false },", "if let EnumArt::Force(ref f2) = *other { f.prog_pt() == f2.prog_pt() && f.id() == f2.id() } else { false },")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let mk = |a:i64| thunk(NameChoice::Naive, ProgPt{symbol:"t"}, Rc::new(Box::new(|x:i64, ()| x)), a, ());
    assert!(mk(1) == mk(1));
    assert!(mk(1) != mk(2));
    let c = cell(name_of_str("c"), mk(1));
    let c2 = c.clone();
    let o = th("o", move || force(&force(&c2)));
    assert_eq!(force(&o), 1);
    set(&c, mk(2));
    assert_eq!(force(&o), 2);
}
'''
