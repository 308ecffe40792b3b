prop = 'C13'
needs = 'setting a location that holds a thunk'
breaks = 'setting a thunk is silently ignored instead of refused'
edits = [('src/engine.rs', '                        true\n                    }},\n                _ => unreachable!(),', '                        true\n                    }},\n                _ => false,')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let t = th("t", || 1);
    assert_eq!(force(&t), 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| set(&t, 2)));
    assert!(r.is_err());
}
'''
