prop = 'C24'
needs = 'a nested re-evaluation that panics during change propagation of a demand, followed by a second demand after the editor caught the panic'
breaks = 'a dependency is marked clean before it has been cleaned: when its re-evaluation panics, its observers are thought up to date and give their stale results'
edits = [('src/engine.rs', '            let res = succ_dep.clean(g, &succ.loc) ;\n', '            get_succ_mut(&mut *g.borrow_mut(), loc, succ.effect.clone(), &succ.loc).dirty =\n                succs[i + 1..].iter().any(|later| later.effect == succ.effect && later.loc == succ.loc) ;\n            let res = succ_dep.clean(g, &succ.loc) ;\n')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    let c1 = c.clone(); let b = th("b", move || { let x = force(&c1); if x < 0 { panic!("negative") }; x });
    let b1 = b.clone(); let a = th("a", move || force(&b1) + 100);
    assert_eq!(force(&a), 101);
    set(&c, -1);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&a))).is_err());
    // the input is still the bad one
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&a)));
    assert!(r.is_err(), "stale {:?}", r.ok());
    set(&c, 2);
    assert_eq!(force(&a), 102);
}
'''
