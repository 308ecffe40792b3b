prop = "C02"
needs = "a thunk with three dirty dependencies where the first one changed its value, and after this change the third one is no longer demanded"
breaks = "cleaning goes on through the later dirty dependencies although the thunk is to be re-evaluated anyway: it runs bodies that a from-scratch evaluation would not run"
edits = [("src/engine.rs", "            let res = succ_dep.clean(g, &succ.loc) ;\n            if res.changed {", "            let res = succ_dep.clean(g, &succ.loc) ;\n            if res.changed && succ.effect == Effect::Observe {\n                for later in succs[i + 1..].iter().skip(1).filter(|later| later.dirty && later.effect == Effect::Observe) {\n                    let _ = later.dep.clean(g, &later.loc) ;\n                }\n            }\n            if res.changed {")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_dcg();
    let b = cell(name_of_str("b"), true);
    let c = cell(name_of_str("c"), 0i64);
    let c2 = c.clone();
    let t = th("t", move || { tick(); force(&c2) });
    let b2 = b.clone();
    let d = cell(name_of_str("d"), 0i64); let d2 = d.clone();
    let o = th("o", move || { if force(&b2) { force(&d2) + force(&t) } else { 7i64 } });
    assert_eq!(force(&o), 0);
    assert_eq!(cnt(), 1);
    set(&b, false);
    set(&d, 1);
    set(&c, 1);
    assert_eq!(force(&o), 7);
    assert_eq!(cnt(), 1);
}
'''
