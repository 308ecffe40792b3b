prop = 'C03'
needs = 'a computation with more than 32 dependencies one of which is dirty but unchanged'
breaks = 'a computation with many dependencies runs again as soon as any of them is dirty, even when it is unchanged'
edits = [('src/engine.rs', '            if res.changed {\n                dcg_effect_begin!(reflect::trace::Effect::CleanEval', '            if res.changed || succs.len() > 32 {\n                dcg_effect_begin!(reflect::trace::Effect::CleanEval')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let cs: Vec<Art<i64>> = (0..40).map(|i| cell(name_of_usize(i), i as i64)).collect();
    let cs2 = cs.clone();
    let t = th("t", move || { tick(); cs2.iter().map(|c| force(c)).sum::<i64>() });
    assert_eq!(force(&t), 780);
    let n = cnt();
    set(&cs[7], 100); set(&cs[7], 7);
    assert_eq!(force(&t), 780);
    assert_eq!(cnt(), n);
}
'''
