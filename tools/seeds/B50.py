prop = 'C11'
needs = 'a trace of a re-allocation that dirties the allocating computation'
breaks = 'the trace of a re-allocation names the allocated node as the origin of the dirtied edge, not the allocating one'
edits = [('src/engine.rs', '                assert!(&pred_loc != loc);\n                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);\n                false\n            }} ;\n        if !stop {\n            dirty_pred_observers(st,&pred_loc);', '                assert!(&pred_loc != loc);\n                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(loc), succ);\n                false\n            }} ;\n        if !stop {\n            dirty_pred_observers(st,&pred_loc);')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::reflect::{self, trace::*, Reflect};
fn dirties(ts:&Vec<Trace>, out:&mut Vec<(Option<reflect::Loc>, reflect::Loc)>) { for t in ts {
    match (&t.effect, &t.edge) { (Effect::Dirty, EffectEdge::Fwd(e)) => out.push((e.loc.clone(), e.succ.loc.clone())), _ => () }
    dirties(&t.extent, out) } }
fn alloc(x:i64) -> Art<i64> { thunk(NameChoice::Nominal(name_of_str("n")), ProgPt{symbol:"n"}, Rc::new(Box::new(|x:i64, ()| x)), x, ()) }
fn main() {
    manage::init_dcg();
    let a = th("a", || { alloc(1); 0i64 });
    force(&a);
    reflect::dcg_reflect_begin();
    alloc(2);
    let mut out = vec![]; dirties(&reflect::dcg_reflect_end(), &mut out);
    assert_eq!(out.len(), 1);
    let from = format!("{:?}", out[0].0); let to = format!("{:?}", Some(out[0].1.clone()));
    assert_ne!(from, to);
}
'''
