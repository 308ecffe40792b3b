prop = 'C11'
needs = 'a traced demand, by a computation, of a thunk with cached result that it has demanded before'
breaks = 'repeated demands of a cached thunk are traced as first demands (is_dup is false)'
edits = [('src/engine.rs', '                                reflect::trace::Effect::Force(reflect::trace::ForceCase::CompCacheHit),\n                                current_loc!(*g.borrow()),\n                                reflect::Succ{\n                                    loc:loc.reflect(),\n                                    value:reflect::Val::ValTODO,\n                                    effect:reflect::Effect::Force,\n                                    dirty:false,\n                                    is_dup:is_dup,', '                                reflect::trace::Effect::Force(reflect::trace::ForceCase::CompCacheHit),\n                                current_loc!(*g.borrow()),\n                                reflect::Succ{\n                                    loc:loc.reflect(),\n                                    value:reflect::Val::ValTODO,\n                                    effect:reflect::Effect::Force,\n                                    dirty:false,\n                                    is_dup:is_dup && !is_comp,')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    use adapton::engine::reflect_dcg; use adapton::reflect::trace::*;
    manage::init_dcg();
    let b = th("b", || 1i64);
    let b1 = b.clone(); let a = th("a", move || force(&b1) + force(&b1));
    reflect_dcg::dcg_reflect_begin();
    assert_eq!(force(&a), 2);
    let t = reflect_dcg::dcg_reflect_end();
    fn dups(t:&Vec<Trace>) -> usize { t.iter().map(|x| dups(&*x.extent) + if (match x.edge { EffectEdge::Fwd(ref e) => e.succ.is_dup, _ => false }) { 1 } else { 0 }).sum() }
    assert_eq!(dups(&t), 1);
}
'''
