prop = "C05"
needs = "a computation that observes two different projections of the same cell, and an edit that changes only the second projection"
breaks = "a projection recorded after another projection of the same cell by the same computation is treated as already observed, so its changes are missed"
edits = [("src/engine.rs", """                            let dep : Rc<Box<dyn DCGDep>> = Rc::new(Box::new(ForceMapDep{
                                raw:PhantomData,
                                mapf:mapf,
                                res:res.clone()}));
                            let succ =
                                Succ{loc:loc.clone(),
                                     dep:dep.clone(),
                                     effect:Effect::Observe,
                                     dirty:false};
                            frame.succs.push((succ, Some(dep.clone())));""", """                            let dep : Rc<Box<dyn DCGDep>> = Rc::new(Box::new(ForceMapDep{
                                raw:PhantomData,
                                mapf:mapf,
                                res:res.clone()}));
                            let succ =
                                Succ{loc:loc.clone(),
                                     dep:dep.clone(),
                                     effect:Effect::Observe,
                                     dirty:false};
                            let is_dup = frame.succs.iter().any(|prev| &prev.0.loc == loc && prev.0.effect == Effect::Observe);
                            if !is_dup { frame.succs.push((succ, Some(dep.clone()))) };""")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use std::rc::Rc;
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (1i64, 2i64));
    let c2 = c.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(), ()| {
        let a = force_map(&c2, |_, p| p.0); let b = force_map(&c2, |_, p| p.1); a + b })), (), ());
    assert_eq!(force(&t), 3);
    set(&c, (1, 5));
    assert_eq!(force(&t), 6);
    set(&c, (2, 5));
    assert_eq!(force(&t), 7);
}
'''
