prop = "C04"
needs = "a computation allocates a named cell without reading it and returns the articulation; its demander reads it; the editor re-allocates the cell with another value"
breaks = "re-allocation marks the allocator's edge dirty but not the edges that demand the allocator, so the demander is thought clean"
edits = [("src/engine.rs", """                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                false
            }} ;
        if !stop {
            dirty_pred_observers(st,&pred_loc);
            dcg_effect_end!();
        } else {  }""", """                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                false
            }} ;
        if !stop {
            dcg_effect_end!();
        } else {  }""")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use std::rc::Rc;
fn main() {
    manage::init_dcg();
    let a = thunk(NameChoice::Nominal(name_of_str("a")), prog_pt!("a"), Rc::new(Box::new(move |(), ()| { let c = cell(name_of_str("c"), 1i64); c })), (), ());
    let a2 = a.clone();
    let o = thunk(NameChoice::Nominal(name_of_str("o")), prog_pt!("o"), Rc::new(Box::new(move |(), ()| { force(&a2); 7i64 })), (), ());
    assert_eq!(force(&o), 7);
    let c = cell(name_of_str("c"), 5i64);
    assert_eq!(force(&o), 7);
    // `a` allocates c with content 1, so demanding o re-establishes it
    assert_eq!(force(&c), 1);
}
'''
