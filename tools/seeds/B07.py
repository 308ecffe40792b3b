prop = "C03"
needs = "a thunk re-allocated under its name with an equal argument after its inputs were edited and the edit undone"
breaks = "re-allocating a thunk with an equal argument while it has dirty dependencies drops its cached result, so work whose observations did not change is redone"
edits = [("src/engine.rs", """                                        // Case: Same argument; Nothing else to do:
                                        // do_dirty=false; do_insert=false
                                        (false, false, false)""", """                                        // Case: Same argument; Nothing else to do:
                                        // do_dirty=false; do_insert=false
                                        if comp_nd.succs.iter().any(|succ| succ.dirty) { comp_nd.res = None }
                                        (false, false, false)""")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
fn main() {
    manage::init_dcg();
    let runs = Rc::new(Cell::new(0));
    let c = cell(name_of_str("c"), 1i64);
    let mk = || { let (c, r) = (c.clone(), runs.clone());
        thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(), ()| { r.set(r.get() + 1); force(&c) + 1 })), (), ()) };
    assert_eq!(force(&mk()), 2);
    set(&c, 2); set(&c, 1);
    assert_eq!(force(&mk()), 2);
    assert_eq!(runs.get(), 1);
}
'''
