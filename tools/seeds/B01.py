prop = "C01"
needs = "an intermediate thunk demanded directly between two edits, whose value changes on the first edit and not on the second, while an outer observer still holds the value from before the first"
breaks = "cleaning a dependency compares the re-evaluated result with the value cached at the dependency instead of the value this edge observed, so the outer demand returns a stale value"
edits = [("src/engine.rs", "let changed = result != this_dep.res ;", "let changed = result != cache ;")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use std::rc::Rc;
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 0i64);
    let c2 = c.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(), ()| { let v = force(&c2); if v > 1 { 1i64 } else { v } })), (), ());
    let t2 = t.clone();
    let o = thunk(NameChoice::Nominal(name_of_str("o")), prog_pt!("o"), Rc::new(Box::new(move |(), ()| force(&t2) + 10i64)), (), ());
    assert_eq!(force(&o), 10);
    set(&c, 1);
    assert_eq!(force(&t), 1);
    set(&c, 2);
    assert_eq!(force(&o), 11);
}
'''
