prop = "C07"
needs = "a thunk created inside a namespace, demanded from outside of it, that itself allocates a name also used at the demand site"
breaks = "a demanded thunk runs in the namespace of its demander instead of the one it was created in, so equal names collide"
edits = [("src/engine.rs", "        st.path = loc.path.clone() ;\n        let (producer", "        let (producer")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use std::rc::Rc;
fn main() {
    manage::init_dcg();
    let t = ns(name_of_str("space"), || thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(), ()| {
        let c = cell(name_of_str("c"), 1i64); c })), (), ()));
    let outer = cell(name_of_str("c"), 5i64);
    let inner = force(&t);
    assert!(inner != outer);
    assert_eq!(force(&outer), 5);
    assert_eq!(force(&inner), 1);
}
'''
