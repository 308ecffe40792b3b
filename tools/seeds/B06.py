prop = "C11"
needs = "a traced demand in which a computation re-allocates a named thunk with a changed argument, dirtying its observers"
breaks = "trace_count attributes the dirtying caused by re-allocations of running computations to the editor"
edits = [("src/reflect.rs", """                    Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => {
                        c.alloc_change.1 += 1;
                        for sub_tr in tr.extent.iter() { 
                            trace_count_rec(Role::Archivist, sub_tr, c);""", """                    Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => {
                        c.alloc_change.1 += 1;
                        for sub_tr in tr.extent.iter() { 
                            trace_count_rec(Role::Editor, sub_tr, c);""")]
demo = r'''
#[macro_use] extern crate adapton;
use adapton::macros::*; use adapton::engine::*; use adapton::reflect; use std::rc::Rc;
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1i64);
    let c2 = c.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(), ()| {
        let x = force(&c2);
        thunk(NameChoice::Nominal(name_of_str("n")), prog_pt!("n"), Rc::new(Box::new(|x: i64, ()| x * 2)), x, ()) })), (), ());
    let t2 = t.clone();
    let o = thunk(NameChoice::Nominal(name_of_str("o")), prog_pt!("o"), Rc::new(Box::new(move |(), ()| { let n: Art<i64> = force(&t2); force(&n) })), (), ());
    assert_eq!(force(&o), 2);
    set(&c, 5);
    reflect::dcg_reflect_begin();
    assert_eq!(force(&o), 10);
    let k = reflect::trace::trace_count(&reflect::dcg_reflect_end(), None);
    assert_eq!((k.alloc_change, k.dirty), ((0, 1), (0, 1)));
}
'''
