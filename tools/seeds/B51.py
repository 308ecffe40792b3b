prop = 'C15'
needs = 'two names made of strings with the same first sixteen characters'
breaks = 'names made of owned strings hash only the first sixteen bytes'
edits = [('src/engine.rs', 'pub fn name_of_string (s:String) -> Name {\n    let h = my_hash(&s);', 'pub fn name_of_string (s:String) -> Name {\n    let h = if s.len() > 16 && s.is_char_boundary(16) { my_hash(&s[..16]) } else { my_hash(&s) };')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    assert_ne!(name_of_string("adapton/collections/1".to_string()), name_of_string("adapton/collections/2".to_string()));
    assert_eq!(name_of_string("adapton/collections/1".to_string()), name_of_str("adapton/collections/1"));
}
'''
