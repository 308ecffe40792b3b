prop = "C17"
needs = "an articulation that was allocated within two nested namespaces with different names"
breaks = "the namespace path of an articulation found in reflected data is reversed, so the reflected location is not the one of its node"
edits = [("src/parse_val.rs", "Val::Vec( ref vs ) => vs.iter().map( name_of_val ).collect(),", "Val::Vec( ref vs ) => vs.iter().rev().map( name_of_val ).collect(),")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::reflect;
use adapton::parse_val::parse_val;
fn main() {
    manage::init_dcg();
    let c = ns(name_of_str("p"), || ns(name_of_str("q"), || cell(name_of_str("c"), 1i64)));
    let d = reflect_dcg::dcg_reflect_now().unwrap();
    match parse_val(&c) { reflect::Val::Art(ref l, _) => assert!(d.table.contains_key(l)), v => panic!("{:?}", v) }
}
'''
