prop = 'C17'
needs = 'an integer at the limit of i64, or one written with leading zeros'
breaks = 'the parser of values keeps at most eighteen characters of a number'
edits = [('src/parse_val.rs', "                                if c >= '0' && c <= '9' { \n                                    digs.push(c); ", "                                if c >= '0' && c <= '9' { \n                                    if digs.len() < 18 { digs.push(c) } ")]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::parse_val::parse_val;
fn main() {
    let x = 1234567890123456789i64;
    assert_eq!(format!("{:?}", parse_val(&x)), format!("{:?}", adapton::reflect::Val::Const(adapton::reflect::Const::Nat(x as usize))));
}
'''
