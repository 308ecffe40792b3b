prop = "C21"
needs = "a bit that is clear below a higher bit that is set"
breaks = "toggling a clear bit below a set one subtracts instead of adding"
edits = [("src/catalog/bitstring.rs", "if n & b == n {\n            return b", "if b >= n {\n            return b")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


use adapton::catalog::bitstring::*;
fn main() {
    for b in 0..32i64 { for i in 0..6 { assert_eq!(BS::flip(i, b), b ^ (1 << i)) } }
}
'''
