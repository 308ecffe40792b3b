prop = 'C21'
needs = 'bit strings longer than 12 bits'
breaks = 'shifts of bit strings to the left keep only the lower 12 bits'
edits = [('src/catalog/bitstring.rs', 'value:(bs.value << i) & (2i64.pow(bs.length as u32) - 1),', 'value:(bs.value << i) & (2i64.pow(if bs.length > 12 { 12 } else { bs.length as u32 }) - 1),')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



use adapton::catalog::bitstring::*;
fn main() {
    let bs = BS { length: 13, value: 1 };
    assert_eq!(BS::shift_left(bs, 12).value, 1 << 12);
}
'''
