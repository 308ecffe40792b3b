prop = "C23"
needs = "two functions with equal labels used at one name (or with equal arguments) through the form of thunk! or memo! with spurious arguments"
breaks = "thunks with spurious arguments are identified by their labels instead of their function: different functions are one program point, so the second reuses the result of the first"
edits = [("src/macros.rs", "          prog_pt!(stringify!($fun)),\n          Rc::new(Box::new(\n              move | arg1 , arg2 | {", "          prog_pt!(stringify!($( $lab ),* ;; $( $lab2 ),*)),\n          Rc::new(Box::new(\n              move | arg1 , arg2 | {")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn add(x:i64, _u:()) -> i64 { x + 10 }
fn sub(x:i64, _u:()) -> i64 { x - 10 }
fn main() {
    manage::init_dcg();
    let a = memo!(name_of_str("n") =>> add, x:1 ;; u:());
    assert_eq!(a, 11);
    let b = std::panic::catch_unwind(|| memo!(name_of_str("n") =>> sub, x:1 ;; u:()));
    assert!(match b { Err(_) => true, Ok(v) => v == -9 });
}
'''
