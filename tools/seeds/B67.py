prop = 'C23'
needs = 'two structural eager! calls of one generic function with different arguments'
breaks = 'the eager! form for generic functions passes the arguments as spurious ones: a call with other arguments gives the earlier result'
edits = [('src/macros.rs', '       Rc::new(Box::new(\n         |args, _|{\n           let ($( $lab ),*) = args ;\n           $f :: < $( $ty ),* >( $( $lab ),* )\n         })),\n       ( $( $arg ),* ),\n       ()\n', '       Rc::new(Box::new(\n         |_, args|{\n           let ($( $lab ),*) = args ;\n           $f :: < $( $ty ),* >( $( $lab ),* )\n         })),\n       (),\n       ( $( $arg ),* )\n')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn add<A: Into<i64>, B: Into<i64>>(a: A, b: B) -> i64 { a.into() + b.into() }
fn main() {
    manage::init_dcg();
    let (_, x) = eager!(add::<i64, i32>, a:3i64, b:4i32);
    let (_, y) = eager!(add::<i64, i32>, a:5i64, b:4i32);
    assert_eq!((x, y), (7, 9));
}
'''
