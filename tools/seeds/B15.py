prop = "C14"
needs = "a structurally identified thunk under the naive engine, demanded more or less often than once"
breaks = "the naive engine evaluates structurally identified thunks once, when they are allocated, instead of at every demand"
edits = [("src/engine.rs", "            Engine::Naive => {\n                Art{art:EnumArt::Force(\n                    Rc::new(NaiveThunk{", "            Engine::Naive if id == NameChoice::Structural => {\n                Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))}\n            },\n            Engine::Naive => { Art{art:EnumArt::Force(\n                    Rc::new(NaiveThunk{"),
 ("src/engine.rs", "                        spurious:spurious} ))}}}\n    })", "                        spurious:spurious} ))} }}\n    })")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    manage::init_naive();
    let t = thunk(NameChoice::Structural, ProgPt{symbol:"t"}, Rc::new(Box::new(|x:i64, ()| { tick(); x })), 3, ());
    assert_eq!(cnt(), 0);
    assert_eq!((force(&t), force(&t)), (3, 3));
    assert_eq!(cnt(), 2);
}
'''
