prop = 'C07'
needs = 'namespaces nested more than eight deep, one of which uses the same name as another'
breaks = 'namespaces nested deeper than eight share the path of the eighth'
edits = [('src/engine.rs', '            st.path = Rc::new(Path::Child(st.path.clone(), nm)) ;', '            let deep = { let mut n = 0; let mut p = st.path.clone(); loop { p = match *p { Path::Empty => break, Path::Child(ref q, _) => q.clone() }; n += 1; } n };\n            if deep < 8 { st.path = Rc::new(Path::Child(st.path.clone(), nm)) };')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn nest(d:usize, last:usize, v:i64) -> Art<i64> { if d == 0 { ns(name_of_usize(100 + last), || cell(name_of_str("c"), v)) } else { ns(name_of_usize(d), || nest(d - 1, last, v)) } }
fn main() {
    manage::init_dcg();
    let a = nest(10, 0, 1); let b = nest(10, 1, 2);
    assert_eq!((force(&a), force(&b)), (1, 2));
}
'''
