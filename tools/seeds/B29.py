prop = 'C09'
needs = 'a computation that allocates a structurally identified thunk (as the first one that does)'
breaks = 'the allocation edge of a new structurally identified thunk is missing from the graph'
edits = [('src/engine.rs', '                match self.stack.last_mut() {\n                    None => (),\n                    Some(frame) => {\n                        let succ =\n                            Succ{loc:loc.clone(),\n                                 dep:Rc::new(Box::new(AllocStructuralThunk)),', '                match self.stack.last_mut() {\n                    None => (),\n                    Some(_) if self.flags.use_purity_optimization => (),\n                    Some(frame) => {\n                        let succ =\n                            Succ{loc:loc.clone(),\n                                 dep:Rc::new(Box::new(AllocStructuralThunk)),')]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    use adapton::engine::reflect_dcg::dcg_reflect_now;
    manage::init_dcg();
    let a = th("a", || thunk(NameChoice::Structural, prog_pt!("id"), Rc::new(Box::new(|x:i64, ()| x)), 1i64, ()));
    assert_eq!(force(&force(&a)), 1);
    let g = dcg_reflect_now().unwrap();
    let n: usize = g.table.values().map(|n| match n { adapton::reflect::Node::Comp(c) => c.succs.len(), _ => 0 }).sum();
    assert_eq!(n, 1);
}
'''
