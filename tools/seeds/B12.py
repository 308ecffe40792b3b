prop = "C10"
needs = "a trace that is being recorded while a computation without cached result is cleaned as a dependency of another one"
breaks = "while a trace is recorded, a dependency that has to be evaluated during cleaning is always taken as changed, so its observer is re-evaluated although nothing it observed has changed"
edits = [("src/engine.rs", "                let changed = self.res != res ;\n                // TODO: changed to reflect::trace somehow?", "                let changed = self.res != res || TRACES.with(|tr| tr.borrow().is_some()) ;\n                // TODO: changed to reflect::trace somehow?")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


fn main() {
    for traced in vec![false, true] {
        manage::init_dcg();
        CNT.with(|c| c.set(0));
        let mk = |a:i64| thunk(NameChoice::Nominal(name_of_str("t")), ProgPt{symbol:"t"}, Rc::new(Box::new(|x:i64, ()| x * x)), a, ());
        let t = mk(2);
        let t2 = t.clone();
        let o = th("o", move || { tick(); force(&t2) });
        assert_eq!(force(&o), 4);
        mk(-2);
        if traced { reflect_dcg::dcg_reflect_begin() }
        assert_eq!(force(&o), 4);
        if traced { reflect_dcg::dcg_reflect_end(); }
        assert_eq!(cnt(), 1);
    }
}
'''
