prop = 'C14'
needs = 'a mapping function that uses the articulation it is given, under the naive engine'
breaks = 'force_map gives the mapping function an articulation of its own, instead of the one demanded, under the naive engine'
edits = [('src/engine.rs', 'EnumArt::Force(ref f) => mapf(a, f.force()),', 'EnumArt::Force(ref f) => { let v = f.force(); mapf(&Art{art:EnumArt::Rc(Rc::new(v.clone()))}, v) },')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    fn run() -> (bool, bool) {
        let t = th("t", || { tick(); 1i64 });
        let u = t.clone();
        let eq = force_map(&t, move |a, v| v == 1 && *a == u);
        let c = cnt();
        // a mapping that demands the articulation once more
        let two = force_map(&t, |a, v| v + force(a));
        (eq && two == 2, cnt() - c <= 2)
    }
    manage::init_dcg(); let d = run().0;
    manage::init_naive(); let n = run().0;
    assert!(d); assert!(n);
}
'''
