prop = 'C05'
needs = 'a cell that is set and set back between two demands, with a computation that observed it through a projection'
breaks = 'a projected observation whose edge is dirty is always taken as changed'
edits = [('src/engine.rs', '    fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {\n        check_force_map_dep(&mut *g.borrow_mut(), self, loc)\n    }', '    fn clean(self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {\n        DCGRes{changed:true}\n    }')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (1i64, 2i64));
    let c1 = c.clone(); let t = th("t", move || { tick(); force_map(&c1, |_, v| v.0) });
    assert_eq!(force(&t), 1);
    let n = cnt();
    set(&c, (5, 2)); set(&c, (1, 3));
    assert_eq!(force(&t), 1);
    assert_eq!(cnt(), n);
}
'''
