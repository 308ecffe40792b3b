prop = 'C26'
needs = 'a set of a cell, with drawings on, followed by a look at the last drawing'
breaks = 'a set is not followed by a drawing of the edges that it dirtied'
edits = [('src/engine.rs', '        set_(self, cell, val);\n        wf::check_dcg(self);\n    }', '        set_(self, cell, val);\n    }')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn last() -> String { let mut v: Vec<_> = std::fs::read_dir(".").unwrap().map(|e| e.unwrap().path()).filter(|p| p.to_string_lossy().contains("adapton-dcg")).collect(); v.sort(); std::fs::read_to_string(v.last().unwrap()).unwrap() }
fn scratch() { let d = std::env::current_exe().unwrap().parent().unwrap().join("drawings"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap(); std::env::set_var("ADAPTON_WRITE_DCG", "1"); manage::init_dcg(); }

fn main() {
    scratch();
    let c = cell(name_of_str("c"), 1i64); let c1 = c.clone();
    let t = th("t", move || force(&c1));
    force(&t);
    assert!(!last().contains("red"));
    set(&c, 2);
    assert!(last().contains("red"));
}
'''
