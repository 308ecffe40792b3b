prop = 'C26'
needs = 'a drawing while an allocation edge is dirty, that is, after someone else re-allocated what a computation had allocated'
breaks = 'drawings show a dirty allocation edge as a clean one'
edits = [('src/engine.rs', '                if succ.dirty {\n                    writeln!(&mut writer, "\\"{:?}\\" -> \\"{:?}\\" [color=red', '                if succ.dirty && succ.effect == super::Effect::Observe {\n                    writeln!(&mut writer, "\\"{:?}\\" -> \\"{:?}\\" [color=red')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



fn last() -> String { let mut v: Vec<_> = std::fs::read_dir(".").unwrap().map(|e| e.unwrap().path()).filter(|p| p.to_string_lossy().contains("adapton-dcg")).collect(); v.sort(); std::fs::read_to_string(v.last().unwrap()).unwrap() }
fn scratch() { let d = std::env::current_exe().unwrap().parent().unwrap().join("drawings"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap(); std::env::set_var("ADAPTON_WRITE_DCG", "1"); manage::init_dcg(); }

fn main() {
    scratch();
    let t = th("t", || { let c = cell(name_of_str("c"), 1i64); c });
    force(&t);
    assert!(last().contains("darkgreen") && !last().contains("red"));
    let _: Art<i64> = cell(name_of_str("c"), 2);
    assert!(!last().contains("darkgreen") && last().contains("red"));
}
'''
