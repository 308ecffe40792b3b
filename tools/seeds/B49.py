prop = 'C06'
needs = 'a computation that forces a cell through a family of abstractions twice, with different arguments'
breaks = 'a second force of a cell through another abstraction is not recorded'
edits = [('src/engine.rs', '                            frame.succs.push((succ, Some(dep.clone())));\n                        }};\n                        res\n                    }\n                }\n            }\n        }\n    }\n\n    fn force<T', '                            if frame.succs.iter().all(|&(ref s, _)| s.loc != *loc) { frame.succs.push((succ, Some(dep.clone()))) };\n                        }};\n                        res\n                    }\n                }\n            }\n        }\n    }\n\n    fn force<T')]
demo = r'''#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }



#[derive(Clone)] struct Fam;
impl AbsMapFam<usize,usize,Vec<i64>,Vec<usize>,i64> for Fam {
    fn map(&self, a:usize, v:Vec<i64>) -> i64 { v[a] }
    fn abs(&self, a:usize) -> usize { a }
    fn join(&self, a:usize, _b:usize) -> usize { a }
    fn diff(&self, old:&Vec<i64>, new:&Vec<i64>) -> Vec<usize> { (0..old.len()).filter(|&i| old[i] != new[i]).collect() }
    fn is_dirty(&self, d:Vec<usize>, a:&usize) -> bool { d.contains(a) }
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), vec![1i64, 2, 3]);
    let c2 = c.clone();
    let t = th("t", move || force_abs(Box::new(Fam), 0usize, c2.clone()) + force_abs(Box::new(Fam), 2usize, c2.clone()));
    assert_eq!(force(&t), 4);
    set(&c, vec![1, 2, 10]);
    assert_eq!(force(&t), 11);
}
'''
