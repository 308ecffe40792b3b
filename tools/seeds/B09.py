prop = "C06"
needs = "a mapping family whose difference is directed (it distinguishes growing from shrinking), and an edit in the direction that matters"
breaks = "the difference of the contents of an abstractly observed cell is taken from new to old instead of old to new, so dependants of a directed family stay clean (or become dirty) wrongly"
edits = [("src/engine.rs", "let diff = self.map.1.diff(fst, snd);", "let diff = self.map.1.diff(snd, fst);")]
demo = r'''
#[macro_use] extern crate adapton;
#[allow(unused_imports)] use adapton::macros::*; use adapton::engine::*; use std::rc::Rc; use std::cell::Cell;
#[allow(dead_code)] fn th<R:std::hash::Hash+Eq+std::fmt::Debug+Clone+'static,F:Fn()->R+'static>(n:&'static str, f:F) -> Art<R> { thunk(NameChoice::Nominal(name_of_str(n)), ProgPt{symbol:n}, Rc::new(Box::new(move |(), ()| f())), (), ()) }
#[allow(dead_code)] thread_local!(static CNT: Cell<usize> = Cell::new(0));
#[allow(dead_code)] fn tick() { CNT.with(|c| c.set(c.get()+1)) }
#[allow(dead_code)] fn cnt() -> usize { CNT.with(|c| c.get()) }


// elements that were removed matter to the observers; additions at the end do not
#[derive(Clone)] struct Fam;
impl AbsMapFam<i64,i64,Vec<i64>,Vec<i64>,bool> for Fam {
    fn map(&self, a:i64, v:Vec<i64>) -> bool { v.len() > 0 && v.iter().all(|x| *x != a) || v.contains(&a) && a >= 0 }
    fn abs(&self, a:i64) -> i64 { a }
    fn join(&self, a:i64, _b:i64) -> i64 { a }
    fn diff(&self, old:&Vec<i64>, new:&Vec<i64>) -> Vec<i64> { new.iter().filter(|x| !old.contains(x)).cloned().collect() }
    fn is_dirty(&self, d:Vec<i64>, a:&i64) -> bool { d.contains(a) }
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), vec![1i64]);
    let c2 = c.clone();
    let t = th("t", move || { tick(); force_abs(Box::new(Fam), 5i64, c2.clone()); cnt() });
    force(&t);
    set(&c, vec![1, 5]);
    force(&t);
    assert_eq!(cnt(), 2);
    set(&c, vec![1, 5, 6]);
    force(&t);
    assert_eq!(cnt(), 2);
    set(&c, vec![1]);
    force(&t);
    assert_eq!(cnt(), 2);
}
'''
