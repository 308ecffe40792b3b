//! Histories in which the editor and several computations write the same
//! names: a location holds what was written last, and a demand re-establishes
//! what its computations allocate.

use crate::core::*;
use crate::pfam::*;
use crate::prog::*;
use adapton::engine::reflect_dcg;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Op { Set(u8, i64), /** the editor allocates under a name that computations use */ Clob(u8, C), Demand(u8), /** the editor demands the location of such a name */ Peek(u8) }

#[derive(Clone)]
pub struct CSpace { pub prog: Rc<Prog>, pub dom: Vec<Vec<i64>>, pub roots: Vec<u8>, pub clobs: Vec<(u8, C)>, pub len: usize, pub oracles: u32 }

struct CCase { s: CSpace, edits: Vec<Op> }

impl CCase {
    fn new(s: CSpace) -> Option<CCase> {
        let mut edits = vec![];
        for r in &s.roots { edits.push(Op::Demand(*r)) }
        for (i, d) in s.dom.iter().enumerate() { for v in d { edits.push(Op::Set(i as u8, *v)) } }
        let mut names = vec![];
        for (n, c) in &s.clobs { if !names.contains(n) { names.push(*n) } edits.push(Op::Clob(*n, c.clone())) }
        for n in names { edits.push(Op::Peek(n)) }
        Some(CCase { s, edits })
    }
    fn ops(&self, h: u64) -> Vec<Op> {
        let nr = self.s.roots.len() as u64;
        let mut v: Vec<Op> = digits(h / nr, self.edits.len() as u64, self.s.len - 1).into_iter().map(|d| self.edits[d].clone()).collect();
        v.push(Op::Demand(self.s.roots[(h % nr) as usize]));
        v
    }
}

impl Case for CCase {
    fn nhist(&self) -> u64 { (self.edits.len() as u64).pow(self.s.len as u32 - 1) * self.s.roots.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("{} ;; {:?}", self.s.prog.show(), self.ops(h)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let ops = self.ops(h);
        let o = self.s.oracles;
        intern_reset();
        fresh_dcg(&Opts::default());
        start(&self.s.prog, o & (REUSE | GRAPH) != 0);
        let _ = guarded(|| reflect_dcg::dcg_reflect_end());
        rt(|r| { r.inside = o & INSIDE != 0; r.tracing = o & TRACE != 0 });
        take_log();
        let mut content: HashMap<K, (u8, Vec<RV>)> = rt(|r| r.content.clone());
        let mut arts = HashMap::new();
        let mut seen = vec![];
        for (n, op) in ops.iter().enumerate() {
            cx.step();
            let mut dem = None;
            let mut oplog = vec![];
            let before = if o & TRACE != 0 {
                rt(|r| { r.alog.clear(); r.flog.clear() });
                let g = reflect_dcg::dcg_reflect_now();
                reflect_dcg::dcg_reflect_begin();
                g
            } else { None };
            match op {
                Op::Set(i, v) => {
                    let a = rt(|r| r.arts[*i as usize].clone());
                    adapton::engine::set(&a, V::I(*v));
                    rt(|r| { note_alloc(r, ref_key(*i), (0, vec![RV::I(*v)])); r.alog.pop(); });
                    content.insert(ref_key(*i), (0, vec![RV::I(*v)]));
                }
                Op::Clob(m, c) => {
                    let k = intern(&vec![], Id::Nom(INNER0 + *m as u32));
                    let v = match c { C::Cell(v) => mk_cell(INNER0 + *m as u32, inj(v)), C::Thunk(f, a) => mk_thunk(INNER0 + *m as u32, *f, a.iter().map(inj).collect(), false) };
                    let a = if let V::A(a, _) = v { a } else { unreachable!() };
                    if let Some(b) = arts.get(&k) { check!(a == *b, "step {}: allocating again under the same name gave a different articulation", n) }
                    arts.insert(k, a);
                    content.insert(k, match c { C::Cell(v) => (0, vec![v.clone()]), C::Thunk(f, a) => (1 + f, a.clone()) });
                }
                Op::Demand(i) => dem = Some((ref_key(*i), rt(|r| r.arts[*i as usize].clone()))),
                Op::Peek(m) => { let k = intern(&vec![], Id::Nom(INNER0 + *m as u32)); match arts.get(&k) { Some(a) => dem = Some((k, a.clone())), None => { cx.count("cut_histories", 1); return Ok(()) } } }
            }
            let is_demand = dem.is_some();
            if let Some((k, a)) = dem {
                let mut rf = Ref::over_store(&self.s.prog, &content);
                let want = match rf.demand_key(k) { Ok(w) => w, Err(_) => { cx.count("cut_histories", 1); return Ok(()) } };
                let got = demand_art(&a, k);
                let log = take_log();
                if o & TRACE != 0 { oplog = log.clone() }
                if cx.trace_on { cx.narrative.push(format!("step {}: {:?} -> {:?} (from scratch: {:?}); bodies run: {:?}", n, op, got.0, want.val, log.iter().map(|(k, a)| (key_show(*k), a.clone())).collect::<Vec<_>>())) }
                if o & VAL != 0 { check!(got.0 == want.val, "step {}: {:?} gave {:?}, a from-scratch run on the current contents gives {:?}", n, op, got.0, want.val) }
                if o & DEMAND != 0 { for (q, e) in log.iter().enumerate() {
                    check!(want.execs.contains(e), "step {}: {:?} ran the body of {} with args {:?}, which a from-scratch run does not demand", n, op, key_show(e.0), e.1);
                    check!(!log[..q].iter().any(|x| x.0 == e.0), "step {}: {:?} ran the body of {} twice", n, op, key_show(e.0));
                } }
                for (k, c) in &rf.allocs { content.insert(*k, c.clone()); }
                if o & VAL != 0 {
                    // every name holds what was written last
                    let real = rt(|r| r.content.clone());
                    for (k, c) in &rf.allocs { check!(real.get(k) == Some(c), "step {}: after {:?}, {} holds {:?}, a from-scratch run leaves {:?}", n, op, key_show(*k), real.get(k), c) }
                }
                seen.push(got.0);
            } else if o & DEMAND != 0 {
                check!(take_log().is_empty(), "step {}: {:?} executed a thunk body without any demand", n, op);
            }
            if let Some(before) = before {
                let trs = reflect_dcg::dcg_reflect_end();
                let after = reflect_dcg::dcg_reflect_now().unwrap();
                crate::traces::check_op(&before, &after, &trs, &oplog, is_demand).map_err(|e| format!("step {} ({:?}): {}", n, op, e))?;
            }
            if o & (REUSE | INSIDE) != 0 { if let Some(e) = take_err() { return Err(format!("step {}: {}", n, e)) } }
            if o & GRAPH != 0 { crate::graph::check_now().map_err(|e| format!("after step {} ({:?}): {}", n, op, e))?; }
            cx.state(&(n, seen.last()));
        }
        cx.outcome(&seen);
        Ok(())
    }
}

pub struct CFamily { pub name: String, pub bounds: String, pub spaces: Vec<CSpace> }
impl Family for CFamily {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { format!("{}; histories of exactly {} steps ending in a demand, every step checked", self.bounds, self.spaces.get(0).map(|s| s.len).unwrap_or(0)) }
    fn ncases(&self) -> usize { self.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> { CCase::new(self.spaces[i].clone()).map(|c| Box::new(c) as Box<dyn Case>) }
}

/// Bodies that allocate under names 10 (cell) and 0 (thunk of F1), and return the art or use it.
pub fn clobber(len: usize, oracles: u32, rich: bool) -> CFamily {
    let xs = vec![E::K(1), get(0), E::Half(bx(get(1)))];
    let mut allocs = vec![];
    for x in &xs { allocs.push(E::Cell(10, bx(x.clone()))); allocs.push(E::Thunk(0, 1, vec![x.clone()])) }
    let clob = |sh: &str| {
        let mut v = vec![];
        if sh.contains("cell#10") { v.push((10, C::Cell(RV::I(1)))); v.push((10, C::Cell(RV::I(5)))); v.push((10, C::Thunk(1, vec![RV::I(1)]))) }
        if sh.contains("thunk#0") { v.push((0, C::Thunk(1, vec![RV::I(1)]))); v.push((0, C::Thunk(1, vec![RV::I(5)]))); v.push((0, C::Cell(RV::I(1)))) }
        v
    };
    let f1 = E::Add(bx(E::Arg(0)), bx(get(0)));
    let mut spaces = vec![];
    let firsts = |a: &E| vec![a.clone(), E::Get(bx(a.clone())), E::Seq(bx(E::Half(bx(E::Get(bx(a.clone()))))), bx(E::K(7))), E::Seq(bx(a.clone()), bx(get(1)))];
    let mut push = |f0: E, f2: E| {
        let prog = Prog { funs: vec![f0, f1.clone(), f2], locs: vec![C::Cell(RV::I(0)), C::Cell(RV::I(0)), th(0), th(2)] };
        let sh = prog.show();
        spaces.push(CSpace { prog: Rc::new(prog), dom: vec![vec![0, 1], vec![0, 2]], roots: vec![2, 3], clobs: clob(&sh), len, oracles });
    };
    for a in &allocs { for f0 in firsts(a) {
        let mut seconds = vec![];
        let is_art = f0 == *a;
        let g = if is_art { E::Get(bx(get(2))) } else { get(2) };
        seconds.push(E::Half(bx(g.clone())));
        seconds.push(E::Seq(bx(get(2)), bx(get(1))));
        for b in &allocs { if rich || b != a { seconds.push(E::Get(bx(b.clone()))); if rich { seconds.push(b.clone()); seconds.push(E::Seq(bx(b.clone()), bx(get(1)))) } } }
        if rich { seconds.push(E::Add(bx(g), bx(E::Get(bx(a.clone()))))) }
        for f2 in seconds { push(f0.clone(), f2) }
    } }
    CFamily { name: if rich { "clobbered-names-2".into() } else { "clobbered-names".into() },
        bounds: "two root bodies that allocate a cell or thunk name (3 contents each) and return, use or drop the articulation, or demand each other; the editor also allocates under these names and demands their locations; histories in which one demand would both read and overwrite a name are cut".into(), spaces }
}
