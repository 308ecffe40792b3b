//! Families of (program x edit/demand history) cases.

use crate::core::*;
use crate::prog::*;
use adapton::engine::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const VAL: u32 = 1;
pub const DEMAND: u32 = 2;
pub const REUSE: u32 = 4;
pub const GRAPH: u32 = 8;
pub const INSIDE: u32 = 16;
pub const TRACE: u32 = 32;
/// unnamed thunks are evaluated as often as they are demanded
pub const UNNAMED: u32 = 64;
/// drawings of the graph are written, and show it
pub const DRAWN: u32 = 128;

#[derive(Clone, Debug)]
pub enum Op {
    /// `set` (the name holds a cell and stays one)
    Set(u8, RV),
    /// allocate the editor's i-th name again, with this content
    Alloc(u8, C),
    Demand(u8),
    /// demand, with a panic at the n-th event of the bodies that run
    Fault(u8, u32),
}
pub const SET: u8 = 1;
pub const ALLOC: u8 = 2;

#[derive(Clone, Copy, Default, Debug)]
pub struct Opts { pub no_purity: bool, pub check_wf: bool, pub traces: bool, pub nameless: bool, pub debug: bool, pub reflect: bool, pub opaque: bool, /** settings in the environment when the engine is made */ pub env: u8 }

#[derive(Clone)]
pub struct Space {
    pub prog: Rc<Prog>,
    /// the editor's name i may hold any of dom[i]
    pub dom: Vec<Vec<C>>,
    /// names that are demanded
    pub roots: Vec<u8>,
    pub how: u8,
    pub len: usize,
    pub oracles: u32,
    pub opts: Opts,
}

type St = Vec<C>;

pub struct PCase {
    s: Space,
    edits: Vec<Op>,
    refs: HashMap<St, Vec<RefRun>>,
    /// where there are too many states: by state and root, as they are needed
    lazy: Option<HashMap<(St, usize), RefRun>>,
}

pub fn product<T: Clone>(ds: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for d in ds {
        let mut n = vec![];
        for o in &out { for x in d { let mut v = o.clone(); v.push(x.clone()); n.push(v) } }
        out = n;
    }
    out
}

impl PCase {
    /// None if some reachable state makes the program illegal (ambiguous
    /// name, cycle) or if nothing in it depends on the input.
    pub fn new(s: Space) -> Option<PCase> {
        intern_reset();
        let mut refs = HashMap::new();
        let mut vals = std::collections::HashSet::new();
        for st in product(&s.dom) {
            let mut rs = vec![];
            // all roots in one store: what they share must agree
            let mut all = Ref::new(&s.prog, &st);
            all.nameless = s.opts.nameless;
            for r in &s.roots {
                if all.demand(*r as usize).is_err() { return None }
                let mut rf = Ref::new(&s.prog, &st);
                rf.nameless = s.opts.nameless;
                match rf.demand(*r as usize) { Err(_) => return None, Ok(x) => rs.push(x) }
            }
            vals.insert(rs.iter().map(|r| r.val.clone()).collect::<Vec<_>>());
            refs.insert(st, rs);
        }
        if vals.len() < 2 { return None }
        let mut edits = vec![];
        for r in &s.roots { edits.push(Op::Demand(*r)) }
        for (i, d) in s.dom.iter().enumerate() { if d.len() > 1 { for v in d {
            let i = i as u8;
            match v {
                C::Cell(x) if s.how & SET != 0 => { edits.push(Op::Set(i, x.clone())); if s.how & ALLOC != 0 { edits.push(Op::Alloc(i, v.clone())) } }
                _ => edits.push(Op::Alloc(i, v.clone())),
            }
        } } }
        Some(PCase { s, edits, refs, lazy: None })
    }
    pub fn on_demand(s: Space) -> PCase { PCase { s, edits: vec![], refs: HashMap::new(), lazy: Some(HashMap::new()) } }
    fn need(&mut self, st: &St, ri: usize) -> R {
        if let Some(ref mut lz) = self.lazy {
            let k = (st.clone(), ri);
            if !lz.contains_key(&k) {
                let mut rf = Ref::new(&self.s.prog, st);
                rf.nameless = self.s.opts.nameless;
                let x = rf.demand(self.s.roots[ri] as usize).map_err(|e| format!("harness: {:?}", e))?;
                lz.insert(k, x);
            }
        }
        Ok(())
    }
    fn want(&self, st: &St, ri: usize) -> &RefRun {
        match self.lazy { Some(ref lz) => &lz[&(st.clone(), ri)], None => &self.refs[st][ri] }
    }
    fn ops(&self, h: u64) -> Vec<Op> {
        let nr = self.s.roots.len() as u64;
        let last = (h % nr) as usize;
        let mut v: Vec<Op> = digits(h / nr, self.edits.len() as u64, self.s.len - 1).into_iter().map(|d| self.edits[d].clone()).collect();
        v.push(Op::Demand(self.s.roots[last]));
        v
    }
}

impl Case for PCase {
    fn nhist(&self) -> u64 { (self.edits.len() as u64).pow(self.s.len as u32 - 1) * self.s.roots.len() as u64 }
    fn describe(&self, h: u64) -> String { format!("{} ;; {:?}", self.s.prog.show(), self.ops(h)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R { let ops = self.ops(h); self.run_ops(&ops, cx) }
}
impl PCase {
    pub fn run_ops(&mut self, ops: &[Op], cx: &mut Ctx) -> R {
        let o = self.s.oracles;
        if o & DRAWN != 0 { crate::draw::begin() }
        fresh_dcg(&self.s.opts);
        // a trace left open by a history that failed
        let _ = guarded(|| reflect_dcg::dcg_reflect_end());
        start(&self.s.prog, self.s.oracles & (REUSE | GRAPH) != 0);
        rt(|r| { r.inside = self.s.oracles & INSIDE != 0; r.drawn = o & DRAWN != 0 && { let p = format!("{:?}", self.s.prog.funs); !p.contains("Map(") && !p.contains("Abs(") }; r.debug = self.s.opts.debug; r.tracing = o & TRACE != 0; });
        if self.s.opts.traces { reflect_dcg::dcg_reflect_begin() }
        check!(take_log().is_empty() || o & DEMAND == 0, "allocating cells and thunks executed a thunk body without any demand");
        let mut st: St = self.s.prog.locs.clone();
        let mut observed: Vec<RV> = vec![];
        for (n, op) in ops.iter().enumerate() {
            cx.step();
            let before = if o & TRACE != 0 {
                rt(|r| { r.alog.clear(); r.flog.clear() });
                let g = reflect_dcg::dcg_reflect_now();
                reflect_dcg::dcg_reflect_begin();
                if self.s.opts.debug { reflect_dcg::debug_begin(None, Some("editor".to_string())) }
                g
            } else { None };
            if self.s.opts.reflect {
                let g = reflect_dcg::dcg_reflect_now();
                reflect_dcg::debug_effect(Some(nm(2)), None);
                let h = reflect_dcg::dcg_reflect_now();
                check!(g.map(|g| g.table) == h.map(|g| g.table), "step {}: reflecting the graph twice gives two graphs", n);
            }
            let mut oplog = vec![];
            match op {
                Op::Set(c, v) => {
                    let i = *c as usize;
                    let a = rt(|r| r.arts[i].clone());
                    let nc = C::Cell(v.clone());
                    if let C::Cell(_) = st[i] {
                        rt(|r| { note_alloc(r, ref_key(*c), (0, vec![v.clone()])); r.alog.pop(); });
                        set(&a, inj(v));
                    } else {
                        let b = ed_alloc(i, &nc);
                        check!(a == b, "step {}: allocating again under the same name gave a different articulation", n);
                    }
                    st[i] = nc;
                }
                Op::Alloc(c, v) => {
                    let i = *c as usize;
                    let was = rt(|r| r.arts[i].clone());
                    let a = ed_alloc(i, v);
                    check!(a == was, "step {}: allocating again under the same name gave a different articulation", n);
                    rt(|r| r.arts[i] = a);
                    st[i] = v.clone();
                }
                Op::Demand(i) => {
                    let ri = self.s.roots.iter().position(|x| x == i).unwrap();
                    self.need(&st, ri)?;
                    let want = self.want(&st, ri);
                    let un = rt(|r| r.unnamed);
                    let got = demand(*i as usize);
                    let log = take_log();
                    if o & UNNAMED != 0 && observed.is_empty() {
                        let un = rt(|r| r.unnamed) - un;
                        check!(un == want.unnamed, "step {}: the first demand of art {} evaluated unnamed thunks {} times, a from-scratch run does so {} times", n, i, un, want.unnamed);
                    }
                    if cx.trace_on { let t = format!("step {}: demand art {} -> {:?} (from scratch: {:?}); bodies run: {:?}", n, i, got.0, want.val, log.iter().map(|(k, a)| (key_show(*k), a.clone())).collect::<Vec<_>>()); cx.narrative.push(t) }
                    if o & VAL != 0 {
                        check!(got.0 == want.val, "step {}: demand of art {} gave {:?}, a from-scratch run gives {:?}", n, i, got.0, want.val);
                    }
                    if o & DEMAND != 0 {
                        cx.count("bodies_run", log.len() as u64);
                        for (q, e) in log.iter().enumerate() {
                            check!(want.execs.contains(e), "step {}: demand of art {} ran the body of {} with args {:?}, which a from-scratch run does not demand", n, i, key_show(e.0), e.1);
                            check!(!log[..q].iter().any(|x| x.0 == e.0), "step {}: demand of art {} ran the body of {} twice", n, i, key_show(e.0));
                        }
                        cx.count("bodies_from_scratch", want.execs.len() as u64);
                    }
                    observed.push(got.0);
                    oplog = log;
                }
                Op::Fault(i, k) => {
                    let ri = self.s.roots.iter().position(|x| x == i).unwrap();
                    rt(|r| r.fault = Some(*k));
                    let res = guarded(|| demand(*i as usize));
                    let log = take_log();
                    match res {
                        // the demand has no such event
                        Ok(_) => { cx.count("faults_past_the_end", 1); return Ok(()) }
                        Err(e) => check!(e.contains(FAULT), "step {}: the demand of art {}, in which a computation panics at event {}, panicked with: {}", n, i, k, e),
                    }
                    cx.count("faults", 1);
                    self.need(&st, ri)?;
                    let want = self.want(&st, ri);
                    for (q, e) in log.iter().enumerate() {
                        check!(want.execs.contains(e), "step {}: the interrupted demand of art {} ran the body of {} with args {:?}, which a from-scratch run does not demand", n, i, key_show(e.0), e.1);
                        check!(!log[..q].iter().any(|x| x.0 == e.0), "step {}: the interrupted demand of art {} ran the body of {} twice", n, i, key_show(e.0));
                    }
                    // what was running is as if it had never run, but for what it allocated
                    rt(|r| {
                        r.path.clear(); r.structural = false;
                        let st: Vec<Exec> = r.stack.drain(..).collect();
                        for e in st { r.last.remove(&e.key); }
                    });
                }
            }
            if o & TRACE != 0 {
                if self.s.opts.debug { reflect_dcg::debug_end() }
                let trs = reflect_dcg::dcg_reflect_end();
                let after = reflect_dcg::dcg_reflect_now().unwrap();
                let dem = if let Op::Demand(_) = op { true } else { false };
                crate::traces::check_op(before.as_ref().unwrap(), &after, &trs, &oplog, dem).map_err(|e| format!("step {} ({:?}): {}", n, op, e))?;
            }
            if o & DEMAND != 0 {
                check!(take_log().is_empty(), "step {}: {:?} executed a thunk body without any demand", n, op);
            }
            if o & DRAWN != 0 {
                crate::draw::check_after(cx).map_err(|e| format!("step {} ({:?}): {}", n, op, e))?;
                if let Op::Demand(i) = op { if n + 1 == ops.len() {
                    let k = crate::draw::count();
                    demand(*i as usize);
                    check!(crate::draw::count() == k, "step {}: a demand that changes nothing wrote {} drawings", n, crate::draw::count() - k);
                } }
            }
            if o & (REUSE | INSIDE | DRAWN) != 0 { if let Some(e) = take_err() { return Err(format!("step {}: {}", n, e)) } }
            if o & GRAPH != 0 { if let Op::Demand(i) = op { crate::graph::check_demanded(ref_key(*i), observed.last().unwrap()).map_err(|e| format!("after step {} ({:?}): {}", n, op, e))?; } }
            if o & GRAPH != 0 { crate::graph::check_now().map_err(|e| format!("after step {} ({:?}): {}", n, op, e))?; }
            cx.state(&(&st, observed.last()));
        }
        if o & REUSE != 0 {
            // the same demand again, with nothing in between, must run nothing
            if let Some(Op::Demand(i)) = ops.last() {
                let again = demand(*i as usize);
                let log = take_log();
                check!(log.is_empty(), "demanding art {} twice in a row ran bodies {:?} the second time", i, log.iter().map(|(k, a)| (key_show(*k), a.clone())).collect::<Vec<_>>());
                check!(Some(&again.0) == observed.last(), "demanding art {} twice in a row gave two values", i);
                cx.count("bodies_run", rt(|r| r.execs));
            }
        }
        if self.s.opts.traces { reflect_dcg::dcg_reflect_end(); }
        cx.outcome(&observed);
        Ok(())
    }
}

/// Histories `edit-or-demand^pre fault (edit-or-demand^mid fault)^(n-1) edit-or-demand^post demand`,
/// for every point at which a fault can strike.
pub struct FaultFamily { pub f: PFamily, pub pre: usize, pub faults: usize, pub post: usize }
struct FaultCase { c: PCase, slots: Vec<Vec<Op>> }
impl Family for FaultFamily {
    fn name(&self) -> String { format!("faults-{}-{}-{}-{}", self.pre, self.faults, self.post, self.f.name) }
    fn bounds(&self) -> String { format!("{}; histories of {} edits or demands, then {} demand(s) in which a computation panics, at every event (an operation of the engine or the end of a body) of the demand, then {} edits or demands and a demand", self.f.bounds, self.pre, self.faults, self.post) }
    fn ncases(&self) -> usize { self.f.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let c = PCase::new(self.f.spaces[i].clone())?;
        // the longest demand from scratch, over all inputs
        let mut most = 0;
        for st in c.refs.keys() { for r in &c.s.roots {
            fresh_dcg(&c.s.opts);
            start_with(&c.s.prog, st, false);
            rt(|x| x.fault = Some(100_000));
            if guarded(|| demand(*r as usize)).is_err() { return Some(Box::new(FaultCase { c, slots: vec![] })) }
            most = most.max(100_000 - rt(|x| x.fault.unwrap()));
        } }
        let mut fs = vec![];
        for r in &c.s.roots { for k in 0..most { fs.push(Op::Fault(*r, k)) } }
        let mut slots = vec![];
        for _ in 0..self.pre { slots.push(c.edits.clone()) }
        for _ in 0..self.faults { slots.push(fs.clone()) }
        for _ in 0..self.post { slots.push(c.edits.clone()) }
        slots.push(c.s.roots.iter().map(|r| Op::Demand(*r)).collect());
        Some(Box::new(FaultCase { c, slots }))
    }
}
impl FaultCase {
    fn ops(&self, mut h: u64) -> Vec<Op> {
        self.slots.iter().map(|s| { let d = h % s.len() as u64; h /= s.len() as u64; s[d as usize].clone() }).collect()
    }
}
impl Case for FaultCase {
    fn nhist(&self) -> u64 { self.slots.iter().map(|s| s.len() as u64).product() }
    fn describe(&self, h: u64) -> String { format!("{} ;; {:?}", self.c.s.prog.show(), self.ops(h)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        if self.slots.is_empty() { return Err("a demand panics although no fault was injected".into()) }
        let ops = self.ops(h);
        self.c.run_ops(&ops, cx)
    }
}

/// A fresh DCG engine with the given options becomes current.
pub fn fresh_dcg(o: &Opts) {
    OPAQUE.with(|x| x.set(o.opaque));
    if o.env != 0 { crate::draw::with_env(o.env, "1", || manage::init_dcg()); } else { manage::init_dcg(); }
    if o.no_purity || o.check_wf {
        let e = manage::init_naive();
        if let Engine::DCG(ref d) = e {
            let d = &mut *d.borrow_mut();
            if o.no_purity { d.flags.use_purity_optimization = false }
            if o.check_wf { d.flags.check_dcg_is_wf = true }
        }
        manage::use_engine(e);
    }
}

pub fn without_purity(mut f: PFamily) -> PFamily {
    f.name = format!("{}-no-purity", f.name);
    for s in f.spaces.iter_mut() { s.opts.no_purity = true }
    f
}

pub fn with_opts(mut f: PFamily, tag: &str, o: Opts) -> PFamily {
    f.name = format!("{}{}", f.name, tag);
    for s in f.spaces.iter_mut() { s.opts = Opts { no_purity: s.opts.no_purity, nameless: s.opts.nameless, ..o } }
    f
}
pub struct PFamily { pub name: String, pub bounds: String, pub spaces: Vec<Space> }
impl Family for PFamily {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { format!("{}; histories of exactly {} steps ending in a demand, every step checked", self.bounds, self.spaces.get(0).map(|s| s.len).unwrap_or(0)) }
    fn ncases(&self) -> usize { self.spaces.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> { PCase::new(self.spaces[i].clone()).map(|c| Box::new(c) as Box<dyn Case>) }
}

pub fn cells(v: &[i64]) -> Vec<C> { v.iter().map(|i| C::Cell(RV::I(*i))).collect() }
pub fn th(f: u8) -> C { C::Thunk(f, vec![]) }
pub fn get(i: u8) -> E { E::Get(bx(E::Ref(i))) }
fn ints(v: &[i64]) -> Vec<RV> { v.iter().map(|i| RV::I(*i)).collect() }

/// All static dataflow programs: nc cells, nt thunks, thunk i reads cells and thunks < i.
pub fn static_dag(nc: usize, nt: usize, len: usize, oracles: u32) -> PFamily {
    fn bodies(nr: usize) -> Vec<E> {
        let mut v = vec![];
        for r in 0..nr as u8 { v.push(E::Half(bx(get(r)))) }
        for r in 0..nr as u8 { for s in r + 1..nr as u8 { v.push(E::Add(bx(get(r)), bx(get(s)))) } }
        for r in 0..nr as u8 { for s in 0..nr as u8 { for t in 0..nr as u8 { if s != t {
            v.push(E::If(bx(E::Mod2(bx(get(r)))), bx(get(s)), bx(get(t))));
        } } } }
        v
    }
    let menus: Vec<Vec<E>> = (0..nt).map(|i| bodies(nc + i)).collect();
    let mut dom: Vec<Vec<C>> = (0..nc).map(|_| cells(&[0, 1, 3])).collect();
    for i in 0..nt { dom.push(vec![th(i as u8)]) }
    let spaces = product(&menus).into_iter().map(|funs| Space {
        prog: Rc::new(Prog { funs, locs: dom.iter().map(|d| d[0].clone()).collect() }),
        dom: dom.clone(), roots: (nc as u8..(nc + nt) as u8).collect(), how: SET, len, oracles, opts: Opts::default(),
    }).collect();
    PFamily { name: format!("static-dag-{}x{}", nc, nt), bounds: format!("all programs of {} thunks over {} cells (values 0,1,3), thunk i reading any cells and earlier thunks by half(r), r+s or if odd(r) then s else t", nt, nc), spaces }
}

// ---- dynamic programs: typed, size-bounded enumeration of the root body

#[derive(Clone, Copy)]
pub struct Gram { pub ncells: u8, pub names: u8, pub ns: bool, pub map: bool, pub f3: bool }

pub fn gen_int(g: Gram, s: usize) -> Vec<E> {
    let mut v = vec![];
    if s == 1 { v.push(E::K(1)); return v }
    for a in gen_art(g, s - 1) { v.push(E::Get(bx(a))) }
    for a in gen_int(g, s - 1) { if let E::K(_) = a { } else { v.push(E::Half(bx(a))) } }
    for k in 1..s.saturating_sub(1) {
        for a in gen_int(g, k) { for b in gen_int(g, s - 1 - k) { v.push(E::Add(bx(a.clone()), bx(b.clone()))) } }
    }
    for k in 1..s { for l in 1..s { if k + l + 1 < s {
        let m = s - 1 - k - l;
        for a in gen_int(g, k) { if let E::K(_) = a { continue } for b in gen_int(g, l) { for c in gen_int(g, m) { if b != c {
            v.push(E::If(bx(a.clone()), bx(b.clone()), bx(c)));
        } } } }
    } } }
    v
}
pub fn gen_art(g: Gram, s: usize) -> Vec<E> {
    let mut v = vec![];
    if s == 1 { for c in 0..g.ncells { v.push(E::Ref(c)) } return v }
    for n in 0..g.names {
        for a in gen_int(g, s - 1) { v.push(E::Cell(10 + n, bx(a.clone()))); v.push(E::Thunk(n, 1, vec![a])) }
        for a in gen_art(g, s - 1) { v.push(E::Thunk(20 + n, 2, vec![a])) }
    }
    if g.f3 && s >= 3 { for a in gen_int(g, s - 2) { v.push(E::Get(bx(E::Thunk(30, 3, vec![a])))) } }
    if g.ns { for a in gen_art(g, s - 1) { if let E::Ref(_) = a { } else { v.push(E::Ns(0, bx(a))) } } }
    v
}
/// names are interchangeable: keep programs whose first-used name of each kind is 0
fn canonical(e: &E) -> bool {
    fn go(e: &E, seen: &mut HashMap<u8, u8>, ok: &mut bool) {
        let mut use_name = |n: u8| {
            let kind = n / 10;
            let next = *seen.get(&kind).unwrap_or(&0);
            if n % 10 > next { *ok = false }
            if n % 10 == next { seen.insert(kind, next + 1); }
        };
        match e {
            E::Cell(n, x) => { go(x, seen, ok); let mut u = |n: u8| { let kind = n / 10; let next = *seen.get(&kind).unwrap_or(&0); if n % 10 > next { *ok = false } if n % 10 == next { seen.insert(kind, next + 1); } }; u(*n) }
            E::Thunk(n, _, xs) => { use_name(*n); for x in xs { go(x, seen, ok) } }
            E::Get(x) | E::Half(x) | E::Mod2(x) | E::Ns(_, x) | E::Map(x, _) | E::Structural(x) | E::Put(x) => go(x, seen, ok),
            E::Add(a, b) | E::Pair(a, b) | E::Mul(a, b) | E::Seq(a, b) => { go(a, seen, ok); go(b, seen, ok) }
            E::If(a, b, c) => { go(a, seen, ok); go(b, seen, ok); go(c, seen, ok) }
            _ => {}
        }
    }
    let mut ok = true;
    go(e, &mut HashMap::new(), &mut ok);
    ok
}
pub fn unnamed(len: usize, oracles: u32, rich: bool) -> PFamily {
    let ints0 = vec![E::K(1), get(0), get(1)];
    let mut a1 = vec![E::Ref(0), E::Ref(1)];
    for i in &ints0 { a1.push(E::Put(bx(i.clone()))); a1.push(E::EThunk(1, vec![i.clone()])); a1.push(E::NThunk(1, vec![i.clone()])) }
    let named = vec![E::Cell(10, bx(get(0))), E::Thunk(1, 1, vec![get(0)]), E::Thunk(1, 1, vec![E::K(1)]), E::SThunk(1, vec![get(1)])];
    let up = |a: &E| vec![E::TMap(bx(a.clone()), 0), E::TMap(bx(a.clone()), 2), E::NThunk(2, vec![a.clone()]), E::EThunk(2, vec![a.clone()]), E::Put(bx(E::Get(bx(a.clone())))), E::Thunk(20, 2, vec![a.clone()])];
    let mut a2 = vec![];
    for a in a1.iter().chain(named.iter()) { a2.extend(up(a)) }
    let mut small: Vec<E> = a1.clone(); small.extend(named.clone());
    let all: Vec<E> = { let mut v = small.clone(); v.extend(a2.clone()); if rich { for a in &a2 { v.push(E::TMap(bx(a.clone()), 1)); v.push(E::NThunk(2, vec![a.clone()])) } } v };
    let mut roots = vec![];
    let firsts: Vec<E> = all.clone();
    for a in &firsts {
        roots.push((E::Half(bx(E::Get(bx(a.clone())))), false));
        roots.push((E::Map(bx(a.clone()), 2), false));
        roots.push((a.clone(), true));
        for b in &small { if a != b {
            roots.push((E::If(bx(get(1)), bx(a.clone()), bx(b.clone())), true));
            roots.push((E::Add(bx(E::Get(bx(a.clone()))), bx(w(31, E::Get(bx(b.clone()))))), false));
        } }
    }
    // the same naive thunk demanded twice, and a mapped thunk of a returned one
    for a in &all { roots.push((E::Get(bx(E::Thunk(30, 3, vec![a.clone()]))), false)); roots.push((E::If(bx(E::Mod2(bx(get(0)))), bx(E::TMap(bx(a.clone()), 0)), bx(E::TMap(bx(a.clone()), 1))), true)) }
    let hm = helper_menus();
    let twice = E::Add(bx(E::Get(bx(E::Arg(0)))), bx(w(31, E::Map(bx(E::Arg(0)), 2))));
    let mut spaces = vec![];
    for (b, is_art) in &roots { for (i, f1) in hm[1].iter().enumerate() { for (j, f2) in hm[2].iter().enumerate() {
        let sh = b.show();
        let (u1, u2) = (sh.contains("F1"), sh.contains("F2"));
        if (!u1 && i > 0) || (!u2 && j > 0) || (!rich && u1 && u2 && i != j) { continue }
        let reader = if *is_art { E::Half(bx(E::Get(bx(E::Get(bx(E::Ref(2))))))) } else { E::Half(bx(get(2))) };
        let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(4)]];
        let prog = Prog { funs: vec![b.clone(), f1.clone(), f2.clone(), twice.clone(), reader], locs: dom.iter().map(|d| d[0].clone()).collect() };
        spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
    } } }
    mk(if rich { "unnamed-rich" } else { "unnamed" }, "all roots that build, demand, return or choose between articulations made by put, eager thunks, naive thunks and thunk_map (over editor cells and over each other, two or three levels, mixed with named cells and thunks), with helper menus and a reader of the returned articulation", spaces)
}
fn has_ref(e: &E) -> bool { format!("{:?}", e).contains("Ref") }
fn has_alloc(e: &E) -> bool { let s = format!("{:?}", e); s.contains("Thunk") || s.contains("Cell") }

pub fn helper_menus() -> Vec<Vec<E>> {
    let x = || bx(E::Arg(0));
    vec![
        vec![], // F0: the root
        vec![ // F1: int -> int
            E::Add(x(), bx(get(0))),
            E::If(x(), bx(get(0)), bx(E::K(7))),
            E::Add(bx(E::Half(x())), bx(E::Get(bx(E::Cell(15, bx(E::Half(bx(get(1))))))))),
        ],
        vec![ // F2: art -> int
            E::Half(bx(E::Get(x()))),
            E::Add(bx(E::Get(x())), bx(get(1))),
            E::If(bx(get(1)), bx(E::Get(x())), bx(E::K(9))),
        ],
        vec![ // F3: int -> art
            E::Cell(16, x()),
            E::Thunk(26, 2, vec![E::Cell(17, bx(E::Half(x())))]),
        ],
    ]
}

pub fn dynamic(size: usize, len: usize, names: u8, helpers: usize, oracles: u32) -> PFamily {
    let g = Gram { ncells: 2, names, ns: false, map: false, f3: true };
    let mut roots = vec![];
    for s in 2..size + 1 { for e in gen_int(g, s) { if canonical(&e) && has_ref(&e) && has_alloc(&e) { roots.push(e) } } }
    let hm = helper_menus();
    let mut spaces = vec![];
    for r in roots {
        let sh = format!("{:?}", r);
        let uses3 = sh.contains(", 3, [");
        let uses2 = sh.contains(", 2, [") || uses3;
        let uses1 = sh.contains(", 1, [");
        for (i, f1) in hm[1].iter().enumerate().take(helpers) { if i > 0 && !uses1 { continue }
        for (j, f2) in hm[2].iter().enumerate().take(helpers) { if j > 0 && !uses2 { continue }
        for (k, f3) in hm[3].iter().enumerate() { if k > 0 && !uses3 { continue }
            spaces.push(Space {
                prog: Rc::new(Prog { funs: vec![r.clone(), f1.clone(), f2.clone(), f3.clone()], locs: vec![C::Cell(RV::I(0)), C::Cell(RV::I(0)), th(0)] }),
                dom: vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)]],
                roots: vec![2], how: SET, len, oracles, opts: Opts::default(),
            });
        } } }
    }
    PFamily { name: format!("dynamic-{}", size), bounds: format!("all root bodies of at most {} nodes over get, half, +, if, nominal cell and thunk allocation ({} name(s) per kind), 2 editor cells (values 0,1,2 and 0,1), combined with the helper-function menu", size, names), spaces }
}

// ---- further families

fn mk(name: &str, bounds: &str, spaces: Vec<Space>) -> PFamily { PFamily { name: name.into(), bounds: bounds.into(), spaces } }
fn w(k: i64, e: E) -> E { if k == 1 { e } else { E::Mul(bx(E::K(k)), bx(e)) } }
fn pairs(n: i64) -> Vec<C> { let mut v = vec![]; for a in 0..n { for b in 0..n { v.push(C::Cell(RV::P(a, b))) } } v }

/// All sequences of at most `k` observations `obs` of the same cell, weighted so that
/// every observed value shows in the result.
fn obs_seqs(obs: &[E], k: usize) -> Vec<E> {
    let mut out = vec![];
    for n in 1..k + 1 {
        for ix in product(&vec![(0..obs.len()).collect::<Vec<_>>(); n]) {
            let mut e = obs[ix[0]].clone();
            let mut wt = 1;
            for i in &ix[1..] { wt *= 31; e = E::Add(bx(e), bx(w(wt, obs[*i].clone()))) }
            out.push(e);
        }
    }
    out
}

/// Partial observations (`mk_obs(cell, proj)`) and full observations of one pair-valued cell, in every
/// order, inside one thunk; the second thunk reads the first, and the cell again.
pub fn projections(abs: bool, nobs: usize, len: usize, oracles: u32) -> PFamily {
    let o = |c: u8, p: u8| if abs { E::Abs(bx(E::Ref(c)), p) } else { E::Map(bx(E::Ref(c)), p) };
    let obs = vec![o(0, 0), o(0, 1), o(0, 2), get(0)];
    let mut spaces = vec![];
    let mut bodies = obs_seqs(&obs, nobs);
    // observation order that depends on the data
    bodies.push(E::If(bx(o(0, 0)), bx(o(0, 1)), bx(E::K(5))));
    bodies.push(E::If(bx(o(0, 0)), bx(get(0)), bx(E::K(5))));
    bodies.push(E::If(bx(o(0, 2)), bx(o(0, 1)), bx(o(0, 0))));
    for b in bodies {
        for second in vec![E::Half(bx(E::Get(bx(E::Ref(1))))), E::Add(bx(o(0, 1)), bx(w(31, get(1)))), E::Add(bx(w(31, o(1, 2))), bx(o(0, 0)))] {
            let prog = Prog { funs: vec![b.clone(), second], locs: vec![C::Cell(RV::P(0, 0)), th(0), th(1)] };
            spaces.push(Space { prog: Rc::new(prog), dom: vec![pairs(2), vec![th(0)], vec![th(1)]], roots: vec![1, 2], how: SET, len, oracles, opts: Opts::default() });
        }
    }
    mk(if abs { "abstract-maps" } else { "projections" },
       &format!("one thunk making every sequence of at most {} observations of one pair cell (2x2 values) through {} components 0, 1, (a+b)%2 or in full, and three data-dependent ones, combined with 3 second-level readers", nobs, if abs { "force_abs, asking" } else { "force_map, projecting" }), spaces)
}

/// The same thunk observes one cell in part while another thunk rewrites it by nominal allocation.
pub fn proj_alloc(abs: bool, len: usize, oracles: u32) -> PFamily {
    let o = |e: E, p: u8| if abs { E::Abs(bx(e), p) } else { E::Map(bx(e), p) };
    let mut spaces = vec![];
    let news = vec![
        E::Cell(10, bx(E::Pair(bx(get(0)), bx(get(1))))),
        E::Cell(10, bx(E::Pair(bx(E::Mod2(bx(get(0)))), bx(get(1))))),
        E::Thunk(10, 2, vec![]),
    ];
    for n in news { for a in 0..3u8 { for b in 0..4u8 {
        let al = |x: u8| if x == 3 { E::Get(bx(n.clone())) } else { o(n.clone(), x) };
        let body = E::Add(bx(al(a)), bx(w(31, al(b))));
        for user in vec![
            E::Add(bx(o(E::Get(bx(E::Ref(2))), a)), bx(w(31, E::Get(bx(E::Get(bx(E::Ref(2)))))))),
            o(E::Get(bx(E::Ref(2))), a), E::Half(bx(o(E::Get(bx(E::Ref(2))), b.min(2)))), ] {
            let prog = Prog { funs: vec![n.clone(), user.clone(), E::Pair(bx(get(0)), bx(get(1))), body.clone()], locs: vec![C::Cell(RV::I(0)), C::Cell(RV::I(0)), th(0), th(1), th(3)] };
            spaces.push(Space { prog: Rc::new(prog), dom: vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(1)], vec![th(3)]], roots: vec![3, 4], how: SET, len, oracles, opts: Opts::default() });
        }
    } } }
    mk(if abs { "abstract-maps-of-allocated" } else { "projections-of-allocated" },
       "a thunk allocates (by name) a pair cell or pair thunk from two editor cells; two readers observe it in part, in full, or both", spaces)
}

/// The editor re-allocates its own names, with cells and thunks alternating.
pub fn morph(len: usize, oracles: u32, how: u8, rich: bool) -> PFamily {
    let kinds: Vec<Vec<C>> = vec![
        vec![C::Cell(RV::I(0)), C::Cell(RV::I(3)), C::Thunk(2, vec![RV::I(0)])],
        vec![C::Cell(RV::I(1)), C::Thunk(2, vec![RV::I(0)]), C::Thunk(2, vec![RV::I(3)])],
        vec![C::Cell(RV::I(0)), C::Cell(RV::I(2))],
        vec![C::Thunk(2, vec![RV::I(0)]), C::Thunk(2, vec![RV::I(1)]), C::Thunk(2, vec![RV::I(2)])],
    ];
    let readers = |r: u8| vec![get(r), E::Half(bx(get(r))), E::If(bx(get(r)), bx(get(0)), bx(E::K(5))), E::Add(bx(get(r)), bx(get(0))),
        E::Add(bx(E::Map(bx(E::Ref(r)), 0)), bx(w(10, E::Map(bx(E::Ref(r)), 1))))];
    let mut spaces = vec![];
    for k in &kinds { for k2 in &kinds {
        for r1 in readers(1) { for r2 in readers(3) {
            let pair2 = rich;
            if !pair2 && k2 != k { continue }
            // 0: plain cell; 1: morphing; 2: morphing (rich) or fixed; 3,4: readers
            let d2 = if rich { k2.clone() } else { vec![k2[0].clone()] };
            let body2 = E::Add(bx(get(0)), bx(E::Arg(0)));
            let mut r2 = r2;
            if rich { r2 = E::Add(bx(r2), bx(w(100, get(2)))) }
            let dom = vec![cells(&[0, 1]), k.clone(), d2, vec![th(0)], vec![th(1)]];
            let prog = Prog { funs: vec![r1.clone(), r2, body2], locs: dom.iter().map(|d| d[0].clone()).collect() };
            spaces.push(Space { prog: Rc::new(prog), dom, roots: if rich { vec![4] } else { vec![3, 4] }, how, len, oracles, opts: Opts::default() });
        } }
    } }
    mk(if rich { "editor-names-2" } else { "editor-names" }, &format!("the editor re-allocates {} of its names as cell or thunk (every menu of 2-3 contents), with readers of readers", if rich { "two" } else { "one" }), spaces)
}

/// Computations that allocate under the same name a different kind of node, or different content, as the input changes.
pub fn overwrite(len: usize, oracles: u32) -> PFamily {
    let alts: Vec<E> = vec![
        E::Cell(10, bx(E::K(1))), E::Cell(10, bx(get(1))), E::Cell(10, bx(E::Half(bx(get(0))))),
        E::Thunk(10, 2, vec![E::K(1)]), E::Thunk(10, 2, vec![get(1)]), E::Thunk(10, 2, vec![E::Half(bx(get(0)))]),
    ];
    let conds = vec![E::Mod2(bx(get(0))), get(1)];
    let f2s = vec![E::Arg(0), E::Add(bx(E::Arg(0)), bx(get(1))), E::Get(bx(E::Cell(11, bx(E::Add(bx(E::Arg(0)), bx(get(0)))))))];
    let mut spaces = vec![];
    for a in &alts { for b in &alts { if a == b { continue } for c in &conds { for f2 in &f2s {
        let alloc = E::If(bx(c.clone()), bx(a.clone()), bx(b.clone()));
        for users in vec![
            // F1: force what F0 returns; F3: direct use
            (E::Half(bx(E::Get(bx(E::Get(bx(E::Ref(2))))))), E::Get(bx(alloc.clone()))),
            (E::Add(bx(E::Get(bx(E::Get(bx(E::Ref(2)))))), bx(get(1))), E::Thunk(12, 4, vec![alloc.clone()])),
        ] {
            let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(1)], vec![th(3)]];
            let prog = Prog { funs: vec![alloc.clone(), users.0, f2.clone(), users.1, E::Half(bx(E::Get(bx(E::Arg(0)))))], locs: dom.iter().map(|d| d[0].clone()).collect() };
            spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![3, 4], how: SET, len, oracles, opts: Opts::default() });
        }
    } } } }
    mk("name-reuse", "a thunk allocates, under one name, either of two contents (constant, copied or computed cell; thunk with such an argument) depending on the input; 2 further thunks use it", spaces)
}

/// Two root computations with dynamic bodies over the same inputs and names.
pub fn two_roots(size: usize, len: usize, oracles: u32) -> PFamily {
    let g = Gram { ncells: 2, names: 1, ns: false, map: false, f3: false };
    let mut bodies = vec![];
    for s in 2..size + 1 { for e in gen_int(g, s) { if canonical(&e) && has_ref(&e) && has_alloc(&e) { bodies.push(e) } } }
    let hm = helper_menus();
    let mut spaces = vec![];
    for (i, a) in bodies.iter().enumerate() { for b in &bodies[i..] {
        let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(4)]];
        let prog = Prog { funs: vec![a.clone(), hm[1][i % 3].clone(), hm[2][(i / 3) % 3].clone(), hm[3][0].clone(), b.clone()], locs: dom.iter().map(|d| d[0].clone()).collect() };
        spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
    } }
    mk(&format!("two-roots-{}", size), &format!("all pairs of root bodies of at most {} nodes over the same two cells and the same allocation names", size), spaces)
}

/// Roots that return articulations, and readers of returned articulations.
pub fn returned_arts(size: usize, len: usize, oracles: u32) -> PFamily {
    let g = Gram { ncells: 2, names: 1, ns: false, map: false, f3: false };
    let mut bodies = vec![];
    for s in 2..size + 1 { for e in gen_art(g, s) { if canonical(&e) && has_ref(&e) { bodies.push(e) } }
        // choice between arts
        for c in vec![E::Mod2(bx(get(0))), get(1)] { if s >= 4 { for a in gen_art(g, s - 3) { for b in vec![E::Ref(1), E::Cell(15, bx(get(0)))] { bodies.push(E::If(bx(c.clone()), bx(a.clone()), bx(b))) } } } } }
    let hm = helper_menus();
    let mut spaces = vec![];
    for a in &bodies { for f1 in hm[1].iter() { for f2 in hm[2].iter() {
        let sh = format!("{:?}", a);
        if (f1 != &hm[1][0] && !sh.contains(", 1, [")) || (f2 != &hm[2][0] && !sh.contains(", 2, [")) { continue }
        let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(4)]];
        let prog = Prog { funs: vec![a.clone(), f1.clone(), f2.clone(), hm[3][0].clone(), E::Half(bx(E::Get(bx(E::Get(bx(E::Ref(2)))))))], locs: dom.iter().map(|d| d[0].clone()).collect() };
        spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
    } } }
    mk(&format!("returned-arts-{}", size), &format!("all art-valued root bodies of at most {} nodes, with a reader of the returned art", size), spaces)
}

/// Namespaces: the same code and the same names run at different paths.
pub fn namespaces(len: usize, oracles: u32) -> PFamily {
    // F1(x): allocates names 10 and (thunk) 20 inside
    let f1s = vec![
        E::Get(bx(E::Cell(10, bx(E::Add(bx(E::Arg(0)), bx(get(0))))))),
        E::Get(bx(E::Thunk(20, 2, vec![E::Cell(10, bx(E::Arg(0)))]))),
        E::Get(bx(E::Ns(3, bx(E::Cell(10, bx(E::Half(bx(E::Arg(0))))))))),
        E::Add(bx(E::Get(bx(E::Cell(10, bx(E::Arg(0)))))), bx(E::Get(bx(E::Ns(1, bx(E::Cell(10, bx(get(1))))))))),
    ];
    let f2 = E::Add(bx(E::Get(bx(E::Arg(0)))), bx(E::Get(bx(E::Cell(11, bx(get(1)))))));
    let call = |n: u8, a: E| E::Get(bx(E::Thunk(n, 1, vec![a])));
    let ns = |p: &[u8], e: E| { let mut e = e; for n in p.iter().rev() { e = E::Ns(*n, bx(e)) } e };
    let paths: Vec<Vec<u8>> = vec![vec![], vec![1], vec![2], vec![1, 2], vec![2, 1], vec![1, 1]];
    let mut spaces = vec![];
    for f1 in &f1s { for p in &paths { for q in &paths { for (k, body) in vec![
        E::Add(bx(ns(p, call(0, get(0)))), bx(w(31, ns(q, call(0, get(1)))))),
        E::Add(bx(ns(p, call(0, get(0)))), bx(w(31, ns(q, call(1, get(1)))))),
        // the thunk is created in p, forced in q
        E::Add(bx(ns(q, E::Get(bx(ns(p, E::Thunk(0, 1, vec![get(0)])))))), bx(w(31, ns(q, call(0, get(1)))))),
        // after leaving the namespace, allocation continues outside
        E::Add(bx(ns(p, call(0, get(0)))), bx(w(31, E::Add(bx(E::Get(bx(E::Cell(10, bx(get(1)))))), bx(ns(q, E::Get(bx(E::Cell(11, bx(get(0))))))))))),
        // structurally identified calls run in the namespace of their creation, too
        E::Add(bx(ns(p, E::Get(bx(E::SThunk(1, vec![get(0)]))))), bx(w(31, ns(q, E::Get(bx(E::SThunk(1, vec![get(1)]))))))),
        E::Add(bx(ns(q, E::Get(bx(ns(p, E::SThunk(1, vec![get(0)])))))), bx(w(31, E::Get(bx(E::Cell(10, bx(get(1)))))))),
    ].into_iter().enumerate() {
        if k == 2 && p == q { continue }
        let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)]];
        let prog = Prog { funs: vec![body, f1.clone(), f2.clone()], locs: dom.iter().map(|d| d[0].clone()).collect() };
        spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2], how: SET, len, oracles, opts: Opts::default() });
    } } } }
    mk("namespaces", "one function body (4 variants, allocating cells, thunks and inner namespaces) called by name or structurally under all pairs of 6 namespace paths with equal or distinct names, created and forced in different namespaces", spaces)
}

/// Structurally identified thunks, with and without the purity optimization.
pub fn structural_fam(len: usize, no_purity: bool, oracles: u32) -> PFamily {
    let st = |f: u8, a: Vec<E>| E::SThunk(f, a);
    let f1s = vec![
        E::Add(bx(E::Arg(0)), bx(get(0))),
        E::Half(bx(E::Arg(0))),
        E::If(bx(E::Arg(0)), bx(get(0)), bx(E::K(7))),
        E::Add(bx(E::Get(bx(st(3, vec![E::Half(bx(E::Arg(0)))])))), bx(get(1))),
        E::Get(bx(st(3, vec![E::K(1)]))),
    ];
    let f2s = vec![E::Half(bx(E::Get(bx(E::Arg(0))))), E::Add(bx(E::Get(bx(E::Arg(0)))), bx(get(1)))];
    let f3s = vec![E::Add(bx(E::Arg(0)), bx(get(0))), E::Arg(0)];
    let bodies = vec![
        E::Get(bx(st(1, vec![get(1)]))),
        E::Get(bx(st(1, vec![E::K(1)]))),
        E::Add(bx(E::Get(bx(st(1, vec![get(0)])))), bx(E::Get(bx(st(1, vec![get(1)]))))),
        E::Get(bx(st(2, vec![E::Ref(0)]))),
        E::Get(bx(st(2, vec![st(1, vec![get(1)])]))),
        E::Get(bx(st(2, vec![st(1, vec![E::K(2)])]))),
        E::Get(bx(st(2, vec![E::Structural(bx(E::Cell(10, bx(get(0)))))]))),
        E::Get(bx(E::Structural(bx(E::Thunk(0, 1, vec![get(0)]))))),
        E::Add(bx(E::Get(bx(E::Structural(bx(E::Thunk(0, 1, vec![get(0)])))))), bx(E::Get(bx(E::Structural(bx(E::Thunk(0, 1, vec![get(1)]))))))),
        E::Get(bx(E::Structural(bx(E::Thunk(0, 2, vec![E::Cell(1, bx(get(1)))]))))),
        E::Add(bx(E::Get(bx(E::Structural(bx(E::Cell(10, bx(get(0)))))))), bx(E::Get(bx(E::Structural(bx(E::Cell(10, bx(get(1))))))))),
        E::If(bx(get(1)), bx(E::Get(bx(st(1, vec![E::K(2)])))), bx(E::K(3))),
        E::Add(bx(E::Get(bx(E::Put(bx(get(0)))))), bx(E::Get(bx(st(2, vec![E::Put(bx(get(1)))]))))),
    ];
    let mut spaces = vec![];
    for b in &bodies { for f1 in &f1s { for f2 in &f2s { for f3 in &f3s {
        let sh = format!("{:?}", b);
        let u1 = sh.contains("(1, [") || sh.contains(", 1, ["); let u2 = sh.contains("(2, [") || sh.contains(", 2, [");
        if (!u1 && f1 != &f1s[0]) || (!u2 && f2 != &f2s[0]) { continue }
        if f3 != &f3s[0] && !(u1 && format!("{:?}", f1).contains("SThunk")) { continue }
        for outer in vec![E::Half(bx(get(2))), E::Get(bx(st(0, vec![])))] {
            let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(4)]];
            let prog = Prog { funs: vec![b.clone(), f1.clone(), f2.clone(), f3.clone(), outer], locs: dom.iter().map(|d| d[0].clone()).collect() };
            spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts { no_purity, ..Opts::default() } });
        }
    } } } }
    mk(if no_purity { "structural-no-purity" } else { "structural" }, "13 bodies over structurally identified thunks and cells (nested, shared, pure and impure), helper menus, and two callers, mixed with nominal editor cells", spaces)
}

/// Regions that ignore names: nested, left and re-entered, with thunks that are created on one side and demanded on the other.
pub fn regions(len: usize, oracles: u32) -> PFamily {
    let st = |f: u8, a: Vec<E>| E::SThunk(f, a);
    let reg = |e: E| E::Structural(bx(e));
    let g = |e: E| E::Get(bx(e));
    let add = |a: E, b: E| E::Add(bx(a), bx(w(31, b)));
    let cell = |e: E| E::Cell(10, bx(e));
    // two cells under one name: only where names are ignored
    let two = |a: E, b: E| g(st(2, vec![cell(a), cell(b)]));
    let t1 = |a: E| E::Thunk(0, 1, vec![a]);
    let f1s = vec![
        two(E::Arg(0), get(1)),
        g(E::Thunk(20, 2, vec![cell(E::Arg(0)), cell(E::Add(bx(get(1)), bx(E::K(1))))])),
        g(E::Ns(3, bx(E::Thunk(20, 2, vec![cell(E::Arg(0)), cell(get(0))])))),
        add(reg(two(E::Arg(0), get(1))), g(cell(get(1)))),
        g(cell(E::Add(bx(E::Arg(0)), bx(get(0))))),
        E::Half(bx(add(E::Arg(0), get(1)))),
    ];
    let f3s = vec![reg(g(E::Arg(0))), add(reg(E::Half(bx(g(E::Arg(0))))), reg(two(g(E::Arg(0)), get(1)))), add(g(E::Arg(0)), get(1))];
    let bodies = vec![
        reg(add(g(t1(get(0))), g(t1(get(1))))),
        add(reg(g(t1(get(0)))), reg(g(t1(get(1))))),
        reg(add(reg(g(cell(get(0)))), two(get(0), get(1)))),
        reg(add(reg(g(t1(get(0)))), g(t1(get(1))))),
        g(reg(t1(get(0)))),
        g(E::Thunk(30, 3, vec![t1(get(0))])),
        g(E::Thunk(30, 3, vec![reg(t1(get(0)))])),
        reg(g(E::Thunk(30, 3, vec![t1(get(0))]))),
        add(g(E::Thunk(30, 3, vec![E::Thunk(1, 1, vec![get(0)])])), g(E::Thunk(1, 1, vec![get(0)]))),
        add(reg(E::Ns(1, bx(g(t1(get(0)))))), E::Ns(1, bx(reg(g(t1(get(1))))))),
        add(g(st(1, vec![get(0)])), reg(g(st(1, vec![get(0)])))),
        add(reg(g(st(1, vec![get(0)]))), g(st(1, vec![get(1)]))),
        E::If(bx(get(1)), bx(reg(g(t1(E::K(2))))), bx(g(t1(get(0))))),
        E::If(bx(get(1)), bx(reg(g(t1(E::K(2))))), bx(reg(g(t1(get(0)))))),
        add(reg(g(t1(get(0)))), g(cell(get(1)))),
        add(reg(g(E::NThunk(1, vec![get(0)]))), reg(g(E::NThunk(1, vec![get(1)])))),
        add(reg(g(E::EThunk(1, vec![get(0)]))), g(E::NThunk(1, vec![get(1)]))),
    ];
    let mut spaces = vec![];
    for b in &bodies { for f1 in &f1s { for f3 in &f3s {
        let sh = format!("{:?}", b);
        if f1 != &f1s[0] && !sh.contains("1, [") { continue }
        if f3 != &f3s[0] && !sh.contains("30, 3") { continue }
        for outer in vec![E::Half(bx(get(2))), reg(add(get(2), g(cell(get(0)))))] {
            let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(4)]];
            let prog = Prog { funs: vec![b.clone(), f1.clone(), add(g(E::Arg(0)), g(E::Arg(1))), f3.clone(), outer], locs: dom.iter().map(|d| d[0].clone()).collect() };
            spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
        }
    } } }
    mk("regions", "17 bodies with regions that ignore names (nested, left and continued, in namespaces, around thunks created or demanded on the other side, naive and eager thunks), helper menus some of which reuse one name within the region", spaces)
}

/// All pairs of the features of the language, in one computation: each kind of
/// observation and allocation, inside and outside of namespaces and regions.
pub fn features(len: usize, oracles: u32, rich: bool) -> PFamily {
    let g = |e: E| E::Get(bx(e));
    let atoms = |c: u8, n: u8| {
        let x = || get(c);
        let th1 = || E::Thunk(n, 1, vec![x()]);
        let cl = || E::Cell(10 + n, bx(x()));
        let reg = |e: E| E::Structural(bx(e));
        let ns = |e: E| E::Ns(1, bx(e));
        vec![
            x(), E::Map(bx(E::Ref(c)), 0), E::Map(bx(E::Ref(c)), 1), E::Abs(bx(E::Ref(c)), 0),
            g(cl()), g(th1()), g(E::SThunk(1, vec![x()])), g(ns(th1())), ns(g(th1())), ns(g(cl())), reg(g(th1())), reg(g(cl())),
            E::Map(bx(cl()), 0), E::Map(bx(th1()), 0), E::Abs(bx(cl()), 0), E::Abs(bx(th1()), 0), reg(E::Map(bx(cl()), 0)), ns(E::Map(bx(E::Ref(c)), 0)), reg(E::Abs(bx(E::Ref(c)), 0)),
            g(E::Put(bx(x()))), g(E::EThunk(1, vec![x()])), g(E::NThunk(1, vec![x()])), g(E::TMap(bx(E::Ref(c)), 0)), g(E::TMap(bx(th1()), 0)), E::Map(bx(E::NThunk(1, vec![x()])), 0),
            E::If(bx(get(1)), bx(g(th1())), bx(E::K(7))), E::If(bx(E::Map(bx(E::Ref(1)), 0)), bx(ns(g(cl()))), bx(x())),
            ns(reg(g(cl()))), reg(ns(g(E::SThunk(1, vec![x()])))), g(ns(E::SThunk(1, vec![x()]))),
            g(E::Thunk(n, 2, vec![cl()])), reg(g(E::Thunk(n, 2, vec![cl()]))), g(E::SThunk(2, vec![cl()])), g(E::Thunk(n, 2, vec![E::Put(bx(x()))])), g(E::Thunk(n, 2, vec![E::Ref(c)])),
            E::Cyc(bx(th1()), 9), E::Seq(bx(th1()), bx(x())), E::Seq(bx(cl()), bx(E::Map(bx(E::Ref(c)), 1))),
        ]
    };
    let f1s = vec![E::Half(bx(E::Add(bx(E::Arg(0)), bx(get(1))))), g(E::Cell(15, bx(E::Map(bx(E::Put(bx(E::Arg(0)))), 2))))];
    let f2 = E::Add(bx(E::Map(bx(E::Arg(0)), 0)), bx(E::K(1)));
    let f3s = vec![E::Half(bx(get(2))), E::Add(bx(E::Map(bx(E::Ref(2)), 0)), bx(w(31, E::Ns(2, bx(E::Get(bx(E::Cell(10, bx(get(2)))))))))), E::Structural(bx(E::Get(bx(E::SThunk(2, vec![E::Ref(2)])))))];
    let mut spaces = vec![];
    let n = atoms(0, 0).len();
    let second: Vec<(u8, u8)> = if rich { vec![(0, 0), (0, 1), (1, 0), (1, 1)] } else { vec![(0, 1), (1, 0)] };
    for (c, m) in second { for i in 0..n { for j in 0..n {
        let body = E::Add(bx(atoms(0, 0)[i].clone()), bx(w(31, atoms(c, m)[j].clone())));
        for (q, f1) in f1s.iter().enumerate() { for (k, f3) in f3s.iter().enumerate() {
            // the readers and helpers in turn, or all of them
            if !rich && (i + j) % 6 != 3 * q + k { continue }
            if q > 0 && !format!("{:?}", body).contains("1, [") { continue }
            let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(3)]];
            let prog = Prog { funs: vec![body.clone(), f1.clone(), f2.clone(), f3.clone()], locs: dom.iter().map(|d| d[0].clone()).collect() };
            spaces.push(Space { prog: Rc::new(prog), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
        } }
    } } }
    mk(if rich { "pairs-of-features-2" } else { "pairs-of-features" },
       &format!("one computation that is the sum of any two of {} features (observations whole, projected, abstract; cells, thunks, structural, eager, naive, mapped and unnamed articulations; namespaces, regions, branches, cycles expected), on equal or different cells and names, a second one that reads it ({})", n, if rich { "3 readers and 2 helper functions each" } else { "one of 3 readers and one of 2 helper functions, in turn" }), spaces)
}
