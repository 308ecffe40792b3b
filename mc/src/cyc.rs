//! Cycles: thunks that force themselves, directly or through others.

use crate::core::*;
use crate::pfam::*;
use crate::prog::*;
use adapton::engine::set;
use std::rc::Rc;

/// An edge: target node, and whether the observation expects cycles.
pub type Edge = Option<(u8, bool)>;
#[derive(Clone, Debug)]
pub struct Graph { pub n: u8, pub out: Vec<[Edge; 2]>, /** nodes are allocated by the bodies that demand them */ pub inner: bool }

fn default(i: usize, e: usize) -> i64 { -(1000 + 100 * i as i64 + 7 * e as i64) }

impl Graph {
    /// nodes 0..n are the editor's; with `inner`, node n+j is the one that bodies allocate for j
    fn nnodes(&self) -> usize { if self.inner { 2 * self.n as usize } else { self.n as usize } }
    fn succ(&self, v: usize, e: usize) -> Option<(usize, bool)> {
        let i = v % self.n as usize;
        self.out[i][e].map(|(j, c)| (if self.inner { (self.n + j) as usize } else { j as usize }, c))
    }
    fn prog(&self) -> Prog {
        let mut funs = vec![];
        for i in 0..self.n as usize {
            let mut e = E::K(i as i64 + 1);
            for k in 0..2 { if let Some((j, c)) = self.out[i][k] {
                let art = if self.inner { E::Thunk(j, j, vec![]) } else { E::Ref(j) };
                let f = if c { E::Cyc(bx(art), default(i, k)) } else { E::Get(bx(art)) };
                e = E::Add(bx(e), bx(E::Mul(bx(E::K([7, 31][k])), bx(f))));
            } }
            funs.push(e);
        }
        Prog { funs, locs: (0..self.n).map(th).collect() }
    }
}

/// From-scratch evaluation with the values already computed; `None`: an unexpected cycle.
fn eval(g: &Graph, v: usize, stack: &mut Vec<usize>, done: &mut Vec<Option<i64>>, ran: &mut Vec<usize>) -> Option<i64> {
    if let Some(x) = done[v] { return Some(x) }
    let i = v % g.n as usize;
    stack.push(v);
    ran.push(v);
    let mut r = i as i64 + 1;
    for e in 0..2 { if let Some((w, cyc)) = g.succ(v, e) {
        let x = if stack.contains(&w) { if cyc { default(i, e) } else { return None } } else { eval(g, w, stack, done, ran)? };
        r = r.wrapping_add(i64::wrapping_mul([7, 31][e], x));
    } }
    stack.pop();
    done[v] = Some(r);
    Some(r)
}

pub struct GFamily { pub name: String, pub bounds: String, pub items: Vec<Graph>, pub len: usize, /** go on after an unexpected cycle */ pub resume: bool }
struct GCase { g: Graph, prog: Rc<Prog>, len: usize, resume: bool }
impl Family for GFamily {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn ncases(&self) -> usize { self.items.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let g = self.items[i].clone();
        let prog = Rc::new(g.prog());
        Some(Box::new(GCase { g, prog, len: self.len, resume: self.resume }))
    }
}
impl Case for GCase {
    fn nhist(&self) -> u64 { (self.g.n as u64).pow(self.len as u32) }
    fn describe(&self, h: u64) -> String { format!("{} ;; demand {:?}", self.prog.show(), digits(h, self.g.n as u64, self.len)) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let g = &self.g;
        intern_reset();
        fresh_dcg(&Opts::default());
        start(&self.prog, false);
        take_log();
        let key = |v: usize| if v < g.n as usize { ref_key(v as u8) } else { intern(&vec![], Id::Nom(INNER0 + (v - g.n as usize) as u32)) };
        let mut done = vec![None; g.nnodes()];
        let mut vals = vec![];
        for (n, i) in digits(h, g.n as u64, self.len).into_iter().enumerate() {
            cx.step();
            let mut ran = vec![];
            let want = eval(g, i, &mut vec![], &mut done, &mut ran);
            let got = guarded(|| demand(i));
            let log: Vec<K> = take_log().into_iter().map(|(k, _)| k).collect();
            let wk: Vec<K> = ran.iter().map(|v| key(*v)).collect();
            cx.say(|| format!("demand {} #{} -> {:?}, from scratch {:?}; bodies {:?}", i, n, got.as_ref().map(|g| g.0.clone()), want, log.iter().map(|k| key_show(*k)).collect::<Vec<_>>()));
            match want {
                None => {
                    match got { Ok(x) => return Err(format!("demand {} of thunk {}: an observation that does not expect cycles forms one, but the demand gave {:?}", n, i, x.0)),
                        Err(e) => check!(e.contains("unexpected cycle"), "demand {} of thunk {}: an unexpected cycle was reported as: {}", n, i, e) }
                    cx.count("unexpected_cycles", 1);
                    if !self.resume { return Ok(()) }
                    check!(log == wk, "demand {} of thunk {}, that ends in an unexpected cycle, ran bodies {:?}, expected {:?}", n, i, log.iter().map(|k| key_show(*k)).collect::<Vec<_>>(), wk.iter().map(|k| key_show(*k)).collect::<Vec<_>>());
                    rt(|r| { r.path.clear(); r.structural = false; r.stack.clear() });
                    crate::graph::check_idle()?;
                }
                Some(w) => match got {
                    Err(e) => return Err(format!("demand {} of thunk {}: gave no value but panicked: {}", n, i, e)),
                    Ok((v, _)) => {
                        check!(v == RV::I(w), "demand {} of thunk {} gave {:?}; evaluating with the cycle values gives {}", n, i, v, w);
                        check!(log == wk, "demand {} of thunk {} ran bodies {:?}, expected {:?}", n, i, log.iter().map(|k| key_show(*k)).collect::<Vec<_>>(), wk.iter().map(|k| key_show(*k)).collect::<Vec<_>>());
                        vals.push(w);
                    }
                }
            }
            cx.state(&done);
        }
        cx.outcome(&vals);
        Ok(())
    }
}

fn all(n: u8, gets: bool, inner: bool) -> Vec<Graph> {
    let mut edges: Vec<Edge> = vec![None];
    for j in 0..n { edges.push(Some((j, true))); if gets { edges.push(Some((j, false))) } }
    let mut outs = vec![];
    for a in &edges { for b in &edges { if a.is_none() && b.is_some() { continue } outs.push([*a, *b]) } }
    product(&vec![outs; n as usize]).into_iter().map(|out| Graph { n, out, inner }).collect()
}

pub fn graphs(n: u8, gets: bool, inner: bool, len: usize) -> GFamily {
    GFamily { name: format!("graphs-{}{}{}", n, if gets { "-mixed" } else { "" }, if inner { "-allocated" } else { "" }),
        bounds: format!("all directed graphs of {} thunks with at most 2 edges each, every edge {}, {}; every sequence of {} demands", n,
            if gets { "expecting cycles or not" } else { "expecting cycles" }, if inner { "thunks allocated by name where they are demanded" } else { "thunks allocated by the editor" }, len),
        items: all(n, gets, inner), len, resume: false }
}
/// ... and the engine goes on after an unexpected cycle.
pub fn resumed(mut f: GFamily) -> GFamily { f.name += "-resumed"; f.bounds += "; demands go on after one that ended in an unexpected cycle"; f.resume = true; f }

/// Rings of n thunks, with one, all or none of the edges expecting cycles, chords and side branches.
pub fn rings(max: u8) -> GFamily {
    let mut items = vec![];
    for n in crate::scale::sizes(max as usize) { let n = n as u8; for inner in vec![false, true] {
        let mut at = vec![0, n / 2, n - 1]; at.dedup();
        for chord in 0..4 { for m in 0..at.len() + 2 {
            let out = (0..n).map(|i| {
                let e = (i + 1) % n;
                let c = if m < at.len() { i == at[m] } else { m == at.len() };
                [Some((e, c)), match chord { 0 => None, 1 => Some((0, true)), 2 => Some(((i + n / 2) % n, true)), _ => if i == n / 2 { Some((i, true)) } else { None } }]
            }).collect();
            // values grow exponentially with chords, and are computed modulo 2^64
            if chord == 1 || chord == 2 { if n > 8 { continue } }
            if chord == 0 && n > 20 && m == at.len() + 1 { continue }
            items.push(Graph { n, out, inner });
        } }
    } }
    GFamily { name: format!("rings-{}", max), bounds: format!("rings of up to {} thunks (every size up to 20, then sizes around the multiples of 16), with one, all or none of the edges expecting cycles, without and with chords; every demand", max), items, len: 1, resume: false }
}

fn cycify(e: &E, d: i64) -> E {
    let b = |x: &B| bx(cycify(x, d));
    match e {
        E::Get(x) => E::Cyc(b(x), d),
        E::Map(x, p) => E::Map(b(x), *p), E::Abs(x, p) => E::Abs(b(x), *p),
        E::Add(x, y) => E::Add(b(x), b(y)), E::Mul(x, y) => E::Mul(b(x), b(y)), E::Pair(x, y) => E::Pair(b(x), b(y)), E::Seq(x, y) => E::Seq(b(x), b(y)),
        E::Half(x) => E::Half(b(x)), E::Mod2(x) => E::Mod2(b(x)),
        E::If(x, y, z) => E::If(b(x), b(y), b(z)),
        E::Cell(n, x) => E::Cell(*n, b(x)), E::Put(x) => E::Put(b(x)), E::Ns(n, x) => E::Ns(*n, b(x)), E::Structural(x) => E::Structural(b(x)),
        E::Thunk(n, f, xs) => E::Thunk(*n, *f, xs.iter().map(|x| cycify(x, d)).collect()),
        E::SThunk(f, xs) => E::SThunk(*f, xs.iter().map(|x| cycify(x, d)).collect()),
        E::Cyc(x, k) => E::Cyc(b(x), *k), E::K(_) | E::Arg(_) | E::Ref(_) => e.clone(),
        E::EThunk(f, xs) => E::EThunk(*f, xs.iter().map(|x| cycify(x, d)).collect()), E::NThunk(f, xs) => E::NThunk(*f, xs.iter().map(|x| cycify(x, d)).collect()),
        E::TMap(x, p) => E::TMap(b(x), *p),
    }
}
/// The same programs, with every observation expecting a cycle (and forming none).
pub fn cyc_of(mut f: PFamily) -> PFamily {
    f.name = format!("{}-cyclic-get", f.name);
    f.bounds = format!("{}; every observation is force_cycle", f.bounds);
    for s in f.spaces.iter_mut() { s.prog = Rc::new(Prog { funs: s.prog.funs.iter().map(|e| cycify(e, 77)).collect(), locs: s.prog.locs.clone() }) }
    f
}

/// Incremental programs in which thunks also force themselves.
pub fn self_loops(len: usize, oracles: u32) -> PFamily {
    let me = |i: u8, d: i64| E::Cyc(bx(E::Ref(i)), d);
    let bodies = |i: u8| {
        let mut srcs = vec![get(0), get(1)];
        if i > 2 { srcs.push(get(2)) }
        let mut v = vec![];
        for s in &srcs { for d in [5, 6] {
            v.push(E::Add(bx(me(i, d)), bx(s.clone())));
            v.push(E::Add(bx(E::Half(bx(s.clone()))), bx(me(i, d))));
            if d == 5 { v.push(E::If(bx(E::Mod2(bx(s.clone()))), bx(me(i, d)), bx(get(1)))); v.push(E::Add(bx(me(i, d)), bx(E::Add(bx(me(i, 9)), bx(s.clone()))))) }
        } }
        v
    };
    let mut spaces = vec![];
    for a in bodies(2) { for b in bodies(3) {
        let dom = vec![cells(&[0, 1, 2]), cells(&[0, 1]), vec![th(0)], vec![th(1)]];
        spaces.push(Space { prog: Rc::new(Prog { funs: vec![a.clone(), b], locs: dom.iter().map(|d| d[0].clone()).collect() }), dom, roots: vec![2, 3], how: SET, len, oracles, opts: Opts::default() });
    } }
    PFamily { name: "self-loops".into(), bounds: "two thunks over two cells, each forcing itself (once or twice, before or after its other observations, or only for some inputs)".into(), spaces }
}

/// Edits below thunks that force each other, always demanded through the same thunk.
pub fn edited_cycles(n: u8, slots: usize, len: usize, oracles: u32) -> PFamily {
    let mut opts = vec![None, Some(get(0))];
    for j in 0..n { opts.push(Some(E::Cyc(bx(E::Ref(1 + j)), -1000 - 100 * j as i64))) }
    let bodies = |i: usize| -> Vec<E> {
        product(&vec![opts.clone(); slots]).into_iter().filter(|v| v.windows(2).all(|w| w[0].is_some() || w[1].is_none())).map(|v| {
            let mut e = E::K(i as i64 + 1);
            for (k, x) in v.into_iter().enumerate() { if let Some(x) = x { e = E::Add(bx(e), bx(E::Mul(bx(E::K([7, 31, 101][k])), bx(x)))) } }
            e
        }).collect()
    };
    let mut dom = vec![cells(&[0, 1])];
    for i in 0..n { dom.push(vec![th(i)]) }
    let spaces = product(&(0..n as usize).map(bodies).collect::<Vec<_>>()).into_iter().map(|funs| Space {
        prog: Rc::new(Prog { funs, locs: dom.iter().map(|d| d[0].clone()).collect() }),
        dom: dom.clone(), roots: vec![1], how: SET, len, oracles, opts: Opts::default() }).collect();
    PFamily { name: format!("edited-cycles-{}x{}", n, slots), bounds: format!("all programs of {} thunks that sum up to {} observations each, of one edited cell or of any of the thunks (expecting cycles), demanded through the first thunk", n, slots), spaces }
}

// ------------------------------------------------- cycles that come and go with an edit

/// Thunk i: i+1, plus 7 times its first edge, plus 31 times its second one
/// if the cell has the given parity.
#[derive(Clone, Debug)]
pub struct Gated { pub n: usize, pub out: Vec<(Edge, Edge, i64)> }
impl Gated {
    fn prog(&self) -> Prog {
        let mut funs = vec![];
        for (i, (a, b, pol)) in self.out.iter().enumerate() {
            let edge = |e: &Edge, k: usize| e.map(|(j, c)| { let t = bx(E::Ref(1 + j)); bx(E::Mul(bx(E::K([7, 31][k])), bx(if c { E::Cyc(t, default(i, k)) } else { E::Get(t) }))) });
            let mut e = E::K(i as i64 + 1);
            if let Some(x) = edge(a, 0) { e = E::Add(bx(e), x) }
            if let Some(x) = edge(b, 1) { let z = bx(E::K(0)); e = E::Add(bx(e), bx(if *pol == 1 { E::If(bx(get(0)), x, z) } else { E::If(bx(get(0)), z, x) })) }
            funs.push(e);
        }
        let mut locs = vec![C::Cell(RV::I(0))];
        for i in 0..self.n { locs.push(th(i as u8)) }
        Prog { funs, locs }
    }
    /// the edges of thunk i while the cell holds c
    fn succ(&self, i: usize, c: i64) -> Vec<(usize, bool, i64)> {
        let (a, b, pol) = &self.out[i];
        let mut v = vec![];
        if let Some((j, y)) = a { v.push((*j as usize, *y, 7)) }
        if let Some((j, y)) = b { if c == *pol { v.push((*j as usize, *y, 31)) } }
        v
    }
    /// what thunk v reaches along edges that `keep` keeps
    fn reach(&self, v: usize, c: i64, keep: &dyn Fn(bool) -> bool) -> Vec<bool> {
        let mut seen = vec![false; self.n]; let mut todo = vec![v];
        while let Some(i) = todo.pop() { for (j, y, _) in self.succ(i, c) { if keep(y) && !seen[j] { seen[j] = true; todo.push(j) } } }
        seen
    }
    fn value(&self, v: usize, c: i64) -> i64 { v as i64 + 1 + self.succ(v, c).iter().map(|(j, _, k)| k * self.value(*j, c)).sum::<i64>() }
}
pub struct GatedFamily { pub name: String, pub bounds: String, pub items: Vec<Gated>, pub len: usize }
struct GatedCase { g: Gated, prog: Rc<Prog>, len: usize }
impl Family for GatedFamily {
    fn name(&self) -> String { self.name.clone() }
    fn bounds(&self) -> String { self.bounds.clone() }
    fn ncases(&self) -> usize { self.items.len() }
    fn case(&self, i: usize) -> Option<Box<dyn Case>> {
        let g = self.items[i].clone();
        let prog = Rc::new(g.prog());
        Some(Box::new(GatedCase { g, prog, len: self.len }))
    }
}
impl Case for GatedCase {
    fn nhist(&self) -> u64 { (self.g.n as u64 + 1).pow(self.len as u32) }
    fn describe(&self, h: u64) -> String { format!("{} ;; {:?}", self.prog.show(), digits(h, self.g.n as u64 + 1, self.len).into_iter().map(|d| if d == 0 { "toggle the cell".into() } else { format!("demand thunk {}", d - 1) }).collect::<Vec<String>>()) }
    fn run(&mut self, h: u64, cx: &mut Ctx) -> R {
        let g = &self.g;
        intern_reset();
        fresh_dcg(&Opts::default());
        start(&self.prog, false);
        let mut c = 0i64;
        let mut vals = vec![];
        for (n, d) in digits(h, g.n as u64 + 1, self.len).into_iter().enumerate() {
            cx.step();
            if d == 0 { c = 1 - c; set(&rt(|r| r.arts[0].clone()), V::I(c)); vals.push(-1); continue }
            let v = d - 1;
            let got = guarded(|| demand(1 + v)).map(|g| g.0);
            let mut r = g.reach(v, c, &|_| true); r[v] = true;
            let nodes: Vec<usize> = (0..g.n).filter(|i| r[*i]).collect();
            let cyclic = nodes.iter().any(|i| g.reach(*i, c, &|_| true)[*i]);
            // are there edges on cycles that expect them / that do not? (With both, it matters where the cycle is entered.)
            let on_cycle = |k: bool| nodes.iter().any(|i| g.succ(*i, c).iter().any(|(j, y, _)| *y == k && (*j == *i || g.reach(*j, c, &|_| true)[*i])));
            let (expected, plain) = (on_cycle(true), on_cycle(false));
            cx.say(|| format!("step {}: the cell holds {}; demand thunk {} -> {:?}; cycles: {}, with an edge that expects them: {}, with an edge that does not: {}", n, c, v, got, cyclic, expected, plain));
            let bad = |w: &str| Err(format!("step {}: the cell holds {}; demand of thunk {}: {}, but {}", n, c, v, w, match &got { Ok(x) => format!("the demand gave {:?}", x), Err(e) => format!("the demand panicked: {}", e) }));
            match &got { Err(e) => if !e.contains("unexpected cycle") { return bad("no panic but that of an unexpected cycle is possible") }, _ => () }
            if !cyclic { if got != Ok(RV::I(g.value(v, c))) { return bad(&format!("nothing that it reaches is on a cycle, so its value is {}", g.value(v, c))) } }
            else if !expected { if got.is_ok() { return bad("an observation that does not expect cycles forms one") } cx.count("unexpected_cycles", 1) }
            else if !plain { if got.is_err() { return bad("every observation on a cycle expects one") } cx.count("expected_cycles", 1) }
            match &got { Ok(RV::I(x)) => vals.push(*x), _ => vals.push(-2) }
            if got.is_err() { rt(|r| { r.path.clear(); r.structural = false; r.stack.clear() }); crate::graph::check_idle()? }
        }
        cx.state(&vals); cx.outcome(&vals);
        Ok(())
    }
}
/// `kinds`: edges may expect cycles, may not, or (3) each may either way
pub fn gated(n: u8, kinds: u8, len: usize, nth: usize) -> GatedFamily {
    let mut edges: Vec<Edge> = vec![None];
    for j in 0..n { if kinds & 1 != 0 { edges.push(Some((j, true))) } if kinds & 2 != 0 { edges.push(Some((j, false))) } }
    let mut outs = vec![];
    for a in &edges { for b in &edges { for p in 0..2 { if b.is_some() || p == 0 { outs.push((*a, *b, p as i64)) } } } }
    let items = product(&vec![outs; n as usize]).into_iter().enumerate().filter(|(i, _)| i % nth == 0).map(|(_, out)| Gated { n: n as usize, out }).collect();
    GatedFamily { name: format!("gated-cycles-{}-{}", n, ["", "expected", "plain", "mixed"][kinds as usize]),
        bounds: format!("{} programs of {} thunks with at most 2 edges each ({}), the second one only while the edited cell is 0, or 1; every history of {} operations, each toggling the cell or demanding a thunk, going on after unexpected cycles", if nth == 1 { "all".to_string() } else { format!("every {}th of all", nth) }, n, ["", "expecting cycles", "not expecting cycles", "each expecting cycles or not"][kinds as usize], len), items, len }
}
