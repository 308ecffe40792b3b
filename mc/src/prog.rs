//! A tiny language of incremental programs, run (a) on the real engine and
//! (b) by a from-scratch reference interpreter that knows nothing about
//! caching, dirtying or cleaning.

use adapton::engine::*;
use adapton::macros::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// Interned identity of a node: (path, name or structural identity).
pub type K = u32;

/// Values flowing through the real engine.
/// Articulations are compared as the library compares them.
#[derive(Clone, Eq)]
pub enum V { I(i64), P(i64, i64), A(Art<V>, K) }
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) { (V::I(a), V::I(b)) => a == b, (V::P(a, b), V::P(c, d)) => a == c && b == d, (V::A(a, _), V::A(b, _)) => a == b, _ => false }
    }
}
impl std::hash::Hash for V {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if OPAQUE.with(|o| o.get()) { return }
        match self { V::I(a) => (0, a).hash(h), V::P(a, b) => (1, a, b).hash(h), V::A(a, _) => (2, a).hash(h) }
    }
}

thread_local!(
    /// values are told apart by `Eq` only: they all print and hash alike
    pub static OPAQUE: std::cell::Cell<bool> = std::cell::Cell::new(false));
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if OPAQUE.with(|o| o.get()) { return write!(f, "_") }
        match self { V::I(a) => f.debug_tuple("I").field(a).finish(), V::P(a, b) => f.debug_tuple("P").field(a).field(b).finish(), V::A(a, k) => f.debug_tuple("A").field(a).field(k).finish() }
    }
}

/// Values of the reference interpreter.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum RV { I(i64), P(i64, i64), A(K) }

impl V {
    pub fn rv(&self) -> RV { match *self { V::I(i) => RV::I(i), V::P(a, b) => RV::P(a, b), V::A(_, k) => RV::A(k) } }
    pub fn int(&self) -> i64 { match *self { V::I(i) => i, V::P(a, b) => a + 10 * b, V::A(..) => panic!("harness: art where an int is expected") } }
}
impl RV {
    pub fn int(&self) -> i64 { match *self { RV::I(i) => i, RV::P(a, b) => a + 10 * b, RV::A(_) => panic!("harness: art where an int is expected") } }
}

pub type B = Box<E>;
/// Expressions. Names are small numbers; `Ref(i)` is the editor's i-th art
/// (cells first, then thunks).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    K(i64),
    Arg(u8),
    Ref(u8),
    Get(B),
    /// `force_map` with projection `u8` (see `proj`)
    Map(B, u8),
    /// `force_abs` with argument `u8`
    Abs(B, u8),
    Add(B, B),
    Mul(B, B),
    Half(B),
    Mod2(B),
    Pair(B, B),
    If(B, B, B),
    /// force for effect, then continue
    Seq(B, B),
    Cell(u8, B),
    Thunk(u8, u8, Vec<E>),
    /// structurally named thunk
    SThunk(u8, Vec<E>),
    Put(B),
    Ns(u8, B),
    Structural(B),
    /// force_cycle with default
    Cyc(B, i64),
    /// a thunk with NameChoice::Eager: evaluated at once
    EThunk(u8, Vec<E>),
    /// a thunk with NameChoice::Naive: evaluated at every demand
    NThunk(u8, Vec<E>),
    /// `thunk_map` by projection `u8`
    TMap(B, u8),
}
pub fn bx(e: E) -> B { Box::new(e) }

pub fn proj(p: u8, v: &RV) -> RV {
    match (p, v) {
        (0, RV::P(a, _)) => RV::I(*a),
        (1, RV::P(_, b)) => RV::I(*b),
        (2, RV::P(a, b)) => RV::I((a + b) % 2),
        (3, RV::P(a, b)) => RV::P(*a, *b),
        (4, RV::P(a, b)) => RV::I(if a > b { *a } else { *b }),
        (0, RV::I(i)) => RV::I(i % 2),
        (1, RV::I(i)) => RV::I(i / 2),
        (2, RV::I(i)) => RV::I(if *i > 0 { 1 } else { 0 }),
        (3, RV::I(i)) => RV::I(*i),
        (4, RV::I(i)) => RV::I(if *i > 1 { 1 } else { 0 }),
        _ => RV::I(-1),
    }
}

impl E {
    pub fn show(&self) -> String {
        match self {
            E::K(i) => format!("{}", i),
            E::Arg(i) => format!("x{}", i),
            E::Ref(i) => format!("@{}", i),
            E::Get(e) => format!("!{}", e.show()),
            E::Map(e, p) => format!("map{}({})", p, e.show()),
            E::Abs(e, p) => format!("abs{}({})", p, e.show()),
            E::Add(a, b) => format!("({}+{})", a.show(), b.show()),
            E::Mul(a, b) => format!("({}*{})", a.show(), b.show()),
            E::Half(a) => format!("half({})", a.show()),
            E::Mod2(a) => format!("odd({})", a.show()),
            E::Pair(a, b) => format!("<{},{}>", a.show(), b.show()),
            E::If(a, b, c) => format!("if {} then {} else {}", a.show(), b.show(), c.show()),
            E::Seq(a, b) => format!("({}; {})", a.show(), b.show()),
            E::Cell(n, e) => format!("cell#{}({})", n, e.show()),
            E::Thunk(n, f, a) => format!("thunk#{} F{}({})", n, f, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            E::SThunk(f, a) => format!("sthunk F{}({})", f, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            E::Put(e) => format!("put({})", e.show()),
            E::Ns(n, e) => format!("ns#{}{{{}}}", n, e.show()),
            E::Structural(e) => format!("structural{{{}}}", e.show()),
            E::Cyc(e, d) => format!("cyc({},{})", e.show(), d),
            E::EThunk(f, a) => format!("eager F{}({})", f, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            E::NThunk(f, a) => format!("naive F{}({})", f, a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            E::TMap(e, p) => format!("thunk_map{}({})", p, e.show()),
        }
    }
}

thread_local!(static FNS: Vec<&'static str> = (0..256).map(|i| &*Box::leak(format!("F{}", i).into_boxed_str())).collect());
pub fn fn_name(f: u8) -> &'static str { FNS.with(|n| n[f as usize]) }
thread_local!(/// more evaluations than in small programs are to be expected
    pub static BIG: std::cell::Cell<bool> = std::cell::Cell::new(false));
fn fuel(n: u32) -> u32 { if BIG.with(|b| b.get()) { n * 1000 } else { n } }

/// What the editor keeps under one of its names.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum C { Cell(RV), Thunk(u8, Vec<RV>) }

/// A program: function bodies, and the initial content of the editor's names.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Prog { pub funs: Vec<E>, pub locs: Vec<C> }
impl Prog {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, f) in self.funs.iter().enumerate() { s.push_str(&format!("F{}={} ; ", i, f.show())) }
        s.push_str(&format!("editor={:?}", self.locs));
        s
    }
}

// ------------------------------------------------------------ identities

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Id { Nom(u32), /** structural thunk; created in a structural region? */ ST(u8, Vec<RV>, bool), SC(RV), Put(RV), NT(u8, Vec<RV>), TM(K, u8) }

pub const ED0: u32 = 1000;
pub const INNER0: u32 = 3000;
pub const NS0: u32 = 4000;

pub fn nm(k: u32) -> Name { name_of_usize(k as usize) }

#[derive(Default)]
pub struct Interner { map: HashMap<(Vec<u32>, Id), K>, pub rev: Vec<(Vec<u32>, Id)> }
impl Interner {
    fn get(&mut self, p: &Vec<u32>, id: Id) -> K {
        if let Some(k) = self.map.get(&(p.clone(), id.clone())) { return *k }
        let k = self.rev.len() as K;
        self.rev.push((p.clone(), id.clone()));
        self.map.insert((p.clone(), id), k);
        k
    }
}
thread_local!(pub static INT: RefCell<Interner> = RefCell::new(Interner::default()));
pub fn intern(p: &Vec<u32>, id: Id) -> K { INT.with(|i| i.borrow_mut().get(p, id)) }
pub fn intern_reset() { LOCS.with(|m| m.borrow_mut().clear()); MAPS.with(|m| m.borrow_mut().clear()); INT.with(|i| *i.borrow_mut() = Interner::default()) }
/// Names are ignored while this thunk runs.
pub fn region_of(k: K) -> bool { INT.with(|i| match i.borrow().rev[k as usize].1 { Id::ST(_, _, r) => r, _ => false }) }
pub fn key_show(k: K) -> String { INT.with(|i| format!("{:?}", i.borrow().rev.get(k as usize))) }

// ------------------------------------------------------------ real engine

#[derive(Clone, Debug)]
pub struct Exec { pub key: K, pub args: Vec<RV>, pub obs: Vec<(K, u8, RV)>, pub allocs: Vec<K>, /** allocations of new locations */ pub fresh: Vec<K>, pub excused: bool }

#[derive(Default)]
pub struct Rt {
    pub prog: Option<Rc<Prog>>,
    pub arts: Vec<Art<V>>,
    pub path: Vec<u32>,
    pub structural: bool,
    /// running bodies
    pub stack: Vec<Exec>,
    /// bodies executed since the last `take_log`
    pub log: Vec<(K, Vec<RV>)>,
    pub fuel: u32,
    pub execs: u64,
    /// evaluations of unnamed (naive, eager) thunks
    pub unnamed: u64,
    // --- reuse monitor ---
    pub reuse: bool,
    pub last: HashMap<K, Exec>,
    /// thunks with a legitimate reason to re-run (argument or allocation overwritten)
    pub excused: HashSet<K>,
    /// current content of allocated cells / thunk arguments
    pub content: HashMap<K, (u8, Vec<RV>)>,
    pub err: Option<String>,
    /// allocations (by, location, is thunk, fresh/same/changed) and demands (by, location, of a cell)
    pub alog: Vec<(Option<K>, K, bool, u8)>,
    /// (... and whether it repeats a full observation, if that is certain)
    pub flog: Vec<(Option<K>, K, bool, Option<bool>)>,
    pub tracing: bool,
    /// compare locations of structural articulations at each allocation
    pub fresh_locs: bool,
    /// check the reflected graph inside running bodies
    pub inside: bool,
    /// check the drawings at the end of bodies
    pub drawn: bool,
    /// insert debug extents into the trace
    pub debug: bool,
    /// panic at this event (counted down), if any
    pub fault: Option<u32>,
}
thread_local!(pub static RT: RefCell<Rt> = RefCell::new(Rt::default()));

pub const FAULT: &str = "injected fault";
/// An event inside a demand: the point where a fault may strike.
fn event() {
    let now = rt(|r| match r.fault { None => false, Some(0) => { r.fault = None; true } Some(n) => { r.fault = Some(n - 1); false } });
    if now { panic!("{}", FAULT) }
}

pub fn rt<T, F: FnOnce(&mut Rt) -> T>(f: F) -> T { RT.with(|r| f(&mut *r.borrow_mut())) }

/// An allocation at `k` with the given content happened; who else allocated it?
pub fn note_alloc(r: &mut Rt, k: K, content: (u8, Vec<RV>)) {
    let changed = match r.content.get(&k) { Some(c) => *c != content, None => true };
    let fresh = !r.content.contains_key(&k);
    if r.tracing {
        let case = if !changed { 1 } else if r.content.contains_key(&k) { 2 } else { 0 };
        let by = r.stack.last().map(|e| e.key);
        r.alog.push((by, k, content.0 > 0, case));
    }
    if changed {
        let existed = r.content.contains_key(&k);
        if existed {
            let hit: Vec<K> = r.last.iter().filter(|(_, e)| e.allocs.contains(&k)).map(|(k, _)| *k).collect();
            for h in hit { r.excused.insert(h); }
            r.excused.insert(k);
        }
        r.content.insert(k, content);
    }
    if let Some(top) = r.stack.last_mut() { top.allocs.push(k); if fresh { top.fresh.push(k) } }
}

fn observe(k: K, how: u8, v: &V) {
    let rv = v.rv();
    rt(|r| {
        if r.tracing { let cell = r.content.get(&k).map_or(true, |c| c.0 == 0); let by = r.stack.last().map(|e| e.key);
            let dup = match r.stack.last() { None => Some(false), Some(e) => if e.key == k || is_structural(k) { None } else if !e.obs.iter().any(|o| o.0 == k) { Some(false) } else if how < 254 || e.obs.iter().any(|o| o.0 == k && o.1 < 254) { None } else { Some(true) } };
            r.flog.push((by, k, cell, dup)) }
        if let Some(top) = r.stack.last_mut() { top.obs.push((k, how, rv)) }
    })
}

fn body(f: u8, args: Vec<V>, key: K, path: Rc<Vec<u32>>) -> V {
    let prog = rt(|r| {
        if r.fuel == 0 { panic!("fuel exhausted: more body evaluations than any terminating history can need") }
        r.fuel -= 1;
        r.execs += 1;
        let a: Vec<RV> = args.iter().map(|x| x.rv()).collect();
        r.log.push((key, a.clone()));
        let excused = r.excused.remove(&key);
        r.stack.push(Exec { key, args: a, obs: vec![], allocs: vec![], fresh: vec![], excused });
        r.prog.clone().unwrap()
    });
    let region = region_of(key);
    let saved = rt(|r| (std::mem::replace(&mut r.path, (*path).clone()), std::mem::replace(&mut r.structural, region)));
    let (inside, debug) = rt(|r| (r.inside, r.debug));
    if inside { inside_check(false) }
    if debug { reflect_dcg::debug_begin(Some(nm(1)), Some("body".to_string())); reflect_dcg::debug_effect(None, None) }
    let v = ev(&prog.funs[f as usize], &args);
    event();
    if debug { reflect_dcg::debug_end() }
    if inside { inside_check(true) }
    if rt(|r| r.drawn) { if let Err(e) = crate::draw::check_running() { rt(|r| if r.err.is_none() { r.err = Some(e) }) } }
    rt(|r| {
        r.path = saved.0; r.structural = saved.1;
        let ex = r.stack.pop().unwrap();
        if r.reuse {
            // overwriting one's own earlier allocations while re-running is no excuse for the next run
            r.excused.remove(&key);
            if let Some(old) = r.last.get(&key) {
                if !ex.excused && old.args == ex.args && old.obs == ex.obs && r.err.is_none() {
                    r.err = Some(format!("thunk {} (args {:?}) was re-evaluated although nothing it had observed or allocated changed: it observed {:?} again",
                        key_show(key), ex.args, ex.obs));
                }
            }
            r.last.insert(key, ex);
        }
    });
    v
}

fn inside_check(end: bool) {
    if let Err(e) = crate::graph::check_inside(end) { rt(|r| if r.err.is_none() { r.err = Some(format!("inside a body: {}", e)) }) }
}

pub fn mk_thunk(name: u32, f: u8, args: Vec<V>, structural: bool) -> V {
    let path = rt(|r| r.path.clone());
    let region = rt(|r| r.structural);
    let st = structural || region;
    let rargs: Vec<RV> = args.iter().map(|x| x.rv()).collect();
    let key = intern(&path, if st { Id::ST(f, rargs.clone(), region) } else { Id::Nom(name) });
    rt(|r| note_alloc(r, key, (1 + f, rargs)));
    let p = Rc::new(path);
    let nc = if structural { NameChoice::Structural } else { NameChoice::Nominal(nm(name)) };
    let a = thunk(nc, ProgPt { symbol: fn_name(f) },
        Rc::new(Box::new(move |a: Vec<V>, s: Vec<V>| {
            if s != a { panic!("a thunk body ran with argument {:?} but with the spurious argument {:?} of another allocation of its name", a, s) }
            body(f, a, key, p.clone())
        })), args.clone(), args);
    if st { learn(key, &a) }
    V::A(a, key)
}

thread_local!(static LOCS: RefCell<HashMap<K, adapton::reflect::Loc>> = RefCell::new(HashMap::new()));
/// the location of a structurally identified articulation
pub fn structural_loc(k: K) -> Option<adapton::reflect::Loc> { LOCS.with(|l| l.borrow().get(&k).cloned()) }
pub fn is_structural(k: K) -> bool { INT.with(|i| match i.borrow().rev[k as usize].1 { Id::ST(..) | Id::SC(..) => true, _ => false }) }
fn learn(k: K, a: &Art<V>) {
    use adapton::reflect::Val;
    let look = rt(|r| r.tracing || r.inside || r.fresh_locs) || structural_loc(k).is_none();
    if !look { return }
    if manage::engine_is_naive() { return }
    let l = match adapton::reflect::reflect_val(a) { Val::Art(l, _) => l, v => { rt(|r| r.err = Some(format!("a structurally identified articulation is reflected as {:?}", v))); return } };
    let path: Vec<Name> = INT.with(|i| i.borrow().rev[k as usize].0.iter().map(|x| nm(*x)).collect());
    let bad = if l.path != path { Some(format!("{} was allocated in namespace {:?}, but is located in {:?}", key_show(k), path, l.path)) }
        else { match structural_loc(k) { Some(ref m) if *m != l => Some(format!("{} was located at {:?} and now at {:?}", key_show(k), m, l)), _ => None } };
    LOCS.with(|m| { m.borrow_mut().entry(k).or_insert(l); });
    if let Some(b) = bad { rt(|r| if r.err.is_none() { r.err = Some(b) }) }
}

pub fn mk_cell(name: u32, v: V) -> V {
    let path = rt(|r| r.path.clone());
    let rv = v.rv();
    let key = intern(&path, if rt(|r| r.structural) { Id::SC(rv.clone()) } else { Id::Nom(name) });
    rt(|r| note_alloc(r, key, (0, vec![rv])));
    let a = cell(nm(name), v);
    if is_structural(key) { learn(key, &a) }
    V::A(a, key)
}

fn art(v: V) -> (Art<V>, K) { match v { V::A(a, k) => (a, k), _ => panic!("harness: not an art") } }

pub fn ref_key(i: u8) -> K { intern(&vec![], Id::Nom(ED0 + i as u32)) }

fn project(p: u8, v: &V) -> V {
    match proj(p, &v.rv()) { RV::I(i) => V::I(i), RV::P(a, b) => V::P(a, b), RV::A(_) => unreachable!() }
}

/// Family of mappings used with `force_abs`: argument k asks "component k of the pair";
/// an abstract mapping is a bit set of components; a difference is the set of changed components.
/// The engine must ask for differences from a value that was observed to the value that is there now.
pub struct Comps(pub Rc<RefCell<Option<V>>>, pub K);
impl AbsMapFam<u8, u8, V, u8, V> for Comps {
    fn map(&self, arg: u8, inp: V) -> V { let r = project(arg, &inp); *self.0.borrow_mut() = Some(inp); r }
    fn abs(&self, arg: u8) -> u8 { 1 << arg }
    fn join(&self, a: u8, b: u8) -> u8 { a | b }
    fn diff(&self, a: &V, b: &V) -> u8 {
        let k = self.1;
        rt(|r| if let Some((0, vs)) = r.content.get(&k).cloned() { if vs[0] != b.rv() && r.err.is_none() {
            r.err = Some(format!("the difference between {:?} and {:?} was asked for, but {} now holds {:?}", a.rv(), b.rv(), key_show(k), vs[0]));
        } });
        let mut d = 0; for k in 0..5u8 { if project(k, a) != project(k, b) { d |= 1 << k } } d
    }
    fn is_dirty(&self, d: u8, abs: &u8) -> bool { d & *abs != 0 }
}

thread_local!(static MAPS: RefCell<HashMap<(u8, K), Rc<dyn Fn(V) -> V>>> = RefCell::new(HashMap::new()));
/// One mapping function per projection (and source, so that it knows what it observes).
fn map_fn(p: u8, k: K) -> Rc<dyn Fn(V) -> V> {
    MAPS.with(|m| m.borrow_mut().entry((p, k)).or_insert_with(|| Rc::new(move |v: V| { observe(k, 255, &v); project(p, &v) })).clone())
}
/// The body of a thunk that has no node of its own.
fn unnamed(f: u8, args: &Vec<V>) -> V {
    let prog = rt(|r| {
        if r.fuel == 0 { panic!("fuel exhausted: more body evaluations than any terminating history can need") }
        r.fuel -= 1; r.execs += 1; r.unnamed += 1;
        r.prog.clone().unwrap()
    });
    ev(&prog.funs[f as usize], args)
}

pub fn ev(e: &E, args: &Vec<V>) -> V {
    let v = ev1(e, args);
    match e { E::Get(..) | E::Map(..) | E::Abs(..) | E::Cyc(..) | E::Cell(..) | E::Thunk(..) | E::SThunk(..) | E::Put(..) | E::EThunk(..) | E::NThunk(..) | E::TMap(..) | E::Ns(..) | E::Structural(..) => event(), _ => () }
    v
}
fn ev1(e: &E, args: &Vec<V>) -> V {
    match e {
        E::K(i) => V::I(*i),
        E::Arg(i) => args[*i as usize].clone(),
        E::Ref(i) => {
            let a = rt(|r| r.arts[*i as usize].clone());
            V::A(a, ref_key(*i))
        }
        E::Get(x) => { let (a, k) = art(ev(x, args)); let v = force(&a); observe(k, 255, &v); v }
        E::Map(x, p) => {
            let (a, k) = art(ev(x, args)); let p = *p;
            let full = Rc::new(RefCell::new(None));
            let f2 = full.clone();
            let a2 = a.clone();
            let v = force_map(&a, move |m, v| { if *m != a2 { rt(|r| if r.err.is_none() { r.err = Some(format!("the function of force_map on {} was given another articulation", key_show(k))) }) } let r = project(p, &v); *f2.borrow_mut() = Some(v); r });
            // on a thunk the whole value is observed
            let is_cell = rt(|r| r.content.get(&k).map_or(true, |c| c.0 == 0));
            let raw = full.borrow_mut().take();
            match raw { Some(ref w) if !is_cell => observe(k, 255, w), _ => observe(k, p, &v) }
            v
        }
        E::Abs(x, p) => {
            let (a, k) = art(ev(x, args));
            let full = Rc::new(RefCell::new(None));
            let v = force_abs(Box::new(Comps(full.clone(), k)), *p, a);
            let is_cell = rt(|r| r.content.get(&k).map_or(true, |c| c.0 == 0));
            let raw = full.borrow_mut().take();
            match raw { Some(ref w) if !is_cell => observe(k, 255, w), _ => observe(k, 100 + *p, &v) }
            v
        }
        E::Cyc(x, d) => { let (a, k) = art(ev(x, args)); let v = force_cycle(&a, Some(V::I(*d))); observe(k, 254, &v); v }
        E::Add(a, b) => { let x = ev(a, args).int(); let y = ev(b, args).int(); V::I(x.wrapping_add(y)) }
        E::Mul(a, b) => { let x = ev(a, args).int(); let y = ev(b, args).int(); V::I(x.wrapping_mul(y)) }
        E::Half(a) => V::I(ev(a, args).int() / 2),
        E::Mod2(a) => V::I(ev(a, args).int() % 2),
        E::Pair(a, b) => { let x = ev(a, args).int(); let y = ev(b, args).int(); V::P(x, y) }
        E::If(a, b, c) => if ev(a, args).int() != 0 { ev(b, args) } else { ev(c, args) },
        E::Seq(a, b) => { ev(a, args); ev(b, args) }
        E::Cell(n, x) => { let v = ev(x, args); mk_cell(INNER0 + *n as u32, v) }
        E::Thunk(n, f, a) => { let a: Vec<V> = a.iter().map(|x| ev(x, args)).collect(); mk_thunk(INNER0 + *n as u32, *f, a, false) }
        E::SThunk(f, a) => { let a: Vec<V> = a.iter().map(|x| ev(x, args)).collect(); mk_thunk(0, *f, a, true) }
        E::Put(x) => { let v = ev(x, args); let k = intern(&vec![], Id::Put(v.rv())); V::A(put(v), k) }
        E::EThunk(f, a) => {
            let a: Vec<V> = a.iter().map(|x| ev(x, args)).collect();
            let res = Rc::new(RefCell::new(None)); let r2 = res.clone();
            let f = *f;
            let t = thunk(NameChoice::Eager, ProgPt { symbol: fn_name(f) },
                Rc::new(Box::new(move |a: Vec<V>, _: ()| { let v = unnamed(f, &a); *r2.borrow_mut() = Some(v.rv()); v })), a, ());
            let v = res.borrow_mut().take();
            match v {
                None => panic!("an eager thunk was allocated without running its body"), Some(v) => V::A(t, intern(&vec![], Id::Put(v))) }
        }
        E::NThunk(f, a) => {
            let a: Vec<V> = a.iter().map(|x| ev(x, args)).collect();
            let k = intern(&vec![], Id::NT(*f, a.iter().map(|x| x.rv()).collect()));
            let f = *f;
            V::A(thunk(NameChoice::Naive, ProgPt { symbol: fn_name(f) }, Rc::new(Box::new(move |a: Vec<V>, _: ()| unnamed(f, &a))), a, ()), k)
        }
        E::TMap(x, p) => {
            let (a, k) = art(ev(x, args));
            V::A(thunk_map(a, map_fn(*p, k)), intern(&vec![], Id::TM(k, *p)))
        }
        E::Ns(n, x) => {
            rt(|r| r.path.push(NS0 + *n as u32));
            let v = ns(nm(NS0 + *n as u32), || ev(x, args));
            rt(|r| { r.path.pop(); });
            v
        }
        E::Structural(x) => {
            let s = rt(|r| std::mem::replace(&mut r.structural, true));
            let v = structural(|| ev(x, args));
            rt(|r| r.structural = s);
            v
        }
    }
}

/// Runtime for program `p`; the editor's names are allocated with contents `locs`.
pub fn start_with(p: &Rc<Prog>, locs: &[C], reuse: bool) {
    rt(|r| { *r = Rt { prog: Some(p.clone()), fuel: fuel(4000), reuse, ..Rt::default() } });
    // thunk bodies read RT.arts lazily
    for (i, c) in locs.iter().enumerate() { let a = ed_alloc(i, c); rt(|r| r.arts.push(a)); }
}
pub fn start(p: &Rc<Prog>, reuse: bool) { start_with(p, &p.locs, reuse) }
/// The editor allocates content `c` under its i-th name.
pub fn ed_alloc(i: usize, c: &C) -> Art<V> {
    art(match c {
        C::Cell(v) => mk_cell(ED0 + i as u32, inj(v)),
        C::Thunk(f, a) => mk_thunk(ED0 + i as u32, *f, a.iter().map(inj).collect(), false),
    }).0
}
pub fn inj(v: &RV) -> V { match v { RV::I(i) => V::I(*i), RV::P(a, b) => V::P(*a, *b), RV::A(_) => panic!("harness: art constant") } }
pub fn take_log() -> Vec<(K, Vec<RV>)> { rt(|r| std::mem::replace(&mut r.log, vec![])) }
pub fn take_err() -> Option<String> { rt(|r| r.err.take()) }

/// Force an editor art and chase returned arts, so that the result is data.
pub fn demand(i: usize) -> (RV, Vec<K>) {
    let a = rt(|r| r.arts[i].clone());
    demand_art(&a, ref_key(i as u8))
}
pub fn demand_art(a: &Art<V>, k: K) -> (RV, Vec<K>) {
    let mut v = force(a);
    observe(k, 255, &v);
    let mut chain = vec![];
    loop {
        match v { V::A(a, k) => { chain.push(k); if chain.len() > 200 { panic!("harness: art chain too long") } v = force(&a); observe(k, 255, &v) } v => return (v.rv(), chain) }
    }
}

// ------------------------------------------------------------ reference

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad { /** same identity allocated with different content in one run */ Ambiguous, Cycle, Type, Fuel }

#[derive(Clone, Debug)]
pub struct RefRun {
    pub val: RV,
    pub chain: Vec<K>,
    /// bodies a from-scratch evaluation executes
    pub execs: HashSet<(K, Vec<RV>)>,
    /// evaluations of unnamed thunks
    pub unnamed: u64,
    /// evaluations of bodies
    pub runs: u64,
}

#[derive(Clone)]
enum RN { Cell(RV), Naive(u8, Vec<RV>), Map(K, u8), Thunk { f: u8, args: Vec<RV>, path: Vec<u32>, res: Option<RV>, running: bool } }

pub struct Ref<'a> {
    p: &'a Prog,
    store: HashMap<K, RN>,
    path: Vec<u32>,
    structural: bool,
    fuel: u32,
    pub execs: HashSet<(K, Vec<RV>)>,
    /// evaluations of unnamed thunks
    pub unnamed: u64,
    /// do not remember results: count every demand's evaluation
    pub no_memo: bool,
    pub runs: u64,
    /// names do not matter (pure semantics): used where names are ignored
    pub nameless: bool,
    fresh: u32,
    /// contents from before this evaluation that it has not used yet: an allocation may overwrite them
    base: HashSet<K>,
    /// what this evaluation allocated
    pub allocs: HashMap<K, (u8, Vec<RV>)>,
}

impl<'a> Ref<'a> {
    pub fn new(p: &'a Prog, locs: &[C]) -> Ref<'a> {
        let mut r = Ref { p, store: HashMap::new(), path: vec![], structural: false, fuel: fuel(2000), execs: HashSet::new(), unnamed: 0, no_memo: false, runs: 0, nameless: false, fresh: 0, base: HashSet::new(), allocs: HashMap::new() };
        for (i, c) in locs.iter().enumerate() {
            let k = ref_key(i as u8);
            r.store.insert(k, match c {
                C::Cell(v) => RN::Cell(v.clone()),
                C::Thunk(f, a) => RN::Thunk { f: *f, args: a.clone(), path: vec![], res: None, running: false },
            });
        }
        r
    }
    /// Start from the given contents of locations instead of from the editor's.
    pub fn with_store(p: &'a Prog, content: &HashMap<K, (u8, Vec<RV>)>) -> Ref<'a> {
        let mut r = Ref::new(p, &[]);
        for (k, (kind, vs)) in content {
            let path = INT.with(|i| i.borrow().rev[*k as usize].0.clone());
            r.store.insert(*k, if *kind == 0 { RN::Cell(vs[0].clone()) } else { RN::Thunk { f: kind - 1, args: vs.clone(), path, res: None, running: false } });
        }
        r
    }
    /// Start from these contents; the evaluation may overwrite those it has not used.
    pub fn over_store(p: &'a Prog, content: &HashMap<K, (u8, Vec<RV>)>) -> Ref<'a> {
        let mut r = Ref::with_store(p, content);
        r.base = content.keys().cloned().collect();
        r
    }
    fn art(&mut self, e: &E, a: &[RV]) -> Result<K, Bad> { match self.ev(e, a)? { RV::A(k) => Ok(k), _ => Err(Bad::Type) } }
    fn int(&mut self, e: &E, a: &[RV]) -> Result<i64, Bad> { match self.ev(e, a)? { RV::A(_) => Err(Bad::Type), v => Ok(v.int()) } }
    pub fn force(&mut self, k: K) -> Result<RV, Bad> {
        self.base.remove(&k);
        // articulations without a node carry their content with them
        if !self.store.contains_key(&k) {
            let n = INT.with(|i| match &i.borrow().rev[k as usize].1 { Id::Put(v) => Some(RN::Cell(v.clone())), Id::NT(f, a) => Some(RN::Naive(*f, a.clone())), Id::TM(s, p) => Some(RN::Map(*s, *p)), _ => None });
            if let Some(n) = n { self.store.insert(k, n); }
        }
        let (f, args, path) = match self.store.get_mut(&k) {
            None => return Err(Bad::Type),
            Some(RN::Cell(v)) => return Ok(v.clone()),
            Some(RN::Naive(f, a)) => { let (f, a) = (*f, a.clone()); return self.unnamed(f, &a) }
            Some(RN::Map(s, p)) => { let (s, p) = (*s, *p); let v = self.force(s)?; if let RV::A(_) = v { return Err(Bad::Type) } return Ok(proj(p, &v)) }
            Some(RN::Thunk { res: Some(v), .. }) => return Ok(v.clone()),
            Some(RN::Thunk { running: true, .. }) => return Err(Bad::Cycle),
            Some(RN::Thunk { f, args, path, running, .. }) => { *running = true; (*f, args.clone(), path.clone()) }
        };
        if self.fuel == 0 { return Err(Bad::Fuel) }
        self.fuel -= 1;
        self.runs += 1;
        self.execs.insert((k, args.clone()));
        let saved = (std::mem::replace(&mut self.path, path), std::mem::replace(&mut self.structural, region_of(k)));
        let p = self.p;
        let v = self.ev(&p.funs[f as usize], &args);
        self.path = saved.0; self.structural = saved.1;
        let v = v?;
        if let Some(RN::Thunk { res, running, .. }) = self.store.get_mut(&k) { if !self.no_memo { *res = Some(v.clone()) } *running = false }
        Ok(v)
    }
    fn unnamed(&mut self, f: u8, a: &[RV]) -> Result<RV, Bad> {
        if self.fuel == 0 { return Err(Bad::Fuel) }
        self.fuel -= 1;
        self.unnamed += 1;
        let p = self.p;
        self.ev(&p.funs[f as usize], a)
    }
    fn alloc(&mut self, id: Id, n: RN) -> Result<RV, Bad> {
        let id = if self.nameless { self.fresh += 1; Id::Nom(1_000_000 + self.fresh) } else { id };
        let k = intern(&self.path, id);
        self.allocs.insert(k, match &n { RN::Cell(v) => (0, vec![v.clone()]), RN::Thunk { f, args, .. } => (1 + f, args.clone()), _ => unreachable!() });
        if self.base.remove(&k) { self.store.remove(&k); }
        let same = match (self.store.get(&k), &n) {
            (None, _) => None,
            (Some(RN::Cell(a)), RN::Cell(b)) => Some(a == b),
            (Some(RN::Thunk { f, args, .. }), RN::Thunk { f: g, args: brgs, .. }) => Some(f == g && args == brgs),
            _ => Some(false),
        };
        match same { None => { self.store.insert(k, n); } Some(true) => (), Some(false) => return Err(Bad::Ambiguous) }
        Ok(RV::A(k))
    }
    fn ev(&mut self, e: &E, a: &[RV]) -> Result<RV, Bad> {
        Ok(match e {
            E::K(i) => RV::I(*i),
            E::Arg(i) => a[*i as usize].clone(),
            E::Ref(i) => RV::A(ref_key(*i)),
            E::Get(x) => { let k = self.art(x, a)?; self.force(k)? }
            E::Cyc(x, d) => { let k = self.art(x, a)?; if let Some(RN::Thunk { running: true, .. }) = self.store.get(&k) { RV::I(*d) } else { self.force(k)? } }
            E::Map(x, p) | E::Abs(x, p) => { let k = self.art(x, a)?; let v = self.force(k)?; if let RV::A(_) = v { return Err(Bad::Type) } proj(*p, &v) }
            E::Add(x, y) => { let i = self.int(x, a)?; let j = self.int(y, a)?; RV::I(i.wrapping_add(j)) }
            E::Mul(x, y) => { let i = self.int(x, a)?; let j = self.int(y, a)?; RV::I(i.wrapping_mul(j)) }
            E::Half(x) => RV::I(self.int(x, a)? / 2),
            E::Mod2(x) => RV::I(self.int(x, a)? % 2),
            E::Pair(x, y) => { let i = self.int(x, a)?; let j = self.int(y, a)?; RV::P(i, j) }
            E::If(c, x, y) => if self.int(c, a)? != 0 { self.ev(x, a)? } else { self.ev(y, a)? },
            E::Seq(x, y) => { self.ev(x, a)?; self.ev(y, a)? }
            E::Cell(n, x) => {
                let v = self.ev(x, a)?;
                let id = if self.structural { Id::SC(v.clone()) } else { Id::Nom(INNER0 + *n as u32) };
                self.alloc(id, RN::Cell(v))?
            }
            E::Thunk(n, f, xs) => {
                let mut v = vec![]; for x in xs { v.push(self.ev(x, a)?) }
                let id = if self.structural { Id::ST(*f, v.clone(), self.structural) } else { Id::Nom(INNER0 + *n as u32) };
                let path = self.path.clone();
                self.alloc(id, RN::Thunk { f: *f, args: v, path, res: None, running: false })?
            }
            E::SThunk(f, xs) => {
                let mut v = vec![]; for x in xs { v.push(self.ev(x, a)?) }
                let path = self.path.clone();
                self.alloc(Id::ST(*f, v.clone(), self.structural), RN::Thunk { f: *f, args: v, path, res: None, running: false })?
            }
            E::Put(x) => {
                let v = self.ev(x, a)?;
                let k = intern(&vec![], Id::Put(v.clone()));
                self.store.entry(k).or_insert(RN::Cell(v));
                RV::A(k)
            }
            E::EThunk(f, xs) => {
                let mut v = vec![]; for x in xs { v.push(self.ev(x, a)?) }
                let v = self.unnamed(*f, &v)?;
                let k = intern(&vec![], Id::Put(v.clone()));
                self.store.entry(k).or_insert(RN::Cell(v));
                RV::A(k)
            }
            E::NThunk(f, xs) => {
                let mut v = vec![]; for x in xs { v.push(self.ev(x, a)?) }
                let k = intern(&vec![], Id::NT(*f, v.clone()));
                self.store.entry(k).or_insert(RN::Naive(*f, v));
                RV::A(k)
            }
            E::TMap(x, p) => {
                let s = self.art(x, a)?;
                let k = intern(&vec![], Id::TM(s, *p));
                self.store.entry(k).or_insert(RN::Map(s, *p));
                RV::A(k)
            }
            E::Ns(n, x) => { self.path.push(NS0 + *n as u32); let v = self.ev(x, a); self.path.pop(); v? }
            E::Structural(x) => { let s = std::mem::replace(&mut self.structural, true); let v = self.ev(x, a); self.structural = s; v? }
        })
    }
    /// From-scratch evaluation of editor art `i`, chasing arts.
    pub fn demand(&mut self, i: usize) -> Result<RefRun, Bad> {
        self.demand_key(ref_key(i as u8))
    }
    pub fn demand_key(&mut self, k: K) -> Result<RefRun, Bad> {
        let mut v = self.force(k)?;
        let mut chain = vec![];
        while let RV::A(k) = v { chain.push(k); if chain.len() > 200 { return Err(Bad::Type) } v = self.force(k)?; }
        Ok(RefRun { val: v, chain, execs: self.execs.clone(), unnamed: self.unnamed, runs: self.runs })
    }
}
