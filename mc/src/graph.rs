//! Invariants of the reflected graph (`reflect::dcg_reflect_now`), checked in
//! every state of every history.

use crate::core::*;
use crate::prog::*;
use adapton::engine::reflect_dcg::dcg_reflect_now;
use adapton::engine::*;
use adapton::reflect::{Const, Effect, Loc, Node, Val, DCG};
use std::collections::{HashMap, HashSet};

pub fn loc_of(k: K) -> Option<Loc> {
    INT.with(|i| {
        let i = i.borrow();
        let (p, id) = &i.rev[k as usize];
        match id { Id::Nom(n) => Some(Loc { path: p.iter().map(|x| nm(*x)).collect(), name: nm(*n) }), Id::ST(..) | Id::SC(..) => structural_loc(k), _ => None }
    })
}
/// Is there no edge to this node, since its content cannot change?
fn pure(g: &DCG, l: &Loc) -> bool { match g.table.get(l) { Some(Node::Pure(_)) => true, Some(Node::Comp(c)) => c.succs.is_empty(), _ => false } }

fn int(v: &Val) -> Option<i64> { match v { Val::Const(Const::Nat(n)) => Some(*n as i64), Val::Const(Const::Num(n)) => Some(*n as i64), _ => None } }
/// Does the reflected value `v` show `rv`?
pub fn shows(v: &Val, rv: &RV) -> bool {
    match v {
        Val::Constr(c, xs) => match rv {
            RV::I(i) => *c == name_of_str("I") && xs.len() == 1 && int(&xs[0]) == Some(*i),
            RV::P(a, b) => *c == name_of_str("P") && xs.len() == 2 && int(&xs[0]) == Some(*a) && int(&xs[1]) == Some(*b),
            RV::A(k) => *c == name_of_str("A") && xs.len() == 2 && int(&xs[1]) == Some(*k as i64) && match (&xs[0], loc_of(*k)) {
                (Val::Art(l, _), Some(m)) => *l == m,
                (_, None) => true,
                _ => false,
            },
        },
        _ => false,
    }
}

pub fn edges(g: &DCG) -> Vec<(Loc, Loc, bool, bool)> {
    let mut v = vec![];
    for (l, n) in &g.table { if let Node::Comp(c) = n { for s in &c.succs { v.push((l.clone(), s.loc.clone(), s.effect == Effect::Force, s.dirty)) } } }
    v
}
/// Edges from one node to another with the same effect share one dirty bit.
pub fn dirty_edges(g: &DCG) -> HashSet<(Loc, Loc, bool)> {
    let mut v = HashSet::new();
    for (l, n) in &g.table { if let Node::Comp(c) = n { for s in &c.succs { if s.dirty { v.insert((l.clone(), s.loc.clone(), s.effect == Effect::Force)); } } } }
    v
}

/// Structure only: what must hold whatever the program is.
pub fn structure(g: &DCG) -> R {
    // edges and back edges agree, as multisets
    let mut fw: HashMap<(Loc, Loc, bool), i64> = HashMap::new();
    for (s, t, f, _) in edges(g) { *fw.entry((s, t, f)).or_insert(0) += 1 }
    for (t, n) in &g.table {
        let preds = match n { Node::Comp(c) => &c.preds, Node::Ref(r) => &r.preds, Node::Pure(_) => continue };
        for p in preds { *fw.entry((p.loc.clone(), t.clone(), p.effect == Effect::Force)).or_insert(0) -= 1 }
    }
    let dirty = dirty_edges(g);
    let running: HashSet<&Loc> = g.stack.iter().map(|f| &f.loc).collect();
    for ((s, t, f), n) in &fw {
        check!(g.table.contains_key(t), "edge {:?} -> {:?} dangles", s, t);
        check!(g.table.contains_key(s), "back edge {:?} <- {:?} dangles", t, s);
        check!(*n == 0, "{} edge {:?} -> {:?} is recorded {} times more forward than backward", if *f { "force" } else { "alloc" }, s, t, n);
    }
    // a node with a dirty edge (or with no value) has only dirty observers
    for (l, n) in &g.table { if let Node::Comp(c) = n {
        if running.contains(l) { continue }
        let unsure = c.value.is_none() || c.succs.iter().any(|s| s.dirty);
        if unsure { for p in &c.preds { if p.effect == Effect::Force {
            check!(dirty.contains(&(p.loc.clone(), l.clone(), true)), "{:?} {} but its observer {:?} holds a clean edge to it", l,
                if c.value.is_none() { "has no value" } else { "has a dirty edge" }, p.loc);
        } } }
    } }
    Ok(())
}

/// Between operations of the editor.
pub fn check_now() -> R {
    let g = match dcg_reflect_now() { Some(g) => g, None => return Err("the current engine does not reflect a graph".into()) };
    check!(g.stack.is_empty(), "the stack is not empty between the editor's operations: {:?}", g.stack.iter().map(|f| &f.loc).collect::<Vec<_>>());
    check!(g.path.is_empty(), "the namespace is not the root between the editor's operations: {:?}", g.path);
    structure(&g)?;
    // contents
    let content = rt(|r| r.content.clone());
    let last = rt(|r| if r.reuse { r.last.clone() } else { HashMap::new() });
    let prog = rt(|r| r.prog.clone().unwrap());
    let mut nominal = 0;
    for (k, (kind, vs)) in &content {
        let l = match loc_of(*k) { Some(l) => l, None => continue };
        nominal += 1;
        let n = match g.table.get(&l) { Some(n) => n, None => return Err(format!("{:?} was allocated but is not in the graph", l)) };
        match n {
            Node::Ref(r) => {
                check!(*kind == 0, "{:?} holds a thunk, but is reflected as a cell", l);
                check!(shows(&r.value, &vs[0]), "cell {:?} holds {:?}, but is reflected with {:?}", l, vs[0], r.value);
            }
            Node::Pure(p) => {
                check!(is_structural(*k), "{:?} is nominal but reflected as pure", l);
                check!(*kind == 0, "{:?} holds a thunk, but is reflected as pure", l);
                check!(shows(&p.value, &vs[0]), "cell {:?} holds {:?}, but is reflected with {:?}", l, vs[0], p.value);
            }
            Node::Comp(c) => {
                check!(*kind > 0, "{:?} holds a cell, but is reflected as a thunk", l);
                check!(c.prog_pt.symbol == fn_name(*kind - 1), "thunk {:?} of {} is reflected with program point {:?}", l, fn_name(*kind - 1), c.prog_pt);
                if c.value.is_none() { continue }
                if let Some(e) = last.get(k) {
                    // (a location that never changes need not be tracked; nor, once it exists, the allocation of a structural thunk)
                    let mut obs: HashSet<Loc> = e.obs.iter().filter(|o| o.0 != *k).filter_map(|o| loc_of(o.0).filter(|l| !is_structural(o.0) || !pure(&g, l))).collect();
                    let mut als: HashSet<Loc> = e.allocs.iter().filter(|o| !is_structural(**o) || e.fresh.contains(o)).filter_map(|o| loc_of(*o)).filter(|l| match g.table.get(l) { Some(Node::Pure(_)) => false, _ => true }).collect();
                    for s in &c.succs {
                        if s.effect == Effect::Force { check!(e.obs.iter().any(|o| loc_of(o.0).as_ref() == Some(&s.loc)), "{:?} has a force edge to {:?}, which its last evaluation did not observe", l, s.loc); obs.remove(&s.loc); }
                        else { check!(e.allocs.iter().any(|o| loc_of(*o).as_ref() == Some(&s.loc)), "{:?} has an alloc edge to {:?}, which its last evaluation did not allocate", l, s.loc); als.remove(&s.loc); }
                    }
                    check!(obs.is_empty(), "{:?} observed {:?}, but has no such edges", l, obs);
                    check!(als.is_empty(), "{:?} allocated {:?}, but has no such edges", l, als);
                }
                if !c.succs.iter().any(|s| s.dirty) {
                    // a clean cached value is what the thunk would compute now
                    let mut rf = Ref::with_store(&prog, &content);
                    match rf.force(*k) {
                        Ok(v) => check!(shows(c.value.as_ref().unwrap(), &v), "{:?} is clean with cached value {:?}, but evaluates to {:?}", l, c.value, v),
                        Err(e) => return Err(format!("{:?} is clean with cached value {:?}, but evaluating it now fails ({:?})", l, c.value, e)),
                    }
                }
            }
        }
    }
    check!(g.table.len() == nominal, "{} locations were allocated, the graph has {}", nominal, g.table.len());
    Ok(())
}

/// After a demand of `k` by the editor.
pub fn check_demanded(k: K, val: &RV) -> R {
    let g = dcg_reflect_now().unwrap();
    let l = match loc_of(k) { Some(l) => l, None => return Ok(()) };
    match g.table.get(&l) {
        Some(Node::Comp(c)) => {
            check!(!c.succs.iter().any(|s| s.dirty), "{:?} was just demanded but has dirty edges", l);
            match &c.value {
                None => return Err(format!("{:?} was just demanded but has no value", l)),
                Some(v) => if let Val::Constr(_, xs) = v { if let (Some(Val::Const(_)), RV::A(_)) = (xs.get(0), val) { return Err(format!("{:?} reflects {:?}", l, v)) } }
            }
            Ok(())
        }
        Some(Node::Ref(_)) => Ok(()),
        _ => Err(format!("{:?} was just demanded but is not in the graph", l)),
    }
}

/// Inside a running body (called at its start and at its end).
pub fn check_inside(at_end: bool) -> R {
    let g = match dcg_reflect_now() { Some(g) => g, None => return Ok(()) };
    let st: Vec<Exec> = rt(|r| r.stack.clone());
    check!(g.stack.len() == st.len(), "{} bodies are running, the reflected stack has {} frames", st.len(), g.stack.len());
    for (f, e) in g.stack.iter().zip(&st) {
        if let Some(l) = loc_of(e.key) { check!(f.loc == l, "the body of {:?} is running, but the reflected frame is {:?}", l, f.loc); }
    }
    let top = st.last().unwrap();
    if let Some(l) = loc_of(top.key) { check!(g.path == l.path, "the body of {:?} is running in namespace {:?}", l, g.path); }
    let fr = g.stack.last().unwrap();
    if at_end {
        let all: HashSet<(Loc, bool)> = top.obs.iter().filter_map(|o| loc_of(o.0).map(|l| (l, true))).chain(top.allocs.iter().filter_map(|o| loc_of(*o).map(|l| (l, false)))).collect();
        let want: HashSet<(Loc, bool)> = top.obs.iter().filter(|o| !is_structural(o.0)).filter_map(|o| loc_of(o.0).map(|l| (l, true)))
            .chain(top.obs.iter().filter(|o| is_structural(o.0)).filter_map(|o| loc_of(o.0)).filter(|l| !pure(&g, l)).map(|l| (l, true)))
            .chain(top.allocs.iter().filter(|o| !is_structural(**o) || top.fresh.contains(o)).filter_map(|o| loc_of(*o)).filter(|l| match g.table.get(l) { Some(Node::Pure(_)) => false, _ => true }).map(|l| (l, false))).collect();
        let got: HashSet<(Loc, bool)> = fr.succs.iter().map(|s| (s.loc.clone(), s.effect == Effect::Force)).collect();
        check!(want.is_subset(&got) && got.is_subset(&all), "running {:?} did {:?} (location, is-force), but the reflected frame has {:?}", fr.loc, want, got);
        check!(!fr.succs.iter().any(|s| s.dirty), "a running frame holds a dirty edge");
    } else {
        check!(fr.succs.is_empty(), "a body just started but its reflected frame already has edges");
    }
    structure(&g)
}

/// Between operations: the structure holds, nothing is running, no namespace is entered.
pub fn check_quiet() -> R {
    let g = match dcg_reflect_now() { None => return Err("no graph".into()), Some(g) => g };
    check_idle()?;
    structure(&g)
}
pub fn check_idle() -> R {
    let g = match dcg_reflect_now() { None => return Err("no graph".into()), Some(g) => g };
    check!(g.stack.is_empty() && g.path.is_empty(), "outside any operation, the stack has {} frames and the namespace {} names", g.stack.len(), g.path.len());
    Ok(())
}
