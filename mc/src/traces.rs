//! Accounting of the effect trace (`dcg_reflect_begin` / `dcg_reflect_end`)
//! of one operation of the editor, against what the bodies recorded and
//! against the reflected graphs before and after.

use crate::core::*;
use crate::graph::*;
use crate::prog::*;
use adapton::reflect::trace::*;
use adapton::reflect::{Effect as Eff, Loc, Node, DCG};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default, Debug)]
pub struct Flat {
    pub miss: u64, pub eval: u64, pub clean_rec: u64,
    /// (source, target, is thunk, case) in order
    pub allocs: Vec<(Option<Loc>, Loc, bool, u8)>,
    pub forces: Vec<(Option<Loc>, Loc, bool)>,
    pub dups: HashMap<(Option<Loc>, Loc), usize>,
    pub dirty: Vec<(Option<Loc>, Loc, bool)>,
    pub clean_edge: Vec<(Loc, Loc, bool)>,
    pub removed: Vec<(Loc, Loc, bool)>,
    /// dirtied (0), cleaned (1), removed (2) edges, in order
    pub ev: Vec<(u8, (Loc, Loc, bool))>,
    pub debugs: u64,
    /// dirty effects caused by the editor itself / by running computations
    pub dirty_by: (usize, usize),
    /// fresh, same, changed; by the editor / by computations
    pub alloc_by: [(usize, usize); 3],
    pub top_forces: usize,
}

fn walk(t: &Trace, inside: bool, f: &mut Flat) -> R {
    let (src, succ) = match &t.edge {
        EffectEdge::None => {
            match t.effect { Effect::Debug(..) => (), _ => return Err(format!("effect {:?} without an edge", t.effect)) }
            f.debugs += 1;
            for s in t.extent.iter() { walk(s, inside, f)? }
            return Ok(())
        }
        EffectEdge::Fwd(e) | EffectEdge::Bwd(e) => (e.loc.clone(), e.succ.clone()),
    };
    let forced = succ.effect == Eff::Force;
    let tgt = succ.loc.clone();
    let mut within = inside;
    let leaf = |w: &str| -> R { if t.extent.is_empty() { Ok(()) } else { Err(format!("{} effect has an extent", w)) } };
    match &t.effect {
        Effect::Debug(..) => return Err("debug effect with an edge".into()),
        Effect::Alloc(case, kind) => {
            let c = match case { AllocCase::LocFresh => { leaf("fresh allocation")?; 0 } AllocCase::LocExists(ChangeFlag::ContentSame) => 1, AllocCase::LocExists(ChangeFlag::ContentDiff) => 2 };
            if inside { f.alloc_by[c as usize].1 += 1 } else { f.alloc_by[c as usize].0 += 1 }
            check!(!forced, "an allocation effect on a force edge");
            if c == 1 { check!(t.extent.is_empty(), "re-allocating equal content had effects: {:?}", t.extent) }
            f.allocs.push((src, tgt, match kind { AllocKind::Thunk => true, AllocKind::RefCell => false }, c));
        }
        Effect::Force(case) => {
            check!(forced, "a force effect on an alloc edge");
            let cell = match case { ForceCase::RefGet => { leaf("get")?; true } ForceCase::CompCacheMiss => { f.miss += 1; false } ForceCase::CompCacheHit => false };
            if !inside && !cell { f.top_forces += 1 }
            if !cell { within = true }
            if succ.is_dup { *f.dups.entry((src.clone(), tgt.clone())).or_insert(0) += 1 }
            f.forces.push((src, tgt, cell));
        }
        Effect::Dirty => { if inside { f.dirty_by.1 += 1 } else { f.dirty_by.0 += 1 } if let Some(s) = &src { f.ev.push((0, (s.clone(), tgt.clone(), forced))) } f.dirty.push((src, tgt, forced)) }
        Effect::CleanRec => { f.clean_rec += 1; check!(inside, "cleaning outside of any demand") }
        Effect::CleanEval => { f.eval += 1; check!(inside, "re-evaluation outside of any demand") }
        Effect::CleanEdge => { leaf("clean")?; match src { Some(s) => { f.ev.push((1, (s.clone(), tgt.clone(), forced))); f.clean_edge.push((s, tgt, forced)) } None => return Err("clean edge of the editor".into()) } }
        Effect::Remove => { leaf("remove")?; match src { Some(s) => { f.ev.push((2, (s.clone(), tgt.clone(), forced))); f.removed.push((s, tgt, forced)) } None => return Err("removed edge of the editor".into()) } }
    }
    for s in t.extent.iter() { walk(s, within, f)? }
    Ok(())
}
fn bag<T: std::hash::Hash + Eq + Clone>(v: &[T]) -> HashMap<T, usize> { let mut m = HashMap::new(); for x in v { *m.entry(x.clone()).or_insert(0) += 1 } m }

pub fn check_op(before: &DCG, after: &DCG, trs: &Vec<Trace>, log: &[(K, Vec<RV>)], is_demand: bool) -> R {
    let mut f = Flat::default();
    for t in trs { walk(t, false, &mut f)? }
    check!(f.miss + f.eval == log.len() as u64, "{} bodies ran, the trace shows {} cache misses and {} re-evaluations", log.len(), f.miss, f.eval);
    // allocations, in order
    let alog: Vec<(Option<K>, K, bool, u8)> = rt(|r| std::mem::replace(&mut r.alog, vec![]));
    let flog: Vec<(Option<K>, K, bool, Option<bool>)> = rt(|r| std::mem::replace(&mut r.flog, vec![]));
    // a value put in an articulation has no location
    let flog: Vec<_> = flog.into_iter().filter(|x| INT.with(|i| match i.borrow().rev[x.1 as usize].1 { Id::Put(..) | Id::NT(..) | Id::TM(..) => false, _ => true })).collect();
    let traced: Vec<_> = alog.iter().filter(|a| INT.with(|i| match i.borrow().rev[a.1 as usize].1 { Id::ST(..) => false, _ => true })).collect();
    check!(traced.len() == f.allocs.len(), "{} allocations happened, the trace shows {}", traced.len(), f.allocs.len());
    for (a, b) in traced.iter().zip(&f.allocs) {
        if let Some(l) = loc_of(a.1) { check!(l == b.1, "allocation of {:?} is traced as {:?}", l, b.1) }
        match a.0 { None => check!(b.0.is_none(), "allocation of {:?} by the editor is traced as done by {:?}", b.1, b.0),
            Some(k) => if let Some(l) = loc_of(k) { check!(b.0.as_ref() == Some(&l), "allocation of {:?} by {:?} is traced as done by {:?}", b.1, l, b.0) } }
        check!(a.2 == b.2, "allocation of {:?}: wrong kind in the trace", b.1);
        let w = ["fresh", "same content", "changed content"];
        check!(a.3 == b.3, "allocation of {:?} is {}, but traced as {}", b.1, w[a.3 as usize], w[b.3 as usize]);
    }
    // demands
    check!(flog.len() == f.forces.len(), "{} demands happened, the trace shows {}", flog.len(), f.forces.len());
    let mut want: HashMap<(Option<Loc>, Loc, bool), i64> = HashMap::new();
    let mut dups: HashMap<(Option<Loc>, Loc), (usize, usize)> = HashMap::new();
    for (s, t, c, d) in &flog { match (s.map(loc_of), loc_of(*t)) { (Some(None), _) | (_, None) => (), (s, Some(t)) => {
        let s = s.map(|x| x.unwrap());
        let e = dups.entry((s.clone(), t.clone())).or_insert((0, 0));
        match d { Some(true) => { e.0 += 1; e.1 += 1 } None => e.1 += 1, Some(false) => () }
        *want.entry((s, t, *c)).or_insert(0) += 1
    } } }
    for (k, (lo, hi)) in &dups { let n = f.dups.get(k).cloned().unwrap_or(0); check!(*lo <= n && n <= *hi, "{:?} demanded {:?} again {} times, the trace shows {}", k.0, k.1, lo, n) }
    for (k, n) in &want { let m = f.forces.iter().filter(|x| *x == k).count() as i64; check!(m == *n, "{:?} demanded {:?} {} times, the trace shows {}", k.0, k.1, n, m) }
    // dirtying
    let (d0, d1) = (dirty_edges(before), dirty_edges(after));
    if !is_demand {
        let new: HashSet<_> = d1.difference(&d0).cloned().collect();
        let mut seen = HashSet::new();
        for (s, t, k) in &f.dirty {
            let e = match s { Some(s) => (s.clone(), t.clone(), *k), None => return Err("dirtied edge of the editor".into()) };
            check!(seen.insert(e.clone()), "edge {:?} is dirtied twice by one operation", e);
            check!(new.contains(&e), "the trace dirties {:?}, which did not become dirty", e);
        }
        for e in &new { check!(seen.contains(e), "edge {:?} became dirty, but the trace does not show it", e) }
        check!(f.clean_edge.is_empty(), "cleaning without a demand");
    } else {
        // edges of re-evaluated thunks are removed, cleaned edges are traced
        let ran: HashSet<Loc> = log.iter().filter_map(|(k, _)| loc_of(*k)).collect();
        let some_structural = log.iter().any(|(k, _)| loc_of(*k).is_none());
        let removed = bag(&f.removed);
        for l in &ran { if let Some(Node::Comp(c)) = before.table.get(l) {
            let es: Vec<_> = c.succs.iter().map(|s| (l.clone(), s.loc.clone(), s.effect == Eff::Force)).collect();
            for (e, n) in bag(&es) { check!(removed.get(&e) == Some(&n), "{:?} was re-evaluated, its old edge {:?} is traced as removed {:?} times", l, e, removed.get(&e)) }
        } }
        let still: HashSet<(Loc, Loc, bool)> = edges(after).into_iter().map(|(a, b, c, _)| (a, b, c)).collect();
        let mut cleaned: HashSet<_> = d0.iter().filter(|e| !d1.contains(*e) && still.contains(*e) && !ran.contains(&e.0)).cloned().collect();
        // an edge may also become dirty during the demand itself (its target is re-allocated)
        let during: HashSet<(Loc, Loc, bool)> = f.dirty.iter().filter_map(|(s, t, k)| s.clone().map(|s| (s, t.clone(), *k))).collect();
        for e in &f.clean_edge {
            if ran.contains(&e.0) || some_structural { continue }
            check!(d0.contains(e) || during.contains(e), "the trace cleans {:?}, which was not dirty", e);
            check!(!d1.contains(e), "the trace cleans {:?}, which is still dirty", e);
            cleaned.remove(e);
        }
        if !some_structural { check!(cleaned.is_empty(), "edges {:?} became clean, the trace does not show it", cleaned) }
    }
    // the dirty edges, replayed: only a clean edge becomes dirty
    let mut now = d0.clone();
    for (k, e) in &f.ev { match k {
        0 => check!(now.insert(e.clone()), "the trace dirties {:?}, which is dirty", e),
        _ => { now.remove(e); }
    } }
    // summary
    let c = trace_count(trs, None);
    let mut want: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    want.insert("alloc_fresh", f.alloc_by[0]); want.insert("alloc_nochange", f.alloc_by[1]); want.insert("alloc_change", f.alloc_by[2]);
    want.insert("dirty", f.dirty_by);
    want.insert("clean_rec", (f.clean_rec as usize, 0));
    want.insert("reeval", (f.eval as usize, 0));
    want.insert("demands", (f.top_forces, 0));
    for (k, got) in vec![("alloc_fresh", c.alloc_fresh), ("alloc_nochange", c.alloc_nochange), ("alloc_change", c.alloc_change), ("dirty", c.dirty),
                      ("clean_rec", (c.clean_rec, 0)), ("reeval", (c.reeval_change + c.reeval_nochange, 0)), ("demands", (c.total_archivist, 0))] {
        check!(want[k] == got, "trace_count gives {} = {:?}, the trace has {:?}", k, got, want[k]);
    }
    check!(c.total_updates == 1 && trace_count(trs, Some(7)).total_updates == 7, "trace_count: total_updates");
    Ok(())
}
