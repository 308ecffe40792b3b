use crate::core::*;
use crate::pfam::*;
use crate::scale::*;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"];

type F = Vec<Box<dyn Family>>;
fn add<T: Family + 'static>(v: &mut F, f: T) { v.push(Box::new(f)) }

/// Every n-th program of a family.
fn every(mut f: PFamily, n: usize) -> PFamily {
    f.spaces = f.spaces.into_iter().enumerate().filter(|(i, _)| i % n == 0).map(|x| x.1).collect();
    if n > 1 { f.name = format!("{}/{}", f.name, n); f.bounds = format!("every {}th program of: {}", n, f.bounds) }
    f
}
pub fn families(id: &str, tier: &str) -> F {
    let t = tier == "thorough";
    let all = VAL | DEMAND | REUSE;
    let mut v: F = vec![];
    match id {
        "C01" | "C02" | "C03" => {
            let o = match id { "C01" => VAL, "C02" => DEMAND, _ => REUSE };
            add(&mut v, static_dag(2, 2, 5, o));
            add(&mut v, static_dag(1, 3, 5, o));
            add(&mut v, features(4, o, false));
            add(&mut v, dynamic(6, 5, 1, 3, o));
            add(&mut v, dynamic(7, 4, 1, 3, o));
            add(&mut v, two_roots(4, 5, o));
            add(&mut v, returned_arts(5, 5, o));
            add(&mut v, overwrite(5, o));
            add(&mut v, morph(5, o, SET | ALLOC, false));
            add(&mut v, projections(false, 2, 5, o));
            add(&mut v, projections(true, 2, 5, o));
            add(&mut v, structural_fam(5, false, o));
            add(&mut v, regions(5, o));
            add(&mut v, crate::clob::clobber(4, o, false));
            add(&mut v, scale(SHAPES, if t { 120 } else { 80 }, o));
            add(&mut v, scale(ABS, if t { 120 } else { 80 }, o));
            if id == "C01" {
                let op = Opts { opaque: true, ..Opts::default() };
                add(&mut v, with_opts(static_dag(2, 2, 4, o), "-opaque", op));
                add(&mut v, with_opts(dynamic(6, 4, 1, 3, o), "-opaque", op));
                add(&mut v, with_opts(overwrite(4, o), "-opaque", op));
                add(&mut v, with_opts(morph(4, o, SET | ALLOC, false), "-opaque", op));
            }
            if t {
                add(&mut v, features(4, o, true));
                add(&mut v, features(5, o, false));
                add(&mut v, crate::clob::clobber(5, o, true));
                add(&mut v, static_dag(2, 3, 5, o));
                add(&mut v, two_roots(5, 5, o));
                add(&mut v, dynamic(7, 4, 2, 3, o));
                add(&mut v, dynamic(8, 4, 1, 3, o));
                add(&mut v, dynamic(9, 4, 1, 1, o));
            }
        }
        "C04" => {
            add(&mut v, morph(5, all, SET | ALLOC, false));
            add(&mut v, morph(4, all, SET | ALLOC, true));
            add(&mut v, overwrite(5, all));
            add(&mut v, two_roots(4, 5, all));
            add(&mut v, crate::clob::clobber(4, all, false));
            add(&mut v, features(4, all, t));
            add(&mut v, scale(&["cells", "thunks", "arguments", "roots", "toggles", "namespaces", "structural-fan"], if t { 120 } else { 80 }, all));
            if t {
                add(&mut v, crate::clob::clobber(5, all, true));
                add(&mut v, morph(5, all, SET | ALLOC, true));
                add(&mut v, overwrite(6, all));
                add(&mut v, two_roots(5, 5, all));
                add(&mut v, dynamic(7, 4, 2, 3, all));
            }
        }
        "C05" | "C06" => {
            let a = id == "C06";
            add(&mut v, projections(a, 3, 5, all));
            add(&mut v, proj_alloc(a, 5, all));
            add(&mut v, features(4, all, t));
            add(&mut v, scale(if a { ABS } else { &["pairs", "mapped"] }, if t { 120 } else { 100 }, all));
            if t { add(&mut v, projections(a, 3, 6, all)); add(&mut v, proj_alloc(a, 6, all)); }
        }
        "C07" => {
            add(&mut v, namespaces(5, all));
            add(&mut v, features(4, all, t));
            add(&mut v, scale(&["namespaces", "deep-names", "wide-names"], if t { 120 } else { 80 }, all));
            if t { add(&mut v, namespaces(6, all)); }
        }
        "C08" => {
            add(&mut v, structural_fam(5, false, all));
            add(&mut v, structural_fam(5, true, all));
            add(&mut v, regions(5, all));
            add(&mut v, crate::names::contents());
            add(&mut v, crate::names::library_contents());
            for np in vec![false, true] { add(&mut v, scale_opts(if np { "-no-purity" } else { "" }, scale(&["structural-chain", "structural-fan"], if t { 120 } else { 80 }, all), Opts { no_purity: np, ..Opts::default() })) }
            for np in vec![false, true] { let f = every(features(4, all, t), if t || !np { 1 } else { 2 }); add(&mut v, if np { without_purity(f) } else { f }) }
            // purity is for structurally identified thunks and cells: nominal ones are tracked
            let l = if t { 5 } else { 4 };
            for np in vec![false, true] {
                for f in vec![dynamic(6, l, 1, 3, all), two_roots(4, l, all), returned_arts(5, l, all), overwrite(l, all), morph(l, all, SET | ALLOC, false), namespaces(l, all), every(unnamed(4, all, false), if t { 2 } else { 16 })] {
                    add(&mut v, if np { without_purity(f) } else { f });
                }
            }
            if t { add(&mut v, regions(6, all)); add(&mut v, structural_fam(6, false, all)); add(&mut v, structural_fam(6, true, all)); }
        }
        "C09" => {
            let o = GRAPH | INSIDE;
            add(&mut v, static_dag(2, 2, 4, o));
            add(&mut v, dynamic(6, 4, 1, 3, o));
            add(&mut v, two_roots(4, 4, o));
            add(&mut v, returned_arts(5, 4, o));
            add(&mut v, overwrite(4, o));
            add(&mut v, morph(4, o, SET | ALLOC, false));
            add(&mut v, projections(false, 2, 4, o));
            add(&mut v, projections(true, 2, 4, o));
            add(&mut v, namespaces(4, o));
            add(&mut v, structural_fam(4, false, o));
            add(&mut v, regions(4, o));
            add(&mut v, every(unnamed(4, o, false), if t { 1 } else { 8 }));
            add(&mut v, crate::clob::clobber(4, o, false));
            add(&mut v, scale(SHAPES, if t { 65 } else { 33 }, o));
            add(&mut v, every(features(4, o, t), if t { 2 } else { 6 }));
            add(&mut v, scale(ABS, if t { 65 } else { 33 }, o));
            if t {
                add(&mut v, crate::clob::clobber(4, o, true));
                add(&mut v, static_dag(2, 2, 5, o));
                add(&mut v, dynamic(7, 4, 1, 3, o));
                add(&mut v, overwrite(5, o));
                add(&mut v, morph(5, o, SET | ALLOC, false));
                add(&mut v, proj_alloc(false, 5, o));
                add(&mut v, proj_alloc(true, 5, o));
                add(&mut v, morph(4, o, SET | ALLOC, true));
            }
        }
        "C10" => {
            let on = Opts { traces: true, debug: true, reflect: true, ..Opts::default() };
            let wf = Opts { check_wf: true, ..Opts::default() };
            let l = if t { 5 } else { 4 };
            for (tag, op) in vec![("-traced", on), ("-wf-checked", wf)] { add(&mut v, scale_opts(tag, scale(SHAPES, if op.check_wf { if t { 15 } else { 10 } } else if t { 33 } else { 17 }, all), op)) }
            for (tag, op) in vec![("-traced", on), ("-wf-checked", wf)] {
                add(&mut v, with_opts(static_dag(2, 2, l, all), tag, op));
                add(&mut v, with_opts(dynamic(6, l, 1, 3, all), tag, op));
                add(&mut v, with_opts(two_roots(4, l, all), tag, op));
                add(&mut v, with_opts(returned_arts(5, l, all), tag, op));
                add(&mut v, with_opts(overwrite(4, all), tag, op));
                add(&mut v, with_opts(morph(4, all, SET | ALLOC, false), tag, op));
                add(&mut v, with_opts(projections(false, 2, l, all), tag, op));
                add(&mut v, with_opts(projections(true, 2, l, all), tag, op));
                add(&mut v, with_opts(namespaces(4, all), tag, op));
                add(&mut v, with_opts(structural_fam(4, false, all), tag, op));
                add(&mut v, with_opts(every(features(4, all, false), if t { 1 } else if op.check_wf { 8 } else { 4 }), tag, op));
                add(&mut v, with_opts(regions(4, all), tag, op));
            }
        }
        "C11" => {
            let o = TRACE;
            let dbg = Opts { debug: true, ..Opts::default() };
            let l = if t { 5 } else { 4 };
            add(&mut v, static_dag(2, 2, l, o));
            add(&mut v, dynamic(6, l, 1, 3, o));
            add(&mut v, two_roots(4, l, o));
            add(&mut v, returned_arts(5, 4, o));
            add(&mut v, overwrite(4, o));
            add(&mut v, morph(4, o, SET | ALLOC, false));
            add(&mut v, projections(false, 2, l, o));
            add(&mut v, projections(true, 2, l, o));
            add(&mut v, namespaces(4, o));
            add(&mut v, structural_fam(4, false, o));
            add(&mut v, regions(4, o));
            add(&mut v, every(unnamed(4, o, false), if t { 1 } else { 8 }));
            add(&mut v, every(features(4, o, t), if t { 1 } else { 4 }));
            add(&mut v, crate::clob::clobber(4, o, false));
            add(&mut v, scale(SHAPES, if t { 65 } else { 33 }, o));
            if t { add(&mut v, crate::clob::clobber(4, o, true)); }
            add(&mut v, with_opts(static_dag(2, 2, 4, o), "-debug", dbg));
            add(&mut v, with_opts(dynamic(6, 4, 1, 3, o), "-debug", dbg));
            add(&mut v, with_opts(morph(4, o, SET | ALLOC, false), "-debug", dbg));
        }
        "C12" => {
            use crate::cyc::*;
            for k in 1..4 { add(&mut v, gated(2, k, 5, 1)) }
            add(&mut v, gated(3, 1, 4, 3));
            add(&mut v, gated(3, 2, 4, 5));
            add(&mut v, edited_cycles(2, 3, 5, VAL | DEMAND));
            add(&mut v, edited_cycles(3, 2, 4, VAL | DEMAND));
            add(&mut v, graphs(2, true, false, 3));
            add(&mut v, graphs(2, true, true, 3));
            add(&mut v, graphs(3, false, false, 3));
            add(&mut v, graphs(3, false, true, 2));
            add(&mut v, graphs(3, true, false, 2));
            add(&mut v, self_loops(5, all));
            add(&mut v, cyc_of(static_dag(2, 2, 5, all)));
            add(&mut v, cyc_of(dynamic(6, 5, 1, 3, all)));
            add(&mut v, every(features(4, all, t), 4));
            add(&mut v, cyc_of(two_roots(4, 4, all)));
            add(&mut v, rings(if t { 120 } else { 40 }));
            if t {
                for k in 1..4 { add(&mut v, gated(2, k, 6, 1)) }
                add(&mut v, gated(3, 1, 5, 1));
                add(&mut v, gated(3, 2, 4, 1));
                add(&mut v, gated(3, 3, 3, 10));
                add(&mut v, graphs(3, true, true, 3));
                add(&mut v, graphs(4, false, false, 2));
                add(&mut v, self_loops(6, all));
                add(&mut v, edited_cycles(2, 3, 7, VAL | DEMAND));
                add(&mut v, edited_cycles(3, 2, 6, VAL | DEMAND));
            }
        }
        "C13" => {
            use crate::misuse::*;
            add(&mut v, dangling());
            add(&mut v, editor(3, true));
            add(&mut v, editor(4, false));
            add(&mut v, inner(3, false));
            if t { add(&mut v, editor(4, true)); add(&mut v, editor(5, false)); }
        }
        "C14" => {
            use crate::eng::*;
            add(&mut v, exchange(4));
            add(&mut v, threads(5, 2));
            let l = if t { 5 } else { 4 };
            add(&mut v, TurnsFamily { f: every(static_dag(1, 2, 4, all), 1), len: l });
            add(&mut v, TurnsFamily { f: every(dynamic(6, 4, 1, 1, all), if t { 2 } else { 20 }), len: l });
            add(&mut v, TurnsFamily { f: every(overwrite(4, all), if t { 2 } else { 20 }), len: 3 });
            let flat: Vec<&'static str> = SHAPES.iter().cloned().filter(|s| *s != "lattice").collect();
            add(&mut v, NaiveFamily(scale_static(&flat, if t { 80 } else { 40 })));
            for f in vec![static_dag(2, 2, 4, 0), static_dag(1, 3, 4, 0), features(4, 0, t), dynamic(7, 4, 1, 3, 0), two_roots(4, 4, 0), returned_arts(5, 4, 0), overwrite(4, 0), projections(false, 3, 4, 0), projections(true, 3, 4, 0), proj_alloc(false, 4, 0), proj_alloc(true, 4, 0), namespaces(4, 0), structural_fam(4, false, 0), regions(4, 0), unnamed(4, 0, t), morph(4, 0, SET | ALLOC, true)] {
                add(&mut v, NaiveFamily(f));
            }
            if t {
                add(&mut v, exchange(5));
                add(&mut v, NaiveFamily(static_dag(2, 3, 4, 0)));
                add(&mut v, NaiveFamily(dynamic(8, 4, 1, 3, 0)));
                add(&mut v, NaiveFamily(two_roots(5, 4, 0)));
            }
        }
        "C15" => {
            use crate::names::*;
            add(&mut v, forks(2, false));
            add(&mut v, pairs(1, true));
            add(&mut v, pairs(2, false));
            add(&mut v, two_names(1));
            add(&mut v, two_paths(4, 2));
            add(&mut v, long(if t { 260 } else { 140 }));
            if t { add(&mut v, forks(2, true)); add(&mut v, two_paths(6, 2)); add(&mut v, two_paths(3, 3)); add(&mut v, pairs(2, true)); }
        }
        "C16" => {
            add(&mut v, unnamed(4, all | UNNAMED, false));
            add(&mut v, features(4, all | UNNAMED, t));
            add(&mut v, crate::eng::art_pairs());
            add(&mut v, crate::names::articulation_contents());
            add(&mut v, scale(&["naive"], if t { 120 } else { 80 }, all | UNNAMED));
            if t { add(&mut v, unnamed(4, all | UNNAMED, true)); add(&mut v, unnamed(5, all | UNNAMED, false)); }
        }
        "C17" => {
            use crate::vals::*;
            add(&mut v, flat());
            add(&mut v, identifiers());
            add(&mut v, nested(if t { 5 } else { 3 }));
            add(&mut v, deep(if t { 6 } else { 4 }));
            add(&mut v, long(if t { 300 } else { 130 }));
            if t { add(&mut v, triples()); }
        }
        "C18" => {
            use crate::coll::*;
            add(&mut v, lists(4, 3));
            add(&mut v, gens(40));
            add(&mut v, two_lists(3, 2));
            add(&mut v, tree_fns(3, 3, &["up", "down", "mixed", "flat"]));
            add(&mut v, raw_trees(2, 2));
            add(&mut v, long_lists(if t { 330 } else { 200 }));
            add(&mut v, long_tree_fns(if t { 130 } else { 65 }));
            add(&mut v, tree_fns(3, 3, &["high"]));
            if t { add(&mut v, lists(6, 3)); add(&mut v, two_lists(4, 2)); add(&mut v, tree_fns(4, 3, &["up", "down", "mixed", "flat"])); add(&mut v, raw_trees(3, 2)); }
        }
        "C19" => {
            use crate::coll::*;
            for tag in vec!["mixed", "down"] { add(&mut v, edits(3, 4, 2, false, tag)); add(&mut v, edits(2, 4, 3, false, tag)); }
            add(&mut v, edits(2, 3, 2, true, "mixed"));
            for n in if t { vec![8, 16, 33, 65] } else { vec![10, 20, 33] } { add(&mut v, long_edits(n)) }
            if t { for tag in vec!["mixed", "flat"] { add(&mut v, edits(3, 4, 3, false, tag)); } add(&mut v, edits(3, 3, 2, true, "down")); }
        }
        "C20" => {
            use crate::coll::*;
            add(&mut v, trees_of_lists(4, 3, &["up", "down", "mixed", "flat", "high"]));
            add(&mut v, long_trees_of_lists(if t { 330 } else { 200 }));
            if t { add(&mut v, trees_of_lists(5, 3, &["up", "down", "mixed", "flat"])); }
        }
        "C21" => {
            use crate::tries::*;
            add(&mut v, bits(if t { 16 } else { 11 }));
            add(&mut v, long_bits());
            add(&mut v, pows());
            add(&mut v, tries(6, &[0, 1, 2, 4, 9, 21, 42, 63]));
            add(&mut v, TrieEdits { per: 1, steps: 3 });
            add(&mut v, long_tries(if t { 400 } else { 200 }));
            if t { add(&mut v, tries(7, &[0, 1, 2, 3, 4, 5, 8, 9, 10, 12, 16, 21, 24, 32, 33, 42, 48, 56, 60, 62, 63])); add(&mut v, TrieEdits { per: 2, steps: 2 }); add(&mut v, TrieEdits { per: 1, steps: 5 }); }
        }
        "C22" => {
            use crate::tries::*;
            add(&mut v, maps(4, 3));
            add(&mut v, sets(4));
            add(&mut v, long_maps(if t { 400 } else { 200 }));
            if t { add(&mut v, maps(6, 3)); add(&mut v, sets(6)); }
        }
        "C23" => {
            use crate::macs::*;
            add(&mut v, Forms { steps: 3 });
            add(&mut v, counted());
            if t { add(&mut v, Forms { steps: 4 }); }
        }
        "C26" => {
            use crate::draw::*;
            add(&mut v, Settings);
            let all_envs = |v: &mut F, f: fn() -> PFamily, n: usize| {
                add(v, drawn(every(f(), n), "", 0));
                add(v, drawn(every(f(), n), "-no-purity-checked", NO_PURITY | CHECK));
            };
            let k = if t { 1 } else { 4 };
            all_envs(&mut v, || static_dag(2, 2, 4, 0), k * 8);
            all_envs(&mut v, || dynamic(6, 4, 1, 3, 0), k * 2);
            all_envs(&mut v, || overwrite(4, 0), k * 4);
            all_envs(&mut v, || namespaces(4, 0), k * 3);
            all_envs(&mut v, || structural_fam(4, false, 0), k * 2);
            all_envs(&mut v, || regions(4, 0), k * 4);
            all_envs(&mut v, || morph(4, 0, SET | ALLOC, false), k * 2);
            let flat: Vec<&'static str> = SHAPES.iter().cloned().filter(|s| *s != "lattice").collect();
            for env in vec![STRUCTURAL, STRUCTURAL | NO_PURITY, STRUCTURAL | CHECK | WRITE] {
                for f in vec![static_dag(2, 2, 4, 0), dynamic(6, 4, 1, 3, 0), two_roots(4, 4, 0), returned_arts(5, 4, 0), overwrite(4, 0), projections(false, 2, 4, 0), namespaces(4, 0), structural_fam(4, false, 0), regions(4, 0), morph(4, 0, SET | ALLOC, false), scale_static(&flat, if t { 40 } else { 20 })] {
                    add(&mut v, AllStructural(f, env));
                }
            }
        }
        "C24" => {
            let o = all | GRAPH;
            for (n, g, i, l) in vec![(2, true, false, 4), (2, true, true, 3), (3, true, false, if t { 4 } else { 2 })] { add(&mut v, crate::cyc::resumed(crate::cyc::graphs(n, g, i, l))) }
            add(&mut v, crate::misuse::inner(if t { 3 } else { 2 }, true));
            add(&mut v, crate::partial::partial(if t { 5 } else { 4 }, false));
            add(&mut v, crate::partial::partial(if t { 4 } else { 3 }, true));
            add(&mut v, scale_faults(SHAPES, if t { 33 } else { 16 }, o));
            add(&mut v, scale_faults(ABS, if t { 33 } else { 16 }, o));
            let mut ff = |f: PFamily, n: usize, pre: usize, faults: usize, post: usize| add(&mut v, FaultFamily { f: every(f, if t { 1 } else { n }), pre, faults, post });
            ff(static_dag(2, 2, 0, o), 4, 2, 1, 1);
            ff(static_dag(1, 2, 0, o), 1, 1, 2, 1);
            ff(dynamic(6, 0, 1, 3, o), 1, 1, 1, 1);
            ff(two_roots(4, 0, o), 1, 1, 1, 1);
            ff(returned_arts(5, 0, o), 2, 1, 1, 1);
            ff(overwrite(5, o), 3, 1, 1, 1);
            ff(morph(5, o, SET | ALLOC, false), 1, 1, 1, 1);
            ff(projections(false, 2, 0, o), 1, 1, 1, 1);
            ff(projections(true, 2, 0, o), 1, 1, 1, 1);
            ff(namespaces(5, o), 2, 1, 1, 1);
            ff(structural_fam(5, false, o), 1, 1, 1, 1);
            ff(regions(5, o), 5, 1, 1, 1);
            ff(features(0, o, false), 6, 1, 1, 1);
            ff(every(unnamed(4, o, false), 8), 5, 1, 1, 1);
            if t {
                ff(static_dag(1, 2, 0, o), 1, 1, 3, 1);
                ff(dynamic(6, 0, 1, 3, o), 1, 2, 1, 1);
                ff(dynamic(6, 0, 1, 3, o), 1, 1, 2, 1);
                ff(two_roots(5, 0, o), 1, 2, 1, 1);
                ff(projections(false, 3, 0, o), 1, 2, 1, 2);
                ff(projections(true, 3, 0, o), 1, 2, 1, 2);
                ff(structural_fam(5, true, o), 1, 1, 1, 1);
            }
        }
        "C25" => {
            use crate::work::*;
            add(&mut v, lazy_lists(5, 2));
            add(&mut v, sorts(5, true));
            add(&mut v, sorts(4, false));
            for tag in vec!["mixed", "down", "up", "flat"] { add(&mut v, TreeWork { slots: 3, contents: 4, steps: 2, tag, long: false }) }
            add(&mut v, TreeWork { slots: 2, contents: 4, steps: 3, tag: "mixed", long: false });
            for tag in vec!["mixed", "down"] { add(&mut v, TreeWork { slots: 5, contents: 2, steps: 2, tag, long: false }); add(&mut v, TreeWork { slots: 3, contents: 3, steps: 2, tag, long: false }); }
            for n in if t { vec![10, 17, 33, 65] } else { vec![10, 17, 33] } { for c in vec![3, 4] { add(&mut v, TreeWork { slots: n, contents: c, steps: 4, tag: "many", long: true }) } }
            if t { add(&mut v, lazy_lists(7, 2)); add(&mut v, sorts(6, true)); add(&mut v, sorts(5, false)); add(&mut v, TreeWork { slots: 3, contents: 3, steps: 3, tag: "mixed", long: false }); for tag in vec!["mixed", "flat", "up"] { add(&mut v, TreeWork { slots: 6, contents: 2, steps: 2, tag, long: false }) } }
        }
        _ => {}
    }
    v
}

pub fn assumptions(_id: &str) -> Vec<&'static str> { vec![] }
