//! Bounded exhaustive model checking of the Adapton library.
//!
//!   mc check <ID>            explore, write evidence/<ID>.json, exit 0/1 (2 = harness error)
//!   mc replay <file>         re-execute one recorded history, verbosely
//!   mc worker|isolate ...    internal (child processes)

#[macro_use] extern crate adapton;
#[macro_use] mod core;
mod registry;
mod prog;
mod pfam;
mod graph;
mod traces;
mod clob;
mod partial;
mod scale;
mod cyc;
mod draw;
mod eng;
mod names;
mod coll;
mod tries;
mod vals;
mod macs;
mod misuse;
mod work;

use crate::core::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio, Child};
use std::time::{Duration, Instant};

const STACK: usize = 64 << 20;
const HANG_S: u64 = 60;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(STACK).spawn(move || real_main(args)).unwrap();
    let code = match t.join() { Ok(c) => c, Err(_) => 2 };
    std::process::exit(code);
}

fn real_main(args: Vec<String>) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => parent(&args[2]),
        Some("worker") => worker(&args[2..]),
        Some("isolate") => isolate(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("list") => { for id in registry::IDS { println!("{}", id) } 0 }
        Some("size") => size(&args[2]),
        Some("time") => time(&args[2], args.get(3)),
        _ => { eprintln!("usage: mc check|replay|list|size"); 2 }
    }
}

fn tier() -> String {
    match std::env::var("VERIF_TIER") { Ok(ref s) if s == "thorough" => "thorough".into(), _ => "quick".into() }
}
fn seed() -> i64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
fn budget_s(tier: &str) -> u64 {
    std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 7200 } else { 500 })
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn oneline(s: &str) -> String { s.replace('\t', " ").replace('\n', " ; ") }

fn size(id: &str) -> i32 {
    for f in registry::families(id, &tier()) {
        let n = f.ncases();
        let (mut h, mut sk) = (0u64, 0u64);
        let step = std::cmp::max(1, n / 2000);
        let mut i = 0; let mut seen = 0u64;
        while i < n { seen += 1; match f.case(i) { Some(c) => h += c.nhist(), None => sk += 1 } i += step; }
        println!("{:40} cases={} skipped~{} histories~{}", f.name(), n, sk * step as u64, h as f64 * n as f64 / seen as f64);
    }
    0
}

fn time(id: &str, only: Option<&String>) -> i32 {
    install_hook();
    for f in registry::families(id, &tier()) {
        if let Some(o) = only { if !f.name().contains(o.as_str()) { continue } }
        let t = Instant::now();
        let mut cx = Ctx::default();
        let mut fails = 0;
        for i in 0..f.ncases() {
            if let Some(mut c) = f.case(i) {
                cx.cases += 1;
                for h in 0..c.nhist() {
                    if let Err(e) = run_one(&mut c, h, &mut cx) {
                        fails += 1;
                        if fails <= 10 { println!("FAIL {} :: case {} hist {} :: {} :: {}", f.name(), i, h, c.describe(h), e); }
                    }
                }
                cx.end_case();
            } else { cx.skipped_cases += 1; }
        }
        println!("{:32} cases={} skip={} hist={} trans={} states={} outcomes={} fails={} {:?} {:?}", f.name(), cx.cases, cx.skipped_cases,
            cx.histories, cx.transitions, cx.states, cx.outcomes.len(), fails, cx.counters, t.elapsed());
    }
    0
}

// ---------------------------------------------------------------- worker

struct Progress { f: fs::File, beat: u64 }
impl Progress {
    fn open(p: &str) -> Progress { Progress { f: fs::OpenOptions::new().create(true).write(true).open(p).unwrap(), beat: 0 } }
    fn put(&mut self, fam: u64, case: u64, hist: u64) {
        self.beat += 1;
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&fam.to_le_bytes());
        b[8..16].copy_from_slice(&case.to_le_bytes());
        b[16..24].copy_from_slice(&hist.to_le_bytes());
        b[24..].copy_from_slice(&self.beat.to_le_bytes());
        let _ = self.f.write_at(&b, 0);
    }
}
fn read_progress(p: &str) -> Option<(u64, u64, u64, u64)> {
    let b = fs::read(p).ok()?;
    if b.len() < 32 { return None }
    let g = |i: usize| { let mut x = [0u8; 8]; x.copy_from_slice(&b[i..i + 8]); u64::from_le_bytes(x) };
    Some((g(0), g(8), g(16), g(24)))
}

fn known(id: &str) -> Vec<String> {
    let p = match std::env::var("MC_KNOWN") { Ok(p) => p, Err(_) => return vec![] };
    let s = fs::read_to_string(p).unwrap_or_default();
    let pre = format!("finding: property={} key=", id);
    s.lines().filter(|l| l.starts_with(&pre))
        .map(|l| { let r = &l[pre.len()..]; match r.find(" what=") { Some(k) => r[..k].to_string(), None => r.to_string() } })
        .collect()
}

/// worker ID TIER SHARD NSHARDS PROGRESS OUT BUDGET SKIPS(fam:case,..)
fn worker(a: &[String]) -> i32 {
    install_hook();
    let (id, tier) = (&a[0], &a[1]);
    let (shard, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut prog = Progress::open(&a[4]);
    let deadline = Instant::now() + Duration::from_secs(a[6].parse().unwrap());
    let skips: Vec<(u64, u64)> = a.get(7).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| {
        let mut it = x.split(':'); (it.next().unwrap().parse().unwrap(), it.next().unwrap().parse().unwrap()) }).collect()).unwrap_or_default();
    let kn = known(id);
    let mut cx = Ctx::default();
    let mut out = String::new();
    let mut nviol = 0;
    let mut capped = false;
    let mut last_put = Instant::now();
    let fams = registry::families(id, tier);
    'all: for (fi, f) in fams.iter().enumerate() {
        let (h0, t0, s0) = (cx.histories, cx.transitions, cx.states);
        let (c0, k0) = (cx.cases, cx.skipped_cases);
        let nc = f.ncases();
        let by_hist = (nc as u64) < 16 * n;
        let stride = if by_hist { 1 } else { n as usize };
        let mut ci = if by_hist { 0 } else { shard as usize };
        let mut nsamp = 0;
        while ci < nc {
            prog.put(fi as u64, ci as u64, 0);
            if Instant::now() > deadline { capped = true; break 'all }
            if skips.contains(&(fi as u64, ci as u64)) { ci += stride; continue }
            let mine = !by_hist || (ci as u64) % n == shard;
            match f.case(ci) {
                None => if mine { cx.skipped_cases += 1 },
                Some(mut c) => {
                    if mine { cx.cases += 1 }
                    let nh = c.nhist();
                    let split = by_hist && nh > 8 * n;
                    let mut h = 0;
                    if !by_hist || split || mine {
                        while h < nh {
                            if split && (h / 8 + ci as u64) % n != shard { h += 1; continue }
                            let now = Instant::now();
                            if h & 0x3ff == 0 || now > last_put + Duration::from_millis(500) {
                                prog.put(fi as u64, ci as u64, h);
                                last_put = now;
                                if now > deadline { capped = true; break 'all }
                            }
                            if let Err(e) = run_one(&mut c, h, &mut cx) {
                                let key = oneline(&format!("{} :: {}", f.name(), c.describe(h)));
                                let is_known = kn.contains(&key);
                                out.push_str(&format!("{}\t{}\t{}\t{}\t{}\t{}\n", if is_known { "known" } else { "viol" }, fi, ci, h, key, oneline(&e)));
                                if !is_known { nviol += 1; if nviol >= 3 { capped = true; cx.end_case(); break 'all } }
                            } else if nsamp < 1 && h > nh / 3 {
                                nsamp += 1;
                                cx.samples.push(format!("{} :: {}", f.name(), c.describe(h)));
                            }
                            h += 1;
                        }
                    }
                    cx.end_case();
                }
            }
            ci += stride;
        }
        out.push_str(&format!("fam\t{}\t{}\t{}\t{}\t{}\t{}\n", fi, cx.cases - c0, cx.skipped_cases - k0,
            cx.histories - h0, cx.transitions - t0, cx.states - s0));
    }
    out.push_str(&format!("tot\t{}\t{}\t{}\t{}\t{}\t{}\n", cx.histories, cx.transitions, cx.states, cx.cases, cx.skipped_cases, capped));
    for (k, v) in &cx.counters { out.push_str(&format!("cnt\t{}\t{}\n", k, v)); }
    for s in &cx.samples { out.push_str(&format!("smp\t{}\n", oneline(s))); }
    let mut oc: Vec<u64> = cx.outcomes.iter().cloned().collect(); oc.sort();
    out.push_str("out"); for o in oc { out.push_str(&format!("\t{:x}", o)); } out.push('\n');
    fs::write(&a[5], out).unwrap();
    0
}

/// isolate ID TIER FAM CASE FROM PROGRESS: run one case history by history from FROM
fn isolate(a: &[String]) -> i32 {
    install_hook();
    let fams = registry::families(&a[0], &a[1]);
    let (fi, ci, from): (usize, usize, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let to: u64 = a.get(6).map(|s| s.parse().unwrap()).unwrap_or(u64::max_value());
    let mut prog = Progress::open(&a[5]);
    let mut cx = Ctx::default();
    if let Some(mut c) = fams[fi].case(ci) {
        let mut h = from;
        while h < c.nhist() && h < to {
            prog.put(fi as u64, ci as u64, h);
            if let Err(e) = run_one(&mut c, h, &mut cx) { fs::write(format!("{}.msg", a[5]), oneline(&e)).unwrap(); return 1 }
            h += 1;
        }
    }
    0
}

fn replay(path: &str) -> i32 {
    install_hook();
    let s = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let pat = format!("\"{}\": ", k);
        let i = s.find(&pat).unwrap_or_else(|| panic!("no field {}", k)) + pat.len();
        let rest = &s[i..];
        if rest.starts_with('"') { rest[1..].split("\",").next().unwrap().to_string() }
        else { rest.split(|c: char| c == ',' || c == '\n').next().unwrap().trim().to_string() }
    };
    let fams = registry::families(&get("property"), &get("tier"));
    let (fi, ci, h): (usize, usize, u64) = (get("family_index").parse().unwrap(), get("case").parse().unwrap(), get("history").parse().unwrap());
    let mut c = fams[fi].case(ci).expect("case is outside the property's domain");
    println!("family : {}", fams[fi].name());
    println!("history: {}", c.describe(h));
    let mut codes = vec![];
    for round in 0..2 {
        let mut cx = Ctx::default();
        cx.trace_on = round == 0;
        let r = run_one(&mut c, h, &mut cx);
        for l in &cx.narrative { println!("  {}", l); }
        println!("run {}: {}", round + 1, match &r { Ok(()) => "property holds".to_string(), Err(e) => format!("VIOLATED: {}", e) });
        codes.push(r);
    }
    if codes[0] != codes[1] { println!("replays diverge: harness nondeterminism"); return 2 }
    if codes[0].is_ok() { 0 } else { 1 }
}

// ---------------------------------------------------------------- parent

fn spawn_self(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap()).args(args)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn")
}

/// Wait for an isolate child; Ok(None)=clean, Ok(Some(msg))=failed at its recorded history.
fn watch_isolate(mut ch: Child, pf: &str) -> Option<String> {
    let mut last = (0, Instant::now());
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            if st.success() { return None }
            if let Some(sig) = st.signal() { return Some(format!("the process died of signal {} (stack overflow or abort)", sig)) }
            return Some(fs::read_to_string(format!("{}.msg", pf)).unwrap_or("the process exited".into()));
        }
        let b = read_progress(pf).map(|p| p.3).unwrap_or(0);
        if b != last.0 { last = (b, Instant::now()) }
        if last.1.elapsed().as_secs() > HANG_S { let _ = ch.kill(); let _ = ch.wait(); return Some(format!("no result after {} s (hang)", HANG_S)) }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Viol { fi: usize, ci: usize, h: u64, key: String, msg: String }

fn parent(id: &str) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    if !registry::IDS.contains(&id) { eprintln!("unknown property {}", id); return 2 }
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let scratch = format!("{}/target/run-{}-{}", root, id, std::process::id());
    fs::create_dir_all(&scratch).unwrap();
    // small files that are written often: in memory, if there is a place
    let shm = format!("/dev/shm/mc-{}", std::process::id());
    let quick_scratch = if fs::create_dir_all(&shm).is_ok() && fs::write(format!("{}/probe", shm), "x").is_ok() { shm.clone() } else { scratch.clone() };
    std::env::set_var("MC_SCRATCH", &quick_scratch);
    let n: u64 = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4));
    let budget = budget_s(&tier);
    let fams = registry::families(id, &tier);
    let mut viols: Vec<Viol> = vec![];
    let mut knowns: Vec<String> = vec![];
    let mut infra: Vec<String> = vec![];
    let mut tot = [0u64; 5];
    let mut capped = false;
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut outcomes: std::collections::HashSet<String> = Default::default();
    let mut famtot: Vec<[u64; 5]> = vec![[0; 5]; fams.len()];
    let kn = known(id);

    struct W { ch: Child, pf: String, of: String, shard: u64, skips: Vec<String>, beat: u64, since: Instant, tries: u32 }
    let start = |shard: u64, skips: &Vec<String>, tries: u32, left: u64| -> W {
        let pf = format!("{}/p{}.{}", scratch, shard, tries);
        let of = format!("{}/o{}.{}", scratch, shard, tries);
        let args: Vec<String> = vec!["worker".into(), id.into(), tier.clone(), shard.to_string(), n.to_string(), pf.clone(), of.clone(), left.to_string(), skips.join(",")];
        W { ch: spawn_self(&args), pf, of, shard, skips: skips.clone(), beat: 0, since: Instant::now(), tries }
    };
    let mut ws: Vec<W> = (0..n).map(|s| start(s, &vec![], 0, budget)).collect();
    let mut stop_at: Option<Instant> = None;
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < ws.len() {
            // one confirmed violation settles the answer: the other workers get a short grace to report theirs
            if !viols.is_empty() {
                let t = *stop_at.get_or_insert_with(|| Instant::now() + Duration::from_secs(5));
                if Instant::now() > t {
                    for w in ws.iter_mut() { let _ = w.ch.kill(); let _ = w.ch.wait(); }
                    ws.clear(); capped = true; break
                }
            }
            let mut bad: Option<&str> = None;
            let done = match ws[i].ch.try_wait().unwrap() {
                Some(st) if st.success() => true,
                Some(_) => { bad = Some("died"); true }
                None => {
                    let b = read_progress(&ws[i].pf).map(|p| p.3).unwrap_or(0);
                    if b != ws[i].beat { ws[i].beat = b; ws[i].since = Instant::now(); }
                    // coarse heartbeat: 1024 histories (or one case); be generous
                    if ws[i].since.elapsed().as_secs() > 2 * HANG_S { let _ = ws[i].ch.kill(); let _ = ws[i].ch.wait(); bad = Some("hung"); true } else { false }
                }
            };
            if !done { i += 1; continue }
            let w = ws.remove(i);
            if bad.is_some() && !viols.is_empty() { capped = true; continue }
            if let Some(why) = bad {
                match read_progress(&w.pf) {
                    None => infra.push(format!("worker {} {} before its first case", w.shard, why)),
                    Some((fi, ci, h, _)) => {
                        // re-run the suspicious stretch in isolation, one history at a time, then confirm alone
                        let ip = format!("{}/i{}", scratch, w.shard);
                        let mk = |from: u64, to: u64| spawn_self(&["isolate".into(), id.into(), tier.clone(), fi.to_string(), ci.to_string(), from.to_string(), ip.clone(), to.to_string()]);
                        let _ = fs::remove_file(&ip);
                        match watch_isolate(mk(h, h + 4096), &ip) {
                            None => infra.push(format!("worker {} {} at family {} case {} but the case passes in isolation", w.shard, why, fi, ci)),
                            Some(_) => {
                                let hh = read_progress(&ip).map(|p| p.2).unwrap_or(h);
                                let _ = fs::remove_file(&ip);
                                match watch_isolate(mk(hh, hh + 1), &ip) {
                                    None => infra.push(format!("family {} case {} history {} failed once but not alone", fi, ci, hh)),
                                    Some(msg) => {
                                        let d = fams[fi as usize].case(ci as usize).map(|c| c.describe(hh)).unwrap_or_default();
                                        let key = oneline(&format!("{} :: {}", fams[fi as usize].name(), d));
                                        if kn.contains(&key) { knowns.push(key) }
                                        else { viols.push(Viol { fi: fi as usize, ci: ci as usize, h: hh, key, msg }) }
                                    }
                                }
                            }
                        }
                        if viols.is_empty() && infra.is_empty() && w.tries < 5 {
                            let mut sk = w.skips.clone(); sk.push(format!("{}:{}", fi, ci));
                            let left = budget.saturating_sub(t0.elapsed().as_secs());
                            ws.push(start(w.shard, &sk, w.tries + 1, left));
                        } else { capped = true; }
                    }
                }
                continue;
            }
            let txt = match fs::read_to_string(&w.of) { Ok(t) => t, Err(e) => { infra.push(format!("worker {} left no result: {}", w.shard, e)); continue } };
            for l in txt.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "viol" => viols.push(Viol { fi: p[1].parse().unwrap(), ci: p[2].parse().unwrap(), h: p[3].parse().unwrap(), key: p[4].into(), msg: p[5].into() }),
                    "known" => knowns.push(p[4].to_string()),
                    "fam" => { let f: usize = p[1].parse().unwrap(); for k in 0..5 { famtot[f][k] += p[2 + k].parse::<u64>().unwrap(); } }
                    "tot" => { for k in 0..5 { tot[k] += p[1 + k].parse::<u64>().unwrap(); } if p[6] == "true" { capped = true } }
                    "cnt" => *cnt.entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    "smp" => if samples.len() < 24 { samples.push(p[1].to_string()) },
                    "out" => for o in &p[1..] { outcomes.insert(o.to_string()); },
                    _ => {}
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    if quick_scratch == shm { let _ = fs::remove_dir_all(&shm); }
    viols.sort_by(|a, b| (a.fi, a.ci, a.h).cmp(&(b.fi, b.ci, b.h)));
    knowns.sort(); knowns.dedup();

    // one representative sample per family first
    let mut picked: Vec<String> = vec![];
    for f in &fams { let pre = format!("{} :: ", f.name()); if let Some(s) = samples.iter().find(|s| s.starts_with(&pre)) { picked.push(s.clone()) } }
    for s in samples { if picked.len() < 10 && !picked.contains(&s) { picked.push(s) } }

    for k in &knowns { println!("KNOWN-FINDING: property={} {}", id, k); }
    let rdir = format!("{}/replays", root);
    let _ = fs::create_dir_all(&rdir);
    for v in viols.iter().take(5) {
        let path = format!("{}/{}-{:08x}.json", rdir, id, h64(&(&v.key, v.h)) as u32);
        let mut f = fs::File::create(&path).unwrap();
        writeln!(f, "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"family\": \"{}\",\n  \"family_index\": {},\n  \"case\": {},\n  \"history\": {},\n  \"what\": \"{}\",\n  \"failure\": \"{}\",\n  \"replay_with\": \"./check.sh --replay {}\"\n}}",
            id, tier, esc(&fams[v.fi].name()), v.fi, v.ci, v.h, esc(&v.key), esc(&v.msg), path).unwrap();
        println!("VIOLATION property={} replay={}", id, path);
        println!("  history: {}", v.key);
        println!("  failure: {}", v.msg);
    }
    for m in &infra { println!("HARNESS-ERROR: {}", m); }

    let wall = t0.elapsed().as_secs_f64();
    let mut fj = String::new();
    for (k, f) in fams.iter().enumerate() {
        if k > 0 { fj.push_str(",\n      ") }
        fj.push_str(&format!("{{\"family\": \"{}\", \"bounds\": \"{}\", \"programs_or_inputs\": {}, \"outside_domain\": {}, \"histories\": {}, \"transitions\": {}, \"states\": {}}}",
            esc(&f.name()), esc(&f.bounds()), famtot[k][0], famtot[k][1], famtot[k][2], famtot[k][3], famtot[k][4]));
    }
    let cj: Vec<String> = cnt.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let sj: Vec<String> = picked.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let aj: Vec<String> = registry::assumptions(id).iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let ev = format!("{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"programs_or_inputs\": {},\n    \"outside_domain\": {},\n    \"distinct_outcomes\": {},\n    \"exhaustive\": {},\n    \"monitors\": {{{}}},\n    \"families\": [\n      {}\n    ],\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        id, tier, seed(), tot[2], tot[1], tot[0], tot[3], tot[4], outcomes.len(), !capped, cj.join(", "), fj, sj.join(", "), aj.join(", "), wall, viols.len());
    let edir = format!("{}/evidence", root);
    let _ = fs::create_dir_all(&edir);
    fs::write(format!("{}/{}.json", edir, id), ev).unwrap();
    println!("{} {}: programs/inputs={} (outside domain {}) histories={} transitions={} states={} outcomes={} exhaustive={} violations={} known={} wall={:.1}s",
        id, tier, tot[3], tot[4], tot[0], tot[1], tot[2], outcomes.len(), !capped, viols.len(), knowns.len(), wall);
    if !viols.is_empty() { 1 } else if !infra.is_empty() { 2 } else { 0 }
}
