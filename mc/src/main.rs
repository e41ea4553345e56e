mod c28;
mod checks;
mod explore;
mod gen;
#[cfg(feature = "history")]
mod history;
mod num;
mod oracle;
mod props;
mod spaces;
#[cfg(feature = "history")]
mod yfloat;

use explore::*;
use spaces::Tier;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct Known { prop: String, space: String, key: String, what: String }
fn known_findings() -> Vec<Known> {
    let root = root();
    let t = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        // finding: property=Cxx | space=<prefix> | key=<key> | <what fails>
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let p: Vec<&str> = l.splitn(4, " | ").collect();
        if p.len() == 4 { v.push(Known { prop: p[0].trim_start_matches("property=").into(), space: p[1].trim_start_matches("space=").into(), key: p[2].trim_start_matches("key=").into(), what: p[3].into() }); }
    }
    v
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn replay_text(prop: &str, tier: Tier, v: &Violation) -> String {
    let mut s = format!("property={prop}\ntier={}\nspace={}\nchoices={:?}\nkey={}\nmessage={}\n", if tier.thorough() { "thorough" } else { "quick" }, v.space, v.choices, v.key, v.msg);
    for n in &v.notes { s.push_str(&format!("note={n}\n")); }
    s
}
fn write_replay(prop: &str, tier: Tier, v: &Violation) -> String {
    let root = root();
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let p = format!("{root}/replays/{prop}.txt");
    let _ = std::fs::write(&p, replay_text(prop, tier, v));
    p
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "selftest" => selftest(),
        #[cfg(feature = "history")]
        "hist" => history::child(&args[2..]),
        "replay" => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let ch: Vec<u32> = get("choices").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
            let sp = props::spaces(&get("property"), tier).into_iter().find(|s| s.name == get("space")).expect("space");
            let (r, notes, _, _) = replay(&sp.run, &ch);
            for n in notes { println!("{n}"); }
            match r { Ok(()) => println!("HOLDS on this execution"), Err(f) => { println!("VIOLATED: {}", f.msg); std::process::exit(1) } }
        }
        p => check(p, &args[2..]),
    }
}

fn selftest() {
    // the explorer enumerates exactly the leaves of known trees, whatever the thread count
    for th in [1, 8] {
        let s = space("t", |c| { let n = c.choose(4); let mut x = n as u64; for _ in 0..n + 3 { x = x * 5 + c.choose(5) as u64; c.state(x); } c.state(x + 1000); Ok(()) });
        let r = explore(&s, th, Instant::now() + Duration::from_secs(60), &|_, _| false);
        let want: u64 = (0..4).map(|n| 5u64.pow(n + 3)).sum();
        let edges: u64 = (0..4u32).map(|n| 1 + (1..=n + 3).map(|k| 5u64.pow(k)).sum::<u64>()).sum();
        assert_eq!((r.stats.execs, r.stats.fps.len() as u64, r.stats.edges, r.exhaustive), (want, want, edges, true), "threads {th}");
        let s = space("v", |c| { let mut x = 0; for _ in 0..6 { x = x * 4 + c.choose(4); } if x == 2741 { fail("k", "found") } else { Ok(()) } });
        let r = explore(&s, th, Instant::now() + Duration::from_secs(60), &|_, _| false);
        let v = r.violation.expect("violation");
        assert_eq!(v.choices.iter().fold(0, |a, c| a * 4 + c), 2741);
        let r = explore(&s, th, Instant::now() + Duration::from_secs(60), &|_, k| k == "k");
        assert!(r.violation.is_none() && r.stats.known["k"] == 1 && r.stats.execs == 4096);
    }
    props::selftest();
    println!("selftest ok");
}

/// What a check covered, as written to evidence/<id>.json.
#[derive(Default)]
pub struct Evidence {
    pub per: Vec<String>,
    pub states: u64,
    pub edges: u64,
    pub execs: u64,
    pub nontrivial: u64,
    pub runs: u64,
    pub calls: u64,
    pub cmps: u64,
    pub max_depth: usize,
    pub cut: bool,
    pub ratios: BTreeMap<&'static str, f64>,
    pub outcomes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Evidence {
    #[allow(clippy::too_many_arguments)]
    pub fn space(&mut self, name: &str, execs: u64, states: u64, edges: u64, nontrivial: u64, depth: usize, wall: f64) {
        self.per.push(format!("{{\"space\": {}, \"executions\": {execs}, \"distinct_states\": {states}, \"transitions\": {edges}, \"nontrivial_executions\": {nontrivial}, \"max_depth\": {depth}, \"wall_s\": {wall:.2}}}", js(name)));
        self.states += states;
        self.edges += edges;
        self.execs += execs;
        self.runs += execs;
        self.nontrivial += nontrivial;
        self.max_depth = self.max_depth.max(depth);
    }
    fn write(&mut self, prop: &str, tier: Tier, seed: i64, wall: f64, violated: bool) {
        let root = root();
        for s in self.samples.iter_mut() { if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push('…'); } }
        let map = |m: &mut dyn Iterator<Item = (String, String)>| m.map(|(k, v)| format!("{}: {v}", js(&k))).collect::<Vec<_>>().join(", ");
        let ev = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"wall_s\": {wall:.2}, \"violations\": {},\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"oracle_comparisons\": {}, \"nontrivial_executions\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"max_depth\": {},\n  \"worst_error_over_tolerance\": {{{}}},\n  \"outcomes\": {{{}}},\n  \"known_findings_hit\": {{{}}},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\"bounded spaces as listed under coverage.spaces; single-threaded code, so the enumerated choices are all its nondeterminism\"]\n}}\n",
            js(prop), js(if tier.thorough() { "thorough" } else { "quick" }), violated as u8, self.states, self.edges, self.runs, self.cmps, self.nontrivial,
            js(&format!("states: distinct fingerprints of the complete input and operation history of an execution; transitions: choices taken, shared prefixes counted once; traces_validated_against_impl: complete choice sequences, each run on the real code ({} calls into it); oracle_comparisons: values compared with the oracle; nontrivial_executions: executions that reached an oracle comparison on a non-degenerate instance", self.calls)),
            !self.cut && !violated, self.max_depth,
            map(&mut self.ratios.iter().map(|(k, v)| (k.to_string(), format!("{v:.4}")))),
            map(&mut self.outcomes.iter().map(|(k, v)| (k.clone(), v.to_string()))),
            map(&mut self.known.iter().map(|(k, v)| (k.clone(), v.to_string()))),
            self.per.join(",\n   "), self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(format!("{root}/evidence/{prop}.json"), ev).expect("evidence");
    }
}
fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) }

fn check(prop: &str, rest: &[String]) {
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut only: Option<String> = None;
    let mut verbose = false;
    let mut it = rest.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => tier = if it.next().map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick },
            "--space" => only = it.next().cloned(),
            "-v" => verbose = true,
            x => panic!("argument {x}"),
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let t0 = Instant::now();
    let cap = std::env::var("MC_CAP_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier.thorough() { 3000 } else { 420 });
    let deadline = t0 + Duration::from_secs(cap);
    let known = known_findings();
    let mut ev = Evidence::default();
    if prop == "C28" {
        let r = c28::check(tier, verbose, &mut ev);
        let wall = t0.elapsed().as_secs_f64();
        match r {
            Err(e) => { eprintln!("no answer: {e}"); std::process::exit(2) }
            Ok(v) => {
                ev.write(prop, tier, seed, wall, v.is_some());
                for k in &known { if k.prop == prop { println!("KNOWN-FINDING: property={prop} {}", k.what); } }
                let Some(t) = v else {
                    println!("{prop}: held on {} executions ({} states, {} transitions, {} compared between builds) in {wall:.1} s", ev.execs, ev.states, ev.edges, ev.cmps);
                    return;
                };
                let _ = std::fs::create_dir_all(format!("{}/replays", root()));
                let p = format!("{}/replays/{prop}.txt", root());
                let _ = std::fs::write(&p, format!("property={prop}\ntier={}\n{t}", if tier.thorough() { "thorough" } else { "quick" }));
                println!("{}", t.chars().take(1500).collect::<String>());
                println!("VIOLATION property={prop} replay={p}");
                std::process::exit(1);
            }
        }
    }
    let isk = |space: &str, key: &str| known.iter().any(|k| k.prop == prop && space.starts_with(&k.space) && key == k.key);
    let sps = props::spaces(prop, tier);
    if sps.is_empty() { eprintln!("unknown property {prop}"); std::process::exit(2); }
    {
        let p = prop.to_string();
        HANG_EXIT.lock().unwrap().replace(Box::new(move |sp, pre| {
            let v = Violation { space: sp.into(), choices: pre.to_vec(), key: "hang".into(), msg: format!("the execution starting with these choices did not return within {HANG_SECS} s"), notes: vec![] };
            let f = write_replay(&p, tier, &v);
            println!("{}", v.msg);
            println!("VIOLATION property={p} replay={f}");
        }));
    }
    let mut viol: Option<Violation> = None;
    for sp in &sps {
        if let Some(o) = &only { if !sp.name.starts_with(o.as_str()) { continue; } }
        let r = explore(sp, threads, deadline, &isk);
        let st = r.stats;
        if verbose { eprintln!("{:7.2}s {:>9} execs {:>9} states {:>9} nontrivial depth {:>3} {}  {}", r.wall, st.execs, st.fps.len(), st.nontrivial, st.max_depth, if r.exhaustive { "exhaustive" } else { "CUT" }, sp.name.chars().take(110).collect::<String>()); }
        ev.space(&sp.name, st.execs, st.fps.len() as u64, st.edges, st.nontrivial, st.max_depth, r.wall);
        ev.samples.extend(r.samples);
        for (k, v) in &st.known { *ev.known.entry(format!("{} {}", sp.name.split(':').next().unwrap_or(""), k)).or_default() += v; }
        ev.cut |= !r.exhaustive;
        ev.calls += st.calls;
        ev.cmps += st.cmps;
        for (k, v) in st.outcomes { *ev.outcomes.entry(k.into()).or_default() += v; }
        for (k, v) in st.ratios { let e = ev.ratios.entry(k).or_insert(0.0); if v > *e { *e = v; } }
        if let Some(v) = r.violation { viol = Some(v); break; }
        if !r.exhaustive { break; }
    }
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() { ev.write(prop, tier, seed, wall, viol.is_some()); }
    if verbose {
        for (k, v) in &ev.ratios { eprintln!("  ratio {v:.4}  {k}"); }
        for (k, v) in &ev.outcomes { eprintln!("  outcome {v:>9}  {k}"); }
    }
    for k in &known { if k.prop == prop { println!("KNOWN-FINDING: property={prop} {}", k.what); } }
    match viol {
        Some(v) => {
            let f = write_replay(prop, tier, &v);
            println!("space: {}\nchoices: {:?}\n{}", v.space, v.choices, v.msg);
            for n in v.notes.iter().take(12) { println!("  {n}"); }
            println!("VIOLATION property={prop} replay={f}");
            std::process::exit(1);
        }
        None => println!("{prop}: held on {} executions ({} states, {} transitions) in {wall:.1} s{}", ev.execs, ev.states, ev.edges, if ev.cut { ", CUT by the time cap" } else { ", all spaces enumerated completely" }),
    }
}
