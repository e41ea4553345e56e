//! Runs the enumeration of C28 in the build at hand. `digest run TIER OUT` writes one (choices, digest)
//! record per execution; `digest find TIER SPACE HASH` shows the outcome of one execution.
#![allow(dead_code)]
mod digests;
mod explore;
mod gen;
mod num;
mod spaces;

use explore::*;
use spaces::Tier;
use std::io::Write;
use std::time::{Duration, Instant};

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    HANG_EXIT.lock().unwrap().replace(Box::new(|sp, pre| { println!("HANG {sp} {pre:?}"); std::process::exit(5) }));
    let sps = digests::spaces(tier);
    if args[1] == "run" {
        TRACE.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut f = std::io::BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
        for (i, sp) in sps.iter().enumerate() {
            // the file tells which space a crashed run was in
            let r = explore(sp, threads, Instant::now() + Duration::from_secs(3000), &|_, _| false);
            assert!(r.exhaustive, "space cut short");
            let mut st = r.stats;
            st.trace.sort();
            writeln!(f, "space {i} {} {} {} {} {} {:.2} {}", st.execs, st.fps.len(), st.edges, st.calls, st.max_depth, r.wall, sp.name).unwrap();
            for o in &st.outcomes { writeln!(f, "outcome {} {}", o.1, o.0).unwrap(); }
            for s in &r.samples { writeln!(f, "sample {}", s.replace('\n', " ").chars().take(400).collect::<String>()).unwrap(); }
            for (h, d) in &st.trace { writeln!(f, "{h:016x} {d:016x}").unwrap(); }
            f.flush().unwrap();
        }
        writeln!(f, "end").unwrap();
    } else {
        let i: usize = args[3].parse().unwrap();
        let want = u64::from_str_radix(&args[4], 16).unwrap();
        let inner = &sps[i];
        TRACE.store(false, std::sync::atomic::Ordering::SeqCst);
        let found = search(inner, want);
        match found {
            Some(c) => { let (_, notes, _, _) = replay(&inner.run, &c); println!("choices {c:?}"); for n in notes { println!("{n}"); } }
            None => println!("not found"),
        }
    }
}


