//! C28: runs the enumeration of digests.rs in four builds (debug assertions on/off x `iterative`
//! on/off) and compares the outcome of every operation of every execution.
use crate::spaces::Tier;
use crate::Evidence;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

struct Build { name: &'static str, bin: PathBuf }
#[derive(Default)]
struct Sp { name: String, nums: [u64; 5], wall: f64, recs: Vec<(u64, u64)>, samples: Vec<String>, outcomes: BTreeMap<String, u64> }

fn parse(t: &str) -> (Vec<Sp>, bool) {
    let (mut v, mut end): (Vec<Sp>, bool) = (vec![], false);
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("space ") {
            let p: Vec<&str> = r.splitn(8, ' ').collect();
            let n = |i: usize| p[i].parse().unwrap_or(0);
            v.push(Sp { name: p[7].into(), nums: [n(1), n(2), n(3), n(4), n(5)], wall: p[6].parse().unwrap_or(0.0), ..Sp::default() });
        } else if let Some(r) = l.strip_prefix("sample ") {
            v.last_mut().unwrap().samples.push(r.into());
        } else if let Some(r) = l.strip_prefix("outcome ") {
            let (n, k) = r.split_once(' ').unwrap_or(("0", r));
            v.last_mut().unwrap().outcomes.insert(k.into(), n.parse().unwrap_or(0));
        } else if l == "end" {
            end = true;
        } else if let Some((a, b)) = l.split_once(' ') {
            if let (Ok(a), Ok(b)) = (u64::from_str_radix(a, 16), u64::from_str_radix(b, 16)) { v.last_mut().unwrap().recs.push((a, b)); }
        }
    }
    (v, end)
}

/// `Ok(None)`: held; `Ok(Some(text))`: violated; `Err`: no answer.
pub fn check(tier: Tier, verbose: bool, ev: &mut Evidence) -> Result<Option<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mc = exe.parent().and_then(|p| p.parent()).and_then(|p| p.parent()).ok_or("no target folder")?.to_path_buf();
    let b = |name, d: &str| Build { name, bin: mc.join(d).join("digest") };
    let builds = [b("checked", "target/release"), b("unchecked", "target/unchecked"), b("checked, without iterative", "target-noiter/release"), b("unchecked, without iterative", "target-noiter/unchecked")];
    let tmp = mc.join(format!("target/c28-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    let tn = if tier.thorough() { "thorough" } else { "quick" };
    let mut res: Vec<Vec<Sp>> = vec![];
    let mut out = None;
    for (i, b) in builds.iter().enumerate() {
        let t0 = Instant::now();
        let f = tmp.join(format!("{i}.txt"));
        // fresh memory is filled with a pattern, another one in each build: what an operation reads of
        // memory it did not write shows as a difference
        let o = Command::new(&b.bin).args(["run", tn]).arg(&f).env("MALLOC_PERTURB_", ["1", "85", "170", "63"][i]).stderr(Stdio::piped()).stdout(Stdio::piped()).output().map_err(|e| format!("{}: {e}", b.bin.display()))?;
        let (sps, end) = parse(&std::fs::read_to_string(&f).unwrap_or_default());
        if verbose { eprintln!("{:7.2}s {}", t0.elapsed().as_secs_f64(), b.name); }
        let txt = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        if !o.status.success() || !end {
            let why = if txt.contains("HANG ") { "an operation does not return".into() } else if let Some(s) = o.status.signal() { format!("the process was ended by signal {s}") } else { format!("exit status {:?}", o.status.code()) };
            let last: Vec<&str> = txt.lines().rev().take(4).collect();
            out = Some(format!("build={}\nmessage=in the build '{}', {why}, in the space after {:?}\n{}\n", b.name, b.name, sps.last().map(|s| s.name.clone()).unwrap_or_else(|| "the start".into()), last.join("\n")));
            break;
        }
        res.push(sps);
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for (k, sp) in res.first().into_iter().flatten().enumerate() {
        ev.space(&sp.name, sp.nums[0], sp.nums[1], sp.nums[2], sp.nums[0], sp.nums[4] as usize, sp.wall);
        ev.calls += sp.nums[3];
        for (o, n) in &sp.outcomes { *ev.outcomes.entry(o.clone()).or_default() += n; }
        ev.samples.extend(sp.samples.iter().cloned());
        for (i, r) in res.iter().enumerate().skip(1) {
            let Some(o) = r.get(k) else { if i >= 2 && k + 1 == res[0].len() { continue } else { return Err(format!("space {k} is missing in {}", builds[i].name)) } };
            ev.cmps += o.recs.len() as u64;
            ev.runs += o.recs.len() as u64;
            if out.is_some() || o.recs == sp.recs { continue; }
            let bad = sp.recs.iter().zip(&o.recs).find(|(x, y)| x != y);
            let Some((x, y)) = bad else { out = Some(format!("message=the builds enumerate {} and {} executions of {}\n", sp.recs.len(), o.recs.len(), sp.name)); continue };
            let mut txt = format!("space={}\nmessage=the builds '{}' and '{}' differ\n", sp.name, builds[0].name, builds[i].name);
            let show = |b: &Build, h: u64| -> Vec<String> {
                let o = Command::new(&b.bin).args(["find", tn, &k.to_string(), &format!("{h:x}")]).output();
                o.map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()).unwrap_or_default()
            };
            let h = x.0.min(y.0);
            let (l1, l2) = (show(&builds[0], h), show(&builds[i], h));
            for l in l1.iter().filter(|l| !l.starts_with("op ")) { txt.push_str(&format!("note={l}\n")); }
            for (a, b) in l1.iter().zip(&l2) { if a != b { txt.push_str(&format!("{}: {a}\n{}: {b}\n", builds[0].name, builds[i].name)); } }
            out = Some(txt);
        }
    }
    Ok(out)
}
