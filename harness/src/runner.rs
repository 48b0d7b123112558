//! Parent / worker processes, replay, evidence.
use crate::engine::*;
use crate::props::{self, Prop};
use serde_json::{json, Value};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .map(|s| s.as_str())
}

fn tier_of(s: Option<&str>) -> Tier {
    if s == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("run") => parent(args),
        Some("worker") => worker(args),
        Some("one") => one(args),
        Some("replay") => replay(args),
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.name);
            }
            0
        }
        _ => {
            eprintln!("usage: lazcheck run ID --tier T --seed N --verif DIR | replay FILE | list");
            2
        }
    }
}

fn case_seed(seed: u64, p: &Prop, idx: u64) -> u64 {
    hash64(&[seed, hash_bytes(p.id.as_bytes()), idx])
}

/// Signatures of known findings of this property (`known_findings.json`).
fn known_sigs(verif: &Path, id: &str) -> Vec<(String, String)> {
    let f = verif.join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(f) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json is not valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id)
                .map(|e| {
                    (
                        e["signature"].as_str().unwrap_or("").to_string(),
                        e["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn worker(args: &[String]) -> i32 {
    install_panic_hook();
    let id = &args[1];
    let p = props::find(id).expect("unknown property");
    let tier = tier_of(arg(args, "--tier"));
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let w: u64 = arg(args, "--w").unwrap().parse().unwrap();
    let n: u64 = arg(args, "--workers").unwrap().parse().unwrap();
    let count: u64 = arg(args, "--count").unwrap().parse().unwrap();
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let verif = PathBuf::from(arg(args, "--verif").unwrap());
    let known = known_sigs(&verif, id);
    let progress = std::fs::File::create(dir.join(format!("progress.{w}"))).unwrap();
    use std::os::unix::fs::FileExt;

    let mut st = Stats::default();
    let mut failure: Option<Value> = None;
    let mut slowest = (0u64, 0u64);
    let mut idx = w;
    let mut done = 0u64;
    while idx < count {
        let _ = progress.write_all_at(&idx.to_le_bytes(), 0);
        let mut src = Src::random(case_seed(seed, p, idx));
        let start = Instant::now();
        let (r, info) = run_case(p.f, &mut src, tier);
        let ms = start.elapsed().as_millis() as u64;
        if ms > slowest.0 {
            slowest = (ms, idx);
        }
        st.evaluations += 1;
        st.checks += info.checks;
        for l in &info.labels {
            *st.labels.entry(l.clone()).or_insert(0) += 1;
        }
        if info.nontrivial {
            st.nontrivial += 1;
            st.digests.insert(info.digest);
            if st.samples.len() < 4 && (done % 37 == 5 || st.samples.is_empty()) {
                st.samples.push(format!("case {idx}: {}", info.desc));
            }
        }
        done += 1;
        if let Err(f) = r {
            if known.iter().any(|k| k.0 == f.sig) {
                *st.known.entry(f.sig.clone()).or_insert(0) += 1;
            } else {
                let budget = Duration::from_secs(25);
                let choices = src.choices().to_vec();
                let (c, sf, execs) = shrink(p.f, tier, choices.clone(), f.clone(), budget);
                failure = Some(json!({
                    "property": id, "tier": tier_name(tier), "seed": seed, "case": idx,
                    "signature": sf.sig, "message": sf.msg,
                    "original_message": f.msg,
                    "original_choices": choices.len(), "shrink_executions": execs,
                    "choices": c,
                }));
                break;
            }
        }
        idx += n;
    }
    let out = json!({
        "evaluations": st.evaluations, "checks": st.checks, "nontrivial": st.nontrivial,
        "digests": st.digests.iter().collect::<Vec<_>>(),
        "labels": st.labels, "samples": st.samples, "known": st.known,
        "failure": failure, "slowest": [slowest.0, slowest.1],
    });
    let tmp = dir.join(format!("out.{w}.tmp"));
    std::fs::write(&tmp, out.to_string()).unwrap();
    std::fs::rename(&tmp, dir.join(format!("out.{w}"))).unwrap();
    0
}

/// Runs exactly one case (used to confirm and shrink crashes of a worker).
/// exit 0 = case passed, 10 = case failed (failure JSON printed)
fn one(args: &[String]) -> i32 {
    install_panic_hook();
    let id = &args[1];
    let p = props::find(id).expect("unknown property");
    let tier = tier_of(arg(args, "--tier"));
    let mut src = if let Some(f) = arg(args, "--choices") {
        let t = std::fs::read_to_string(f).unwrap();
        Src::replay(t.lines().filter_map(|l| l.trim().parse().ok()).collect())
    } else {
        let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
        let idx: u64 = arg(args, "--case").unwrap().parse().unwrap();
        let s = Src::random(case_seed(seed, p, idx));
        match arg(args, "--journal") {
            Some(j) => s.with_journal(std::fs::File::create(j).unwrap()),
            None => s,
        }
    };
    let (r, info) = run_case(p.f, &mut src, tier);
    match r {
        Ok(()) => {
            println!("OK labels={:?} desc={}", info.labels, info.desc);
            0
        }
        Err(f) => {
            println!("FAIL sig={} msg={} desc={}", f.sig, f.msg, info.desc);
            10
        }
    }
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn is_crash_signal(sig: i32) -> bool {
    matches!(
        sig,
        libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP
    )
}

fn self_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

enum Alone {
    Ends,
    Endless,
    Killed(i32),
}

fn crash_of_choices(id: &str, tier: Tier, dir: &Path, choices: &[u64]) -> Option<i32> {
    match run_alone(id, tier, dir, choices, Duration::from_secs(60))? {
        Alone::Killed(s) => Some(s),
        _ => None,
    }
}

fn run_alone(id: &str, tier: Tier, dir: &Path, choices: &[u64], limit: Duration) -> Option<Alone> {
    let f = dir.join("cand.choices");
    let mut t = String::new();
    for c in choices {
        t.push_str(&format!("{c}\n"));
    }
    std::fs::write(&f, t).unwrap();
    let mut c = Command::new(self_exe())
        .args(["one", id, "--tier", tier_name(tier), "--choices"])
        .arg(&f)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    Some(match wait_timeout(&mut c, limit) {
        None => Alone::Endless,
        Some(s) => match s.signal().filter(|x| is_crash_signal(*x)) {
            Some(x) => Alone::Killed(x),
            None => Alone::Ends,
        },
    })
}

/// Finds out whether case `idx` alone kills its process, and shrinks it.
fn confirm_crash(p: &Prop, tier: Tier, seed: u64, idx: u64, dir: &Path) -> Option<Value> {
    let journal = dir.join("journal");
    let mut sigs = vec![];
    for _ in 0..2 {
        let mut c = Command::new(self_exe())
            .args(["one", p.id, "--tier", tier_name(tier), "--seed", &seed.to_string(), "--case", &idx.to_string(), "--journal"])
            .arg(&journal)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        let s = wait_timeout(&mut c, Duration::from_secs(120))?;
        sigs.push(s.signal().filter(|x| is_crash_signal(*x))?);
    }
    let mut best: Vec<u64> = std::fs::read_to_string(&journal)
        .ok()?
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect();
    let sig = sigs[0];
    let start = Instant::now();
    let budget = Duration::from_secs(30);
    let mut size = (best.len() / 2).max(1);
    while size >= 1 && start.elapsed() < budget {
        let mut i = 0;
        while i + size <= best.len() && start.elapsed() < budget {
            let mut c = best.clone();
            c.drain(i..i + size);
            if crash_of_choices(p.id, tier, dir, &c) == Some(sig) {
                best = c;
            } else {
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    Some(json!({
        "property": p.id, "tier": tier_name(tier), "seed": seed, "case": idx,
        "signature": format!("process killed by signal {sig}"),
        "message": format!("the process running the case is killed by signal {sig} (abort, memory error or stack overflow)"),
        "crash": true, "choices": best,
    }))
}

/// A case without progress for this long is run again alone.
const STALL: Duration = Duration::from_secs(90);
/// Cases take milliseconds; one that alone needs this much does not end.
const ENDLESS: Duration = Duration::from_secs(75);

/// Finds out whether case `idx` alone never ends (or fails: its worker may be
/// stuck in a candidate of the shrinking).
fn confirm_hang(p: &Prop, tier: Tier, seed: u64, idx: u64, dir: &Path) -> Option<Value> {
    let journal = dir.join("journal.hang");
    let out = dir.join("hang.out");
    let mut c = Command::new(self_exe())
        .args(["one", p.id, "--tier", tier_name(tier), "--seed", &seed.to_string(), "--case", &idx.to_string(), "--journal"])
        .arg(&journal)
        .stdout(std::fs::File::create(&out).ok()?)
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let status = wait_timeout(&mut c, ENDLESS);
    let choices: Vec<u64> = std::fs::read_to_string(&journal)
        .ok()?
        .lines()
        .filter_map(|l| l.parse().ok())
        .collect();
    let (sig, msg, hang) = match status {
        None => (
            "does not terminate".to_string(),
            format!("the case does not end within {} s", ENDLESS.as_secs()),
            true,
        ),
        Some(s) if s.code() == Some(10) => {
            let t = std::fs::read_to_string(&out).unwrap_or_default();
            ("failure".to_string(), t.chars().take(600).collect(), false)
        }
        Some(_) => return None,
    };
    Some(json!({
        "property": p.id, "tier": tier_name(tier), "seed": seed, "case": idx,
        "signature": sig, "message": msg, "hang": hang, "choices": choices,
    }))
}

fn parent(args: &[String]) -> i32 {
    let id = args[1].clone();
    let Some(p) = props::find(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = tier_of(arg(args, "--tier"));
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = PathBuf::from(arg(args, "--verif").unwrap_or("/verif"));
    let start = Instant::now();
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let count = ((if tier == Tier::Quick { p.quick } else { p.thorough }) as f64 * scale) as u64;
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as u64;
    let workers = ncpu.clamp(2, 8).min(count.max(1));
    let dir = std::env::temp_dir().join(format!("lazcheck-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();

    let mut code = 0;
    let mut failure: Option<Value> = None;
    let mut errors: Vec<String> = vec![];

    // known findings are replayed first
    let known = known_sigs(&verif, &id);

    let mut kids: Vec<(u64, Option<Child>, (u64, Instant))> = (0..workers)
        .map(|w| {
            let c = Command::new(self_exe())
                .args([
                    "worker", &id, "--tier", tier_name(tier), "--seed", &seed.to_string(), "--w",
                    &w.to_string(), "--workers", &workers.to_string(), "--count",
                    &count.to_string(), "--dir",
                ])
                .arg(&dir)
                .arg("--verif")
                .arg(&verif)
                .spawn()
                .expect("cannot start worker");
            (w, Some(c), (u64::MAX, Instant::now()))
        })
        .collect();
    let read_progress = |w: u64| -> u64 {
        std::fs::read(dir.join(format!("progress.{w}")))
            .ok()
            .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
            .unwrap_or(u64::MAX)
    };
    let mut outs: Vec<Value> = vec![];
    loop {
        let mut running = 0;
        for (w, slot, prog) in kids.iter_mut() {
            let Some(c) = slot else { continue };
            match c.try_wait() {
                Ok(Some(s)) => {
                    *slot = None;
                    let out = std::fs::read_to_string(dir.join(format!("out.{w}")))
                        .ok()
                        .and_then(|t| serde_json::from_str::<Value>(&t).ok());
                    match (s.success(), out) {
                        (true, Some(v)) => {
                            if !v["failure"].is_null() && failure.is_none() {
                                failure = Some(v["failure"].clone());
                            }
                            outs.push(v);
                        }
                        _ => {
                            let idx = read_progress(*w);
                            match s.signal() {
                                Some(sig) if is_crash_signal(sig) => {
                                    match confirm_crash(p, tier, seed, idx, &dir) {
                                        Some(v) => {
                                            if failure.is_none() {
                                                failure = Some(v)
                                            }
                                        }
                                        None => errors.push(format!(
                                            "worker {w} killed by signal {sig} at case {idx}, not reproduced alone"
                                        )),
                                    }
                                }
                                _ => errors.push(format!("worker {w} ended with {s} at case {idx}")),
                            }
                        }
                    }
                }
                Ok(None) => {
                    running += 1;
                    let cur = read_progress(*w);
                    if cur != prog.0 {
                        *prog = (cur, Instant::now());
                    } else if prog.1.elapsed() > STALL {
                        let _ = c.kill();
                        let _ = c.wait();
                        *slot = None;
                        match confirm_hang(p, tier, seed, cur, &dir) {
                            Some(v) => {
                                if failure.is_none() {
                                    failure = Some(v)
                                }
                            }
                            None => errors
                                .push(format!("worker {w} makes no progress at case {cur}")),
                        }
                    }
                }
                Err(e) => {
                    errors.push(format!("wait: {e}"));
                    *slot = None;
                }
            }
        }
        if failure.is_some() || running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (_, slot, _) in kids.iter_mut() {
        if let Some(c) = slot {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    // merge
    let mut evaluations = 0u64;
    let mut checks = 0u64;
    let slowest = outs.iter().map(|v| &v["slowest"]).max_by_key(|v| v[0].as_u64()).cloned().unwrap_or(Value::Null);
    let mut nontrivial = 0u64;
    let mut digests = std::collections::HashSet::new();
    let mut labels: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: std::collections::BTreeMap<String, u64> = Default::default();
    for v in &outs {
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        checks += v["checks"].as_u64().unwrap_or(0);
        nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
        for d in v["digests"].as_array().into_iter().flatten() {
            digests.insert(d.as_u64().unwrap_or(0));
        }
        for (k, n) in v["labels"].as_object().into_iter().flatten() {
            *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if samples.len() < 12 {
                samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        for (k, n) in v["known"].as_object().into_iter().flatten() {
            *known_hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }

    if let Some(f) = &failure {
        let rdir = verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.json", id, seed, f["case"].as_u64().unwrap_or(0)));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(f).unwrap());
        println!(
            "failure: {} :: {}",
            f["signature"].as_str().unwrap_or(""),
            f["message"].as_str().unwrap_or("")
        );
        println!("VIOLATION property={} replay={}", id, path.display());
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        code = 2;
    } else {
        for (sig, what) in &known {
            println!("KNOWN-FINDING: property={id} {what} [{sig}] (hits this run: {})", known_hits.get(sig).copied().unwrap_or(0));
        }
    }

    let wall = start.elapsed().as_secs_f64();
    if code != 2 {
        let ev = json!({
            "property": id, "tier": tier_name(tier), "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": digests.len(),
                "rule": p.rule,
                "samples": samples,
                "nontrivial": nontrivial,
                "oracle_comparisons": checks,
                "labels": labels,
                "known_finding_hits": known_hits,
                "workers": workers,
                "planned_cases": count,
                "slowest_case": {"ms": slowest[0], "case": slowest[1]},
            },
            "assumptions": p.assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": if failure.is_some() { 1 } else { 0 },
        });
        let edir = verif.join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        let mut f = std::fs::File::create(edir.join(format!("{id}.json"))).unwrap();
        f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    }
    println!(
        "{id} {}: {evaluations} cases ({} distinct non-trivial), {checks} oracle comparisons, {wall:.1} s",
        tier_name(tier),
        digests.len()
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn replay(args: &[String]) -> i32 {
    install_panic_hook();
    let t = match std::fs::read_to_string(&args[1]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&t).expect("replay file");
    let id = v["property"].as_str().unwrap();
    let p = props::find(id).expect("unknown property");
    let tier = tier_of(v["tier"].as_str());
    let choices: Vec<u64> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    if v["crash"] == true {
        let dir = std::env::temp_dir().join(format!("lazcheck-replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let r = crash_of_choices(id, tier, &dir, &choices);
        let _ = std::fs::remove_dir_all(&dir);
        return match r {
            Some(s) => {
                println!("reproduced: killed by signal {s}");
                println!("VIOLATION property={id} replay={}", args[1]);
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        };
    }
    if v["hang"] == true {
        let dir = std::env::temp_dir().join(format!("lazcheck-replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let r = run_alone(id, tier, &dir, &choices, ENDLESS);
        let _ = std::fs::remove_dir_all(&dir);
        return match r {
            Some(Alone::Endless) => {
                println!("reproduced: does not end within {} s", ENDLESS.as_secs());
                println!("VIOLATION property={id} replay={}", args[1]);
                1
            }
            _ => {
                println!("not reproduced");
                0
            }
        };
    }
    let mut src = Src::replay(choices);
    let (r, info) = run_case(p.f, &mut src, tier);
    println!("case: {}", info.desc);
    match r {
        Ok(()) => {
            println!("not reproduced: the case passes");
            0
        }
        Err(f) => {
            println!("reproduced: {} :: {}", f.sig, f.msg);
            println!("VIOLATION property={id} replay={}", args[1]);
            1
        }
    }
}
