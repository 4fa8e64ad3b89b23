//! Parent/worker orchestration: runs a property in child processes, attributes crashes to a
//! single generated case, writes replay and evidence files.
use crate::engine::*;
use crate::guided::Now;
use crate::props;
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}
pub fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
fn scale() -> f64 {
    std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
/// how many times the base case counts of a property fit its quick run (about 20 s on 8 cores)
fn multiplier(id: &str) -> u64 {
    match id {
        "C01" | "C04" | "C06" | "C17" | "C18" => 27,
        "C02" | "C09" => 34,
        "C03" | "C24" => 3,
        "C05" => 4,
        "C15" => 5,
        "C07" | "C16" | "C23" => 18,
        "C25" => 9,
        "C26" => 15,
        "C08" => 50,
        "C10" | "C11" => 6,
        "C12" => 5,
        "C13" => 11,
        "C14" => 13,
        "C19" | "C21" => 60,
        "C20" => 80,
        "C22" => 9,
        _ => 1,
    }
}
pub fn failure_json(f: &Failure) -> Value {
    json!({"sub": f.sub, "case": f.idx, "message": f.msg, "choices": f.choices, "original": f.original, "history": f.history, "input": f.sample, "shrink_steps": f.shrink_steps})
}

/// worker ID SEED TIER OUT JOURNAL
pub fn worker(a: &[String]) -> i32 {
    crate::selftest::run();
    install_hook();
    // the oracles built on the allocation hooks are blind without them
    let (_, peak) = crate::alloc::peak_of(|| std::hint::black_box(vec![1u8; 1 << 20]));
    assert!(peak >= 1 << 20, "allocation hooks are not in effect");
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let j = Journal::open(&a[4]);
    let mut st = Stats::default();
    let mut fails = Vec::new();
    let only = std::env::var("VH_SUB").ok();
    let profile = std::env::var("VH_PROFILE").unwrap_or("dev".into());
    for (si, s) in p.subs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !s.name.contains(o.as_str())) {
            continue;
        }
        let n = if thorough { s.thorough } else { s.quick };
        let n = ((n as f64 * scale()) as u64).max(1) * multiplier(p.id);
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("[{}] {} x{}", p.id, s.name, n);
        }
        if let Some(f) = run_sub(p.id, si, s, n, seed, &mut st, j.as_ref()) {
            fails.push(failure_json(&f));
            if fails.len() >= 3 {
                break;
            }
        }
    }
    let out = json!({"profile": profile, "evaluations": st.evals, "nontrivial": st.nontrivial, "distinct": st.distinct.len(),
        "labels": st.labels, "samples": st.samples, "subs": st.subs, "failures": fails});
    props::derive::cleanup();
    std::fs::write(&a[3], serde_json::to_vec(&out).unwrap()).unwrap();
    0
}

/// single ID SEED SUB CASE LOG  (or SUB "choices" FILE, which holds [cases before, choices])
pub fn single(a: &[String]) -> i32 {
    install_hook();
    let p = prop(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let si: usize = a[2].parse().unwrap();
    let s = &p.subs[si];
    let idx: u64 = a[3].parse().unwrap_or(0);
    let mut before: Vec<Vec<u64>> = Vec::new();
    let mut near = false;
    let mut log = None;
    let mut src = if a[3] == "choices" {
        let v: Value = serde_json::from_slice(&std::fs::read(&a[4]).unwrap()).unwrap();
        let (b, c): (Vec<Vec<u64>>, Vec<u64>) = serde_json::from_value(v).unwrap();
        before = b;
        Src::replay(c)
    } else if a[3] == "words" {
        let v: Value = serde_json::from_slice(&std::fs::read(&a[4]).unwrap()).unwrap();
        let (kind, w): (u64, Vec<u64>) = serde_json::from_value(v).unwrap();
        let mut src = if kind == 1 { Src::rand(w[0]) } else { Src::mutated(w[1..].to_vec(), w[0]) };
        src.log_to(std::fs::File::create(&a[5]).unwrap());
        src
    } else {
        log = a.get(4).map(|l| std::fs::File::create(l).unwrap());
        near = idx & AFTER != 0;
        let mut src = Src::rand(case_seed(seed, p.id, &s.name, idx & !AFTER));
        if !near {
            log.take().map(|l| src.log_to(l));
        }
        src
    };
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || {
                for b in before {
                    let _ = run_case(s, &mut Src::replay(b), &mut Cx::new(false));
                }
                if near {
                    let _ = run_case(s, &mut src, &mut Cx::new(false));
                    src = neighbour(seed, p.id, &s.name, idx & !AFTER, &src.rec);
                    log.take().map(|l| src.log_to(l));
                }
                let mut cx = Cx::new(true);
                let r = run_case(s, &mut src, &mut cx);
                (r, cx.sample)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    props::derive::cleanup();
    if let Some(x) = r.1 {
        println!("input: {x}");
    }
    match r.0 {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("fails: {m}");
            1
        }
    }
}

fn wait_for(c: &mut std::process::Child, deadline: Instant) -> Option<std::process::ExitStatus> {
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if Instant::now() > deadline {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(_) => return None,
        }
    }
}

const NONE: [Vec<u64>; 0] = [];
/// Runs a failing case again in a process of its own. One that only fails after others is recorded
/// with the ones it takes.
fn settle(bin: &str, id: &str, si: usize, f: &mut Value, tmp: &str) {
    let list = |v: &Value| -> Vec<u64> { serde_json::from_value(v.clone()).unwrap_or_default() };
    let (small, full) = (list(&f["choices"]), list(&f["original"]));
    let past: Vec<Vec<u64>> = serde_json::from_value(f["history"].clone()).unwrap_or_default();
    let o = f.as_object_mut().unwrap();
    o.remove("original");
    o.remove("history");
    let file = format!("{tmp}/settle.json");
    let end = Instant::now() + Duration::from_secs(90);
    let holds = |before: &[Vec<u64>], c: &[u64]| -> bool {
        std::fs::write(&file, serde_json::to_vec(&(before, c)).unwrap()).unwrap();
        let c = Command::new(bin).args(["single", id, "0", &si.to_string(), "choices", &file]).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
        match c.map(|mut c| wait_for(&mut c, end)) {
            Ok(Some(s)) => s.code() == Some(0),
            _ => true,
        }
    };
    for (before, c) in [(vec![], &small), (past.clone(), &small), (vec![], &full), (past, &full)] {
        if holds(&before, c) {
            continue;
        }
        let mut before = before;
        let mut i = 0;
        while i < before.len() {
            let mut fewer = before.clone();
            fewer.remove(i);
            if holds(&fewer, c) {
                i += 1;
            } else {
                before = fewer;
            }
        }
        if !before.is_empty() {
            let m = f["message"].as_str().unwrap_or_default().replace(" (did not reproduce from recorded choices)", "");
            f["message"] = json!(format!("{m} (after {} other case{} on the same thread)", before.len(), if before.len() == 1 { "" } else { "s" }));
        }
        f["choices"] = json!(c);
        f["before"] = json!(before);
        return;
    }
}

/// how long one case may stay in a worker before it is run again on its own, and how much processor
/// time it may then use; ordinary cases take milliseconds
const STUCK: Duration = Duration::from_secs(60);

/// Waits for a worker; a case that does not finish there nor on its own is a hang.
fn watch(c: &mut std::process::Child, deadline: Instant, jn: &str, alone: impl Fn(u64, u64) -> bool) -> Result<Option<std::process::ExitStatus>, (u64, u64)> {
    let mut at: Vec<(Option<(u64, u64)>, Instant)> = vec![(None, Instant::now()); Journal::SLOTS];
    loop {
        let step = (Instant::now() + Duration::from_secs(5)).min(deadline);
        match wait_or(c, step) {
            Some(s) => return Ok(s),
            None if Instant::now() >= deadline => {
                let _ = c.kill();
                let _ = c.wait();
                return Ok(None);
            }
            None => {}
        }
        for (i, now) in Journal::slots(jn).into_iter().enumerate().take(Journal::SLOTS - 1) {
            if now != at[i].0 {
                at[i] = (now, Instant::now());
            } else if let (Some((si, case)), true) = (now, at[i].1.elapsed() > STUCK) {
                if alone(si, case) {
                    at[i].1 = Instant::now();
                } else {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Err((si, case));
                }
            }
        }
    }
}
/// the exit status, or nothing at the given time
fn wait_or(c: &mut std::process::Child, until: Instant) -> Option<Option<std::process::ExitStatus>> {
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(Some(s)),
            Ok(None) if Instant::now() > until => return None,
            Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            Err(_) => return Some(None),
        }
    }
}
/// Whether a case ends on its own: it does not if it burns `STUCK` of processor time. Elapsed time
/// alone (a busy or suspended machine) never counts against it.
fn ends(bin: &str, id: &str, seed: u64, si: u64, case: u64, log: &str) -> bool {
    let mut c = Command::new(bin);
    c.args(["single", id, &seed.to_string(), &si.to_string(), &case.to_string(), log]).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: STUCK.as_secs(), rlim_max: STUCK.as_secs() + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    match c.spawn() {
        Ok(mut c) => match wait_for(&mut c, Instant::now() + 3 * STUCK) {
            Some(s) => s.signal() != Some(libc::SIGXCPU),
            None => true,
        },
        Err(_) => true,
    }
}

fn crash_case(bin: &str, id: &str, seed: u64, si: u64, case: &str, file: &str) -> Option<i32> {
    let mut c = Command::new(bin)
        .args(["single", id, &seed.to_string(), &si.to_string(), case, file])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let s = wait_for(&mut c, Instant::now() + Duration::from_secs(60))?;
    s.signal()
}

/// The coverage-guided stage: eight single-threaded processes.
#[allow(clippy::too_many_arguments)]
fn guided(p: &Prop, bin: &str, seed: u64, secs: f64, deadline: Instant, tmp: &str, results: &mut Vec<Value>, violations: &mut Vec<(String, Value)>, error: &mut Option<String>, edges: &mut u64) {
    struct Part {
        c: std::process::Child,
        out: String,
        now: String,
        at: (u64, Instant),
        done: bool,
    }
    let mut parts: Vec<Part> = Vec::new();
    for k in 0..8 {
        let (out, now) = (format!("{tmp}/guided-{k}.json"), format!("{tmp}/now-{k}"));
        match Command::new(bin).args(["guided", p.id, &seed.to_string(), &k.to_string(), &secs.to_string(), &out, &now]).spawn() {
            Ok(c) => parts.push(Part { c, out, now, at: (0, Instant::now()), done: false }),
            Err(e) => *error = Some(format!("cannot start worker: {e}")),
        }
    }
    let (words, log) = (format!("{tmp}/words.json"), format!("{tmp}/choices.bin"));
    let alone = |si: u64, cpu: u64| -> Option<std::process::ExitStatus> {
        let mut c = Command::new(bin);
        c.args(["single", p.id, "0", &si.to_string(), "words", &words, &log]).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                Ok(())
            });
        }
        c.spawn().ok().and_then(|mut c| wait_for(&mut c, Instant::now() + 3 * STUCK))
    };
    let (mut sum, mut kept) = ([0u64; 3], 0);
    let mut bad: Vec<Value> = Vec::new();
    while bad.is_empty() && error.is_none() && parts.iter().any(|x| !x.done) {
        for x in parts.iter_mut().filter(|x| !x.done) {
            let ended = x.c.try_wait().unwrap_or(None);
            let stuck = ended.is_none() && {
                let n = Now::peek(&x.now);
                if n != x.at.0 {
                    x.at = (n, Instant::now());
                }
                x.at.1.elapsed() > STUCK
            };
            if stuck || ended.is_some_and(|s| s.signal().is_some()) {
                let (_, kind, si, w) = Now::read(&x.now);
                std::fs::write(&words, serde_json::to_vec(&(kind, w)).unwrap()).unwrap();
                let sig = alone(si, STUCK.as_secs()).and_then(|s| s.signal());
                let b = std::fs::read(&log).unwrap_or_default();
                let ch: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                let what = match sig {
                    Some(libc::SIGXCPU) => format!("still running after {} s of processor time", STUCK.as_secs()),
                    Some(s) => format!("process killed by signal {s} (stack overflow, abort or out-of-memory) while running this case"),
                    None if stuck => {
                        x.at.1 = Instant::now();
                        continue;
                    }
                    None => {
                        *error = Some("a guided worker died by a signal but no single case reproduces it".into());
                        break;
                    }
                };
                bad.push(json!({"sub": p.subs[si as usize].name, "case": 0, "profile": "dev", "message": what, "choices": ch, "shrink_steps": 0}));
                break;
            }
            match ended {
                Some(s) if s.success() => {
                    x.done = true;
                    let v: Value = serde_json::from_slice(&std::fs::read(&x.out).unwrap()).unwrap();
                    for (t, k) in sum.iter_mut().zip(["evaluations", "nontrivial", "distinct"]) {
                        *t += v[k].as_u64().unwrap_or(0);
                    }
                    kept += v["kept"].as_u64().unwrap_or(0);
                    *edges = (*edges).max(v["edges"].as_u64().unwrap_or(0));
                    for f in v["failures"].as_array().unwrap() {
                        let mut f = f.clone();
                        f["profile"] = json!("dev");
                        if let Some(si) = p.subs.iter().position(|s| s.name == f["sub"].as_str().unwrap_or_default()) {
                            settle(bin, p.id, si, &mut f, tmp);
                        }
                        bad.push(f);
                    }
                }
                Some(s) => {
                    *error = Some(format!("guided worker failed: {s}"));
                    break;
                }
                None => {}
            }
        }
        if Instant::now() > deadline {
            *error = Some("the guided stage exceeded its time limit; inconclusive".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for x in &mut parts {
        let _ = x.c.kill();
        let _ = x.c.wait();
    }
    violations.extend(bad.into_iter().map(|f| (bin.to_string(), f)));
    results.push(json!({"profile": "dev, coverage-guided", "evaluations": sum[0], "nontrivial": sum[1], "distinct": sum[2], "labels": {}, "samples": [], "subs": [], "edges": edges, "kept": kept}));
}

pub fn check(a: &[String]) -> i32 {
    let id = &a[0];
    let t0 = Instant::now();
    let limit: u64 = std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier() == "quick" { 780 } else { 6 * 3600 });
    let deadline = t0 + Duration::from_secs(limit);
    let seed = env_seed();
    let tier = tier();
    let root = std::env::var("VH_ROOT").unwrap_or("/verif".into());
    let p = prop(id);
    let tmp = format!("{root}/target/tmp-{}-{}", id, std::process::id());
    let _ = std::fs::create_dir_all(&tmp);
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let mut profiles = vec![("dev", me.clone())];
    if let Ok(r) = std::env::var("VH_RELEASE_BIN") {
        profiles.push(("release", r));
    }
    let mut results: Vec<Value> = Vec::new();
    let mut violations: Vec<(String, Value)> = Vec::new();
    let mut error: Option<String> = None;
    for (pname, bin) in &profiles {
        let out = format!("{tmp}/out-{pname}.json");
        let jn = format!("{tmp}/journal-{pname}");
        let mut c = match Command::new(bin).env("VH_PROFILE", pname).args(["worker", id, &seed.to_string(), &tier, &out, &jn]).spawn() {
            Ok(c) => c,
            Err(e) => {
                error = Some(format!("cannot start worker: {e}"));
                break;
            }
        };
        let log = format!("{tmp}/choices.bin");
        // C24 runs the compiler, which takes its time
        let st = watch(&mut c, deadline, &jn, |si, case| id == "C24" || ends(bin, id, seed, si, case, &log));
        let st = match st {
            Ok(st) => st,
            Err((si, case)) => {
                let b = std::fs::read(&log).unwrap_or_default();
                let ch: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                violations.push((bin.clone(), json!({"sub": p.subs[si as usize].name, "case": case & !AFTER, "profile": pname,
                    "message": format!("still running after {} s of processor time on its own (and {0} s among others)", STUCK.as_secs()), "choices": ch, "shrink_steps": 0})));
                results.push(json!({"profile": pname, "evaluations": 1, "nontrivial": 1, "distinct": 1, "labels": {}, "samples": [], "subs": [], "failures": []}));
                break;
            }
        };
        match st {
            None => {
                error = Some(format!("worker ({pname}) exceeded its time limit; inconclusive"));
                break;
            }
            Some(s) if s.code() == Some(0) => {
                let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                for f in v["failures"].as_array().unwrap() {
                    let mut f = f.clone();
                    f["profile"] = json!(pname);
                    if let Some(si) = p.subs.iter().position(|s| s.name == f["sub"].as_str().unwrap_or_default()) {
                        settle(bin, id, si, &mut f, &tmp);
                    }
                    violations.push((bin.clone(), f));
                }
                results.push(v);
            }
            Some(s) if s.signal().is_some() => {
                // a crash: attribute it to one of the cases that were running
                let mut found = false;
                let shrinking = Instant::now();
                for (si, case) in Journal::read(&jn) {
                    let log = format!("{tmp}/choices.bin");
                    if let Some(sig) = crash_case(bin, id, seed, si, &case.to_string(), &log) {
                        let b = std::fs::read(&log).unwrap_or_default();
                        let mut ch: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                        // shrink in child processes
                        let cf = format!("{tmp}/cand.json");
                        let mut tries = 0;
                        let mut k = (ch.len() / 2).max(1);
                        while k >= 1 && tries < 200 && !ch.is_empty() && shrinking.elapsed().as_secs() < 120 {
                            let mut i = 0;
                            while i + k <= ch.len() && tries < 200 && shrinking.elapsed().as_secs() < 120 {
                                let mut cand = ch.clone();
                                cand.drain(i..i + k);
                                std::fs::write(&cf, serde_json::to_vec(&(NONE, &cand)).unwrap()).unwrap();
                                tries += 1;
                                if crash_case(bin, id, seed, si, "choices", &cf).is_some() {
                                    ch = cand;
                                } else {
                                    i += k;
                                }
                            }
                            k /= 2;
                        }
                        violations.push((bin.clone(), json!({"sub": p.subs[si as usize].name, "case": case & !AFTER, "profile": pname,
                            "message": format!("process killed by signal {sig} (stack overflow, abort or out-of-memory) while running this case"), "choices": ch, "shrink_steps": tries})));
                        found = true;
                        break;
                    }
                }
                if !found {
                    error = Some(format!("worker ({pname}) died by signal {:?} but no single case reproduces it", s.signal()));
                }
                if found {
                    results.push(json!({"profile": pname, "evaluations": 1, "nontrivial": 1, "distinct": 1, "labels": {}, "samples": [], "subs": [], "failures": []}));
                }
                break;
            }
            Some(s) => {
                error = Some(format!("worker ({pname}) failed: {s}"));
                break;
            }
        }
    }
    let mut edges = 0;
    if violations.is_empty() && error.is_none() && crate::cov::instrumented() && p.subs.iter().any(|s| s.guided) {
        let secs: f64 = std::env::var("VH_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 6.0 } else { 900.0 });
        if secs > 0.0 {
            guided(&p, &me, seed, secs, deadline, &tmp, &mut results, &mut violations, &mut error, &mut edges);
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // evidence
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut samples: Vec<Value> = results.iter().flat_map(|r| r["samples"].as_array().cloned().unwrap_or_default()).collect();
    samples.truncate(40);
    if samples.is_empty() {
        samples.push(json!("none"));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            // the release profile repeats the same generated inputs, so distinct inputs are counted once
            "distinct_nontrivial": results.iter().map(|r| r["distinct"].as_u64().unwrap_or(0)).max().unwrap_or(0),
            "rule": p.rule,
            "samples": samples,
            "profiles": results.iter().map(|r| json!({"profile": r["profile"], "evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct"], "sub_checks": r["subs"], "labels": r["labels"], "edges_reached": r["edges"], "inputs_kept": r["kept"]})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if !violations.is_empty() {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        for (_, f) in &violations {
            let name: String = f["sub"].as_str().unwrap().chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
            let path = format!("{root}/replays/{id}-{name}-{}.json", f["profile"].as_str().unwrap());
            let mut r = f.clone();
            r["property"] = json!(id);
            r["seed"] = json!(seed);
            r["replay_with"] = json!(format!("./replay.sh {path}"));
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            let msg: String = f["message"].as_str().unwrap().chars().take(400).collect();
            println!("[{}] {} ({}): {}", id, f["sub"].as_str().unwrap(), f["profile"].as_str().unwrap(), msg.replace('\n', " "));
            println!("VIOLATION property={id} replay={path}");
        }
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR property={id}: {e}");
        return 2;
    }
    println!(
        "OK property={id} tier={tier} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        seed as i64,
        sum("evaluations"),
        ev["coverage"]["distinct_nontrivial"],
        t0.elapsed().as_secs_f64()
    );
    0
}

/// replay FILE: re-runs the recorded choices against the current tree
pub fn replay(a: &[String]) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(&a[0]).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().unwrap();
    let p = prop(id);
    let si = p.subs.iter().position(|s| s.name == v["sub"].as_str().unwrap()).expect("sub-check");
    let tmp = format!("{}.choices", a[0]);
    let before = v.get("before").cloned().unwrap_or(json!([]));
    std::fs::write(&tmp, serde_json::to_vec(&(before, &v["choices"])).unwrap()).unwrap();
    let bin = match (v["profile"].as_str(), std::env::var("VH_RELEASE_BIN")) {
        (Some("release"), Ok(b)) => b,
        _ => std::env::current_exe().unwrap().to_string_lossy().to_string(),
    };
    let s = Command::new(bin).args(["single", id, "0", &si.to_string(), "choices", &tmp]).status().unwrap();
    let _ = std::fs::remove_file(&tmp);
    match s.code() {
        Some(0) => 0,
        Some(1) => 1,
        _ => {
            println!("fails: {s}");
            1
        }
    }
}
