//! Spreads the cases of a property over worker processes, attributes crashes and budget
//! overruns to cases, confirms them, and writes evidence and replay files.
use crate::ctx::*;
use crate::props::{self, Prop};
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const MEM_LIMIT: u64 = 2 << 30;
pub const CPU_LIMIT: f64 = 25.0;

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// CPU seconds used by this process
pub fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 13 {
        return 0.0;
    }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

#[derive(Debug)]
pub enum Out {
    Ok,
    Violation(String),
    /// a panic inside the harness itself
    Harness(String),
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

/// run one case, panics caught
pub fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, idx: u64) -> Out {
    ctx.idx = idx;
    let mut r = Rng::for_case(p.id, seed, idx);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(ctx, &mut r)));
    match res {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(m)) => Out::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            // file!() paths of this crate are relative ("src/..."), those of /repo absolute
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Out::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Out::Violation(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

/// worker <ID> <seed> <thorough 0/1> <from> <to> <stride> <deadline_s> <outfile>
pub fn worker(a: &[&str]) -> i32 {
    let [id, seed, th, from, to, stride, deadline, out] = a else { return 2 };
    let p = props::find(id).expect("property");
    let (seed, from, to, stride): (u64, u64, u64, u64) = (seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), stride.parse().unwrap());
    let deadline: f64 = deadline.parse().unwrap();
    let out = out.to_string();
    let thorough = *th == "1";
    if std::env::var("BNFMON_NOTE").is_ok() {
        let _ = NOTE_FILE.set(format!("{out}.note"));
    }
    install_hook();
    LIMIT.store(MEM_LIMIT, SeqCst);
    let cur = Arc::new(AtomicU64::new(u64::MAX));
    let done = Arc::new(AtomicBool::new(false));
    // CPU watchdog
    {
        let (cur, done, out) = (cur.clone(), done.clone(), out.clone());
        let limit = if p.cpu > 0.0 { p.cpu } else { CPU_LIMIT };
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut at = cpu();
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let c = cur.load(SeqCst);
                let now = cpu();
                if c != last {
                    last = c;
                    at = now;
                } else if now - at > limit {
                    let _ = std::fs::write(format!("{out}.cur"), format!("{c}"));
                    std::process::exit(97);
                }
            }
        });
    }
    let (c2, o2) = (cur.clone(), out.clone());
    let th = std::thread::Builder::new()
        .stack_size(std::env::var("BNFMON_STACK").ok().and_then(|s| s.parse::<usize>().ok()).unwrap_or(256) << 20)
        .spawn(move || {
            let mut ctx = Ctx { thorough, ..Default::default() };
            let mut verdict = Out::Ok;
            let mut vidx = 0;
            let t0 = Instant::now();
            let prog = std::fs::File::create(format!("{o2}.cur")).expect("progress file");
            let mut idx = from;
            let mut cases = 0u64;
            while idx < to {
                if t0.elapsed().as_secs_f64() > deadline && cases > 0 {
                    ctx.event("stopped_at_time_cap");
                    break;
                }
                c2.store(idx, SeqCst);
                {
                    use std::os::unix::fs::FileExt;
                    let _ = prog.write_all_at(format!("{idx:020}").as_bytes(), 0);
                }
                verdict = run_case(p, &mut ctx, seed, idx);
                cases += 1;
                if !matches!(verdict, Out::Ok) {
                    vidx = idx;
                    break;
                }
                idx += stride;
            }
            ctx.add("cases", cases);
            (ctx, verdict, vidx)
        })
        .expect("thread");
    let (ctx, verdict, vidx) = th.join().expect("worker thread");
    done.store(true, SeqCst);
    let mut hashes: Vec<u8> = Vec::with_capacity(ctx.nontriv.len() * 8);
    for x in &ctx.nontriv {
        hashes.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{out}.hash"), hashes).expect("write");
    let (kind, msg) = match &verdict {
        Out::Ok => ("ok", String::new()),
        Out::Violation(m) => ("violation", m.clone()),
        Out::Harness(m) => ("harness", m.clone()),
    };
    let ev: BTreeMap<&str, u64> = ctx.ev.clone();
    std::fs::write(
        &out,
        json!({"kind": kind, "msg": msg, "idx": vidx, "evals": ctx.evals, "events": ev, "samples": ctx.samples}).to_string(),
    )
    .expect("write");
    match verdict {
        Out::Ok => 0,
        Out::Violation(_) => 3,
        Out::Harness(_) => 4,
    }
}

pub fn scratch() -> PathBuf {
    let d = verif().join("scratch").join(format!("w{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

enum WorkerEnd {
    Done(Value, HashSet<u64>),
    Died(String, Option<u64>),
}

fn collect(out: &Path, st: std::process::ExitStatus) -> WorkerEnd {
    use std::os::unix::process::ExitStatusExt;
    let code = st.code();
    if matches!(code, Some(0 | 3 | 4)) {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(out).unwrap_or_default()).unwrap_or(Value::Null);
        let mut hs = HashSet::new();
        for c in std::fs::read(format!("{}.hash", out.display())).unwrap_or_default().chunks(8) {
            if let Ok(b) = c.try_into() {
                hs.insert(u64::from_le_bytes(b));
            }
        }
        return WorkerEnd::Done(v, hs);
    }
    let cur = std::fs::read_to_string(format!("{}.cur", out.display())).ok().and_then(|s| s.trim().trim_start_matches('0').parse().ok().or(Some(0)));
    let why = match code {
        Some(97) => "CPU budget exceeded: the case does not end".to_string(),
        Some(98) => "memory budget exceeded".to_string(),
        Some(c) => format!("worker exited with code {c}"),
        None => format!("worker killed by signal {}", st.signal().unwrap_or(0)),
    };
    WorkerEnd::Died(why, cur)
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("current exe")
}

/// run a single case in its own process; Some(reason) if it fails
fn confirm(p: &Prop, seed: u64, idx: u64, thorough: bool, dir: &Path) -> Result<Option<String>, String> {
    let out = dir.join(format!("confirm-{idx}"));
    let mut ch = Command::new(exe())
        .args(["worker", p.id, &seed.to_string(), if thorough { "1" } else { "0" }, &idx.to_string(), &(idx + 1).to_string(), "1", "1e9"])
        .arg(&out)
        .env("BNFMON_NOTE", "1")
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(300) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("wall-clock watchdog while confirming".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    match collect(&out, st) {
        WorkerEnd::Done(v, _) => match v["kind"].as_str() {
            Some("violation") => Ok(Some(v["msg"].as_str().unwrap_or("").to_string())),
            Some("harness") => Err(v["msg"].as_str().unwrap_or("").to_string()),
            _ => Ok(None),
        },
        WorkerEnd::Died(w, _) => {
            let n = std::fs::read_to_string(format!("{}.note", out.display())).unwrap_or_default();
            Ok(Some(if n.is_empty() { w } else { format!("{w}\nlast handed to the crate:\n{n}") }))
        }
    }
}

pub struct Report {
    pub violations: Vec<(String, Value)>,
    pub inconclusive: Vec<String>,
    pub known: Vec<String>,
    pub events: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
}

pub fn write_replay(id: &str, v: &Value) -> PathBuf {
    let d = verif().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{id}-{}.json", crate::rng::hash_str(&v.to_string()) % 1_000_000));
    let _ = std::fs::write(&f, serde_json::to_string_pretty(v).unwrap());
    f
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("no such property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let seed = seed();
    let scale = std::env::var("BNFMON_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let total = (((if thorough { p.thorough } else { p.quick }) as f64) * scale).max(1.0) as u64;
    let cap = if thorough { 1500.0 } else { 120.0 };
    let dir = scratch();
    let mut rep = Report { violations: vec![], inconclusive: vec![], known: vec![], events: BTreeMap::new(), evals: 0, distinct: 0, samples: vec![] };
    let nw = 8u64.min(total);
    let mut kids = vec![];
    for w in 0..nw {
        let out = dir.join(format!("out{w}"));
        let err = std::fs::File::create(dir.join(format!("err{w}"))).expect("err");
        let ch = Command::new(exe())
            .args(["worker", p.id, &seed.to_string(), if thorough { "1" } else { "0" }, &w.to_string(), &total.to_string(), &nw.to_string(), &cap.to_string()])
            .arg(&out)
            .stderr(err)
            .spawn()
            .expect("spawn worker");
        kids.push((w, out, ch));
    }
    let mut hashes: HashSet<u64> = HashSet::new();
    let wall = Duration::from_secs_f64(cap * 1.5 + 240.0);
    for (w, out, mut ch) in kids {
        let st = loop {
            match ch.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) => {}
                Err(_) => break None,
            }
            if t0.elapsed() > wall {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        let Some(st) = st else {
            rep.inconclusive.push(format!("worker {w}: wall-clock watchdog"));
            continue;
        };
        match collect(&out, st) {
            WorkerEnd::Done(v, hs) => {
                rep.evals += v["evals"].as_u64().unwrap_or(0);
                hashes.extend(hs);
                if let Some(m) = v["events"].as_object() {
                    for (k, n) in m {
                        let e = rep.events.entry(k.clone()).or_default();
                        let n = n.as_u64().unwrap_or(0);
                        if k.starts_with("max_") { *e = (*e).max(n) } else { *e += n }
                    }
                }
                if rep.samples.len() < 4 {
                    for s in v["samples"].as_array().into_iter().flatten().take(1) {
                        rep.samples.push(s.as_str().unwrap_or("").to_string());
                    }
                }
                let idx = v["idx"].as_u64().unwrap_or(0);
                match v["kind"].as_str() {
                    Some("violation") => {
                        let again = confirm(p, seed, idx, thorough, &dir);
                        let m = v["msg"].as_str().unwrap_or("").to_string();
                        rep.violations.push((m.clone(), json!({"property": p.id, "seed": seed, "case": idx, "thorough": thorough, "what": m, "repeated_alone": matches!(again, Ok(Some(_)))})));
                    }
                    Some("harness") => rep.inconclusive.push(v["msg"].as_str().unwrap_or("").to_string()),
                    _ => {}
                }
            }
            WorkerEnd::Died(why, Some(idx)) => match confirm(p, seed, idx, thorough, &dir) {
                Ok(Some(m)) => {
                    let m = format!("{m} (first seen: {why})");
                    rep.violations.push((m.clone(), json!({"property": p.id, "seed": seed, "case": idx, "thorough": thorough, "what": m, "repeated_alone": true})));
                }
                Ok(None) => rep.inconclusive.push(format!("worker {w} died in case {idx} ({why}) but the case alone is fine")),
                Err(e) => rep.inconclusive.push(e),
            },
            WorkerEnd::Died(why, None) => rep.inconclusive.push(format!("worker {w}: {why}")),
        }
    }
    rep.distinct = hashes.len() as u64;
    if let Some(x) = p.extra
        && rep.violations.is_empty()
    {
        x(&mut rep, seed, thorough);
    }
    let _ = std::fs::remove_dir_all(&dir);
    finish(p.id, p.rule, tier, seed, rep, t0, p.need)
}

pub fn finish(id: &str, rule: &str, tier: &str, seed: u64, mut rep: Report, t0: Instant, need: &[(&str, u64)]) -> i32 {
    if rep.violations.is_empty() && std::env::var("BNFMON_SCALE").is_err() {
        for (k, n) in need {
            if rep.events.get(*k).copied().unwrap_or(0) < *n {
                rep.inconclusive.push(format!("observed only {} of event {k}, need {n}", rep.events.get(*k).copied().unwrap_or(0)));
            }
        }
        if rep.distinct < 2 {
            rep.inconclusive.push("nothing non-trivial observed".into());
        }
    }
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evals,
            "distinct_nontrivial": rep.distinct,
            "rule": rule,
            "samples": rep.samples,
            "observed_events": rep.events,
            "known_findings_reproduced": rep.known,
            "inconclusive": rep.inconclusive,
        },
        "assumptions": ["held on the executions observed in this run; nothing is claimed about executions the workload did not drive"],
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": rep.violations.len(),
    });
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!("{id} {tier} seed={seed}: {} evaluations, {} distinct non-trivial, {:.1}s", rep.evals, rep.distinct, t0.elapsed().as_secs_f64());
    let evs: Vec<String> = rep.events.iter().map(|(k, v)| format!("{k}={v}")).collect();
    println!("  observed: {}", evs.join(" "));
    for k in &rep.known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    if !rep.violations.is_empty() {
        for (m, v) in &rep.violations {
            println!("  {}", printable(m).replace('\n', "\n  "));
            let f = write_replay(id, v);
            println!("VIOLATION property={id} replay={}", f.display());
        }
        return 1;
    }
    if !rep.inconclusive.is_empty() {
        for m in &rep.inconclusive {
            println!("INCONCLUSIVE {id}: {m}");
        }
        return 2;
    }
    println!("{id}: held on everything observed");
    0
}

/// control characters other than line breaks, written as escapes
pub fn printable(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_control() && c != '\n' { c.escape_default().collect::<Vec<_>>() } else { vec![c] }).collect()
}

pub fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props::find(id) else { return 2 };
    let Some(idx) = v["case"].as_u64() else {
        println!("{}", serde_json::to_string_pretty(&v).unwrap());
        return 0;
    };
    let dir = scratch();
    let r = confirm(p, v["seed"].as_u64().unwrap_or(1), idx, v["thorough"].as_bool().unwrap_or(false), &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(Some(m)) => {
            println!("{}\nVIOLATION property={id} replay={file}", printable(&m));
            1
        }
        Ok(None) => {
            println!("does not fail");
            0
        }
        Err(e) => {
            println!("{e}");
            2
        }
    }
}

/// run a child of this binary with limits; (stdout, description of how it ended, ended normally with 0)
pub fn child(args: &[&str], wall: u64) -> (String, String, bool) {
    use std::io::Read;
    let mut ch = match Command::new(exe()).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (String::new(), e.to_string(), false),
    };
    let mut so = ch.stdout.take().expect("stdout");
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return (String::new(), e.to_string(), false),
        }
        if t0.elapsed() > Duration::from_secs(wall) {
            let _ = ch.kill();
            let _ = ch.wait();
            return (rd.join().unwrap_or_default(), "wall-clock watchdog".into(), false);
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let s = rd.join().unwrap_or_default();
    use std::os::unix::process::ExitStatusExt;
    let how = match (st.code(), st.signal()) {
        (Some(97), _) => "cpu-budget".to_string(),
        (Some(98), _) => "memory-budget".to_string(),
        (Some(c), _) => format!("exit {c}"),
        (None, Some(s)) => format!("signal {s}"),
        _ => "unknown".into(),
    };
    (s, how, st.code() == Some(0))
}
