//! C26: many threads over one shared grammar.
//! Everything that needs `Send`/`Sync` is behind the feature `threads`, so that a crate that
//! lost them fails to compile here and nowhere else.
use super::programs::*;
#[cfg(feature = "threads")]
use super::safety::Plan;
use super::safety::plan;
use crate::ctx::*;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::json;
use std::process::Command;
use std::time::Instant;

#[cfg(feature = "threads")]
mod inner {
    use super::super::generation::{Finish, Fuse, Strat};
    use super::*;
    use crate::oracle::tree_from;
    use bnf::rand::{SeedableRng, rngs::StdRng};
    use bnf::{Grammar, Term};
    use std::cell::RefCell;
    use std::collections::HashSet;
    use std::panic::{AssertUnwindSafe, catch_unwind};
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Barrier, Mutex};

    fn shareable<X: Send + Sync + 'static>() {}
    pub fn compile_time() {
        shareable::<bnf::Grammar>();
        shareable::<bnf::Production>();
        shareable::<bnf::Expression>();
        shareable::<bnf::Term>();
        shareable::<bnf::Error>();
    }

    /// the pieces of work; each is a function of the shared grammar and the plan alone
    fn tasks(p: &Plan) -> Vec<(u8, usize)> {
        let mut v = vec![];
        for k in 0..p.ins.len() {
            v.push((0, k));
            v.push((1, k));
        }
        for k in 0..if p.small { 2 } else { 6 } {
            v.push((2, k));
        }
        v.push((3, 0));
        v.push((4, 0));
        for k in 0..p.texts.len() {
            v.push((5, k));
        }
        if p.sub {
            v.push((6, 0));
        }
        v.push((7, 0));
        v.push((8, 0));
        v
    }

    fn pause(r: &mut Rng, noisy: bool) {
        if noisy {
            match r.below(6) {
                0 => std::thread::yield_now(),
                1 => {
                    for _ in 0..r.below(200) {
                        std::hint::spin_loop();
                    }
                }
                _ => {}
            }
        }
    }

    #[allow(deprecated)]
    fn work(b: &Grammar, p: &Plan, task: (u8, usize), noise: &mut Rng, noisy: bool) -> String {
        let st = Term::Nonterminal(p.start.clone());
        match task.0 {
            0 => match b.build_parser() {
                Ok(parser) => {
                    let (i, k) = &p.ins[task.1];
                    let mut s = String::new();
                    let mut it = parser.parse_input_starting_with(i, &st);
                    for _ in 0..*k {
                        pause(noise, noisy);
                        match it.next() {
                            Some(t) => {
                                s.push_str(&t.to_string());
                                s.push_str(&format!("{:016x}", h(&tree_from(&t))));
                                if s.len() < 2000 {
                                    s.push_str(&t.mermaid().to_string());
                                }
                            }
                            None => break,
                        }
                    }
                    s
                }
                // (which of several undefined nonterminals the message names is not promised)
                Err(e) => format!("{:?}", std::mem::discriminant(&e)),
            },
            1 => {
                let (i, k) = &p.ins[task.1];
                let v: Vec<_> = b.parse_input_starting_with(i, &st).take(*k).map(|t| tree_from(&t)).collect();
                format!("{} {:016x}", v.len(), h(&v))
            }
            2 => {
                let fin = Finish::from_heights(&p.heights);
                let trace = RefCell::new(vec![]);
                let mut r = Rng::new(p.seed ^ task.1 as u64);
                let mut inner = Strat::make(task.1, &mut r);
                let mut f = Fuse { inner: &mut inner, left: 12, fin: &fin, trace: &trace };
                let n = RefCell::new(noise.clone());
                let vetoes = RefCell::new(2);
                let x = b.generate_seeded_callback_with_strategy(
                    |_, _| {
                        pause(&mut n.borrow_mut(), noisy);
                        let mut v = vetoes.borrow_mut();
                        if *v > 0 {
                            *v -= 1;
                            return false;
                        }
                        true
                    },
                    &mut f,
                );
                let t = h(&trace.borrow().clone());
                format!("{x:?} {t:016x}")
            }
            3 => b.to_string(),
            4 => format!("{:?}", b.validate().map_err(|e| std::mem::discriminant(&e))),
            5 => match p.texts[task.1].parse::<Grammar>() {
                Ok(g) => format!("{g} {:?}", g.validate().is_ok()),
                Err(e) => e.to_string(),
            },
            6 => {
                let mut rng = StdRng::seed_from_u64(p.seed);
                format!("{:?} {:?}", b.generate_seeded(&mut rng), b.generate_seeded(&mut rng))
            }
            7 => {
                let c = b.clone();
                format!("{} {} {}", c == *b, serde_json::to_string(&c).unwrap_or_default(), c.productions_iter().map(|p| p.len()).sum::<usize>())
            }
            _ => {
                // a callback that panics in one thread is nobody else's business
                let fin = Finish::from_heights(&p.heights);
                let trace = RefCell::new(vec![]);
                let mut r = Rng::new(p.seed);
                let mut inner = Strat::make(0, &mut r);
                let x = catch_unwind(AssertUnwindSafe(|| {
                    let mut f = Fuse { inner: &mut inner, left: 5, fin: &fin, trace: &trace };
                    b.generate_seeded_callback_with_strategy(|_, _| panic!("callback"), &mut f)
                }));
                match x {
                    Ok(r) => format!("{r:?}"),
                    Err(_) => "panicked".into(),
                }
            }
        }
    }

    #[derive(Default)]
    pub struct Seen {
        pub cases: u64,
        pub results: u64,
        pub orders: HashSet<u64>,
        pub overlapping: u64,
        pub parses: u64,
    }

    pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

    fn round(b: &Grammar, p: &Plan, nthreads: usize, r: &mut Rng, seen: &mut Seen, b2: Option<&Grammar>) -> Vec<((u8, usize), String, usize)> {
        let list = tasks(p);
        let bar = Arc::new(Barrier::new(nthreads));
        let clock = AtomicU64::new(0);
        let log: Mutex<Vec<(u64, u64, usize, (u8, usize))>> = Mutex::new(vec![]);
        let mut out = vec![];
        std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let mut mine = list.clone();
                let mut rr = Rng::new(r.next());
                if t == 0 {
                    // two threads with the same order, the others shuffled
                } else if t > 1 {
                    rr.shuffle(&mut mine);
                }
                if mine.len() > 8 && p.small {
                    mine.truncate(8);
                }
                let bar = bar.clone();
                let (clock, log) = (&clock, &log);
                let b = if t % 2 == 1 { b2.unwrap_or(b) } else { b };
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            bar.wait();
                            let mut v = vec![];
                            let mut ev = vec![];
                            for task in mine {
                                let a = clock.fetch_add(1, SeqCst);
                                let x = work(b, p, task, &mut rr, true);
                                let z = clock.fetch_add(1, SeqCst);
                                ev.push((a, z, t, task));
                                v.push((task, x, t));
                            }
                            log.lock().unwrap().extend(ev);
                            v
                        })
                        .expect("thread"),
                );
            }
            for h in hs {
                match h.join() {
                    Ok(v) => out.extend(v),
                    Err(_) => out.push(((99, 0), "a thread died".into(), 0)),
                }
            }
        });
        let mut lg = log.into_inner().unwrap();
        lg.sort();
        for w in lg.windows(2) {
            if w[1].0 < w[0].1 && w[1].2 != w[0].2 {
                seen.overlapping += 1;
            }
        }
        let order: Vec<(usize, (u8, usize), bool)> = lg.iter().map(|x| (x.2, x.3, x.1 - x.0 > 1)).collect();
        seen.orders.insert(h(&order));
        PROGRESS.fetch_add(1, SeqCst);
        out
    }

    pub fn case(p: &Plan, nthreads: usize, seen: &mut Seen) -> Result<(), String> {
        let mut r = Rng::new(p.seed ^ 77);
        // cold: nobody has used this grammar, or anything else, for this input yet
        let b = p.g.to_bnf();
        let other = b.clone();
        let cold = round(&b, p, nthreads, &mut r, seen, None);
        // alone, on a grammar of its own
        let alone = p.g.to_bnf();
        let want: std::collections::HashMap<(u8, usize), String> = tasks(p).into_iter().map(|t| (t, work(&alone, p, t, &mut r, false))).collect();
        let warm = if p.small { vec![] } else { round(&b, p, nthreads, &mut r, seen, Some(&other)) };
        let moved = {
            // and from a thread the grammar was sent to
            let b = b.clone();
            let list = tasks(p);
            let t = list[r.below(list.len())];
            let ps = p.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut n = Rng::new(1);
                    (t, work(&b, &ps, t, &mut n, false), 999)
                })
                .expect("thread")
                .join()
                .map_err(|_| "a thread died".to_string())?
        };
        for (t, got, th) in cold.iter().chain(&warm).chain(std::iter::once(&moved)) {
            seen.results += 1;
            if t.0 < 2 {
                seen.parses += 1;
            }
            let w = want.get(t).map_or("(no such task)", String::as_str);
            if got != w {
                let what = ["parser", "older parse method", "generation", "display", "validate", "text", "seeded generation", "clone", "panicking callback"];
                return Err(format!("{} {}: thread {th} got\n{}\nalone:\n{}\ngrammar:\n{}", what.get(t.0 as usize).unwrap_or(&"task"), t.1, clip(got, 600), clip(w, 600), p.g.show()));
            }
        }
        seen.cases += 1;
        Ok(())
    }

    fn watchdog() {
        // a deadlock: no progress and no CPU used for a long time
        std::thread::spawn(|| {
            let mut last = (PROGRESS.load(SeqCst), cpu(), Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                let now = PROGRESS.load(SeqCst);
                let c = cpu();
                if now != last.0 || c - last.1 > 1.0 {
                    last = (now, c, Instant::now());
                } else if last.2.elapsed().as_secs() > 90 {
                    println!("BAD the threads wait for each other: no progress and no CPU used for 90 s");
                    std::process::exit(3);
                }
            }
        });
    }

    fn done(seen: &Seen) {
        println!("DONE {}", json!({"cases": seen.cases, "results_compared": seen.results, "interleavings": seen.orders.len(), "overlapping_calls": seen.overlapping, "parses": seen.parses}));
    }

    /// threads <seed> <from> <to> <n>
    pub fn native(seed: u64, from: u64, to: u64, nthreads: usize) -> i32 {
        compile_time();
        std::panic::set_hook(Box::new(|_| {}));
        watchdog();
        let mut seen = Seen::default();
        for idx in from..to {
            let p = plan(&mut Rng::for_case("C26", seed, idx), false);
            if let Err(e) = case(&p, nthreads, &mut seen) {
                println!("BAD case {idx}: {e}");
                return 3;
            }
        }
        done(&seen);
        0
    }

    /// threads <plan file>: for Miri
    pub fn planned(file: &str) -> i32 {
        std::panic::set_hook(Box::new(|_| {}));
        let mut seen = Seen::default();
        for (k, l) in std::fs::read_to_string(file).expect("plans").lines().enumerate() {
            let p: Plan = serde_json::from_str(l).expect("plan");
            if let Err(e) = case(&p, 3, &mut seen) {
                println!("BAD plan {k}: {e}");
                return 3;
            }
            println!("at {k}");
        }
        done(&seen);
        0
    }
}

#[cfg(feature = "threads")]
pub use inner::{native, planned};
#[cfg(not(feature = "threads"))]
pub fn native(_: u64, _: u64, _: u64, _: usize) -> i32 {
    2
}
#[cfg(not(feature = "threads"))]
pub fn planned(_: &str) -> i32 {
    2
}

fn bad(rep: &mut Report, tool: &str, code: Option<i32>, out: &str, err: &str, run: &str) -> bool {
    let b = out.find("BAD ");
    let race = ["WARNING: ThreadSanitizer: data race", "Data race detected", "Undefined Behavior", "WARNING: ThreadSanitizer", "deadlock"].iter().find_map(|x| err.find(x));
    if b.is_none() && (code == Some(0) || race.is_none()) {
        return false;
    }
    let text = match (b, race) {
        (Some(k), _) => clip(&out[k..], 2500),
        (None, Some(k)) => clip(&err[k..], 2500),
        _ => String::new(),
    };
    let m = format!("{tool}: {text}");
    rep.violations.push((m.clone(), json!({"property": "C26", "tool": tool, "what": m, "run": run})));
    true
}

fn count(rep: &mut Report, pre: &str, out: &str) -> bool {
    let Some(l) = out.lines().find(|l| l.starts_with("DONE ")) else { return false };
    let v: serde_json::Value = serde_json::from_str(&l[5..]).unwrap_or_default();
    for (k, n) in v.as_object().into_iter().flatten() {
        *rep.events.entry(format!("{pre}_{k}")).or_default() += n.as_u64().unwrap_or(0);
    }
    rep.evals += v["results_compared"].as_u64().unwrap_or(0);
    rep.distinct += v["interleavings"].as_u64().unwrap_or(0);
    true
}

pub fn c26(tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed = seed();
    let thorough = tier == "thorough";
    let mut rep = new_report();
    let man = verif().join("harness/Cargo.toml");
    let target = verif().join("target");
    forget(&target);
    let mut failed = false;
    // 1. it compiles with grammars shared between threads
    let (c, _, err) = run_cmd(
        Command::new("cargo").args(["build", "--release", "--offline", "-q", "--features", "threads", "--manifest-path"]).arg(&man).env("CARGO_TARGET_DIR", target.join("threads")),
        600,
    );
    if c != Some(0) {
        failed = true;
        // everything else of the harness compiled against this tree; is it the thread bounds?
        if err.contains("E0277") || err.contains("cannot be shared between threads") || err.contains("cannot be sent between threads") {
            let k = err.find("error").unwrap_or(0);
            let m = format!("grammars can no longer be shared between or sent to threads:\n{}", clip(&err[k..], 2000));
            rep.violations.push((m.clone(), json!({"property": "C26", "what": m})));
        } else {
            rep.inconclusive.push(format!("the build with threads failed: {}", clip(&err, 800)));
        }
    } else {
        rep.events.insert("types_required_send_sync".into(), 5);
    }
    // 2. native stress
    if !failed {
        let bin = target.join("threads/release/bnfmon");
        let n = if thorough { 12_000u64 } else { 900 };
        for (k, th) in [8usize, 3, 16].iter().enumerate() {
            let (from, to) = (k as u64 * n / 3, (k as u64 + 1) * n / 3);
            let args = [seed.to_string(), from.to_string(), to.to_string(), th.to_string()];
            let (c, out, err) = run_cmd(Command::new(&bin).arg("threads").args(&args), if thorough { 3000 } else { 400 });
            let run = format!("bnfmon threads {}", args.join(" "));
            count(&mut rep, "native", &out);
            if bad(&mut rep, "native threads", c, &out, &err, &run) {
                failed = true;
            } else if c != Some(0) {
                rep.inconclusive.push(format!("{run} ended with {c:?}: {}", clip(&err, 400)));
                failed = true;
            }
        }
    }
    // 3. Miri and ThreadSanitizer
    if !failed {
        let (a, b) = std::thread::scope(|s| {
            let a = s.spawn(|| miri(seed, thorough));
            let b = s.spawn(|| tsan(seed, thorough));
            (a.join().expect("miri"), b.join().expect("tsan"))
        });
        for x in [a, b] {
            rep.violations.extend(x.violations);
            rep.inconclusive.extend(x.inconclusive);
            rep.evals += x.evals;
            rep.distinct += x.distinct;
            for (k, n) in x.events {
                *rep.events.entry(k).or_default() += n;
            }
        }
    }
    rep.samples.push("per case: one shared random grammar, 3-16 threads started by a barrier, each running build_parser+parse, older parse methods, generation with every strategy and a yielding callback, Display, validate, text parsing, clone/JSON and a panicking callback in its own order; results compared with one thread alone".into());
    finish(
        "C26",
        "random shared grammars under 3 to 16 threads, cold and warm, natively, under ThreadSanitizer and under Miri's race detector with several scheduler seeds; each result compared with the one computed alone; non-trivial: distinct orders in which the threads' calls began and overlapped",
        tier,
        seed,
        rep,
        t0,
        &[("types_required_send_sync", 5), ("native_results_compared", 20_000), ("native_interleavings", 300), ("native_overlapping_calls", 1000), ("tsan_results_compared", 1000), ("tsan_overlapping_calls", 100), ("miri_results_compared", 50)],
    )
}

fn miri(seed: u64, thorough: bool) -> Report {
    let mut rep = new_report();
    let td = verif().join("target/miri-run");
    let dir = verif().join("scratch").join(format!("mt{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let per = if thorough { 12u64 } else { 2 };
    let procs = if thorough { 6u64 } else { 4 };
    let cmd = |file: &str, ms: u64| {
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "-q", "--features", "threads", "--manifest-path"])
            .arg(verif().join("harness/Cargo.toml"))
            .args(["--", "threads", file])
            .env("CARGO_TARGET_DIR", &td)
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={ms} -Zmiri-preemption-rate=0.05"));
        c
    };
    forget(&td);
    let empty = dir.join("none");
    std::fs::write(&empty, "").expect("plan");
    let (c, _, err) = run_cmd(&mut cmd(&empty.display().to_string(), 0), 600);
    if c != Some(0) {
        rep.inconclusive.push(format!("Miri did not run ({c:?}): {}", clip(&err, 600)));
        return rep;
    }
    let res: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..procs)
            .map(|p| {
                let f = dir.join(format!("plans{p}"));
                let text: String = (p * per..(p + 1) * per).map(|i| serde_json::to_string(&plan(&mut Rng::for_case("C26m", seed, i), true)).unwrap() + "\n").collect();
                std::fs::write(&f, text).expect("plans");
                let cmd = &cmd;
                s.spawn(move || run_cmd(&mut cmd(&f.display().to_string(), seed * 100 + p), if thorough { 3000 } else { 420 }))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("miri thread")).collect()
    });
    for (p, (c, out, err)) in res.into_iter().enumerate() {
        if c.is_none() {
            *rep.events.entry("miri_runs_cut_short".into()).or_default() += 1;
            continue;
        }
        count(&mut rep, "miri", &out);
        if !bad(&mut rep, "Miri", c, &out, &err, &format!("miri seed {} plans {p}", seed * 100 + p as u64)) && c != Some(0) {
            rep.inconclusive.push(format!("Miri run ended with {c:?}: {}", clip(&err, 600)));
        }
    }
    *rep.events.entry("miri_scheduler_seeds".into()).or_default() += procs;
    let _ = std::fs::remove_dir_all(&dir);
    rep
}

fn tsan(seed: u64, thorough: bool) -> Report {
    let mut rep = new_report();
    let td = verif().join("target/tsan");
    forget(&td);
    let (c, _, err) = run_cmd(
        Command::new("cargo")
            .args(["+nightly", "build", "--release", "--offline", "-q", "--features", "threads", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--manifest-path"])
            .arg(verif().join("harness/Cargo.toml"))
            .env("CARGO_TARGET_DIR", &td)
            .env("RUSTFLAGS", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"),
        700,
    );
    if c != Some(0) {
        rep.inconclusive.push(format!("the ThreadSanitizer build failed: {}", clip(&err, 600)));
        return rep;
    }
    let bin = td.join("x86_64-unknown-linux-gnu/release/bnfmon");
    let n = if thorough { 2000u64 } else { 90 };
    let procs = 3u64;
    let res: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..procs)
            .map(|p| {
                let bin = &bin;
                s.spawn(move || {
                    let base = 1_000_000;
                    let args = [seed.to_string(), (base + p * n / procs).to_string(), (base + (p + 1) * n / procs).to_string(), "5".to_string()];
                    (args.join(" "), run_cmd(Command::new(bin).arg("threads").args(&args).env("TSAN_OPTIONS", "halt_on_error=1:second_deadlock_stack=1"), if thorough { 3000 } else { 420 }))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("tsan thread")).collect()
    });
    for (args, (c, out, err)) in res {
        count(&mut rep, "tsan", &out);
        if c.is_none() {
            *rep.events.entry("tsan_runs_cut_short".into()).or_default() += 1;
        } else if !bad(&mut rep, "ThreadSanitizer", c, &out, &err, &format!("bnfmon threads {args}")) && c != Some(0) {
            rep.inconclusive.push(format!("ThreadSanitizer run ended with {c:?}: {}", clip(&err, 600)));
        }
    }
    rep
}
