use crate::ctx::*;
use crate::rng::Rng;
use crate::runner::Report;

pub mod big;
pub mod c06;
pub mod config;
pub mod deep;
pub mod edit;
pub mod formats;
pub mod generation;
pub mod parse;
pub mod programs;
pub mod render;
pub mod roundtrip;
pub mod safety;
pub mod scale;
pub mod textual;
pub mod threads;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx, &mut Rng) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// CPU seconds one case may use (0: default)
    pub cpu: f64,
    pub rule: &'static str,
    /// events that must have been observed for a run to count
    pub need: &'static [(&'static str, u64)],
    pub extra: Option<fn(&mut Report, u64, bool)>,
}

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(parse::PROPS.iter());
    v.extend(c06::PROPS.iter());
    v.extend(textual::PROPS.iter());
    v.extend(roundtrip::PROPS.iter());
    v.extend(generation::PROPS.iter());
    v.extend(render::PROPS.iter());
    v.extend(edit::PROPS.iter());
    v.extend(safety::PROPS.iter());
    v.extend(formats::PROPS.iter());
    v
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// print a digest of a deterministic workload; compared between processes
pub fn digest(id: &str, seed: u64) -> i32 {
    let run = || -> i32 {
        match id {
            "C04" => parse::digest(seed),
            "C16" => generation::digest(seed),
            _ => return 2,
        }
        0
    };
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).expect("thread").join().unwrap_or(2)
    })
}

/// run the input of a known finding in this process; exit 0 = behaves, anything else = fails
pub fn probe(name: &str) -> i32 {
    use std::sync::atomic::Ordering::SeqCst;
    LIMIT.store(1 << 30, SeqCst);
    std::thread::spawn(|| {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if crate::runner::cpu() > 20.0 {
                std::process::exit(97);
            }
        }
    });
    match name {
        "useless-cycle" => c06::probe_useless_cycle(),
        "depth-bounded" => generation::probe_depth_bounded(),
        "deep-nesting" => textual::probe_deep_nesting(),
        _ => 2,
    }
}

/// two-process digest comparison shared by C04 and C16
pub fn digest_extra(id: &'static str, rep: &mut Report, seed: u64, rounds: u64) {
    for k in 0..rounds {
        let sd = (seed * 1000 + k).to_string();
        let a = crate::runner::child(&["digest", id, &sd], 200);
        let b = crate::runner::child(&["digest", id, &sd], 200);
        for x in [&a, &b] {
            if !x.2 {
                rep.inconclusive.push(format!("digest process ended with {}", x.1));
                return;
            }
        }
        let na = a.0.lines().count();
        *rep.events.entry("digest_lines_compared_between_processes".into()).or_default() += na as u64;
        if a.0 != b.0 {
            let d = a.0.lines().zip(b.0.lines()).find(|(x, y)| x != y);
            let m = format!("two processes disagree on the same workload: {d:?}");
            rep.violations.push((m.clone(), serde_json::json!({"property": id, "digest_seed": sd, "what": m})));
            return;
        }
    }
}
