//! bnfmon: runtime monitors for the bnf crate.
//!   bnfmon check <ID> <quick|thorough>    run a property's workload and write its evidence
//!   bnfmon replay <file>                  re-run the case of a replay file
mod ctx;
mod r#gen;
mod model;
mod oracle;
mod props;
mod rng;
mod runner;
mod text;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    let code = match s.as_slice() {
        [_, "check", "C24", tier] => props::programs::c24(tier),
        [_, "check", "C26", tier] => props::threads::c26(tier),
        [_, "check", "C27", tier] => props::config::c27(tier),
        [_, "check", id, tier] => runner::check(id, tier),
        [_, "worker", rest @ ..] => runner::worker(rest),
        [_, "replay", file] => runner::replay(file),
        [_, "digest", id, seed] => props::digest(id, seed.parse().unwrap()),
        [_, "probe", name] => props::probe(name),
        [_, "cost", fam, n] => props::c06::cost_main(fam, n.parse().unwrap()),
        [_, "safety", file] => props::safety::plan_loop(file),
        [_, "safety", seed, from, to] => props::safety::main_loop(seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap()),
        [_, "plans", seed, from, to] => props::safety::print_plans(seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap()),
        [_, "threads", file] => props::threads::planned(file),
        [_, "threads", seed, from, to, n] => props::threads::native(seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), n.parse().unwrap()),
        [_, "big", f, k] => props::big::run(f, k.parse().unwrap()),
        [_, "growth", seed, n] => props::safety::growth(seed.parse().unwrap(), n.parse().unwrap()),
        [_, "list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        _ => {
            eprintln!("usage: bnfmon check ID quick|thorough");
            2
        }
    };
    std::process::exit(code);
}
