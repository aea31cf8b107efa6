//! Long texts: flat in nesting, but tens of thousands of productions, alternatives, terms,
//! groups or comments. Each is read in its own process on a thread with the default stack.
use crate::model::*;
use crate::runner::*;
use crate::text::*;
use bnf::{ABNF, BNF, Grammar};

pub const FAMILIES: &[&str] = &[
    "productions", "grouped-productions", "alternatives", "grouped-alternatives", "terms", "grouped-terms", "groups", "optionals", "comments", "comments-between", "long-terminal", "long-name", "blank-lines",
    "junk-after", "bars", "closing", "unclosed-quote", "unclosed-name", "incremental", "half-production", "group-junk",
];

fn text(f: &str, fmt: Fmt, k: usize) -> String {
    let ab = fmt == Fmt::Abnf;
    let (s, eq, bar) = if ab { ("s", "=", "/") } else { ("<s>", "::=", "|") };
    let nm = |i: usize| if ab { format!("a{i}") } else { format!("<a{i}>") };
    let prods = |tail: &str| (0..k).map(|i| format!("{} {eq} 'x' {tail}\n", nm(i))).collect::<String>();
    let join = |sep: &str| (0..k).map(|i| format!("'t{i}'")).collect::<Vec<_>>().join(sep);
    match f {
        "productions" => prods(&format!("{bar} 'y' {}", nm(0))),
        "grouped-productions" => format!("{s} {eq} ('x')\n{}", (0..k / 3).map(|i| format!("{} {eq} 'x' ['y']\n", nm(i))).collect::<String>()),
        "alternatives" => format!("{s} {eq} {}\n", join(&format!(" {bar} "))),
        "grouped-alternatives" => format!("{s} {eq} 'p' ({}) 'q'\n", join(&format!(" {bar} "))),
        "terms" => format!("{s} {eq} {}\n", join(" ")),
        "grouped-terms" => format!("{s} {eq} ({})\n", join(" ")),
        "groups" => format!("{s} {eq} {}\n", (0..k / 3).map(|i| format!("('g{i}')")).collect::<Vec<_>>().join(" ")),
        "optionals" => format!("{s} {eq} {}\n", (0..k / 3).map(|i| format!("['g{i}']")).collect::<Vec<_>>().join(&format!(" {bar} "))),
        "comments" => format!("{}{s} {eq} 'x'\n{}", "; comment\n".repeat(k), "; more\n".repeat(k)),
        "comments-between" => format!("{s} {eq} 'x'{}'y'\n", " ; comment\n".repeat(k)),
        "long-terminal" => format!("{s} {eq} '{}' \"{}\"\n", "tä".repeat(k * 20), "q".repeat(k * 20)),
        "long-name" => {
            let n = "n".repeat(k * 20);
            let n = if ab { n } else { format!("<{n}>") };
            format!("{n} {eq} 'x' {n}\n")
        }
        "blank-lines" => format!("{0}{s}{0}{eq}{0}'x'{0}", "\n \t".repeat(k)),
        "junk-after" => format!("{}>>", prods("")),
        "bars" => format!("{s} {eq} 'x' {}", format!("{bar} ").repeat(k)),
        "closing" => format!("{s} {eq} 'x' {}", ") ] ".repeat(k)),
        "unclosed-quote" => format!("{s} {eq} {}'{}", "'x' ".repeat(k), "y ".repeat(k)),
        "unclosed-name" => format!("{}<{}", prods(""), "y ".repeat(k)),
        "incremental" => format!("{s} {eq} 'x'\n{}", (0..k).map(|i| format!("{s} {eq}{bar} 'i{i}'\n")).collect::<String>()),
        "half-production" => format!("{}{} {eq}", prods(""), nm(k)),
        _ => format!("{s} {eq} ({} 'y'", (0..k).map(|i| format!("'g{i}' ")).collect::<String>()),
    }
}

pub fn run(f: &str, k: usize) -> i32 {
    std::thread::spawn(|| {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if cpu() > 100.0 {
                std::process::exit(97);
            }
        }
    });
    crate::ctx::LIMIT.store(6 << 30, std::sync::atomic::Ordering::SeqCst);
    for fmt in [Fmt::Bnf, Fmt::Abnf] {
        let t = text(f, fmt, k);
        let want = Reader::new(&t, fmt).read_grammar();
        let t2 = t.clone();
        // the default stack of a spawned thread
        let h = std::thread::spawn(move || {
            let a = match fmt {
                Fmt::Bnf => Grammar::parse_from::<BNF>(&t2),
                _ => Grammar::parse_from::<ABNF>(&t2),
            };
            let b = t2.parse::<Grammar>();
            (a.map(|g| G::from_bnf(&g)).map_err(|e| e.to_string()), b.map(|g| G::from_bnf(&g)).map_err(|e| e.to_string()))
        });
        let Ok((a, b)) = h.join() else {
            println!("{f} {fmt:?}: reading panics");
            return 1;
        };
        let say = |g: &Result<G, String>| match g {
            Ok(g) => format!("{} productions, {} alternatives", g.prods.len(), g.prods.iter().map(|p| p.alts.len()).sum::<usize>()),
            Err(e) => format!("refused: {}", e.chars().take(200).collect::<String>()),
        };
        for (what, x) in [("parse_from", &a), ("str::parse", &b)] {
            if what == "str::parse" && detect(&t) != fmt {
                continue;
            }
            let ok = match (x, &want) {
                (Ok(g), Some(e)) => match e.plain() {
                    Some(p) => p == *g,
                    None => isomorphic(e, g).is_ok() || e.prods.len() <= g.prods.len() && e.prods.iter().zip(&g.prods).all(|(p, q)| q.lhs == T::N(p.lhs.clone())),
                },
                (Err(m), None) => !m.is_empty(),
                _ => false,
            };
            println!("{f} {fmt:?} {what} {} bytes: {}", t.len(), say(x));
            if !ok {
                println!("WRONG: {f} {fmt:?} {what}: {} but the text is {}", say(x), if want.is_some() { "well-formed and says something else" } else { "malformed" });
                return 1;
            }
        }
    }
    0
}

pub fn extra(rep: &mut Report, id: &str, k: usize) {
    let out: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = FAMILIES.iter().map(|f| sc.spawn(move || (*f, child(&["big", f, &k.to_string()], 300)))).collect();
        hs.into_iter().map(|h| h.join().expect("big thread")).collect()
    });
    for (f, (o, how, ok)) in out {
        *rep.events.entry("long_flat_texts".into()).or_default() += o.lines().count() as u64;
        if how == "wall-clock watchdog" || how == "memory-budget" {
            rep.inconclusive.push(format!("long text {f}: {how}"));
        } else if !ok {
            let m = format!("reading a long but flat text (family {f}, size {k}) on a default stack: {how}: {}", o.lines().last().unwrap_or("crashed"));
            rep.violations.push((m.clone(), serde_json::json!({"property": id, "big": f, "size": k, "what": m})));
        }
    }
}
