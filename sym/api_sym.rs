//! Harness primitives, symbolic version (replaces the native src/vh/api.rs after rewriting).
#![allow(dead_code)]
use crate::__sym::*;

pub const SYMBOLIC: bool = true;

/// narrowed input ranges (refinement runs): VBOX="name=lo,hi;..."
fn boxed(name: &str) -> Option<(f64, f64)> {
    let b = std::env::var("VBOX").ok()?;
    let name = name.replace(' ', "_");
    let r = b.split(';').find_map(|x| x.strip_prefix(&format!("{}=", name)).map(|r| r.to_string()))?;
    let (l, h) = r.split_once(',')?;
    Some((l.parse().ok()?, h.parse().ok()?))
}
pub fn f64_in(name: &str, lo: SymF, hi: SymF) -> SymF {
    let (SymF::C(l), SymF::C(h)) = (lo, hi) else { abort("unsupported: symbolic input bounds") };
    let (l, h) = boxed(name).map_or((l, h), |b| (l.max(b.0), h.min(b.1)));
    SymF::input(name, l, h)
}
pub fn i64_in(name: &str, lo: SymI, hi: SymI) -> SymI {
    let (SymI::C(l), SymI::C(h)) = (lo, hi) else { abort("unsupported: symbolic input bounds") };
    let (l, h) = boxed(name).map_or((l, h), |b| (l.max(b.0.ceil() as i64), h.min(b.1.floor() as i64)));
    SymI::input(name, l, h)
}
/// an input the native replay may draw from, but which has no bound here: explored exhaustively
pub fn choice(name: &str, n: usize) -> usize {
    let k = choose(n);
    with(|e| e.choices.push((name.to_string(), k)));
    k
}
/// this run's share of a harness that is split over several solver processes
pub fn part() -> usize {
    let k = std::env::var("SYM_PART").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    with(|e| e.choices.push(("part".to_string(), k)));
    k
}
pub fn assume(c: bool) {
    if !c {
        abort("assume")
    }
}
pub fn check(name: &str, c: bool) {
    with(|e| {
        *e.checks_seen.entry(name.to_string()).or_insert(0) += 1;
        e.stats.checks += 1;
    });
    if !c {
        run::candidate(name);
        abort("checked")
    }
}
/// end the current path early (used by vacuity twins)
pub fn stop() -> ! {
    abort("checked")
}
pub fn hook(name: &str) {
    with(|e| {
        e.hooks.insert(name.to_string());
    })
}
pub fn unhook(name: &str) {
    with(|e| {
        e.hooks.remove(name);
    })
}
pub fn option(name: &str, v: usize) {
    with(|e| {
        e.opts.insert(name.to_string(), v as i64);
    })
}
/// arguments of the k-th call of an abstracted function on this path
pub fn calls(name: &str) -> usize {
    with(|e| e.logs.get(name).map_or(0, |v| v.len()))
}
pub fn call_f(name: &str, k: usize, arg: usize) -> SymF {
    match with(|e| e.logs[name][k][arg]) {
        Val::F(f) => f,
        Val::I(i) => i.to_f(),
    }
}
pub fn call_i(name: &str, k: usize, arg: usize) -> SymI {
    match with(|e| e.logs[name][k][arg]) {
        Val::I(f) => f,
        _ => abort("call_i on a float"),
    }
}
/// is this value certainly the same term (used only to skip redundant work)
pub fn note(s: &str) {
    with(|e| {
        if !e.notes.iter().any(|x| x == s) {
            e.notes.push(s.to_string())
        }
    })
}
pub fn digit_char(d: SymI, upper: bool) -> char {
    d.digit_char(upper)
}
pub fn char_digit(c: char) -> SymI {
    SymI::of_char(c)
}
pub fn main_entry(reg: &[(&'static str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in reg {
                println!("{}", n)
            }
        }
        Some("sym") => {
            let h = &a[2];
            let budget: f64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(300.0);
            let qms: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(3000);
            let (n, f) = reg.iter().find(|r| r.0 == h).expect("harness");
            let (n, f) = (*n, *f);
            let t = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || println!("{}", run::explore(n, f, budget, qms)))
                .unwrap();
            t.join().unwrap();
        }
        _ => eprintln!("usage: vh list | vh sym HARNESS [budget_s] [query_ms]"),
    }
}
