//! Harness primitives, native version: the same harness runs on the real crate with concrete
//! inputs (a solver model, or neighbours of it when the model is an abstraction's).
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SYMBOLIC: bool = false;

#[derive(Default)]
struct St {
    vals: HashMap<String, String>,
    choices: HashMap<String, usize>,
    iter: u64,
    rng: u64,
    used: Vec<(String, String)>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
struct Skip;
struct Fail(String);

fn rnd() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut x = s.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.rng = x;
        x
    })
}
fn unit() -> f64 {
    (rnd() >> 11) as f64 / (1u64 << 53) as f64
}
fn boxed(name: &str) -> Option<(f64, f64)> {
    BOXES.with(|b| {
        let mut b = b.borrow_mut();
        let m = b.get_or_insert_with(|| {
            let v = std::env::var("VBOX").unwrap_or_default();
            v.split(';').filter_map(|x| {
                let (n, r) = x.split_once('=')?;
                let (l, h) = r.split_once(',')?;
                Some((n.to_string(), (l.parse().ok()?, h.parse().ok()?)))
            }).collect()
        });
        m.get(name).copied()
    })
}
thread_local! { static BOXES: RefCell<Option<HashMap<String, (f64, f64)>>> = RefCell::new(None); }
pub fn f64_in(name: &str, lo: f64, hi: f64) -> f64 {
    let name = &name.replace(' ', "_")[..];
    let (lo, hi) = boxed(name).map_or((lo, hi), |b| (lo.max(b.0), hi.min(b.1)));
    let (m, it) = S.with(|s| {
        let s = s.borrow();
        (s.vals.get(name).and_then(|v| v.parse::<f64>().ok()), s.iter)
    });
    let v = match m {
        Some(v) if it == 0 => v,
        Some(_) if MODE.with(|m| m.get()) == 0 => lo + unit() * (hi - lo),
        Some(v) if MODE.with(|m| m.get()) == 1 => v + (unit() - 0.5) * (hi - lo) * 10f64.powi(-(1 + (rnd() % 6) as i32)),
        Some(v) => match rnd() % 8 {
            0 | 1 => v,
            2 | 6 => v + (unit() - 0.5) * (hi - lo) * 10f64.powi(-(2 + (rnd() % 14) as i32)),
            3 => {
                let k = (rnd() % 9) as i64 - 4;
                f64::from_bits((v.to_bits() as i64).wrapping_add(k) as u64)
            }
            4 => (v * 100.0).round() / 100.0,
            5 => v.round(),
            _ => lo + unit() * (hi - lo),
        },
        None => match rnd() % 6 {
            0 => (lo + unit() * (hi - lo)).round(),
            _ => lo + unit() * (hi - lo),
        },
    };
    let v = if v.is_finite() { v.max(lo).min(hi) } else { lo };
    S.with(|s| s.borrow_mut().used.push((name.to_string(), format!("{:?}", v))));
    v
}
pub fn i64_in(name: &str, lo: i64, hi: i64) -> i64 {
    let name = &name.replace(' ', "_")[..];
    let (lo, hi) = boxed(name).map_or((lo, hi), |b| (lo.max(b.0.ceil() as i64), hi.min(b.1.floor() as i64)));
    let (m, it) = S.with(|s| {
        let s = s.borrow();
        (s.vals.get(name).and_then(|v| v.parse::<i64>().ok()), s.iter)
    });
    let span = (hi as i128 - lo as i128 + 1) as u128;
    let any = |r: u64| (lo as i128 + (r as u128 % span) as i128) as i64;
    let v = match m {
        Some(v) if it == 0 => v,
        Some(v) => match rnd() % 5 {
            0 | 1 => v,
            2 => v.saturating_add((rnd() % 7) as i64 - 3),
            _ => any(rnd()),
        },
        None => any(rnd()),
    };
    let v = v.max(lo).min(hi);
    S.with(|s| s.borrow_mut().used.push((name.to_string(), format!("{}", v))));
    v
}
pub fn choice(name: &str, n: usize) -> usize {
    let name = &name.replace(' ', "_")[..];
    let k = S.with(|s| {
        let s = s.borrow();
        s.choices.get(name).copied()
    });
    let k = match k {
        Some(k) => k,
        None => (rnd() % n as u64) as usize,
    };
    S.with(|s| s.borrow_mut().used.push((name.to_string(), format!("{}", k))));
    k.min(n - 1)
}
pub fn part() -> usize {
    choice("part", PARTS.with(|p| p.get()))
}
thread_local! { static MODE: std::cell::Cell<u64> = std::cell::Cell::new(2); }
thread_local! { static PARTS: std::cell::Cell<usize> = std::cell::Cell::new(1); }
fn parts_of(h: &str) -> usize {
    h.split_once('/').and_then(|x| x.1.parse().ok()).unwrap_or(1)
}
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(Skip)
    }
}
pub fn check(name: &str, c: bool) {
    if !c {
        std::panic::panic_any(Fail(name.to_string()))
    }
}
pub fn stop() -> ! {
    std::panic::panic_any(Skip)
}
pub fn hook(_name: &str) {}
pub fn unhook(_name: &str) {}
pub fn option(_name: &str, _v: usize) {}
pub fn calls(_name: &str) -> usize {
    0
}
pub fn call_f(_name: &str, _k: usize, _arg: usize) -> f64 {
    0.0
}
pub fn call_i(_name: &str, _k: usize, _arg: usize) -> i64 {
    0
}
pub fn note(_s: &str) {}
/// a hexadecimal digit as a character
pub fn digit_char(d: i64, upper: bool) -> char {
    let c = char::from_digit(d as u32, 16).unwrap();
    if upper {
        c.to_ascii_uppercase()
    } else {
        c
    }
}
/// the digit a character stands for, -1 if none
pub fn char_digit(c: char) -> i64 {
    c.to_digit(16).map_or(-1, |d| d as i64)
}

/// run each "case" of the file once, exactly as given; one result line per case
fn batch(reg: &[(&'static str, fn())], txt: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut cases: Vec<(String, HashMap<String, String>, HashMap<String, usize>)> = vec![];
    for l in txt.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        match w[0] {
            "case" => cases.push((w[1].to_string(), HashMap::new(), HashMap::new())),
            "in" => {
                cases.last_mut().unwrap().1.insert(w[1].to_string(), w[2].to_string());
            }
            "choice" => {
                cases.last_mut().unwrap().2.insert(w[1].to_string(), w[2].trim().parse().unwrap());
            }
            _ => {}
        }
    }
    for (h, vals, choices) in cases {
        let (_, f) = *reg.iter().find(|r| r.0 == h).expect("harness");
        let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            PARTS.with(|p| p.set(parts_of(&h)));
            S.with(|s| {
                let mut s = s.borrow_mut();
                s.vals = vals;
                s.choices = choices;
                s.rng = 0x9E3779B97F4A7C15;
            });
            match catch_unwind(AssertUnwindSafe(|| f())) {
                Ok(()) => println!("OK {}", h),
                Err(p) if p.downcast_ref::<Skip>().is_some() => println!("SKIP {}", h),
                Err(p) => println!("FAIL {} {}", h, describe(&*p)),
            }
        });
        let _ = t.unwrap().join();
    }
}
fn describe(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(f) = p.downcast_ref::<Fail>() {
        f.0.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {}", s)
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {}", s.replace('\n', " "))
    } else {
        "panic".into()
    }
}

/// replay FILE: lines "harness H", "seed N", "in NAME VALUE", "choice NAME K", "iters N"
pub fn main_entry(reg: &[(&'static str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for (n, _) in reg {
            println!("{}", n)
        }
        return;
    }
    if !matches!(a.get(1).map(|s| s.as_str()), Some("replay") | Some("batch")) {
        eprintln!("usage: vh list | vh replay FILE [iters] [seconds]");
        std::process::exit(2);
    }
    let txt = std::fs::read_to_string(&a[2]).expect("replay file");
    let iters: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut h = String::new();
    if a[1] == "batch" {
        batch(reg, &txt);
        return;
    }
    for l in txt.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        match w[0] {
            "harness" => h = w[1].to_string(),
            "in" => S.with(|s| {
                s.borrow_mut().vals.insert(w[1].to_string(), w[2].to_string());
            }),
            "choice" => S.with(|s| {
                s.borrow_mut().choices.insert(w[1].to_string(), w[2].trim().parse().unwrap());
            }),
            _ => {}
        }
    }
    let (_, f) = *reg.iter().find(|r| r.0 == h).expect("harness");
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn({
        let st = S.with(|s| std::mem::take(&mut *s.borrow_mut()));
        move || {
            S.with(|s| *s.borrow_mut() = st);
            PARTS.with(|p| p.set(parts_of(&h)));
            S.with(|s| s.borrow_mut().rng = 0x9E3779B97F4A7C15 ^ seed.wrapping_mul(0x2545F4914F6CDD1D));
            let mut skipped = 0;
            for it in 0..iters {
                if it > 0 && t0.elapsed().as_secs_f64() > secs {
                    break;
                }
                MODE.with(|m| m.set(it % 4));
                S.with(|s| {
                    let mut s = s.borrow_mut();
                    s.iter = it;
                    s.used.clear();
                });
                if let Err(p) = catch_unwind(AssertUnwindSafe(|| f())) {
                    if p.downcast_ref::<Skip>().is_some() {
                        skipped += 1;
                        continue;
                    }
                    let what = describe(&*p);
                    println!("REPRODUCED iteration={} check={}", it, what.replace('\n', " "));
                    S.with(|s| {
                        for (n, v) in &s.borrow().used {
                            println!("in {} {}", n, v);
                        }
                    });
                    return true;
                }
            }
            println!("NOT-REPRODUCED skipped={}", skipped);
            false
        }
    });
    let r = t.unwrap().join().unwrap();
    std::process::exit(if r { 1 } else { 0 });
}
