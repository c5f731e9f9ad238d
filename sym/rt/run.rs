//! Exhaustive exploration of one harness: depth-first over recorded decisions, re-executing the
//! program for each path.
use super::engine::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// record a candidate violation on the current path: the solver must produce a model of it
pub fn candidate(what: &str) {
    with(|e| {
        let vals: Vec<u32> = e.inputs.iter().map(|i| i.1).chain(e.hints.iter().map(|h| h.1)).collect();
        let (a, v) = if vals.is_empty() { (Ans::Sat, vec![]) } else { e.query(&[], &vals, 3) };
        if a == Ans::Unsat {
            e.stats.dead += 1;
            return;
        }
        let mut model = vec![];
        if a == Ans::Sat {
            // facts about values outside the cone of the failed condition may still exclude it
            let all: Vec<(String, Vec<u32>)> = vec![("true".to_string(), (0..e.nodes.len() as u32).collect())];
            if e.query(&all, &[], 1).0 == Ans::Unsat {
                e.stats.dead += 1;
                return;
            }
        }
        if e.debug && a == Ans::Sat && e.stats.cands < 2 {
            let all: Vec<u32> = (0..e.nodes.len() as u32).collect();
            let (_, vs) = e.query(&[], &all, 3);
            for (i, v) in vs.iter().enumerate() {
                let n = &e.nodes[i];
                eprintln!("NODE n{} = {:?} def {:?} side {:?} range [{}, {}] err {}", i, eval_value(v), n.def, n.side, n.lo, n.hi, n.err);
            }
            for p in &e.path {
                eprintln!("PATH {:?}", p);
            }
        }
        if a == Ans::Sat {
            let names: Vec<(String, Sort)> = e
                .inputs
                .iter()
                .map(|i| (i.0.clone(), i.2))
                .chain(e.hints.iter().map(|h| (format!("hint:{}", h.0), h.2)))
                .collect();
            for ((n, s), val) in names.iter().zip(v.iter()) {
                let t = match s {
                    Sort::Int => eval_value(val).map(|x| format!("{}", x as i64)),
                    Sort::Real => eval_value(val).map(|x| format!("{:?}", x)),
                };
                if let Some(t) = t {
                    model.push((n.clone(), t));
                }
            }
        }
        let c = Cand {
            harness: e.harness.clone(),
            what: what.to_string(),
            model,
            choices: e.choices.clone(),
            sat: a == Ans::Sat,
            pathlen: e.path.len(),
        };
        e.stats.cands += 1;
        if e.stats.cands == 1 {
            // enough time to collect a few more, then let the replay decide
            let d = Instant::now() + Duration::from_secs(45);
            e.deadline = Some(e.deadline.map_or(d, |x| x.min(d)));
        }
        if e.cands.iter().filter(|x| x.what == c.what).count() < 6 && e.cands.len() < 60 {
            e.cands.push(c);
        }
    })
}

pub fn explore(name: &str, f: fn(), budget_s: f64, qms: u64) -> String {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Abort>().is_none() && std::env::var("SYM_DEBUG").is_ok() {
            eprintln!("panic: {}", i);
        }
    }));
    let t0 = Instant::now();
    with(|e| {
        e.harness = name.to_string();
        e.deadline = Some(t0 + Duration::from_secs_f64(budget_s));
        e.qtimeout_ms = qms;
        e.log.clear();
    });
    let max_paths: u64 = std::env::var("SYM_MAX_PATHS").ok().and_then(|x| x.parse().ok()).unwrap_or(200000);
    loop {
        with(|e| e.reset_path());
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let mut stop = false;
        match r {
            Ok(()) => with(|e| {
                e.stats.paths += 1;
                let n = e.stats.paths;
                if e.sh_ok && e.samples.len() < 24 && (n < 12 || n.is_power_of_two() || n % 97 == 0) {
                    let model = e
                        .inputs
                        .iter()
                        .map(|(nm, id, s)| {
                            let nd = &e.nodes[*id as usize];
                            (nm.clone(), if *s == Sort::Int { format!("{}", nd.ish) } else { format!("{:?}", nd.sh) })
                        })
                        .collect();
                    let c = Cand { harness: e.harness.clone(), what: String::new(), model, choices: e.choices.clone(), sat: true, pathlen: e.path.len() };
                    e.samples.push(c);
                }
            }),
            Err(p) => {
                if let Some(a) = p.downcast_ref::<Abort>() {
                    match a.0 {
                        "assume" | "checked" => with(|e| {
                            if a.0 == "checked" {
                                e.stats.paths += 1
                            } else {
                                e.stats.aborted += 1
                            }
                        }),
                        "time" => stop = true,
                        other => with(|e| {
                            e.incomplete = Some(other.to_string());
                            e.stats.aborted += 1;
                        }),
                    }
                } else {
                    let msg = if let Some(s) = p.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = p.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "panic".to_string()
                    };
                    with(|e| e.stats.paths += 1);
                    candidate(&format!("panic: {}", msg));
                }
            }
        }
        // backtrack
        let more = with(|e| {
            if e.out_of_time() {
                e.incomplete = Some("time budget".into());
                return false;
            }
            if e.stats.paths + e.stats.aborted >= max_paths {
                e.incomplete = Some("path budget".into());
                return false;
            }
            while let Some(d) = e.log.last_mut() {
                if let Some((v, m)) = d.alts.pop() {
                    d.val = v;
                    if let Some(m) = m {
                        e.model = m;
                    }
                    return true;
                }
                e.log.pop();
            }
            false
        });
        if stop || !more {
            break;
        }
    }
    let _ = std::panic::take_hook();
    with(|e| {
        let s = &e.stats;
        let mut o = format!(
            "{{\"harness\":\"{}\",\"paths\":{},\"assumed_away\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"interval_decided\":{},\"candidates\":{},\"dead\":{},\"wall_s\":{:.3},\"incomplete\":{},",
            name, s.paths, s.aborted, s.forks, s.queries, s.sat, s.unsat, s.unknown, s.solver_s, s.interval_decided, s.cands, s.dead,
            t0.elapsed().as_secs_f64(),
            e.incomplete.as_ref().map_or("null".to_string(), |x| format!("\"{}\"", esc(x)))
        );
        let ck: Vec<String> = e.checks_seen.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        o.push_str(&format!("\"checks\":{{{}}},", ck.join(",")));
        let fs: Vec<String> = e.fns.iter().map(|k| format!("\"{}\"", esc(k))).collect();
        o.push_str(&format!("\"functions\":[{}],", fs.join(",")));
        let ws: Vec<String> = e.won.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        o.push_str(&format!("\"solvers\":{{{}}},", ws.join(",")));
        let nt: Vec<String> = e.notes.iter().map(|k| format!("\"{}\"", esc(k))).collect();
        o.push_str(&format!("\"notes\":[{}],", nt.join(",")));
        let dump = |v: &Vec<Cand>| -> Vec<String> {
            v.iter().map(|c| {
                let m: Vec<String> = c.model.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", esc(a), esc(b))).collect();
                let h: Vec<String> = c.choices.iter().map(|(a, b)| format!("[\"{}\",{}]", esc(a), b)).collect();
                format!(
                    "{{\"what\":\"{}\",\"sat\":{},\"model\":[{}],\"choices\":[{}]}}",
                    esc(&c.what),
                    c.sat,
                    m.join(","),
                    h.join(",")
                )
            })
            .collect()
        };
        let rg: Vec<String> = e.ranges.iter().map(|(n, r)| format!("[\"{}\",{:e},{:e},{}]", esc(n), r.0, r.1, r.2)).collect();
        o.push_str(&format!("\"ranges\":[{}],", rg.join(",")));
        o.push_str(&format!("\"cands\":[{}],\"samples\":[{}]}}", dump(&e.cands).join(","), dump(&e.samples).join(",")));
        o
    })
}
