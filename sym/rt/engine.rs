//! Symbolic engine: arena of SMT terms with certified rounding-error radii, path exploration by
//! re-execution, SMT solver processes, candidate counterexamples.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap as StdMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Real,
    Int,
}

#[derive(Clone)]
pub struct Node {
    pub sort: Sort,
    pub def: Option<String>,
    pub side: Vec<String>,
    pub deps: Vec<u32>,
    pub lo: f64,
    pub hi: f64,
    pub err: f64,
    pub isint: bool,
    pub nl: bool,
    pub mat: Option<u32>,
    /// linear form over integer base nodes, for SymI bit manipulation
    pub lin: Option<(Vec<(i128, u32)>, i128)>,
    pub ilo: i128,
    pub ihi: i128,
    /// shadow: the value under the concrete inputs that currently guide the exploration
    pub sh: f64,
    pub ish: i128,
}

pub type Model = std::rc::Rc<StdMap<u32, f64>>;

#[derive(Clone)]
pub struct Dec {
    pub val: i64,
    /// alternatives still to explore, with inputs that reach them
    pub alts: Vec<(i64, Option<Model>)>,
    /// the path condition implies this value: nothing to add to it
    pub implied: bool,
}

#[derive(Clone)]
pub struct Cand {
    pub harness: String,
    pub what: String,
    pub model: Vec<(String, String)>,
    pub choices: Vec<(String, usize)>,
    pub sat: bool,
    pub pathlen: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub aborted: u64,
    pub forks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub checks: u64,
    pub interval_decided: u64,
    pub cands: u64,
    pub dead: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Engine {
    pub nodes: Vec<Node>,
    pub keys: StdMap<String, u32>,
    pub path: Vec<(String, Vec<u32>)>,
    pub log: Vec<Dec>,
    pub pos: usize,
    pub stats: Stats,
    pub inputs: Vec<(String, u32, Sort)>,
    pub hints: Vec<(String, u32, Sort)>,
    pub fixed_inputs: Vec<(String, String)>,
    pub choices: Vec<(String, usize)>,
    pub ufs: Vec<(String, Vec<u32>, Vec<u32>, Vec<String>)>,
    pub bits: Vec<(u32, u64)>,
    pub ihash: Vec<(super::SymI, u64)>,
    /// hexadecimal digits written on this path; the k-th appears in text as the letter 'g' + k
    pub digits: Vec<super::SymI>,
    pub fns: BTreeSet<&'static str>,
    pub checks_seen: BTreeMap<String, u64>,
    pub cands: Vec<Cand>,
    pub ranges: BTreeMap<String, (f64, f64, bool)>,
    pub harness: String,
    pub hooks: BTreeSet<String>,
    pub opts: BTreeMap<String, i64>,
    pub deadline: Option<Instant>,
    pub qtimeout_ms: u64,
    pub cache: StdMap<String, Ans>,
    z3: Option<Proc>,
    pub unknown_path: bool,
    pub model: Model,
    pub sh_ok: bool,
    pub free: Vec<u32>,
    pub logs: StdMap<String, Vec<Vec<super::Val>>>,
    pub incomplete: Option<String>,
    pub debug: bool,
    pub qdump: Option<String>,
    pub notes: Vec<String>,
    pub won: BTreeMap<String, u64>,
    pub samples: Vec<Cand>,
    /// powers computed on this path: (exponent, argument text, its deps, result node, range of the argument)
    pub squares: StdMap<u32, u32>,
    /// real-valued linear forms with small rational coefficients (to recognise values that come back)
    pub flin: StdMap<u32, super::symf::FLin>,
    /// decisions already taken on this path
    pub asked: StdMap<String, bool>,
    pub canon: StdMap<super::symf::FLin, u32>,
    /// cube roots: node -> (text, dependency, lo, hi) of the exact radicand
    pub roots: StdMap<u32, (String, Vec<u32>, f64, f64)>,
    pub pows: Vec<(f64, String, Vec<u32>, u32, f64, f64)>,
}

/// payloads used to unwind a path
pub struct Abort(pub &'static str);

thread_local! {
    pub static E: RefCell<Engine> = RefCell::new(Engine::new());
}
pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    E.with(|e| f(&mut e.borrow_mut()))
}

/// exact rational text of an f64
pub fn rat(x: f64) -> String {
    assert!(x.is_finite(), "rat of non-finite");
    if x == 0.0 {
        return "0.0".into();
    }
    let neg = x < 0.0;
    let a = x.abs();
    let s = if a.fract() == 0.0 && a < 1e18 {
        format!("{}.0", a as u64)
    } else {
        let bits = a.to_bits();
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let man = if exp == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
        let e = exp - 1075;
        let tz = man.trailing_zeros() as i32;
        let m = man >> tz;
        let e = e + tz;
        if e >= 0 {
            format!("(* {}.0 {}.0)", m, pow2(e as u32))
        } else {
            format!("(/ {}.0 {}.0)", m, pow2((-e) as u32))
        }
    };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(e: u32) -> String {
    // decimal digits of 2^e
    let mut d: Vec<u8> = vec![1];
    for _ in 0..e {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
/// (short text, |exact - text| bound)
pub fn approx(x: f64) -> (String, f64) {
    if x == 0.0 {
        return ("0.0".into(), 0.0);
    }
    let bits = x.abs().to_bits();
    let man = (bits & ((1u64 << 52) - 1)) | (1 << 52);
    let sig = 53 - man.trailing_zeros();
    let e = x.abs().log2();
    if sig <= 34 && e > -60.0 && e < 80.0 {
        return (rat(x), 0.0);
    }
    let s = format!("{:?}", x.abs());
    if s.contains('e') || s.contains("inf") || s.contains("NaN") {
        return (rat(x), 0.0);
    }
    let err = x.abs() * 1.2e-16;
    (if x < 0.0 { format!("(- {})", s) } else { s }, err)
}
pub fn itxt(x: i128) -> String {
    if x < 0 {
        format!("(- {})", -x)
    } else {
        format!("{}", x)
    }
}

impl Engine {
    pub fn new() -> Engine {
        Engine {
            nodes: vec![],
            keys: StdMap::new(),
            path: vec![],
            log: vec![],
            pos: 0,
            stats: Stats::default(),
            inputs: vec![],
            hints: vec![],
            fixed_inputs: vec![],
            choices: vec![],
            ufs: vec![],
            bits: vec![],
            ihash: vec![],
            digits: vec![],
            fns: BTreeSet::new(),
            checks_seen: BTreeMap::new(),
            cands: vec![],
            ranges: BTreeMap::new(),
            harness: String::new(),
            hooks: BTreeSet::new(),
            opts: BTreeMap::new(),
            deadline: None,
            qtimeout_ms: 3000,
            cache: StdMap::new(),
            z3: None,
            unknown_path: false,
            model: Default::default(),
            sh_ok: true,
            free: vec![],
            logs: StdMap::new(),
            incomplete: None,
            debug: std::env::var("SYM_DEBUG").is_ok(),
            qdump: std::env::var("SYM_QDUMP").ok(),
            notes: vec![],
            won: BTreeMap::new(),
            samples: vec![],
            pows: vec![],
            squares: StdMap::new(),
            flin: StdMap::new(),
            asked: StdMap::new(),
            canon: StdMap::new(),
            roots: StdMap::new(),
        }
    }
    pub fn reset_path(&mut self) {
        self.nodes.clear();
        self.keys.clear();
        self.path.clear();
        self.pos = 0;
        self.inputs.clear();
        self.hints.clear();
        self.fixed_inputs.clear();
        self.choices.clear();
        self.ufs.clear();
        self.bits.clear();
        self.ihash.clear();
        self.digits.clear();
        self.hooks.clear();
        self.opts.clear();
        self.unknown_path = false;
        self.sh_ok = true;
        self.free.clear();
        self.pows.clear();
        self.squares.clear();
        self.flin.clear();
        self.asked.clear();
        self.canon.clear();
        self.roots.clear();
        self.logs.clear();
    }
    pub fn push(&mut self, n: Node) -> u32 {
        self.nodes.push(n);
        (self.nodes.len() - 1) as u32
    }
    pub fn blank(sort: Sort, lo: f64, hi: f64) -> Node {
        Node {
            sort,
            def: None,
            side: vec![],
            deps: vec![],
            lo,
            hi,
            err: 0.0,
            isint: sort == Sort::Int,
            nl: false,
            mat: None,
            lin: None,
            ilo: 0,
            ihi: 0,
            sh: f64::NAN,
            ish: i128::MIN,
        }
    }
    /// declare a node whose value is chosen freely (input, result of an abstracted function)
    pub fn push_free(&mut self, mut n: Node) -> u32 {
        let id = self.nodes.len() as u32;
        let v = match self.model.get(&id) {
            Some(v) => *v,
            None => {
                let (a, b) = (n.lo.max(-1e4).min(1e4), n.hi.min(1e4).max(-1e4));
                let (a, b) = if n.lo.is_finite() && n.hi.is_finite() { (n.lo, n.hi) } else { (a, b) };
                let f = (id as f64 * 0.6180339887 + 0.37).fract();
                a + (b - a) * f
            }
        };
        let v = v.max(n.lo).min(n.hi);
        if n.sort == Sort::Int {
            n.ish = (v.round() as i128).max(n.ilo).min(n.ihi);
            n.sh = n.ish as f64;
        } else {
            n.sh = v;
        }
        let id = self.push(n);
        self.free.push(id);
        id
    }
    pub fn is_exact(&self, id: u32) -> bool {
        self.nodes[id as usize].err == 0.0
    }
    /// the node whose term *is* the floating-point value (materialising the rounding error if any)
    pub fn mat(&mut self, id: u32) -> u32 {
        let n = &self.nodes[id as usize];
        if let Some(m) = n.mat {
            return m;
        }
        if n.err == 0.0 {
            return id;
        }
        let (lo, hi, err, isint, nl) = (n.lo, n.hi, n.err, n.isint, n.nl);
        let mut m = Self::blank(Sort::Real, lo, hi);
        m.isint = isint;
        m.nl = nl;
        m.deps = vec![id];
        m.sh = n.sh;
        let me = self.nodes.len();
        if err.is_finite() {
            // round the radius up to a short decimal: smaller coefficients for the solver
            let er = short_up(err);
            m.side.push(format!("(<= (- {}) (- n{} n{}) {})", er, me, id, er));
        }
        if lo.is_finite() {
            m.side.push(format!("(<= {} n{})", below(lo), me));
        }
        if hi.is_finite() {
            m.side.push(format!("(<= n{} {})", me, above(hi)));
        }
        let mid = self.push(m);
        self.nodes[id as usize].mat = Some(mid);
        mid
    }

    // ---------------------------------------------------------------- queries
    fn cone(&self, roots: &[u32], out: &mut BTreeSet<u32>) {
        let mut st: Vec<u32> = roots.to_vec();
        while let Some(i) = st.pop() {
            if out.insert(i) {
                st.extend(self.nodes[i as usize].deps.iter().copied());
            }
        }
    }
    pub fn build(&self, extra: &[(String, Vec<u32>)]) -> (String, bool, bool) {
        let mut set = BTreeSet::new();
        for (_, d) in self.path.iter().chain(extra.iter()) {
            self.cone(d, &mut set);
        }
        // a materialised node constrains its origin and vice versa: include siblings' side facts
        let mut nl = false;
        let mut int = false;
        let mut s = String::new();
        let mut sides = String::new();
        for &i in &set {
            let n = &self.nodes[i as usize];
            nl |= n.nl;
            int |= n.sort == Sort::Int;
            let so = if n.sort == Sort::Int { "Int" } else { "Real" };
            match &n.def {
                Some(d) => {
                    let _ = writeln!(s, "(define-fun n{} () {} {})", i, so, d);
                }
                None => {
                    let _ = writeln!(s, "(declare-const n{} {})", i, so);
                }
            }
            for c in &n.side {
                let _ = writeln!(sides, "(assert {})", c);
            }
        }
        // after all declarations: a fact may mention a node made later than the one it belongs to
        s.push_str(&sides);
        for (c, _) in self.path.iter().chain(extra.iter()) {
            let _ = writeln!(s, "(assert {})", c);
        }
        (s, nl, int)
    }
    fn proc(&mut self) -> &mut Proc {
        if self.z3.is_none() {
            let bin = if std::path::Path::new("/opt/veriftools/bin/z3-new").exists() { "/opt/veriftools/bin/z3-new" } else { "z3-new" };
            let mut child = Command::new(bin)
                .args(["-in", "-memory:6000"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("z3-new");
            let stdin = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            self.z3 = Some(Proc { child, stdin, out });
        }
        self.z3.as_mut().unwrap()
    }
    fn z3_run(&mut self, body: &str, tactic: &str, ms: u64, vals: &[u32]) -> (Ans, Vec<String>) {
        let mut q = String::from("(reset)\n");
        let _ = writeln!(q, "(set-option :timeout {})", ms);
        q.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n");
        q.push_str(body);
        if tactic.is_empty() {
            q.push_str("(check-sat)\n");
        } else {
            let _ = writeln!(q, "(check-sat-using (try-for {} {}))", tactic, ms);
        }
        q.push_str("(echo \"ENDQ\")\n");
        let p = self.proc();
        if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.z3 = None;
            return (Ans::Unknown, vec![]);
        }
        let mut ans = Ans::Unknown;
        let mut bad = false;
        loop {
            let mut l = String::new();
            let p = self.z3.as_mut().unwrap();
            match p.out.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    let _ = p.child.kill();
                    self.z3 = None;
                    return (Ans::Unknown, vec![]);
                }
                _ => {}
            }
            let t = l.trim();
            if t == "sat" {
                ans = Ans::Sat
            } else if t == "unsat" {
                ans = Ans::Unsat
            } else if t.starts_with("(error") {
                if !t.contains("canceled") && !t.contains("timeout") {
                    bad = true;
                    eprintln!("SOLVER ERROR {} in\n{}", t, if self.debug { body } else { "" });
                }
            }
            if t.contains("ENDQ") {
                break;
            }
        }
        if bad {
            ans = Ans::Unknown;
        }
        let mut res = vec![];
        if ans == Ans::Sat && !vals.is_empty() {
            let mut q = String::from("(get-value (");
            for v in vals {
                let _ = write!(q, "n{} ", v);
            }
            q.push_str("))\n(echo \"ENDV\")\n");
            let p = self.proc();
            let _ = p.stdin.write_all(q.as_bytes());
            let _ = p.stdin.flush();
            let mut buf = String::new();
            loop {
                let mut l = String::new();
                let p = self.z3.as_mut().unwrap();
                if p.out.read_line(&mut l).unwrap_or(0) == 0 {
                    break;
                }
                if l.contains("ENDV") {
                    break;
                }
                buf.push_str(&l);
            }
            res = parse_values(&buf, vals.len());
        }
        (ans, res)
    }
    fn cvc5_run(&mut self, body: &str, logic: &str, ms: u64, vals: &[u32]) -> (Ans, Vec<String>) {
        let mut q = String::new();
        let _ = writeln!(q, "(set-logic {})", if logic.is_empty() { "ALL" } else { logic });
        q.push_str(body);
        q.push_str("(check-sat)\n");
        if !vals.is_empty() {
            q.push_str("(get-value (");
            for v in vals {
                let _ = write!(q, "n{} ", v);
            }
            q.push_str("))\n");
        }
        let mut c = match Command::new("cvc5")
            .args(["--lang=smt2", "--produce-models", &format!("--tlimit={}", ms)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return (Ans::Unknown, vec![]),
        };
        let mut si = c.stdin.take().unwrap();
        let h = std::thread::spawn(move || {
            let _ = si.write_all(q.as_bytes());
        });
        let o = c.wait_with_output();
        let _ = h.join();
        if let Ok(o) = o {
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let first = t.lines().next().unwrap_or("").trim().to_string();
            if first == "unsat" {
                return (Ans::Unsat, vec![]);
            }
            if first == "sat" {
                let rest: String = t.lines().skip(1).collect::<Vec<_>>().join("\n");
                return (Ans::Sat, parse_values(&rest, vals.len()));
            }
        }
        (Ans::Unknown, vec![])
    }
    /// decide satisfiability of path /\ extra
    pub fn query(&mut self, extra: &[(String, Vec<u32>)], vals: &[u32], scale: u64) -> (Ans, Vec<String>) {
        let t0 = Instant::now();
        let (mut body, nl, int) = self.build(extra);
        // make sure requested values are declared
        if !vals.is_empty() {
            let mut set = BTreeSet::new();
            for (_, d) in self.path.iter().chain(extra.iter()) {
                self.cone(d, &mut set);
            }
            let ex: Vec<(String, Vec<u32>)> = vals.iter().map(|v| ("true".to_string(), vec![*v])).collect();
            let mut all = extra.to_vec();
            all.extend(ex);
            body = self.build(&all).0;
        } else if let Some(a) = self.cache.get(&body) {
            return (*a, vec![]);
        }
        if let Some(d) = &self.qdump {
            let k = self.stats.queries;
            let _ = std::fs::write(format!("{}/{}_{}.smt2", d, self.harness.replace("::", "_").replace('/', "_"), k), format!("{}(check-sat)\n", body));
        }
        self.stats.queries += 1;
        let base = self.qtimeout_ms * scale;
        const FM: &str = "(then simplify propagate-values solve-eqs fm qfnra-nlsat)";
        // (solver, tactic, milliseconds)
        let plan: Vec<(&str, &str, u64)> = match (nl, int) {
            (false, _) => vec![("z3", "", base), ("cvc5", if int { "QF_LIRA" } else { "QF_LRA" }, base * 2), ("z3", "", base * 4)],
            (true, false) => vec![
                ("z3", "smt", 600),
                ("z3", FM, 600),
                ("cvc5", "QF_NRA", 1000),
                ("z3", FM, base),
                ("z3", "smt", base),
                ("cvc5", "QF_NRA", base),
                ("z3", "", base),
                ("z3", "nlqsat", base),
            ],
            (true, true) => vec![("z3", "", base / 3 + 500), ("z3", "smt", base / 3 + 500), ("cvc5", "ALL", base), ("z3", "", base * 2)],
        };
        let (mut a, mut v) = (Ans::Unknown, vec![]);
        for (k, (s, t, ms)) in plan.iter().enumerate() {
            if k > 0 && self.out_of_time() {
                break;
            }
            let r = if *s == "z3" { self.z3_run(&body, t, *ms, vals) } else { self.cvc5_run(&body, t, *ms, vals) };
            a = r.0;
            v = r.1;
            if a != Ans::Unknown {
                *self.won.entry(format!("{} {} {}", s, if t.starts_with('(') { "fm-nlsat" } else { t }, k)).or_insert(0) += 1;
                break;
            }
        }
        match a {
            Ans::Sat => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.solver_s += dt;
        if self.debug && (dt > 0.5 || a == Ans::Unknown) {
            eprintln!("[{}] query {} {:?} {:.2}s nl={} int={} bytes={}", self.harness, self.stats.queries, a, dt, nl, int, body.len());
        }
        if vals.is_empty() {
            self.cache.insert(body, a);
        }
        (a, v)
    }
    pub fn out_of_time(&self) -> bool {
        self.deadline.map_or(false, |d| Instant::now() > d)
    }
}

/// a short rational <= x (x itself when it is short)
pub fn below(x: f64) -> String {
    if x == 0.0 {
        return "0.0".into();
    }
    let man = (x.abs().to_bits() & ((1u64 << 52) - 1)) | (1 << 52);
    if 53 - man.trailing_zeros() <= 24 && x.abs() > 1e-9 {
        return rat(x);
    }
    let m = x.abs();
    let k = m.log10().floor() as i32 - 6;
    let sc = 10f64.powi(k);
    let d = if x > 0.0 { ((m / sc) * (1.0 - 1e-9)).floor() as u64 } else { ((m / sc) * (1.0 + 1e-9)).ceil() as u64 };
    let t = if k >= 0 { format!("{}{}.0", d, "0".repeat(k as usize)) } else { format!("(/ {}.0 1{}.0)", d, "0".repeat((-k) as usize)) };
    if x < 0.0 {
        format!("(- {})", t)
    } else {
        t
    }
}
pub fn above(x: f64) -> String {
    let t = below(-x);
    if let Some(s) = t.strip_prefix("(- ") {
        s[..s.len() - 1].to_string()
    } else if t == "0.0" {
        t
    } else {
        format!("(- {})", t)
    }
}
pub fn short_up(e: f64) -> String {
    // smallest 2-significant-digit decimal >= e
    let k = e.log10().floor() as i32 - 1;
    let m = (e / 10f64.powi(k)).ceil() as u64 + 1;
    if k >= 0 {
        format!("{}{}.0", m, "0".repeat(k as usize))
    } else {
        format!("(/ {}.0 1{}.0)", m, "0".repeat((-k) as usize))
    }
}

// ------------------------------------------------------------------ s-expression values
pub fn parse_values(s: &str, n: usize) -> Vec<String> {
    // ((n1 v1) (n2 v2) ...)
    let toks = tok(s);
    let mut i = 0;
    let mut out = vec![];
    if toks.get(i).map(|x| x.as_str()) != Some("(") {
        return out;
    }
    i += 1;
    while i < toks.len() && toks[i] == "(" {
        i += 1; // (
        i += 1; // name
        let st = i;
        let mut depth = 0;
        loop {
            if i >= toks.len() {
                return out;
            }
            if toks[i] == "(" {
                depth += 1;
            } else if toks[i] == ")" {
                if depth == 0 {
                    break;
                }
                depth -= 1;
            }
            i += 1;
        }
        out.push(toks[st..i].join(" "));
        i += 1;
    }
    let _ = n;
    out
}
fn tok(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut c = String::new();
    for ch in s.chars() {
        if ch == '(' || ch == ')' {
            if !c.is_empty() {
                v.push(std::mem::take(&mut c));
            }
            v.push(ch.to_string());
        } else if ch.is_whitespace() {
            if !c.is_empty() {
                v.push(std::mem::take(&mut c));
            }
        } else {
            c.push(ch);
        }
    }
    if !c.is_empty() {
        v.push(c);
    }
    v
}
pub fn eval_value(s: &str) -> Option<f64> {
    let t = tok(s);
    let mut i = 0;
    ev(&t, &mut i)
}
fn num(s: &str) -> Option<f64> {
    s.trim_end_matches('?').parse::<f64>().ok()
}
fn ev(t: &[String], i: &mut usize) -> Option<f64> {
    if *i >= t.len() {
        return None;
    }
    if t[*i] == "(" {
        *i += 1;
        let op = t.get(*i)?.clone();
        *i += 1;
        let mut a = vec![];
        while *i < t.len() && t[*i] != ")" {
            a.push(ev(t, i)?);
        }
        *i += 1;
        return match op.as_str() {
            "-" if a.len() == 1 => Some(-a[0]),
            "-" => Some(a[0] - a[1]),
            "/" => Some(a[0] / a[1]),
            "*" => Some(a[0] * a[1]),
            "+" => Some(a.iter().sum()),
            "to_real" => Some(a[0]),
            _ => None,
        };
    }
    let r = num(&t[*i]);
    *i += 1;
    r
}
