use super::engine::*;
use super::symi::SymI;
use super::{abort, decide};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub enum SymF {
    C(f64),
    T(u32),
}
use SymF::{C, T};

const U: f64 = 1.1102230246251566e-16; // 2^-53
const TINY: f64 = 1e-300;
const SLACK: f64 = 1.0 + 1e-9;

struct Op {
    txt: String,
    id: Option<u32>,
    err: f64,
    lo: f64,
    hi: f64,
    isint: bool,
    nl: bool,
}
impl Op {
    fn mag(&self) -> f64 {
        self.lo.abs().max(self.hi.abs())
    }
    fn dep(&self) -> Vec<u32> {
        self.id.into_iter().collect()
    }
}
/// operand view: R-term (materialised one if it exists), error radius, FP range
fn op(x: SymF) -> Op {
    match x {
        C(c) => {
            let (txt, err) = approx(c);
            Op { txt, id: None, err, lo: c, hi: c, isint: c.fract() == 0.0, nl: false }
        }
        T(i) => with(|e| {
            let m = e.nodes[i as usize].mat.unwrap_or(i);
            let n = &e.nodes[m as usize];
            if n.lo == n.hi && n.lo.is_finite() {
                let (txt, err) = approx(n.lo);
                return Op { txt, id: None, err, lo: n.lo, hi: n.hi, isint: n.lo.fract() == 0.0, nl: false };
            }
            Op { txt: format!("n{}", m), id: Some(m), err: n.err, lo: n.lo, hi: n.hi, isint: n.isint, nl: n.nl }
        }),
    }
}
/// operand view with the exact FP value (materialising)
fn opx(x: SymF) -> Op {
    match x {
        C(c) => Op { txt: rat(c), id: None, err: 0.0, lo: c, hi: c, isint: c.fract() == 0.0, nl: false },
        T(i) => with(|e| {
            let m = e.mat(i);
            let n = &e.nodes[m as usize];
            Op { txt: format!("n{}", m), id: Some(m), err: 0.0, lo: n.lo, hi: n.hi, isint: n.isint, nl: n.nl }
        }),
    }
}
fn record(name: &str, row: Vec<super::Val>) {
    with(|e| e.logs.entry(name.to_string()).or_default().push(row));
}
fn key(x: SymF) -> String {
    match x {
        C(c) => format!("c{:x}", c.to_bits()),
        T(i) => format!("t{}", i),
    }
}
fn cached(k: &str) -> Option<SymF> {
    with(|e| e.keys.get(k).map(|i| T(*i)))
}
fn fin(k: String, mut n: Node) -> SymF {
    if n.lo == n.hi && n.lo.is_finite() {
        // the FP value is determined
        let c = n.lo;
        return C(c);
    }
    if n.lo > n.hi {
        n.lo = f64::NEG_INFINITY;
        n.hi = f64::INFINITY;
    }
    with(|e| {
        let id = e.push(n);
        e.keys.insert(k, id);
        T(id)
    })
}
/// sum of (num/den * node) + num/den
pub type Rat = (i128, i128);
pub type FLin = (Vec<(Rat, u32)>, Rat);
fn r_norm(n: i128, d: i128) -> Option<Rat> {
    let (mut a, mut b) = (n.unsigned_abs(), d.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    let g = a.max(1) as i128;
    let s = if d < 0 { -1 } else { 1 };
    let r = (s * n / g, s * d / g);
    if r.0.abs() > 1 << 60 || r.1 > 1 << 60 { None } else { Some(r) }
}
fn r_add(a: Rat, b: Rat) -> Option<Rat> {
    r_norm(a.0 * b.1 + b.0 * a.1, a.1 * b.1)
}
fn r_mul(a: Rat, b: Rat) -> Option<Rat> {
    r_norm(a.0 * b.0, a.1 * b.1)
}
fn r_const(c: f64) -> Option<Rat> {
    // only constants whose text in the encoding is exact
    if op(C(c)).err == 0.0 && c.abs() < 1e9 && (c * 1024.0).fract() == 0.0 {
        r_norm((c * 1024.0) as i128, 1024)
    } else {
        None
    }
}
fn flin(x: SymF) -> Option<FLin> {
    match x {
        C(c) => Some((vec![], r_const(c)?)),
        T(i) => with(|e| Some(e.flin.get(&i).cloned().unwrap_or((vec![((1, 1), i)], (0, 1))))),
    }
}
/// distance between the value the other operations see (materialised) and the one `flin` speaks of
fn extra(x: SymF) -> f64 {
    match x {
        T(i) => with(|e| if e.nodes[i as usize].mat.is_some() { e.nodes[i as usize].err } else { 0.0 }),
        _ => 0.0,
    }
}
fn flin_add(a: &FLin, b: &FLin, s: i128) -> Option<FLin> {
    let mut v = a.0.clone();
    for (c, t) in &b.0 {
        let c = (c.0 * s, c.1);
        match v.iter().position(|x| x.1 == *t) {
            Some(k) => {
                let r = r_add(v[k].0, c)?;
                if r.0 == 0 {
                    v.remove(k);
                } else {
                    v[k].0 = r;
                }
            }
            None => v.push((c, *t)),
        }
    }
    if v.len() > 6 {
        return None;
    }
    Some((v, r_add(a.1, (b.1 .0 * s, b.1 .1))?))
}
fn flin_mul(a: &FLin, k: Rat) -> Option<FLin> {
    let mut v = vec![];
    for (c, t) in &a.0 {
        v.push((r_mul(*c, k)?, *t));
    }
    Some((v, r_mul(a.1, k)?))
}
/// the node this value equals in real arithmetic
fn alias(i: u32) -> u32 {
    with(|e| match e.flin.get(&i) {
        Some(l) => e.canon.get(l).copied().unwrap_or(i),
        _ => i,
    })
}
fn set_flin(r: SymF, l: Option<FLin>, extra: f64) -> SymF {
    if let (T(i), Some(mut l)) = (r, l) {
        l.0.sort_by_key(|x| x.1);
        with(|e| {
            if e.flin.contains_key(&i) {
                return;
            }
            // the range of the linear form is often tighter than interval arithmetic's
            let k = l.1 .0 as f64 / l.1 .1 as f64;
            let (mut lo, mut hi) = (k, k);
            let mut pad = e.nodes[i as usize].err + extra + k.abs() * 1e-15;
            for (c, t) in &l.0 {
                let c = c.0 as f64 / c.1 as f64;
                let b = &e.nodes[*t as usize];
                let (x, y) = (c * b.lo, c * b.hi);
                lo += x.min(y);
                hi += x.max(y);
                pad += c.abs() * b.err + x.abs().max(y.abs()) * 1e-15;
            }
            pad *= 1.0 + SLACK;
            if lo.is_finite() && hi.is_finite() && pad.is_finite() {
                let n = &mut e.nodes[i as usize];
                if lo - pad > n.lo {
                    n.lo = lo - pad;
                }
                if hi + pad < n.hi {
                    n.hi = hi + pad;
                }
            }
            let same = if l.1 .0 == 0 && l.0.len() == 1 && l.0[0].0 == (1, 1) { Some(l.0[0].1) } else { e.canon.get(&l).copied() };
            match same {
                Some(t) if t < i => {
                    let (lo, hi) = (e.nodes[t as usize].lo, e.nodes[t as usize].hi);
                    let n = &mut e.nodes[i as usize];
                    n.err = (n.err + extra) * SLACK;
                    let pad = (e.nodes[i as usize].err + e.nodes[t as usize].err) * 1.001;
                    let n = &mut e.nodes[i as usize];
                    n.def = Some(format!("n{}", t));
                    n.deps = vec![t];
                    n.lo = n.lo.max(lo - pad);
                    n.hi = n.hi.min(hi + pad);
                    e.canon.insert(l.clone(), t);
                }
                _ if extra > 0.0 => return,
                _ => {
                    e.canon.insert(l.clone(), i);
                }
            }
            e.flin.insert(i, l);
        })
    }
    r
}
fn fadd(a: f64, b: f64) -> f64 {
    let r = a + b;
    if r.is_nan() {
        f64::NEG_INFINITY
    } else {
        r
    }
}

impl SymF {
    pub const fn c(x: f64) -> SymF {
        C(x)
    }
    pub const MAX: SymF = C(f64::MAX);
    pub const MIN: SymF = C(f64::MIN);
    pub const MIN_POSITIVE: SymF = C(f64::MIN_POSITIVE);
    pub const EPSILON: SymF = C(f64::EPSILON);
    pub const INFINITY: SymF = C(f64::INFINITY);
    pub const NEG_INFINITY: SymF = C(f64::NEG_INFINITY);
    pub const NAN: SymF = C(f64::NAN);

    pub fn range(self) -> (f64, f64) {
        match self {
            C(c) => (c, c),
            T(i) => with(|e| {
                let m = e.nodes[i as usize].mat.unwrap_or(i);
                (e.nodes[m as usize].lo, e.nodes[m as usize].hi)
            }),
        }
    }
    /// the path condition implies lo <= self <= hi
    pub fn tighten(self, lo: f64, hi: f64) {
        if let T(i) = self {
            with(|e| {
                for k in [Some(i), e.nodes[i as usize].mat].into_iter().flatten() {
                    let n = &mut e.nodes[k as usize];
                    let (l, h) = (n.lo.max(lo), n.hi.min(hi));
                    if l <= h {
                        n.lo = l;
                        n.hi = h;
                    }
                }
            })
        }
    }
    pub fn sh(self) -> f64 {
        match self {
            C(c) => c,
            T(i) => with(|e| e.nodes[i as usize].sh),
        }
    }
    pub fn set_sh(self, v: f64) -> SymF {
        if let T(i) = self {
            with(|e| {
                e.nodes[i as usize].sh = v;
                if let Some(m) = e.nodes[i as usize].mat {
                    e.nodes[m as usize].sh = v;
                }
            })
        }
        self
    }
    pub fn error_radius(self) -> f64 {
        op(self).err
    }
    pub fn is_const(self) -> bool {
        matches!(self, C(_))
    }
    /// fresh input in [lo, hi]
    pub fn input(name: &str, lo: f64, hi: f64) -> SymF {
        with(|e| {
            let me = e.nodes.len();
            let mut n = Engine::blank(Sort::Real, lo, hi);
            n.side.push(format!("(<= {} n{} {})", rat(lo), me, rat(hi)));
            let id = e.push_free(n);
            e.inputs.push((name.to_string(), id, Sort::Real));
            e.ranges.insert(name.to_string(), (lo as f64, hi as f64, false));
            T(id)
        })
    }
    fn special(a: SymF, b: SymF) -> bool {
        matches!(a, C(c) if !c.is_finite()) || matches!(b, C(c) if !c.is_finite())
    }
    fn add_(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a + b);
        }
        if let C(b) = o {
            if b == 0.0 {
                return self;
            }
            if !b.is_finite() {
                return C(b);
            }
        }
        if let C(a) = self {
            if a == 0.0 {
                return o;
            }
            if !a.is_finite() {
                return C(a);
            }
        }
        let (ka, kb) = (key(self), key(o));
        let k = if ka <= kb { format!("+{},{}", ka, kb) } else { format!("+{},{}", kb, ka) };
        if let Some(r) = cached(&k) {
            return r;
        }
        let (a, b) = (op(self), op(o));
        let lo = fadd(a.lo, b.lo);
        let hi = { let r = a.hi + b.hi; if r.is_nan() { f64::INFINITY } else { r } };
        let mut n = Engine::blank(Sort::Real, lo, hi);
        n.isint = a.isint && b.isint && lo.abs().max(hi.abs()) < 9e15;
        let exact = n.isint && a.err == 0.0 && b.err == 0.0;
        n.err = if exact { 0.0 } else { (a.err + b.err + U * lo.abs().max(hi.abs()) + TINY) * SLACK };
        n.nl = false;
        n.def = Some(format!("(+ {} {})", a.txt, b.txt));
        n.deps = a.dep().into_iter().chain(b.dep()).collect();
        let l = flin(self).and_then(|x| flin_add(&x, &flin(o)?, 1));
        let x = extra(self) + extra(o);
        set_flin(fin(k, n), l, x)
    }
    fn sub_(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a - b);
        }
        if let C(b) = o {
            return self.add_(C(-b));
        }
        if let (T(a), T(b)) = (self, o) {
            if a == b {
                return C(0.0);
            }
        }
        let k = format!("-{},{}", key(self), key(o));
        if let Some(r) = cached(&k) {
            return r;
        }
        let (a, b) = (op(self), op(o));
        let lo = fadd(a.lo, -b.hi);
        let hi = { let r = a.hi - b.lo; if r.is_nan() { f64::INFINITY } else { r } };
        let mut n = Engine::blank(Sort::Real, lo, hi);
        n.isint = a.isint && b.isint && lo.abs().max(hi.abs()) < 9e15;
        let exact = n.isint && a.err == 0.0 && b.err == 0.0;
        n.err = if exact { 0.0 } else { (a.err + b.err + U * lo.abs().max(hi.abs()) + TINY) * SLACK };
        n.def = Some(format!("(- {} {})", a.txt, b.txt));
        n.deps = a.dep().into_iter().chain(b.dep()).collect();
        let l = flin(self).and_then(|x| flin_add(&x, &flin(o)?, -1));
        let x = extra(self) + extra(o);
        set_flin(fin(k, n), l, x)
    }
    fn neg_(self) -> SymF {
        if let C(a) = self {
            return C(-a);
        }
        let k = format!("neg{}", key(self));
        if let Some(r) = cached(&k) {
            return r;
        }
        let a = op(self);
        let mut n = Engine::blank(Sort::Real, -a.hi, -a.lo);
        n.isint = a.isint;
        n.err = a.err;
        n.def = Some(format!("(- {})", a.txt));
        n.deps = a.dep();
        let l = flin(self).and_then(|x| flin_mul(&x, (-1, 1)));
        let x = extra(self);
        set_flin(fin(k, n), l, x)
    }
    fn mul_(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a * b);
        }
        if let C(_) = self {
            return o.mul_(self);
        }
        if let C(b) = o {
            if b == 1.0 {
                return self;
            }
            if b == -1.0 {
                return -self;
            }
            if b == 0.0 {
                return C(0.0);
            }
            if !b.is_finite() {
                abort("unsupported: symbolic times non-finite");
            }
        }
        let (ka, kb) = (key(self), key(o));
        let k = if ka <= kb { format!("*{},{}", ka, kb) } else { format!("*{},{}", kb, ka) };
        if let Some(r) = cached(&k) {
            return r;
        }
        let same = matches!((self, o), (T(a), T(b)) if a == b);
        if let (T(i), T(j)) = (self, o) {
            if super::opt("linear_cubes", 0) == 1 {
                let m = |i: u32| alias(with(|e| e.nodes[i as usize].mat.unwrap_or(i)));
                let (ai, aj) = (m(i), m(j));
                let sq = with(|e| (e.squares.get(&i).copied() == Some(aj), e.squares.get(&j).copied() == Some(ai)));
                let base = if sq.0 { Some((o, aj)) } else if sq.1 { Some((self, ai)) } else { None };
                let base = base.filter(|b| with(|e| !e.roots.contains_key(&b.1))).map(|b| b.0);
                if let Some(x) = base {
                    if x >= C(0.0) {
                        return x.pow_enclosed(3.0);
                    }
                    let y = (-x).pow_enclosed(3.0);
                    return -y;
                }
            }
        }
        let (a, b) = (op(self), op(o));
        let ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
        let fixn = |x: f64| if x.is_nan() { 0.0 } else { x };
        let mut lo = ps.iter().copied().map(fixn).fold(f64::INFINITY, f64::min);
        let hi = ps.iter().copied().map(fixn).fold(f64::NEG_INFINITY, f64::max);
        if same {
            lo = if a.lo <= 0.0 && a.hi >= 0.0 { 0.0 } else { (a.lo * a.lo).min(a.hi * a.hi) };
        }
        let mut n = Engine::blank(Sort::Real, lo, hi);
        n.isint = a.isint && b.isint && lo.abs().max(hi.abs()) < 9e15;
        let p2 = |x: &Op| x.id.is_none() && x.lo != 0.0 && x.lo.abs().log2().fract() == 0.0;
        let exact = (n.isint || p2(&a) || p2(&b)) && a.err == 0.0 && b.err == 0.0;
        n.err = if exact {
            0.0
        } else {
            let prop = mulz(a.mag(), b.err) + mulz(b.mag(), a.err) + mulz(a.err, b.err);
            let rnd = if p2(&a) || p2(&b) { 0.0 } else { U * lo.abs().max(hi.abs()) };
            (prop + rnd + TINY) * SLACK
        };
        n.nl = a.id.is_some() && b.id.is_some();
        n.def = Some(format!("(* {} {})", a.txt, b.txt));
        n.deps = a.dep().into_iter().chain(b.dep()).collect();
        let l = match o {
            C(b) => r_const(b).and_then(|b| flin_mul(&flin(self)?, b)),
            _ => None,
        };
        let x = extra(self) * b.mag();
        let r = set_flin(fin(k, n), l, x);
        if let (T(q), T(x), T(y)) = (r, self, o) {
            let (x, y) = (alias(with(|e| e.nodes[x as usize].mat.unwrap_or(x))), alias(with(|e| e.nodes[y as usize].mat.unwrap_or(y))));
            if x == y {
                with(|e| e.squares.insert(q, x));
            } else {
                // the cube of a cube root
                let c = with(|e| {
                    let sq = if e.squares.get(&x) == Some(&y) { Some(y) } else if e.squares.get(&y) == Some(&x) { Some(x) } else { None };
                    sq.and_then(|b| e.roots.get(&b).cloned())
                });
                if let Some((txt, dep, lo, hi)) = c {
                    with(|e| {
                        let n = &mut e.nodes[q as usize];
                        n.def = Some(txt);
                        n.deps = dep;
                        n.nl = false;
                        let pad = n.err;
                        n.lo = n.lo.max(lo - pad);
                        n.hi = n.hi.min(hi + pad);
                    });
                }
            }
        }
        r
    }
    fn div_(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a / b);
        }
        if let C(b) = o {
            if b == 1.0 {
                return self;
            }
            if b == 0.0 || !b.is_finite() {
                if b == 0.0 {
                    if self == C(0.0) {
                        return C(f64::NAN);
                    }
                    let s = if self > C(0.0) { 1.0 } else { -1.0 };
                    return C(s / b);
                }
                if b.is_nan() {
                    return C(b);
                }
                return C(0.0);
            }
        }
        if let C(z) = self {
            let (l, h) = o.range();
            if z == 0.0 && (l > 0.0 || h < 0.0) {
                return C(if l > 0.0 { z } else { -z });
            }
        }
        let k = format!("/{},{}", key(self), key(o));
        if let Some(r) = cached(&k) {
            return r;
        }
        if let C(bc) = o {
            let a = op(self);
            let (bt, be) = approx(bc);
            let (mut lo, mut hi) = (a.lo / bc, a.hi / bc);
            if lo > hi {
                std::mem::swap(&mut lo, &mut hi);
            }
            let mut n = Engine::blank(Sort::Real, lo, hi);
            let m = lo.abs().max(hi.abs());
            let p2 = bc.abs().log2().fract() == 0.0;
            n.err = if p2 && a.err == 0.0 { 0.0 } else { ((a.err + m * be) / (bc.abs() - be) + U * m + TINY) * SLACK };
            n.def = Some(format!("(/ {} {})", a.txt, bt));
            n.deps = a.dep();
            let l = r_const(bc).and_then(|b| flin_mul(&flin(self)?, r_norm(b.1, b.0)?));
            let x = extra(self) / bc.abs();
            return set_flin(fin(k, n), l, x);
        }
        // symbolic denominator: use exact FP value of the denominator
        let mut b = opx(o);
        if b.lo <= 0.0 && b.hi >= 0.0 {
            // 1. zero?
            if o == C(0.0) {
                return self.div_(C(0.0));
            }
            // 2. sign and magnitude bound from the path condition
            let pos = o > C(0.0);
            let mut bound = 0.0;
            for ex in [3i32, 10, 20, 30, 45, 60, 120] {
                let t = 2f64.powi(-ex);
                let (atom, d) = if pos {
                    (format!("(< {} {})", b.txt, rat(t)), b.dep())
                } else {
                    (format!("(> {} (- {}))", b.txt, rat(t)), b.dep())
                };
                if with(|e| e.query(&[(atom, d)], &[], 1).0) == Ans::Unsat {
                    bound = t;
                    break;
                }
            }
            if pos {
                b.lo = bound;
            } else {
                b.hi = -bound;
            }
        }
        let a = op(self);
        let minb = if b.lo > 0.0 { b.lo } else if b.hi < 0.0 { -b.hi } else { 0.0 };
        let me = with(|e| e.nodes.len());
        let mut n;
        if minb > 0.0 {
            let ps = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi];
            let lo = ps.iter().copied().fold(f64::INFINITY, f64::min);
            let hi = ps.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            n = Engine::blank(Sort::Real, lo, hi);
            let m = lo.abs().max(hi.abs());
            n.err = (a.err / minb + U * m + TINY) * SLACK;
            // bounds of the exact quotient help nonlinear solvers
            if m.is_finite() {
                let pad = n.err + m * 1e-15;
                n.side.push(format!("(<= {} n{} {})", rat(lo - pad), me, rat(hi + pad)));
            }
        } else {
            // sign known, magnitude unbounded: keep the quotient exact up to a relative perturbation
            let ax = opx(self);
            let me = with(|e| e.nodes.len());
            n = Engine::blank(Sort::Real, f64::NEG_INFINITY, f64::INFINITY);
            let d = if a.id.is_some() { ax.dep() } else { vec![] };
            n.nl = true;
            n.deps = d.into_iter().chain(b.dep()).collect();
            // |q*b - a| <= 2^-52 * |a|
            n.side.push(format!(
                "(and (<= (- (* n{m} {b}) {a}) (* (/ 1.0 4503599627370496.0) (ite (>= {a} 0.0) {a} (- {a})))) (<= (- {a} (* n{m} {b})) (* (/ 1.0 4503599627370496.0) (ite (>= {a} 0.0) {a} (- {a})))))",
                m = me, b = b.txt, a = ax.txt
            ));
            return fin(k, n);
        }
        n.nl = true;
        n.side.push(format!("(= (* n{} {}) {})", me, b.txt, a.txt));
        n.deps = a.dep().into_iter().chain(b.dep()).collect();
        fin(k, n)
    }
    fn cmp_(rel: &str, a: SymF, b: SymF) -> bool {
        // rel in < <= =
        if let (C(x), C(y)) = (a, b) {
            return match rel {
                "<" => x < y,
                "<=" => x <= y,
                _ => x == y,
            };
        }
        if let (T(x), T(y)) = (a, b) {
            if x == y {
                return rel != "<";
            }
        }
        if SymF::special(a, b) {
            // symbolic values are finite
            let f = |v: SymF| match v {
                C(c) => c,
                _ => 0.0,
            };
            let (x, y) = (f(a), f(b));
            return match rel {
                "<" => x < y,
                "<=" => x <= y,
                _ => x == y,
            };
        }
        let (ra, rb) = (a.range(), b.range());
        let quick = match rel {
            "<" => {
                if ra.1 < rb.0 {
                    Some(true)
                } else if ra.0 >= rb.1 {
                    Some(false)
                } else {
                    None
                }
            }
            "<=" => {
                if ra.1 <= rb.0 {
                    Some(true)
                } else if ra.0 > rb.1 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => {
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    Some(false)
                } else {
                    None
                }
            }
        };
        if let Some(q) = quick {
            with(|e| e.stats.interval_decided += 1);
            return q;
        }
        let (x, y) = (opx(a), opx(b));
        let atom = format!("({} {} {})", rel, x.txt, y.txt);
        let neg = match rel {
            "<" => format!("(>= {} {})", x.txt, y.txt),
            "<=" => format!("(> {} {})", x.txt, y.txt),
            _ => format!("(not (= {} {}))", x.txt, y.txt),
        };
        let deps = x.dep().into_iter().chain(y.dep()).collect();
        let (u, v) = (a.sh(), b.sh());
        let sh = if u.is_nan() || v.is_nan() {
            None
        } else {
            Some(match rel {
                "<" => u < v,
                "<=" => u <= v,
                _ => u == v,
            })
        };
        let r = decide(atom, neg, deps, sh);
        let (lo_hi_a, lo_hi_b) = (a.range(), b.range());
        match (rel, r) {
            ("<", true) | ("<=", true) => {
                a.tighten(f64::NEG_INFINITY, lo_hi_b.1);
                b.tighten(lo_hi_a.0, f64::INFINITY);
            }
            ("<", false) | ("<=", false) => {
                a.tighten(lo_hi_b.0, f64::INFINITY);
                b.tighten(f64::NEG_INFINITY, lo_hi_a.1);
            }
            ("=", true) => {
                a.tighten(lo_hi_b.0, lo_hi_b.1);
                b.tighten(lo_hi_a.0, lo_hi_a.1);
            }
            _ => {}
        }
        r
    }
    // ------------------------------------------------------------ rounding
    fn int_part(self, kind: &str) -> SymI {
        // Int k = floor/ceil/trunc/round(self)
        let k = format!("ip{}{}", kind, key(self));
        if let Some(T(i)) = cached(&k) {
            return SymI::T(i);
        }
        let x = opx(self);
        let f = |v: f64| match kind {
            "floor" => v.floor(),
            "ceil" => v.ceil(),
            "trunc" => v.trunc(),
            _ => v.round(),
        };
        let (lo, hi) = (f(x.lo), f(x.hi));
        if !(lo.abs() < 9e18 && hi.abs() < 9e18) {
            abort("unsupported: rounding of an unbounded value");
        }
        if lo == hi {
            return SymI::C(lo as i64);
        }
        let me = with(|e| e.nodes.len());
        let mut n = Engine::blank(Sort::Int, lo, hi);
        n.ilo = lo as i128;
        n.ihi = hi as i128;
        n.lin = Some((vec![(1, me as u32)], 0));
        let r = format!("(to_real n{})", me);
        let v = x.txt.clone();
        let fl = format!("(and (<= {r} {v}) (< {v} (+ {r} 1.0)))");
        let ce = format!("(and (>= {r} {v}) (> {v} (- {r} 1.0)))");
        let rp = format!("(and (<= (- {r} 0.5) {v}) (< {v} (+ {r} 0.5)))");
        let rn = format!("(and (< (- {r} 0.5) {v}) (<= {v} (+ {r} 0.5)))");
        let c = match kind {
            "floor" => fl,
            "ceil" => ce,
            "trunc" => {
                if x.lo >= 0.0 {
                    fl
                } else if x.hi <= 0.0 {
                    ce
                } else {
                    format!("(ite (>= {v} 0.0) {fl} {ce})")
                }
            }
            _ => {
                if x.lo >= 0.0 {
                    rp
                } else if x.hi <= 0.0 {
                    rn
                } else {
                    format!("(ite (>= {v} 0.0) {rp} {rn})")
                }
            }
        };
        n.side.push(c);
        n.side.push(format!("(<= {} n{} {})", itxt(n.ilo), me, itxt(n.ihi)));
        n.deps = x.dep();
        let v = self.sh();
        if !v.is_nan() {
            n.sh = f(v);
            n.ish = n.sh as i128;
        }
        match fin(k, n) {
            T(i) => SymI::T(i),
            C(c) => SymI::C(c as i64),
        }
    }
    pub fn trunc_i(self) -> SymI {
        match self {
            C(c) => SymI::C(c as i64),
            _ => self.int_part("trunc"),
        }
    }
    pub fn floor(self) -> SymF {
        match self {
            C(c) => C(c.floor()),
            _ => self.int_part("floor").to_f(),
        }
    }
    pub fn ceil(self) -> SymF {
        match self {
            C(c) => C(c.ceil()),
            _ => self.int_part("ceil").to_f(),
        }
    }
    pub fn trunc(self) -> SymF {
        match self {
            C(c) => C(c.trunc()),
            _ => self.int_part("trunc").to_f(),
        }
    }
    pub fn round(self) -> SymF {
        match self {
            C(c) => C(c.round()),
            _ => self.int_part("round").to_f(),
        }
    }
    pub fn fract(self) -> SymF {
        match self {
            C(c) => C(c.fract()),
            // exact, like the remainder
            _ => self.rem_(C(1.0)),
        }
    }
    fn rem_(self, o: SymF) -> SymF {
        match (self, o) {
            (C(a), C(b)) => return C(a % b),
            (_, C(b)) if b == 0.0 || b.is_nan() => return C(f64::NAN),
            (_, C(b)) if b.is_infinite() => return self,
            _ => {}
        }
        let k = format!("%{},{}", key(self), key(o));
        if let Some(r) = cached(&k) {
            return r;
        }
        let C(m) = o else {
            if o == C(0.0) {
                return C(f64::NAN);
            }
            let (l, h) = o.range();
            let _ = (l, h);
            abort("unsupported: fmod by a symbolic modulus")
        };
        let m = m.abs();
        let x = opx(self);
        // fmod is exact: r = x - m*q, q integer, |r| < m, sign of x
        let qlo = (x.lo / m).trunc() - 1.0;
        let qhi = (x.hi / m).trunc() + 1.0;
        if x.lo > -m && x.hi < m {
            return self;
        }
        let shx = self.sh();
        let (q, qid) = with(|e| {
            let me = e.nodes.len();
            let mut n = Engine::blank(Sort::Int, qlo, qhi);
            n.ilo = qlo as i128;
            n.ihi = qhi as i128;
            n.lin = Some((vec![(1, me as u32)], 0));
            n.side.push(format!("(<= {} n{} {})", itxt(n.ilo), me, itxt(n.ihi)));
            n.sh = (shx / m).trunc();
            n.ish = n.sh as i128;
            let id = e.push(n);
            (format!("(to_real n{})", id), id)
        });
        let me = with(|e| e.nodes.len());
        let lo = if x.lo >= 0.0 { 0.0 } else { -m.next_down() };
        let hi = if x.hi <= 0.0 { 0.0 } else { m.next_down() };
        let mut n = Engine::blank(Sort::Real, lo, hi);
        let mt = rat(m);
        n.def = Some(format!("(- {} (* {} {}))", x.txt, mt, q));
        let pos = format!("(and (<= 0.0 n{me}) (< n{me} {mt}))");
        let neg = format!("(and (< (- {mt}) n{me}) (<= n{me} 0.0))");
        n.side.push(if x.lo >= 0.0 {
            pos
        } else if x.hi <= 0.0 {
            neg
        } else {
            format!("(ite (>= {} 0.0) {pos} {neg})", x.txt)
        });
        n.isint = x.isint && m.fract() == 0.0;
        n.deps = x.dep().into_iter().chain([qid]).collect();
        fin(k, n)
    }
    // ------------------------------------------------------------ piecewise
    pub fn abs(self) -> SymF {
        match self {
            C(c) => C(c.abs()),
            _ => {
                if self >= C(0.0) {
                    self
                } else {
                    -self
                }
            }
        }
    }
    pub fn signum(self) -> SymF {
        match self {
            C(c) => C(c.signum()),
            _ => {
                if self >= C(0.0) {
                    C(1.0)
                } else {
                    C(-1.0)
                }
            }
        }
    }
    pub fn copysign(self, s: SymF) -> SymF {
        let a = self.abs();
        if s < C(0.0) {
            -a
        } else {
            a
        }
    }
    pub fn min(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a.min(b));
        }
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self <= o {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a.max(b));
        }
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self >= o {
            self
        } else {
            o
        }
    }
    pub fn minimum(self, o: SymF) -> SymF {
        self.min(o)
    }
    pub fn maximum(self, o: SymF) -> SymF {
        self.max(o)
    }
    pub fn clamp(self, lo: SymF, hi: SymF) -> SymF {
        assert!(lo <= hi, "min > max, or either was NaN");
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn is_nan(self) -> bool {
        matches!(self, C(c) if c.is_nan())
    }
    pub fn is_finite(self) -> bool {
        match self {
            C(c) => c.is_finite(),
            _ => true,
        }
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, C(c) if c.is_infinite())
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            C(c) => c.is_sign_negative(),
            _ => self < C(0.0),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn is_normal(self) -> bool {
        match self {
            C(c) => c.is_normal(),
            _ => self != C(0.0),
        }
    }
    // ------------------------------------------------------------ algebraic
    pub fn sqrt(self) -> SymF {
        if let C(c) = self {
            return C(c.sqrt());
        }
        self.root(2, 0.0)
    }
    pub fn cbrt(self) -> SymF {
        if let C(c) = self {
            return C(c.cbrt());
        }
        if self < C(0.0) {
            return -((-self).root(3, 0.0));
        }
        self.root(3, 0.0)
    }
    /// k-th root of a value; negative -> NaN. `perr`: extra relative error of the result
    fn root(self, k: u32, perr: f64) -> SymF {
        let ky = format!("root{},{:x},{}", k, perr.to_bits(), key(self));
        if let Some(r) = cached(&ky) {
            return r;
        }
        if self < C(0.0) {
            return C(f64::NAN);
        }
        let x = opx(self);
        let me = with(|e| e.nodes.len());
        let p = 1.0 / k as f64;
        let lo = (x.lo.max(0.0)).powf(p) * (1.0 - 1e-14);
        let hi = x.hi.powf(p) * (1.0 + 1e-14);
        let mut n = Engine::blank(Sort::Real, lo, hi);
        n.err = (hi * (4.0 * U + perr) + TINY) * SLACK;
        n.nl = true;
        let prod = if k == 2 { format!("(* n{me} n{me})") } else { format!("(* n{me} n{me} n{me})") };
        n.side.push(format!("(= {} {})", prod, x.txt));
        let hu = if hi.is_finite() { format!(" (<= n{} {})", me, rat(hi * (1.0 + 1e-13))) } else { String::new() };
        n.side.push(format!("(and (<= {} n{}){})", rat(lo * (1.0 - 1e-13)), me, hu));
        n.deps = x.dep();
        n.sh = if k == 3 { self.sh().cbrt() } else { self.sh().sqrt() };
        let r = fin(ky, n);
        if let (3, T(i)) = (k, r) {
            let d = x.dep();
            with(|e| e.roots.insert(i, (x.txt.clone(), d, x.lo, x.hi)));
        }
        r
    }
    pub fn powi(self, k: i32) -> SymF {
        if let C(c) = self {
            return C(c.powi(k));
        }
        if k < 0 {
            return C(1.0) / self.powi(-k);
        }
        let mut r = C(1.0);
        for _ in 0..k {
            r = r * self;
        }
        r
    }
    pub fn powf(self, p: SymF) -> SymF {
        if let (C(a), C(b)) = (self, p) {
            return C(a.powf(b));
        }
        let C(pc) = p else { return self.pow_sym(p) };
        if pc == 0.0 {
            return C(1.0);
        }
        if pc == 1.0 {
            return self;
        }
        if pc == 2.0 || pc == 3.0 || pc == 4.0 {
            return self.powi(pc as i32);
        }
        if pc == 0.5 {
            return self.root(2, 0.0);
        }
        if (pc - 1.0 / 3.0).abs() < 1e-15 {
            // x^(p) with |p-1/3| <= 6e-17: relative deviation |ln x| * 6e-17
            let (lo, hi) = self.range();
            let l = if hi > 0.0 { hi.ln().abs() } else { 0.0 }.max(if lo > 1e-12 { lo.ln().abs() } else { 745.0 });
            if lo <= 1e-12 {
                // near zero the absolute error is bounded by the value itself; keep a conservative radius
            }
            if super::opt("linear_cubes", 0) == 1 {
                let r = self.pow_enclosed(pc);
                if let T(i) = r {
                    let x = opx(self);
                    let d = x.dep();
                    with(|e| e.roots.insert(i, (x.txt.clone(), d, x.lo, x.hi)));
                }
                return r;
            }
            return self.root(3, l * 6e-17 + 2.0 * U);
        }
        self.pow_enclosed(pc)
    }
    fn pow_sym(self, p: SymF) -> SymF {
        let (lo, hi) = (0.0, f64::INFINITY);
        let r = super::uf("pow", &[self.into(), p.into()], &[(Sort::Real, lo, hi)]);
        match r[0] {
            super::Val::F(f) => f,
            _ => unreachable!(),
        }
    }
    /// certified piecewise-linear enclosure of x^p on the range of x (x >= 0)
    fn pow_enclosed(self, p: f64) -> SymF {
        let ky = format!("pow{:x},{}", p.to_bits(), key(self));
        if let Some(r) = cached(&ky) {
            return r;
        }
        if self < C(0.0) {
            return C(f64::NAN);
        }
        if p < 0.0 {
            return C(1.0) / self.pow_enclosed(-p);
        }
        let x = opx(self);
        let xlo = x.lo.max(0.0);
        let xhi = x.hi;
        if !xhi.is_finite() {
            abort("unsupported: pow of an unbounded value");
        }
        if with(|e| e.debug) {
            eprintln!("pow {} on [{}, {}]", p, xlo, xhi);
        }
        let f = |v: f64| v.powf(p);
        let (ylo, yhi) = (f(xlo) * (1.0 - 1e-14), f(xhi) * (1.0 + 1e-14));
        let me = with(|e| e.nodes.len());
        let mut n = Engine::blank(Sort::Real, ylo, yhi);
        n.err = (yhi * 4.0 * U + TINY) * SLACK;
        let segs = super::opt("pow_segments", 12) as usize;
        let w = xhi - xlo;
        let eps = yhi * 1e-12 + 1e-14;
        n.side.push(format!("(<= {} n{} {})", rat(ylo * (1.0 - 1e-13)), me, rat(yhi * (1.0 + 1e-13))));
        // breakpoints, denser near the origin
        let mut bp: Vec<f64> = (0..=segs).map(|i| xlo + w * (i as f64 / segs as f64).powi(2)).collect();
        bp[segs] = xhi;
        if xlo < 1.0 && xhi > 1.0 {
            bp.push(1.0);
            bp.sort_by(|a, b| a.partial_cmp(b).unwrap());
        }
        let segs = bp.len() - 1;
        let dec = |v: f64| dec_txt(v);
        for i in 0..segs {
            let (a, b) = (bp[i], bp[i + 1]);
            if !(b > a) {
                continue;
            }
            let (fa, fb) = (f(a), f(b));
            let sl = (fb - fa) / (b - a);
            let chord = format!("(+ {} (* {} (- {} {})))", dec(fa), dec(sl), x.txt, dec(a));
            // the end segments are open-ended: x is in range, breakpoints are rounded (the pads below
            // cover that)
            let cond = match (i == 0, i + 1 == segs) {
                (true, true) => "true".to_string(),
                (true, false) => format!("(<= {} {})", x.txt, dec(b)),
                (false, true) => format!("(<= {} {})", dec(a), x.txt),
                _ => format!("(and (<= {} {}) (<= {} {}))", dec(a), x.txt, x.txt, dec(b)),
            };
            let pad = eps + (sl.abs() * 1e-12) + w * 1e-12;
            if p > 1.0 {
                n.side.push(format!("(=> {} (<= n{} (+ {} {})))", cond, me, chord, dec(pad)));
            } else {
                n.side.push(format!("(=> {} (>= n{} (- {} {})))", cond, me, chord, dec(pad)));
            }
            n.side.push(format!(
                "(=> {} (and (<= {} n{}) (<= n{} {})))",
                cond,
                dec(fa - pad),
                me,
                me,
                dec(fb + pad)
            ));
        }
        for &a in bp.iter() {
            if a <= 0.0 {
                continue;
            }
            let fa = f(a);
            let sl = p * fa / a;
            let tg = format!("(+ {} (* {} (- {} {})))", dec(fa), dec(sl), x.txt, dec(a));
            let pad = eps + (sl.abs() * (w + 1.0)) * 1e-12;
            if p > 1.0 {
                n.side.push(format!("(>= n{} (- {} {}))", me, tg, dec(pad)));
            } else {
                n.side.push(format!("(<= n{} (+ {} {}))", me, tg, dec(pad)));
            }
        }
        n.deps = x.dep();
        n.sh = f(self.sh());
        // relations with powers computed before: monotonicity (same exponent), and the mean value
        // theorem for an inverse pair of exponents
        for (q, xt, xd, yi, qlo, qhi) in with(|e| e.pows.clone()) {
            if q == p {
                n.side.push(format!(
                    "(and (=> (<= {a} {b}) (<= n{y} n{me})) (=> (>= {a} {b}) (>= n{y} n{me})))",
                    a = xt, b = x.txt, y = yi
                ));
                // and a lower bound on the slope
                let (l, h) = (xlo.min(qlo), xhi.max(qhi));
                let m = (p * l.powf(p - 1.0)).min(p * h.powf(p - 1.0));
                if m.is_finite() && m > 1e-9 {
                    let mt = dec(m * 0.99);
                    n.side.push(format!(
                        "(and (=> (<= {a} {b}) (>= (- n{me} n{y}) (* {mt} (- {b} {a})))) (=> (>= {a} {b}) (>= (- n{y} n{me}) (* {mt} (- {a} {b})))))",
                        a = xt, b = x.txt, y = yi
                    ));
                }
                n.deps.extend(xd.iter().copied());
                n.deps.push(yi);
            } else if (p * q - 1.0).abs() < 1e-15 {
                // Y = X^q (before), Z = W^p (now): Z - X = p*xi^(p-1) * (W - Y), xi between W and Y
                let (yl, yh) = (qlo.powf(q), qhi.powf(q));
                let (l, h) = (xlo.min(yl), xhi.max(yh));
                let lip = if p < 1.0 { if l > 0.0 { p * l.powf(p - 1.0) } else { f64::INFINITY } } else { p * h.powf(p - 1.0) };
                if lip.is_finite() {
                    let lt = dec(lip * 1.01 + 1e-9);
                    let tiny = dec(1e-13 * (1.0 + h + qhi));
                    n.side.push(format!(
                        "(and (=> (>= {w} n{y}) (and (>= n{me} (- {x} {t})) (<= (- n{me} {x}) (+ {t} (* {lt} (- {w} n{y})))))) (=> (<= {w} n{y}) (and (<= n{me} (+ {x} {t})) (<= (- {x} n{me}) (+ {t} (* {lt} (- n{y} {w})))))))",
                        w = x.txt, y = yi, x = xt, t = tiny
                    ));
                    n.deps.extend(xd.iter().copied());
                    n.deps.push(yi);
                }
            }
        }
        with(|e| e.pows.push((p, x.txt.clone(), x.dep(), me as u32, xlo, xhi)));
        fin(ky, n)
    }
    fn uf1(self, name: &str, lo: f64, hi: f64) -> SymF {
        let v = match name {
            "sin" => self.sh().sin(),
            "cos" => self.sh().cos(),
            "tan" => self.sh().tan(),
            "atan" => self.sh().atan(),
            "acos" => self.sh().acos(),
            "asin" => self.sh().asin(),
            "exp" => self.sh().exp(),
            "ln" => self.sh().ln(),
            "log10" => self.sh().log10(),
            "log2" => self.sh().log2(),
            "exp2" => self.sh().exp2(),
            _ => f64::NAN,
        };
        match super::uf(name, &[self.into()], &[(Sort::Real, lo, hi)])[0] {
            super::Val::F(f) => f.set_sh(v),
            _ => unreachable!(),
        }
    }
    /// a smooth function: uninterpreted, within [lo, hi], with slope at most `slope`; `period` of
    /// arguments that give the same value (0: none)
    fn smooth(self, name: &str, lo: f64, hi: f64, slope: f64, period: f64) -> SymF {
        let r = self.uf1(name, lo, hi);
        let tag = format!("fn {}", name);
        let before = with(|e| e.logs.get(&tag).cloned().unwrap_or_default());
        let pick = |v: &super::Val| match v {
            super::Val::F(f) => *f,
            _ => unreachable!(),
        };
        if before.iter().any(|b| key(pick(&b[0])) == key(self)) {
            return r;
        }
        if slope.is_finite() {
            let mut seen: Vec<(SymF, SymF)> = before.iter().rev().take(6).map(|b| (pick(&b[0]), pick(&b[1]))).collect();
            if period > 0.0 {
                seen.push((C(0.0), C(if name == "cos" { 1.0 } else { 0.0 })));
            }
            for (x, y) in seen {
                let mid = |v: SymF| (v.range().0 + v.range().1) / 2.0;
                let k = if period > 0.0 { ((mid(self) - mid(x)) / period).round() } else { 0.0 };
                if !(k.abs() <= 2.0) {
                    continue;
                }
                let noise = (slope + lo.abs().max(hi.abs())).min(1e6) * 1e-14;
                let turns: &[f64] = if period > 0.0 { &[0.0, -1.0, 1.0] } else { &[0.0] };
                for k in turns.iter().map(|t| t + k) {
                // |r - y| <= slope * |self - x - k * period| + noise
                let d = format!("(- $0 $1 {})", rat(k * period));
                let t = format!(
                    "(let ((d {d})) (let ((m (ite (>= d 0.0) d (- d))) (v (- $2 $3))) (and (<= v (+ (* {s} m) {e})) (<= (- (+ (* {s} m) {e})) v))))",
                    d = d, s = rat(slope), e = rat(noise)
                );
                super::fact(&t, &[self, x, r, y], true);
                }
            }
        }
        record(&tag, vec![self.into(), r.into()]);
        r
    }
    /// a value at a constant, for later arguments near it
    fn landmark(self, name: &str, v: f64) -> SymF {
        let tag = format!("fn {}", name);
        let known = with(|e| e.logs.get(&tag).map(|l| l.len()).unwrap_or(0));
        if known < 3 {
            record(&tag, vec![self.into(), C(v).into()]);
        }
        C(v)
    }
    fn wave(self, name: &str) -> SymF {
        let (a, b) = self.range();
        let pi = std::f64::consts::PI;
        let f = |x: f64| if name == "sin" { x.sin() } else { x.cos() };
        let (mut lo, mut hi) = (-1.0, 1.0);
        if a.is_finite() && b.is_finite() && b - a < 6.0 && a.abs() < 1e3 && b.abs() < 1e3 {
            lo = f(a).min(f(b)) - 1e-13;
            hi = f(a).max(f(b)) + 1e-13;
            // extremes inside
            let first = if name == "sin" { pi / 2.0 } else { 0.0 };
            let mut k = ((a - first) / pi).floor() - 1.0;
            while first + k * pi <= b + 1e-9 {
                let x = first + k * pi;
                if x >= a - 1e-9 {
                    if k.rem_euclid(2.0) < 0.5 { hi = 1.0 } else { lo = -1.0 }
                }
                k += 1.0;
            }
            lo = lo.max(-1.0);
            hi = hi.min(1.0);
        }
        self.smooth(name, lo, hi, 1.0, 2.0 * pi)
    }
    pub fn sin(self) -> SymF {
        match self {
            C(c) => self.landmark("sin", c.sin()),
            _ => self.wave("sin"),
        }
    }
    pub fn cos(self) -> SymF {
        match self {
            C(c) => self.landmark("cos", c.cos()),
            _ => self.wave("cos"),
        }
    }
    pub fn sin_cos(self) -> (SymF, SymF) {
        (self.sin(), self.cos())
    }
    pub fn tan(self) -> SymF {
        match self {
            C(c) => C(c.tan()),
            _ => self.uf1("tan", f64::NEG_INFINITY, f64::INFINITY),
        }
    }
    pub fn atan(self) -> SymF {
        match self {
            C(c) => C(c.atan()),
            _ => self.uf1("atan", -1.5707963267948966, 1.5707963267948966),
        }
    }
    pub fn acos(self) -> SymF {
        match self {
            C(c) => C(c.acos()),
            _ => self.uf1("acos", 0.0, 3.141592653589793),
        }
    }
    pub fn asin(self) -> SymF {
        match self {
            C(c) => C(c.asin()),
            _ => self.uf1("asin", -1.5707963267948966, 1.5707963267948966),
        }
    }
    pub fn atan2(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a.atan2(b));
        }
        // quadrant known from the signs of the operands
        let pi = 3.141592653589793;
        let (lo, hi) = if self > C(0.0) {
            (0.0, pi)
        } else if self == C(0.0) {
            if o >= C(0.0) {
                return C(0.0);
            } else {
                return C(pi);
            }
        } else {
            (-pi, 0.0)
        };
        // the angle falls as x grows; how it moves with y depends on the side
        let ((xl, xh), (yl, yh)) = (o.range(), self.range());
        let (yl, yh) = if lo == 0.0 { (yl.max(0.0), yh.max(0.0)) } else { ((-yh).max(0.0), (-yl).max(0.0)) };
        let big = if xl < 0.0 { yl.atan2(xl) } else { yh.atan2(xl) };
        let small = if xh > 0.0 { yl.atan2(xh) } else { yh.atan2(xh) };
        let (a, b) = ((small - 1e-13).max(0.0), (big + 1e-13).min(pi));
        let (lo, hi) = match (a <= b, lo == 0.0) {
            (true, true) => (a, b),
            (true, false) => (-b, -a),
            _ => (lo, hi),
        };
        match super::uf("atan2", &[self.into(), o.into()], &[(Sort::Real, lo, hi)])[0] {
            super::Val::F(f) => {
                let f = f.set_sh(self.sh().atan2(o.sh()));
                let before = with(|e| e.logs.get("fn atan2").cloned().unwrap_or_default());
                let pick = |v: &super::Val| match v {
                    super::Val::F(f) => *f,
                    _ => unreachable!(),
                };
                if before.iter().any(|b| key(pick(&b[2])) == key(f)) {
                    return f;
                }
                for b in before.iter().rev().take(3) {
                    // angle between two directions at most its tangent (when acute)
                    let (y, x, g) = (pick(&b[0]), pick(&b[1]), pick(&b[2]));
                    super::fact(
                        "(let ((dot (+ (* $0 $2) (* $1 $3))) (cross (- (* $0 $3) (* $1 $2))) (d (- $4 $5))) (=> (and (> dot 0.0) (< (- 3.0) d 3.0)) (<= (* (ite (>= d 0.0) d (- d)) dot) (+ (* 0.00000000000001 dot) (ite (>= cross 0.0) cross (- cross))))))",
                        &[self, o, y, x, f, g],
                        true,
                    );
                }
                record("fn atan2", vec![self.into(), o.into(), f.into()]);
                f
            }
            _ => unreachable!(),
        }
    }
    pub fn exp(self) -> SymF {
        match self {
            C(c) => C(c.exp()),
            _ => {
                let (lo, hi) = self.range();
                let low = if lo >= 0.0 { (lo.exp() * (1.0 - 1e-14)).max(1.0) } else { lo.exp() * (1.0 - 1e-14) };
                let r = self.smooth("exp", low, hi.exp() * (1.0 + 1e-14), hi.exp() * 1.01, 0.0);
                self.undoes("ln", r, hi.exp());
                r
            }
        }
    }
    pub fn ln(self) -> SymF {
        match self {
            C(c) => C(c.ln()),
            _ => {
                let (lo, hi) = self.range();
                let (a, b) = if lo > 0.0 { (lo.ln() - 1e-13, hi.ln() + 1e-13) } else { (f64::NEG_INFINITY, f64::INFINITY) };
                let slope = if lo > 0.0 { 1.01 / lo } else { f64::INFINITY };
                let r = self.smooth("ln", a, b, slope, 0.0);
                if lo > 0.0 {
                    self.undoes("exp", r, 1.0 / lo);
                }
                r
            }
        }
    }
    /// r = f(self), f the inverse of the function named, of slope at most `slope`
    fn undoes(self, name: &str, r: SymF, slope: f64) {
        if !slope.is_finite() {
            return;
        }
        for b in with(|e| e.logs.get(&format!("fn {}", name)).cloned().unwrap_or_default()).iter().rev().take(3) {
            let (super::Val::F(x), super::Val::F(y)) = (b[0], b[1]) else { continue };
            // y = name(x): |r - x| <= slope * |self - y|
            let s = slope.max(if name == "ln" { x.range().1 } else { 1.0 / y.range().0.max(0.0) }) * 1.01;
            if !s.is_finite() {
                continue;
            }
            let t = format!(
                "(let ((d (- $0 $1))) (let ((m (ite (>= d 0.0) d (- d))) (v (- $2 $3))) (and (<= v (+ (* {s} m) {e})) (<= (- (+ (* {s} m) {e})) v))))",
                s = rat(s), e = rat((s + r.range().1.abs().min(1e6)) * 1e-13)
            );
            super::fact(&t, &[self, y, r, x], true);
        }
    }
    pub fn ln_1p(self) -> SymF {
        match self {
            C(c) => C(c.ln_1p()),
            _ => (self + C(1.0)).ln(),
        }
    }
    pub fn log10(self) -> SymF {
        match self {
            C(c) => C(c.log10()),
            _ => self.uf1("log10", f64::NEG_INFINITY, f64::INFINITY),
        }
    }
    pub fn log2(self) -> SymF {
        match self {
            C(c) => C(c.log2()),
            _ => self.uf1("log2", f64::NEG_INFINITY, f64::INFINITY),
        }
    }
    pub fn exp2(self) -> SymF {
        match self {
            C(c) => C(c.exp2()),
            _ => self.uf1("exp2", 0.0, f64::INFINITY),
        }
    }
    pub fn exp_m1(self) -> SymF {
        self.exp() - C(1.0)
    }
    pub fn hypot(self, o: SymF) -> SymF {
        if let (C(a), C(b)) = (self, o) {
            return C(a.hypot(b));
        }
        (self * self + o * o).sqrt()
    }
    pub fn mul_add(self, a: SymF, b: SymF) -> SymF {
        if let (C(x), C(y), C(z)) = (self, a, b) {
            return C(x.mul_add(y, z));
        }
        self * a + b
    }
    pub fn recip(self) -> SymF {
        C(1.0) / self
    }
    pub fn to_radians(self) -> SymF {
        match self {
            C(c) => C(c.to_radians()),
            _ => self * C(std::f64::consts::PI / 180.0),
        }
    }
    pub fn to_degrees(self) -> SymF {
        match self {
            C(c) => C(c.to_degrees()),
            _ => self * C(180.0 / std::f64::consts::PI),
        }
    }
    pub fn rem_euclid(self, m: SymF) -> SymF {
        if let (C(a), C(b)) = (self, m) {
            return C(a.rem_euclid(b));
        }
        let r = self % m;
        if r < C(0.0) {
            r + m.abs()
        } else {
            r
        }
    }
    pub fn div_euclid(self, m: SymF) -> SymF {
        let q = (self / m).trunc();
        if self % m < C(0.0) {
            return if m > C(0.0) { q - C(1.0) } else { q + C(1.0) };
        }
        q
    }
    pub fn round_ties_even(self) -> SymF {
        match self {
            C(c) => C(c.round_ties_even()),
            _ => {
                let f = self.floor();
                let d = self - f;
                if d < C(0.5) {
                    f
                } else if d > C(0.5) {
                    f + C(1.0)
                } else if (f % C(2.0)) == C(0.0) {
                    f
                } else {
                    f + C(1.0)
                }
            }
        }
    }
    pub fn abs_sub(self, o: SymF) -> SymF {
        (self - o).max(C(0.0))
    }
    pub fn midpoint(self, o: SymF) -> SymF {
        (self + o) / C(2.0)
    }
    pub fn total_cmp(&self, o: &SymF) -> Ordering {
        if let (C(a), C(b)) = (self, o) {
            return a.total_cmp(b);
        }
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
    /// an opaque bit pattern: equal values get equal patterns
    pub fn to_bits(self) -> u64 {
        if let C(c) = self {
            return c.to_bits();
        }
        let T(id) = self else { unreachable!() };
        let prev = with(|e| e.bits.clone());
        for (i, b) in &prev {
            if *i == id {
                return *b;
            }
        }
        for (i, b) in &prev {
            if T(*i) == self {
                return *b;
            }
        }
        let b = with(|e| {
            let b = 0x7ff8_dead_0000_0000u64 + e.bits.len() as u64;
            e.bits.push((id, b));
            b
        });
        b
    }
    pub fn from_bits(b: u64) -> SymF {
        let hit = with(|e| e.bits.iter().find(|x| x.1 == b).map(|x| x.0));
        match hit {
            Some(i) => T(i),
            None => C(f64::from_bits(b)),
        }
    }
    pub fn to_ne_bytes(self) -> [u8; 8] {
        self.to_bits().to_ne_bytes()
    }
    pub fn to_le_bytes(self) -> [u8; 8] {
        self.to_bits().to_le_bytes()
    }
    pub fn to_be_bytes(self) -> [u8; 8] {
        self.to_bits().to_be_bytes()
    }
}
fn mulz(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 {
        0.0
    } else {
        a * b
    }
}
/// decimal text with ~13 significant digits (callers pad for the difference)
fn dec_txt(v: f64) -> String {
    if v == 0.0 {
        return "0.0".into();
    }
    let s = format!("{:.*}", (13 - v.abs().log10().floor() as i32).clamp(1, 30) as usize, v.abs());
    if v < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

macro_rules! bin { ($tr:ident,$m:ident,$f:ident,$tra:ident,$ma:ident) => {
    impl $tr for SymF { type Output = SymF; fn $m(self, o: SymF) -> SymF { let v = $tr::$m(self.sh(), o.sh()); self.$f(o).set_sh(v) } }
    impl<'a> $tr<&'a SymF> for SymF { type Output = SymF; fn $m(self, o: &SymF) -> SymF { $tr::$m(self, *o) } }
    impl<'a> $tr<SymF> for &'a SymF { type Output = SymF; fn $m(self, o: SymF) -> SymF { $tr::$m(*self, o) } }
    impl<'a,'b> $tr<&'b SymF> for &'a SymF { type Output = SymF; fn $m(self, o: &SymF) -> SymF { $tr::$m(*self, *o) } }
    impl $tra for SymF { fn $ma(&mut self, o: SymF) { *self = $tr::$m(*self, o); } }
    impl<'a> $tra<&'a SymF> for SymF { fn $ma(&mut self, o: &SymF) { *self = $tr::$m(*self, *o); } }
} }
bin!(Add, add, add_, AddAssign, add_assign);
bin!(Sub, sub, sub_, SubAssign, sub_assign);
bin!(Mul, mul, mul_, MulAssign, mul_assign);
bin!(Div, div, div_, DivAssign, div_assign);
bin!(Rem, rem, rem_, RemAssign, rem_assign);
impl Neg for SymF {
    type Output = SymF;
    fn neg(self) -> SymF {
        let v = -self.sh();
        self.neg_().set_sh(v)
    }
}
impl Neg for &SymF {
    type Output = SymF;
    fn neg(self) -> SymF {
        -*self
    }
}
impl PartialEq for SymF {
    fn eq(&self, o: &SymF) -> bool {
        SymF::cmp_("=", *self, *o)
    }
}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &SymF) -> Option<Ordering> {
        if let (C(a), C(b)) = (self, o) {
            return a.partial_cmp(b);
        }
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if SymF::cmp_("<", *self, *o) {
            Some(Ordering::Less)
        } else if SymF::cmp_("=", *self, *o) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &SymF) -> bool {
        SymF::cmp_("<", *self, *o)
    }
    fn le(&self, o: &SymF) -> bool {
        SymF::cmp_("<=", *self, *o)
    }
    fn gt(&self, o: &SymF) -> bool {
        SymF::cmp_("<", *o, *self)
    }
    fn ge(&self, o: &SymF) -> bool {
        SymF::cmp_("<=", *o, *self)
    }
}
impl std::iter::Sum for SymF {
    fn sum<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(C(-0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(C(-0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for SymF {
    fn product<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(C(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(C(1.0), |a, b| a * *b)
    }
}
impl std::fmt::Display for SymF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C(c) => std::fmt::Display::fmt(c, f),
            T(i) => write!(f, "<n{}>", i),
        }
    }
}
impl std::fmt::Debug for SymF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C(c) => std::fmt::Debug::fmt(c, f),
            T(i) => write!(f, "<n{}>", i),
        }
    }
}
impl std::fmt::LowerExp for SymF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl Default for SymF {
    fn default() -> SymF {
        C(0.0)
    }
}
impl std::str::FromStr for SymF {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<SymF, Self::Err> {
        s.parse::<f64>().map(C)
    }
}
macro_rules! from { ($($t:ty),*) => {$( impl From<$t> for SymF { fn from(x: $t) -> SymF { C(x as f64) } } )*} }
from!(i8, i16, i32, u8, u16, u32, f32);
