//! Symbolic scalars standing in for f64 and i64, and the harness-facing primitives.
#![allow(dead_code, unused_imports, non_snake_case)]
pub mod engine;
pub mod symf;
pub mod symi;
pub mod maps;
pub mod run;
pub use engine::*;
pub use maps::{Entry, HashMap, HashSet};
pub use symf::SymF;
pub use symi::SymI;

#[derive(Clone, Copy, Debug)]
pub enum Val {
    F(SymF),
    I(SymI),
}
impl From<SymF> for Val {
    fn from(x: SymF) -> Val {
        Val::F(x)
    }
}
impl From<SymI> for Val {
    fn from(x: SymI) -> Val {
        Val::I(x)
    }
}

pub fn abort(why: &'static str) -> ! {
    std::panic::panic_any(Abort(why))
}

/// Take (and record) a boolean decision on an SMT atom and its negation. `sh`: its truth under the
/// shadow inputs.
pub fn decide(atom: String, neg: String, deps: Vec<u32>, sh: Option<bool>) -> bool {
    let r = with(|e| {
        // the same question again on this path
        if let Some(v) = e.asked.get(&atom) {
            return Some(*v);
        }
        if e.pos < e.log.len() {
            let d = e.log[e.pos].clone();
            e.pos += 1;
            let v = d.val == 0;
            if sh != Some(v) {
                e.sh_ok = false;
            }
            if !d.implied {
                e.path.push((if v { atom.clone() } else { neg.clone() }, deps.clone()));
            }
            e.asked.insert(atom.clone(), v);
            e.asked.insert(neg.clone(), !v);
            return Some(v);
        }
        if e.out_of_time() {
            e.incomplete = Some("time budget".into());
            return None;
        }
        let free = e.free.clone();
        let side = |e: &mut Engine, t: &String| -> (Ans, Option<Model>) {
            let (a, v) = e.query(&[(t.clone(), deps.clone())], &free, 1);
            if a == Ans::Sat && v.len() == free.len() {
                let m: std::collections::HashMap<u32, f64> =
                    free.iter().zip(v.iter()).filter_map(|(i, s)| eval_value(s).map(|x| (*i, x))).collect();
                return (a, Some(std::rc::Rc::new(m)));
            }
            (a, None)
        };
        // the side the shadow takes is feasible by witness
        let first = if e.sh_ok { sh } else { None };
        let (a, b, ma, mb);
        match first {
            Some(true) => {
                a = Ans::Sat;
                ma = None;
                (b, mb) = side(e, &neg);
            }
            Some(false) => {
                b = Ans::Sat;
                mb = None;
                (a, ma) = side(e, &atom);
            }
            None => {
                (a, ma) = side(e, &atom);
                if a == Ans::Unsat {
                    b = Ans::Sat;
                    mb = None;
                } else {
                    (b, mb) = side(e, &neg);
                }
            }
        }
        let res = if a == Ans::Unsat {
            e.log.push(Dec { val: 1, alts: vec![], implied: true });
            false
        } else if b == Ans::Unsat {
            e.log.push(Dec { val: 0, alts: vec![], implied: true });
            true
        } else {
            e.stats.forks += 1;
            let v = first.unwrap_or(true);
            let alt = if v { (1, mb) } else { (0, ma) };
            e.log.push(Dec { val: if v { 0 } else { 1 }, alts: vec![alt], implied: false });
            e.path.push((if v { atom.clone() } else { neg.clone() }, deps.clone()));
            v
        };
        if sh != Some(res) {
            e.sh_ok = false;
        }
        e.pos += 1;
        e.asked.insert(atom.clone(), res);
        e.asked.insert(neg.clone(), !res);
        Some(res)
    });
    match r {
        Some(v) => v,
        None => abort("time"),
    }
}

/// explore n alternatives
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|e| {
        if e.pos < e.log.len() {
            let v = e.log[e.pos].val as usize;
            e.pos += 1;
            return v;
        }
        e.stats.forks += 1;
        let alts = (1..n as i64).rev().map(|k| (k, None)).collect();
        e.log.push(Dec { val: 0, alts, implied: true });
        e.pos += 1;
        0
    })
}

pub fn enter(f: &'static str) {
    with(|e| {
        e.fns.insert(f);
    })
}
pub fn hook_on(h: &str) -> bool {
    with(|e| e.hooks.contains(h))
}
pub fn opt(k: &str, d: i64) -> i64 {
    with(|e| e.opts.get(k).copied().unwrap_or(d))
}

// ---------------------------------------------------------------- uninterpreted functions
fn valid(v: &Val) -> (String, Vec<u32>) {
    match v {
        Val::F(SymF::C(c)) => (rat(*c), vec![]),
        Val::F(SymF::T(i)) => {
            let m = with(|e| e.mat(*i));
            (format!("n{}", m), vec![m])
        }
        Val::I(SymI::C(c)) => (itxt(*c as i128), vec![]),
        Val::I(SymI::T(i)) => (format!("n{}", i), vec![*i]),
    }
}
/// Apply an uninterpreted function: results are fresh, equal arguments give equal results.
/// `outs`: (sort, lo, hi) of each result.
pub fn uf(name: &str, args: &[Val], outs: &[(Sort, f64, f64)]) -> Vec<Val> {
    let mut txt = vec![];
    let mut deps = vec![];
    for a in args {
        let (t, d) = valid(a);
        txt.push(t);
        deps.extend(d);
    }
    let wrap = |i: u32, s: Sort| if s == Sort::Real { Val::F(SymF::T(i)) } else { Val::I(SymI::T(i)) };
    let hit = with(|e| e.ufs.iter().find(|u| u.0 == name && u.3 == txt).map(|u| u.1.clone()));
    if let Some(r) = hit {
        return r.iter().zip(outs).map(|(i, o)| wrap(*i, o.0)).collect();
    }
    with(|e| {
        let prev: Vec<(Vec<u32>, Vec<u32>, Vec<String>)> =
            e.ufs.iter().filter(|u| u.0 == name).map(|u| (u.1.clone(), u.2.clone(), u.3.clone())).collect();
        let mut ids = vec![];
        for (k, o) in outs.iter().enumerate() {
            let me = e.nodes.len();
            let mut n = Engine::blank(o.0, o.1, o.2);
            if o.0 == Sort::Int {
                n.ilo = o.1 as i128;
                n.ihi = o.2 as i128;
                n.side.push(format!("(<= {} n{} {})", itxt(n.ilo), me, itxt(n.ihi)));
                n.lin = Some((vec![(1, me as u32)], 0));
            } else {
                if o.1.is_finite() {
                    n.side.push(format!("(<= {} n{})", rat(o.1), me));
                }
                if o.2.is_finite() {
                    n.side.push(format!("(<= n{} {})", me, rat(o.2)));
                }
            }
            for (pr, pd, pt) in &prev {
                let eqs: Vec<String> = txt.iter().zip(pt).map(|(a, b)| format!("(= {} {})", a, b)).collect();
                n.side.push(format!("(=> (and true {}) (= n{} n{}))", eqs.join(" "), me, pr[k]));
                n.deps.extend(pd.iter().copied());
                n.deps.push(pr[k]);
            }
            if !prev.is_empty() {
                n.deps.extend(deps.iter().copied());
            }
            ids.push(e.push_free(n));
        }
        e.ufs.push((name.to_string(), ids.clone(), deps.clone(), txt.clone()));
        ids.iter().zip(outs).map(|(i, o)| wrap(*i, o.0)).collect()
    })
}

// ---------------------------------------------------------------- casts
pub trait CastTo<D> {
    fn cast_to(self) -> D;
}
pub fn cast<S: CastTo<D>, D>(s: S) -> D {
    s.cast_to()
}
macro_rules! int_casts { ($($t:ty),*) => {$(
    impl CastTo<SymF> for $t { fn cast_to(self) -> SymF { SymF::C(self as f64) } }
    impl CastTo<SymI> for $t { fn cast_to(self) -> SymI { SymI::C(self as i64) } }
    impl CastTo<$t> for SymI { fn cast_to(self) -> $t { self.concrete() as $t } }
    impl CastTo<$t> for SymF { fn cast_to(self) -> $t {
        match self { SymF::C(c) => c as $t, _ => {
            // saturating float->int cast
            let (lo, hi) = self.range();
            let k = self.trunc_i();
            let mx = <$t>::MAX as i128; let mn = <$t>::MIN as i128;
            if hi > mx as f64 && self > SymF::C(mx as f64) { return <$t>::MAX; }
            if lo < mn as f64 && self < SymF::C(mn as f64) { return <$t>::MIN; }
            k.concrete() as $t
        } }
    } }
)*} }
int_casts!(i8, i16, i32, u8, u16, u32, u64, usize, isize, i128, u128);
impl CastTo<SymF> for SymF {
    fn cast_to(self) -> SymF {
        self
    }
}
impl CastTo<SymI> for SymI {
    fn cast_to(self) -> SymI {
        self
    }
}
impl CastTo<SymF> for SymI {
    fn cast_to(self) -> SymF {
        self.to_f()
    }
}
impl CastTo<SymI> for SymF {
    fn cast_to(self) -> SymI {
        match self {
            SymF::C(c) => SymI::C(c as i64),
            _ => self.trunc_i(),
        }
    }
}
impl CastTo<SymF> for f32 {
    fn cast_to(self) -> SymF {
        SymF::C(self as f64)
    }
}
impl CastTo<f32> for SymF {
    fn cast_to(self) -> f32 {
        match self {
            SymF::C(c) => c as f32,
            _ => abort("unsupported: symbolic f64 as f32"),
        }
    }
}
impl CastTo<SymI> for f32 {
    fn cast_to(self) -> SymI {
        SymI::C(self as i64)
    }
}
impl CastTo<SymI> for bool {
    fn cast_to(self) -> SymI {
        SymI::C(self as i64)
    }
}
impl CastTo<SymI> for char {
    fn cast_to(self) -> SymI {
        SymI::C(self as i64)
    }
}

// ---------------------------------------------------------------- lifting constants
pub trait Lift {
    type Out: 'static;
    fn lift_v(&self) -> Self::Out;
}
impl Lift for f64 {
    type Out = SymF;
    fn lift_v(&self) -> SymF {
        SymF::C(*self)
    }
}
impl Lift for i64 {
    type Out = SymI;
    fn lift_v(&self) -> SymI {
        SymI::C(*self)
    }
}
macro_rules! idlift { ($($t:ty),*) => {$( impl Lift for $t { type Out = $t; fn lift_v(&self) -> $t { *self } } )*} }
idlift!(u8, u16, u32, u64, usize, i8, i16, i32, isize, bool, char, &'static str);
impl<T: Lift, const N: usize> Lift for [T; N] {
    type Out = [T::Out; N];
    fn lift_v(&self) -> Self::Out {
        std::array::from_fn(|i| self[i].lift_v())
    }
}
impl<T: Lift> Lift for &'static [T] {
    type Out = &'static [T::Out];
    fn lift_v(&self) -> Self::Out {
        Box::leak(self.iter().map(|x| x.lift_v()).collect::<Vec<_>>().into_boxed_slice())
    }
}
impl<T: Lift, const N: usize> Lift for &'static [T; N] {
    type Out = &'static [T::Out; N];
    fn lift_v(&self) -> Self::Out {
        Box::leak(Box::new((**self).lift_v()))
    }
}
impl<A: Lift, B: Lift> Lift for (A, B) {
    type Out = (A::Out, B::Out);
    fn lift_v(&self) -> Self::Out {
        (self.0.lift_v(), self.1.lift_v())
    }
}
impl<A: Lift, B: Lift, C: Lift> Lift for (A, B, C) {
    type Out = (A::Out, B::Out, C::Out);
    fn lift_v(&self) -> Self::Out {
        (self.0.lift_v(), self.1.lift_v(), self.2.lift_v())
    }
}
impl<A: Lift, B: Lift, C: Lift, D: Lift> Lift for (A, B, C, D) {
    type Out = (A::Out, B::Out, C::Out, D::Out);
    fn lift_v(&self) -> Self::Out {
        (self.0.lift_v(), self.1.lift_v(), self.2.lift_v(), self.3.lift_v())
    }
}
thread_local! {
    static LIFTED: std::cell::RefCell<std::collections::HashMap<(usize, std::any::TypeId), &'static dyn std::any::Any>> = Default::default();
}
pub fn lift<T: Lift>(t: &'static T) -> &'static T::Out {
    let key = (t as *const T as usize, std::any::TypeId::of::<T::Out>());
    let hit = LIFTED.with(|l| l.borrow().get(&key).copied());
    if let Some(h) = hit {
        return h.downcast_ref::<T::Out>().unwrap();
    }
    let b: &'static T::Out = Box::leak(Box::new(t.lift_v()));
    LIFTED.with(|l| l.borrow_mut().insert(key, b));
    b
}

// ---------------------------------------------------------------- literal patterns
pub trait PatVal {
    type O;
    fn pv(&self) -> Self::O;
}
impl PatVal for SymI {
    type O = SymI;
    fn pv(&self) -> SymI {
        *self
    }
}
impl PatVal for SymF {
    type O = SymF;
    fn pv(&self) -> SymF {
        *self
    }
}
impl<T: PatVal> PatVal for &T {
    type O = T::O;
    fn pv(&self) -> T::O {
        (**self).pv()
    }
}
impl<T: PatVal> PatVal for &mut T {
    type O = T::O;
    fn pv(&self) -> T::O {
        (**self).pv()
    }
}
impl SymI {
    pub fn eq_lit(self, l: i64) -> bool {
        self == SymI::C(l)
    }
    pub fn ge_lit(self, l: i64) -> bool {
        self >= SymI::C(l)
    }
    pub fn le_lit(self, l: i64) -> bool {
        self <= SymI::C(l)
    }
    pub fn lt_lit(self, l: i64) -> bool {
        self < SymI::C(l)
    }
}
impl SymF {
    pub fn eq_lit(self, l: f64) -> bool {
        self == SymF::C(l)
    }
    pub fn ge_lit(self, l: f64) -> bool {
        self >= SymF::C(l)
    }
    pub fn le_lit(self, l: f64) -> bool {
        self <= SymF::C(l)
    }
    pub fn lt_lit(self, l: f64) -> bool {
        self < SymF::C(l)
    }
}

// ---------------------------------------------------------------- for abstractions (hooks.rs)
/// a real defined by an SMT term over other values
pub fn term(def: &str, args: &[SymF], lo: f64, hi: f64, sh: f64) -> SymF {
    let (txt, deps) = subst(def, args);
    with(|e| {
        if let Some(i) = e.keys.get(&txt) {
            return SymF::T(*i);
        }
        let mut n = Engine::blank(Sort::Real, lo, hi);
        n.def = Some(txt.clone());
        n.deps = deps;
        n.sh = sh;
        let i = e.push(n);
        e.keys.insert(txt, i);
        SymF::T(i)
    })
}
fn subst(t: &str, args: &[SymF]) -> (String, Vec<u32>) {
    let mut txt = t.to_string();
    let mut deps = vec![];
    for (k, a) in args.iter().enumerate() {
        let (s, d) = valid(&Val::F(*a));
        txt = txt.replace(&format!("${}", k), &s);
        deps.extend(d);
    }
    (txt, deps)
}
/// a fact (part of an abstraction's contract) about values: $0, $1, ... stand for the arguments.
/// `sh`: whether it holds for the shadow values
pub fn fact(t: &str, args: &[SymF], sh: bool) {
    let (txt, deps) = subst(t, args);
    with(|e| {
        e.path.push((txt, deps));
        if !sh {
            e.sh_ok = false;
        }
    })
}
/// give a value created by an abstraction a shadow, unless the current model fixes it
pub fn shadow(v: Val, s: f64) {
    let i = match v {
        Val::F(SymF::T(i)) | Val::I(SymI::T(i)) => i,
        _ => return,
    };
    with(|e| {
        if e.model.contains_key(&i) {
            return;
        }
        let n = &mut e.nodes[i as usize];
        if n.sort == Sort::Int {
            n.ish = (s.round() as i128).max(n.ilo).min(n.ihi);
            n.sh = n.ish as f64;
        } else {
            n.sh = s.max(n.lo).min(n.hi);
        }
    })
}

/// a value about which only its range (and what `aside` adds) is known
pub fn fresh(sort: Sort, lo: f64, hi: f64) -> Val {
    with(|e| {
        let me = e.nodes.len();
        let mut n = Engine::blank(sort, lo, hi);
        if sort == Sort::Int {
            n.ilo = lo as i128;
            n.ihi = hi as i128;
            n.side.push(format!("(<= {} n{} {})", itxt(n.ilo), me, itxt(n.ihi)));
            n.lin = Some((vec![(1, me as u32)], 0));
            Val::I(SymI::T(e.push_free(n)))
        } else {
            n.side.push(format!("(<= {} n{} {})", below(lo), me, above(hi)));
            Val::F(SymF::T(e.push_free(n)))
        }
    })
}
/// attach a fact to the value `to` (it is in force wherever `to` matters)
pub fn aside(to: SymF, t: &str, args: &[SymF]) {
    let SymF::T(i) = to else { return };
    let mut txt = t.to_string();
    let mut deps = vec![];
    for (k, a) in args.iter().enumerate() {
        let p = format!("${}", k);
        if !txt.contains(&p) {
            continue;
        }
        let (s, d) = match a {
            SymF::C(c) => (approx(*c).0, vec![]),
            _ => valid(&Val::F(*a)),
        };
        txt = txt.replace(&p, &s);
        deps.extend(d);
    }
    with(|e| {
        let n = &mut e.nodes[i as usize];
        n.side.push(txt);
        n.deps.extend(deps.into_iter().filter(|d| *d != i));
    })
}
