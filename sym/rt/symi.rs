use super::engine::*;
use super::symf::SymF;
use super::{abort, decide};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub enum SymI {
    C(i64),
    T(u32),
}
use SymI::{C, T};

type Lin = (Vec<(i128, u32)>, i128);

impl SymI {
    pub const fn c(x: i64) -> SymI {
        C(x)
    }
    pub const MAX: SymI = C(i64::MAX);
    pub const MIN: SymI = C(i64::MIN);
    pub const BITS: u32 = 64;

    pub fn input(name: &str, lo: i64, hi: i64) -> SymI {
        if lo == hi {
            return C(lo);
        }
        with(|e| {
            let me = e.nodes.len() as u32;
            let mut n = Engine::blank(Sort::Int, lo as f64, hi as f64);
            n.ilo = lo as i128;
            n.ihi = hi as i128;
            n.lin = Some((vec![(1, me)], 0));
            n.side.push(format!("(<= {} n{} {})", itxt(n.ilo), me, itxt(n.ihi)));
            let id = e.push_free(n);
            e.inputs.push((name.to_string(), id, Sort::Int));
            e.ranges.insert(name.to_string(), (lo as f64, hi as f64, true));
            T(id)
        })
    }
    pub fn irange(self) -> (i128, i128) {
        match self {
            C(c) => (c as i128, c as i128),
            T(i) => with(|e| (e.nodes[i as usize].ilo, e.nodes[i as usize].ihi)),
        }
    }
    fn txt(self) -> String {
        match self {
            C(c) => itxt(c as i128),
            T(i) => format!("n{}", i),
        }
    }
    fn dep(self) -> Vec<u32> {
        match self {
            C(_) => vec![],
            T(i) => vec![i],
        }
    }
    fn lin(self) -> Lin {
        match self {
            C(c) => (vec![], c as i128),
            T(i) => with(|e| {
                let n = &e.nodes[i as usize];
                if n.ilo == n.ihi {
                    return (vec![], n.ilo);
                }
                n.lin.clone().unwrap_or((vec![(1, i)], 0))
            }),
        }
    }
    /// build a node from a linear form
    fn from_lin(l: Lin) -> SymI {
        let (mut ts, k) = l;
        ts.retain(|t| t.0 != 0);
        if ts.is_empty() {
            return mk_const(k);
        }
        if ts.len() == 1 && ts[0].0 == 1 && k == 0 {
            return T(ts[0].1);
        }
        let key = format!("lin{:?},{}", ts, k);
        if let Some(i) = with(|e| e.keys.get(&key).copied()) {
            return T(i);
        }
        let (mut lo, mut hi) = (k, k);
        with(|e| {
            for (c, t) in &ts {
                let (a, b) = (e.nodes[*t as usize].ilo, e.nodes[*t as usize].ihi);
                if *c > 0 {
                    lo += c * a;
                    hi += c * b;
                } else {
                    lo += c * b;
                    hi += c * a;
                }
            }
        });
        let mut s = String::from("(+");
        for (c, t) in &ts {
            if *c == 1 {
                s.push_str(&format!(" n{}", t));
            } else {
                s.push_str(&format!(" (* {} n{})", itxt(*c), t));
            }
        }
        s.push_str(&format!(" {})", itxt(k)));
        let deps: Vec<u32> = ts.iter().map(|t| t.1).collect();
        let shv: Option<i128> = with(|e| {
            let mut v = k;
            for (c, t) in &ts {
                let x = e.nodes[*t as usize].ish;
                if x == i128::MIN {
                    return None;
                }
                v += c * x;
            }
            Some(v)
        });
        if lo < i64::MIN as i128 || hi > i64::MAX as i128 {
            // possible overflow: panics in a debug build
            let ok = decide(
                format!("(and (<= {} {s}) (<= {s} {}))", itxt(i64::MIN as i128), itxt(i64::MAX as i128)),
                format!("(not (and (<= {} {s}) (<= {s} {})))", itxt(i64::MIN as i128), itxt(i64::MAX as i128)),
                deps.clone(),
                shv.map(|v| v >= i64::MIN as i128 && v <= i64::MAX as i128),
            );
            if !ok {
                panic!("arithmetic overflow");
            }
            lo = lo.max(i64::MIN as i128);
            hi = hi.min(i64::MAX as i128);
        }
        with(|e| {
            let mut n = Engine::blank(Sort::Int, lo as f64, hi as f64);
            n.ilo = lo;
            n.ihi = hi;
            n.def = Some(s);
            n.deps = deps;
            n.lin = Some((ts, k));
            if let Some(v) = shv {
                n.ish = v;
                n.sh = v as f64;
            }
            let id = e.push(n);
            e.keys.insert(key, id);
            T(id)
        })
    }
    fn node(key: String, lo: i128, hi: i128, def: Option<String>, side: Vec<String>, deps: Vec<u32>, nl: bool) -> SymI {
        if let Some(i) = with(|e| e.keys.get(&key).copied()) {
            return T(i);
        }
        if lo == hi {
            return mk_const(lo);
        }
        with(|e| {
            let me = e.nodes.len() as u32;
            let mut n = Engine::blank(Sort::Int, lo as f64, hi as f64);
            n.ilo = lo;
            n.ihi = hi;
            n.def = def;
            n.side = side.into_iter().map(|s| s.replace("@", &format!("n{}", me))).collect();
            n.deps = deps;
            n.nl = nl;
            n.lin = Some((vec![(1, me)], 0));
            let id = e.push(n);
            e.keys.insert(key, id);
            T(id)
        })
    }
    fn tighten(self, lo: i128, hi: i128) {
        if let T(i) = self {
            with(|e| {
                let n = &mut e.nodes[i as usize];
                let (l, h) = (n.ilo.max(lo), n.ihi.min(hi));
                if l <= h {
                    n.ilo = l;
                    n.ihi = h;
                    n.lo = l as f64;
                    n.hi = h as f64;
                }
            })
        }
    }
    pub fn ish(self) -> Option<i128> {
        match self {
            C(c) => Some(c as i128),
            T(i) => with(|e| Some(e.nodes[i as usize].ish).filter(|v| *v != i128::MIN)),
        }
    }
    pub fn set_ish(self, v: Option<i128>) -> SymI {
        if let (T(i), Some(v)) = (self, v) {
            with(|e| {
                e.nodes[i as usize].ish = v;
                e.nodes[i as usize].sh = v as f64;
            })
        }
        self
    }
    fn sh2(a: SymI, b: SymI, f: impl Fn(i128, i128) -> i128) -> Option<i128> {
        Some(f(a.ish()?, b.ish()?))
    }
    fn add_(self, o: SymI) -> SymI {
        if let (C(a), C(b)) = (self, o) {
            return C(a.checked_add(b).expect("attempt to add with overflow"));
        }
        let (a, b) = (self.lin(), o.lin());
        SymI::from_lin(lin_add(a, b, 1))
    }
    fn sub_(self, o: SymI) -> SymI {
        if let (C(a), C(b)) = (self, o) {
            return C(a.checked_sub(b).expect("attempt to subtract with overflow"));
        }
        SymI::from_lin(lin_add(self.lin(), o.lin(), -1))
    }
    fn neg_(self) -> SymI {
        C(0).sub_(self)
    }
    fn mul_(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.checked_mul(b).expect("attempt to multiply with overflow")),
            (C(_), _) => o.mul_(self),
            (_, C(b)) => {
                let (ts, k) = self.lin();
                SymI::from_lin((ts.into_iter().map(|(c, t)| (c * b as i128, t)).collect(), k * b as i128))
            }
            _ => {
                let (a, b) = (self.irange(), o.irange());
                let ps = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                let same = matches!((self, o), (T(x), T(y)) if x == y);
                let lo = *ps.iter().min().unwrap();
                let lo = if same { lo.max(0) } else { lo };
                let hi = *ps.iter().max().unwrap();
                if lo < i64::MIN as i128 || hi > i64::MAX as i128 {
                    abort("unsupported: symbolic product may overflow");
                }
                let (x, y) = (self.txt(), o.txt());
                SymI::node(
                    format!("i*{},{}", x, y),
                    lo,
                    hi,
                    Some(format!("(* {} {})", x, y)),
                    vec![],
                    self.dep().into_iter().chain(o.dep()).collect(),
                    true,
                )
                .set_ish(SymI::sh2(self, o, |a, b| a * b))
            }
        }
    }
    fn divmod(self, o: SymI) -> (SymI, SymI) {
        // truncating division
        if o == C(0) {
            panic!("attempt to divide by zero");
        }
        if self < C(0) {
            let (q, r) = (self.neg_()).divmod(o);
            return (q.neg_(), r.neg_());
        }
        if o < C(0) {
            let (q, r) = self.divmod(o.neg_());
            return (q.neg_(), r);
        }
        // both non-negative
        let (a, b) = (self.irange(), o.irange());
        let a = (a.0.max(0), a.1);
        let b = (b.0.max(1), b.1);
        if a.1 < b.0 {
            return (C(0), self);
        }
        if let (_, C(m)) = (self, o) {
            if let Some((q, r)) = self.split(m as i128) {
                return (q, r);
            }
        }
        let (x, y) = (self.txt(), o.txt());
        let nl = !matches!(o, C(_));
        let q = SymI::node(
            format!("idiv{},{}", x, y),
            a.0 / b.1,
            a.1 / b.0,
            None,
            vec![
                format!("(<= (* {y} @) {x})"),
                format!("(< {x} (* {y} (+ @ 1)))"),
                format!("(<= {} @ {})", itxt(a.0 / b.1), itxt(a.1 / b.0)),
            ],
            self.dep().into_iter().chain(o.dep()).collect(),
            nl,
        )
        .set_ish(SymI::sh2(self, o, |a, b| if b == 0 { 0 } else { a / b }));
        let r = if nl {
            let qt = q.txt();
            let d: Vec<u32> = self.dep().into_iter().chain(o.dep()).chain(q.dep()).collect();
            SymI::node(format!("imod{},{}", x, y), 0, b.1 - 1, Some(format!("(- {x} (* {y} {qt}))")), vec![], d, true)
                .set_ish(SymI::sh2(self, o, |a, b| if b == 0 { 0 } else { a % b }))
        } else {
            let r = self.sub_(q.mul_(o));
            SymI::clip(r, 0, b.1 - 1)
        };
        (q, r)
    }
    /// record a tighter valid range for a node
    fn clip(x: SymI, lo: i128, hi: i128) -> SymI {
        if let T(i) = x {
            with(|e| {
                let n = &mut e.nodes[i as usize];
                n.ilo = n.ilo.max(lo);
                n.ihi = n.ihi.min(hi);
                n.lo = n.ilo as f64;
                n.hi = n.ihi as f64;
                n.lin = Some((vec![(1, i)], 0));
            });
        }
        x
    }
    /// x = m*q + r with r provably in [0,m): floor division by a positive constant, when the
    /// linear form splits
    fn split(self, m: i128) -> Option<(SymI, SymI)> {
        let (ts, k) = self.lin();
        let mut q: Lin = (vec![], k.div_euclid(m));
        let mut r: Lin = (vec![], k.rem_euclid(m));
        for (c, t) in ts {
            let (cq, cr) = if c.abs() < m { (0, c) } else { (c.div_euclid(m), c.rem_euclid(m)) };
            if cq != 0 {
                q.0.push((cq, t));
            }
            if cr != 0 {
                r.0.push((cr, t));
            }
        }
        let (mut lo, mut hi) = (r.1, r.1);
        with(|e| {
            for (c, t) in &r.0 {
                let (a, b) = (e.nodes[*t as usize].ilo, e.nodes[*t as usize].ihi);
                if *c > 0 {
                    lo += c * a;
                    hi += c * b;
                } else {
                    lo += c * b;
                    hi += c * a;
                }
            }
        });
        if lo >= 0 && hi < m {
            Some((SymI::from_lin(q), SymI::from_lin(r)))
        } else {
            None
        }
    }
    /// floor division / modulus by a positive constant (arithmetic shift / mask)
    fn floor_split(self, m: i128) -> (SymI, SymI) {
        if let C(c) = self {
            return (C((c as i128).div_euclid(m) as i64), C((c as i128).rem_euclid(m) as i64));
        }
        if let Some(x) = self.split(m) {
            return x;
        }
        let (lo, hi) = self.irange();
        let x = self.txt();
        let q = SymI::node(
            format!("fdiv{},{}", x, m),
            lo.div_euclid(m),
            hi.div_euclid(m),
            None,
            vec![format!("(<= (* {m} @) {x})"), format!("(< {x} (+ (* {m} @) {m}))")],
            self.dep(),
            false,
        )
        .set_ish(self.ish().map(|a| a.div_euclid(m)));
        let r = SymI::clip(self.sub_(q.mul_(mk_const(m))), 0, m - 1);
        (q, r)
    }
    fn shl_(self, k: u32) -> SymI {
        match self {
            C(c) => C(c << k),
            _ => self.mul_(mk_const(1i128 << k)),
        }
    }
    fn shr_(self, k: u32) -> SymI {
        match self {
            C(c) => C(c >> k),
            _ => self.floor_split(1i128 << k).0,
        }
    }
    fn and_(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a & b),
            (C(_), T(_)) => o.and_(self),
            (_, C(m)) => {
                if m == 0 {
                    return C(0);
                }
                if m == -1 {
                    return self;
                }
                if m > 0 {
                    // contiguous mask 2^b - 2^a ?
                    let tz = m.trailing_zeros();
                    let up = (m as i128) + (1i128 << tz);
                    if up & (up - 1) == 0 {
                        let top = up; // 2^b
                        let low = self.floor_split(top).1; // x mod 2^b
                        if tz == 0 {
                            return low;
                        }
                        let l2 = low.floor_split(1i128 << tz).1;
                        return low.sub_(l2);
                    }
                }
                self.bvop("bvand", o)
            }
            _ => self.bvop("bvand", o),
        }
    }
    fn bits_range(self) -> Option<(u32, u32)> {
        // possible one bits lie in [tz, top)
        let (lo, hi) = self.irange();
        if lo < 0 {
            return None;
        }
        let (ts, k) = self.lin();
        let mut tz = 127;
        if k != 0 {
            tz = tz.min(k.trailing_zeros());
        }
        for (c, _) in ts {
            tz = tz.min(c.trailing_zeros());
        }
        let top = 128 - (hi as u128).leading_zeros();
        Some((tz, top))
    }
    fn or_(self, o: SymI, name: &str) -> SymI {
        if let (C(a), C(b)) = (self, o) {
            return C(if name == "bvor" { a | b } else { a ^ b });
        }
        if let (Some(a), Some(b)) = (self.bits_range(), o.bits_range()) {
            if a.1 <= b.0 || b.1 <= a.0 {
                return self.add_(o);
            }
        }
        // constants with disjoint set bits, e.g. 0xff000000 | x with x < 2^24
        self.bvop(name, o)
    }
    fn bvop(self, name: &str, o: SymI) -> SymI {
        let (a, b) = (self.irange(), o.irange());
        if a.0 < 0 || b.0 < 0 {
            abort("unsupported: bit operation on possibly negative symbolic values");
        }
        let m = a.1.max(b.1);
        let top = (1i128 << (128 - (m as u128).leading_zeros())) - 1;
        let w = 128 - (m as u128).leading_zeros();
        let (x, y) = (self.txt(), o.txt());
        let hi = if name == "bvand" { a.1.min(b.1) } else { top };
        SymI::node(
            format!("{}{},{}", name, x, y),
            0,
            hi,
            Some(format!("(bv2nat ({name} ((_ int2bv {w}) {x}) ((_ int2bv {w}) {y})))")),
            vec![],
            self.dep().into_iter().chain(o.dep()).collect(),
            true,
        )
        .set_ish(SymI::sh2(self, o, |a, b| match name {
            "bvand" => a & b,
            "bvor" => a | b,
            _ => a ^ b,
        }))
    }
    fn cmp_(rel: &str, a: SymI, b: SymI) -> bool {
        if let (C(x), C(y)) = (a, b) {
            return match rel {
                "<" => x < y,
                "<=" => x <= y,
                _ => x == y,
            };
        }
        if let (T(x), T(y)) = (a, b) {
            if x == y {
                return rel != "<";
            }
        }
        let (ra, rb) = (a.irange(), b.irange());
        let q = match rel {
            "<" => {
                if ra.1 < rb.0 {
                    Some(true)
                } else if ra.0 >= rb.1 {
                    Some(false)
                } else {
                    None
                }
            }
            "<=" => {
                if ra.1 <= rb.0 {
                    Some(true)
                } else if ra.0 > rb.1 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => {
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    Some(false)
                } else {
                    None
                }
            }
        };
        if let Some(q) = q {
            with(|e| e.stats.interval_decided += 1);
            return q;
        }
        let (x, y) = (a.txt(), b.txt());
        let atom = format!("({} {} {})", rel, x, y);
        let neg = match rel {
            "<" => format!("(>= {} {})", x, y),
            "<=" => format!("(> {} {})", x, y),
            _ => format!("(not (= {} {}))", x, y),
        };
        let sh = match (a.ish(), b.ish()) {
            (Some(x), Some(y)) => Some(match rel {
                "<" => x < y,
                "<=" => x <= y,
                _ => x == y,
            }),
            _ => None,
        };
        let r = decide(atom, neg, a.dep().into_iter().chain(b.dep()).collect(), sh);
        let (k0, k1) = (i128::MIN, i128::MAX);
        match (rel, r) {
            ("<", true) => {
                a.tighten(k0, rb.1 - 1);
                b.tighten(ra.0 + 1, k1);
            }
            ("<=", true) => {
                a.tighten(k0, rb.1);
                b.tighten(ra.0, k1);
            }
            ("<", false) => {
                a.tighten(rb.0, k1);
                b.tighten(k0, ra.1);
            }
            ("<=", false) => {
                a.tighten(rb.0 + 1, k1);
                b.tighten(k0, ra.1 - 1);
            }
            ("=", true) => {
                a.tighten(rb.0, rb.1);
                b.tighten(ra.0, ra.1);
            }
            ("=", false) => {
                if rb.0 == rb.1 {
                    if ra.0 == rb.0 {
                        a.tighten(ra.0 + 1, k1);
                    }
                    if ra.1 == rb.0 {
                        a.tighten(k0, ra.1 - 1);
                    }
                }
            }
            _ => {}
        }
        r
    }
    /// fork over the feasible concrete values
    pub fn concrete(self) -> i64 {
        let T(id) = self else {
            let C(c) = self else { unreachable!() };
            return c;
        };
        let (lo, hi) = self.irange();
        if hi - lo <= 16 {
            for v in lo..hi {
                if self == C(v as i64) {
                    return v as i64;
                }
            }
            return hi as i64;
        }
        for _ in 0..5000 {
            // a candidate value: from the decision log when replaying, from the solver otherwise
            let (ans, vals) = with(|e| {
                if e.pos < e.log.len() {
                    let d = e.log[e.pos].clone();
                    e.pos += 1;
                    return (Ans::Sat, vec![format!("{}", d.val)]);
                }
                let shv = e.nodes[id as usize].ish;
                let (a, v) = if e.sh_ok && shv != i128::MIN { (Ans::Sat, vec![format!("{}", shv)]) } else { e.query(&[], &[id], 1) };
                if a == Ans::Sat {
                    if let Some(x) = v.get(0).and_then(|s| eval_value(s)) {
                        let x = x as i64;
                        e.log.push(Dec { val: x, alts: vec![], implied: true });
                        e.pos += 1;
                        return (a, vec![format!("{}", x)]);
                    }
                }
                (Ans::Unknown, v)
            });
            if ans != Ans::Sat {
                abort("unsupported: cannot concretise");
            }
            let v: i64 = vals[0].parse().unwrap();
            if self == C(v) {
                return v;
            }
        }
        abort("unsupported: too many concrete values")
    }
    pub fn to_f(self) -> SymF {
        match self {
            C(c) => SymF::C(c as f64),
            T(i) => {
                let k = format!("tof{}", i);
                if let Some(j) = with(|e| e.keys.get(&k).copied()) {
                    return SymF::T(j);
                }
                with(|e| {
                    let (lo, hi) = (e.nodes[i as usize].ilo as f64, e.nodes[i as usize].ihi as f64);
                    let mut n = Engine::blank(Sort::Real, lo, hi);
                    n.isint = true;
                    n.sh = e.nodes[i as usize].sh;
                    let m = lo.abs().max(hi.abs());
                    if m >= 9.007e15 {
                        n.err = m * 1.2e-16;
                    }
                    n.def = Some(format!("(to_real n{})", i));
                    n.deps = vec![i];
                    let id = e.push(n);
                    e.keys.insert(k, id);
                    SymF::T(id)
                })
            }
        }
    }
    // ------------------------------------------------------------ i64 API
    pub fn abs(self) -> SymI {
        match self {
            C(c) => C(c.abs()),
            _ => {
                if self >= C(0) {
                    self
                } else {
                    self.neg_()
                }
            }
        }
    }
    pub fn unsigned_abs(self) -> u64 {
        self.abs().concrete() as u64
    }
    pub fn signum(self) -> SymI {
        if self > C(0) {
            C(1)
        } else if self == C(0) {
            C(0)
        } else {
            C(-1)
        }
    }
    pub fn is_negative(self) -> bool {
        self < C(0)
    }
    pub fn is_positive(self) -> bool {
        self > C(0)
    }
    pub fn pow(self, k: u32) -> SymI {
        let mut r = C(1);
        for _ in 0..k {
            r = r * self;
        }
        r
    }
    pub fn min(self, o: SymI) -> SymI {
        if self <= o {
            self
        } else {
            o
        }
    }
    pub fn max(self, o: SymI) -> SymI {
        if self >= o {
            self
        } else {
            o
        }
    }
    pub fn clamp(self, lo: SymI, hi: SymI) -> SymI {
        assert!(lo <= hi);
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn rem_euclid(self, m: SymI) -> SymI {
        if let (_, C(c)) = (self, m) {
            if c > 0 {
                return self.floor_split(c as i128).1;
            }
        }
        let r = self % m;
        if r < C(0) {
            r + m.abs()
        } else {
            r
        }
    }
    pub fn div_euclid(self, m: SymI) -> SymI {
        if let (_, C(c)) = (self, m) {
            if c > 0 {
                return self.floor_split(c as i128).0;
            }
        }
        (self - self.rem_euclid(m)) / m
    }
    pub fn wrapping_add(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.wrapping_add(b)),
            _ => self + o,
        }
    }
    pub fn wrapping_sub(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.wrapping_sub(b)),
            _ => self - o,
        }
    }
    pub fn wrapping_mul(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.wrapping_mul(b)),
            _ => self * o,
        }
    }
    pub fn saturating_add(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.saturating_add(b)),
            _ => self + o,
        }
    }
    pub fn saturating_sub(self, o: SymI) -> SymI {
        match (self, o) {
            (C(a), C(b)) => C(a.saturating_sub(b)),
            _ => self - o,
        }
    }
    pub fn checked_add(self, o: SymI) -> Option<SymI> {
        match (self, o) {
            (C(a), C(b)) => a.checked_add(b).map(C),
            _ => Some(self + o),
        }
    }
    pub fn checked_sub(self, o: SymI) -> Option<SymI> {
        match (self, o) {
            (C(a), C(b)) => a.checked_sub(b).map(C),
            _ => Some(self - o),
        }
    }
    pub fn checked_div(self, o: SymI) -> Option<SymI> {
        if o == C(0) {
            None
        } else {
            Some(self / o)
        }
    }
    pub fn abs_diff(self, o: SymI) -> u64 {
        (self - o).abs().concrete() as u64
    }
    pub fn from_str_radix(s: &str, r: u32) -> Result<SymI, std::num::ParseIntError> {
        let ds = with(|e| e.digits.clone());
        let marked = |c: char| c.is_ascii_alphabetic() && c.to_ascii_lowercase() >= 'g' && ((c.to_ascii_lowercase() as u8 - b'g') as usize) < ds.len();
        if !s.chars().any(marked) {
            return i64::from_str_radix(s, r).map(C);
        }
        if r != 16 || s.len() > 15 {
            abort("unsupported: reading symbolic digits");
        }
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let mut v = C(0);
        for c in t.chars() {
            let d = match c.to_digit(16) {
                Some(d) => C(d as i64),
                None if marked(c) => ds[(c.to_ascii_lowercase() as u8 - b'g') as usize],
                None => return i64::from_str_radix("!", 16).map(C),
            };
            v = v * C(16) + d;
        }
        Ok(if neg { C(0) - v } else { v })
    }
    /// a hexadecimal digit as a character: itself, or a marker standing for it
    pub fn digit_char(self, upper: bool) -> char {
        let c = match self {
            C(d) => char::from_digit(d as u32, 16).unwrap(),
            _ => with(|e| {
                let k = match e.digits.iter().position(|x| matches!((*x, self), (T(a), T(b)) if a == b)) {
                    Some(k) => k,
                    None => {
                        e.digits.push(self);
                        e.digits.len() - 1
                    }
                };
                if k >= 20 {
                    char::MAX
                } else {
                    (b'g' + k as u8) as char
                }
            }),
        };
        if c == char::MAX {
            abort("unsupported: too many symbolic digits");
        }
        if upper {
            c.to_ascii_uppercase()
        } else {
            c
        }
    }
    /// the digit a character stands for, -1 if none
    pub fn of_char(c: char) -> SymI {
        if let Some(d) = c.to_digit(16) {
            return C(d as i64);
        }
        let l = c.to_ascii_lowercase();
        with(|e| if l >= 'g' && l <= 'z' { e.digits.get((l as u8 - b'g') as usize).copied() } else { None }).unwrap_or(C(-1))
    }
    /// hexadecimal text; forks on the number of digits
    fn hex(self, upper: bool, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if let C(c) = self {
            return if upper { std::fmt::UpperHex::fmt(&c, f) } else { std::fmt::LowerHex::fmt(&c, f) };
        }
        if self < C(0) {
            abort("unsupported: hexadecimal text of a negative number");
        }
        let mut n = 1;
        while n < 15 && self >= C(1i64 << (4 * n)) {
            n += 1;
        }
        let mut s = String::new();
        for k in (0..n).rev() {
            let d = (self / C(1i64 << (4 * k))) % C(16);
            s.push(d.digit_char(upper));
        }
        f.pad_integral(true, "0x", &s)
    }
    pub fn to_ne_bytes(self) -> [u8; 8] {
        self.concrete().to_ne_bytes()
    }
    pub fn count_ones(self) -> u32 {
        self.concrete().count_ones()
    }
    pub fn leading_zeros(self) -> u32 {
        self.concrete().leading_zeros()
    }
}
fn mk_const(k: i128) -> SymI {
    if k < i64::MIN as i128 || k > i64::MAX as i128 {
        panic!("arithmetic overflow");
    }
    C(k as i64)
}
fn lin_add(a: Lin, b: Lin, s: i128) -> Lin {
    let mut t = a.0;
    for (c, i) in b.0 {
        if let Some(x) = t.iter_mut().find(|x| x.1 == i) {
            x.0 += s * c;
        } else {
            t.push((s * c, i));
        }
    }
    t.sort_by_key(|x| x.1);
    (t, a.1 + s * b.1)
}

macro_rules! bin { ($tr:ident,$m:ident,$f:expr,$tra:ident,$ma:ident) => {
    impl $tr for SymI { type Output = SymI; fn $m(self, o: SymI) -> SymI { $f(self, o) } }
    impl<'a> $tr<&'a SymI> for SymI { type Output = SymI; fn $m(self, o: &SymI) -> SymI { $f(self, *o) } }
    impl<'a> $tr<SymI> for &'a SymI { type Output = SymI; fn $m(self, o: SymI) -> SymI { $f(*self, o) } }
    impl<'a,'b> $tr<&'b SymI> for &'a SymI { type Output = SymI; fn $m(self, o: &SymI) -> SymI { $f(*self, *o) } }
    impl $tra for SymI { fn $ma(&mut self, o: SymI) { *self = $f(*self, o); } }
    impl<'a> $tra<&'a SymI> for SymI { fn $ma(&mut self, o: &SymI) { *self = $f(*self, *o); } }
} }
bin!(Add, add, |a: SymI, b: SymI| a.add_(b), AddAssign, add_assign);
bin!(Sub, sub, |a: SymI, b: SymI| a.sub_(b), SubAssign, sub_assign);
bin!(Mul, mul, |a: SymI, b: SymI| a.mul_(b), MulAssign, mul_assign);
fn idiv(a: SymI, b: SymI) -> SymI {
    if let (C(x), C(y)) = (a, b) {
        return C(x / y);
    }
    a.divmod(b).0
}
fn irem(a: SymI, b: SymI) -> SymI {
    if let (C(x), C(y)) = (a, b) {
        return C(x % y);
    }
    a.divmod(b).1
}
bin!(Div, div, |a: SymI, b: SymI| idiv(a, b), DivAssign, div_assign);
bin!(Rem, rem, |a: SymI, b: SymI| irem(a, b), RemAssign, rem_assign);
bin!(BitAnd, bitand, |a: SymI, b: SymI| a.and_(b), BitAndAssign, bitand_assign);
bin!(BitOr, bitor, |a: SymI, b: SymI| a.or_(b, "bvor"), BitOrAssign, bitor_assign);
bin!(BitXor, bitxor, |a: SymI, b: SymI| a.or_(b, "bvxor"), BitXorAssign, bitxor_assign);
macro_rules! sh { ($($t:ty),*) => {$(
    impl Shl<&$t> for SymI { type Output = SymI; fn shl(self, k: &$t) -> SymI { self.shl_(*k as u32) } }
    impl Shr<&$t> for SymI { type Output = SymI; fn shr(self, k: &$t) -> SymI { self.shr_(*k as u32) } }
    impl Shl<$t> for SymI { type Output = SymI; fn shl(self, k: $t) -> SymI { self.shl_(k as u32) } }
    impl Shr<$t> for SymI { type Output = SymI; fn shr(self, k: $t) -> SymI { self.shr_(k as u32) } }
    impl ShlAssign<$t> for SymI { fn shl_assign(&mut self, k: $t) { *self = self.shl_(k as u32) } }
    impl ShrAssign<$t> for SymI { fn shr_assign(&mut self, k: $t) { *self = self.shr_(k as u32) } }
)*} }
sh!(i32, u32, usize, u8, i8, u64);
impl Shl<SymI> for SymI {
    type Output = SymI;
    fn shl(self, k: SymI) -> SymI {
        self.shl_(k.concrete() as u32)
    }
}
impl Shr<SymI> for SymI {
    type Output = SymI;
    fn shr(self, k: SymI) -> SymI {
        self.shr_(k.concrete() as u32)
    }
}
impl Not for SymI {
    type Output = SymI;
    fn not(self) -> SymI {
        C(-1).sub_(self)
    }
}
impl Neg for SymI {
    type Output = SymI;
    fn neg(self) -> SymI {
        self.neg_()
    }
}
impl Neg for &SymI {
    type Output = SymI;
    fn neg(self) -> SymI {
        self.neg_()
    }
}
impl PartialEq for SymI {
    fn eq(&self, o: &SymI) -> bool {
        SymI::cmp_("=", *self, *o)
    }
}
impl Eq for SymI {}
impl PartialOrd for SymI {
    fn partial_cmp(&self, o: &SymI) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &SymI) -> bool {
        SymI::cmp_("<", *self, *o)
    }
    fn le(&self, o: &SymI) -> bool {
        SymI::cmp_("<=", *self, *o)
    }
    fn gt(&self, o: &SymI) -> bool {
        SymI::cmp_("<", *o, *self)
    }
    fn ge(&self, o: &SymI) -> bool {
        SymI::cmp_("<=", *o, *self)
    }
}
impl Ord for SymI {
    fn cmp(&self, o: &SymI) -> Ordering {
        if let (C(a), C(b)) = (self, o) {
            return a.cmp(b);
        }
        if SymI::cmp_("<", *self, *o) {
            Ordering::Less
        } else if SymI::cmp_("=", *self, *o) {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
impl std::hash::Hash for SymI {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        // equal values must hash equally: identify the value among those hashed before
        let prev: Vec<(SymI, u64)> = with(|e| e.ihash.clone());
        for (i, b) in &prev {
            if *i == *self {
                return b.hash(h);
            }
        }
        let b = match self {
            C(c) => *c as u64,
            T(_) => 0x5eed_0000_0000_0000u64 + prev.len() as u64,
        };
        with(|e| e.ihash.push((*self, b)));
        b.hash(h)
    }
}
impl std::iter::Step for SymI {
    fn steps_between(a: &SymI, b: &SymI) -> (usize, Option<usize>) {
        match (a, b) {
            (C(x), C(y)) => {
                if x <= y {
                    ((y - x) as usize, Some((y - x) as usize))
                } else {
                    (0, None)
                }
            }
            _ => (0, None),
        }
    }
    fn forward_checked(a: SymI, n: usize) -> Option<SymI> {
        Some(a + C(n as i64))
    }
    fn backward_checked(a: SymI, n: usize) -> Option<SymI> {
        Some(a - C(n as i64))
    }
    fn forward_overflowing(a: SymI, n: usize) -> (SymI, bool) {
        (a + C(n as i64), false)
    }
    fn backward_overflowing(a: SymI, n: usize) -> (SymI, bool) {
        (a - C(n as i64), false)
    }
}
impl std::iter::Sum for SymI {
    fn sum<I: Iterator<Item = SymI>>(i: I) -> SymI {
        i.fold(C(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a SymI> for SymI {
    fn sum<I: Iterator<Item = &'a SymI>>(i: I) -> SymI {
        i.fold(C(0), |a, b| a + *b)
    }
}
impl std::iter::Product for SymI {
    fn product<I: Iterator<Item = SymI>>(i: I) -> SymI {
        i.fold(C(1), |a, b| a * b)
    }
}
impl std::fmt::Display for SymI {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C(c) => std::fmt::Display::fmt(c, f),
            T(i) => write!(f, "<i{}>", i),
        }
    }
}
impl std::fmt::Debug for SymI {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C(c) => std::fmt::Debug::fmt(c, f),
            T(i) => write!(f, "<i{}>", i),
        }
    }
}
impl std::fmt::LowerHex for SymI {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.hex(false, f)
    }
}
impl std::fmt::UpperHex for SymI {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.hex(true, f)
    }
}
impl Default for SymI {
    fn default() -> SymI {
        C(0)
    }
}
impl std::str::FromStr for SymI {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<SymI, Self::Err> {
        s.parse::<i64>().map(C)
    }
}
macro_rules! from { ($($t:ty),*) => {$( impl From<$t> for SymI { fn from(x: $t) -> SymI { C(x as i64) } } )*} }
from!(i8, i16, i32, u8, u16, u32, bool);
macro_rules! tryfrom { ($($t:ty),*) => {$(
    impl TryFrom<SymI> for $t { type Error = std::num::TryFromIntError; fn try_from(x: SymI) -> Result<$t, Self::Error> { <$t>::try_from(x.concrete()) } }
)*} }
tryfrom!(u8, u16, u32, u64, usize, i8, i16, i32, isize);
impl TryFrom<usize> for SymI {
    type Error = std::num::TryFromIntError;
    fn try_from(x: usize) -> Result<SymI, Self::Error> {
        i64::try_from(x).map(C)
    }
}
impl TryFrom<u64> for SymI {
    type Error = std::num::TryFromIntError;
    fn try_from(x: u64) -> Result<SymI, Self::Error> {
        i64::try_from(x).map(C)
    }
}
