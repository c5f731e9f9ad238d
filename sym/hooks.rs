//! Abstractions of functions that are not executed symbolically when a harness asks for it
//! (`hook("name")`). Each returns None when it is not in force.
#![allow(dead_code, unused_variables, unused_imports, non_snake_case)]
use crate::__sym::*;

fn f(v: Val) -> SymF {
    match v {
        Val::F(x) => x,
        Val::I(i) => i.to_f(),
    }
}
fn i(v: Val) -> SymI {
    match v {
        Val::I(x) => x,
        _ => abort("hook: integer expected"),
    }
}
fn log(name: &str, v: Vec<Val>) {
    with(|e| e.logs.entry(name.to_string()).or_default().push(v))
}
fn same(a: SymF, b: SymF) -> bool {
    match (a, b) {
        (SymF::C(x), SymF::C(y)) => x == y,
        (SymF::T(x), SymF::T(y)) => x == y,
        _ => false,
    }
}
const ARGB: (Sort, f64, f64) = (Sort::Int, 4278190080.0, 4294967295.0);

//@ transfer
// sRGB transfer function: some function of the component with values in [0,100]; its inverse: some
// function with values in 0..=255, whose arguments are recorded
pub fn utils__color_utils__ColorUtils__linearized(c: &SymI) -> Option<SymF> {
    if !hook_on("transfer") {
        return None;
    }
    let r = uf("linearized", &[(*c).into()], &[(Sort::Real, 0.0, 100.0)])[0];
    log("linearized", vec![(*c).into(), r]);
    Some(f(r))
}
pub fn utils__color_utils__ColorUtils__delinearized(x: &SymF) -> Option<SymI> {
    if !hook_on("transfer") {
        return None;
    }
    let r = uf("delinearized", &[(*x).into()], &[(Sort::Int, 0.0, 255.0)])[0];
    log("delinearized", vec![(*x).into(), r]);
    Some(i(r))
}

//@ hct
// HCT <-> ARGB: the appearance of an ARGB colour (hue, chroma, ...) and the colour found for a hue,
// chroma and tone are some functions of their arguments, within the ranges they document
pub fn hct__cam16__Cam16__from_int(c: &SymI) -> Option<crate::hct::cam16::Cam16> {
    if !hook_on("hct") || matches!(c, SymI::C(_)) {
        return None;
    }
    if let Some(x) = cusp(c) {
        return Some(x);
    }
    let r = Sort::Real;
    let v = uf("cam16", &[(*c).into()], &[(r, 0.0, 359.99999999999994), (r, 0.0, 120.0), (r, 0.0, 100.1), (r, 0.0, 300.0), (r, 0.0, 120.0), (r, 0.0, 200.0), (r, 0.0, 100.1), (r, -60.0, 60.0), (r, -60.0, 60.0)]);
    log("cam16", vec![(*c).into(), v[0], v[1], v[6], v[7], v[8]]);
    Some(crate::hct::cam16::Cam16::new(f(v[0]), f(v[1]), f(v[2]), f(v[3]), f(v[4]), f(v[5]), f(v[6]), f(v[7]), f(v[8])))
}
/// where a harness asks for it: the chroma reached at a tone is what was asked for, but at most that
/// of a gamut that narrows in proportion to the distance from a given tone
fn cusp(c: &SymI) -> Option<crate::hct::cam16::Cam16> {
    let lo = opt("cusp", -1) as f64;
    if lo < 0.0 {
        return None;
    }
    let SymI::T(id) = c else { return None };
    let (h, ch, t) = with(|e| e.logs.get("solve").into_iter().flatten().find(|r| matches!(r[3], Val::I(SymI::T(a)) if a == *id)).map(|r| (f(r[0]), f(r[1]), f(r[2]))))?;
    let SymF::C(t) = t else { return None };
    // 130.25 at the cusp
    let k = 130.25 - (t - lo - 0.375).abs();
    let (cl, chh) = ch.range();
    let x = if chh <= k {
        ch
    } else if cl >= k {
        SymF::C(k)
    } else if ch <= SymF::C(k) {
        ch
    } else {
        SymF::C(k)
    };
    let z = SymF::C(0.0);
    Some(crate::hct::cam16::Cam16::new(h, x, z, z, z, z, z, z, z))
}
pub fn utils__color_utils__ColorUtils__lstar_from_argb(c: &SymI) -> Option<SymF> {
    if !hook_on("hct") || matches!(c, SymI::C(_)) {
        return None;
    }
    // a colour found for a tone has that tone, give or take quantisation (property H01)
    let mut near = None;
    with(|e| {
        for r in e.logs.get("solve").into_iter().flatten() {
            if let (Val::F(t), Val::I(SymI::T(a)), SymI::T(b)) = (r[2], r[3], c) {
                if a == *b {
                    near = Some(t);
                }
            }
        }
    });
    let (lo, hi) = near.map_or((0.0, 100.0), |t| (t.range().0 - 1.0, t.range().1 + 1.0));
    let v = uf("lstar", &[(*c).into()], &[(Sort::Real, lo.max(0.0), hi.min(100.0))])[0];
    if let Some(t) = near {
        shadow(v, t.sh());
        fact("(<= (- 1.0) (- $0 $1) 1.0)", &[f(v), t], (f(v).sh() - t.sh()).abs() <= 1.0);
    }
    log("lstar", vec![(*c).into(), v]);
    Some(f(v))
}
pub fn hct__src__hct_solver__HctSolver__solve_to_int(h: &SymF, c: &SymF, t: &SymF) -> Option<SymI> {
    if !hook_on("hct") {
        return None;
    }
    if matches!((h, c, t), (SymF::C(_), SymF::C(_), SymF::C(_))) {
        return None;
    }
    let v = uf("solve", &[(*h).into(), (*c).into(), (*t).into()], &[ARGB])[0];
    log("solve", vec![(*h).into(), (*c).into(), (*t).into(), v]);
    Some(i(v))
}

//@ keycolor
// the key colour of a palette is not looked at
pub fn palettes__tonal_palette__TonalPalette__create_key_color(h: &SymF, c: &SymF) -> Option<crate::hct::hct::Hct> {
    if !hook_on("keycolor") {
        return None;
    }
    Some(crate::hct::hct::Hct::from_int(SymI::C(0xff6750a4)))
}

//@ contrast
// Contrast, by the contract that properties C01 and C02 decide: the ratio is a function of the
// darker and the lighter of the two (clamped) tones in [1,21], larger for wider tone intervals,
// changing by at most 1e-5 when a tone moves by 1e-6; a
// tone found reaches its ratio; none is refused that half a tone short of the extreme would reach
fn y_of(l: f64) -> f64 {
    let ft = (l + 16.0) / 116.0;
    if ft > 6.0 / 29.0 { 100.0 * ft * ft * ft } else { 100.0 * (116.0 * ft - 16.0) / 903.2962962962963 }
}
fn l_of(y: f64) -> f64 {
    let y = y / 100.0;
    if y > 216.0 / 24389.0 { 116.0 * y.cbrt() - 16.0 } else { y * 903.2962962962963 }
}
fn r_of(a: f64, b: f64) -> f64 {
    let (x, y) = (y_of(a.max(0.0).min(100.0)), y_of(b.max(0.0).min(100.0)));
    (x.max(y) + 5.0) / (x.min(y) + 5.0)
}
fn clamp_tone(t: SymF) -> SymF {
    let (lo, hi) = t.range();
    if let SymF::C(c) = t {
        return SymF::C(c.max(0.0).min(100.0));
    }
    if lo >= 0.0 && hi <= 100.0 {
        return t;
    }
    term("(ite (< $0 0.0) 0.0 (ite (> $0 100.0) 100.0 $0))", &[t], lo.max(0.0), hi.min(100.0), t.sh().max(0.0).min(100.0))
}
fn ratio_app(a: SymF, b: SymF) -> SymF {
    let (a, b) = (clamp_tone(a), clamp_tone(b));
    let seen: Vec<(SymF, SymF, SymF)> = with(|e| e.logs.get("ratios").cloned().unwrap_or_default()).iter().map(|v| (f(v[0]), f(v[1]), f(v[2]))).collect();
    if let Some(p) = seen.iter().find(|p| same(p.0, a) && same(p.1, b) || same(p.0, b) && same(p.1, a)) {
        return p.2;
    }
    let r = ratio_new(a, b);
    log("ratios", vec![a.into(), b.into(), r.into()]);
    r
}
fn ratio_new(a: SymF, b: SymF) -> SymF {
    let ((al, ah), (bl, bh)) = (a.range(), b.range());
    let (lo, hi) = if ah <= bl {
        (a, b)
    } else if bh <= al {
        (b, a)
    } else {
        (
            term("(ite (<= $0 $1) $0 $1)", &[a, b], al.min(bl), ah.min(bh), a.sh().min(b.sh())),
            term("(ite (<= $0 $1) $1 $0)", &[a, b], al.max(bl), ah.max(bh), a.sh().max(b.sh())),
        )
    };
    let sh = r_of(lo.sh(), hi.sh());
    // the ratio of the narrowest and of the widest interval that the ranges allow
    let (ll, lh, hl, hh) = (lo.range().0, lo.range().1, hi.range().0, hi.range().1);
    let rmax = (r_of(ll, hh) + 1e-9).min(21.0 + 1e-9);
    let rmin = if hl > lh { r_of(lh, hl) - 1e-9 } else { 1.0 - 1e-9 };
    let prev: Vec<(SymF, SymF, SymF)> = with(|e| e.logs.get("ratio apps").cloned().unwrap_or_default()).iter().map(|v| (f(v[0]), f(v[1]), f(v[2]))).collect();
    if let Some(p) = prev.iter().find(|p| same(p.0, lo) && same(p.1, hi)) {
        return p.2;
    }
    let v = fresh(Sort::Real, rmin, rmax);
    shadow(v, sh);
    let r = f(v);
    for (pl, ph, pr) in &prev {
        let (l0, l1) = (lo.range(), pl.range());
        let (h0, h1) = (hi.range(), ph.range());
        let (r0, r1) = (r.range(), pr.range());
        let e = 2e-6;
        if l0.0 <= l1.1 + e && h0.1 >= h1.0 - e && r0.0 < r1.1 - 1e-5 {
            aside(r, "(=> (and (<= $0 (+ $2 0.000001)) (>= $1 (- $3 0.000001))) (>= $4 (- $5 0.00001)))", &[lo, hi, *pl, *ph, r, *pr]);
        }
        if l0.1 >= l1.0 - e && h0.0 <= h1.1 + e && r0.1 > r1.0 + 1e-5 {
            aside(r, "(=> (and (>= $0 (- $2 0.000001)) (<= $1 (+ $3 0.000001))) (<= $4 (+ $5 0.00001)))", &[lo, hi, *pl, *ph, r, *pr]);
        }
    }
    log("ratio apps", vec![lo.into(), hi.into(), v]);
    anchors(r, a, b);
    anchors(r, b, a);
    r
}
/// with one tone (nearly) known: the ratio at some values of the other, and monotonicity from there
fn anchors(r: SymF, a: SymF, b: SymF) {
    let ((al, ah), (bl, bh)) = (a.range(), b.range());
    let SymF::T(_) = a else { return };
    if bh - bl > 6.0 || ah - al < 1.0 {
        return;
    }
    let (r0, r1) = r.range();
    let lemma = |txt: &str, g: f64, bound: f64| aside(r, txt, &[a, SymF::C(g), r, SymF::C(bound), SymF::C(bl), SymF::C(bh)]);
    if ah > bl && al < bh && r_of(bl, bh) < r1 {
        lemma("(=> (<= $4 $0 $5) (<= $2 $3))", 0.0, r_of(bl, bh) + 1e-5);
    }
    for k in 0..13 {
        let g = if k == 11 { 49.0 } else if k == 12 { 59.0 } else { k as f64 * 10.0 };
        if g < al || g > ah {
            continue;
        }
        if g < bl && r_of(g, bl) > r0 {
            lemma("(=> (<= $0 (+ $1 0.000001)) (>= $2 $3))", g, r_of(g, bl) - 1e-5);
        }
        if g < bl && r_of(g, bh) < r1 {
            lemma("(=> (<= $1 $0 $4) (<= $2 $3))", g, r_of(g, bh) + 1e-5);
        }
        if g > bh && r_of(g, bh) > r0 {
            lemma("(=> (>= $0 (- $1 0.000001)) (>= $2 $3))", g, r_of(g, bh) - 1e-5);
        }
        if g > bh && r_of(g, bl) < r1 {
            lemma("(=> (<= $5 $0 $1) (<= $2 $3))", g, r_of(g, bl) + 1e-5);
        }
    }
}
pub fn contrast__contrast__Contrast__ratio_of_tones(a: &SymF, b: &SymF) -> Option<SymF> {
    if !hook_on("contrast") {
        return None;
    }
    Some(ratio_app(*a, *b))
}
fn find(t: SymF, r: SymF, up: bool) -> SymF {
    if t < SymF::C(0.0) || t > SymF::C(100.0) {
        return SymF::C(-1.0);
    }
    let name = if up { "lighter" } else { "darker" };
    // the tone that just reaches the ratio
    let exact = |t: f64, r: f64| {
        let y = y_of(t.max(0.0).min(100.0)) + 5.0;
        l_of((if up { r * y } else { y / r }) - 5.0)
    };
    let ((tl, th), (rl, rh)) = (t.range(), r.range());
    let (tl, th) = (tl.max(0.0), th.min(100.0));
    // most and least demanding combination in range
    let (easy, hard) = if up { (exact(tl, rl), exact(th, rh)) } else { (exact(th, rl), exact(tl, rh)) };
    let (impossible, sure) = if up {
        (easy > 100.001, th <= 99.5 && hard < 99.499)
    } else {
        (easy < -0.001, tl >= 0.5 && hard > 0.501)
    };
    if impossible {
        return SymF::C(-1.0);
    }
    let sh = exact(t.sh(), r.sh()) + if up { 0.4 } else { -0.4 };
    let found = sure || {
        let v = uf(&format!("{}?", name), &[t.into(), r.into()], &[(Sort::Int, 0.0, 1.0)])[0];
        shadow(v, if sh >= 0.0 && sh <= 100.0 { 1.0 } else { 0.0 });
        i(v) == SymI::C(1)
    };
    if found {
        let (lo, hi) = if up { (easy - 0.001, hard + 0.501) } else { (hard - 0.501, easy + 0.001) };
        let x = uf(name, &[t.into(), r.into()], &[(Sort::Real, lo.max(0.0), hi.min(100.0))])[0];
        shadow(x, sh);
        let x = f(x);
        let (a, b) = (x.sh(), t.sh());
        fact(if up { "(>= $0 $1)" } else { "(<= $0 $1)" }, &[x, t], if up { a >= b } else { a <= b });
        let q = ratio_app(x, t);
        fact("(>= $0 $1)", &[q, r], q.sh() >= r.sh());
        x
    } else {
        let e = SymF::C(if up { 99.5 } else { 0.5 });
        let q = ratio_app(e, t);
        let past = if up { t.sh() > 99.5 } else { t.sh() < 0.5 };
        fact(if up { "(or (> $2 99.5) (< $0 $1))" } else { "(or (< $2 0.5) (< $0 $1))" }, &[q, r, t], past || q.sh() < r.sh());
        SymF::C(-1.0)
    }
}
pub fn contrast__contrast__Contrast__lighter(t: &SymF, r: &SymF) -> Option<SymF> {
    if !hook_on("contrast") {
        return None;
    }
    Some(find(*t, *r, true))
}
pub fn contrast__contrast__Contrast__darker(t: &SymF, r: &SymF) -> Option<SymF> {
    if !hook_on("contrast") {
        return None;
    }
    Some(find(*t, *r, false))
}

//@ dislike
// whether a colour is disliked: some function of it, never true from tone 65.5 on
pub fn dislike__dislike_analyzer__DislikeAnalyzer__is_disliked(h: &&crate::hct::hct::Hct) -> Option<bool> {
    if !hook_on("dislike") {
        return None;
    }
    if h.get_tone() >= SymF::C(65.5) {
        return Some(false);
    }
    let v = uf("disliked", &[h.get_tone().into(), h.get_hue().into(), h.get_chroma().into()], &[(Sort::Int, 0.0, 1.0)])[0];
    Some(i(v) == SymI::C(1))
}

//@ temperature
// the complement and the analogous colours: some functions of the input colour
pub fn temperature__temperature_cache__TemperatureCache__get_complement(t: &&mut crate::temperature::temperature_cache::TemperatureCache) -> Option<crate::hct::hct::Hct> {
    if !hook_on("temperature") {
        return None;
    }
    let v = uf("complement", &[t.input.to_int().into()], &[ARGB])[0];
    Some(crate::hct::hct::Hct::from_int(i(v)))
}
pub fn temperature__temperature_cache__TemperatureCache__analogous(t: &&mut crate::temperature::temperature_cache::TemperatureCache, count: &Option<SymI>, divisions: &Option<SymI>) -> Option<Vec<crate::hct::hct::Hct>> {
    if !hook_on("temperature") {
        return None;
    }
    let (c, d) = (count.unwrap_or(SymI::C(5)).concrete(), divisions.unwrap_or(SymI::C(12)).concrete());
    let v = uf(&format!("analogous {} {}", c, d), &[t.input.to_int().into()], &vec![ARGB; c as usize]);
    Some(v.into_iter().map(|x| crate::hct::hct::Hct::from_int(i(x))).collect())
}

//@ ucs
// CAM16-UCS and the way back to ARGB: some functions of their arguments, which are recorded
pub fn hct__cam16__Cam16__from_ucs(j: &SymF, a: &SymF, b: &SymF) -> Option<crate::hct::cam16::Cam16> {
    if !hook_on("ucs") {
        return None;
    }
    let id = uf("ucs", &[(*j).into(), (*a).into(), (*b).into()], &[(Sort::Int, 0.0, 1e15)])[0];
    log("ucs", vec![(*j).into(), (*a).into(), (*b).into(), id]);
    let z = SymF::C(0.0);
    // the value is carried through in one of the fields
    Some(crate::hct::cam16::Cam16::new(z, z, i(id).to_f(), z, z, z, *j, *a, *b))
}
pub fn hct__cam16__Cam16__to_int(c: &&crate::hct::cam16::Cam16) -> Option<SymI> {
    if !hook_on("ucs") {
        return None;
    }
    let n = with(|e| e.logs.get("ucs").cloned().unwrap_or_default());
    let src = n.iter().rev().find(|r| same(f(r[0]), c.jstar) && same(f(r[1]), c.astar) && same(f(r[2]), c.bstar)).map(|r| i(r[3]));
    let Some(id) = src else { abort("hook: Cam16::to_int of an unknown colour") };
    let v = uf("cam to int", &[id.into()], &[ARGB])[0];
    log("cam to int", vec![id.into(), v]);
    Some(i(v))
}

//@ lab
// L*a*b*: a colour is some point on one of the axes (which: the harness's choice), the colour of a
// point some function of it; a colour's own point, give or take noise, gives that colour back (C05)
pub fn utils__color_utils__ColorUtils__lab_from_argb(c: &SymI) -> Option<Vec<SymF>> {
    if !hook_on("lab") || matches!(c, SymI::C(_)) {
        return None;
    }
    let axis = opt("axis", 0) as usize;
    let (lo, hi) = if axis == 0 { (0.0_f64, 100.0_f64) } else { (-110.0, 110.0) };
    // a harness may look at a part of the axis
    let (lo, hi) = (lo.max(opt("lab from", -200) as f64), hi.min(opt("lab to", 200) as f64));
    let v = uf("lab", &[(*c).into()], &[(Sort::Real, lo, hi)])[0];
    log("lab", vec![(*c).into(), v]);
    let mut p = vec![SymF::C(0.0); 3];
    p[axis] = f(v);
    Some(p)
}
pub fn utils__color_utils__ColorUtils__argb_from_lab(l: &SymF, a: &SymF, b: &SymF) -> Option<SymI> {
    if !hook_on("lab") || [l, a, b].iter().all(|x| matches!(x, SymF::C(_))) {
        return None;
    }
    let v = uf("argb of lab", &[(*l).into(), (*a).into(), (*b).into()], &[ARGB])[0];
    let x = [*l, *a, *b][opt("axis", 0) as usize];
    let known = with(|e| e.logs.get("lab").cloned().unwrap_or_default());
    for r in known {
        let (p, q) = (i(r[0]).to_f(), f(r[1]));
        if same(x, q) {
            shadow(v, p.sh());
        }
        fact("(=> (<= (- 0.000001) (- $0 $1) 0.000001) (= $2 $3))", &[x, q, i(v).to_f(), p], (x.sh() - q.sh()).abs() > 1e-6 || p.sh() == i(v).to_f().sh());
    }
    // points that noise alone tells apart give the same colour
    for r in with(|e| e.logs.get("argb of lab").cloned().unwrap_or_default()) {
        if same(f(r[0]), x) {
            continue;
        }
        fact("(=> (<= (- 0.000001) (- $0 $1) 0.000001) (= $2 $3))", &[x, f(r[0]), i(v).to_f(), i(r[1]).to_f()], (x.sh() - f(r[0]).sh()).abs() > 1e-6 || i(r[1]).to_f().sh() == i(v).to_f().sh());
    }
    log("argb of lab", vec![x.into(), v]);
    Some(i(v))
}
// the distance of two points: some function of them, never negative
pub fn quantize__src__point_provider_lab__PointProviderLab__distance(s: &&crate::quantize::src::point_provider_lab::PointProviderLab, one: &&Vec<SymF>, two: &&Vec<SymF>) -> Option<SymF> {
    if !hook_on("distance") {
        return None;
    }
    if (0..3).all(|k| same(one[k], two[k])) {
        return Some(SymF::C(0.0));
    }
    if one.iter().chain(two.iter()).all(|x| matches!(x, SymF::C(_))) {
        return None;
    }
    let args: Vec<Val> = one.iter().chain(two.iter()).map(|x| (*x).into()).collect();
    let v = uf("distance", &args, &[(Sort::Real, 0.0, 150000.0)])[0];
    let d = (0..3).map(|k| (one[k].sh() - two[k].sh()).powi(2)).sum::<f64>();
    shadow(v, d);
    Some(f(v))
}

//@ beyond
// the chroma asked for is more than any colour of that hue and tone has: the search inside the gamut
// comes back empty-handed
pub fn hct__src__hct_solver__HctSolver___find_result_by_j(h: &SymF, c: &SymF, y: &SymF) -> Option<SymI> {
    if !hook_on("beyond") {
        return None;
    }
    Some(SymI::C(0))
}

//@ wheel
// a colour wheel on which the colour asked for with a whole hue has exactly that hue, the chroma and
// tone of the input, and a temperature that rises from a coldest hue to a warmest and falls again;
// the input's own hue and temperature are anything in the ranges the harness gives
const WHEEL: i64 = 0xff0003e8;
fn on_wheel(c: &SymI) -> Option<i64> {
    match c {
        SymI::C(c) if hook_on("wheel") && (WHEEL..WHEEL + 360).contains(&(*c as i64)) => Some(*c as i64 - WHEEL),
        _ => None,
    }
}
pub fn hct__src__hct_solver__HctSolver__solve_to_int(h: &SymF, c: &SymF, t: &SymF) -> Option<SymI> {
    if !hook_on("wheel") {
        return None;
    }
    match h {
        SymF::C(h) if h.fract() == 0.0 => Some(SymI::C((WHEEL + (*h as i64).rem_euclid(360)) as _)),
        _ => abort("hook: colour between the hues of the wheel"),
    }
}
pub fn hct__cam16__Cam16__from_int(c: &SymI) -> Option<crate::hct::cam16::Cam16> {
    if !hook_on("wheel") {
        return None;
    }
    let h = match on_wheel(c) {
        Some(k) => SymF::C(k as f64),
        None if matches!(c, SymI::C(_)) => return None,
        None => {
            let lo = opt("half hue", 0) as f64 / 2.0;
            f(uf("hue", &[(*c).into()], &[(Sort::Real, lo, lo + 0.499999)])[0])
        }
    };
    let z = SymF::C(0.0);
    Some(crate::hct::cam16::Cam16::new(h, SymF::C(40.0), z, z, z, z, z, z, z))
}
pub fn utils__color_utils__ColorUtils__lstar_from_argb(c: &SymI) -> Option<SymF> {
    if hook_on("wheel") { Some(SymF::C(50.0)) } else { None }
}
pub fn temperature__temperature_cache__TemperatureCache__raw_temperature(h: &&crate::hct::hct::Hct) -> Option<SymF> {
    if !hook_on("wheel") {
        return None;
    }
    let c = h.to_int();
    let at = |k: i64| {
        let (cold, warm) = (opt("cold", 0), opt("warm", 180));
        let (d, span) = ((k - cold as i64).rem_euclid(360) as f64, (warm as i64 - cold as i64).rem_euclid(360) as f64);
        let x = if d <= span { d / span } else { 1.0 - (d - span) / (360.0 - span) };
        -1.3 + 1.7 * x + 0.0003 * ((k * 7) % 11) as f64 / 11.0
    };
    if let Some(k) = on_wheel(&c) {
        return Some(SymF::C(at(k)));
    }
    let lo = -1.3 + opt("temperature", 100) as f64 / 1000.0;
    Some(f(uf("temperature", &[c.into()], &[(Sort::Real, lo, lo + 0.05)])[0]))
}

//@ recast
// appearance to XYZ and back (property H03): some functions of coordinates and viewing conditions
fn conditions(vc: &crate::hct::viewing_conditions::ViewingConditions) -> Vec<Val> {
    vec![vc.aw.into(), vc.nbb.into(), vc.fl.into(), vc.c.into(), vc.z.into(), vc.rgb_d[0].into(), vc.rgb_d[1].into(), vc.rgb_d[2].into()]
}
pub fn hct__cam16__Cam16__xyz_in_viewing_conditions(s: &&crate::hct::cam16::Cam16, vc: &&crate::hct::viewing_conditions::ViewingConditions, array: &Option<&Vec<SymF>>) -> Option<Vec<SymF>> {
    if !hook_on("recast") {
        return None;
    }
    let mut a: Vec<Val> = vec![s.hue.into(), s.chroma.into(), s.j.into()];
    a.extend(conditions(vc));
    let r = (Sort::Real, 0.5, 110.0);
    let v = uf("xyz seen", &a, &[r, r, r]);
    Some(v.into_iter().map(f).collect())
}
pub fn hct__cam16__Cam16__from_xyz_in_viewing_conditions(x: &SymF, y: &SymF, z: &SymF, vc: &&crate::hct::viewing_conditions::ViewingConditions) -> Option<crate::hct::cam16::Cam16> {
    if !hook_on("recast") {
        return None;
    }
    let mut a: Vec<Val> = vec![(*x).into(), (*y).into(), (*z).into()];
    a.extend(conditions(vc));
    let r = Sort::Real;
    let v = uf("appearance", &a, &[(r, 0.0, 359.99999999999994), (r, 0.0, 200.0), (r, 0.0, 200.0), (r, 0.0, 400.0), (r, 0.0, 200.0), (r, 0.0, 200.0), (r, 0.0, 150.0), (r, -90.0, 90.0), (r, -90.0, 90.0)]);
    Some(crate::hct::cam16::Cam16::new(f(v[0]), f(v[1]), f(v[2]), f(v[3]), f(v[4]), f(v[5]), f(v[6]), f(v[7]), f(v[8])))
}

//@ lab3
// L*a*b* coordinates: some function of the colour
pub fn utils__color_utils__ColorUtils__lab_from_argb(c: &SymI) -> Option<Vec<SymF>> {
    if !hook_on("lab3") || matches!(c, SymI::C(_)) {
        return None;
    }
    let r = Sort::Real;
    let v = uf("lab", &[(*c).into()], &[(r, 0.0, 100.0), (r, -110.0, 110.0), (r, -110.0, 110.0)]);
    Some(v.into_iter().map(f).collect())
}

