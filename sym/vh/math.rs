use super::api::*;
use super::util::*;
use crate::dynamiccolor::src::contrast_curve::ContrastCurve;
use crate::utils::math_utils::MathUtils;

pub const REG: &[(&str, fn())] = &[
    ("C06.sanitize", sanitize),
    ("C06.sanitize_int", sanitize_int),
    ("C06.difference", difference),
    ("C06.difference_triangle", difference_triangle),
    ("C06.rotation", rotation),
    ("C06.clamp", clamp),
    ("C06.clamp_int", clamp_int),
    ("C06.lerp", lerp),
    ("C06.lerp_monotone", lerp_monotone),
    ("C06.signum", signum),
    ("C06.matrix", matrix),
    ("D03.endpoints", curve_endpoints),
    ("D03.between", curve_between),
    ("D03.monotone", curve_monotone),
    ("D03.continuous", curve_continuous),
];
fn sanitize() {
    let x = f64_in("x", -14400.0, 14400.0);
    let s = MathUtils::sanitize_degrees_double(x);
    check("range", s >= 0.0 && s < 360.0);
    // the same angle: x - s is a whole number of turns
    let turns = (x - s) / 360.0;
    check("same angle", within(turns, turns.round(), 1e-9));
    if x >= 0.0 && x < 360.0 {
        check("fixed", s == x);
    }
}
fn sanitize_int() {
    let x = i64_in("x", -1000000000, 1000000000);
    let s = MathUtils::sanitize_degrees_int(x);
    check("range", s >= 0 && s < 360);
    let d = x - s;
    check("same angle", d == (d / 360) * 360);
}
fn difference() {
    let a = f64_in("a", 0.0, 360.0);
    let b = f64_in("b", 0.0, 360.0);
    let d = MathUtils::difference_degrees(a, b);
    check("range", d >= 0.0 && d <= 180.0);
    check("symmetric", near(d, MathUtils::difference_degrees(b, a)));
    check("zero", near(MathUtils::difference_degrees(a, a), 0.0));
    let e = if a < b { b - a } else { a - b };
    let m = if e < 360.0 - e { e } else { 360.0 - e };
    check("shorter arc", near(d, m));
}
fn difference_triangle() {
    let a = f64_in("a", 0.0, 360.0);
    let b = f64_in("b", 0.0, 360.0);
    let c = f64_in("c", 0.0, 360.0);
    check(
        "triangle",
        MathUtils::difference_degrees(a, c) <= MathUtils::difference_degrees(a, b) + MathUtils::difference_degrees(b, c) + 1e-9,
    );
}
fn rotation() {
    let a = f64_in("a", 0.0, 360.0);
    let b = f64_in("b", 0.0, 360.0);
    assume(a < 360.0);
    assume(b < 360.0);
    let r = MathUtils::rotation_direction(a, b);
    check("unit", r == 1.0 || r == -1.0);
    let d = MathUtils::difference_degrees(a, b);
    // turning that way by the difference arrives
    let t = MathUtils::sanitize_degrees_double(a + r * d);
    check("arrives", near(MathUtils::difference_degrees(t, b), 0.0));
}
fn clamp() {
    let lo = f64_in("lo", -1000.0, 1000.0);
    let hi = f64_in("hi", -1000.0, 1000.0);
    let x = f64_in("x", -1e6, 1e6);
    assume(lo <= hi);
    let c = MathUtils::clamp_double(lo, hi, x);
    check("range", c >= lo && c <= hi);
    if x >= lo && x <= hi {
        check("identity", c == x);
    } else {
        check("nearest end", if x < lo { c == lo } else { c == hi });
    }
}
fn clamp_int() {
    let lo = i64_in("lo", -100000, 100000);
    let hi = i64_in("hi", -100000, 100000);
    let x = i64_in("x", -1000000000, 1000000000);
    assume(lo <= hi);
    let c = MathUtils::clamp_int(lo, hi, x);
    check("range", c >= lo && c <= hi);
    if x >= lo && x <= hi {
        check("identity", c == x);
    } else {
        check("nearest end", if x < lo { c == lo } else { c == hi });
    }
}
fn lerp() {
    let a = f64_in("a", -1000.0, 1000.0);
    let b = f64_in("b", -1000.0, 1000.0);
    let t = f64_in("t", 0.0, 1.0);
    check("start", near(MathUtils::lerp(a, b, 0.0), a));
    check("stop", near(MathUtils::lerp(a, b, 1.0), b));
    let x = MathUtils::lerp(a, b, t);
    assume(a <= b);
    check("between", x >= a - 1e-9 && x <= b + 1e-9);
}
fn lerp_monotone() {
    let a = f64_in("a", -1000.0, 1000.0);
    let b = f64_in("b", -1000.0, 1000.0);
    let t = f64_in("t", 0.0, 1.0);
    let u = f64_in("u", 0.0, 1.0);
    assume(a <= b);
    assume(t <= u);
    check("monotone", MathUtils::lerp(a, b, t) <= MathUtils::lerp(a, b, u) + 1e-9);
}
fn signum() {
    let x = f64_in("x", -1e6, 1e6);
    let s = MathUtils::signum(x);
    check("sign", if x > 0.0 { s == 1 } else if x < 0.0 { s == -1 } else { s == 0 });
}
/// row-by-matrix product is linear in the row, and its components are the dot products
fn matrix() {
    let r = vec![f64_in("r0", -200.0, 200.0), f64_in("r1", -200.0, 200.0), f64_in("r2", -200.0, 200.0)];
    let m = vec![vec![1.5, -2.0, 4.0], vec![0.25, 3.0, -1.0], vec![-8.0, 0.5, 2.0]];
    let p = MathUtils::matrix_multiply(r.clone(), m.clone());
    check("three", p.len() == 3);
    for i in 0..3 {
        check("dot", near(p[i], r[0] * m[i][0] + r[1] * m[i][1] + r[2] * m[i][2]));
    }
}
// ---------------------------------------------------------------- contrast curves
fn curve() -> ContrastCurve {
    let low = f64_in("low", 1.0, 21.0);
    let normal = f64_in("normal", 1.0, 21.0);
    let medium = f64_in("medium", 1.0, 21.0);
    let high = f64_in("high", 1.0, 21.0);
    assume(low <= normal);
    assume(normal <= medium);
    assume(medium <= high);
    ContrastCurve::new(low, normal, medium, high)
}
fn curve_endpoints() {
    let c = curve();
    let below = f64_in("below", -100.0, -1.0);
    let above = f64_in("above", 1.0, 100.0);
    check("low", near(c.get(below), c.low));
    check("low at -1", near(c.get(-1.0), c.low));
    check("normal at 0", near(c.get(0.0), c.normal));
    check("medium at 0.5", near(c.get(0.5), c.medium));
    check("high at 1", near(c.get(1.0), c.high));
    check("high", near(c.get(above), c.high));
}
fn curve_between() {
    let c = curve();
    let l = f64_in("level", -1.0, 1.0);
    let v = c.get(l);
    // linear between the named levels
    if l <= 0.0 {
        check("low..normal", within(v, c.low + (c.normal - c.low) * (l + 1.0), 1e-7));
    } else if l <= 0.5 {
        check("normal..medium", within(v, c.normal + (c.medium - c.normal) * (l * 2.0), 1e-7));
    } else {
        check("medium..high", within(v, c.medium + (c.high - c.medium) * (l * 2.0 - 1.0), 1e-7));
    }
}
fn curve_monotone() {
    let c = curve();
    let l = f64_in("level", -2.0, 2.0);
    let h = f64_in("higher", -2.0, 2.0);
    assume(l <= h);
    check("monotone", c.get(l) <= c.get(h) + 1e-9);
}
fn curve_continuous() {
    let c = curve();
    let l = f64_in("level", -2.0, 2.0);
    let h = f64_in("next", -2.0, 2.0);
    assume(l <= h);
    assume(h <= l + 1e-3);
    // the steepest possible piece climbs 20 over 0.5
    check("no jump", c.get(h) - c.get(l) <= 0.0401);
}
