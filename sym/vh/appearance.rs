use super::api::*;
use super::util::*;
use crate::hct::cam16::Cam16;
use crate::hct::viewing_conditions::ViewingConditions;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[
    ("H03.forward/8", forward),
    ("H03.beyond/8", beyond),
    ("H03.dark/8", dark),
    ("H03.jch/8", jch),
    ("H03.ucs/8", ucs),
    ("H03.back/40", back),
    ("H03.distance", distance),
    ("H03.defaults", defaults),
    ("H04.make/8", make),
    ("H04.defaults", standard),
];
/// equal up to rounding of values of the given size
fn alike(a: f64, b: f64, size: f64) -> bool {
    within(a, b, 1e-9 * size)
}
fn same(what: &str, a: f64, b: f64, size: f64) {
    check(what, alike(a, b, size));
}
/// viewing conditions as they come in practice: default, other surroundings, dark and bright light,
/// dark and light background, adapted eyes, another white
pub fn conditions(p: usize) -> ViewingConditions {
    match p {
        0 => ViewingConditions::s_rgb(),
        1 => ViewingConditions::make(None, None, None, Some(0.0), None),
        2 => ViewingConditions::make(None, None, None, Some(1.3), Some(true)),
        3 => ViewingConditions::make(None, Some(2.0), Some(10.0), Some(0.7), None),
        4 => ViewingConditions::make(None, Some(500.0), Some(95.0), None, None),
        5 => ViewingConditions::make(Some(vec![96.422, 100.0, 82.521]), Some(60.0), None, Some(1.0), None),
        6 => ViewingConditions::make(Some(vec![109.85, 100.0, 35.585]), None, Some(30.0), None, Some(true)),
        _ => ViewingConditions::make(None, None, Some(0.0), None, None),
    }
}
/// XYZ of a colour given by its linear channels, in [0, 100]
fn light(least: f64, most: f64) -> (f64, f64, f64) {
    let (r, g, b) = (f64_in("red", least, most), f64_in("green", least, most), f64_in("blue", least, most));
    (
        0.41233895 * r + 0.35762064 * g + 0.18051042 * b,
        0.2126 * r + 0.7152 * g + 0.0722 * b,
        0.01932141 * r + 0.11916382 * g + 0.95034478 * b,
    )
}
const DEGREES: f64 = 180.0 / std::f64::consts::PI;
fn sign(x: f64) -> f64 {
    if x < 0.0 {
        -1.0
    } else if x > 0.0 {
        1.0
    } else {
        0.0
    }
}
/// the published model (Li et al. 2017)
fn forward() {
    option("pow_segments", 1);
    let (x, y, z) = light(0.01, 100.0);
    model(&conditions(part()), x, y, z);
}
/// black
fn dark() {
    model(&conditions(part()), 0.0, 0.0, 0.0);
}
/// coordinates no displayable colour has: negative blue cone response
fn beyond() {
    option("pow_segments", 1);
    model(&conditions(part()), f64_in("x", 30.0, 60.0), f64_in("y", 30.0, 60.0), f64_in("z", -30.0, -10.0));
}
fn model(vc: &ViewingConditions, x: f64, y: f64, z: f64) {
    let got = Cam16::from_xyz_in_viewing_conditions(x, y, z, vc);
    let cone = [
        0.401288 * x + 0.650173 * y - 0.051461 * z,
        -0.250268 * x + 1.204414 * y + 0.045854 * z,
        -0.002079 * x + 0.048952 * y + 0.953127 * z,
    ];
    let mut v = vec![];
    for k in 0..3 {
        let d = vc.rgb_d[k] * cone[k];
        let f = (vc.fl * d.abs() / 100.0).powf(0.42);
        v.push(sign(d) * 400.0 * f / (f + 27.13));
    }
    let a = (11.0 * v[0] + -12.0 * v[1] + v[2]) / 11.0;
    let b = (v[0] + v[1] - 2.0 * v[2]) / 9.0;
    let u = (20.0 * v[0] + 20.0 * v[1] + 21.0 * v[2]) / 20.0;
    let bright = (40.0 * v[0] + 20.0 * v[1] + v[2]) / 20.0 * vc.nbb;
    check("hue in range", got.hue >= 0.0 && got.hue < 360.0);
    let angle = b.atan2(a) * 180.0 / std::f64::consts::PI;
    let turned = if angle < 0.0 { angle + 360.0 } else { angle };
    // where the hue is defined
    let h = got.hue;
    check("hue", alike(h, turned, 1.0) || alike(h, turned - 360.0, 1.0));
    let j = 100.0 * (bright / vc.aw).powf(vc.c * vc.z);
    same("lightness", got.j, j, 100.0);
    let root = (got.j / 100.0).sqrt();
    same("brightness", got.q, 4.0 / vc.c * root * (vc.aw + 4.0) * vc.f_lroot, 1000.0);
    let e = 0.25 * (((if h < 20.14 { h + 360.0 } else { h }) * std::f64::consts::PI / 180.0 + 2.0).cos() + 3.8);
    let t = 50000.0 / 13.0 * e * vc.n_c * vc.ncb * (a * a + b * b).sqrt() / (u + 0.305);
    let alpha = t.powf(0.9) * (1.64 - 0.29f64.powf(vc.background_y_to_white_point_y)).powf(0.73);
    same("chroma", got.chroma, alpha * root, 1000.0);
    check("no negative chroma", got.chroma >= 0.0);
    same("colourfulness", got.m, got.chroma * vc.f_lroot, 1000.0);
    let s = 50.0 * (alpha * vc.c / (vc.aw + 4.0)).sqrt();
    same("saturation", got.s, s, 1000.0);
    uniform(&got);
}
/// UCS coordinates belong to the other ones
fn uniform(got: &Cam16) {
    same("J*", got.jstar, 1.7 * got.j / (1.0 + 0.007 * got.j), 1000.0);
    let m = (1.0 + 0.0228 * got.m).ln() / 0.0228;
    let rad = got.hue * std::f64::consts::PI / 180.0;
    same("a*", got.astar, m * rad.cos(), 1000.0);
    same("b*", got.bstar, m * rad.sin(), 1000.0);
}
fn jch() {
    let vc = conditions(part());
    let (j, c, h) = (f64_in("lightness", 0.01, 100.0), f64_in("chroma", 0.0, 150.0), f64_in("hue", 0.0, 360.0));
    let got = Cam16::from_jch_in_viewing_conditions(j, c, h, &vc);
    check("lightness, chroma and hue as given", got.j == j && got.chroma == c && got.hue == h);
    let root = (j / 100.0).sqrt();
    same("brightness", got.q, 4.0 / vc.c * root * (vc.aw + 4.0) * vc.f_lroot, 1000.0);
    same("colourfulness", got.m, c * vc.f_lroot, 1000.0);
    let s = 50.0 * (c / root * vc.c / (vc.aw + 4.0)).sqrt();
    same("saturation", got.s, s, 1000.0);
    uniform(&got);
}
/// lightness, chroma and hue belong to the coordinates given
fn ucs() {
    let vc = conditions(part());
    let (j, a, b) = (f64_in("jstar", 0.0, 100.0), f64_in("astar", -50.0, 50.0), f64_in("bstar", -50.0, 50.0));
    let got = Cam16::from_ucs_in_viewing_conditions(j, a, b, &vc);
    let r = (a * a + b * b).sqrt();
    let m = ((r * 0.0228).exp() - 1.0) / 0.0228;
    same("chroma", got.chroma, m / vc.f_lroot, 1000.0);
    same("lightness", got.j, j / (1.0 - (j - 100.0) * 0.007), 1000.0);
    check("hue in range", got.hue >= 0.0 && got.hue < 360.0);
    let angle = b.atan2(a) * DEGREES;
    let turned = if angle < 0.0 { angle + 360.0 } else { angle };
    check("hue", alike(got.hue, turned, 1.0) || alike(got.hue, turned - 360.0, 1.0));
    same("J* as given", got.jstar, j, 100.0);
    same("colourfulness", got.m, got.chroma * vc.f_lroot, 1000.0);
    let back = (1.0 + 0.0228 * got.m).ln() / 0.0228;
    same("distance from neutral as given", back, r, 100.0);
    uniform(&got);
}
fn back() {
    option("pow_segments", 1);
    let vc = conditions(part() % 8);
    // the last: beyond the gamut, where a cone response is negative
    let (low, high, least, most, from, to) = [
        (40.0, 100.0, 0.0, 70.0, 0.0, 359.0),
        (10.0, 40.0, 0.0, 25.0, 0.0, 359.0),
        (0.0, 10.0, 0.0, 0.0, 0.0, 359.0),
        (80.0, 100.0, 0.0, 110.0, 0.0, 359.0),
        (10.0, 12.0, 88.0, 90.0, 85.0, 90.0),
    ][part() / 8];
    let (j, c, h) = (f64_in("lightness", low, high), f64_in("chroma", least, most), f64_in("hue", from, to));
    let cam = Cam16::new(h, c, j, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
    let got = cam.xyz_in_viewing_conditions(&vc, None);
    let again = cam.xyz_in_viewing_conditions(&vc, Some(&vec![7.0, 8.0, 9.0]));
    let alpha = if c == 0.0 || j == 0.0 { 0.0 } else { c / (j / 100.0).sqrt() };
    let t = (alpha / (1.64 - 0.29f64.powf(vc.background_y_to_white_point_y)).powf(0.73)).powf(1.0 / 0.9);
    let rad = h * std::f64::consts::PI / 180.0;
    let e = 0.25 * ((rad + 2.0).cos() + 3.8);
    let p1 = e * (50000.0 / 13.0) * vc.n_c * vc.ncb;
    let p2 = vc.aw * (j / 100.0).powf(1.0 / vc.c / vc.z) / vc.nbb;
    let (s, k) = (rad.sin(), rad.cos());
    let gamma = 23.0 * (p2 + 0.305) * t / (23.0 * p1 + 11.0 * t * k + 108.0 * t * s);
    let (a, b) = (gamma * k, gamma * s);
    let v = [
        (460.0 * p2 + 451.0 * a + 288.0 * b) / 1403.0,
        (460.0 * p2 - 891.0 * a - 261.0 * b) / 1403.0,
        (460.0 * p2 - 220.0 * a - 6300.0 * b) / 1403.0,
    ];
    let mut w = vec![];
    for k in 0..3 {
        let base = (27.13 * v[k].abs() / (400.0 - v[k].abs())).max(0.0);
        w.push(sign(v[k]) * (100.0 / vc.fl) * base.powf(1.0 / 0.42) / vc.rgb_d[k]);
    }
    let want = [
        1.86206786 * w[0] - 1.01125463 * w[1] + 0.14918677 * w[2],
        0.38752654 * w[0] + 0.62144744 * w[1] - 0.00897398 * w[2],
        -0.01584150 * w[0] - 0.03412294 * w[1] + 1.04996444 * w[2],
    ];
    check("three coordinates", got.len() == 3 && again.len() == 3);
    for k in 0..3 {
        same("coordinate", got[k], want[k], 1000.0);
        check("with or without an array", got[k] == again[k]);
    }
}
fn any(k: &str) -> Cam16 {
    let v: Vec<f64> = ["j", "a", "b"].iter().map(|n| f64_in(&format!("{}{}", n, k), -100.0, 100.0)).collect();
    Cam16::new(0.0, 0.0, 0.0, 0.0, 0.0, 0.0, v[0], v[1], v[2])
}
fn distance() {
    let (p, q) = (any("1"), any("2"));
    let d = p.distance(&q);
    let (x, y, z) = (p.jstar - q.jstar, p.astar - q.astar, p.bstar - q.bstar);
    same("difference", d, 1.41 * (x * x + y * y + z * z).sqrt().powf(0.63), 1000.0);
    check("never negative", d >= 0.0);
}
/// without conditions the default ones are meant
fn defaults() {
    let vc = ViewingConditions::make(None, None, None, None, None);
    let all = |a: &Cam16, b: &Cam16| {
        for (k, (x, y)) in [(a.hue, b.hue), (a.chroma, b.chroma), (a.j, b.j), (a.q, b.q), (a.m, b.m), (a.s, b.s), (a.jstar, b.jstar), (a.astar, b.astar), (a.bstar, b.bstar)].into_iter().enumerate() {
            check(&format!("the same under default conditions {}", k), x == y);
        }
    };
    let (j, c, h) = (f64_in("lightness", 0.01, 100.0), f64_in("chroma", 0.0, 150.0), f64_in("hue", 0.0, 360.0));
    let x = Cam16::from_jch(j, c, h);
    all(&x, &Cam16::from_jch_in_viewing_conditions(j, c, h, &vc));
    let (a, b) = (f64_in("astar", -50.0, 50.0), f64_in("bstar", -50.0, 50.0));
    all(&Cam16::from_ucs(j, a, b), &Cam16::from_ucs_in_viewing_conditions(j, a, b, &vc));
}
/// the published derivation of the model's parameters
fn make() {
    let p = part();
    let free = |k: usize| p % 4 == k || p % 4 == 3;
    let adapted = p >= 4;
    let la = if free(0) { f64_in("luminance", 0.01, 2000.0) } else { 11.5 };
    let bg = if free(1) { f64_in("background", 0.0, 100.0) } else { 50.0 };
    let sur = if free(2) { f64_in("surround", 0.0, 2.0) } else { 2.0 };
    let white = if p % 4 == 1 {
        vec![f64_in("wx", 80.0, 120.0), f64_in("wy", 90.0, 110.0), f64_in("wz", 30.0, 130.0)]
    } else {
        vec![95.047, 100.0, 108.883]
    };
    let vc = ViewingConditions::make(Some(white.clone()), Some(la), Some(bg), Some(sur), Some(adapted));
    check("parameters kept", vc.adapting_luminance == la && vc.surround == sur && vc.discounting_illuminant == adapted && vc.white_point == white);
    let bg = if bg < 0.1 { 0.1 } else { bg };
    same("background kept, never quite black", vc.background_lstar, bg, 100.0);
    let f = 0.8 + sur / 10.0;
    same("Nc", vc.n_c, f, 1.0);
    // 0.525 in the dark, 0.59 dim, 0.69 average, linear between
    let c = if sur >= 1.0 { 0.59 + (sur - 1.0) * 0.1 } else { 0.525 + sur * 0.065 };
    same("c", vc.c, c, 1.0);
    let d = if adapted { 1.0 } else { f * (1.0 - 1.0 / 3.6 * ((-la - 42.0) / 92.0).exp()) };
    let d = if d > 1.0 { 1.0 } else if d < 0.0 { 0.0 } else { d };
    let cone = [
        white[0] * 0.401288 + white[1] * 0.650173 + white[2] * -0.051461,
        white[0] * -0.250268 + white[1] * 1.204414 + white[2] * 0.045854,
        white[0] * -0.002079 + white[1] * 0.048952 + white[2] * 0.953127,
    ];
    for k in 0..3 {
        same("discount of the illuminant", vc.rgb_d[k], d * (100.0 / cone[k]) + 1.0 - d, 10.0);
    }
    let q = 1.0 / (5.0 * la + 1.0);
    let k4 = q * q * q * q;
    let fl = k4 * la + 0.1 * (1.0 - k4) * (1.0 - k4) * (5.0 * la).powf(1.0 / 3.0);
    same("FL", vc.fl, fl, 10.0);
    same("its fourth root", vc.f_lroot, vc.fl.powf(0.25), 10.0);
    let n = ColorUtils::y_from_lstar(bg) / white[1];
    same("n", vc.background_y_to_white_point_y, n, 1.0);
    same("z", vc.z, 1.48 + vc.background_y_to_white_point_y.sqrt(), 1.0);
    same("Nbb", vc.nbb, 0.725 / vc.background_y_to_white_point_y.powf(0.2), 10.0);
    check("Ncb", vc.ncb == vc.nbb);
    let mut a = vec![];
    for k in 0..3 {
        let f = (vc.fl * vc.rgb_d[k] * cone[k] / 100.0).powf(0.42);
        a.push(400.0 * f / (f + 27.13));
    }
    same("Aw", vc.aw, (40.0 * a[0] + 20.0 * a[1] + a[2]) / 20.0 * vc.nbb, 1000.0);
}
fn standard() {
    let la = f64_in("luminance", -10.0, 0.0);
    let a = ViewingConditions::make(None, Some(la), None, None, None);
    let b = ViewingConditions::s_rgb();
    let c = ViewingConditions::standard();
    let d = ViewingConditions::make(Some(vec![95.047, 100.0, 108.883]), Some(11.725677948856951), Some(50.0), Some(2.0), Some(false));
    for v in [&a, &b, &c] {
        for (x, y) in [(v.adapting_luminance, d.adapting_luminance), (v.aw, d.aw), (v.nbb, d.nbb), (v.ncb, d.ncb), (v.c, d.c), (v.n_c, d.n_c), (v.fl, d.fl), (v.f_lroot, d.f_lroot), (v.z, d.z), (v.background_y_to_white_point_y, d.background_y_to_white_point_y), (v.rgb_d[0], d.rgb_d[0]), (v.rgb_d[1], d.rgb_d[1]), (v.rgb_d[2], d.rgb_d[2])] {
            check("default conditions", within(x, y, 1e-6));
        }
    }
}
