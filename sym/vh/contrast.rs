use super::api::*;
use super::util::*;
use crate::contrast::contrast::Contrast;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[
    ("C01.range", ratio_range),
    ("C01.symmetric", ratio_symmetric),
    ("C01.clamped", ratio_clamped),
    ("C01.definition", ratio_definition),
    ("C01.continuous", ratio_continuous),
    ("C01.monotone/4", ratio_monotone),
    ("C02.lighter/4", lighter_reaches),
    ("C02.darker/4", darker_reaches),
    ("C02.lighter_complete", lighter_complete),
    ("C02.darker_complete", darker_complete),
    ("C02.lighter_unsafe", lighter_unsafe),
    ("C02.darker_unsafe", darker_unsafe),
    ("C02.invalid", invalid_tone),
];
fn quarter(t: f64) {
    let cut = [0.0, 8.0, 30.0, 60.0, 100.0];
    let k = part();
    assume(t >= cut[k] && t <= cut[k + 1]);
}
fn ratio_range() {
    let a = f64_in("a", -1000.0, 1000.0);
    let b = f64_in("b", -1000.0, 1000.0);
    let r = Contrast::ratio_of_tones(a, b);
    check("ratio>=1", r >= 1.0 - 1e-9);
    check("ratio<=21", r <= 21.0 + 1e-9);
}
fn ratio_symmetric() {
    let a = f64_in("a", -50.0, 150.0);
    let b = f64_in("b", -50.0, 150.0);
    check("symmetric", near(Contrast::ratio_of_tones(a, b), Contrast::ratio_of_tones(b, a)));
}
fn ratio_clamped() {
    let a = f64_in("a", 100.0, 1e6);
    let b = f64_in("b", -1e6, 0.0);
    let t = f64_in("t", 0.0, 100.0);
    check("above", near(Contrast::ratio_of_tones(a, t), Contrast::ratio_of_tones(100.0, t)));
    check("below", near(Contrast::ratio_of_tones(b, t), Contrast::ratio_of_tones(0.0, t)));
}
fn ratio_definition() {
    let a = f64_in("a", 0.0, 100.0);
    let b = f64_in("b", 0.0, 100.0);
    assume(a <= b);
    let r = Contrast::ratio_of_tones(a, b);
    check("luminances", within(r * (ColorUtils::y_from_lstar(a) + 5.0), ColorUtils::y_from_lstar(b) + 5.0, 1e-6));
}
fn ratio_continuous() {
    let a = f64_in("a", 0.0, 100.0);
    let b = f64_in("b", 0.0, 99.9);
    let e = f64_in("e", 0.0, 1e-6);
    let x = Contrast::ratio_of_tones(a, b);
    let y = Contrast::ratio_of_tones(a, b + e);
    check("no jump", within(x, y, 5e-6));
}
fn ratio_monotone() {
    let d = f64_in("dark", 0.0, 100.0);
    let a = f64_in("a", 0.0, 100.0);
    let b = f64_in("b", 0.0, 100.0);
    assume(d <= a);
    assume(a <= b);
    quarter(d);
    let e = 1e-9;
    check("lighter end", Contrast::ratio_of_tones(d, a) <= Contrast::ratio_of_tones(d, b) + e);
    check("darker end", Contrast::ratio_of_tones(a, b) <= Contrast::ratio_of_tones(d, b) + e);
}
fn lighter_reaches() {
    let t = f64_in("tone", 0.0, 100.0);
    let r = f64_in("ratio", 1.0, 21.0);
    quarter(t);
    let x = Contrast::lighter(t, r);
    if x == -1.0 {
        return;
    }
    check("in range", x >= 0.0 && x <= 100.0);
    check("not darker", x >= t);
    check("reaches", Contrast::ratio_of_tones(x, t) >= r);
    if x - 0.5 >= t {
        check("not wasteful", Contrast::ratio_of_tones(x - 0.5, t) <= r);
    }
}
fn darker_reaches() {
    let t = f64_in("tone", 0.0, 100.0);
    let r = f64_in("ratio", 1.0, 21.0);
    quarter(t);
    let x = Contrast::darker(t, r);
    if x == -1.0 {
        return;
    }
    check("in range", x >= 0.0 && x <= 100.0);
    check("not lighter", x <= t);
    check("reaches", Contrast::ratio_of_tones(x, t) >= r);
    if x + 0.5 <= t {
        check("not wasteful", Contrast::ratio_of_tones(x + 0.5, t) <= r);
    }
}
fn lighter_complete() {
    let t = f64_in("tone", 0.0, 100.0);
    let r = f64_in("ratio", 1.0, 21.0);
    assume(t <= 99.5);
    assume(Contrast::ratio_of_tones(99.5, t) >= r);
    check("found", Contrast::lighter(t, r) >= 0.0);
}
fn darker_complete() {
    let t = f64_in("tone", 0.0, 100.0);
    let r = f64_in("ratio", 1.0, 21.0);
    assume(t >= 0.5);
    assume(Contrast::ratio_of_tones(0.5, t) >= r);
    check("found", Contrast::darker(t, r) >= 0.0);
}
fn lighter_unsafe() {
    let t = f64_in("tone", -50.0, 150.0);
    let r = f64_in("ratio", 1.0, 21.0);
    let s = Contrast::lighter(t, r);
    let u = Contrast::lighter_unsafe(t, r);
    check("in range", u >= 0.0 && u <= 100.0);
    if s < 0.0 {
        check("extreme", u == 100.0);
    } else {
        check("same", u == s);
    }
}
fn darker_unsafe() {
    let t = f64_in("tone", -50.0, 150.0);
    let r = f64_in("ratio", 1.0, 21.0);
    let s = Contrast::darker(t, r);
    let u = Contrast::darker_unsafe(t, r);
    check("in range", u >= 0.0 && u <= 100.0);
    if s < 0.0 {
        check("extreme", u == 0.0);
    } else {
        check("same", u == s);
    }
}
fn invalid_tone() {
    let t = f64_in("tone", 100.0, 1e6);
    let n = f64_in("neg", -1e6, 0.0);
    let r = f64_in("ratio", 1.0, 21.0);
    assume(t > 100.0);
    assume(n < 0.0);
    check("lighter high", Contrast::lighter(t, r) == -1.0);
    check("darker high", Contrast::darker(t, r) == -1.0);
    check("lighter low", Contrast::lighter(n, r) == -1.0);
    check("darker low", Contrast::darker(n, r) == -1.0);
}
