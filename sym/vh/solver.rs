//! hooks: beyond
use super::api::*;
use super::util::*;
use crate::hct::hct::Hct;
use crate::hct::src::hct_solver::HctSolver;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[
    ("H01.limit/18", limit),
    ("H01.T_limit/48", limit),
    ("H01.gray", gray),
    ("H01.ends", ends),
];
const TONES: [f64; 24] = [50.0, 1.0, 99.0, 10.0, 90.0, 5.0, 95.0, 20.5, 71.0, 97.5, 30.0, 40.0, 60.0, 15.5, 25.25, 35.0, 45.75, 55.5, 65.0, 75.25, 85.0, 2.0, 80.0, 88.0];
fn arc(a: f64, b: f64) -> f64 {
    let d = if a > b { a - b } else { b - a };
    if d > 180.0 {
        360.0 - d
    } else {
        d
    }
}
fn limit() {
    hook("beyond");
    let tone = TONES[part() / 2];
    let from = part() as i64 % 2 * 180 * 1048576;
    // every multiple of 2^-20 degrees
    let hue = i64_in("hue", from, from + 180 * 1048576 - 1) as f64 / 1048576.0;
    let x = Hct::from(hue, 300.0, tone);
    check("tone kept", within(x.get_tone(), tone, 0.4));
    let c = x.to_int();
    let v = [(c >> 16) & 255, (c >> 8) & 255, c & 255];
    check("at the edge of the gamut", v.iter().any(|x| *x == 0 || *x == 255));
    if tone >= 5.0 && tone <= 97.0 {
        check("hue kept", arc(x.get_hue(), hue) * x.get_chroma() <= 75.0);
    }
}
fn gray() {
    let tone = f64_in("tone", 0.0, 100.0);
    let c = HctSolver::solve_to_int(f64_in("hue", 0.0, 360.0), f64_in("chroma", 0.0, 0.00009), tone);
    check("the gray of the tone", c == ColorUtils::argb_from_lstar(tone));
}
fn ends() {
    let (h, c) = (f64_in("hue", -720.0, 720.0), f64_in("chroma", 0.0, 200.0));
    check("black", Hct::from(h, c, f64_in("dark", -10.0, 0.00009)).to_int() == 0xff000000);
    check("white", Hct::from(h, c, f64_in("light", 99.99991, 110.0)).to_int() == 0xffffffff);
}
