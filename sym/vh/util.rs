use super::api::*;
/// equal up to floating-point noise
pub fn near(a: f64, b: f64) -> bool {
    within(a, b, 1e-9)
}
pub fn within(a: f64, b: f64, tol: f64) -> bool {
    let d = a - b;
    d <= tol && d >= -tol
}
/// any opaque 24-bit colour
pub fn color_in(name: &str) -> i64 {
    let r = i64_in(&format!("{}.r", name), 0, 255);
    let g = i64_in(&format!("{}.g", name), 0, 255);
    let b = i64_in(&format!("{}.b", name), 0, 255);
    0xff000000 + r * 65536 + g * 256 + b
}
