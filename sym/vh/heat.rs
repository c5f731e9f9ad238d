//! hooks: hct lab3
use super::api::*;
use super::util::*;
use crate::hct::hct::Hct;
use crate::temperature::temperature_cache::TemperatureCache;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[("T02.raw", raw)];
/// Ou, Woodcock and Wright's formula
fn raw() {
    hook("hct");
    hook("lab3");
    let c = color_in("color");
    let got = TemperatureCache::raw_temperature(&Hct::from_int(c));
    let lab = ColorUtils::lab_from_argb(c);
    let (a, b) = (lab[1], lab[2]);
    let chroma = (a * a + b * b).sqrt();
    let angle = b.atan2(a) * 180.0 / std::f64::consts::PI - 50.0;
    let want = -0.5 + 0.02 * chroma.powf(1.07) * (angle * std::f64::consts::PI / 180.0).cos();
    check("temperature", within(got, want, 1e-6));
}
