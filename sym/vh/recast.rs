//! hooks: transfer hct recast
use super::api::*;
use super::appearance::*;
use super::util::*;
use crate::hct::cam16::Cam16;
use crate::hct::hct::Hct;
use crate::hct::viewing_conditions::ViewingConditions;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[("H03.recast/8", recast), ("H03.from_argb/8", from_argb), ("H03.to_argb/8", to_argb)];
/// the colour that, under default conditions, looks as the original does under the ones given
fn recast() {
    hook("hct");
    hook("recast");
    let c = color_in("color");
    let vc = conditions(part());
    let got = Hct::from_int(c).in_viewing_conditions(&vc);
    let xyz = Cam16::from_int(c).xyz_in_viewing_conditions(&vc, None);
    let seen = Cam16::from_xyz_in_viewing_conditions(xyz[0], xyz[1], xyz[2], &ViewingConditions::make(None, None, None, None, None));
    let want = Hct::from(seen.hue, seen.chroma, ColorUtils::lstar_from_y(xyz[1]));
    check("recast", got.to_int() == want.to_int());
}
fn from_argb() {
    hook("recast");
    hook("transfer");
    let c = color_in("color");
    let vc = conditions(part());
    let xyz = ColorUtils::xyz_from_argb(c);
    let want = Cam16::from_xyz_in_viewing_conditions(xyz[0], xyz[1], xyz[2], &vc);
    let got = if part() == 0 { Cam16::from_int(c) } else { Cam16::from_int_in_viewing_conditions(c, &vc) };
    for (x, y) in [(got.hue, want.hue), (got.chroma, want.chroma), (got.j, want.j), (got.q, want.q), (got.m, want.m), (got.s, want.s), (got.jstar, want.jstar), (got.astar, want.astar), (got.bstar, want.bstar)] {
        check("appearance of its XYZ coordinates", x == y);
    }
}
fn to_argb() {
    hook("recast");
    hook("transfer");
    let vc = conditions(part());
    let (j, c, h) = (f64_in("lightness", 0.0, 100.0), f64_in("chroma", 0.0, 110.0), f64_in("hue", 0.0, 360.0));
    let cam = Cam16::new(h, c, j, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
    let xyz = cam.xyz_in_viewing_conditions(&vc, None);
    let got = if part() == 0 { cam.to_int() } else { cam.viewed(&vc) };
    check("colour of its XYZ coordinates", got == ColorUtils::argb_from_xyz(xyz[0], xyz[1], xyz[2]));
}
