//! hooks: transfer
use super::api::*;
use super::util::*;
use crate::utils::color_utils::ColorUtils;

pub const REG: &[(&str, fn())] = &[
    ("C03.y_of_lstar", y_of_lstar),
    ("C03.lstar_of_y", lstar_of_y),
    ("C03.y_monotone", y_monotone),
    ("C03.lstar_monotone", lstar_monotone),
    ("C03.gray", gray),
    ("C03.gray_tone", gray_tone),
    ("C03.argb_tone_range", argb_tone_range),
    ("C04.delin_range", delin_range),
    ("C04.delin_monotone", delin_monotone),
    ("C04.roundtrip", transfer_roundtrip),
    ("C04.lin_monotone", lin_monotone),
    ("C05.pack", pack),
    ("C05.unpack", unpack),
    ("C05.opaque", opaque),
    ("C05.repack", repack),
    ("C07.xyz_roundtrip", xyz_roundtrip),
    ("C07.xyz_range", xyz_range),
    ("C07.lab_roundtrip", lab_roundtrip),
    ("C07.transfer_stable", transfer_stable),
    ("C07.lab_l_is_lstar", lab_l_is_lstar),
    ("C07.lab_range", lab_range),
];
// ---------------------------------------------------------------- tone <-> luminance
fn y_of_lstar() {
    let l = f64_in("lstar", 0.0, 100.0);
    let y = ColorUtils::y_from_lstar(l);
    check("range", y >= -1e-9 && y <= 100.0 + 1e-9);
    check("inverse", within(ColorUtils::lstar_from_y(y), l, 1e-7));
    check("black", near(ColorUtils::y_from_lstar(0.0), 0.0));
    check("white", near(ColorUtils::y_from_lstar(100.0), 100.0));
}
fn lstar_of_y() {
    let y = f64_in("y", 0.0, 100.0);
    let l = ColorUtils::lstar_from_y(y);
    check("range", l >= -1e-9 && l <= 100.0 + 1e-9);
    check("inverse", within(ColorUtils::y_from_lstar(l), y, 1e-7));
}
fn y_monotone() {
    let a = f64_in("a", 0.0, 100.0);
    let b = f64_in("b", 0.0, 100.0);
    assume(a + 1e-6 <= b);
    check("increasing", ColorUtils::y_from_lstar(a) < ColorUtils::y_from_lstar(b));
}
fn lstar_monotone() {
    let a = f64_in("a", 0.0, 100.0);
    let b = f64_in("b", 0.0, 100.0);
    assume(a + 1e-6 <= b);
    check("increasing", ColorUtils::lstar_from_y(a) < ColorUtils::lstar_from_y(b));
}
fn gray() {
    let l = f64_in("lstar", 0.0, 100.0);
    let c = ColorUtils::argb_from_lstar(l);
    check("opaque", ColorUtils::alpha_from_argb(c) == 255);
    let (r, g, b) = (ColorUtils::red_from_argb(c), ColorUtils::green_from_argb(c), ColorUtils::blue_from_argb(c));
    check("gray", r == g && g == b);
    check("only 32 bits", c >= 0xff000000 && c <= 0xffffffff);
}
fn gray_tone() {
    option("pow_segments", 2);
    option("linear_cubes", 1);
    let k = choice("slice", 64) as f64;
    let l = f64_in("lstar", 0.0, 100.0);
    assume(l >= 1.5625 * k);
    assume(l <= 1.5625 * (k + 1.0));
    let c = ColorUtils::argb_from_lstar(l);
    // two neighbouring grays differ by about 0.5 in tone at most
    check("tone of the gray", within(ColorUtils::lstar_from_argb(c), l, 0.35));
}
fn argb_tone_range() {
    let c = color_in("c");
    let t = ColorUtils::lstar_from_argb(c);
    check("range", t >= -1e-9 && t <= 100.0 + 1e-6);
}
// ---------------------------------------------------------------- transfer function
fn delin_range() {
    let x = f64_in("x", -1e4, 1e4);
    let v = ColorUtils::delinearized(x);
    check("range", v >= 0 && v <= 255);
    if x <= 0.0 {
        check("low", v == 0);
    }
    if x >= 100.0 {
        check("high", v == 255);
    }
}
fn delin_monotone() {
    let a = f64_in("a", -10.0, 110.0);
    let b = f64_in("b", -10.0, 110.0);
    assume(a + 0.05 <= b);
    check("monotone", ColorUtils::delinearized(a) <= ColorUtils::delinearized(b));
}
fn transfer_roundtrip() {
    option("pow_segments", 40);
    let c = i64_in("c", 0, 255);
    let x = ColorUtils::linearized(c);
    check("range", x >= 0.0 && x <= 100.0 + 1e-9);
    check("roundtrip", ColorUtils::delinearized(x) == c);
}
fn lin_monotone() {
    option("pow_segments", 40);
    let c = i64_in("c", 0, 254);
    check("increasing", ColorUtils::linearized(c) < ColorUtils::linearized(c + 1));
}
// ---------------------------------------------------------------- packing
fn pack() {
    let r = i64_in("r", 0, 255);
    let g = i64_in("g", 0, 255);
    let b = i64_in("b", 0, 255);
    let c = ColorUtils::argb_from_rgb(r, g, b);
    check("alpha", ColorUtils::alpha_from_argb(c) == 255);
    check("red", ColorUtils::red_from_argb(c) == r);
    check("green", ColorUtils::green_from_argb(c) == g);
    check("blue", ColorUtils::blue_from_argb(c) == b);
    check("opaque", ColorUtils::is_opaque(c));
    check("layout", c == 0xff000000 + r * 65536 + g * 256 + b);
}
fn unpack() {
    let c = i64_in("argb", 0, 0xffffffff);
    let a = ColorUtils::alpha_from_argb(c);
    let r = ColorUtils::red_from_argb(c);
    let g = ColorUtils::green_from_argb(c);
    let b = ColorUtils::blue_from_argb(c);
    check("ranges", a >= 0 && a <= 255 && r >= 0 && r <= 255 && g >= 0 && g <= 255 && b >= 0 && b <= 255);
    check("decomposition", ((a * 256 + r) * 256 + g) * 256 + b == c);
}
fn opaque() {
    let c = i64_in("argb", 0, 0xffffffff);
    check("opaque", ColorUtils::is_opaque(c) == (c >= 0xff000000));
}
fn repack() {
    let c = i64_in("argb", 0, 0xffffffff);
    let p = ColorUtils::argb_from_rgb(ColorUtils::red_from_argb(c), ColorUtils::green_from_argb(c), ColorUtils::blue_from_argb(c));
    check("same colour, opaque", p - 0xff000000 == c % 16777216);
}
// ---------------------------------------------------------------- XYZ / Lab
fn same(c: i64, d: i64) {
    check("red", ColorUtils::red_from_argb(c) == ColorUtils::red_from_argb(d));
    check("green", ColorUtils::green_from_argb(c) == ColorUtils::green_from_argb(d));
    check("blue", ColorUtils::blue_from_argb(c) == ColorUtils::blue_from_argb(d));
    check("alpha", ColorUtils::alpha_from_argb(d) == 255);
}
fn xyz_roundtrip() {
    option("pow_segments", 40);
    let c = color_in("c");
    let v = ColorUtils::xyz_from_argb(c);
    same(c, ColorUtils::argb_from_xyz(v[0], v[1], v[2]));
}
fn xyz_range() {
    let c = color_in("c");
    let v = ColorUtils::xyz_from_argb(c);
    let w = ColorUtils::white_point_d65();
    check("x", v[0] >= 0.0 && v[0] <= w[0] + 0.01);
    check("y", v[1] >= 0.0 && v[1] <= w[1] + 0.01);
    check("z", v[2] >= 0.0 && v[2] <= w[2] + 0.01);
}
/// Compositional: the linear channels that come back are the ones that went in (here, with the
/// transfer function abstract); linear channels that close are quantised back to the same byte
/// (`transfer_stable`).
fn lab_roundtrip() {
    hook("transfer");
    option("linear_cubes", 1);
    option("pow_segments", 1);
    let c = color_in("c");
    let v = ColorUtils::lab_from_argb(c);
    let d = ColorUtils::argb_from_lab(v[0], v[1], v[2]);
    if SYMBOLIC && calls("linearized") == 3 && calls("delinearized") == 3 {
        for k in 0..3 {
            check("linear channel", within(call_f("delinearized", k, 0), call_f("linearized", k, 1), 1e-5));
            check("channel in place", call_i("linearized", k, 0) == (c / [65536, 256, 1][k]) % 256);
        }
        check("packed", d == 0xff000000 + call_i("delinearized", 0, 1) * 65536 + call_i("delinearized", 1, 1) * 256 + call_i("delinearized", 2, 1));
    } else {
        same(c, d);
    }
}
fn transfer_stable() {
    option("pow_segments", 40);
    let c = i64_in("c", 0, 255);
    let e = f64_in("e", -1e-5, 1e-5);
    check("stable", ColorUtils::delinearized(ColorUtils::linearized(c) + e) == c);
}
fn lab_l_is_lstar() {
    let c = color_in("c");
    check("L", within(ColorUtils::lab_from_argb(c)[0], ColorUtils::lstar_from_argb(c), 1e-6));
}
fn lab_range() {
    let c = color_in("c");
    let v = ColorUtils::lab_from_argb(c);
    check("L", v[0] >= -1e-6 && v[0] <= 100.001);
    check("a", v[1] >= -130.0 && v[1] <= 130.0);
    check("b", v[2] >= -130.0 && v[2] <= 130.0);
}
