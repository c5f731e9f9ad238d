//! hooks: hct keycolor contrast
use super::api::*;
use super::util::*;
use crate::contrast::contrast::Contrast;
use crate::dynamiccolor::dynamic_color::DynamicColor;
use crate::dynamiccolor::dynamic_scheme::DynamicScheme;
use crate::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as M;
use crate::dynamiccolor::src::contrast_curve::ContrastCurve;
use crate::dynamiccolor::src::tone_delta_pair::{ToneDeltaPair, TonePolarity};
use crate::dynamiccolor::variant::Variant;
use crate::hct::hct::Hct;
use crate::palettes::tonal_palette::TonalPalette;

pub const REG: &[(&str, fn())] = &[
    ("D06.roles/9", role_colors),
    ("D06.history/5", || history(3)),
    ("D06.T_history/5", || history(5)),
    ("D06.long_history", long_history),
    ("D04.foreground/8", foreground),
    ("D04.light_foreground", light_foreground),
    ("D04.single/8", single),
    ("D04.dual/8", dual),
    ("D04.pair/7", || pair(2 * choice("polarity", 2), [0.0, 10.0, 20.0, 60.0, 70.0, 80.0, 90.0][part()], [10.0, 20.0, 30.0, 70.0, 80.0, 90.0, 100.0][part()])),
    ("D04.T_pair/10", || pair(choice("polarity", 4), part() as f64 * 10.0, part() as f64 * 10.0 + 10.0)),
];
fn reaches(name: &str, f: f64, b: f64, want: f64) {
    let r = Contrast::ratio_of_tones(f, b);
    if r >= want - 1e-4 {
        return;
    }
    // nothing reaches it (but for the half tone that lighter/darker leave unused), and this is,
    // give or take 0.1, the best there is
    let w = Contrast::ratio_of_tones(100.0, b);
    let k = Contrast::ratio_of_tones(0.0, b);
    check(name, r >= w - 0.1001 && r >= k - 0.1001);
    check(name, Contrast::ratio_of_tones(99.5, b) < want + 1e-4 && Contrast::ratio_of_tones(0.5, b) < want + 1e-4);
}
/// a tone in this part's share of [0,100]
fn tone_part(name: &str) -> f64 {
    let cut = [0.0, 20.0, 35.0, 49.0, 50.0, 59.0, 61.0, 80.0, 100.0];
    let k = part();
    f64_in(name, cut[k], cut[k + 1])
}
/// a ratio, in slices
fn ratio_in(name: &str) -> f64 {
    let cut = [1.0, 3.0, 4.4, 4.7, 7.0, 11.0, 21.0];
    let k = choice("ratio slice", 6);
    f64_in(name, cut[k], cut[k + 1])
}
fn foreground() {
    hook("contrast");
    let b = tone_part("background");
    let want = ratio_in("ratio");
    let f = DynamicColor::foreground_tone(b, want);
    check("range", f >= 0.0 && f <= 100.0);
    reaches("foreground", f, b, want);
}
fn light_foreground() {
    let t = f64_in("tone", 0.0, 100.0);
    let (p, a) = (DynamicColor::tone_prefers_light_foreground(t), DynamicColor::tone_allows_light_foreground(t));
    check("prefers below 60", p == (t < 59.5));
    check("allows up to 49", a == (t < 49.5));
    let e = DynamicColor::enable_light_foreground(t);
    check("unchanged or 49", e == if p && !a { 49.0 } else { t });
    check("white is readable where it is preferred", !DynamicColor::tone_prefers_light_foreground(e) || Contrast::ratio_of_tones(100.0, e) >= 4.5 - 0.1);
    check("settled", DynamicColor::enable_light_foreground(e) == e);
}
// ---------------------------------------------------------------- custom colours
fn scheme(dark: bool, level: f64) -> DynamicScheme {
    hook("keycolor");
    let pal = |c: i64| TonalPalette::from_hct(&Hct::from_int(c));
    DynamicScheme::new(0xff6750a4, Variant::TonalSpot, Some(level), dark, pal(0xff6750a4), pal(0xff625b71), pal(0xff7d5260), pal(0xff79767d), pal(0xff787579))
}
fn level() -> f64 {
    [-1.0, 0.0, 1.0][choice("level", 3)]
}
fn color(name: &str, tone: f64, is_bg: bool, bg: Option<f64>, bg2: Option<f64>, want: Option<f64>, pair: Option<Box<dyn Fn(&DynamicScheme) -> ToneDeltaPair>>) -> DynamicColor {
    let b = |t: f64| -> Box<dyn Fn(&DynamicScheme) -> DynamicColor> { Box::new(move |_s| color("bg", t, true, None, None, None, None)) };
    DynamicColor::from_palette(
        Some(name),
        Box::new(|s| &s.primary_palette),
        Box::new(move |_s| tone),
        Some(is_bg),
        bg.map(b),
        bg2.map(b),
        want.map(|r| ContrastCurve::new(r, r, r, r)),
        pair,
    )
}
fn single() {
    hook("contrast");
    let b = tone_part("background");
    let t = f64_in("tone", 0.0, 100.0);
    let want = ratio_in("ratio");
    let l = level();
    let is_bg = choice("is background", 2) == 1;
    let s = scheme(false, l);
    let got = color("c", t, is_bg, Some(b), None, Some(want), None).get_tone(&s);
    check("range", got >= 0.0 && got <= 100.0);
    if is_bg {
        check("backgrounds avoid the awkward zone", !(got >= 50.0 && got < 60.0));
        if got == 49.0 || got == 60.0 {
            return;
        }
    }
    if l >= 0.0 && Contrast::ratio_of_tones(b, t) >= want + 1e-9 {
        check("good enough is left alone", got == t);
    }
    reaches("contrast", got, b, want);
}
fn dual() {
    hook("contrast");
    let b1 = tone_part("background");
    let b2 = f64_in("second background", 0.0, 100.0);
    let t = f64_in("tone", 0.0, 100.0);
    let want = ratio_in("ratio");
    let s = scheme(false, [-1.0, 0.0][choice("level", 2)]);
    let got = color("c", t, false, Some(b1), Some(b2), Some(want), None).get_tone(&s);
    check("range", got >= 0.0 && got <= 100.0);
    let (r1, r2) = (Contrast::ratio_of_tones(got, b1), Contrast::ratio_of_tones(got, b2));
    if r1 >= want - 1e-4 && r2 >= want - 1e-4 {
        return;
    }
    let light = DynamicColor::tone_prefers_light_foreground(b1) || DynamicColor::tone_prefers_light_foreground(b2);
    check("as far as it goes", got == if light { 100.0 } else { 0.0 });
    let (up, down) = if b1 >= b2 { (b1, b2) } else { (b2, b1) };
    check("no lighter tone does", up > 99.5 || Contrast::ratio_of_tones(99.5, up) < want + 1e-4);
    if !light {
        check("no darker tone does", down < 0.5 || Contrast::ratio_of_tones(0.5, down) < want + 1e-4);
    }
}
fn polarity(k: usize) -> TonePolarity {
    match k {
        0 => TonePolarity::Darker,
        1 => TonePolarity::Lighter,
        2 => TonePolarity::Nearer,
        _ => TonePolarity::Farther,
    }
}
fn pair(k: usize, lo: f64, hi: f64) {
    hook("contrast");
    let b = f64_in("background", lo, hi);
    let (ta, tb) = (f64_in("a", 0.0, 100.0), f64_in("b", 0.0, 100.0));
    let delta = f64_in("delta", 0.0, 40.0);
    let (wa, wb) = (3.0, 4.5);
    let together = choice("together", 2) == 1;
    let dark = choice("dark", 2) == 1;
    let s = scheme(dark, [-1.0, 0.0][choice("level", 2)]);
    let mk = move |name: &str, t: f64, w: f64| color(name, t, true, Some(b), None, Some(w), Some(Box::new(move |_s| {
        ToneDeltaPair::new(color("a", ta, true, Some(b), None, Some(wa), None), color("b", tb, true, Some(b), None, Some(wb), None), delta, polarity(k), together)
    })));
    let a = mk("a", ta, wa).get_tone(&s);
    let c = mk("b", tb, wb).get_tone(&s);
    check("range", a >= 0.0 && a <= 100.0 && c >= 0.0 && c <= 100.0);
    check("clear of the awkward zone", !(a >= 50.0 && a < 60.0) && !(c >= 50.0 && c < 60.0));
    // a lighter than b?
    let lighter = match k {
        0 => false,
        1 => true,
        2 => !dark,
        _ => dark,
    };
    let d = if lighter { a - c } else { c - a };
    check("distance", d >= delta - 1e-6);
}
// ---------------------------------------------------------------- colours of roles
type Role = fn() -> DynamicColor;
type Getter = fn(&DynamicScheme) -> i64;
/// role, getter, palette (0 primary, 1 secondary, 2 tertiary, 3 neutral, 4 neutral variant, 5 error)
fn roles() -> Vec<(Role, Getter, usize)> {
    type S = DynamicScheme;
    vec![
        (M::primary_palette_key_color, S::get_primary_palette_key_color, 0),
        (M::secondary_palette_key_color, S::get_secondary_palette_key_color, 1),
        (M::tertiary_palette_key_color, S::get_tertiary_palette_key_color, 2),
        (M::neutral_palette_key_color, S::get_neutral_palette_key_color, 3),
        (M::neutral_variant_palette_key_color, S::get_neutral_variant_palette_key_color, 4),
        (M::background, S::get_background, 3),
        (M::on_background, S::get_on_background, 3),
        (M::surface, S::get_surface, 3),
        (M::surface_dim, S::get_surface_dim, 3),
        (M::surface_bright, S::get_surface_bright, 3),
        (M::surface_container_lowest, S::get_surface_container_lowest, 3),
        (M::surface_container_low, S::get_surface_container_low, 3),
        (M::surface_container, S::get_surface_container, 3),
        (M::surface_container_high, S::get_surface_container_high, 3),
        (M::surface_container_highest, S::get_surface_container_highest, 3),
        (M::on_surface, S::get_on_surface, 3),
        (M::surface_variant, S::get_surface_variant, 4),
        (M::on_surface_variant, S::get_on_surface_variant, 4),
        (M::inverse_surface, S::get_inverse_surface, 3),
        (M::inverse_on_surface, S::get_inverse_on_surface, 3),
        (M::outline, S::get_outline, 4),
        (M::outline_variant, S::get_outline_variant, 4),
        (M::shadow, S::get_shadow, 3),
        (M::scrim, S::get_scrim, 3),
        (M::surface_tint, S::get_surface_tint, 0),
        (M::primary, S::get_primary, 0),
        (M::on_primary, S::get_on_primary, 0),
        (M::primary_container, S::get_primary_container, 0),
        (M::on_primary_container, S::get_on_primary_container, 0),
        (M::inverse_primary, S::get_inverse_primary, 0),
        (M::secondary, S::get_secondary, 1),
        (M::on_secondary, S::get_on_secondary, 1),
        (M::secondary_container, S::get_secondary_container, 1),
        (M::on_secondary_container, S::get_on_secondary_container, 1),
        (M::tertiary, S::get_tertiary, 2),
        (M::on_tertiary, S::get_on_tertiary, 2),
        (M::tertiary_container, S::get_tertiary_container, 2),
        (M::on_tertiary_container, S::get_on_tertiary_container, 2),
        (M::error, S::get_error, 5),
        (M::on_error, S::get_on_error, 5),
        (M::error_container, S::get_error_container, 5),
        (M::on_error_container, S::get_on_error_container, 5),
        (M::primary_fixed, S::get_primary_fixed, 0),
        (M::primary_fixed_dim, S::get_primary_fixed_dim, 0),
        (M::on_primary_fixed, S::get_on_primary_fixed, 0),
        (M::on_primary_fixed_variant, S::get_on_primary_fixed_variant, 0),
        (M::secondary_fixed, S::get_secondary_fixed, 1),
        (M::secondary_fixed_dim, S::get_secondary_fixed_dim, 1),
        (M::on_secondary_fixed, S::get_on_secondary_fixed, 1),
        (M::on_secondary_fixed_variant, S::get_on_secondary_fixed_variant, 1),
        (M::tertiary_fixed, S::get_tertiary_fixed, 2),
        (M::tertiary_fixed_dim, S::get_tertiary_fixed_dim, 2),
        (M::on_tertiary_fixed, S::get_on_tertiary_fixed, 2),
        (M::on_tertiary_fixed_variant, S::get_on_tertiary_fixed_variant, 2),
    ]
}
fn palette_in(name: &str) -> TonalPalette {
    TonalPalette::of(f64_in(&format!("{} hue", name), 0.0, 359.0), f64_in(&format!("{} chroma", name), 0.0, 100.0))
}
fn variant(k: usize) -> Variant {
    match k {
        0 => Variant::Monochrome,
        1 => Variant::Neutral,
        2 => Variant::TonalSpot,
        3 => Variant::Vibrant,
        4 => Variant::Expressive,
        5 => Variant::Content,
        6 => Variant::Fidelity,
        7 => Variant::Rainbow,
        _ => Variant::FruitSalad,
    }
}
/// every role is its own palette (any hue, any chroma) at its tone, read any of the four ways
fn role_colors() {
    hook("hct");
    hook("keycolor");
    let v = variant(part());
    let dark = choice("dark", 2) == 1;
    let level = [-1.0, 0.0, 0.5, 1.0][choice("level", 4)];
    // in the two variants that follow the source colour, tones depend on the palettes' colours
    let third = if part() == 5 || part() == 6 { TonalPalette::of(310.0, 24.0) } else { palette_in("tertiary") };
    let second = if part() == 5 || part() == 6 { TonalPalette::of(290.0, 30.0) } else { palette_in("secondary") };
    let pals = [palette_in("primary"), second, third, palette_in("neutral"), palette_in("variant")];
    let s = DynamicScheme::new(0xff6750a4, v, Some(level), dark, pals[0].clone(), pals[1].clone(), pals[2].clone(), pals[3].clone(), pals[4].clone());
    for (role, getter, p) in roles() {
        let tone = role().get_tone(&s);
        let (h, c) = if p == 5 { (25.0, 84.0) } else { (pals[p].hue, pals[p].chroma) };
        let want = Hct::from(h, c, tone);
        check("palette at tone", role().get_hct(&s).to_int() == want.to_int());
        check("argb", role().get_argb(&s) == want.to_int());
        check("getter", getter(&s) == want.to_int());
        check("through the scheme", s.get_argb(&mut role()) == want.to_int() && s.get_hct(&mut role()).to_int() == want.to_int());
    }
}
/// a colour that depends on everything in the scheme
fn probe(what: usize) -> DynamicColor {
    DynamicColor::from_palette(
        Some("probe"),
        Box::new(|s| if s.is_dark { &s.tertiary_palette } else { &s.primary_palette }),
        Box::new(move |s| match what {
            0 => s.contrast_level,
            1 => s.source_color_hct.get_tone(),
            _ => 50.0 + if s.is_dark { 3.0 } else { 0.0 } + if s.variant == Variant::Content { 7.0 } else { 0.0 },
        }),
        None,
        None,
        None,
        None,
        None,
    )
}
fn answer(s: &DynamicScheme, what: usize) -> i64 {
    let p = if s.is_dark { &s.tertiary_palette } else { &s.primary_palette };
    Hct::from(p.hue, p.chroma, probe(what).get_tone(s)).to_int()
}
fn any_scheme(k: usize, what: usize) -> DynamicScheme {
    let n = |x: &str| format!("{}{}", x, k);
    let fixed = || TonalPalette::of(30.0, 40.0);
    let free = |x: &str| TonalPalette::of(f64_in(&n(&format!("{} hue", x)), 0.0, 359.0), f64_in(&n(&format!("{} chroma", x)), 0.0, 100.0));
    let level = if what == 0 { f64_in(&n("level"), 0.0, 1.0) } else { 0.0 };
    let argb = if what == 1 { color_in(&n("source")) } else { 0xff6750a4 };
    let (dark, v) = if what == 2 { (choice(&n("dark"), 2) == 1, if choice(&n("variant"), 2) == 1 { Variant::Content } else { Variant::TonalSpot }) } else { (false, Variant::TonalSpot) };
    let p = if what == 3 || what == 4 { free("primary") } else { fixed() };
    let t = if what == 4 { free("tertiary") } else { fixed() };
    DynamicScheme::new(argb, v, Some(level), dark || what == 4, p, fixed(), t, fixed(), fixed())
}
/// what was asked before does not matter
fn history(steps: usize) {
    hook("hct");
    hook("keycolor");
    let what = part();
    let mut c = probe(what);
    for k in 0..steps {
        let s = any_scheme(k, what);
        check("history", c.get_argb(&s) == answer(&s, what));
        check("again", c.get_hct(&s).to_int() == answer(&s, what));
    }
}
/// long enough for the cache to be emptied
fn long_history() {
    hook("hct");
    hook("keycolor");
    let mut c = probe(0);
    let first = any_scheme(0, 0);
    check("first", c.get_argb(&first) == answer(&first, 0));
    for k in 1..7 {
        let s = DynamicScheme::new(0xff6750a4, Variant::TonalSpot, Some(0.125 * k as f64), choice(&format!("d{}", k), 2) == 1, TonalPalette::of(30.0, 40.0), TonalPalette::of(30.0, 40.0), TonalPalette::of(50.0, 40.0), TonalPalette::of(30.0, 40.0), TonalPalette::of(30.0, 40.0));
        check("step", c.get_argb(&s) == answer(&s, 0));
        check("first again", c.get_argb(&first) == answer(&first, 0));
    }
}
