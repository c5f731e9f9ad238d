//! hooks: hct keycolor temperature
#![allow(deprecated)]
use super::api::*;
use super::util::*;
use crate::dislike::dislike_analyzer::DislikeAnalyzer;
use crate::dynamiccolor::dynamic_scheme::DynamicScheme;
use crate::dynamiccolor::variant::Variant;
use crate::hct::cam16::Cam16;
use crate::hct::hct::Hct;
use crate::palettes::core_palette::CorePalette;
use crate::palettes::tonal_palette::TonalPalette;
use crate::scheme::scheme::Scheme;
use crate::scheme::scheme_content::SchemeContent;
use crate::scheme::scheme_expressive::SchemeExpressive;
use crate::scheme::scheme_fidelity::SchemeFidelity;
use crate::scheme::scheme_fruit_salad::SchemeFruitSalad;
use crate::scheme::scheme_monochrome::SchemeMonochrome;
use crate::scheme::scheme_neutral::SchemeNeutral;
use crate::scheme::scheme_rainbow::SchemeRainbow;
use crate::scheme::scheme_tonal_spot::SchemeTonalSpot;
use crate::scheme::scheme_vibrant::SchemeVibrant;
use crate::temperature::temperature_cache::TemperatureCache;

pub const REG: &[(&str, fn())] = &[
    ("S01.recipe/9", recipe),
    ("S01.rotation", rotation),
    ("S02.core", core),
    ("S02.legacy", legacy),
    ("P01.of_history", || of_history(3)),
    ("P01.T_of_history", || of_history(5)),
    ("P01.of_fractional", of_fractional),
    ("P01.list", list),
    ("P01.list_deduced", list_deduced),
    ("P01.core_list/13", core_list),
    ("P01.equality", equality),
    ("P02.key", || key(1)),
    ("P02.T_key", || key(3)),
    ("P02.key_far/12", key_far),
    ("H02.fields", fields),
    ("H02.setters", || setters(2)),
    ("H02.T_setters", || setters(4)),
];
// ---------------------------------------------------------------- scheme variants
/// hue turned by the rotation that belongs to the segment it lies in
fn turned(hue: f64, hues: &[f64], rot: &[f64]) -> f64 {
    for k in 0..hues.len() - 1 {
        if hue >= hues[k] && hue < hues[k + 1] {
            return hue + rot[k];
        }
    }
    hue
}
/// the same hue, a whole turn away at most
fn same_hue(a: f64, b: f64) -> bool {
    let d = a - b;
    within(d, 0.0, 1e-6) || within(d, 360.0, 1e-6) || within(d, -360.0, 1e-6)
}
fn is(name: &str, p: &TonalPalette, hue: f64, chroma: f64) {
    check(name, same_hue(p.hue, hue));
    check(name, within(p.chroma, chroma, 1e-9));
}
fn recipe() {
    hook("hct");
    hook("keycolor");
    hook("temperature");
    let source = Hct::from_int(color_in("source"));
    let (h, c) = (source.get_hue(), source.get_chroma());
    let dark = choice("dark", 2) == 1;
    let level = f64_in("level", -1.0, 1.0);
    let k = part();
    let src = source.clone();
    let (s, v): (DynamicScheme, Variant) = match k {
        0 => (SchemeMonochrome::new(src, dark, level).dynamic_scheme, Variant::Monochrome),
        1 => (SchemeNeutral::new(src, dark, level).dynamic_scheme, Variant::Neutral),
        2 => (SchemeTonalSpot::new(src, dark, level).dynamic_scheme, Variant::TonalSpot),
        3 => (SchemeVibrant::new(src, dark, level).dynamic_scheme, Variant::Vibrant),
        4 => (SchemeExpressive::new(src, dark, level).dynamic_scheme, Variant::Expressive),
        5 => (SchemeContent::new(src, dark, level).dynamic_scheme, Variant::Content),
        6 => (SchemeFidelity::new(src, dark, level).dynamic_scheme, Variant::Fidelity),
        7 => (SchemeRainbow::new(src, dark, level).dynamic_scheme, Variant::Rainbow),
        _ => (SchemeFruitSalad::new(src, dark, level).dynamic_scheme, Variant::FruitSalad),
    };
    check("variant", s.variant == v);
    check("theme", s.is_dark == dark);
    check("level", s.contrast_level == level);
    check("source", s.source_color_argb == source.to_int() && s.source_color_hct.to_int() == source.to_int());
    is("error", &s.error_palette, 25.0, 84.0);
    let vib = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0];
    let exp = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0];
    // hue and chroma of primary, secondary, tertiary, neutral, neutral variant
    let want: [(f64, f64); 5] = match k {
        0 => [(h, 0.0), (h, 0.0), (h, 0.0), (h, 0.0), (h, 0.0)],
        1 => [(h, 12.0), (h, 8.0), (h, 16.0), (h, 2.0), (h, 2.0)],
        2 => [(h, 36.0), (h, 16.0), (h + 60.0, 24.0), (h, 6.0), (h, 8.0)],
        3 => [
            (h, 200.0),
            (turned(h, &vib, &[18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0]), 24.0),
            (turned(h, &vib, &[35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0]), 32.0),
            (h, 10.0),
            (h, 12.0),
        ],
        4 => [
            (h + 240.0, 40.0),
            (turned(h, &exp, &[45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0]), 24.0),
            (turned(h, &exp, &[120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0]), 32.0),
            (h + 15.0, 8.0),
            (h + 15.0, 12.0),
        ],
        5 | 6 => {
            let other = if k == 6 {
                TemperatureCache::new(source.clone()).get_complement()
            } else {
                TemperatureCache::new(source.clone()).analogous(Some(3), Some(6))[2].clone()
            };
            let other = DislikeAnalyzer::fix_if_disliked(&other);
            let second = if c < 64.0 { c * 0.5 } else { c - 32.0 };
            [(h, c), (h, second), (other.get_hue(), other.get_chroma()), (h, c / 8.0), (h, c / 8.0 + 4.0)]
        }
        7 => [(h, 48.0), (h, 16.0), (h + 60.0, 24.0), (h, 0.0), (h, 0.0)],
        _ => [(h - 50.0, 48.0), (h - 50.0, 36.0), (h, 36.0), (h, 10.0), (h, 16.0)],
    };
    is("primary", &s.primary_palette, want[0].0, want[0].1);
    is("secondary", &s.secondary_palette, want[1].0, want[1].1);
    is("tertiary", &s.tertiary_palette, want[2].0, want[2].1);
    is("neutral", &s.neutral_palette, want[3].0, want[3].1);
    is("neutral variant", &s.neutral_variant_palette, want[4].0, want[4].1);
}
/// any increasing table of breakpoints covering the circle
fn rotation() {
    hook("hct");
    let source = Hct::from_int(color_in("source"));
    let (b1, b2) = (f64_in("b1", 1.0, 180.0), f64_in("b2", 181.0, 359.0));
    let rot: Vec<f64> = (0..4).map(|k| f64_in(&format!("r{}", k), -180.0, 180.0)).collect();
    let hues = vec![0.0, b1, b2, 360.0];
    let got = DynamicScheme::get_rotated_hue(&source, &hues, &rot);
    check("range", got >= 0.0 && got < 360.0);
    check("turned", same_hue(got, turned(source.get_hue(), &hues, &rot)));
    let one = DynamicScheme::get_rotated_hue(&source, &vec![0.0], &vec![rot[0]]);
    check("single", one >= 0.0 && one < 360.0 && same_hue(one, source.get_hue() + rot[0]));
}
// ---------------------------------------------------------------- core palettes, legacy schemes
fn core() {
    hook("hct");
    hook("keycolor");
    let argb = color_in("source");
    let cam = Cam16::from_int(argb);
    let (h, c) = (cam.hue, cam.chroma);
    let p = CorePalette::of(argb);
    is("primary", &p.primary, h, if c > 48.0 { c } else { 48.0 });
    is("secondary", &p.secondary, h, 16.0);
    is("tertiary", &p.tertiary, h + 60.0, 24.0);
    is("neutral", &p.neutral, h, 4.0);
    is("variant", &p.neutral_variant, h, 8.0);
    is("error", &p.error, 25.0, 84.0);
    let p = CorePalette::content_of(argb);
    is("primary", &p.primary, h, c);
    is("secondary", &p.secondary, h, c / 3.0);
    is("tertiary", &p.tertiary, h + 60.0, c / 2.0);
    is("neutral", &p.neutral, h, if c < 48.0 { c / 12.0 } else { 4.0 });
    is("variant", &p.neutral_variant, h, if c < 48.0 { c / 6.0 } else { 8.0 });
    is("error", &p.error, 25.0, 84.0);
}
fn legacy() {
    hook("hct");
    hook("keycolor");
    let argb = color_in("source");
    let dark = choice("dark", 2) == 1;
    let content = choice("content", 2) == 1;
    let s = match (dark, content) {
        (false, false) => Scheme::light(argb),
        (true, false) => Scheme::dark(argb),
        (false, true) => Scheme::light_content(argb),
        (true, true) => Scheme::dark_content(argb),
    };
    let p = if content { CorePalette::content_of(argb) } else { CorePalette::of(argb) };
    let at = |p: &TonalPalette, light: f64, d: f64| Hct::from(p.hue, p.chroma, if dark { d } else { light }).to_int();
    for (pal, c, on, cc, onc) in [
        (&p.primary, s.primary, s.on_primary, s.primary_container, s.on_primary_container),
        (&p.secondary, s.secondary, s.on_secondary, s.secondary_container, s.on_secondary_container),
        (&p.tertiary, s.tertiary, s.on_tertiary, s.tertiary_container, s.on_tertiary_container),
        (&p.error, s.error, s.on_error, s.error_container, s.on_error_container),
    ] {
        check("accent", c == at(pal, 40.0, 80.0));
        check("on accent", on == at(pal, 100.0, 20.0));
        check("container", cc == at(pal, 90.0, 30.0));
    }
    for (pal, onc, d) in [
        (&p.primary, s.on_primary_container, 90.0),
        (&p.secondary, s.on_secondary_container, 90.0),
        (&p.tertiary, s.on_tertiary_container, 90.0),
        (&p.error, s.on_error_container, 80.0),
    ] {
        check("on container", onc == at(pal, 10.0, d));
    }
    check("background", s.background == at(&p.neutral, 99.0, 10.0) && s.surface == s.background);
    check("on background", s.on_background == at(&p.neutral, 10.0, 90.0) && s.on_surface == s.on_background);
    check("surface variant", s.surface_variant == at(&p.neutral_variant, 90.0, 30.0));
    check("on surface variant", s.on_surface_variant == at(&p.neutral_variant, 30.0, 80.0));
    check("outline", s.outline == at(&p.neutral_variant, 50.0, 60.0));
    check("outline variant", s.outline_variant == at(&p.neutral_variant, 80.0, 30.0));
    check("shadow", s.shadow == at(&p.neutral, 0.0, 0.0) && s.scrim == s.shadow);
    check("inverse surface", s.inverse_surface == at(&p.neutral, 20.0, 90.0));
    check("inverse on surface", s.inverse_on_surface == at(&p.neutral, 95.0, 20.0));
    check("inverse primary", s.inverse_primary == at(&p.primary, 80.0, 40.0));
}
// ---------------------------------------------------------------- palettes
fn hc() -> (f64, f64) {
    (f64_in("hue", 0.0, 360.0), f64_in("chroma", 0.0, 150.0))
}
/// whatever is asked in whatever order, a palette answers with its hue and chroma at that tone
fn of_history(steps: usize) {
    hook("hct");
    hook("keycolor");
    let (h, c) = hc();
    let mut p = if choice("how", 2) == 0 { TonalPalette::of(h, c) } else { TonalPalette::from_hct(&Hct::from_int(color_in("of"))) };
    let (h, c) = (p.hue, p.chroma);
    for k in 0..steps {
        if choice(&format!("op{}", k), 2) == 0 {
            let t = i64_in(&format!("t{}", k), 0, 100);
            check("get", p.get(t) == Hct::from(h, c, t as f64).to_int());
        } else {
            let t = f64_in(&format!("f{}", k), 0.0, 100.0);
            check("get_hct", p.get_hct(t).to_int() == Hct::from(h, c, t).to_int());
        }
        check("unchanged", p.hue == h && p.chroma == c);
    }
}
fn of_fractional() {
    hook("hct");
    hook("keycolor");
    let (h, c) = hc();
    let mut p = TonalPalette::of(h, c);
    let l = p.get_as_list();
    check("length", l.len() == 13);
    for (k, t) in [0.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0, 80.0, 90.0, 95.0, 99.0, 100.0].iter().enumerate() {
        check("common tones", l[k] == Hct::from(h, c, *t).to_int());
    }
    let t = f64_in("tone", 0.0, 100.0);
    check("any tone", p.get_hct(t).to_int() == Hct::from(h, c, t).to_int());
}
fn colors() -> Vec<i64> {
    (0..13).map(|k| i64_in(&format!("c{}", k), 0xff000000, 0xffffffff)).collect()
}
const TONES: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];
/// a palette made from a list gives the list back
fn list() {
    hook("hct");
    hook("keycolor");
    option("cheap_deduction", 1);
    // grays: nothing to deduce (the deduction is the subject of list_deduced)
    let l: Vec<i64> = (0..13).map(|k| if k < 3 { i64_in(&format!("c{}", k), 0xff000000, 0xffffffff) } else { 0xff010101 * k as i64 % 0x100000000 }).collect();
    let mut p = TonalPalette::from_list(&l);
    for (k, t) in TONES.iter().enumerate() {
        check("get", p.get(*t) == l[k]);
        check("get_hct", p.get_hct(*t as f64).to_int() == l[k]);
    }
    check("list", p.get_as_list() == l);
    let t = i64_in("tone", 1, 9);
    check("other", p.get(t) == Hct::from(p.hue, p.chroma, t as f64).to_int());
    check("list again", p.get_as_list() == l);
}
/// hue and chroma are those of the most colourful entry that is not nearly white
fn list_deduced() {
    hook("hct");
    hook("keycolor");
    let l: Vec<i64> = (0..13).map(|k| if k == 2 || k == 6 || k == 11 { i64_in(&format!("c{}", k), 0xff000000, 0xffffffff) } else { 0xff000000 }).collect();
    let p = TonalPalette::from_list(&l);
    let mut best = (Hct::from_int(0xff000000).get_hue(), Hct::from_int(0xff000000).get_chroma());
    if best.1 <= 0.0 {
        best = (0.0, 0.0);
    }
    for k in [2usize, 6, 11] {
        let x = Hct::from_int(l[k]);
        if x.get_tone() <= 98.0 && x.get_chroma() > best.1 {
            best = (x.get_hue(), x.get_chroma());
        }
    }
    check("deduced", p.chroma == best.1 && p.hue == best.0);
}
fn core_list() {
    hook("hct");
    hook("keycolor");
    let mut l: Vec<i64> = (0..65).map(|k| 0xff000000 + k as i64 * 0x010101).collect();
    // an arbitrary entry in two of the palettes
    let k = part();
    for p in [0usize, 3] {
        l[13 * p + k] = i64_in(&format!("c{}", p), 0xff000000, 0xffffffff);
    }
    let mut c = CorePalette::from_list(&l);
    check("as list", c.as_list() == l);
    for (p, pal) in [&mut c.primary, &mut c.secondary, &mut c.tertiary, &mut c.neutral, &mut c.neutral_variant].into_iter().enumerate() {
        check("slot", pal.get(TONES[k]) == l[13 * p + k]);
    }
    is("error", &c.error, 25.0, 84.0);
}
fn equality() {
    hook("hct");
    hook("keycolor");
    let (h, c) = hc();
    let (h2, c2) = (f64_in("hue 2", 0.0, 360.0), f64_in("chroma 2", 0.0, 150.0));
    let (mut a, b) = (TonalPalette::of(h, c), TonalPalette::of(h2, c2));
    let same = h == h2 && c == c2;
    check("equal", (a == b) == same && (b == a) == same);
    a.get(i64_in("tone", 0, 100));
    check("asking does not change it", (a == b) == same && a == a.clone());
}
// ---------------------------------------------------------------- key colours
/// The key colour is the palette's colour at the tone nearest to 50 (the lighter first) whose chroma
/// rounds to the palette's and improves on all tones before it; if there is none, the colour that
/// comes nearest to the palette's chroma. Near-ties are left out.
fn clear(x: f64) -> bool {
    let y = x + 0.5;
    let f = y - y.floor();
    f > 1e-6 && f < 1.0 - 1e-6
}
fn scan(h: f64, c: f64, near: i64, must_end: bool) {
    assume(clear(c));
    let (mut ends, mut best, mut want) = (false, 1000.0, 0);
    for d in 0..=near {
        for (n, t) in [50 + d, 50 - d].into_iter().enumerate() {
            if d == 0 && n == 1 {
                continue;
            }
            let x = Hct::from(h, c, t as f64);
            let e = x.get_chroma() - c;
            let e = if e < 0.0 { 0.0 - e } else { e };
            if e < best - 1e-6 {
                best = e;
                want = x.to_int();
                assume(clear(x.get_chroma()));
                ends = x.get_chroma().round() == c.round();
            } else {
                assume(e > best + 1e-6);
            }
        }
        if ends {
            break;
        }
    }
    assume(ends || !must_end);
    let p = TonalPalette::of(h, c);
    check("key colour", p.key_color.to_int() == want);
}
fn key(near: i64) {
    hook("hct");
    let (h, c) = (f64_in("hue", 0.0, 360.0), f64_in("chroma", 0.0, 120.0));
    scan(h, c, near, true);
}
/// the whole search, over a gamut with one cusp
fn key_far() {
    hook("hct");
    let k = part();
    option("cusp", 2 + 8 * k);
    let n = 85.0 + choice("chroma rounds to", 47) as f64;
    let (h, c) = (f64_in("hue", 0.0, 360.0), f64_in("chroma", n - 0.499999, n + 0.499999));
    scan(h, c, 49, false);
}
// ---------------------------------------------------------------- HCT
fn consistent(x: &Hct) {
    let y = Hct::from_int(x.to_int());
    check("consistent", x.get_hue() == y.get_hue() && x.get_chroma() == y.get_chroma() && x.get_tone() == y.get_tone());
}
fn fields() {
    hook("hct");
    let (h, c, t) = (f64_in("hue", 0.0, 360.0), f64_in("chroma", 0.0, 200.0), f64_in("tone", 0.0, 100.0));
    let x = Hct::from(h, c, t);
    consistent(&x);
    let argb = color_in("argb");
    let y = Hct::from_int(argb);
    check("argb kept", y.to_int() == argb);
    check("hue", y.get_hue() == Cam16::from_int(argb).hue);
    check("chroma", y.get_chroma() == Cam16::from_int(argb).chroma);
    consistent(&y);
    consistent(&y.clone());
}
fn setters(steps: usize) {
    hook("hct");
    let mut x = Hct::from_int(color_in("argb"));
    for k in 0..steps {
        let v = f64_in(&format!("v{}", k), 0.0, 100.0);
        let (h, c, t) = (x.get_hue(), x.get_chroma(), x.get_tone());
        let want = match choice(&format!("set{}", k), 3) {
            0 => {
                x.set_hue(v * 3.6);
                Hct::from(v * 3.6, c, t)
            }
            1 => {
                x.set_chroma(v);
                Hct::from(h, v, t)
            }
            _ => {
                x.set_tone(v);
                Hct::from(h, c, v)
            }
        };
        check("same as building it", x.to_int() == want.to_int());
        consistent(&x);
    }
}
