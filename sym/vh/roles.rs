//! hooks: hct keycolor contrast dislike
use super::api::*;
use super::util::*;
use crate::contrast::contrast::Contrast;
use crate::dynamiccolor::dynamic_color::DynamicColor;
use crate::dynamiccolor::dynamic_scheme::DynamicScheme;
use crate::dynamiccolor::material_dynamic_colors::MaterialDynamicColors as M;
use crate::dynamiccolor::variant::Variant;
use crate::hct::hct::Hct;
use crate::palettes::tonal_palette::TonalPalette;

type Role = fn() -> DynamicColor;
/// minimum contrast at levels -1, 0, 0.5, 1 (linear in between)
type Need = [f64; 4];
const TEXT: Need = [4.5, 7.0, 11.0, 21.0];
const SOFT: Need = [3.0, 4.5, 7.0, 11.0];
const ACCENT: Need = [3.0, 4.5, 7.0, 7.0];
const FILL: Need = [1.0, 1.0, 3.0, 4.5];

pub const REG: &[(&str, fn())] = &[
    ("D01.on_plain/8", || on_pairs(0)),
    ("D01.on_mono/8", || on_pairs(1)),
    ("D01.on_fidelity/8", || on_pairs(3)),
    ("D01.on_fidelity_primary/10", || on_pair(2, 0)),
    ("D01.on_fidelity_tertiary/10", || on_pair(2, 2)),
    ("D01.on_fidelity_primary_container/20", || on_pair(4, 4)),
    ("D01.on_fidelity_tertiary_container/20", || on_pair(4, 6)),
    ("D01.T_on_fidelity_secondary_container", || on_pair(3, 5)),
    ("D01.T_on_fidelity_primary_container/10", || on_pair(2, 4)),
    ("D01.T_on_fidelity_tertiary_container/10", || on_pair(2, 6)),
    ("D01.on_fixed_fidelity/6", || on_fixed(3)),
    ("D01.on_fixed_plain/6", || on_fixed(0)),
    ("D01.on_fixed_mono/6", || on_fixed(1)),
    ("D05.surfaces_plain/15", || surfaces(0)),
    ("D05.surfaces_mono/15", || surfaces(1)),
    ("D05.surfaces_fidelity/15", || surfaces(3)),
    ("D05.surfaces_fidelity_primary/10", || surface(2, 4)),
    ("D05.surfaces_fidelity_tertiary/10", || surface(2, 6)),
    ("D05.surfaces_fidelity_primary_container/10", || surface(2, 8)),
    ("D05.surfaces_fidelity_tertiary_container/10", || surface(2, 10)),
    ("D05.inverse", inverse),
    ("D07.fixed_tones/3", alone),
    ("D07.keys", keys),
    ("D07.text/16", text),
    ("D07.pairs/7", own_pairs),
    ("D07.source/10", source_tone),
    ("D07.tertiary", tertiary_tone),
    ("D07.secondary/4", || secondary_tone(part() + 4)),
    ("D07.T_secondary/10", || secondary_tone(part())),
    ("D02.pairs_plain/7", || pairs(0)),
    ("D02.pairs_mono/7", || pairs(1)),
    ("D02.pairs_fidelity/7", || pairs(3)),
    ("D02.pairs_fidelity_primary/10", || pair(2, 0)),
    ("D02.pairs_fidelity_tertiary/10", || pair(2, 2)),
];
fn need(n: &Need, level: f64) -> f64 {
    if level <= 0.0 {
        n[0] + (n[1] - n[0]) * (level + 1.0)
    } else if level <= 0.5 {
        n[1] + (n[2] - n[1]) * (level * 2.0)
    } else {
        n[2] + (n[3] - n[2]) * (level * 2.0 - 1.0)
    }
}
/// any contrast level, in slices (tighter bounds on everything computed from it)
fn level_in() -> f64 {
    level_of(choice("slice", 8))
}
fn level_of(slice: usize) -> f64 {
    -1.0 + 0.25 * slice as f64 + f64_in("level", 0.0, 0.25)
}
fn variants(kind: usize) -> Vec<Variant> {
    match kind {
        0 => vec![Variant::TonalSpot, Variant::Neutral, Variant::Vibrant, Variant::Expressive, Variant::Rainbow, Variant::FruitSalad],
        1 => vec![Variant::Monochrome],
        _ => vec![Variant::Fidelity, Variant::Content],
    }
}
/// the scheme in every variant of the kind
fn schemes(kind: usize, dark: bool, level: f64) -> Vec<DynamicScheme> {
    hook("keycolor");
    hook("contrast");
    let pal = |c: i64| TonalPalette::from_hct(&Hct::from_int(c));
    let argb = if kind == 2 || kind == 4 {
        hook("hct");
        hook("dislike");
        let w = if kind == 4 { 5.0 } else { 10.0 };
        let t = w * part() as f64 + f64_in("tone", 0.0, w);
        Hct::from(f64_in("hue", 0.0, 359.0), f64_in("chroma", 0.0, 100.0), t).to_int()
    } else {
        0xff6750a4
    };
    let mk = |v: Variant| {
        DynamicScheme::new(argb, v, Some(level), dark, pal(0xff6750a4), pal(0xff625b71), pal(0xff7d5260), pal(0xff79767d), pal(0xff787579))
    };
    variants(kind).into_iter().map(mk).collect()
}
/// the tone of a role: in range, and the same in every variant of the kind
fn tone(role: Role, ss: &[DynamicScheme]) -> f64 {
    let t = role().get_tone(&ss[0]);
    check("tone range", t >= 0.0 && t <= 100.0);
    for s in &ss[1..] {
        check("variants agree", role().get_tone(s) == t);
    }
    t
}
fn reaches(name: &str, f: f64, b: f64, want: f64) {
    let r = Contrast::ratio_of_tones(f, b);
    if r >= want - 1e-4 {
        return;
    }
    // not reachable against this background: black or white, whichever contrasts more
    let w = Contrast::ratio_of_tones(100.0, b);
    let k = Contrast::ratio_of_tones(0.0, b);
    check(name, r >= w - 0.1001 && r >= k - 0.1001);
}
// kinds: 0 plain, 1 monochrome, 2 fidelity with any source colour (its tone by tens: the parts),
// 3 fidelity with a fixed source colour (for roles that do not depend on it),
// 4 like 2 by fives, but two of the eight level slices, other ones for each five; 5 like 3, with two of them
fn on_pairs(kind: usize) {
    let k = part();
    if kind == 3 && (k == 0 || k == 2 || k == 4 || k == 6) {
        return check("see on_fidelity_*", true);
    }
    on_pair(if kind == 3 && k == 5 { 5 } else { kind }, k)
}
fn on_pair(kind: usize, k: usize) {
    let dark = choice("dark", 2) == 1;
    let table: Vec<(Role, Role)> = vec![
        (M::on_primary, M::primary),
        (M::on_secondary, M::secondary),
        (M::on_tertiary, M::tertiary),
        (M::on_error, M::error),
        (M::on_primary_container, M::primary_container),
        (M::on_secondary_container, M::secondary_container),
        (M::on_tertiary_container, M::tertiary_container),
        (M::on_error_container, M::error_container),
    ];
    let (fg, bg) = table[k];
    let level = if kind >= 4 { level_of((part() + choice("half", 2) * 4) % 8) } else { level_in() };
    let s = schemes(kind, dark, level);
    let b = tone(bg, &s);
    let f = tone(fg, &s);
    reaches("text on its fill", f, b, need(&TEXT, level));
}
fn on_fixed(kind: usize) {
    let dark = choice("dark", 2) == 1;
    let table: Vec<(Role, Role, Role, Need)> = vec![
        (M::on_primary_fixed, M::primary_fixed, M::primary_fixed_dim, TEXT),
        (M::on_secondary_fixed, M::secondary_fixed, M::secondary_fixed_dim, TEXT),
        (M::on_tertiary_fixed, M::tertiary_fixed, M::tertiary_fixed_dim, TEXT),
        (M::on_primary_fixed_variant, M::primary_fixed, M::primary_fixed_dim, SOFT),
        (M::on_secondary_fixed_variant, M::secondary_fixed, M::secondary_fixed_dim, SOFT),
        (M::on_tertiary_fixed_variant, M::tertiary_fixed, M::tertiary_fixed_dim, SOFT),
    ];
    let (fg, b1, b2, n) = table[part()];
    let level = level_in();
    let s = schemes(kind, dark, level);
    let (b1, b2) = (tone(b1, &s), tone(b2, &s));
    let f = tone(fg, &s);
    let want = need(&n, level) - 1e-4;
    if Contrast::ratio_of_tones(f, b1) >= want && Contrast::ratio_of_tones(f, b2) >= want {
        return;
    }
    check("text on both fixed fills", f == 0.0 || f == 100.0);
}
/// roles drawn on surfaces reach their contrast on every surface
fn surfaces(kind: usize) {
    let k = part();
    if kind == 3 && (k == 4 || k == 6 || k == 8 || k == 10) {
        return check("see surfaces_fidelity_*", true);
    }
    surface(kind, k)
}
fn surface(kind: usize, k: usize) {
    let dark = choice("dark", 2) == 1;
    let table: Vec<(Role, Need)> = vec![
        (M::on_surface, TEXT),
        (M::on_surface_variant, SOFT),
        (M::outline, [1.5, 3.0, 4.5, 7.0]),
        (M::outline_variant, FILL),
        (M::primary, ACCENT),
        (M::secondary, ACCENT),
        (M::tertiary, ACCENT),
        (M::error, ACCENT),
        (M::primary_container, FILL),
        (M::secondary_container, FILL),
        (M::tertiary_container, FILL),
        (M::error_container, FILL),
        (M::primary_fixed_dim, FILL),
        (M::secondary_fixed_dim, FILL),
        (M::tertiary_fixed_dim, FILL),
    ];
    let all: Vec<Role> = vec![
        M::background,
        M::surface,
        M::surface_dim,
        M::surface_bright,
        M::surface_container_lowest,
        M::surface_container_low,
        M::surface_container,
        M::surface_container_high,
        M::surface_container_highest,
    ];
    let (fg, n) = table[k];
    let level = level_in();
    let s = schemes(kind, dark, level);
    let f = tone(fg, &s);
    let want = need(&n, level);
    if n[0] == 1.0 {
        // fills promise their contrast against the surface they are nearest to only
        let bg = if dark { M::surface_bright } else { M::surface_dim };
        return reaches("on the nearest surface", f, tone(bg, &s), want);
    }
    for bg in all {
        reaches("on every surface", f, tone(bg, &s), want);
    }
}
fn inverse() {
    let dark = choice("dark", 2) == 1;
    let table: Vec<(Role, Role, Need)> = vec![
        (M::inverse_on_surface, M::inverse_surface, TEXT),
        (M::inverse_primary, M::inverse_surface, ACCENT),
        (M::on_background, M::background, [3.0, 3.0, 4.5, 7.0]),
    ];
    let (fg, bg, n) = table[choice("pair", 3)];
    let level = level_in();
    let s = schemes(choice("kind", 2), dark, level);
    reaches("inverse", tone(fg, &s), tone(bg, &s), need(&n, level));
}
// ---------------------------------------------------------------- tone distance
fn pairs(kind: usize) {
    let k = part();
    if kind == 3 && (k == 0 || k == 2) {
        return check("see pairs_fidelity_*", true);
    }
    pair(kind, k)
}
fn pair(kind: usize, k: usize) {
    let dark = choice("dark", 2) == 1;
    let table: Vec<(Role, Role)> = vec![
        (M::primary_container, M::primary),
        (M::secondary_container, M::secondary),
        (M::tertiary_container, M::tertiary),
        (M::error_container, M::error),
        (M::primary_fixed, M::primary_fixed_dim),
        (M::secondary_fixed, M::secondary_fixed_dim),
        (M::tertiary_fixed, M::tertiary_fixed_dim),
    ];
    let (a, b) = table[k];
    let level = level_in();
    let s = schemes(kind, dark, level);
    let (a, b) = (tone(a, &s), tone(b, &s));
    check("clear of the awkward zone", !(a >= 50.0 && a < 60.0) && !(b >= 50.0 && b < 60.0));
    // containers stay nearer to the surface than the accent; fixed fills are lighter than dim ones
    let d = if k >= 4 || !dark { a - b } else { b - a };
    check("ten tones apart", d >= 10.0 - 1e-9);
}
// ---------------------------------------------------------------- the tones themselves
/// roles that are drawn on nothing: their tones at every level (light, dark)
fn alone() {
    let kind = [0, 1, 3][part()];
    let dark = choice("dark", 2) == 1;
    let c = |x: f64| [x; 4];
    let table: Vec<(Role, Need, Need)> = vec![
        (M::background, c(98.0), c(6.0)),
        (M::surface, c(98.0), c(6.0)),
        (M::surface_dim, [87.0, 87.0, 80.0, 75.0], c(6.0)),
        (M::surface_bright, c(98.0), [24.0, 24.0, 29.0, 34.0]),
        (M::surface_container_lowest, c(100.0), [4.0, 4.0, 2.0, 0.0]),
        (M::surface_container_low, [96.0, 96.0, 96.0, 95.0], [10.0, 10.0, 11.0, 12.0]),
        (M::surface_container, [94.0, 94.0, 92.0, 90.0], [12.0, 12.0, 16.0, 20.0]),
        (M::surface_container_high, [92.0, 92.0, 88.0, 85.0], [17.0, 17.0, 21.0, 25.0]),
        (M::surface_container_highest, [90.0, 90.0, 84.0, 80.0], [22.0, 22.0, 26.0, 30.0]),
        (M::surface_variant, c(90.0), c(30.0)),
        (M::inverse_surface, c(20.0), c(90.0)),
        (M::shadow, c(0.0), c(0.0)),
        (M::scrim, c(0.0), c(0.0)),
        (M::surface_tint, c(40.0), c(80.0)),
    ];
    let (role, l, d) = table[choice("role", 14)];
    let level = level_in();
    let s = schemes(kind, dark, level);
    let want = need(if dark { &d } else { &l }, level);
    check("tone of the role", within(tone(role, &s), want, 1e-9));
}
/// the key colours of the palettes
fn keys() {
    hook("hct");
    hook("keycolor");
    let p: Vec<TonalPalette> = (0..5).map(|k| TonalPalette::of(f64_in(&format!("h{}", k), 0.0, 359.0), f64_in(&format!("c{}", k), 0.0, 100.0))).collect();
    let keys: Vec<f64> = p.iter().map(|x| x.key_color.get_tone()).collect();
    let v = vec![Variant::TonalSpot, Variant::Monochrome, Variant::Content].remove(choice("variant", 3));
    let level = f64_in("level", -1.0, 1.0);
    let s = DynamicScheme::new(0xff6750a4, v, Some(level), choice("dark", 2) == 1, p[0].clone(), p[1].clone(), p[2].clone(), p[3].clone(), p[4].clone());
    let roles: Vec<Role> = vec![M::primary_palette_key_color, M::secondary_palette_key_color, M::tertiary_palette_key_color, M::neutral_palette_key_color, M::neutral_variant_palette_key_color];
    let k = choice("role", 5);
    check("key colour", roles[k]().get_tone(&s) == keys[k]);
}
/// from level 0 upwards a role keeps its own tone as long as that reaches the contrast
fn text() {
    let dark = choice("dark", 2) == 1;
    let mono = choice("mono", 2) == 1;
    let p = |l: f64, d: f64| [l, d, l, d];
    type Row = (Role, Vec<Role>, Need, [f64; 4]);
    let surface: Role = if dark { M::surface_bright } else { M::surface_dim };
    let table: Vec<Row> = vec![
        (M::on_background, vec![M::background], [3.0, 3.0, 4.5, 7.0], p(10.0, 90.0)),
        (M::on_surface, vec![surface], TEXT, p(10.0, 90.0)),
        (M::on_surface_variant, vec![surface], SOFT, p(30.0, 80.0)),
        (M::outline, vec![surface], [1.5, 3.0, 4.5, 7.0], p(50.0, 60.0)),
        (M::outline_variant, vec![surface], FILL, p(80.0, 30.0)),
        (M::inverse_on_surface, vec![M::inverse_surface], TEXT, p(95.0, 20.0)),
        (M::inverse_primary, vec![M::inverse_surface], ACCENT, p(80.0, 40.0)),
        (M::on_primary, vec![M::primary], TEXT, [100.0, 20.0, 90.0, 10.0]),
        (M::on_secondary, vec![M::secondary], TEXT, [100.0, 20.0, 100.0, 10.0]),
        (M::on_tertiary, vec![M::tertiary], TEXT, [100.0, 20.0, 90.0, 10.0]),
        (M::on_error, vec![M::error], TEXT, p(100.0, 20.0)),
        (M::on_primary_container, vec![M::primary_container], TEXT, [10.0, 90.0, 100.0, 0.0]),
        (M::on_secondary_container, vec![M::secondary_container], TEXT, p(10.0, 90.0)),
        (M::on_tertiary_container, vec![M::tertiary_container], TEXT, [10.0, 90.0, 100.0, 0.0]),
        (M::on_error_container, vec![M::error_container], TEXT, p(10.0, 90.0)),
        (M::on_primary_fixed, vec![M::primary_fixed, M::primary_fixed_dim], TEXT, [10.0, 10.0, 100.0, 100.0]),
        (M::on_secondary_fixed, vec![M::secondary_fixed, M::secondary_fixed_dim], TEXT, p(10.0, 10.0)),
        (M::on_tertiary_fixed, vec![M::tertiary_fixed, M::tertiary_fixed_dim], TEXT, [10.0, 10.0, 100.0, 100.0]),
        (M::on_primary_fixed_variant, vec![M::primary_fixed, M::primary_fixed_dim], SOFT, [30.0, 30.0, 90.0, 90.0]),
        (M::on_secondary_fixed_variant, vec![M::secondary_fixed, M::secondary_fixed_dim], SOFT, [30.0, 30.0, 25.0, 25.0]),
        (M::on_tertiary_fixed_variant, vec![M::tertiary_fixed, M::tertiary_fixed_dim], SOFT, [30.0, 30.0, 90.0, 90.0]),
    ];
    let k = part() + 16 * choice("row", 2);
    if k >= table.len() {
        return;
    }
    let (role, bgs, n, own) = &table[k];
    let own = own[2 * mono as usize + dark as usize];
    let level = level_of(4 + choice("slice", 4));
    let s = schemes(mono as usize, dark, level);
    let t = tone(*role, &s);
    let want = need(n, level);
    if bgs.iter().all(|b| Contrast::ratio_of_tones(own, tone(*b, &s)) >= want + 1e-6) {
        check("keeps its own tone", t == own);
    }
}
/// likewise for the pairs, as long as both reach their contrast and keep their distance
fn own_pairs() {
    let dark = choice("dark", 2) == 1;
    let mono = choice("mono", 2) == 1;
    // light, dark, monochrome light, monochrome dark
    let box_ = [90.0, 30.0, 90.0, 30.0];
    let ink = [40.0, 80.0, 40.0, 80.0];
    let table: Vec<(Role, [f64; 4], Role, [f64; 4], Need)> = vec![
        (M::primary_container, [90.0, 30.0, 25.0, 85.0], M::primary, [40.0, 80.0, 0.0, 100.0], ACCENT),
        (M::secondary_container, [90.0, 30.0, 85.0, 30.0], M::secondary, ink, ACCENT),
        (M::tertiary_container, [90.0, 30.0, 49.0, 60.0], M::tertiary, [40.0, 80.0, 25.0, 90.0], ACCENT),
        (M::error_container, box_, M::error, ink, ACCENT),
        (M::primary_fixed, [90.0, 90.0, 40.0, 40.0], M::primary_fixed_dim, [80.0, 80.0, 30.0, 30.0], FILL),
        (M::secondary_fixed, [90.0, 90.0, 80.0, 80.0], M::secondary_fixed_dim, [80.0, 80.0, 70.0, 70.0], FILL),
        (M::tertiary_fixed, [90.0, 90.0, 40.0, 40.0], M::tertiary_fixed_dim, [80.0, 80.0, 30.0, 30.0], FILL),
    ];
    let k = part();
    let (ra, a, rb, b, n) = table[k];
    let v = 2 * mono as usize + dark as usize;
    let (a, b) = (a[v], b[v]);
    let level = level_of(4 + choice("slice", 4));
    let s = schemes(mono as usize, dark, level);
    let bg = tone(if dark { M::surface_bright } else { M::surface_dim }, &s);
    let d = if k >= 4 || !dark { a - b } else { b - a };
    if d >= 10.0 && Contrast::ratio_of_tones(a, bg) >= need(&FILL, level) + 1e-6 && Contrast::ratio_of_tones(b, bg) >= need(&n, level) + 1e-6 {
        check("first keeps its own tone", tone(ra, &s) == a);
        check("second keeps its own tone", tone(rb, &s) == b);
    }
}
/// Fidelity and Content: the primary container has the tone of the source colour
fn source_tone() {
    let dark = choice("dark", 2) == 1;
    let level = level_of(4 + choice("slice", 4));
    let s = schemes(2, dark, level);
    let t = s[0].source_color_hct.get_tone();
    for x in &s {
        check("primary container's own tone", (M::primary_container().tone)(x) == t);
    }
    let bg = tone(if dark { M::surface_bright } else { M::surface_dim }, &s);
    let ink = if dark { 80.0 } else { 40.0 };
    let d = if dark { ink - t } else { t - ink };
    // (a hair more than ten, for the rounding of the difference)
    if d >= 10.0 + 1e-6 && !(t >= 50.0 && t < 60.0) && Contrast::ratio_of_tones(t, bg) >= need(&FILL, level) + 1e-6 && Contrast::ratio_of_tones(ink, bg) >= need(&ACCENT, level) + 1e-6 {
        check("source tone kept", tone(M::primary_container, &s) == t);
        check("primary kept", tone(M::primary, &s) == ink);
    }
}
/// ... the tertiary container that tone, or the one that makes it liked
fn tertiary_tone() {
    hook("hct");
    hook("keycolor");
    hook("dislike");
    let p = |k: usize| TonalPalette::of(f64_in(&format!("h{}", k), 0.0, 359.0), f64_in(&format!("c{}", k), 0.0, 100.0));
    let v = vec![Variant::Fidelity, Variant::Content].remove(choice("variant", 2));
    let s = DynamicScheme::new(color_in("argb"), v, Some(f64_in("level", -1.0, 1.0)), choice("dark", 2) == 1, p(0), p(1), p(2), p(3), p(4));
    let x = s.tertiary_palette.get_hct(s.source_color_hct.get_tone());
    let want = crate::dislike::dislike_analyzer::DislikeAnalyzer::fix_if_disliked(&x).get_tone();
    check("tertiary container's own tone", (M::tertiary_container().tone)(&s) == want);
}
/// ... and the secondary container the first tone, from 90 down or 30 up, at which its palette's
/// chroma is reached to within 0.4 or begins to fall (over a gamut with one cusp)
fn secondary_tone(k: usize) {
    hook("hct");
    hook("keycolor");
    option("cusp", 8 + 9 * k);
    let dark = choice("dark", 2) == 1;
    let v = vec![Variant::Fidelity, Variant::Content].remove(k % 2);
    let (h, c) = (f64_in("hue", 0.0, 359.0), f64_in("chroma", 60.0, 131.5));
    let q = |k: usize| TonalPalette::of(k as f64, 10.0);
    let s = DynamicScheme::new(0xff6750a4, v, Some(0.0), dark, q(1), TonalPalette::of(h, c), q(2), q(3), q(4));
    let got = (M::secondary_container().tone)(&s);
    let chroma = |t: f64| Hct::from(h, c, t).get_chroma();
    let step = if dark { 1.0 } else { -1.0 };
    let mut t = if dark { 30.0 } else { 90.0 };
    let mut last = chroma(t);
    if last < c {
        loop {
            t += step;
            let now = chroma(t);
            assume(!within(now, c - 0.4, 1e-6) && (now == last || !within(now, last, 1e-6)));
            if now < last || now > c - 0.4 {
                break;
            }
            last = now;
        }
    }
    check("secondary container's own tone", got == t);
}
