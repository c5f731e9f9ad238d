//! hooks: hct keycolor
use super::api::*;
use super::util::*;
use crate::dynamiccolor::dynamic_scheme::DynamicScheme;
use crate::dynamiccolor::variant::Variant;
use crate::hct::hct::Hct;
use crate::palettes::core_palette::CorePalette;
use crate::palettes::tonal_palette::TonalPalette;
use std::hash::{Hash, Hasher};
use crate::utils::string_utils::StringUtils;

pub const REG: &[(&str, fn())] = &[
    ("U01.write", write),
    ("U01.read", read),
    ("U01.round_trip", round_trip),
    ("U01.not_a_number", not_a_number),
    ("E01.colors", colors),
    ("E01.variants", variants),
    ("E01.palettes", palettes),
    ("E01.lists/7", lists),
    ("E01.mixed/7", mixed),
    ("E01.schemes", schemes),
    ("E01.used", used),
    ("E01.cores", cores),
    ("E01.zeros", zeros),
];
/// six digits, the colour's, capital letters
fn is_color(name: &str, t: &str, r: i64, g: i64, b: i64) {
    let c: Vec<char> = t.chars().collect();
    check(name, c.len() == 6);
    let want = [r / 16, r % 16, g / 16, g % 16, b / 16, b % 16];
    for k in 0..6 {
        let d = char_digit(c[k]);
        check(name, d == want[k]);
        if c[k].is_ascii_lowercase() {
            check("capital letters", d < 10);
        }
    }
}
fn write() {
    let a = i64_in("alpha", 0, 255);
    let (r, g, b) = (i64_in("red", 0, 255), i64_in("green", 0, 255), i64_in("blue", 0, 255));
    let c = a * 16777216 + r * 65536 + g * 256 + b;
    let k = choice("hash", 3);
    let t = StringUtils::hex_from_argb(c, [None, Some(true), Some(false)][k]);
    let body = match t.strip_prefix('#') {
        Some(x) => {
            check("no hash sign unless asked for", k < 2);
            x.to_string()
        }
        None => {
            check("hash sign", k == 2);
            t.clone()
        }
    };
    is_color("red, green, blue", &body, r, g, b);
}
fn read() {
    let n = 1 + choice("digits", 8);
    let d: Vec<i64> = (0..n).map(|k| i64_in(&format!("d{}", k), 0, 15)).collect();
    let upper = choice("upper", 2) == 1;
    let mut t = String::new();
    if choice("hash", 2) == 1 {
        t.push('#');
    }
    let mut v = 0;
    for x in &d {
        t.push(digit_char(*x, upper));
        v = v * 16 + *x;
    }
    check("number", StringUtils::argb_from_hex(t) == Some(v));
}
fn round_trip() {
    let c = color_in("c");
    let t = StringUtils::hex_from_argb(c, [None, Some(false)][choice("hash", 2)]);
    check("same colour", StringUtils::argb_from_hex(t.clone()) == Some(c - 0xff000000));
    check("and opaque", StringUtils::argb_from_hex(format!("FF{}", t.trim_start_matches('#'))) == Some(c));
}
/// one character is no hexadecimal digit
fn not_a_number() {
    let n = choice("digits", 7);
    let at = choice("at", n + 1);
    let mut t = String::from(["", "#"][choice("hash", 2)]);
    for k in 0..=n {
        if k == at {
            t.push([' ', '.', 'x', '/', ':', '@', '`', '\u{e4}', '_'][choice("what", 9)]);
        } else {
            t.push(digit_char(i64_in(&format!("d{}", k), 0, 15), true));
        }
    }
    check("refused", StringUtils::argb_from_hex(t) == None);
}
// ---------------------------------------------------------------- equality and hashing
/// everything a value feeds to a hasher
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed<T: Hash>(x: &T) -> Vec<u8> {
    let mut f = Fed::default();
    x.hash(&mut f);
    f.0
}
/// equality is symmetric, as expected, and equal values hash equally
fn agree<T: Hash + Eq>(what: &str, a: &T, b: &T, same: bool) {
    let e = a == b;
    check(what, e == same);
    check("symmetric", (b == a) == e);
    if e {
        check("equal values hash equally", fed(a) == fed(b));
    }
    check("equal to itself", a == a);
}
fn colors() {
    hook("hct");
    let (a, b) = (i64_in("a", 0xff000000, 0xffffffff), i64_in("b", 0xff000000, 0xffffffff));
    agree("same colour", &Hct::from_int(a), &Hct::from_int(b), a == b);
    // a colour found for coordinates and the same colour given as ARGB
    let h = Hct::from(f64_in("hue", 0.0, 360.0), f64_in("chroma", 0.0, 150.0), f64_in("tone", 0.0, 100.0));
    agree("same colour, found", &h, &Hct::from_int(h.to_int()), true);
}
fn variant(k: usize) -> Variant {
    match k {
        0 => Variant::Monochrome,
        1 => Variant::Neutral,
        2 => Variant::TonalSpot,
        3 => Variant::Vibrant,
        4 => Variant::Expressive,
        5 => Variant::Content,
        6 => Variant::Fidelity,
        7 => Variant::Rainbow,
        _ => Variant::FruitSalad,
    }
}
fn variants() {
    let (i, j) = (choice("i", 9), choice("j", 9));
    agree("same variant", &variant(i), &variant(j), i == j);
}
fn hc(name: &str) -> (f64, f64) {
    (f64_in(&format!("hue {}", name), 0.0, 360.0), f64_in(&format!("chroma {}", name), 0.0, 150.0))
}
fn palettes() {
    hook("hct");
    hook("keycolor");
    let (x, y) = (hc("a"), hc("b"));
    let (mut a, b) = (TonalPalette::of(x.0, x.1), TonalPalette::of(y.0, y.1));
    let same = x.0 == y.0 && x.1 == y.1;
    agree("same palette", &a, &b, same);
    // what was asked before makes no difference
    a.get(i64_in("tone", 0, 100));
    agree("same palette after use", &a, &b, same);
}
/// a palette, the list of its colours, and that list with one colour replaced; are they the same
fn listed() -> (TonalPalette, Vec<i64>, Vec<i64>, bool) {
    hook("hct");
    hook("keycolor");
    let (h, c) = [(270.0, 36.0), (25.0, 84.0), (0.0, 0.0), (359.5, 200.0), (120.0, 48.0), (140.0, 8.0), (60.0, 16.0)][part()];
    let mut of = TonalPalette::of(h, c);
    let l: Vec<i64> = TonalPalette::COMMON_TONES.iter().map(|t| of.get(*t)).collect();
    let k = choice("slot", 13);
    let mut m = l.clone();
    m[k] = i64_in("color", 0xff000000, 0xffffffff);
    let same = m[k] == l[k];
    (of, l, m, same)
}
fn lists() {
    let (_, l, m, same) = listed();
    agree("same list", &TonalPalette::from_list(&l), &TonalPalette::from_list(&m), same);
}
/// made from a hue and chroma, or from a list: the colours decide
fn mixed() {
    let (of, _, m, same) = listed();
    let b = TonalPalette::from_list(&m);
    check("same colours", (of == b) == same);
    check("symmetric", (b == of) == same);
    if same {
        check("a palette of a hue and chroma and the list of its colours hash equally", fed(&of) == fed(&b));
    }
}
/// any hue and chroma in the k-th of six bands (different bands keep the parts of a value apart)
fn band(name: &str, k: usize) -> (f64, f64) {
    let (i, j) = (50.0 * k as f64, 8.0 * k as f64);
    (f64_in(&format!("{} hue {}", name, k), 60.0 + i, 109.0 + i), f64_in(&format!("{} chroma {}", name, k), 2.0 + j, 9.0 + j))
}
fn scheme(name: &str, v: usize, dark: bool) -> (DynamicScheme, [f64; 12]) {
    let argb = i64_in(&format!("{} source", name), 0xff000000, 0xffffffff);
    let level = f64_in(&format!("{} level", name), -1.0, 1.0);
    let p: Vec<(f64, f64)> = (0..5).map(|k| band(name, k)).collect();
    let t = |k: usize| TonalPalette::of(p[k].0, p[k].1);
    let s = DynamicScheme::new(argb, variant(v), Some(level), dark, t(0), t(1), t(2), t(3), t(4));
    (s, [argb as f64, level, p[0].0, p[0].1, p[1].0, p[1].1, p[2].0, p[2].1, p[3].0, p[3].1, p[4].0, p[4].1])
}
fn schemes() {
    hook("hct");
    hook("keycolor");
    let (i, j) = (choice("i", 9), choice("other", 2));
    let j = (i + 4 * j) % 9;
    let (d, e) = (choice("dark", 2) == 1, choice("dark 2", 2) == 1);
    let (a, x) = scheme("a", i, d);
    let (b, y) = scheme("b", j, e);
    let mut same = i == j && d == e;
    for k in 0..12 {
        same = same && x[k] == y[k];
    }
    agree("same scheme", &a, &b, same);
}
/// what was asked of the palettes of a scheme makes no difference
fn used() {
    hook("hct");
    hook("keycolor");
    let (mut a, _) = scheme("a", choice("i", 9), choice("dark", 2) == 1);
    let b = a.clone();
    let tone = i64_in("tone", 0, 100);
    let p = match choice("palette", 6) {
        0 => &mut a.primary_palette,
        1 => &mut a.secondary_palette,
        2 => &mut a.tertiary_palette,
        3 => &mut a.neutral_palette,
        4 => &mut a.neutral_variant_palette,
        _ => &mut a.error_palette,
    };
    p.get(tone);
    p.get_hct(f64_in("fraction", 0.0, 100.0));
    agree("same scheme after use", &a, &b, true);
}
fn cores() {
    hook("hct");
    hook("keycolor");
    let make = |name: &str| {
        let mut c = CorePalette::of(0xff336699);
        let p: Vec<(f64, f64)> = (0..6).map(|k| band(name, k)).collect();
        let t = |k: usize| TonalPalette::of(p[k].0, p[k].1);
        (c.primary, c.secondary, c.tertiary, c.neutral, c.neutral_variant, c.error) = (t(0), t(1), t(2), t(3), t(4), t(5));
        (c, p)
    };
    let ((a, x), (b, y)) = (make("a"), make("b"));
    let mut same = true;
    for k in 0..6 {
        same = same && x[k].0 == y[k].0 && x[k].1 == y[k].1;
    }
    agree("same palettes", &a, &b, same);
}
/// the two zeros are equal
fn zeros() {
    hook("hct");
    let z = [0.0, -0.0];
    let (i, j) = (choice("i", 2), choice("j", 2));
    agree("hue", &TonalPalette::of(z[i], 20.0), &TonalPalette::of(z[j], 20.0), true);
    agree("chroma", &TonalPalette::of(20.0, z[i]), &TonalPalette::of(20.0, z[j]), true);
    let t = || TonalPalette::of(200.0, 20.0);
    let s = |k: usize| DynamicScheme::new(0xff112233, Variant::Content, Some(z[k]), false, t(), t(), t(), t(), t());
    agree("level", &s(i), &s(j), true);
}
