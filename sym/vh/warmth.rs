//! hooks: wheel
use super::api::*;
use super::util::*;
use crate::hct::hct::Hct;
use crate::temperature::temperature_cache::TemperatureCache;

pub const REG: &[(&str, fn())] = &[
    ("T01.between", between),
    ("T01.complement/12", complement),
    ("T01.T_complement/24", complement),
    ("T01.analogous/10", analogous),
    ("T01.T_analogous/24", analogous),
    ("T01.relative/8", relative),
    ("T01.flat/2", flat),
];
/// coldest and warmest hue, hue of the input (in half degrees), its temperature above the coldest
/// (in thousandths of which the warmest has 1700)
const CASES: [(usize, usize, usize, usize); 24] = [
    (250, 60, 10, 300),
    (250, 60, 240, 1500),
    (60, 250, 10, 300),
    (60, 250, 241, 850),
    (0, 180, 719, 100),
    (180, 0, 719, 1600),
    (359, 100, 718, 40),
    (100, 359, 1, 900),
    (300, 20, 0, 800),
    (20, 300, 0, 1200),
    (90, 91, 700, 20),
    (91, 90, 700, 1650),
    (0, 359, 360, 500),
    (359, 0, 361, 700),
    (200, 30, 400, 30),
    (200, 30, 60, 1640),
    (120, 240, 239, 10),
    (120, 240, 481, 1640),
    (10, 200, 399, 400),
    (350, 170, 339, 400),
    (45, 225, 90, 200),
    (45, 225, 450, 1300),
    (260, 70, 717, 1000),
    (5, 355, 3, 600),
];
struct World {
    cache: TemperatureCache,
    wheel: Vec<Hct>,
    temp: Vec<f64>,
    own: f64,
    /// index on the wheel of the coldest and the warmest
    cold: usize,
    warm: usize,
}
fn world(k: usize) -> World {
    hook("wheel");
    let (cold, warm, hue, t) = CASES[k];
    option("cold", cold);
    option("warm", warm);
    option("half hue", hue);
    option("temperature", t);
    let c = 0xff000000 + i64_in("r", 16, 255) * 65536 + i64_in("g", 0, 255) * 256 + i64_in("b", 0, 255);
    let input = Hct::from_int(c);
    let wheel: Vec<Hct> = (0..360).map(|h| Hct::from(h as f64, input.get_chroma(), input.get_tone())).collect();
    let temp: Vec<f64> = wheel.iter().map(|h| TemperatureCache::raw_temperature(h)).collect();
    let own = TemperatureCache::raw_temperature(&input);
    let (mut cold, mut warm) = (0, 0);
    for h in 0..360 {
        if temp[h] < temp[cold] {
            cold = h;
        }
        if temp[h] > temp[warm] {
            warm = h;
        }
    }
    assume(own > temp[cold] && own < temp[warm]);
    World { cache: TemperatureCache::new(input), wheel, temp, own, cold, warm }
}
fn complement() {
    let mut w = world(part());
    let range = w.temp[w.warm] - w.temp[w.cold];
    let want = 1.0 - (w.own - w.temp[w.cold]) / range;
    // hues, on the wheel, of the coldest and the warmest
    let (c, m) = (w.wheel[w.cold].get_hue(), w.wheel[w.warm].get_hue());
    let span = |a: f64, b: f64| if b >= a { b - a } else { b - a + 360.0 };
    let h = w.cache.input.get_hue();
    let d = span(c, h);
    let rising = d <= span(c, m);
    // clearly on one of the sides
    assume(within(d, span(c, m) / 2.0, span(c, m) / 2.0 - 0.001) || within(d - span(c, m), span(m, c) / 2.0, span(m, c) / 2.0 - 0.001));
    let (from, to) = if rising { (m, c) } else { (c, m) };
    let got = w.cache.get_complement();
    let mut best = 1000.0;
    let mut err = 1000.0;
    let mut found = false;
    for k in 0..360 {
        let e = want - (w.temp[k] - w.temp[w.cold]) / range;
        let e = if e < 0.0 { -e } else { e };
        let (p, q) = (span(from, k as f64), span(from, to));
        if p <= q - 1.0 && p >= 1.0 && e < best {
            best = e;
        }
        if w.wheel[k].to_int() == got.to_int() && (p <= q + 1.0 || p >= 359.0) {
            found = true;
            if e < err {
                err = e;
            }
        }
    }
    check("a colour of the same chroma and tone on the other side", found);
    check("nearest to the opposite temperature", err <= best + 1e-9);
    check("asked again", w.cache.get_complement().to_int() == got.to_int());
}
fn analogous() {
    let mut w = world(part());
    let (count, divisions) = [(5, 12), (3, 6), (4, 12), (7, 5), (1, 8), (2, 3), (6, 24), (9, 4)][choice("shape", 8)];
    let start = (w.cache.input.get_hue() + 0.5).floor() as usize % 360;
    let mut cum = vec![0.0];
    let mut steep = 0.0;
    for a in 1..=360 {
        let d = w.temp[(start + a) % 360] - w.temp[(start + a - 1) % 360];
        let d = if d < 0.0 { -d } else { d };
        if d > steep {
            steep = d;
        }
        cum.push(cum[a - 1] + d);
    }
    let step = cum[359] / divisions as f64;
    assume(steep < step * 0.9);
    let got = w.cache.analogous(Some(count), Some(divisions));
    check("as many as asked for", got.len() == count as usize);
    let own = (count as usize - 1) / 2;
    check("the colour itself in the middle", got[own].to_int() == w.cache.input.to_int());
    for (k, g) in got.iter().enumerate() {
        if k == own {
            continue;
        }
        let j = (k as i64 - own as i64).rem_euclid(divisions) as usize;
        let mut ok = false;
        if j == 0 {
            ok = g.to_int() == w.wheel[start].to_int();
        }
        for a in 1..=360 {
            let goal = j as f64 * step;
            if j > 0 && cum[a] >= goal - 1e-9 && cum[a - 1] < goal + 1e-9 {
                ok |= g.to_int() == w.wheel[(start + a) % 360].to_int();
            }
        }
        check("an equal share of the temperature change further on", ok);
    }
}
/// black and white have one temperature at every hue
fn flat() {
    let c = [0xff000000, 0xffffffff][part()];
    let mut t = TemperatureCache::new(Hct::from_int(c));
    let count = i64_in("count", 1, 4);
    for k in 1..5 {
        if count == k {
            let a = t.analogous(Some(k), Some(12));
            check("as many as asked for", a.len() == k as usize);
            check("nothing but the colour itself", a.iter().all(|x| x.to_int() == c));
        }
    }
    check("half of no range", t.get_input_relative_temperature() == 0.5);
    let x = t.input.clone();
    check("half of no range, for any of its colours", t.relative_temperature(&x) == 0.5);
    check("its own complement", t.get_complement().to_int() == c);
}
fn relative() {
    let mut w = world(part() * 3);
    let range = w.temp[w.warm] - w.temp[w.cold];
    check("coldest", w.cache.get_coldest().to_int() == w.wheel[w.cold].to_int());
    check("warmest", w.cache.get_warmest().to_int() == w.wheel[w.warm].to_int());
    let r = w.cache.get_input_relative_temperature();
    check("share of the range", near(r, (w.own - w.temp[w.cold]) / range));
    check("asked again", w.cache.get_input_relative_temperature() == r);
    for k in [0, w.cold, w.warm, 77, 359] {
        let h = w.wheel[k].clone();
        check("of a colour on the wheel", near(w.cache.relative_temperature(&h), (w.temp[k] - w.temp[w.cold]) / range));
    }
    let all = w.cache.get_hcts_by_temp();
    check("all colours", all.len() >= 361);
    let mut seen = false;
    for k in 0..all.len() {
        if k > 0 {
            check("coldest first", TemperatureCache::raw_temperature(&all[k - 1]) <= TemperatureCache::raw_temperature(&all[k]));
        }
        seen |= all[k].to_int() == w.cache.input.to_int();
    }
    check("the colour itself among them", seen);
}
// ---------------------------------------------------------------- temperature
fn between() {
    let (a, b, x) = (f64_in("a", 0.0, 360.0), f64_in("b", 0.0, 360.0), f64_in("angle", 0.0, 360.0));
    assume(a < 360.0 && b < 360.0 && x < 360.0 && a != b);
    // clockwise from a to b
    let cw = |from: f64, to: f64| if to >= from { to - from } else { to - from + 360.0 };
    let (p, q) = (cw(a, x), cw(a, b));
    assume(x == a || x == b || p < q - 1e-9 || p > q + 1e-9);
    check("between", TemperatureCache::is_between(x, a, b) == (x == a || x == b || p < q));
}
