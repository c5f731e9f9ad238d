//! hooks: hct ucs
use super::api::*;
use super::util::*;
use crate::blend::blend::Blend;
use crate::dislike::dislike_analyzer::DislikeAnalyzer;
use crate::hct::cam16::Cam16;
use crate::hct::hct::Hct;
use crate::quantize::quantizer::Quantizer;
use crate::quantize::quantizer_map::QuantizerMap;
use crate::score::score::Score;
use crate::utils::color_utils::ColorUtils;
use std::collections::HashMap;

pub const REG: &[(&str, fn())] = &[
    ("B01.harmonize", harmonize),
    ("B01.hct_hue", hct_hue),
    ("B01.ucs", ucs),
    ("B02.disliked", disliked),
    ("B02.fixed", fixed),
    ("Q01.counts", || counts(3)),
    ("Q01.T_counts", || counts(4)),
    ("R01.two/22", two),
    ("R01.two_unfiltered/8", two_unfiltered),
    ("R01.spread/20", spread),
    ("R01.T_spread/24", spread),
    ("R01.T_three/18", three),
];
// ---------------------------------------------------------------- blending
/// the colour asked for with (almost) this hue, and exactly this chroma and tone
fn asked(name: &str, got: i64, hue: f64, chroma: f64, tone: f64) {
    if SYMBOLIC {
        let n = calls("solve");
        check(name, n > 0);
        let k = n - 1;
        check(name, call_i("solve", k, 3) == got);
        let d = call_f("solve", k, 0) - hue;
        check(name, within(d, 0.0, 1e-6) || within(d, 360.0, 1e-6) || within(d, -360.0, 1e-6));
        check(name, within(call_f("solve", k, 1), chroma, 1e-6));
        check(name, within(call_f("solve", k, 2), tone, 1e-6));
    } else {
        let mut any = false;
        for e in [0.0, 1e-9, -1e-9, 1e-7, -1e-7] {
            any |= Hct::from(hue + e, chroma, tone).to_int() == got;
        }
        check(name, any);
    }
}
fn arc(a: f64, b: f64) -> f64 {
    let d = if a > b { a - b } else { b - a };
    if d > 180.0 {
        360.0 - d
    } else {
        d
    }
}
/// b seen from a: positive clockwise, in (-180, 180]
fn turn(a: f64, b: f64) -> f64 {
    let d = b - a;
    if d > 180.0 {
        d - 360.0
    } else if d < -180.0 {
        d + 360.0
    } else {
        d
    }
}
fn harmonize() {
    hook("hct");
    let (a, b) = (color_in("design"), color_in("source"));
    let (x, y) = (Hct::from_int(a), Hct::from_int(b));
    let d = turn(x.get_hue(), y.get_hue());
    // opposite hues: either direction
    assume(within(d, 0.0, 179.999999));
    let got = Blend::harmonize(a, b);
    let step = d * 0.5;
    let step = if step > 15.0 { 15.0 } else if step < -15.0 { -15.0 } else { step };
    asked("hue turned, chroma and tone kept", got, x.get_hue() + step, x.get_chroma(), x.get_tone());
}
fn ucs_point(a: i64, b: i64, amount: f64) -> (f64, f64, f64) {
    let (p, q) = (Cam16::from_int(a), Cam16::from_int(b));
    (p.jstar + (q.jstar - p.jstar) * amount, p.astar + (q.astar - p.astar) * amount, p.bstar + (q.bstar - p.bstar) * amount)
}
fn ucs() {
    hook("hct");
    hook("ucs");
    let (a, b) = (color_in("from"), color_in("to"));
    let amount = if choice("end", 2) == 0 { f64_in("amount", 0.0, 1.0) } else { [0.0, 1.0][choice("which", 2)] };
    let got = Blend::cam16_ucs(a, b, amount);
    blended(got, ucs_point(a, b, amount));
}
fn blended(got: i64, w: (f64, f64, f64)) {
    if SYMBOLIC {
        let n = calls("ucs");
        check("blended", n > 0);
        for (k, v) in [w.0, w.1, w.2].into_iter().enumerate() {
            check("on the line between", within(call_f("ucs", n - 1, k), v, 1e-6));
        }
        let m = calls("cam to int");
        check("converted", m > 0 && call_i("cam to int", m - 1, 1) == got && call_i("cam to int", m - 1, 0) == call_i("ucs", n - 1, 3));
    } else {
        let mut any = false;
        for e in [0.0, 1e-9, -1e-9] {
            any |= Cam16::from_ucs(w.0 + e, w.1 + e, w.2 + e).to_int() == got;
        }
        check("on the line between", any);
    }
}
fn hct_hue() {
    hook("hct");
    hook("ucs");
    let (a, b) = (color_in("from"), color_in("to"));
    let amount = f64_in("amount", 0.0, 1.0);
    let mixed = Blend::cam16_ucs(a, b, amount);
    let got = Blend::hct_hue(a, b, amount);
    let x = Hct::from_int(a);
    asked("hue of the blend, own chroma and tone", got, Cam16::from_int(mixed).hue, x.get_chroma(), x.get_tone());
}
// ---------------------------------------------------------------- disliked colours
fn clear(x: f64) -> bool {
    let y = x + 0.5;
    let f = y - y.floor();
    f > 1e-6 && f < 1.0 - 1e-6
}
fn disliked() {
    hook("hct");
    let x = Hct::from_int(color_in("color"));
    let (h, c, t) = (x.get_hue(), x.get_chroma(), x.get_tone());
    assume(clear(h) && clear(c) && clear(t));
    let want = h > 89.5 && h < 111.5 && c > 16.5 && t < 64.5;
    check("dark yellow-green that is not neutral", DislikeAnalyzer::is_disliked(&x) == want);
}
fn fixed() {
    hook("hct");
    let a = color_in("color");
    let x = Hct::from_int(a);
    let y = DislikeAnalyzer::fix_if_disliked(&x);
    if DislikeAnalyzer::is_disliked(&x) {
        check("lighter, same hue and chroma", y.to_int() == Hct::from(x.get_hue(), x.get_chroma(), 70.0).to_int());
        check("lighter", y.get_tone() > x.get_tone());
    } else {
        check("left alone", y.to_int() == a && y.get_hue() == x.get_hue() && y.get_chroma() == x.get_chroma() && y.get_tone() == x.get_tone());
    }
    check("not disliked any more", !DislikeAnalyzer::is_disliked(&y));
}
// ---------------------------------------------------------------- counting colours
fn counts(n: usize) {
    option("perm_maps", 3);
    let px: Vec<i64> = (0..n).map(|k| i64_in(&format!("p{}", k), 0, 0xffffffff)).collect();
    let r = QuantizerMap {}.quantize(&px, 16, None);
    let mut total = 0;
    let mut opaque = 0;
    for k in 0..n {
        let mut same = 0;
        for j in 0..n {
            if px[j] == px[k] {
                same += 1;
            }
        }
        if px[k] >= 0xff000000 {
            opaque += 1;
            check("counted", r.color_to_count.get(&px[k]).copied() == Some(same));
        } else {
            check("transparent left out", r.color_to_count.get(&px[k]).is_none());
        }
    }
    for (_, v) in r.color_to_count.iter() {
        total += *v;
    }
    check("nothing else", total == opaque);
}
// ---------------------------------------------------------------- ranking colours
/// a colour whose appearance has its hue in [slot, slot + 1) and any chroma
fn in_slot(k: usize, slot: i64) -> i64 {
    let h = f64_in(&format!("hue{}", k), slot as f64, slot as f64 + 1.0);
    let c = f64_in(&format!("chroma{}", k), 0.0, 100.0);
    let t = f64_in(&format!("tone{}", k), 30.0, 70.0);
    let argb = Hct::from(h, c, t).to_int();
    let hue = Hct::from_int(argb).get_hue();
    assume(hue >= slot as f64 && hue < slot as f64 + 1.0);
    argb
}
fn ranking(slots: &[i64], desired: i64, filter: bool) {
    hook("hct");
    option("perm_maps", 3);
    let colors: Vec<i64> = slots.iter().enumerate().map(|(k, s)| in_slot(k, *s)).collect();
    let n = colors.len();
    for k in 0..n {
        assume(colors[k] != 0xff4285f5);
        for j in 0..k {
            assume(colors[k] != colors[j]);
        }
    }
    // any division of a given total
    let total = 1000000;
    let mut pops: Vec<i64> = (0..n - 1).map(|k| i64_in(&format!("population{}", k), 1, total - n as i64 + 1)).collect();
    let rest = pops.iter().fold(total, |a, b| a - *b);
    assume(rest >= 1);
    pops.push(rest);
    let mut m: HashMap<i64, i64> = HashMap::new();
    for k in 0..n {
        m.insert(colors[k], pops[k]);
    }
    let fallback = 0xff4285f5;
    let got = Score::score(&m, Some(desired), Some(fallback), Some(filter));
    check("never empty", !got.is_empty());
    check("no more than asked for", got.len() as i64 <= desired);
    // share of the population around each colour, and its score
    let hcts: Vec<Hct> = colors.iter().map(|c| Hct::from_int(*c)).collect();
    let sum: f64 = pops.iter().fold(0, |a, b| a + *b) as f64;
    let mut suitable = vec![];
    let mut score = vec![];
    for k in 0..n {
        let near = if hcts[k].get_hue() >= slots[k] as f64 + 0.5 { (slots[k] + 1) % 360 } else { slots[k] };
        let mut around = 0;
        for j in 0..n {
            let d = (near - slots[j] + 540) % 360 - 180;
            if d >= -14 && d <= 15 {
                around = around + pops[j];
            }
        }
        let share = around as f64 / sum;
        assume(!within(share, 0.01, 1e-9));
        let c = hcts[k].get_chroma();
        suitable.push(!filter || c >= 5.0 && share > 0.01);
        score.push(share * 70.0 + (c - 48.0) * if c < 48.0 { 0.1 } else { 0.3 });
    }
    let place = |k: usize| -> Option<usize> {
        for (i, g) in got.iter().enumerate() {
            if *g == colors[k] {
                return Some(i);
            }
        }
        None
    };
    let places: Vec<Option<usize>> = (0..n).map(|k| place(k)).collect();
    let known = places.iter().filter(|p| p.is_some()).count();
    if known == 0 {
        check("fallback", got.len() == 1 && got[0] == fallback);
        for k in 0..n {
            check("fallback only if nothing is suitable", !suitable[k]);
        }
        return;
    }
    check("only colours given, once each", known == got.len());
    for k in 0..n {
        if let Some(i) = places[k] {
            check("suitable", suitable[k]);
            for j in 0..n {
                if let Some(l) = places[j] {
                    if i < l {
                        check("best first", score[k] >= score[j] - 1e-6);
                        check("hues apart", arc(hcts[k].get_hue(), hcts[j].get_hue()) >= 15.0 - 1e-9);
                    }
                }
            }
        } else if suitable[k] {
            // left out: the list is full or a chosen colour is too similar
            let mut similar = false;
            for j in 0..n {
                similar |= places[j].is_some() && arc(hcts[k].get_hue(), hcts[j].get_hue()) < 15.0 + 1e-9;
            }
            check("left out for a reason", similar || got.len() as i64 >= desired);
            if places.iter().all(|p| *p != Some(0)) {
                continue;
            }
            for j in 0..n {
                if places[j] == Some(0) {
                    check("the best is never left out", score[j] >= score[k] - 1e-6);
                }
            }
        }
    }
}
/// colours in a given order of merit, the best first: the hues returned are as far apart as can be
fn spread() {
    hook("hct");
    option("perm_maps", 3);
    let p = part();
    let slots: Vec<i64> = vec![
        vec![10, 40, 100, 190],
        vec![0, 17, 33, 60],
        vec![350, 5, 20, 80],
        vec![100, 190, 280, 10],
        vec![200, 180, 160, 140],
        vec![90, 104, 121, 100],
        vec![300, 20, 55, 345],
        vec![40, 128, 217, 306],
        vec![5, 355, 50, 95],
        vec![120, 240, 359, 60],
        vec![0, 30, 60, 90, 120],
        vec![250, 265, 281, 296, 310],
    ][p / 2].clone();
    let desired = if p / 2 < 10 { 2 + p % 2 } else { 3 + p % 2 } as i64;
    let n = slots.len();
    let mut m: HashMap<i64, i64> = HashMap::new();
    let (mut colors, mut hues, mut score) = (vec![], vec![], vec![]);
    let pops = [5000, 4000, 3100, 2300, 1700];
    for k in 0..n {
        let s = slots[k] as f64;
        let argb = Hct::from(f64_in(&format!("hue{}", k), s, s + 1.0), 20.0, f64_in(&format!("tone{}", k), 45.0, 65.0)).to_int();
        let x = Hct::from_int(argb);
        assume(x.get_chroma() >= 18.0 && x.get_chroma() <= 22.0);
        assume(x.get_hue() >= s && x.get_hue() < s + 1.0);
        for c in &colors {
            assume(argb != *c);
        }
        colors.push(argb);
        hues.push(x.get_hue());
        score.push(x.get_chroma() * 0.1);
        m.insert(argb, pops[k]);
    }
    let total = (0..n).fold(0, |a, k| a + pops[k]) as f64;
    for k in 0..n {
        let near = if hues[k] >= slots[k] as f64 + 0.5 { (slots[k] + 1) % 360 } else { slots[k] };
        for j in 0..n {
            let d = (near - slots[j] + 540) % 360 - 180;
            if d >= -14 && d <= 15 {
                score[k] = score[k] + 70.0 * (pops[j] as f64 / total);
            }
        }
    }
    let mut order: Vec<usize> = vec![];
    for k in 0..n {
        let mut at = order.len();
        while at > 0 && score[k] > score[order[at - 1]] {
            at -= 1;
        }
        order.insert(at, k);
    }
    for w in order.windows(2) {
        assume(score[w[0]] > score[w[1]] + 1e-6);
    }
    // whole degrees between each two, not counting those on the verge
    let mut apart = vec![vec![0; n]; n];
    for k in 0..n {
        for j in 0..k {
            let a = arc(hues[k], hues[j]);
            let f = a.floor();
            assume(a > f + 1e-6 && a < f + 1.0 - 1e-6);
            apart[k][j] = f as i64;
            apart[j][k] = f as i64;
        }
    }
    let mut want: Vec<i64> = vec![];
    let mut d = 90;
    while d >= 15 {
        let mut chosen: Vec<usize> = vec![];
        for k in &order {
            if (chosen.len() as i64) < desired && chosen.iter().all(|j| apart[*k][*j] >= d) {
                chosen.push(*k);
            }
        }
        want = chosen.iter().map(|k| colors[*k]).collect();
        if want.len() as i64 == desired {
            break;
        }
        d -= 1;
    }
    let got = Score::score(&m, Some(desired), None, None);
    check("as far apart as can be", got == want);
}
fn two() {
    let s = [[0, 0], [10, 24], [10, 25], [10, 26], [350, 5], [359, 13], [30, 120], [0, 180], [359, 14], [359, 344], [10, 355]];
    let p = part();
    ranking(&s[p / 2], [1, 3][p % 2], true);
}
fn two_unfiltered() {
    let s = [[0, 0], [10, 25], [350, 5], [30, 120]];
    let p = part();
    ranking(&s[p / 2], [1, 2][p % 2], false);
}
fn three() {
    let s = [[0, 20, 40], [100, 114, 128], [350, 4, 20], [0, 120, 240], [10, 11, 200], [0, 89, 179]];
    let p = part();
    ranking(&s[p / 3], [1, 2, 3][p % 3], p % 2 == 0);
}
