//! hooks: lab
use super::api::*;
use super::util::*;
use crate::quantize::quantizer::{Quantizer, QuantizerResult};
use crate::quantize::quantizer_celebi::QuantizerCelebi;
use crate::quantize::quantizer_map::QuantizerMap;
use crate::quantize::quantizer_wsmeans::QuantizerWsmeans;
use crate::quantize::quantizer_wu::{Box as Cube, Direction, QuantizerWu};
use crate::utils::color_utils::ColorUtils;
use std::collections::HashMap;

pub const REG: &[(&str, fn())] = &[
    ("Q02.means/8", || means(0)),
    ("Q02.T_means/12", || means(1)),
    ("Q02.nearest/6", nearest),
    ("Q02.T_nearest/12", nearest),
    ("Q02.nearest3/18", nearest3),
    ("Q02.one", one),
    ("Q02.many/8", many),
    ("Q03.index", index),
    ("Q03.sums/12", sums),
    ("Q03.boxes/36", boxes),
    ("Q03.best/9", best),
    ("Q03.next/9", next),
    ("Q03.crowded/6", crowded),
    ("Q04.order/6", || order(false)),
    ("Q04.T_order/6", || order(true)),
];
// ---------------------------------------------------------------- k-means
fn conserved(px: &[i64], distinct: usize, max: i64, r: &QuantizerResult) {
    let n = px.len();
    let found = r.color_to_count.len();
    check("no more colours than asked for", found as i64 <= max && found <= distinct && found >= 1);
    let mut sum = 0;
    for (_, v) in r.color_to_count.iter() {
        check("every colour stands for pixels", *v >= 1);
        sum += *v;
    }
    check("no pixel counted twice", sum <= n as i64);
    if found as i64 == max || found == distinct {
        check("every pixel counted", sum == n as i64);
    }
    let mut mapped: HashMap<i64, i64> = HashMap::new();
    for k in 0..n {
        let m = r.input_pixel_to_cluster_pixel.get(&px[k]).copied();
        check("every pixel has a colour of the result", m.is_some() && r.color_to_count.get(&m.unwrap()).is_some());
        if let Some(m) = m {
            *mapped.entry(m).or_insert(0) += 1;
        }
    }
    for (c, v) in r.color_to_count.iter() {
        let m = mapped.get(c).copied().unwrap_or(0);
        check("counts agree with the mapping", *v <= m && (sum < n as i64 || *v == m));
    }
}
/// colours of an image's pixels, the most to be found, how many to start from, rounds
const IMAGES: [(&[usize], i64, usize, i64); 12] = [
    (&[0, 1], 1, 0, 5),
    (&[0, 1], 2, 2, 2),
    (&[0, 0, 1], 2, 0, 2),
    (&[0, 1, 1], 1, 1, 5),
    (&[0, 1, 0], 4, 1, 2),
    (&[0, 1, 2], 2, 0, 1),
    (&[0, 1, 2, 1], 2, 2, 1),
    (&[0, 1, 2, 3, 3, 0], 1, 1, 5),
    (&[0, 1, 2], 3, 1, 1),
    (&[0, 1, 2, 2, 0], 3, 3, 1),
    (&[0, 1, 2, 3], 2, 2, 1),
    (&[0, 1, 2, 3], 3, 2, 1),
];
fn means(more: i64) {
    hook("lab");
    hook("distance");
    let p = part();
    let (image, max, starts, iterations) = IMAGES[p];
    option("axis", p % 3);
    let distinct = image.iter().max().unwrap() + 1;
    let colors: Vec<i64> = (0..distinct).map(|k| color_in(&format!("c{}", k))).collect();
    for k in 0..distinct {
        for j in 0..k {
            assume(colors[j] != colors[k]);
        }
    }
    let px: Vec<i64> = image.iter().map(|k| colors[*k]).collect();
    let start: Vec<i64> = (0..starts).map(|k| color_in(&format!("start{}", k))).collect();
    let r = QuantizerWsmeans::quantize(&px, max, Some(&start), None, Some(iterations + more), Some(true));
    conserved(&px, distinct, max, &r);
}
/// one round from two starting colours: every pixel goes to the nearer one, which moves to the
/// average of its pixels
fn nearest() {
    hook("lab");
    let p = part();
    option("axis", p % 3);
    let image: &[usize] = [&[0usize, 1][..], &[0, 1, 1], &[0, 1, 2], &[0, 1, 2, 2]][p / 3];
    let distinct = image.iter().max().unwrap() + 1;
    let colors: Vec<i64> = (0..distinct).map(|k| color_in(&format!("c{}", k))).collect();
    let starts: Vec<i64> = (0..2).map(|k| color_in(&format!("start{}", k))).collect();
    sent(image, &colors, &starts);
}
/// three starting colours, grays of given tones
fn nearest3() {
    hook("lab");
    option("axis", 0);
    let p = part();
    let g = [0xff1b1b1b, 0xff777777, 0xff919191];
    let starts: Vec<i64> = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p % 6].iter().map(|k: &usize| g[*k]).collect();
    let free = p / 6;
    let colors: Vec<i64> = (0..3).map(|k| if k == free { color_in("c") } else { [0xff222222, 0xff808080, 0xff8a8a8a][(k + p) % 3] }).collect();
    sent(&[0, 1, 2], &colors, &starts);
}
/// one round sends every pixel to the nearest of the starting colours
fn sent(image: &[usize], colors: &[i64], starts: &Vec<i64>) {
    let distinct = colors.len();
    for k in 0..distinct {
        for j in 0..k {
            assume(colors[j] != colors[k]);
        }
    }
    let lab = |c: i64| ColorUtils::lab_from_argb(c);
    let dist = |a: &Vec<f64>, b: &Vec<f64>| (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]);
    let s: Vec<Vec<f64>> = starts.iter().map(|c| lab(*c)).collect();
    let x: Vec<Vec<f64>> = colors.iter().map(|c| lab(*c)).collect();
    let side: Vec<usize> = x
        .iter()
        .map(|v| {
            let mut g = 0;
            for k in 1..s.len() {
                let (d, e) = (dist(v, &s[g]), dist(v, &s[k]));
                assume(d < e - 0.001 || e < d - 0.001);
                if e < d {
                    g = k;
                }
            }
            g
        })
        .collect();
    let px: Vec<i64> = image.iter().map(|k| colors[*k]).collect();
    let r = QuantizerWsmeans::quantize(&px, starts.len() as i64, Some(starts), None, Some(1), Some(true));
    let mut want = vec![];
    for g in 0..s.len() {
        let (mut n, mut m) = (0, vec![0.0; 3]);
        for k in image {
            if side[*k] == g {
                n += 1;
                for d in 0..3 {
                    m[d] += x[*k][d];
                }
            }
        }
        if n > 0 {
            let f = n as f64;
            want.push(Some((n, ColorUtils::argb_from_lab(m[0] / f, m[1] / f, m[2] / f))));
        } else {
            want.push(None);
        }
    }
    // natively the last bits may tip a channel over
    let alike = |a: i64, b: i64| {
        if SYMBOLIC {
            return a == b;
        }
        [0, 8, 16].into_iter().all(|k: i64| ((a >> k) & 255) - ((b >> k) & 255) <= 1 && ((b >> k) & 255) - ((a >> k) & 255) <= 1)
    };
    for k in 0..distinct {
        let got = r.input_pixel_to_cluster_pixel.get(&colors[k]).copied();
        check("goes to the average of the pixels nearest to the same start", got.is_some() && alike(got.unwrap(), want[side[k]].unwrap().1));
    }
    let made: Vec<(i64, i64)> = want.iter().flatten().copied().collect();
    for (i, a) in made.iter().enumerate() {
        for b in &made[..i] {
            if !SYMBOLIC && alike(a.1, b.1) || a.1 == b.1 {
                return;
            }
        }
    }
    check("a colour for each", r.color_to_count.len() == made.len());
    for w in want.iter().flatten() {
        let mut n = 0;
        for (c, v) in r.color_to_count.iter() {
            if alike(*c, w.1) {
                n += *v;
            }
        }
        check("as many as it has pixels", n == w.0);
    }
}
fn one() {
    hook("lab");
    option("axis", choice("axis", 3));
    let c = color_in("color");
    let n = 1 + choice("pixels", 4);
    let s = color_in("start");
    let start = if choice("started", 2) == 0 { vec![] } else { vec![s] };
    let r = QuantizerWsmeans::quantize(&vec![c; n], 4, Some(&start), None, None, Some(true));
    check("a single colour is kept", r.color_to_count.len() == 1 && r.color_to_count.get(&c).copied() == Some(n as i64));
    check("mapped to itself", r.input_pixel_to_cluster_pixel.len() == 1 && r.input_pixel_to_cluster_pixel.get(&c).copied() == Some(c));
    let r = QuantizerWsmeans::quantize(&vec![c; n], 4, Some(&start), None, None, None);
    check("mapping only on demand", r.input_pixel_to_cluster_pixel.is_empty());
}
/// larger images: pixels, the most colours to find, how many of the pixels to start from
const LARGER: [(&[i64], i64, usize); 8] = [
    (&[0xff000000, 0xff0000ff, 0xff00ff00, 0xffff0000, 0xffffffff, 0xffffff00, 0xff00ffff], 8, 7),
    (&[0xff000000, 0xff0000ff, 0xff00ff00, 0xffff0000, 0xffffffff, 0xffffff00, 0xff00ffff], 8, 0),
    (&[0xff102030, 0xff102031, 0xff405060, 0xff405161, 0xff8090a0, 0xff8090a1, 0xffc0d0e0, 0xffc0d0e0], 5, 5),
    (&[0xffff0000, 0xffff0000, 0xffff0000, 0xff00ff00, 0xff00ff00, 0xff0000ff, 0xffff00ff, 0xff808080], 6, 4),
    (&[0xff123456, 0xff654321, 0xffabcdef, 0xfffedcba, 0xff112233, 0xff332211, 0xff223311, 0xff113322, 0xff444444], 7, 3),
    (&[0xffff8040, 0xff4080ff, 0xff40ff80, 0xff8040ff, 0xff80ff40, 0xffff8040, 0xffff8040, 0xff4080ff], 16, 0),
    (&[0xff101010, 0xff202020, 0xff303030, 0xff404040, 0xffa05050, 0xff60a060], 7, 6),
    (&[0xff000000, 0xffffffff, 0xff808080, 0xffff0000, 0xff400000, 0xff004000, 0xff000040], 4, 6),
];
/// an image of which one pixel may have any colour on a stretch of one axis
fn many() {
    hook("lab");
    let p = part();
    let (px, max, starts) = LARGER[p];
    option("axis", p % 3);
    option("lab from", 20 + 5 * p);
    option("lab to", 28 + 5 * p);
    let mut all = px.to_vec();
    let free = color_in("free");
    for c in px {
        assume(free != *c);
    }
    all.insert(p % px.len(), free);
    let mut distinct: Vec<i64> = px.to_vec();
    distinct.sort();
    distinct.dedup();
    let start: Vec<i64> = all[..starts].to_vec();
    let r = QuantizerWsmeans::quantize(&all, max, Some(&start), None, None, Some(true));
    conserved(&all, distinct.len() + 1, max, &r);
}
// ---------------------------------------------------------------- histogram and boxes
fn index() {
    let v: Vec<i64> = ["r", "g", "b", "R", "G", "B"].iter().map(|k| i64_in(k, 0, 32)).collect();
    let (a, b) = (QuantizerWu::get_index(v[0], v[1], v[2]), QuantizerWu::get_index(v[3], v[4], v[5]));
    check("in the table", a >= 0 && a < 35937);
    if a == b {
        check("one cell, one place", v[0] == v[3] && v[1] == v[4] && v[2] == v[5]);
    }
}
/// cells of the pixels of a case (0-based, 32 to a side)
const CELLS: [[(i64, i64, i64); 3]; 12] = [
    [(0, 0, 0), (31, 31, 31), (16, 16, 16)],
    [(0, 0, 0), (0, 0, 1), (0, 0, 2)],
    [(5, 5, 5), (5, 6, 5), (5, 7, 5)],
    [(31, 0, 0), (0, 31, 0), (0, 0, 31)],
    [(31, 31, 31), (30, 31, 31), (31, 30, 31)],
    [(10, 20, 30), (10, 20, 30), (10, 20, 30)],
    [(1, 2, 3), (1, 2, 3), (3, 2, 1)],
    [(15, 16, 15), (16, 15, 16), (15, 15, 15)],
    [(0, 31, 15), (31, 0, 15), (15, 15, 0)],
    [(7, 8, 9), (8, 8, 9), (9, 8, 9)],
    [(20, 0, 0), (20, 0, 31), (20, 31, 0)],
    [(31, 31, 31), (31, 31, 30), (0, 0, 0)],
];
/// pixels anywhere in their cells
fn pixels(cells: &[(i64, i64, i64)]) -> Vec<(i64, i64, i64)> {
    cells
        .iter()
        .enumerate()
        .map(|(k, c)| {
            let v = |n: &str, base: i64| i64_in(&format!("{}{}", n, k), base * 8, base * 8 + 7);
            (v("r", c.0), v("g", c.1), v("b", c.2))
        })
        .collect()
}
fn argb(p: &(i64, i64, i64)) -> i64 {
    0xff000000 + p.0 * 65536 + p.1 * 256 + p.2
}
fn sums() {
    let cells = &CELLS[part()];
    let px = pixels(cells);
    let n: Vec<i64> = (0..3).map(|k| i64_in(&format!("count{}", k), 1, 1000000)).collect();
    let mut m: HashMap<i64, i64> = HashMap::new();
    for k in 0..3 {
        for j in 0..k {
            assume(argb(&px[j]) != argb(&px[k]));
        }
        m.insert(argb(&px[k]), n[k]);
    }
    let mut w = QuantizerWu::new();
    w.construct_histogram(m);
    w.compute_moments();
    for (lo, hi) in [((0, 0, 0), (32, 32, 32)), ((0, 0, 0), (16, 32, 32)), ((10, 0, 5), (32, 20, 31)), ((5, 5, 5), (6, 7, 6)), ((15, 15, 15), (16, 17, 17)), ((20, 0, 31), (32, 32, 32)), ((0, 0, 1), (1, 1, 2)), ((30, 30, 0), (31, 32, 32))] {
        let (lo, hi): ((i64, i64, i64), (i64, i64, i64)) = (lo, hi);
        let cube = Cube::new(Some(lo.0), Some(hi.0), Some(lo.1), Some(hi.1), Some(lo.2), Some(hi.2), Some(0));
        let (mut s, mut r, mut g, mut b, mut q) = (0, 0, 0, 0, 0);
        let (mut cr, mut cg, mut cb) = (0, 0, 0);
        let at = ((lo.0 + hi.0) / 2, (lo.1 + hi.1) / 2, (lo.2 + hi.2) / 2);
        for k in 0..3 {
            let c = cells[k];
            if c.0 < lo.0 || c.0 >= hi.0 || c.1 < lo.1 || c.1 >= hi.1 || c.2 < lo.2 || c.2 >= hi.2 {
                continue;
            }
            s += n[k];
            r += px[k].0 * n[k];
            g += px[k].1 * n[k];
            b += px[k].2 * n[k];
            q += (px[k].0 * px[k].0 + px[k].1 * px[k].1 + px[k].2 * px[k].2) * n[k];
            if c.0 < at.0 {
                cr += n[k];
            }
            if c.1 < at.1 {
                cg += n[k];
            }
            if c.2 < at.2 {
                cb += n[k];
            }
        }
        let _ = q;
        check("pixels in the box", QuantizerWu::volume(cube.clone(), w.weights.clone()) == s);
        check("their red", QuantizerWu::volume(cube.clone(), w.moments_r.clone()) == r);
        check("their green", QuantizerWu::volume(cube.clone(), w.moments_g.clone()) == g);
        check("their blue", QuantizerWu::volume(cube.clone(), w.moments_b.clone()) == b);
        for (d, at, want) in [(Direction::Red, at.0, cr), (Direction::Green, at.1, cg), (Direction::Blue, at.2, cb)] {
            let half = QuantizerWu::bottom(cube.clone(), d.clone(), w.weights.clone()) + QuantizerWu::top(cube.clone(), d, at, w.weights.clone());
            check("pixels on one side", half == want);
        }
    }
}
/// one channel of each pixel is free within its cell
fn boxes() {
    let cells = &CELLS[part() / 3];
    let free = part() % 3;
    let mut px = vec![];
    let n = [1, 3, 2];
    let mut m: HashMap<i64, i64> = HashMap::new();
    for (k, c) in cells.iter().enumerate() {
        // apart even in the same cell
        let at = |d: usize, base: i64| base * 8 + if d == free { i64_in(&format!("p{}", k), 0, 7) } else { 2 * k as i64 + 1 };
        let p = (at(0, c.0), at(1, c.1), at(2, c.2));
        m.insert(argb(&p), n[k]);
        px.push(p);
    }
    let max = 1 + choice("max", 4) as i64;
    let mut w = QuantizerWu::new();
    w.construct_histogram(m);
    w.compute_moments();
    let count = w.create_boxes(max).result_count;
    check("no more boxes than asked for", count >= 1 && count <= max);
    let got = w.create_result(count);
    let mut used = [0; 3];
    let mut full = 0;
    for b in &w.cubes[..count as usize] {
        let (mut s, mut r, mut g, mut u) = (0, 0, 0, 0);
        for k in 0..3 {
            let c = cells[k];
            if c.0 >= b.r0 && c.0 < b.r1 && c.1 >= b.g0 && c.1 < b.g1 && c.2 >= b.b0 && c.2 < b.b1 {
                used[k] += 1;
                s += n[k];
                r += px[k].0 * n[k];
                g += px[k].1 * n[k];
                u += px[k].2 * n[k];
            }
        }
        if s == 0 {
            continue;
        }
        check("a colour for every box with pixels", full < got.len());
        let c = got[full];
        full += 1;
        check("opaque", c >= 0xff000000 && c <= 0xffffffff);
        for (x, sum) in [((c >> 16) & 255, r), ((c >> 8) & 255, g), (c & 255, u)] {
            let d = x * s - sum;
            check("the average of its pixels, rounded", 2 * d >= -s && 2 * d <= s);
        }
    }
    check("no colour without pixels", full == got.len());
    for k in 0..3 {
        check("every pixel in one box", used[k] == 1);
    }
    let apart = (0..3).filter(|k| !cells[..*k].contains(&cells[*k])).count();
    check("as many colours as asked for, or one for every cell", full == apart.min(max as usize));
}
/// sum of squared distances of weighted values from their average, times the weight
fn spread(v: &[(i64, i64)]) -> (i64, i64) {
    let n: i64 = v.iter().map(|x| x.1).sum();
    let s: i64 = v.iter().map(|x| x.0 * x.1).sum();
    let q: i64 = v.iter().map(|x| x.0 * x.0 * x.1).sum();
    (q * n - s * s, n)
}
fn on_axis(axis: usize, v: i64) -> i64 {
    0xff000000 + [v * 65536 + 20 * 256 + 12, 20 * 65536 + v * 256 + 12, 20 * 65536 + 12 * 256 + v][axis]
}
/// three colours in a row, cut once: where the two parts vary least
fn best() {
    let axis = part() % 3;
    let cells = [[3, 9, 16], [0, 1, 2], [10, 20, 31]][part() / 3];
    let n = [[1, 3, 2], [2, 1, 2], [3, 4, 3]][part() / 3];
    let v: Vec<i64> = (0..3).map(|k| cells[k] * 8 + i64_in(&format!("p{}", k), 0, 7)).collect();
    let mut m: HashMap<i64, i64> = HashMap::new();
    for k in 0..3 {
        m.insert(on_axis(axis, v[k]), n[k]);
    }
    let mut w = QuantizerWu::new();
    w.construct_histogram(m);
    w.compute_moments();
    let all = Cube::new(Some(0), Some(32), Some(0), Some(32), Some(0), Some(32), Some(0));
    let (s, weight) = spread(&[(v[0], n[0]), (v[1], n[1]), (v[2], n[2])]);
    check("variance", within(w.variance(all) * weight as f64, s as f64, weight as f64 + 1e-3));
    w.create_boxes(2);
    let b = w.cubes[0].clone();
    let edge = [b.r1, b.g1, b.b1][axis];
    check("cut between two of them", edge > cells[0] && edge <= cells[2]);
    let (x, nx) = spread(&[(v[0], n[0]), (v[1], n[1])]);
    let (y, ny) = spread(&[(v[1], n[1]), (v[2], n[2])]);
    // ties to within rounding are left out
    let d = x * ny - y * nx;
    if d > 1 {
        check("the nearer two together", edge <= cells[1]);
    }
    if d < -1 {
        check("the nearer two together", edge > cells[1]);
    }
}
/// a cell crowded with pixels of two colours, which cannot be cut, does not keep the others together
fn crowded() {
    let axis = part() % 3;
    let cells = [[2, 2, 20, 23, 24], [30, 30, 1, 2, 9]][part() / 3];
    let n = [200, 200, 1, 1, 1];
    let mut m: HashMap<i64, i64> = HashMap::new();
    let mut v = vec![];
    for k in 0..5 {
        let x = if k < 2 { i64_in(&format!("p{}", k), 0, 7) } else { 3 };
        v.push(cells[k] * 8 + x);
    }
    assume(v[0] != v[1]);
    for k in 0..5 {
        m.insert(on_axis(axis, v[k]), n[k]);
    }
    let max = 1 + choice("max", 6);
    let mut w = QuantizerWu::new();
    w.construct_histogram(m);
    w.compute_moments();
    let count = w.create_boxes(max as i64).result_count;
    check("no more boxes than asked for", count >= 1 && count <= max as i64);
    check("as many colours as asked for, or one for every cell", w.create_result(count).len() == max.min(4));
}
/// two pairs of colours far apart and three boxes: the pair that varies more is cut
fn next() {
    let axis = part() % 3;
    let cells = [[0, 3, 27, 30], [2, 4, 29, 31], [1, 2, 30, 31]][part() / 3];
    let n = [[1, 1, 1, 1], [1, 3, 2, 2], [2, 1, 1, 1]][part() / 3];
    let v: Vec<i64> = (0..4).map(|k| cells[k] * 8 + i64_in(&format!("p{}", k), 0, 7)).collect();
    let mut m: HashMap<i64, i64> = HashMap::new();
    for k in 0..4 {
        m.insert(on_axis(axis, v[k]), n[k]);
    }
    let mut w = QuantizerWu::new();
    w.construct_histogram(m);
    w.compute_moments();
    let count = w.create_boxes(3).result_count;
    check("three boxes", count == 3);
    let together = |i: usize, j: usize| {
        w.cubes.iter().any(|b| {
            let (lo, hi) = [(b.r0, b.r1), (b.g0, b.g1), (b.b0, b.b1)][axis];
            let inside = |c: i64| c >= lo && c < hi;
            inside(cells[i]) && inside(cells[j])
        })
    };
    check("the pairs apart", !together(1, 2));
    let (x, nx) = spread(&[(v[0], n[0]), (v[1], n[1])]);
    let (y, ny) = spread(&[(v[2], n[2]), (v[3], n[3])]);
    // a difference of less than 1 is left out
    let d = x * ny - y * nx;
    if d > nx * ny {
        check("the pair that varies more is cut", !together(0, 1) && together(2, 3));
    }
    if d < -nx * ny {
        check("the pair that varies more is cut", together(0, 1) && !together(2, 3));
    }
}
// ---------------------------------------------------------------- order of hash maps
/// pixels of an image; the first is free within its cell
const ORDER: [(&[i64], i64); 6] = [
    (&[0xff102030, 0xff405060, 0xff8090a0, 0xffc0d0e0], 3),
    (&[0xffff0000, 0xff00ff00, 0xff0000ff, 0xff204060], 3),
    (&[0xff103010, 0xff301850, 0xff502020, 0xff287028, 0xff80a080], 3),
    (&[0xff123456, 0xff654321, 0xffabcdef, 0xfffedcba], 2),
    (&[0xffff8040, 0xff4080ff, 0xff40ff80, 0xff8040ff, 0xff80ff40], 4),
    (&[0xff000000, 0xffffffff, 0xff808080, 0xffff0000, 0xff400000], 3),
];
fn order(all_orders: bool) {
    hook("lab");
    let p = part();
    option("axis", p % 3);
    let (px, max) = ORDER[p];
    option("lab from", 20 + 8 * p);
    option("lab to", 28 + 8 * p);
    let mut all = px.to_vec();
    all[0] = all[0] - all[0] % 8 + i64_in("free", 0, 7);
    let same = |a: &QuantizerResult, b: &QuantizerResult| {
        check("same number of colours", a.color_to_count.len() == b.color_to_count.len());
        for (c, v) in a.color_to_count.iter() {
            check("same colours and counts", b.color_to_count.get(c).copied() == Some(*v));
        }
    };
    let a = QuantizerCelebi {}.quantize(&all, max, None);
    option("perm_maps", if all_orders { max as usize } else { 0 });
    option("reverse_maps", 1);
    for _ in 0..if SYMBOLIC { 1 } else { 12 } {
        let b = QuantizerCelebi {}.quantize(&all, max, None);
        option("perm_maps", 0);
        option("reverse_maps", 0);
        same(&a, &b);
    }
}
