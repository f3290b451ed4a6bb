//! C02: vertices keep count, order and position within the requested tolerance.
use crate::engine::*;
use crate::ensure;
use crate::util::*;

fn d(a: V3, b: V3) -> f64 {
    let f = |x: f32, y: f32| (x as f64 - y as f64).powi(2);
    (f(a.0, b.0) + f(a.1, b.1) + f(a.2, b.2)).sqrt()
}
/// Shortest non-degenerate edge of the full triangles; 0.1 if there is none.
pub fn shortest(s: &Snap) -> f64 {
    let mut m = f64::INFINITY;
    if let (Some(v), Some(t)) = (&s.v, &s.vt) {
        for t in t.chunks_exact(3) {
            for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                let e = d(v[t[a] as usize], v[t[b] as usize]);
                if e > 0.0 {
                    m = m.min(e)
                }
            }
        }
    }
    if m.is_finite() {
        m
    } else {
        0.1
    }
}
/// Largest coordinate or extent.
fn magnitude(v: &[V3]) -> f64 {
    let mut m = 0f64;
    for i in 0..3 {
        let c = |p: &V3| [p.0, p.1, p.2][i] as f64;
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for p in v {
            lo = lo.min(c(p));
            hi = hi.max(c(p));
            m = m.max(c(p).abs());
        }
        m = m.max(hi - lo);
    }
    m
}
pub fn compare(s: &Snap, r: &Snap, prec: f64) -> R {
    let v = s.v.as_ref().unwrap();
    let w = match &r.v {
        Some(w) => w,
        None => return fail("vertices vanished"),
    };
    ensure!(v.len() == w.len(), "{} vertices became {}", v.len(), w.len());
    let tol = prec * shortest(s);
    let slack = magnitude(v) * 2f64.powi(-21) + 1e-44;
    for i in 0..v.len() {
        let e = d(v[i], w[i]);
        ensure!(
            e <= tol + slack,
            "vertex {i} moved by {e:e} from {:?} to {:?}; allowed {tol:e} (+{slack:e} rounding)",
            v[i],
            w[i]
        );
    }
    if let Some(t) = &s.vt {
        for t in t.chunks_exact(3) {
            for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                let (a, b) = (t[a] as usize, t[b] as usize);
                let e = (d(v[a], v[b]) - d(w[a], w[b])).abs();
                ensure!(
                    e <= tol + 2.0 * slack,
                    "edge {a}-{b} changed length by {e:e} ({} to {}); allowed {tol:e} (+{slack:e} rounding)",
                    d(v[a], v[b]),
                    d(w[a], w[b])
                );
            }
        }
    }
    Ok(())
}
fn check(ctx: &mut Ctx, s: Snap, p: f32) -> R {
    ctx.state(s.hash().u(p.to_bits() as u64));
    let (m, _) = round(ctx, s.build(), &Prec { v: p, ..DEF }.make())?;
    let r = Snap::of(&m, &[]);
    compare(&s, &r, p as f64)?;
    diff_idx("vertex indices", &s.vt, &r.vt)?;
    ctx.compared();
    Ok(())
}
fn cloud(v: Vec<V3>) -> Snap {
    Snap { v: Some(v), ..Default::default() }
}
fn rot<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    let mut v = v.to_vec();
    let n = v.len();
    if n > 0 {
        v.rotate_left(k % n);
    }
    v
}
/// A strip of triangles over the vertices.
fn strip(n: usize) -> Vec<u32> {
    (2..n as u32).flat_map(|i| [i - 2, i - 1, i]).collect()
}
pub fn families() -> Vec<Family> {
    vec![
        dfs(
            "grid3",
            "every mesh of 3 vertices with coordinates in {0,1,3}^3 (thorough also {-2,0.5}), as triangle and as point cloud, 3 precisions",
            |ctx| {
                let tri = ctx.flag();
                let p = ctx.pick(&[0.1f32, 0.5, 0.003]);
                let set: &[f32] = if ctx.thorough { &[0.0, 1.0, 3.0, -2.0] } else { &[0.0, 1.0, 3.0] };
                let v: Vec<V3> = (0..3).map(|_| (ctx.pick(set), ctx.pick(set), ctx.pick(set))).collect();
                ctx.note(|| format!("vertices {v:?}, triangle {tri}, precision {p}"));
                let mut s = cloud(v);
                if tri {
                    s.vt = Some(vec![0, 1, 2]);
                }
                check(ctx, s, p)
            },
        ),
        dfs(
            "boxes",
            "box grids: extent {0,0.001,1,1000}^3 x offset x sign x precision x position of the extreme vertices x triangulated or not",
            |ctx| {
                let e: Vec<f32> = (0..3).map(|_| ctx.pick(&[0.0f32, 0.001, 1.0, 1000.0])).collect();
                let off = ctx.pick(&[(0.0f32, 0.0f32, 0.0f32), (-5.0, 7.0, 11.0), (1000.0, -1000.0, 0.25), (-0.5, -0.5, -500.0)]);
                let p = ctx.pick(&[0.1f32, 1.0, 0.01, 0.0001]);
                let tri = ctx.flag();
                let k = ctx.choose(9);
                let mut v: Vec<V3> = (0..8)
                    .map(|i| {
                        (
                            off.0 + if i & 1 != 0 { e[0] } else { 0.0 },
                            off.1 + if i & 2 != 0 { e[1] } else { 0.0 },
                            off.2 + if i & 4 != 0 { e[2] } else { 0.0 },
                        )
                    })
                    .collect();
                v.push((off.0 + e[0] * 0.37, off.1 + e[1] * 0.61, off.2 + e[2] * 0.13));
                let v = rot(&v, k);
                ctx.note(|| format!("extents {e:?} offset {off:?} precision {p} rotated {k} triangles {tri}"));
                let mut s = cloud(v);
                if tri {
                    s.vt = Some(strip(9));
                }
                check(ctx, s, p)
            },
        ),
        dfs(
            "axes",
            "one long axis: coordinates 0, 1 and a long third extent, each permutation of axes, each position of the extremes, ratios 10^0..10^6",
            |ctx| {
                let perm = ctx.choose(6);
                let long = 10f32.powi(ctx.choose(7) as i32);
                let neg = ctx.flag();
                let order = ctx.choose(24);
                let p = ctx.pick(&[0.1f32, 0.02]);
                let f = |a: f32, b: f32, c: f32| match perm {
                    0 => (a, b, c),
                    1 => (a, c, b),
                    2 => (b, a, c),
                    3 => (b, c, a),
                    4 => (c, a, b),
                    _ => (c, b, a),
                };
                let sg = if neg { -1.0 } else { 1.0 };
                let base = [f(0.0, 0.0, 0.0), f(sg * long, 0.3, 0.7), f(0.5 * sg * long, 1.0, 0.2), f(0.21 * long * sg, 0.4, -1.3)];
                let mut idx = vec![0, 1, 2, 3];
                let mut v = vec![];
                let mut o = order;
                for i in (1..=4).rev() {
                    v.push(base[idx.remove(o % i)]);
                    o /= i;
                }
                // one short edge so that the tolerance is small compared with the long axis
                let a = v[0];
                v.push((a.0 + 0.5, a.1, a.2));
                ctx.note(|| format!("vertices {v:?} precision {p}"));
                let mut s = cloud(v);
                s.vt = Some(vec![0, 1, 2, 0, 2, 3, 0, 4, 1]);
                check(ctx, s, p)
            },
        ),
        dfs(
            "scales",
            "a tetrahedron with an inner point scaled by 2^k, k=-100..=100, moved by 0, 1 and 1000 times its size, 4 precisions",
            |ctx| {
                let k = ctx.range(-100, 100);
                let off = ctx.pick(&[0.0f64, 1.0, -1.0, 1000.0]);
                let p = ctx.pick(&[0.1f32, 1.0, 0.01, 1e-5]);
                let tri = ctx.flag();
                if !tri && k > 16 {
                    // a point cloud is stored with an absolute tolerance of 0.1*p
                }
                let sc = 2f64.powi(k as i32);
                let g = |x: f64| ((x + off) * sc) as f32;
                let v: Vec<V3> = [(0.0, 0.0, 0.0), (1.0, 0.1, 0.0), (0.2, 1.0, 0.3), (0.4, 0.3, 1.0), (0.41, 0.27, 0.22)]
                    .iter()
                    .map(|q: &(f64, f64, f64)| (g(q.0), g(q.1), g(q.2)))
                    .collect();
                ctx.note(|| format!("scale 2^{k} offset {off} precision {p} triangles {tri}: {v:?}"));
                let mut s = cloud(v);
                if tri {
                    s.vt = Some(vec![0, 1, 2, 0, 2, 3, 0, 1, 4, 2, 3, 4]);
                }
                check(ctx, s, p)
            },
        ),
        dfs(
            "clouds",
            "point clouds without triangles: 0..=60 points on a diagonal and a spiral, 5 sizes, 4 precisions, index array absent / empty",
            |ctx| {
                let n = ctx.choose(61);
                let size = ctx.pick(&[0.0f32, 0.001, 0.1, 10.0, 5000.0]);
                let p = ctx.pick(&[0.1f32, 1.0, 10.0, 0.001]);
                let spiral = ctx.flag();
                let empty = ctx.flag();
                let v: Vec<V3> = (0..n)
                    .map(|i| {
                        let t = i as f32 / n.max(1) as f32;
                        if spiral {
                            (size * (t * 9.0).sin(), size * (t * 9.0).cos(), size * t)
                        } else {
                            (size * t, size * t - size, -size * t)
                        }
                    })
                    .collect();
                ctx.note(|| format!("{n} points size {size} precision {p} spiral {spiral} empty index array {empty}"));
                let mut s = cloud(v);
                if empty {
                    s.vt = Some(vec![]);
                }
                check(ctx, s, p)
            },
        ),
        dfs(
            "many",
            "hundreds to 131073 vertices (thorough: 1048577) at all counts around powers of two, on a lattice, with an outlier nowhere, first, in the middle or last, with and without a triangle of the last ones",
            |ctx| {
                let n = ctx.pick(&many(ctx.thorough));
                let out = ctx.choose(4);
                let tri = ctx.flag();
                let mut v: Vec<V3> = (0..n).map(|i| ((i % 59) as f32 * 0.5, (i / 59 % 61) as f32 * 0.25, (i / 3599) as f32 + 1.0)).collect();
                match out {
                    1 => v[0] = (1000.0, -500.0, 0.0),
                    2 => v[n / 2] = (-1000.0, 500.0, 2.0),
                    3 => v[n - 1] = (400.0, 1000.0, -2000.0),
                    _ => (),
                }
                ctx.note(|| format!("{n} vertices, outlier {out}, triangle {tri}"));
                let mut s = cloud(v);
                if tri && n - 1 <= TOP as usize {
                    s.vt = Some(vec![n as u32 - 1, 0, n as u32 - 2]);
                }
                check(ctx, s, 0.1)
            },
        ),
        dfs(
            "clusters",
            "vertex arrays of two or three clusters of different size and place, long enough to be split into several segments",
            |ctx| {
                let mut v: Vec<V3> = vec![];
                let mut desc = vec![];
                let parts = 2 + ctx.choose(2);
                for i in 0..parts {
                    let n = ctx.pick(&[1usize, 40, 130, 400]);
                    let spread = ctx.pick(&[0.02f32, 1.0, 300.0]);
                    let at = if i == 0 { ctx.pick(&[0.0f32, 20.0]) } else { ctx.pick(&[0.0f32, -700.0]) };
                    desc.push((n, spread, at));
                    for j in 0..n as u32 {
                        let h = |s: u32| ((j.wrapping_mul(2654435761).wrapping_add(s * 977)) % 1009) as f32 / 1008.0 - 0.5;
                        v.push((at + spread * h(1), at + spread * h(2), -at + spread * h(3)));
                    }
                }
                let tri = ctx.flag();
                let p = ctx.pick(&[0.1f32, 0.7]);
                ctx.note(|| format!("clusters (count, spread, place) {desc:?} triangles {tri} precision {p}"));
                let mut s = cloud(v);
                if tri {
                    let n = s.v.as_ref().unwrap().len();
                    s.vt = Some(strip(n));
                }
                check(ctx, s, p)
            },
        ),
        dfs(
            "shortest",
            "the shortest edge is at each edge of each of 1..=8 triangles, 1..2^-10 of the others, with and without degenerate triangles and unfinished last triangle",
            |ctx| {
                let n = 1 + ctx.choose(8);
                let at = ctx.choose(n);
                let edge = ctx.choose(3);
                let ratio = 2f32.powi(-(ctx.choose(6) as i32) * 2);
                let extra = ctx.choose(4);
                let p = ctx.pick(&[0.1f32, 0.9]);
                let mut v: Vec<V3> = vec![];
                let mut t = vec![];
                for i in 0..n {
                    let o = i as f32 * 10.0;
                    let mut q = [(o, 0.0, 1.0), (o + 6.0, 0.5, 0.0), (o + 1.0, 7.0, 3.0)];
                    if i == at {
                        let (a, b) = [(0, 1), (1, 2), (2, 0)][edge];
                        q[b] = (q[a].0 + ratio, q[a].1 + 0.3 * ratio, q[a].2 - 0.2 * ratio);
                    }
                    for x in q {
                        t.push(v.len() as u32);
                        v.push(x);
                    }
                }
                match extra {
                    1 => t.extend([0, 0, 1]),
                    2 => t.extend([2, 2, 2, 1]),
                    3 => t.extend([0, 1]),
                    _ => (),
                }
                ctx.note(|| format!("{n} triangles, short edge {edge} of triangle {at} of relative length {ratio}, extra indices {extra}, precision {p}"));
                let mut s = cloud(v);
                s.vt = Some(t);
                check(ctx, s, p)
            },
        ),
        dfs(
            "shortest_of_many",
            "1000 to 300001 triangles (thorough: a million) on few vertices, the shortest edge in the first, second, a middle, the 65536th, the last but one or the last of them or past the last whole one",
            |ctx| {
                let mut counts = vec![1000usize, 4096, 21_845, 21_846, 32_768, 43_691, 65_535, 65_536, 65_537, 70_000, 131_073, 300_001];
                if ctx.thorough {
                    counts.extend([10_000, 16_384, 100_000, 131_072, 262_145, 524_289, 1_000_001]);
                }
                let n = ctx.pick(&counts);
                let places = [0, 1, n / 2, n / 3, 65_535.min(n - 1), n - 2, n - 1, n];
                let at = ctx.pick(&places);
                let ratio = ctx.pick(&[0.5f32, 0.003]);
                let p = ctx.pick(&[0.1f32, 0.9]);
                let x = |i: usize| (i as f32 * 1.37 + 0.11, (i * i % 7) as f32 * 1.21 - 0.3, (i * 5 % 11) as f32 * 0.77 + 0.05);
                let mut v: Vec<V3> = (0..12).map(x).collect();
                v.push((v[0].0 + ratio, v[0].1 + 0.1 * ratio, v[0].2));
                let mut t: Vec<u32> = (0..n).flat_map(|i| [i % 12, (i * 5 + 1) % 12, (i * 7 + 2) % 12]).map(|i| i as u32).collect();
                if at < n {
                    t[at * 3..][..3].copy_from_slice(&[0, 12, 5]);
                } else {
                    // not a triangle
                    t.extend([0, 12]);
                }
                ctx.note(|| format!("{n} triangles, edge of length {ratio} in number {at}, precision {p}"));
                check(ctx, Snap { vt: Some(t), ..cloud(v) }, p)
            },
        ),
        dfs(
            "precision",
            "precisions 2^4..2^-40 and 10^k on a small mesh and a flat one, 3 extents",
            |ctx| {
                let p = if ctx.flag() { 2f32.powi(4 - ctx.choose(45) as i32) } else { 10f32.powi(3 - ctx.choose(12) as i32) };
                let ext = ctx.pick(&[1.0f32, 100.0, 0.01]);
                let flat = ctx.choose(4);
                let mut v: Vec<V3> =
                    vec![(0.0, 0.0, 0.0), (ext, 0.3 * ext, 0.1), (0.123 * ext, ext, 0.7 * ext), (0.77 * ext, 0.333 * ext, ext)];
                for q in &mut v {
                    match flat {
                        1 => q.0 = -3.0,
                        2 => q.1 = 0.25,
                        3 => q.2 = 8.0,
                        _ => (),
                    }
                }
                ctx.note(|| format!("precision {p} vertices {v:?}"));
                let mut s = cloud(v);
                s.vt = Some(vec![0, 1, 2, 0, 2, 3]);
                check(ctx, s, p)
            },
        ),
        dfs(
            "order",
            "every permutation of 5 (thorough 6) vertices of distinct coordinates whose minima and maxima on the axes are different vertices",
            |ctx| {
                let base: [V3; 6] =
                    [(-4.0, 1.5, 0.5), (5.0, 0.0, 0.25), (0.5, -6.0, 1.0), (1.0, 7.5, 2.0), (2.0, 2.5, -8.0), (3.0, 3.5, 9.0)];
                let n = if ctx.thorough { 6 } else { 5 };
                let skip = if n == 5 { ctx.choose(6) } else { 6 };
                let mut pool: Vec<V3> = base.iter().enumerate().filter(|(i, _)| *i != skip).map(|x| *x.1).collect();
                let mut v = vec![];
                while !pool.is_empty() {
                    let i = ctx.choose(pool.len());
                    v.push(pool.remove(i));
                }
                let tri = ctx.flag();
                ctx.note(|| format!("vertices {v:?} triangles {tri}"));
                let mut s = cloud(v);
                if tri {
                    s.vt = Some(strip(n));
                }
                check(ctx, s, 0.05)
            },
        ),
        dfs(
            "extremes",
            "coordinates at the limits of single precision: zero, denormal, tiny, huge (extent below overflow), every pair on one axis and two fixed ones on the others",
            |ctx| {
                let vals = [0.0f32, -0.0, 1e-45, f32::MIN_POSITIVE, 1e-20, 1.0, -1.0, 1e20, -1e20, 1e37, -1e37, 1.6e38, -1.6e38];
                let (a, b, c) = (ctx.pick(&vals), ctx.pick(&vals), ctx.pick(&vals));
                let axis = ctx.choose(3);
                let tri = ctx.flag();
                let p = ctx.pick(&[0.1f32, 0.001]);
                let f = |x: f32, y: f32| match axis {
                    0 => (x, y, 0.5),
                    1 => (0.5, x, y),
                    _ => (y, 0.5, x),
                };
                let v = vec![f(a, 0.0), f(b, 1.0), f(c, 0.25)];
                ctx.note(|| format!("vertices {v:?} triangles {tri} precision {p}"));
                let mut s = cloud(v);
                if tri {
                    s.vt = Some(vec![0, 1, 2]);
                }
                check(ctx, s, p)
            },
        ),
    ]
}
