//! C25: saved files stay compact (compared with an independent cost model).
use super::index::tops;
use crate::engine::*;
use crate::ensure;
use crate::util::*;

fn bits(max: u32) -> u64 {
    64 - (max as u64).leading_zeros() as u64
}
fn size(ctx: &mut Ctx, s: &Snap, p: &Prec) -> R<usize> {
    let b = save(&[(s.build(), "m".to_string())], &p.make())?;
    ctx.step();
    ctx.state(s.hash().u(b.len() as u64));
    Ok(b.len())
}
/// header, mesh name, one segment header with its fixed fields
const BASE: u64 = 64;
const PER_SPLIT: u64 = 26;
pub fn families() -> Vec<Family> {
    vec![
        dfs(
            "indices",
            "12 patterns x maxima x lengths x kinds: file at most the bits of the largest index per entry plus a constant (plus a constant per split that value range allows)",
            |ctx| {
                let kind = ctx.choose(4);
                let top = ctx.pick(&tops());
                let pat = ctx.choose(IDX_PATTERNS);
                let len = ctx.pick(&[0usize, 1, 2, 3, 4, 9, 17, 64, 65, 150, 301, 1024, 5000]);
                let a = idx_pattern(pat, len, top);
                let max = a.iter().copied().max().unwrap_or(0);
                // index patterns with at most a few value-range changes; monotone ones change the number of bits once per bit
                let splits = match pat {
                    0 | 1 | 11 => 2 * (bits(max) + 1),
                    10 => 2 * (bits(max) + 1),
                    _ => 6,
                };
                ctx.note(|| format!("kind {kind} pattern {pat} maximum {top} length {len}"));
                let mut s = Snap::default();
                match kind {
                    0 => s.vt = Some(a),
                    1 => s.nt = Some(a),
                    2 => s.ut = Some(a),
                    _ => s.tt = Some(a),
                }
                let n = size(ctx, &s, &DEF)? as u64;
                let lim = BASE + (len as u64 * bits(max) + 7) / 8 + PER_SPLIT * splits;
                ensure!(n <= lim, "{len} indices up to {max} take {n} bytes, at most {lim} justified");
                // no worse than storing without splitting by more than a constant
                if matches!(pat, 2 | 3 | 4 | 7 | 8 | 9) {
                    let lim = BASE + (len as u64 * bits(max) + 7) / 8 + 3 * PER_SPLIT;
                    ensure!(n <= lim, "{len} indices up to {max} take {n} bytes, at most {lim} justified");
                }
                // where splitting must pay: a long low half and a short high half
                ctx.compared();
                Ok(())
            },
        ),
        dfs("shared", "vertex, normal and UV index arrays: every pattern of equality; equal arrays are stored once", |ctx| {
            let len = ctx.pick(&[30usize, 300, 999]);
            let top = ctx.pick(&[29u32, 1000, 1 << 20]);
            let pat = ctx.pick(&[0usize, 3, 10, 7]);
            let a = idx_pattern(pat, len, top);
            let b: Vec<u32> = a.iter().rev().map(|x| x / 2).collect();
            let c: Vec<u32> = a.iter().map(|x| x / 3 + 1).collect();
            let pool = [a, b, c];
            let mut s = Snap::default();
            let mut used: Vec<usize> = vec![];
            let mut d = vec![];
            for k in 0..3 {
                let q = ctx.choose(4);
                d.push(q);
                if q == 0 {
                    continue;
                }
                used.push(q - 1);
                let x = pool[q - 1].clone();
                match k {
                    0 => s.vt = Some(x),
                    1 => s.nt = Some(x),
                    _ => s.ut = Some(x),
                }
            }
            let also = ctx.choose(3);
            match also {
                1 => s.tt = Some(pool[0].clone()),
                2 => {
                    s.v = Some((0..3).map(|i| (i as f32, 0.0, 1.0)).collect());
                    for t in [&mut s.vt, &mut s.nt, &mut s.ut] {
                        if let Some(t) = t {
                            t.iter_mut().for_each(|x| *x %= 3)
                        }
                    }
                }
                _ => (),
            }
            ctx.note(|| format!("length {len} maximum {top} pattern {pat}: classes of vertex/normal/uv arrays {d:?}, more {also}"));
            let total = size(ctx, &s, &DEF)? as i64;
            // sum of the different arrays alone
            let mut alone = 0i64;
            let mut seen: Vec<Vec<u32>> = vec![];
            for t in [&s.vt, &s.nt, &s.ut].into_iter().flatten() {
                if !seen.contains(t) {
                    seen.push(t.clone());
                    alone += size(ctx, &Snap { vt: Some(t.clone()), ..Default::default() }, &DEF)? as i64;
                }
            }
            if let Some(t) = &s.tt {
                alone += size(ctx, &Snap { tt: Some(t.clone()), ..Default::default() }, &DEF)? as i64;
            }
            if let Some(v) = &s.v {
                alone += size(ctx, &Snap { v: Some(v.clone()), ..Default::default() }, &DEF)? as i64 + 64;
            }
            ensure!(total <= alone + 3 * 40, "file of {total} bytes, its different parts alone add up to {alone}");
            ctx.compared();
            Ok(())
        }),
        dfs("directions", "normals and tangents: settings of 1..=20 bits x counts", |ctx| {
            let b = 1 + ctx.choose(20) as u64;
            let d = 90.0 / (1u32 << b) as f32;
            let n = ctx.pick(&[0usize, 1, 2, 7, 64, 500]);
            let k = ctx.choose(2);
            let v: Vec<V3> = (0..n).map(|i| dir((i * 37 % 91) as f64, (i * 53 % 91) as f64, i % 8)).collect();
            ctx.note(|| format!("{n} {} at {d} degrees", ["normals", "tangents"][k]));
            let s = if k == 0 {
                Snap { n: Some(v), ..Default::default() }
            } else {
                Snap { t: Some(v.iter().map(|x| (*x, 1.0)).collect()), ..Default::default() }
            };
            let z = size(ctx, &s, &Prec { n_deg: d, t_deg: d, ..DEF })? as u64;
            let lim = BASE + (n as u64 * (2 * (b + 1) + 4) + 7) / 8;
            ensure!(z <= lim, "{n} vectors at {d} degrees take {z} bytes, at most {lim} justified");
            ctx.compared();
            Ok(())
        }),
        dfs("uvs", "UVs: settings of 0..=40 bits x counts", |ctx| {
            let b = ctx.choose(41) as u64;
            let n = ctx.pick(&[0usize, 1, 2, 7, 64, 500]);
            let u = (0..n).map(|i| ((i * 37 % 101) as f32 / 100.0, (i * 53 % 97) as f32 / 96.0)).collect();
            ctx.note(|| format!("{n} UVs at {b} bits"));
            let z = size(ctx, &Snap { u: Some(u), ..Default::default() }, &Prec { u: (1024.0, 1024.0 * 2f32.powi(-(b as i32))), ..DEF })? as u64;
            let lim = BASE + (n as u64 * 2 * (b + 1) + 7) / 8;
            ensure!(z <= lim, "{n} UVs at {b} bits take {z} bytes, at most {lim} justified");
            ctx.compared();
            Ok(())
        }),
        dfs("vertices", "vertex grids: extents on each axis x precision x count, triangulated with a known shortest edge, cluster arrays which may be split", |ctx| {
            let e: Vec<f32> = (0..3).map(|_| ctx.pick(&[0.0f32, 0.01, 1.0, 1000.0])).collect();
            let p = ctx.pick(&[0.1f32, 0.9, 0.001]);
            let n = ctx.pick(&[4usize, 30, 300, 1200]);
            let off = ctx.pick(&[0.0f32, 50.0]);
            let v: Vec<V3> = (0..n as u32)
                .map(|j| {
                    let h = |s: u32| ((j.wrapping_mul(2654435761).wrapping_add(s * 977)) % 1009) as f32 / 1008.0;
                    (off + e[0] * h(1), off + e[1] * h(2), off + e[2] * h(3))
                })
                .collect();
            let tri = ctx.flag();
            let mut s = Snap { v: Some(v), ..Default::default() };
            if tri {
                s.vt = Some(vec![0, 1, 2]);
            }
            let short = super::vertex::shortest(&s);
            let mut per = 0.0;
            for x in &e {
                // bits per axis for a tolerance of p*shortest, with two spare bits
                per += ((*x as f64 * 1.7321 / (p as f64 * short)).max(1.0)).log2().ceil().max(1.0) + 2.0;
            }
            ctx.note(|| format!("{n} vertices extents {e:?} precision {p} triangle {tri}"));
            let z = size(ctx, &s, &Prec { v: p, ..DEF })? as f64;
            let lim = 160.0 + n as f64 * per / 8.0 + 66.0 * (n as f64 / 60.0).min(8.0);
            ensure!(z <= lim, "{n} vertices of extents {e:?} at {p} take {z} bytes, at most {lim} justified");
            ctx.compared();
            Ok(())
        }),
        dfs("custom", "custom arrays: kinds x precisions x counts", |ctx| {
            let kind = ctx.choose(4);
            let n = ctx.pick(&[0usize, 1, 5, 64, 400]);
            let b = ctx.choose(25) as u32;
            let (c, per) = match kind {
                0 | 1 => {
                    let top = ((1u64 << b) - 1) as u32;
                    let a = idx_pattern(10, n, top);
                    let m = a.iter().copied().max().unwrap_or(0);
                    (if kind == 0 { Cd::Index(a, m as usize) } else { Cd::Int(a, m as usize) }, bits(m))
                }
                2 => (Cd::Float((0..n).map(|i| (i % 5) as f32 / 4.0).collect(), 2f32.powi(-(b as i32))), b as u64 + 1),
                _ => (
                    Cd::Rgba((0..n).map(|i| ((i % 5) as f32 / 4.0, 0.0, 1.0, 0.5)).collect(), 2f32.powi(-(b as i32))),
                    4 * (b as u64 + 1),
                ),
            };
            ctx.note(|| format!("{n} x {} of {b} bits", c.kind()));
            let z = size(ctx, &Snap { c: vec![("c".into(), c)], ..Default::default() }, &DEF)? as u64;
            let lim = BASE + 8 + (n as u64 * per.max(1) + 7) / 8;
            ensure!(z <= lim, "custom array of {n} entries takes {z} bytes, at most {lim} justified");
            ctx.compared();
            Ok(())
        }),
        dfs("splitting_pays", "a long run of small indices before or after a short run of large ones is not stored at the width of the large ones throughout", |ctx| {
            let n = ctx.pick(&[400usize, 1000, 4000]);
            let k = ctx.pick(&[1usize, 10, 100]);
            let lo = ctx.pick(&[1u32, 15, 255]);
            let hi = ctx.pick(&[1u32 << 20, u32::MAX]);
            let first = ctx.flag();
            let small: Vec<u32> = (0..n as u32).map(|i| i % (lo + 1)).collect();
            let big: Vec<u32> = (0..k as u32).map(|i| hi - i % 2).collect();
            let a: Vec<u32> = if first { [small, big].concat() } else { [big, small].concat() };
            ctx.note(|| format!("{n} indices up to {lo}, {k} up to {hi}, small ones first: {first}"));
            let z = size(ctx, &Snap { vt: Some(a), ..Default::default() }, &DEF)? as u64;
            // every piece the array may be cut into has fixed fields of its own
            let naive = BASE + ((n + k) as u64 * bits(hi) + 7) / 8 + 2 * PER_SPLIT;
            ensure!(z <= naive, "{z} bytes, at most {naive} without splitting");
            ctx.compared();
            Ok(())
        }),
        dfs("many", "arrays of every kind of as many elements as counters, buffers and blocks hold: the bits the setting or the largest value needs per element, and a constant", |ctx| {
            let c = many(ctx.thorough);
            let n = ctx.pick(&c);
            let kind = ctx.choose(9);
            let b = ctx.pick(&[1u64, 5, 8, 13, 17]);
            ctx.note(|| format!("kind {kind}: {n} elements of {b} bits"));
            let top = ((1u64 << b) - 1) as u32;
            let a = idx_pattern(10, n, top);
            let f = |k: u32| a.iter().map(move |x| (x.wrapping_mul(k) % 1009) as f32 / 1008.0);
            let d = || (0..n).map(|i| dir((i * 37 % 91) as f64, (i * 53 % 91) as f64, i % 8));
            let w = bits(a.iter().copied().max().unwrap_or(0)).max(1);
            let deg = 90.0 / (1u32 << b) as f32;
            let prec = Prec { n_deg: deg, t_deg: deg, u: (1024.0, 1024.0 * 2f32.powi(-(b as i32))), ..DEF };
            let mut s = Snap::default();
            let (per, splits) = match kind {
                0 => { s.vt = Some(a.clone()); (w, 2 * (w + 1)) }
                1 => { s.nt = Some(a.clone()); s.ut = Some(a.clone()); (w, 2 * (w + 1)) }
                2 => { s.tt = Some(a.clone()); (w, 2 * (w + 1)) }
                3 => { s.n = Some(d().collect()); (2 * (b + 1) + 4, 0) }
                4 => { s.t = Some(d().map(|x| (x, 1.0)).collect()); (2 * (b + 1) + 4, 0) }
                5 => { s.u = Some(f(3).zip(f(7)).collect()); (2 * (b + 1), 0) }
                6 => { s.c = vec![("c".into(), Cd::Index(a.clone(), top as usize))]; (w, 0) }
                7 => { s.c = vec![("c".into(), Cd::Float(f(5).collect(), 2f32.powi(-(b as i32))))]; (b + 1, 0) }
                _ => { s.c = vec![("c".into(), Cd::Rgba(f(5).map(|x| (x, 0.0, 1.0, x)).collect(), 2f32.powi(-(b as i32))))]; (4 * (b + 1), 0) }
            };
            let z = size(ctx, &s, &prec)? as u64;
            let lim = BASE + 8 + (n as u64 * per + 7) / 8 + PER_SPLIT * splits;
            ensure!(z <= lim, "{n} elements take {z} bytes, at most {lim} justified");
            ctx.compared();
            Ok(())
        }),
    ]
}
