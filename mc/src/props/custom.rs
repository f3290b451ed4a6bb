//! C05: custom data arrays survive saving and loading.
use super::index::tops;
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use tmf::*;

/// Compares stored with loaded custom data: integers exactly, floats and colours within the precision.
pub fn compare(name: &str, a: &Cd, b: &Cd) -> R {
    ensure!(a.kind() == b.kind(), "custom array {name:?}: kind {} became {}", a.kind(), b.kind());
    ensure!(a.len() == b.len(), "custom array {name:?}: length {} became {}", a.len(), b.len());
    match (a, b) {
        (Cd::Index(x, _), Cd::Index(y, _)) | (Cd::Int(x, _), Cd::Int(y, _)) => {
            if let Some(i) = (0..x.len()).find(|&i| x[i] != y[i]) {
                return fail(format!("custom array {name:?}: entry {i} of {} was {} and became {}", x.len(), x[i], y[i]));
            }
        }
        (Cd::Float(x, p), Cd::Float(y, _)) => {
            let m = x.iter().fold(0f64, |m, v| m.max(v.abs() as f64));
            let tol = *p as f64 + m * 2f64.powi(-22) + 1e-45;
            for i in 0..x.len() {
                let e = (x[i] as f64 - y[i] as f64).abs();
                ensure!(e <= tol, "custom float array {name:?}: entry {i} {} became {}, off by {e:e}, allowed {tol:e}", x[i], y[i]);
            }
        }
        (Cd::Rgba(x, p), Cd::Rgba(y, _)) => {
            let tol = *p as f64 + 2f64.powi(-22);
            for i in 0..x.len() {
                for (u, v) in [(x[i].0, y[i].0), (x[i].1, y[i].1), (x[i].2, y[i].2), (x[i].3, y[i].3)] {
                    let e = (u as f64 - v as f64).abs();
                    ensure!(e <= tol, "custom colour array {name:?}: entry {i} {:?} became {:?}, allowed {tol:e}", x[i], y[i]);
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}
fn check(ctx: &mut Ctx, s: &Snap) -> R {
    ctx.state(s.hash());
    let mesh = s.build();
    // before saving: lookup finds the first array of that name
    for n in s.names() {
        let want = &s.c.iter().find(|x| x.0 == n).unwrap().1;
        match mesh.lookup_custom_data(n) {
            Some(c) => ensure!(Cd::of(c) == *want, "lookup of {n:?} before saving: {:?} instead of {want:?}", Cd::of(c)),
            None => return fail(format!("lookup of {n:?} before saving finds nothing")),
        }
    }
    let (m, _) = round(ctx, mesh, &DEF.make())?;
    for n in s.names() {
        let want = &s.c.iter().find(|x| x.0 == n).unwrap().1;
        match m.lookup_custom_data(n) {
            Some(c) => compare(n, want, &Cd::of(c))?,
            None => return fail(format!("custom array {n:?} is gone after loading")),
        }
    }
    ctx.compared();
    Ok(())
}
fn rgba(vals: &[f32], n: usize, k: usize) -> Vec<(f32, f32, f32, f32)> {
    let g = |i: usize| vals[(i * k + i / 3) % vals.len()];
    (0..n).map(|i| (g(4 * i), g(4 * i + 1), g(4 * i + 2), g(4 * i + 3))).collect()
}
pub fn families() -> Vec<Family> {
    vec![
        dfs(
            "integers",
            "index and integer arrays: 12 patterns x maxima 2^b-2..2^b (b=0..32) x 25 lengths x declared maximum exact / usual constructor / larger / the largest possible",
            |ctx| {
                let kind = ctx.choose(2);
                let top = ctx.pick(&tops());
                let pat = ctx.choose(IDX_PATTERNS);
                let len = ctx.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 301]);
                let a = idx_pattern(pat, len, top);
                let max = a.iter().copied().max().unwrap_or(0) as usize;
                let decl = match ctx.choose(5) {
                    0 => max,
                    1 => max + 1,
                    2 => (max * 2 + 1).max(max),
                    3 => usize::MAX,
                    _ => TOP as usize,
                };
                ctx.note(|| format!("kind {kind} pattern {pat} maximum {top} (declared {decl}) length {len}"));
                let c = if kind == 0 { Cd::Index(a, decl) } else { Cd::Int(a, decl) };
                check(ctx, &Snap { c: vec![("data".into(), c)], ..Default::default() })
            },
        ),
        dfs(
            "floats",
            "float arrays: 10 ranges x 4 shapes x 12 precisions x 13 lengths",
            |ctx| {
                let (lo, hi) = ctx.pick(&[
                    (0.0f32, 0.0f32),
                    (0.0, 1.0),
                    (-7.0, 9.54),
                    (-1.0, 1.0),
                    (1000.0, 1000.5),
                    (-1e6, 3.0),
                    (5.0, 5.0),
                    (-3e38, 3e38),
                    (1e-38, 3e-38),
                    (0.01, 0.02),
                ]);
                let shape = ctx.choose(4);
                let p = ctx.pick(&[0.01f32, 1.0, 0.5, 0.1, 1e-3, 1e-6, 1e-9, 10.0, 1e4, 1e30, 0.3, 1e-30]);
                let n = ctx.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 64, 129]);
                let f = |t: f64| (lo as f64 + (hi as f64 - lo as f64) * t) as f32;
                let a: Vec<f32> = (0..n)
                    .map(|i| {
                        let t = i as f64 / (n - 1).max(1) as f64;
                        match shape {
                            0 => f(t),
                            1 => f(1.0 - t),
                            2 => f((i * 7 % 11) as f64 / 10.0),
                            _ => if i == n / 2 { hi } else { lo },
                        }
                    })
                    .collect();
                ctx.note(|| format!("{n} floats in {lo}..{hi} shape {shape} precision {p}"));
                check(ctx, &Snap { c: vec![("f".into(), Cd::Float(a, p))], ..Default::default() })
            },
        ),
        dfs(
            "float_cells",
            "floats at the start, around the middle and the end of every quantisation cell, 1..=9 bits, 3 ranges",
            |ctx| {
                let b = 1 + ctx.choose(9) as i32;
                let (lo, span) = ctx.pick(&[(0.0f32, 1.0f32), (-8.0, 16.0), (100.0, 1.0)]);
                let p = span * 2f32.powi(-b) * ctx.pick(&[1.0f32, 1.3, 0.9]);
                let n = 1usize << b;
                let mut a = vec![lo, lo + span];
                for i in 0..n {
                    for f in [0.0, 0.499, 0.501, 0.97] {
                        a.push(lo + span * ((i as f64 + f) / (n - 1) as f64).min(1.0) as f32);
                    }
                }
                ctx.note(|| format!("{} floats from {lo} spanning {span}, precision {p}", a.len()));
                check(ctx, &Snap { c: vec![("f".into(), Cd::Float(a, p))], ..Default::default() })
            },
        ),
        dfs(
            "long",
            "custom arrays of hundreds to 131073 entries (thorough: 1048577) at all counts around powers of two, every kind, coarse and fine",
            |ctx| {
                let n = ctx.pick(&many(ctx.thorough));
                let kind = ctx.choose(4);
                let fine = ctx.flag();
                let top = if fine { TOP } else { 17 };
                let p = if fine { 1e-6 } else { 0.1 };
                let c = match kind {
                    0 => Cd::Index((0..n as u32).map(|i| i.wrapping_mul(2_654_435_761) % top).collect(), top as usize),
                    1 => Cd::Int((0..n as u32).map(|i| i.wrapping_mul(2_654_435_761) % top).collect(), top as usize),
                    2 => Cd::Float((0..n).map(|i| (i * 7919 % 1013) as f32 / 1012.0 - 0.5).collect(), p),
                    _ => Cd::Rgba(rgba(&[0.0, 1.0, 0.5, 0.999, 0.2501, 0.7499, 0.61], n, 3), p),
                };
                ctx.note(|| format!("{n} entries, kind {kind}, fine {fine}"));
                check(ctx, &Snap { c: vec![("data".into(), c), ("behind".into(), Cd::Index(vec![1, 2], 2))], ..Default::default() })
            },
        ),
        dfs(
            "colours",
            "RGBA arrays: 14 precisions x 20 lengths x component values {0,1,0.5,1/3,0.999,next to cell middles}",
            |ctx| {
                let p = ctx.pick(&[0.01f32, 1.0, 2.0, 0.5, 0.25, 0.3, 0.1, 1.0 / 255.0, 1e-3, 1e-5, 1e-7, 1e-10, 0.999, 0.0625]);
                let n = ctx.choose(20);
                let k = ctx.pick(&[1usize, 3, 5]);
                let vals = [0.0f32, 1.0, 0.5, 1.0 / 3.0, 0.999, 0.2501, 0.7499, 0.0312, 0.9687, 0.61];
                ctx.note(|| format!("{n} colours, precision {p}, order {k}"));
                check(ctx, &Snap { c: vec![("c".into(), Cd::Rgba(rgba(&vals, n, k), p))], ..Default::default() })
            },
        ),
        dfs("names", "names of 0..=300 bytes of 1-, 2-, 3- and 4-byte characters; names differing in case, length, one character; accepted exactly from 1 to 255 bytes", |ctx| {
            let ch = ctx.pick(&['a', 'é', '語', '🙂', '\0', ' ']);
            let n = ctx.pick(&[0usize, 1, 2, 3, 63, 64, 84, 85, 86, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513]);
            let name: String = std::iter::repeat(ch).take(n).collect();
            let kind = ctx.choose(4);
            let data = match kind {
                0 => Cd::Index(vec![1, 2, 3], 3),
                1 => Cd::Int(vec![4, 5], 5),
                2 => Cd::Float(vec![0.0, 1.0], 0.01),
                _ => Cd::Rgba(vec![(0.0, 0.5, 1.0, 0.25)], 0.01),
            };
            ctx.note(|| format!("name of {} bytes ({n} x {ch:?}), {}", name.len(), data.kind()));
            let mut m = TMFMesh::empty();
            let r = match sut(|| m.add_custom_data(data.make(), &name)) {
                Ok(r) => r,
                Err(p) => return fail(format!("add_custom_data panicked: {p}")),
            };
            ctx.step();
            match (name.len(), r) {
                (0, Err(DataSegmentError::NoName)) => (),
                (256.., Err(DataSegmentError::NameTooLong)) => (),
                (1..=255, Ok(())) => {
                    // neighbours of the name must not be found, the name must
                    let s = Snap { c: vec![(name.clone(), data)], ..Default::default() };
                    check(ctx, &s)?;
                    let (l, _) = round(ctx, s.build(), &DEF.make())?;
                    for m in [&m, &l] {
                        let mut near = vec![format!("{name}x"), format!("x{name}"), String::new()];
                        let mut t = name.clone();
                        t.pop();
                        near.push(t.clone());
                        t.push('#');
                        near.push(t);
                        near.push(name.to_uppercase());
                        for q in near {
                            if q != name {
                                ensure!(m.lookup_custom_data(&q).is_none(), "lookup of {q:?} finds the array named {name:?}");
                            }
                        }
                    }
                }
                (l, r) => return fail(format!("name of {l} bytes: add_custom_data returned {r:?}")),
            }
            let q = m.lookup_custom_data(&name).is_some();
            ensure!(q == (1..=255).contains(&name.len()), "lookup of a name of {} bytes: found {q}", name.len());
            ctx.compared();
            Ok(())
        }),
        dfs(
            "mixes",
            "every sequence of up to 3 (thorough 4) arrays from 3 names x 6 contents in one mesh, alone or next to triangles",
            |ctx| {
                let n = ctx.choose(if ctx.thorough { 5 } else { 4 });
                let data = [
                    Cd::Index(vec![0, 9, 4], 9),
                    Cd::Int(vec![t(70000)], 70000),
                    Cd::Float(vec![-1.0, 2.0, 0.25], 0.01),
                    Cd::Rgba(vec![(0.0, 1.0, 0.5, 0.2)], 0.01),
                    Cd::Index(vec![], 0),
                    Cd::Int(vec![TOP; 9], u32::MAX as usize),
                ];
                let mut s = Snap::default();
                for _ in 0..n {
                    let name = ctx.pick(&["a", "b", "aa"]);
                    let d = ctx.pick_ref(&data).clone();
                    s.c.push((name.to_string(), d));
                }
                if ctx.flag() {
                    s.v = Some(vec![(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)]);
                    s.vt = Some(vec![0, 1, 2]);
                    s.nt = Some(vec![0, 1, 2]);
                }
                ctx.note(|| format!("{:?}", s.c));
                check(ctx, &s)
            },
        ),
        dfs("many", "up to 300 custom arrays in one mesh, all names equal / all different / pairwise equal", |ctx| {
            let n = ctx.pick(&[0usize, 1, 2, 10, 31, 32, 33, 64, 255, 256, 300]);
            let mode = ctx.choose(3);
            let s = Snap {
                c: (0..n)
                    .map(|i| {
                        let nm = match mode {
                            0 => "same".to_string(),
                            1 => format!("n{i}"),
                            _ => format!("n{}", i / 2),
                        };
                        (nm, Cd::Int(vec![i as u32, 1 + i as u32], i + 1))
                    })
                    .collect(),
                ..Default::default()
            };
            ctx.note(|| format!("{n} arrays, naming {mode}"));
            check(ctx, &s)
        }),
    ]
}
