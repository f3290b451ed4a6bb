//! C26: builds with other number types keep the guarantees at their own width.
use super::*;
use crate::engine::*;
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
use tmf::*;

type F = FloatType;
type I = IndexType;
type W3 = (F, F, F);
const EPS: f64 = F::EPSILON as f64;
const WIDE: bool = cfg!(feature = "wide");

fn as64(v: W3) -> [f64; 3] {
    [v.0 as f64, v.1 as f64, v.2 as f64]
}
fn dist(a: W3, b: W3) -> f64 {
    let (a, b) = (as64(a), as64(b));
    (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
}
fn hash<T: std::fmt::Debug>(x: &T) -> H {
    H::new().s(&format!("{x:?}"))
}
const IKINDS: [&str; 6] = ["vertex indices", "normal indices", "uv indices", "tangent indices", "custom indices", "custom integers"];
fn put_idx(m: &mut TMFMesh, kind: usize, a: &[I]) {
    match kind {
        0 => drop(m.set_vertex_triangles(a)),
        1 => drop(m.set_normal_triangles(a)),
        2 => drop(m.set_uv_triangles(a)),
        3 => drop(m.set_tangent_triangles(a)),
        4 => m.add_custom_data(CustomData::CustomIndex(a.into(), usize::MAX), "index").expect("valid name"),
        _ => m.add_custom_data(CustomData::CustomIntiger(a.into(), usize::MAX), "integer").expect("valid name"),
    }
}
fn get_idx(m: &TMFMesh, kind: usize) -> Option<Vec<I>> {
    match kind {
        0 => m.get_vertex_triangles().map(<[I]>::to_vec),
        1 => m.get_normal_triangles().map(<[I]>::to_vec),
        2 => m.get_uv_triangles().map(<[I]>::to_vec),
        3 => m.get_tangent_triangles().map(<[I]>::to_vec),
        k => m.lookup_custom_data(if k == 4 { "index" } else { "integer" }).and_then(|d| if k == 4 { d.as_index() } else { d.as_intiger() }).map(|x| x.0.to_vec()),
    }
}
/// Maxima around every number of bits of the index type.
fn maxima() -> Vec<I> {
    let mut v: Vec<I> = vec![0, I::MAX, I::MAX - 1, I::MAX / 3, I::MAX / 2, I::MAX / 2 + 1];
    for b in 1..I::BITS {
        let t = (1 as I) << b;
        v.extend([t - 1, t, t + 1]);
    }
    v.sort();
    v.dedup();
    v
}
const PATTERNS: usize = 9;
fn pattern(kind: usize, n: usize, top: I) -> Vec<I> {
    (0..n as u64)
        .map(|i| {
            let s = |x: u64| -> I { (x % (top as u64).saturating_add(1).max(1)) as I };
            match kind {
                0 => top,
                1 => if i + 1 == n as u64 { top } else { s(i) },
                2 => if i == 0 { top } else { s(i % 3) },
                3 => top - s(i % 5),
                4 => if i % 2 == 0 { top } else { 0 },
                5 => s((i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)),
                6 => if i < n as u64 / 2 { s(i % 4) } else { top - s(i % 4) },
                7 => if i == n as u64 / 2 { top } else { s(i * 7 % 11) },
                _ => ((top as u128) * i as u128 / (n as u128).max(1)) as I,
            }
        })
        .collect()
}
fn check_idx(ctx: &mut Ctx, kinds: &[usize], a: &[I], data: bool) -> R {
    ctx.state(hash(&(kinds, a)));
    let mut m = TMFMesh::empty();
    for k in kinds {
        put_idx(&mut m, *k, a);
    }
    if data {
        m.set_vertices(vec![(1.0, 2.0, 3.0); 3]);
    }
    let (r, _) = round(ctx, m, &TMFPrecisionInfo::default())?;
    for k in 0..6 {
        let g = get_idx(&r, k);
        if kinds.contains(&k) {
            match g {
                None => return fail(format!("{} vanished", IKINDS[k])),
                Some(g) => {
                    ensure!(g.len() == a.len(), "{}: {} entries became {}", IKINDS[k], a.len(), g.len());
                    if let Some(i) = (0..a.len()).find(|i| g[*i] != a[*i]) {
                        return fail(format!("{}: entry {i} of {} was {} and became {}", IKINDS[k], a.len(), a[i], g[i]));
                    }
                }
            }
        } else {
            ensure!(g.is_none(), "{} appeared", IKINDS[k]);
        }
    }
    ctx.compared();
    Ok(())
}
/// Values that need the whole mantissa of the float type.
fn odd(x: f64) -> F {
    (x * (1.0 + 1.0 / 3.0)) as F
}
fn mesh_of(v: &[W3], tris: &[u32]) -> TMFMesh {
    let mut m = TMFMesh::empty();
    m.set_vertices(v);
    m.set_vertex_triangles(tris.iter().map(|x| *x as I).collect::<Vec<I>>());
    m
}
fn compare_positions(v: &[W3], w: &[W3], tris: &[u32], prec: f64) -> R {
    ensure!(v.len() == w.len(), "{} vertices became {}", v.len(), w.len());
    let mut short = f64::INFINITY;
    for t in tris.chunks_exact(3) {
        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
            let e = dist(v[t[a] as usize], v[t[b] as usize]);
            if e > 0.0 {
                short = short.min(e);
            }
        }
    }
    let tol = prec * if short.is_finite() { short } else { 0.1 };
    let mut mag = 0f64;
    for i in 0..3 {
        let lo = v.iter().map(|p| as64(*p)[i]).fold(f64::INFINITY, f64::min);
        let hi = v.iter().map(|p| as64(*p)[i]).fold(f64::NEG_INFINITY, f64::max);
        mag = mag.max(lo.abs()).max(hi.abs()).max(hi - lo);
    }
    let slack = mag * EPS * 4.0;
    for i in 0..v.len() {
        let e = dist(v[i], w[i]);
        ensure!(e <= tol * 1.0000001 + slack, "vertex {i} moved by {e:e} from {:?} to {:?}; allowed {tol:e} (+{slack:e} rounding)", v[i], w[i]);
    }
    Ok(())
}
fn az(v: [f64; 3]) -> f64 {
    v[0].abs().atan2(v[1].abs()).to_degrees()
}
fn compare_dirs(o: W3, r: W3, d: f64) -> R {
    let (o, r) = (as64(o), as64(r));
    let len = r.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!((len - 1.0).abs() <= 16.0 * EPS, "{o:?} became {r:?} of length {len}");
    for i in 0..3 {
        ensure!(o[i] * r[i] >= 0.0 || r[i].abs() <= 16.0 * EPS, "{o:?} became {r:?}: a sign changed");
    }
    let zb = if d < 89.99 { d / (90.0 - d) } else { f64::INFINITY };
    let dz = (o[2].abs() - r[2].abs()).abs();
    ensure!(dz <= zb + 64.0 * EPS, "{o:?} became {r:?}: |z| changed by {dz:e}, allowed {zb:e} for {d} degrees");
    if o[0].hypot(o[1]) > 1e-3 && r[0].hypot(r[1]) > 1e-3 {
        let da = (az(o) - az(r)).abs();
        // the inverse sine of the single precision codec loses more
        let s = if WIDE { 1e-9 } else { 0.03 };
        ensure!(da <= d + s, "{o:?} became {r:?}: azimuth changed by {da} degrees, allowed {d}");
    }
    Ok(())
}
fn dir64(a: f64, e: f64, oct: usize) -> W3 {
    let (a, e) = (a.to_radians(), e.to_radians());
    let s = |b: usize, x: f64| (if oct & b != 0 { -x } else { x }) as F;
    (s(1, a.sin() * e.cos()), s(2, a.cos() * e.cos()), s(4, e.sin()))
}
fn tangent_buffer(m: &TMFMesh) -> Option<Vec<Tangent>> {
    let t = m.get_tangents()?;
    m.get_tangent_triangles()?.iter().map(|i| t.get(*i as usize).copied()).collect()
}
/// Applies an operation that keeps what every corner selects (0 reorder, 1 unify, 2 OBJ export and import, 3 save and load, 4 none) and compares the buffers.
fn compare_ops(ctx: &mut Ctx, mut m: TMFMesh, op: usize) -> R {
    fn select<T: Copy>(data: Option<&[T]>, idx: Option<&[I]>) -> Option<Vec<T>> {
        let data = data?;
        idx?.iter().map(|i| data.get(*i as usize).copied()).collect()
    }
    let want_v = select(m.get_vertices(), m.get_vertex_triangles());
    let want_n = select(m.get_normals(), m.get_normal_triangles());
    let want_u = select(m.get_uvs(), m.get_uv_triangles());
    let want_t = tangent_buffer(&m);
    ctx.step();
    match op {
        0 => sut(|| m.reorder_data()).or_else(|p| fail(format!("reorder_data panicked: {p}")))?,
        1 => sut(|| m.unify_index_data()).or_else(|p| fail(format!("unify_index_data panicked: {p}")))?,
        2 => {
            let mut b = vec![];
            match sut(|| m.write_obj_one(&mut b, "m")) {
                Ok(Ok(())) => (),
                x => return fail(format!("export: {x:?}")),
            }
            m = match sut(|| TMFMesh::read_from_obj_one(&mut &b[..])) {
                Ok(Ok(x)) => x.0,
                Ok(Err(e)) => return fail(format!("import refused: {e}")),
                Err(p) => return fail(format!("import panicked: {p}")),
            };
        }
        3 => {
            let idx: Vec<Option<Vec<I>>> = (0..4).map(|k| get_idx(&m, k)).collect();
            let (r, _) = round(ctx, m, &TMFPrecisionInfo::default())?;
            for k in 0..4 {
                ensure!(get_idx(&r, k) == idx[k], "{} changed", IKINDS[k]);
            }
            ctx.compared();
            return Ok(());
        }
        _ => (),
    }
    let same = |what: &str, got: bool| -> R {
        ensure!(got, "{what} selected by the corners changed");
        Ok(())
    };
    same("vertices", m.get_vertex_buffer().map(|b| b.to_vec()) == want_v)?;
    same("normals", m.get_normal_buffer().map(|b| b.to_vec()) == want_n)?;
    same("uvs", m.get_uv_buffer().map(|b| b.to_vec()) == want_u)?;
    same("tangents", tangent_buffer(&m) == want_t)?;
    ctx.compared();
    Ok(())
}
/// Families of the other properties explored on these builds too.
fn reused() -> Vec<Family> {
    let skip = [("C03", "documented_angle"), ("C06", "segment_limit"), ("C15", "savable"), ("C11", "magic"), ("C11", "versions"), ("C23", "lengths"), ("C13", "large"), ("C06", "counts"), ("C06", "names")];
    let mut out = vec![];
    for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C22", "C23"] {
        for mut f in families(p).unwrap_or_default() {
            if !skip.contains(&(p, f.name)) {
                f.name = Box::leak(format!("{p}_{}", f.name).into_boxed_str());
                out.push(f);
            }
        }
    }
    out
}
pub fn c26() -> Vec<Family> {
    let mut f = vec![
        dfs("full_width", "index arrays of 6 kinds: maxima around every power of two of the index type x 9 patterns x lengths, with and without data", |ctx| {
            let kind = ctx.choose(6);
            let top = ctx.pick(&maxima());
            let pat = ctx.choose(PATTERNS);
            let n = ctx.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 63, 64, 65, 100, 129, 300]);
            let data = ctx.flag();
            ctx.note(|| format!("{}: pattern {pat}, maximum {top}, length {n}", IKINDS[kind]));
            check_idx(ctx, &[kind], &pattern(pat, n, top), data)
        }),
        dfs("full_width_small", "every array of up to 4 indices over 7 values up to the largest one, 6 kinds", |ctx| {
            let kind = ctx.choose(6);
            let n = ctx.choose(5);
            let a: Vec<I> = (0..n).map(|_| ctx.pick(&[0, 1, 2, I::MAX / 2, I::MAX / 2 + 1, I::MAX - 1, I::MAX])).collect();
            ctx.note(|| format!("{}: {a:?}", IKINDS[kind]));
            check_idx(ctx, &[kind], &a, false)
        }),
        dfs("full_width_shared", "one array in every combination of the 6 kinds: maxima around powers of two x patterns", |ctx| {
            let which = 1 + ctx.choose(63);
            let kinds: Vec<usize> = (0..6).filter(|k| which >> k & 1 != 0).collect();
            let top = ctx.pick(&maxima());
            let pat = ctx.choose(PATTERNS);
            let n = ctx.pick(&[3usize, 30, 301]);
            ctx.note(|| format!("kinds {kinds:?}: pattern {pat}, maximum {top}, length {n}"));
            check_idx(ctx, &kinds, &pattern(pat, n, top), false)
        }),
        dfs("too_large", "files with an index around the limit of every index type, in every kind of segment and position, both layouts: read exactly if it fits, else refused", |ctx| {
            let v01 = ctx.flag();
            let what = ctx.choose(9);
            let n = ctx.pick(&[1usize, 2, 3, 5, 8]);
            let pos = ctx.choose(n);
            let bits = ctx.pick(&[0u8, 16, 17, 18, 32, 33, 34, 48, 63, 64]);
            let mask = if bits == 0 { 0 } else { u64::MAX >> (64 - bits) };
            let min = if v01 { 0 } else { ctx.pick(&[0u64, 1, 65535, 65536, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, u64::MAX - 1, u64::MAX]) };
            let big = ctx.pick(&[0u64, 65534, 65535, 65536, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) | 4, 1 << 48, u64::MAX]) & mask;
            let codes: Vec<u64> = (0..n as u64).map(|i| if i == pos as u64 { big } else { (i % 3) & mask }).collect();
            let want: Option<Vec<I>> = codes.iter().map(|c| c.checked_add(min).and_then(|i| I::try_from(i).ok())).collect();
            let t = |k| Seg { ty: k, comp: 0, data: pl_tris(v01, bits, min, &codes) };
            let (s, k): (Seg, &[usize]) = match what {
                0 => (t(VTRI), &[0]),
                1 => (t(NTRI), &[1]),
                2 => (t(UTRI), &[2]),
                3 => (t(TTRI), &[3]),
                4 => (Seg { ty: CINDEX, comp: 0, data: pl_name(b"index", pl_tris(v01, bits, min, &codes)) }, &[4]),
                5 => (Seg { ty: CINT, comp: 0, data: pl_name(b"integer", pl_tris(v01, bits, min, &codes)) }, &[5]),
                6 => (Seg { ty: SHARED, comp: 0, data: pl_shared(v01, 3, bits, min, &codes) }, &[0, 1]),
                7 => (Seg { ty: SHARED, comp: 0, data: pl_shared(v01, 6, bits, min, &codes) }, &[1, 2]),
                _ => (Seg { ty: SHARED, comp: 0, data: pl_shared(v01, 7, bits, min, &codes) }, &[0, 1, 2]),
            };
            let segs = vec![Seg { ty: VTRI, comp: 0, data: pl_tris(v01, 2, 0, &[]) }, s];
            let b = crate::refcodec::build(v01, &[FileMesh { name: "m".into(), segs }]);
            ctx.note(|| format!("0.1 {v01}, segment {what}, {bits} bits, minimum {min}, codes {codes:?}"));
            ctx.state(H::new().bytes(&b));
            ctx.step();
            match (load_r(&b)?, want) {
                (Err(_), None) => (),
                (Ok(_), None) => return fail("an index that does not fit the index type is not refused"),
                (Err(e), Some(w)) => return fail(format!("a file with the indices {w:?} is refused: {e}")),
                (Ok(l), Some(w)) => {
                    ensure!(l.len() == 1, "{} meshes", l.len());
                    for k in k {
                        let g = get_idx(&l[0].0, *k);
                        ensure!(g.as_ref() == Some(&w), "{}: {w:?} read as {g:?}", IKINDS[*k]);
                    }
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("positions", "vertices needing the whole mantissa: offset x extent x shape x precision x triangles or not, bound at the rounding of the float type", |ctx| {
            let off = ctx.pick(&[0.0f64, 1.0, -1e3, 1e6, -3e8, 1e12]);
            let ext = ctx.pick(&[1e-6f64, 1e-3, 1.0, 40.0, 1e5, 1e9]);
            let p = ctx.pick(&[1.0f64, 0.1, 1e-3, 1e-5, 1e-7]) as F;
            let shape = ctx.choose(5);
            let tri = ctx.flag();
            let rot = ctx.choose(4);
            let mut v: Vec<W3> = (0..8usize)
                .map(|i| {
                    let c = |k: usize, s: f64| odd(off) + (ext * s * [0.0, 1.0, 0.37, 0.61, 0.123456789, 0.777, 0.5, 0.999][(i * k + rot) % 8]) as F;
                    match shape {
                        0 => (c(1, 1.0), c(3, 1.0), c(5, 1.0)),
                        1 => (c(1, 1.0), c(3, 1e-3), c(5, 1e-6)),
                        2 => (c(1, 0.0), c(3, 1.0), c(5, 0.3)),
                        3 => (c(1, 1.0), -c(3, 1.0), c(0, 1.0)),
                        _ => (c(7, 1.0), odd(i as f64), c(1, 1.0)),
                    }
                })
                .collect();
            v.rotate_left(rot);
            let tris: Vec<u32> = if tri { vec![0, 1, 2, 3, 4, 5, 6, 7, 0, 2, 5, 1] } else { vec![] };
            ctx.note(|| format!("offset {off} extent {ext} precision {p} shape {shape} triangles {tri} rotated {rot}"));
            ctx.state(hash(&(&v, &tris, p)));
            let mut m = mesh_of(&v, &tris);
            if !tri {
                m = TMFMesh::empty();
                m.set_vertices(&v[..]);
            }
            let (r, _) = round(ctx, m, &TMFPrecisionInfo { vertex_precision: VertexPrecisionMode(p), ..Default::default() })?;
            compare_positions(&v, r.get_vertices().unwrap_or(&[]), &tris, p as f64)?;
            ctx.compared();
            Ok(())
        }),
        dfs("position_scales", "a tetrahedron and a line of points at every power of ten of the float type, three precisions", |ctx| {
            let lim = if WIDE { 150 } else { 37 };
            let e = ctx.choose(2 * lim + 1) as i32 - lim as i32;
            let s = 10f64.powi(e);
            let p = ctx.pick(&[1.0f64, 0.03, 1e-4]) as F;
            let k = ctx.choose(3);
            let g = |x: f64| odd(x * s / 4.0);
            let v: Vec<W3> = match k {
                0 => vec![(g(0.0), g(0.0), g(0.0)), (g(1.0), g(0.0), g(0.0)), (g(0.0), g(1.1), g(0.0)), (g(0.1), g(0.2), g(-1.3))],
                1 => vec![(g(-2.0), g(1.0), g(3.0)), (g(1.0), g(1.0), g(3.0)), (g(2.9), g(1.0), g(3.0)), (g(0.3), g(1.0), g(3.0))],
                _ => vec![(g(1e-3), g(1.0), g(-3.0)), (g(1.0), g(-1.0), g(0.7)), (g(3.0), g(2e-5), g(1.0)), (g(0.3), g(0.1), g(0.2))],
            };
            let tris = [0, 1, 2, 1, 2, 3, 0, 1, 3];
            ctx.note(|| format!("scale 1e{e} precision {p} shape {k}"));
            ctx.state(hash(&(&v, p)));
            let (r, _) = round(ctx, mesh_of(&v, &tris), &TMFPrecisionInfo { vertex_precision: VertexPrecisionMode(p), ..Default::default() })?;
            compare_positions(&v, r.get_vertices().unwrap_or(&[]), &tris, p as f64)?;
            ctx.compared();
            Ok(())
        }),
        dfs("uvs", "UVs needing the whole mantissa, settings down to the resolution of the float type", |ctx| {
            let set = ctx.pick(&[(1024.0f32, 0.1f32), (1.0, 1.0), (4096.0, 0.001), (65536.0, 1e-6), (1e6, 1e-6), (1e7, 1e-7)]);
            let k = ctx.choose(64);
            let prec = set.1 as f64 / set.0 as f64;
            let u: Vec<(F, F)> = (0..9)
                .map(|i| {
                    let x = ((k * 9 + i) as f64 / 575.0 + [0.0, 1e-9, -1e-9, prec, -prec, prec / 2.0][i % 6]).clamp(0.0, 1.0);
                    (x as F, (1.0 - x * x) as F)
                })
                .collect();
            ctx.note(|| format!("setting {set:?} {u:?}"));
            ctx.state(hash(&(&u, k)));
            let mut m = TMFMesh::empty();
            m.set_uvs(&u[..]);
            let (r, _) = round(ctx, m, &TMFPrecisionInfo { uv_prec: UvPrecisionMode::form_texture_resolution(set.0, set.1), ..Default::default() })?;
            let w = r.get_uvs().unwrap_or(&[]);
            ensure!(w.len() == u.len(), "{} uvs became {}", u.len(), w.len());
            for (a, b) in u.iter().zip(w) {
                let e = (a.0 as f64 - b.0 as f64).abs().max((a.1 as f64 - b.1 as f64).abs());
                ensure!(e <= prec * 1.000001 + 4.0 * EPS, "{a:?} became {b:?}: {e:e} off, allowed {prec:e}");
            }
            ctx.compared();
            Ok(())
        }),
        dfs("directions", "normals and tangents on a grid of all octants, settings down to the resolution of the float type", |ctx| {
            let d = ctx.pick(&[90.0f64, 10.0, 1.0, 0.3, 0.05, 1e-3, 1e-5, 1e-7]) as F;
            let oct = ctx.choose(8);
            let el = ctx.choose(31) as f64 * 3.0;
            if !WIDE && d < 0.01 {
                return Ok(());
            }
            let v: Vec<W3> = (0..46).map(|i| dir64(i as f64 * 2.0, el, oct)).collect();
            let t: Vec<(W3, F)> = v.iter().enumerate().map(|(i, x)| (*x, if i % 2 == 0 { 1.0 } else { -1.0 })).collect();
            ctx.note(|| format!("setting {d} octant {oct} elevation {el}"));
            ctx.state(hash(&(&v, d)));
            let mut m = TMFMesh::empty();
            m.set_normals(&v[..]);
            m.set_tangents(&t[..]);
            let p = TMFPrecisionInfo { normal_precision: NormalPrecisionMode::from_deg_dev(d), tangent_prec: TangentPrecisionMode::from_deg_dev(d), ..Default::default() };
            let (r, _) = round(ctx, m, &p)?;
            let (n, g) = (r.get_normals().unwrap_or(&[]), r.get_tangents().unwrap_or(&[]));
            ensure!(n.len() == v.len() && g.len() == v.len(), "count changed");
            for i in 0..v.len() {
                compare_dirs(v[i], n[i], d as f64)?;
                compare_dirs(t[i].0, g[i].0, d as f64)?;
                ensure!(t[i].1 == g[i].1, "tangent {i}: handedness {} became {}", t[i].1, g[i].1);
            }
            ctx.compared();
            Ok(())
        }),
        dfs("custom_values", "custom floats and colours needing the whole mantissa: range x offset x precision x count", |ctx| {
            let p = ctx.pick(&[1.0f64, 0.1, 1e-3, 1e-6, 1e-9, 1e-12]) as F;
            let span = ctx.pick(&[1.0f64, 1e-3, 100.0, 3e4]);
            let off = ctx.pick(&[0.0f64, -7.0, 1e4, -1e8]);
            let n = ctx.pick(&[1usize, 2, 5, 17]);
            let color = ctx.flag();
            if color && (span != 1.0 || off != 0.0) {
                return Ok(());
            }
            let mut m = TMFMesh::empty();
            let x = |i: usize, k: usize| (i * k % n.max(2)) as f64 / n.max(2) as f64 * 0.9999 + 1e-7 / 3.0;
            let f: Vec<F> = (0..n).map(|i| odd(off) + (span * x(i, 3)) as F).collect();
            let c: Vec<(F, F, F, F)> = (0..n).map(|i| (x(i, 1) as F, x(i, 2) as F, 1.0 - x(i, 3) as F, (i % 2) as F)).collect();
            ctx.note(|| format!("precision {p} span {span} offset {off} length {n} colours {color}"));
            ctx.state(hash(&(&f, &c, p, color)));
            let d = if color { CustomData::CustomColorRGBA(c.clone().into(), p) } else { CustomData::CustomFloat(f.clone().into(), p) };
            m.add_custom_data(d, "data").expect("valid name");
            let (r, _) = round(ctx, m, &TMFPrecisionInfo::default())?;
            let g = r.lookup_custom_data("data");
            let (a, b): (Vec<f64>, Vec<f64>) = if color {
                let w = g.and_then(|g| g.as_color_rgba()).map(|x| x.0).unwrap_or(&[]);
                let e = |a: &[(F, F, F, F)]| a.iter().flat_map(|x| [x.0 as f64, x.1 as f64, x.2 as f64, x.3 as f64]).collect::<Vec<f64>>();
                (e(&c), e(w))
            } else {
                let w = g.and_then(|g| g.as_float()).map(|x| x.0).unwrap_or(&[]);
                (f.iter().map(|x| *x as f64).collect(), w.iter().map(|x| *x as f64).collect())
            };
            ensure!(a.len() == b.len(), "{} values became {}", a.len(), b.len());
            let mag = a.iter().fold(0f64, |m, x| m.max(x.abs()));
            for (a, b) in a.iter().zip(&b) {
                ensure!((a - b).abs() <= p as f64 * 1.000001 + mag * 4.0 * EPS, "{a} became {b} with precision {p}");
            }
            ctx.compared();
            Ok(())
        }),
        dfs("exact_operations", "unify, reorder, buffers, clone, verify and OBJ export and import of values needing the whole width: no value changes", |ctx| {
            let scale = ctx.pick(&[1.0f64, 1e-5, 1e7, -3e20]);
            let parts = ctx.choose(4);
            let ops: Vec<usize> = (0..3).map(|_| ctx.choose(5)).collect();
            let (hn, hu) = (parts & 1 != 0, parts & 2 != 0);
            let v: Vec<W3> = (0..5).map(|i| (odd(scale * (i + 1) as f64), odd(scale / (i + 2) as f64), odd(-scale * (i * i) as f64))).collect();
            let n: Vec<W3> = (0..4).map(|i| dir64(17.0 * i as f64 + 1.0, 20.0 * i as f64 + 1.0 / 3.0, i)).collect();
            let u: Vec<(F, F)> = (0..3).map(|i| (1.0 / (i + 3) as F, (1.0 / 7.0 + i as f64 / 9.0) as F)).collect();
            let (vt, nt, ut): (Vec<I>, Vec<I>, Vec<I>) = (vec![4, 1, 2, 0, 3, 1], vec![3, 0, 1, 2, 2, 0], vec![0, 2, 1, 1, 0, 2]);
            let mut m = TMFMesh::empty();
            m.set_vertices(&v[..]);
            m.set_vertex_triangles(&vt[..]);
            if hn {
                m.set_normals(&n[..]);
                m.set_normal_triangles(&nt[..]);
            }
            if hu {
                m.set_uvs(&u[..]);
                m.set_uv_triangles(&ut[..]);
            }
            ctx.note(|| format!("scale {scale} parts {parts} operations {ops:?} (0 none, 1 unify, 2 reorder, 3 clone, 4 OBJ)"));
            ctx.state(hash(&(&v, parts, &ops)));
            for o in &ops {
                ctx.step();
                m = match sut(move || match o {
                    0 => Ok(m),
                    1 => {
                        m.unify_index_data();
                        Ok(m)
                    }
                    2 => {
                        m.reorder_data();
                        Ok(m)
                    }
                    3 => Ok(m.clone()),
                    _ => {
                        let mut b = vec![];
                        m.write_obj_one(&mut b, "m").and_then(|()| TMFMesh::read_from_obj_one(&mut &b[..])).map(|x| x.0)
                    }
                }) {
                    Ok(Ok(m)) => m,
                    Ok(Err(e)) => return fail(format!("operation {o}: {e}")),
                    Err(p) => return fail(format!("operation {o} panicked: {p}")),
                };
            }
            ensure!(m.verify().is_ok(), "verify: {:?}", m.verify());
            let want = |a: &[W3], t: &[I]| t.iter().map(|i| a[*i as usize]).collect::<Vec<_>>();
            ensure!(m.get_vertex_buffer().map(|x| x.to_vec()) == Some(want(&v, &vt)), "corner positions changed: {:?}", m.get_vertex_buffer());
            if hn {
                let g = m.get_normal_buffer().map(|x| x.to_vec());
                ensure!(g == Some(want(&n, &nt)), "corner normals changed from {:?} to {g:?}", want(&n, &nt));
            }
            if hu {
                let w: Vec<(F, F)> = ut.iter().map(|i| u[*i as usize]).collect();
                let g = m.get_uv_buffer().map(|x| x.to_vec());
                ensure!(g == Some(w.clone()), "corner UVs changed from {w:?} to {g:?}");
            }
            ctx.compared();
            Ok(())
        }),
        dfs("normalize", "directions at every power of two of the float type", |ctx| {
            let (lo, hi) = if WIDE { (-1060, 1023) } else { (-140, 127) };
            let e = lo + ctx.choose((hi - lo) as usize) as i32;
            let (a, el, oct) = (ctx.pick(&[0.0f64, 10.0, 45.0, 89.0]), ctx.pick(&[0.0f64, 30.0, 60.0, 90.0]), ctx.choose(8));
            let d = dir64(a, el, oct);
            // in two steps: the power itself may be subnormal
            let k = 2f64.powi(e / 2) as F;
            let k2 = 2f64.powi(e - e / 2) as F;
            let x = (d.0 * k * k2, d.1 * k * k2, d.2 * k * k2);
            ctx.note(|| format!("{x:?}"));
            ctx.state(hash(&x));
            let mut m = TMFMesh::empty();
            m.set_normals([x, x]);
            ctx.step();
            let m = match sut(move || {
                m.normalize();
                m
            }) {
                Ok(m) => m,
                Err(p) => return fail(format!("normalize panicked: {p}")),
            };
            let r = m.get_normals().unwrap_or(&[]);
            ensure!(r.len() == 2, "count changed");
            // near the smallest numbers the input itself has few bits
            let tol = 8.0 * EPS + if WIDE && e < -1000 { 1e-2 } else if !WIDE && e < -120 { 1e-2 } else { 0.0 };
            for r in r {
                let l = as64(*r).iter().map(|x| x * x).sum::<f64>().sqrt();
                ensure!((l - 1.0).abs() <= 8.0 * EPS, "{x:?} normalized to {r:?} of length {l}");
                ensure!(dist(*r, d) <= tol + 8.0 * EPS, "{x:?} normalized to {r:?}, its direction is {d:?}");
            }
            ctx.compared();
            Ok(())
        }),
        dfs("whole_range", "meshes using every index of a 16-bit index type (65536 elements, 0 or more corners on top) in 6 orders: saved, loaded, reordered, unified, expanded, exported and imported", |ctx| {
            let order = ctx.choose(6);
            let parts = ctx.choose(4);
            let n = ctx.pick(&[65_535u64, 65_536]);
            let extra = ctx.choose(3);
            let op = ctx.choose(5);
            ctx.note(|| format!("{n} elements in order {order}, parts {parts}, {extra} more triangles, operation {op}"));
            let perm = |i: u64| -> u64 {
                match order {
                    0 => i,
                    1 => n - 1 - i,
                    2 => i * 32_749 % n,
                    3 => (i + n / 2) % n,
                    4 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
                    _ => i ^ (i < n & !1) as u64,
                }
            };
            let mut t: Vec<I> = (0..n).map(|i| perm(i) as I).collect();
            for e in 0..extra as u64 {
                t.extend([(n - 1) as I, (n - 2 - e) as I, (n - 1) as I]);
            }
            while t.len() % 3 != 0 {
                t.push((n - 1) as I);
            }
            let mut m = TMFMesh::empty();
            m.set_vertices((0..n).map(|i| (i as F, (i % 7) as F, (i / 7) as F)).collect::<Vec<_>>());
            m.set_vertex_triangles(&t[..]);
            if parts & 1 != 0 {
                m.set_normals((0..n).map(|i| (0.0, i as F + 0.5, 1.0)).collect::<Vec<_>>());
                m.set_normal_triangles(t.iter().map(|i| perm(*i as u64) as I).collect::<Vec<_>>());
            }
            if parts & 2 != 0 {
                m.set_uvs((0..n).map(|i| (i as F / 65536.0, 0.0)).collect::<Vec<_>>());
                m.set_uv_triangles(t.iter().map(|i| (n - 1) as I - *i).collect::<Vec<_>>());
            }
            ctx.state(hash(&(order, parts, n, extra, op)));
            compare_ops(ctx, m, op)
        }),
        dfs("many_combinations", "index arrays with about as many different combinations as a 16-bit index type counts: unifying keeps what every corner selects", |ctx| {
            let a = ctx.pick(&[2u64, 255, 256, 257, 300]);
            let b = ctx.pick(&[1u64, 254, 255, 256, 257, 300]);
            let parts = 1 + ctx.choose(7);
            let rep = ctx.flag();
            ctx.note(|| format!("{a} x {b} combinations, parts {parts}, repeated {rep}"));
            let pairs: Vec<(u64, u64)> = (0..a).flat_map(|x| (0..b).map(move |y| (x, y))).collect();
            let pairs: Vec<(u64, u64)> = if rep { pairs.iter().chain(pairs.iter().rev()).copied().collect() } else { pairs };
            let first: Vec<I> = pairs.iter().map(|p| p.0 as I).collect();
            let second: Vec<I> = pairs.iter().map(|p| p.1 as I).collect();
            let mut m = TMFMesh::empty();
            m.set_vertices((0..a).map(|i| (i as F, 1.0, 0.0)).collect::<Vec<_>>());
            m.set_vertex_triangles(&first[..]);
            if parts & 1 != 0 {
                m.set_normals((0..b).map(|i| (0.0, i as F, 1.0)).collect::<Vec<_>>());
                m.set_normal_triangles(&second[..]);
            }
            if parts & 2 != 0 {
                m.set_uvs((0..b).map(|i| (0.0, i as F)).collect::<Vec<_>>());
                m.set_uv_triangles(&second[..]);
            }
            if parts & 4 != 0 {
                m.set_tangents((0..a).map(|i| ((0.0, 1.0, i as F), 1.0)).collect::<Vec<_>>());
                m.set_tangent_triangles(&first[..]);
            }
            ctx.state(hash(&(a, b, parts, rep)));
            compare_ops(ctx, m, 1)
        }),
        dfs("export_many", "OBJ files of several meshes with more vertices together than the index type counts: every corner refers to its own vertex", |ctx| {
            let n = ctx.pick(&[3usize, 30_000, 65_534]);
            let meshes = 1 + ctx.choose(3);
            let parts = ctx.choose(4);
            ctx.note(|| format!("{meshes} meshes of {n} elements, parts {parts}"));
            let mk = |k: usize| {
                let last = n as I - 1;
                let t: Vec<I> = vec![0, last, last / 2, last, 1, 2];
                let mut m = TMFMesh::empty();
                m.set_vertices((0..n).map(|i| (i as F, k as F, 0.5)).collect::<Vec<_>>());
                m.set_vertex_triangles(&t[..]);
                if parts & 1 != 0 {
                    m.set_normals((0..n).map(|i| (0.0, i as F, k as F)).collect::<Vec<_>>());
                    m.set_normal_triangles(&t[..]);
                }
                if parts & 2 != 0 {
                    m.set_uvs((0..n).map(|i| (i as F, k as F)).collect::<Vec<_>>());
                    m.set_uv_triangles(&t[..]);
                }
                (m, format!("m{k}"))
            };
            let l: Vec<(TMFMesh, String)> = (0..meshes).map(mk).collect();
            ctx.state(hash(&(n, meshes, parts)));
            ctx.step();
            let mut b = vec![];
            match sut(|| TMFMesh::write_obj(&l, &mut b)) {
                Ok(Ok(())) => (),
                Ok(Err(e)) => return fail(format!("export refused: {e}")),
                Err(p) => return fail(format!("export panicked: {p}")),
            }
            let text = String::from_utf8_lossy(&b).into_owned();
            let (mut v, mut vn, mut vt, mut object) = (vec![], vec![], vec![], 0usize);
            let mut corners = 0;
            for line in text.lines() {
                let mut w = line.split_whitespace();
                match w.next() {
                    Some("o") => object += 1,
                    Some("v") => v.push(w.map(str::to_string).collect::<Vec<_>>()),
                    Some("vn") => vn.push(w.map(str::to_string).collect::<Vec<_>>()),
                    Some("vt") => vt.push(w.map(str::to_string).collect::<Vec<_>>()),
                    Some("f") => {
                        let last = n - 1;
                        for c in w {
                            let want = [0, last, last / 2, last, 1, 2][corners % 6];
                            corners += 1;
                            let own = ((object - 1) * n + want + 1).to_string();
                            let x = match parts { 0 => own.clone(), 1 => format!("{own}//{own}"), 2 => format!("{own}/{own}"), _ => format!("{own}/{own}/{own}") };
                            ensure!(c == x, "corner {c} of object {object} instead of {x}");
                        }
                    }
                    _ => (),
                }
            }
            ensure!(corners == 6 * meshes && v.len() == n * meshes, "{corners} corners, {} vertices", v.len());
            ensure!(vn.len() == if parts & 1 != 0 { n * meshes } else { 0 } && vt.len() == if parts & 2 != 0 { n * meshes } else { 0 }, "normals or UVs missing");
            ctx.compared();
            Ok(())
        }),
    ];
    if cfg!(any(feature = "wide", feature = "short")) {
        f.extend(reused());
    }
    f
}
