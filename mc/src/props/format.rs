//! C11 the file format is stable: an independent codec of both layouts against the real one.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
use tmf::*;

fn first_names(s: &mut Snap) {
    let mut out: Vec<(String, Cd)> = vec![];
    for c in std::mem::take(&mut s.c) {
        if !out.iter().any(|d| d.0 == c.0) {
            out.push(c);
        }
    }
    s.c = out;
}
/// The crate must load `b` and see in it what the independent decoder sees.
fn agree(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.state(H::new().bytes(b));
    let p = match parse(b) {
        Ok(p) => p,
        Err(e) => return engine_error(format!("the independent reader cannot parse its own file: {e}")),
    };
    let want: Vec<Snap> = match p.meshes.iter().map(|m| decode(m, p.v01)).collect() {
        Ok(w) => w,
        Err(e) => return engine_error(format!("the independent decoder cannot decode its own file: {e}")),
    };
    agree_with(ctx, b, &p, want)
}
fn agree_with(ctx: &mut Ctx, b: &[u8], p: &Parsed, want: Vec<Snap>) -> R {
    let got = load(b)?;
    ctx.step();
    ensure!(got.len() == want.len(), "{} meshes in the file, {} loaded", want.len(), got.len());
    for (i, (((m, n), mut w), fm)) in got.iter().zip(want).zip(&p.meshes).enumerate() {
        ensure!(n.as_bytes() == fm.name, "mesh {i}: name {:?} read as {n:?}", String::from_utf8_lossy(&fm.name));
        first_names(&mut w);
        let g = Snap::of(m, &w.names());
        if let Err(e) = same_at(&w, &g, scale(fm)) {
            return fail(format!("mesh {i} of a {} file: {e}", if p.v01 { "0.1" } else { "0.2" }));
        }
    }
    ctx.compared();
    Ok(())
}
fn one(v01: bool, segs: Vec<Seg>) -> Vec<u8> {
    build(v01, &[FileMesh { name: "ń".into(), segs }])
}
fn seg(ty: u16, data: Vec<u8>) -> Seg {
    Seg { ty, comp: 0, data }
}
fn mask(bits: u8) -> u64 {
    if bits == 0 { 0 } else { u64::MAX >> (64 - bits) }
}
/// Code patterns: extremes, alternations and bits walking through the packed data.
fn codes(kind: usize, n: usize, bits: u8) -> Vec<u64> {
    let m = mask(bits);
    (0..n as u64)
        .map(|i| match kind {
            0 => m,
            1 => i & m,
            2 => if i % 2 == 0 { m } else { 0 },
            3 => 1u64.wrapping_shl(i as u32 % bits.max(1) as u32) & m,
            4 => (m / 3).wrapping_add(i) & m,
            5 => m - (i & m),
            _ => (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) & m,
        })
        .collect()
}
const KINDS: usize = 7;
/// Palette of segments for sequences.
fn palette(v01: bool) -> Vec<Seg> {
    let tri = |b, m, c: &[u64]| pl_tris(v01, b, if v01 { 0 } else { m }, c);
    let mut o = vec![
        seg(VERTEX, pl_vertices([0.0, -1.0, 2.0], [1.0, 1.0, 4.0], [3, 2, 9], &[[0, 0, 0], [7, 3, 511]])),
        seg(VERTEX, pl_vertices([-5.0; 3], [5.0; 3], [1, 1, 7], &[[1, 0, 99]])),
        seg(VTRI, tri(3, 0, &[0, 1, 2])),
        seg(VTRI, tri(17, t(70_000) as u64 / 2, &[1, 0, t(99_999) as u64 / 2])),
        seg(NORMAL, pl_normals(7, &[(0, 0, 0), (127, 3, 5), (64, 127, 7)])),
        seg(NTRI, tri(8, 3, &[0, 200, 9])),
        seg(UV, pl_uvs(10, &[(0, 1023), (512, 1)])),
        seg(UTRI, tri(4, 1, &[9, 8, 7, 6])),
        seg(TANGENT, pl_tangents(5, &[(1, 2, 15), (31, 31, 0)])),
        seg(TTRI, tri(33, 0, &[4, 7])),
        seg(CINDEX, pl_name(b"a", tri(6, 2, &[1, 61, 9]))),
        seg(CINT, pl_name("ż".as_bytes(), tri(32, 0, &[TOP as u64, 0]))),
        seg(CFLOAT, pl_name(b"f", pl_cfloat(-1.0, 3.0, 4, &[0, 15, 8]))),
        seg(CRGBA, pl_name(b"a", pl_crgba(8, &[[0, 255, 128, 1]]))),
        seg(SHARED, pl_shared(v01, 7, 2, 0, &[0, 1, 2, 3])),
        seg(SHARED, pl_shared(v01, 5, 3, 0, &[5])),
        seg(INVALID, vec![]),
        Seg { ty: 200, comp: 2, data: vec![1, 2, 3] },
        seg(7, vec![0; 30]),
        seg(VERTEX, pl_vertices([0.0; 3], [1.0; 3], [4; 3], &[])),
        seg(NTRI, tri(0, 6, &[0, 0])),
    ];
    if v01 {
        o.push(seg(0x0101, vec![9; 12]));
    }
    o
}
const DIR_BITS: [u8; 14] = [1, 2, 3, 7, 8, 9, 13, 16, 17, 23, 24, 25, 31, 32];
pub fn families() -> Vec<Family> {
    vec![
        dfs("index_payloads", "index segments of every kind in both layouts: bits 0..=64 x count 0..=9 x minimum x 7 code patterns", |ctx| {
            let v01 = ctx.flag();
            let bits = ctx.choose(65) as u8;
            let n = ctx.choose(10);
            let min = if v01 { 0 } else { ctx.pick(&[0u32, 1, 255, 256, 70_000, 1 << 31, TOP - 15, TOP].map(t)) as u64 };
            let what = ctx.choose(6 + 7);
            let pat = ctx.choose(KINDS);
            let c: Vec<u64> = codes(pat, n, bits).into_iter().map(|x| x.min(TOP as u64 - min)).collect();
            let s = match what {
                0 => seg(VTRI, pl_tris(v01, bits, min, &c)),
                1 => seg(NTRI, pl_tris(v01, bits, min, &c)),
                2 => seg(UTRI, pl_tris(v01, bits, min, &c)),
                3 => seg(TTRI, pl_tris(v01, bits, min, &c)),
                4 => seg(CINDEX, pl_name(b"n", pl_tris(v01, bits, min, &c))),
                5 => seg(CINT, pl_name(b"n", pl_tris(v01, bits, min, &c))),
                m => seg(SHARED, pl_shared(v01, (m - 5) as u8, bits, min, &c)),
            };
            ctx.note(|| format!("0.1 {v01} {s:?}"));
            agree(ctx, &one(v01, vec![s]))
        }),
        dfs("direction_payloads", "normal and tangent segments: bits x code pairs at the limits x all signs x count 1..=4 x layout", |ctx| {
            let v01 = ctx.flag();
            let tan = ctx.flag();
            let bits = ctx.pick(&DIR_BITS);
            let m = mask(bits);
            let alpha = [0, 1 & m, m / 3, m / 2, m.saturating_sub(1), m];
            let n = 1 + ctx.choose(4);
            let (a, z, s) = (ctx.pick(&alpha), ctx.pick(&alpha), ctx.choose(16) as u8);
            if !tan && s > 7 {
                return Ok(());
            }
            let c: Vec<_> = (0..n as u64).map(|i| if i == 0 { (a, z, s) } else { (a.wrapping_add(i * 77) & m, z.wrapping_mul(i) & m, s ^ i as u8) }).collect();
            let sg = if tan { seg(TANGENT, pl_tangents(bits, &c)) } else { seg(NORMAL, pl_normals(bits, &c)) };
            ctx.note(|| format!("0.1 {v01} tangents {tan} bits {bits} {c:?}"));
            agree(ctx, &one(v01, vec![sg]))
        }),
        dfs("vertex_payloads", "vertex segments: all bit triples over 11 widths x bounds x 4 code patterns x count", |ctx| {
            const B: [u8; 11] = [1, 2, 5, 8, 9, 16, 23, 24, 31, 32, 52];
            let v01 = ctx.flag();
            let bits = [ctx.pick(&B), ctx.pick(&B), ctx.pick(&B)];
            let lim = ctx.pick(&[(-1.0, 1.0), (5.0, 5.0), (-1000.0, 7.5), (0.0, 0.001), (-3.0, -2.0)]);
            let n = ctx.pick(&[0usize, 1, 2, 5]);
            let pat = ctx.pick(&[0usize, 2, 4, 6]);
            let k = [codes(pat, n, bits[0]), codes(5, n, bits[1]), codes(3, n, bits[2])];
            let c: Vec<[u64; 3]> = (0..n).map(|i| [k[0][i], k[1][i], k[2][i]]).collect();
            ctx.note(|| format!("0.1 {v01} bits {bits:?} bounds {lim:?} {c:?}"));
            agree(ctx, &one(v01, vec![seg(VERTEX, pl_vertices([lim.0, 0.0, -lim.1], [lim.1, 2.0, -lim.0], bits, &c))]))
        }),
        dfs("scalar_payloads", "UV, custom float and colour segments: bits 1..=52 (0 for UVs) x count 0..=6 x bounds x code patterns x names", |ctx| {
            let v01 = ctx.flag();
            let kind = ctx.choose(3);
            let bits = ctx.choose(53) as u8;
            if bits == 0 && kind != 0 {
                return Ok(());
            }
            let n = ctx.choose(7);
            let pat = ctx.choose(KINDS);
            let (c, d) = (codes(pat, n, bits), codes((pat + 3) % KINDS, n, bits));
            let name: String = if kind > 0 { ctx.pick(&["f", "ż漢", "LONG"]).replace("LONG", &"x".repeat(255)) } else { String::new() };
            let s = match kind {
                0 => seg(UV, pl_uvs(bits, &c.iter().zip(&d).map(|x| (*x.0, *x.1)).collect::<Vec<_>>())),
                1 => {
                    let (lo, hi) = ctx.pick(&[(-1.0, 1.0), (0.0, 0.0), (2.5, 2.5), (-1e6, 3.0), (0.1, 0.2)]);
                    seg(CFLOAT, pl_name(name.as_bytes(), pl_cfloat(lo, hi, bits, &c)))
                }
                _ => seg(CRGBA, pl_name(name.as_bytes(), pl_crgba(bits, &c.iter().zip(&d).map(|x| [*x.0, *x.1, x.0 ^ x.1, *x.0]).collect::<Vec<_>>()))),
            };
            ctx.note(|| format!("0.1 {v01} {s:?}"));
            agree(ctx, &one(v01, vec![s]))
        }),
        dfs("large_payloads", "segments of every kind with numbers of elements around every power of two up to 2^17 (2^20 thorough) x 5 widths x layout", |ctx| {
            let v01 = ctx.flag();
            let c = many(ctx.thorough);
            let n = ctx.pick(&c);
            if n > TOP as usize {
                return Ok(());
            }
            let kind = ctx.choose(12);
            let bits = ctx.pick(&[3u8, 8, 11, 17, 24]);
            ctx.note(|| format!("0.1 {v01} kind {kind}, {n} elements of {bits} bits"));
            let (a, b) = (codes(6, n, bits), codes(1, n, bits));
            let i: Vec<u64> = a.iter().map(|x| (*x).min(TOP as u64 - 1)).collect();
            let s = match kind {
                0 => seg(VTRI, pl_tris(v01, bits, 0, &i)),
                1 => seg(NTRI, pl_tris(v01, bits, if v01 { 0 } else { 1 }, &i)),
                2 => seg(UTRI, pl_tris(v01, bits, 0, &i)),
                3 => seg(TTRI, pl_tris(v01, bits, 0, &i)),
                4 => seg(CINDEX, pl_name(b"n", pl_tris(v01, bits, 0, &i))),
                5 => seg(SHARED, pl_shared(v01, 7, bits, 0, &i)),
                6 => seg(NORMAL, pl_normals(bits, &a.iter().zip(&b).map(|x| (*x.0, *x.1, (*x.0 & 7) as u8)).collect::<Vec<_>>())),
                7 => seg(TANGENT, pl_tangents(bits, &a.iter().zip(&b).map(|x| (*x.0, *x.1, (*x.0 & 15) as u8)).collect::<Vec<_>>())),
                8 => seg(UV, pl_uvs(bits, &a.iter().zip(&b).map(|x| (*x.0, *x.1)).collect::<Vec<_>>())),
                9 => seg(VERTEX, pl_vertices([0.0, -1.0, 2.0], [1.0, 1.0, 4.0], [bits, 1, bits], &a.iter().zip(&b).map(|x| [*x.0, *x.1 & 1, *x.1]).collect::<Vec<_>>())),
                10 => seg(CFLOAT, pl_name(b"n", pl_cfloat(-1.0, 3.0, bits, &a))),
                _ => seg(CRGBA, pl_name(b"n", pl_crgba(bits, &a.iter().zip(&b).map(|x| [*x.0, *x.1, *x.1, *x.0]).collect::<Vec<_>>()))),
            };
            agree(ctx, &one(v01, vec![s]))
        }),
        dfs("many_parts", "files of many meshes, and meshes of many segments (known ones, ones of unknown types, empty ones), around every power of two up to 2^16 and the limit of the counter", |ctx| {
            let v01 = ctx.flag();
            let meshes = ctx.flag();
            let c: Vec<usize> = many(false).into_iter().filter(|n| meshes || *n < 65_536).collect();
            let n = ctx.pick(&c);
            let kind = ctx.choose(4);
            ctx.note(|| format!("0.1 {v01}, {n} {} of kind {kind}", if meshes { "meshes" } else { "segments" }));
            let tri = seg(VTRI, pl_tris(v01, 9, 0, &[1, 2, 300.min(TOP as u64)]));
            let segs = |i: usize| match kind {
                0 => seg(200, vec![7; i % 5]),
                1 => seg(INVALID, vec![]),
                2 => if i % 2 == 0 { seg(201, vec![]) } else { seg(199, vec![1, 2, 3]) },
                _ => seg(CINT, pl_name(b"n", pl_tris(v01, 3, 0, &[i as u64 % 8]))),
            };
            let l = if meshes {
                (0..n).map(|i| FileMesh { name: vec![b'a' + (i % 26) as u8; i % 3], segs: if kind == 3 && i % 1000 == 0 { vec![tri.clone()] } else if kind == 0 { vec![segs(i)] } else { vec![] } }).collect()
            } else {
                let mut s: Vec<Seg> = (1..n).map(segs).collect();
                s.push(tri);
                vec![FileMesh { name: b"m".to_vec(), segs: s }, FileMesh { name: b"after".to_vec(), segs: vec![palette(v01)[0].clone()] }]
            };
            agree(ctx, &build(v01, &l))
        }),
        dfs("sequences", "all sequences of 0..=3 (4 thorough) segments out of 21, alone or followed by another mesh, in both layouts", |ctx| {
            let v01 = ctx.flag();
            let pal = palette(v01);
            let n = ctx.choose(if ctx.thorough { 5 } else { 4 });
            let segs: Vec<Seg> = (0..n).map(|_| ctx.pick_ref(&pal).clone()).collect();
            let more = ctx.flag();
            ctx.note(|| format!("0.1 {v01} types {:?}, another mesh {more}", segs.iter().map(|s| s.ty).collect::<Vec<_>>()));
            let mut l = vec![FileMesh { name: b"m".to_vec(), segs: segs.clone() }];
            if more {
                l.push(FileMesh { name: b"".to_vec(), segs: segs.into_iter().rev().collect() });
            }
            agree(ctx, &build(v01, &l))
        }),
        dfs("unknown", "every unknown segment type x data length x declared compression x place among known segments, in both layouts", |ctx| {
            let v01 = ctx.flag();
            let k = ctx.choose(if v01 { 262 } else { 256 });
            let ty = if k < 256 { k as u16 } else { [256u16, 257, 258, 0x1900, 0xff01, 65535][k - 256] };
            if [VERTEX, VTRI, NORMAL, NTRI, UV, UTRI, TANGENT, TTRI, CINDEX, CFLOAT, CRGBA, CINT, SHARED].contains(&ty) {
                return Ok(());
            }
            let n = ctx.pick(&[0usize, 1, 2, 3, 9, 17, 100, 300]);
            let comp = ctx.pick(&[0u8, 1, 2, 255]);
            let at = ctx.choose(4);
            let fill = ctx.pick(&[0u8, 0xff, 1]);
            let u = Seg { ty, comp, data: vec![fill; n] };
            let p = palette(v01);
            let mut segs = vec![p[0].clone(), p[2].clone(), p[12].clone()];
            segs.insert(at, u.clone());
            if at == 0 {
                segs.push(u);
            }
            ctx.note(|| format!("0.1 {v01} type {ty} compression {comp} {n} x {fill} at {at}"));
            agree(ctx, &one(v01, segs))
        }),
        dfs("versions", "all combinations of the four version fields over 8 values: refused exactly when a reader newer than 0.2 is demanded, else read in the layout the minimum names", |ctx| {
            let a = [0u16, 1, 2, 3, 4, 255, 256, 65535];
            let v = [ctx.pick(&a), ctx.pick(&a), ctx.pick(&a), ctx.pick(&a)];
            let cut = ctx.flag();
            let newer = v[2] > 0 || v[3] > 2;
            let v01 = v[3] < 2;
            let mut b = header(v[0], v[1], v[2], v[3], 2);
            for m in hand(v01).iter().take(2) {
                b.extend(mesh_bytes(m, v01));
            }
            if cut && newer {
                b.truncate(11);
            }
            ctx.note(|| format!("version {v:?}, header only {cut}"));
            if newer {
                ctx.state(H::new().bytes(&b));
                ctx.step();
                return match load_r(&b)? {
                    Err(TMFImportError::NewerVersionRequired) => {
                        ctx.compared();
                        Ok(())
                    }
                    Err(e) => fail(format!("a file demanding a {}.{} reader gives {e:?}", v[2], v[3])),
                    Ok(_) => fail(format!("a file demanding a {}.{} reader is read", v[2], v[3])),
                };
            }
            agree(ctx, &b)
        }),
        dfs("magic", "the magic with every byte replaced by every value, rotations, and the starts of other file types", |ctx| {
            let mut b = build(false, &hand(false));
            match ctx.choose(2) {
                0 => {
                    let i = ctx.choose(3);
                    let v = ctx.choose(256) as u8;
                    if b[i] == v {
                        return Ok(());
                    }
                    b[i] = v;
                }
                _ => {
                    let s: &[u8] = *ctx.pick_ref(&[&b"MFT"[..], b"FTM", b"tmf", b"FMT", b"PK\x03\x04", b"\x89PNG\r\n", b"# OBJ file\n", b"Kaydara FBX", b"\0TMF", b"\xef\xbb\xbfTMF", b"glTF", b"o mesh\nv 1 2 3\n"]);
                    let rest = b.split_off(3);
                    b = s.to_vec();
                    b.extend(rest);
                }
            }
            ctx.note(|| format!("{:02x?}", &b[..8]));
            ctx.state(H::new().bytes(&b));
            ctx.step();
            match load_r(&b)? {
                Err(TMFImportError::NotTMFFile) => {
                    ctx.compared();
                    Ok(())
                }
                Err(e) => fail(format!("a file that starts with {:02x?} gives {e:?}", &b[..4])),
                Ok(_) => fail(format!("a file that starts with {:02x?} is read", &b[..4])),
            }
        }),
        dfs("written", "meshes of 14 kinds x settings, in lists of one and two: version fields, segment types and compression as the format demands, and the independent decoder sees what the crate loads", |ctx| {
            let (w, s) = ctx.pick_ref(snaps());
            let p = Prec { v: ctx.pick(&[0.9f32, 0.1, 0.001]), n_deg: ctx.pick(&[45.0f32, 1.0, 0.01]), u: (1024.0, ctx.pick(&[1024.0f32, 1.0, 0.001])), t_deg: ctx.pick(&[30.0f32, 0.5]) };
            let two = ctx.choose(snaps().len() + 1);
            ctx.note(|| format!("{w} with {two} under {p:?}"));
            let mut l = vec![(s.build(), "żó".to_string())];
            if two > 0 {
                l.push((snaps()[two - 1].1.build(), String::new()));
            }
            written(ctx, &l, &p)
        }),
        dfs("written_indices", "12 index patterns x 40 maxima x lengths x kind of array", |ctx| {
            let pat = ctx.choose(IDX_PATTERNS);
            let top = { let k = ctx.choose(64); if k < 32 { (1u64 << k) as u32 } else { ((1u64 << (k - 31)) - 1) as u32 } };
            let len = ctx.pick(&[1usize, 2, 3, 7, 16, 33, 64, 130]);
            let kind = ctx.choose(5);
            ctx.note(|| format!("pattern {pat} maximum {top} length {len} kind {kind}"));
            let v = idx_pattern(pat, len, t(top));
            let mut s = Snap::default();
            match kind {
                0 => s.vt = Some(v),
                1 => {
                    s.vt = Some(v.clone());
                    s.nt = Some(v.clone());
                    s.ut = Some(v)
                }
                2 => s.tt = Some(v),
                3 => s.c = vec![("i".into(), Cd::Index(v, top as usize))],
                _ => s.c = vec![("n".into(), Cd::Int(v, top as usize))],
            }
            written(ctx, &[(s.build(), "m".into())], &DEF)
        }),
        dfs("large_written", "arrays of every kind of as many elements as counters, buffers and blocks hold, written and decoded independently", |ctx| {
            let c = many(ctx.thorough);
            let n = ctx.pick(&c);
            let kind = ctx.choose(8);
            let top = ctx.pick(&[1u32, 254, 65_535, 70_000]);
            if n > TOP as usize || top > TOP {
                return Ok(());
            }
            ctx.note(|| format!("kind {kind}, {n} elements, up to {top}"));
            let i = idx_pattern(10, n, top);
            let f = |k: u32| i.iter().map(move |x| (*x as u64 * k as u64 % 1009) as f32 / 1009.0);
            let d = || i.iter().map(|x| dir((*x % 91) as f64, (*x / 7 % 91) as f64, *x as usize % 8));
            let mut s = Snap::default();
            match kind {
                0 => s.vt = Some(i.clone()),
                1 => s.v = Some(f(1).zip(f(7)).zip(f(31)).map(|((x, y), z)| (x, y * 100.0, z)).collect()),
                2 => s.n = Some(d().collect()),
                3 => s.t = Some(d().map(|x| (x, 1.0)).collect()),
                4 => s.u = Some(f(3).zip(f(5)).collect()),
                5 => s.c = vec![("i".into(), Cd::Index(i.clone(), top as usize))],
                6 => s.c = vec![("f".into(), Cd::Float(f(11).collect(), 0.01))],
                _ => s.c = vec![("c".into(), Cd::Rgba(f(11).zip(f(2)).map(|(x, y)| (x, y, x, 1.0)).collect(), 0.01))],
            }
            written(ctx, &[(s.build(), "m".into()), (tri_snap().build(), "after".into())], &DEF)
        }),
        dfs("written_values", "directions, UVs, vertices, floats and colours over small grids x settings", |ctx| {
            let kind = ctx.choose(5);
            let k = ctx.choose(6);
            let (a, e, o) = (ctx.choose(10) as f64 * 10.0, ctx.choose(10) as f64 * 10.0, ctx.choose(8));
            ctx.note(|| format!("kind {kind} setting {k} azimuth {a} elevation {e} octant {o}"));
            let d = dir(a, e, o);
            let c = |x: f32| (x + 1.0) / 2.0;
            let p = Prec { v: [0.9f32, 0.5, 0.1, 0.01, 1e-3, 1e-4][k], n_deg: [90.0f32, 30.0, 5.0, 1.0, 0.1, 0.001][k], u: (4096.0, [4096.0f32, 100.0, 10.0, 1.0, 0.1, 0.001][k]), t_deg: [90.0f32, 30.0, 5.0, 1.0, 0.1, 0.001][k] };
            let mut s = Snap::default();
            match kind {
                0 => s.n = Some(vec![d, (d.2, d.0, d.1)]),
                1 => s.t = Some(vec![(d, if o & 1 == 0 { 1.0 } else { -1.0 })]),
                2 => s.u = Some(vec![(c(d.0), c(d.1)), (c(d.2), 1.0)]),
                3 => s.v = Some(vec![d, (d.1 * 100.0, d.0, -d.2), (0.0, 0.0, 0.0)]),
                _ => s.c = vec![("f".into(), Cd::Float(vec![d.0, d.1 * 7.0, d.2], p.v)), ("c".into(), Cd::Rgba(vec![(c(d.0), c(d.1), c(d.2), 0.5)], p.v))],
            }
            written(ctx, &[(s.build(), "m".into())], &p)
        }),
        dfs("susan", "the TMF file of the repository", |ctx| {
            let b = std::fs::read("/repo/testing/susan.tmf");
            let Ok(b) = b else { return Ok(()) };
            let Ok(p) = parse(&b) else { return Ok(()) };
            ctx.note(|| format!("susan.tmf, version {:?}", p.version));
            ctx.state(H::new().bytes(&b));
            let want: Result<Vec<Snap>, String> = p.meshes.iter().map(|m| decode(m, p.v01)).collect();
            match want {
                Ok(w) => agree_with(ctx, &b, &p, w),
                Err(_) => Ok(()),
            }
        }),
    ]
}
fn written(ctx: &mut Ctx, l: &[(TMFMesh, String)], p: &Prec) -> R {
    let b = save(l, &p.make())?;
    ctx.step();
    ctx.state(H::new().bytes(&b));
    let f = match parse(&b) {
        Ok(f) => f,
        Err(e) => return fail(format!("the written file does not follow the format: {e}")),
    };
    ensure!(f.version == [0, 2, 0, 2], "the file is marked as version {:?}", f.version);
    for m in &f.meshes {
        for s in &m.segs {
            ensure!(s.comp == 0, "a segment of type {} is marked as compressed ({})", s.ty, s.comp);
            ensure!([VERTEX, VTRI, NORMAL, NTRI, UV, UTRI, TANGENT, TTRI, CINDEX, CFLOAT, CRGBA, CINT, SHARED].contains(&s.ty), "segment type {} is not part of the format", s.ty);
        }
    }
    let want: Result<Vec<Snap>, String> = f.meshes.iter().map(|m| decode(m, false)).collect();
    match want {
        Ok(w) => {
            // what was stored exactly must be what was given
            for (i, (w, (m, _))) in w.iter().zip(l).enumerate() {
                let s = Snap::of(m, &[]);
                for (what, a, b) in [("vertex", &s.vt, &w.vt), ("normal", &s.nt, &w.nt), ("UV", &s.ut, &w.ut), ("tangent", &s.tt, &w.tt)] {
                    diff_idx(&format!("mesh {i}, {what} indices in the file"), a, b)?;
                }
            }
            agree_with(ctx, &b, &f, w)
        }
        Err(e) => fail(format!("the written file does not follow the format: {e}")),
    }
}
