//! C21 repeated cycles neither drift nor grow, C24 calls do not depend on what was called before.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
use futures::executor::block_on;
use std::io::ErrorKind;
use std::sync::OnceLock;
use tmf::*;

// ---- C21 --------------------------------------------------------------------------------------------
/// Saves and loads `gens` times; every generation is compared with the first one that was loaded.
fn cycles(ctx: &mut Ctx, start: &[(Snap, String)], p: &Prec, gens: usize) -> R {
    let mut h = H::new();
    for (s, n) in start {
        h = h.u(s.hash().0).s(n);
    }
    ctx.state(h.u(p.v.to_bits() as u64).u(p.n_deg.to_bits() as u64).u(p.u.1.to_bits() as u64).u(p.t_deg.to_bits() as u64));
    let names: Vec<Vec<String>> = start.iter().map(|(s, _)| s.names().iter().map(|x| x.to_string()).collect()).collect();
    let mut list: Vec<(TMFMesh, String)> = start.iter().map(|(s, n)| (s.build(), n.clone())).collect();
    let mut first: Option<Vec<Snap>> = None;
    let mut size = 0;
    let mut cut = vec![false; start.len()];
    for g in 1..=gens {
        let b = save(&list, &p.make())?;
        ctx.step();
        let now = bytes(&b, start);
        if g == 2 {
            size = now;
        }
        ensure!(g <= 2 || now <= size, "the file of save {g} has {now} bytes, that of save 2 has {size}");
        // point clouds that are cut into several boxes may be cut differently once they are quantised
        if let Ok(f) = parse(&b) {
            for (c, m) in cut.iter_mut().zip(&f.meshes) {
                *c |= m.segs.iter().filter(|s| s.ty == VERTEX).count() > 1;
            }
        }
        list = load(&b)?;
        ctx.step();
        ensure!(list.len() == start.len(), "cycle {g}: {} meshes became {}", start.len(), list.len());
        let now: Vec<Snap> = list
            .iter()
            .zip(&names)
            .map(|((m, _), n)| Snap::of(m, &n.iter().map(|x| x.as_str()).collect::<Vec<_>>()))
            .collect();
        for (i, ((_, n), (_, want))) in list.iter().zip(start).enumerate() {
            ensure!(n == want, "cycle {g}: name of mesh {i} {want:?} became {n:?}");
        }
        match &first {
            None => first = Some(now),
            Some(f) => {
                for (i, (a, b)) in f.iter().zip(&now).enumerate() {
                    if let Err(e) = stays(a, b, if cut[i] { Some(p.v as f64 * 0.1) } else { None }) {
                        return fail(format!("cycle {g}, mesh {i} against cycle 1: {e}"));
                    }
                }
            }
        }
    }
    ctx.compared();
    Ok(())
}
/// `b` is `a` up to floating point rounding.  Vertices are compared in point clouds only (`cut`: to this
/// distance instead of exactly): the grid of other meshes follows their shortest edge.
fn stays(a: &Snap, b: &Snap, cut: Option<f64>) -> Result<(), String> {
    let mut b = b.clone();
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        if x.len() != y.len() {
            return Err(format!("{} vertices became {}", x.len(), y.len()));
        }
        if let Some(d) = cut.filter(|_| a.vt.is_none()) {
            let big = x.iter().fold(0f64, |m, v| m.max(v.0.abs() as f64).max(v.1.abs() as f64).max(v.2.abs() as f64));
            let dist = |p: &V3, q: &V3| ((p.0 as f64 - q.0 as f64).powi(2) + (p.1 as f64 - q.1 as f64).powi(2) + (p.2 as f64 - q.2 as f64).powi(2)).sqrt();
            if let Some(i) = (0..x.len()).find(|&i| dist(&x[i], &y[i]) > d * 1.001 + big * 2f64.powi(-20)) {
                return Err(format!("vertex {i} moved from {:?} to {:?}, further than {d}", x[i], y[i]));
            }
        }
        if a.vt.is_some() || cut.is_some() {
            b.v = a.v.clone();
        }
    }
    same(a, &b)
}
/// Size of a file without the vertices of triangle meshes: their grid follows the shortest edge, which
/// quantising may shorten.
fn bytes(b: &[u8], start: &[(Snap, String)]) -> usize {
    let mut n = b.len();
    if let Ok(f) = parse(b) {
        for (m, (s, _)) in f.meshes.iter().zip(start) {
            if s.vt.is_some() {
                n -= m.segs.iter().filter(|s| s.ty == VERTEX).map(|s| s.data.len()).sum::<usize>();
            }
        }
    }
    n
}
fn gens(ctx: &Ctx) -> usize {
    if ctx.thorough { 12 } else { 5 }
}
pub fn c21() -> Vec<Family> {
    vec![
        dfs("meshes", "meshes of 14 kinds x settings from coarse to fine x 5 (12 thorough) cycles, alone and in lists", |ctx| {
            let (w, s) = ctx.pick_ref(snaps());
            let p = Prec { v: ctx.pick(&[0.9f32, 0.5, 0.1, 0.001]), n_deg: ctx.pick(&[45.0f32, 5.0, 1.0, 0.01]), u: (1024.0, ctx.pick(&[1024.0f32, 1.0, 0.001])), t_deg: ctx.pick(&[30.0f32, 0.5]) };
            let two = ctx.choose(snaps().len() + 1);
            ctx.note(|| format!("{w} and {two} under {p:?}"));
            let mut l = vec![(s.clone(), "żółć".to_string())];
            if two > 0 {
                l.push((snaps()[two - 1].1.clone(), String::new()));
            }
            let n = gens(ctx);
            cycles(ctx, &l, &p, n)
        }),
        dfs("large", "meshes of segments over 64 KiB next to small ones, alone and before another x settings", |ctx| {
            let (w, s) = ctx.pick_ref(big_snaps());
            let p = ctx.pick(&[DEF, Prec { v: 0.5, n_deg: 5.0, u: (1024.0, 20.0), t_deg: 10.0 }]);
            let more = ctx.flag();
            ctx.note(|| format!("{w}, another {more}, under {p:?}"));
            let mut l = vec![(s.clone(), "big".to_string())];
            if more {
                l.push((full_snap(), "b".into()));
            }
            cycles(ctx, &l, &p, 3)
        }),
        dfs("directions", "normals and tangents: azimuth x elevation x octant x settings", |ctx| {
            let tan = ctx.flag();
            let deg = ctx.pick(&[90.0f32, 45.0, 20.0, 5.0, 1.0, 0.1, 0.01]);
            let step = if ctx.thorough { 1.25 } else { 5.0 };
            let n = (90.0 / step) as usize + 1;
            let (a, e, o) = (ctx.choose(n) as f64 * step, ctx.choose(n) as f64 * step, ctx.choose(8));
            let d = dir(a, e, o);
            ctx.note(|| format!("tangents {tan} setting {deg} azimuth {a} elevation {e} octant {o}"));
            let s = if tan { Snap { t: Some(vec![(d, if o % 3 == 0 { -1.0 } else { 1.0 }), (dir(a, 30.0, 0), 1.0)]), ..Default::default() } } else { Snap { n: Some(vec![d, dir(30.0, e, 7)]), ..Default::default() } };
            let g = gens(ctx);
            cycles(ctx, &[(s, "d".into())], &Prec { n_deg: deg, t_deg: deg, ..DEF }, g)
        }),
        dfs("uvs", "pairs of coordinates on a grid of 41 and next to it x settings", |ctx| {
            let a: Vec<f32> = (0..41).map(|i| i as f32 / 40.0).chain([1e-7, 0.333_333_34, 0.999_999_9]).collect();
            let (x, y) = (ctx.pick(&a), ctx.pick(&a));
            let dev = ctx.pick(&[4096.0f32, 300.0, 100.0, 7.0, 1.0, 0.1, 0.01, 0.0001]);
            ctx.note(|| format!("({x}, {y}) to {dev} of 1024 pixels"));
            let g = gens(ctx);
            cycles(ctx, &[(Snap { u: Some(vec![(x, y), (y, 1.0)]), ..Default::default() }, "u".into())], &Prec { u: (1024.0, dev), ..DEF }, g)
        }),
        dfs("custom", "custom floats and colours: arrays of 1..=3 values of 12 x precisions", |ctx| {
            let rgba = ctx.flag();
            let n = 1 + ctx.choose(3);
            let prec = ctx.pick(&[10.0f32, 1.0, 0.5, 0.3, 0.1, 0.037, 0.01, 1e-3, 1e-5, 1e-7]);
            let s = if rgba {
                let v: Vec<_> = (0..n).map(|_| (ctx.pick(&[0.0f32, 0.1, 0.5, 0.77, 1.0]), ctx.pick(&[0.0f32, 0.3333, 1.0]), 0.25, 0.9)).collect();
                Cd::Rgba(v, prec)
            } else {
                Cd::Float((0..n).map(|_| ctx.pick(&[0.0f32, 1.0, -1.0, 0.1, 0.333_333, 2.5, -7.25, 100.0, 1e-3, 1e6, -0.7, 3.0e-6])).collect(), prec)
            };
            ctx.note(|| format!("{s:?}"));
            let g = gens(ctx);
            cycles(ctx, &[(Snap { c: vec![("c".into(), s)], ..Default::default() }, "c".into())], &DEF, g)
        }),
        dfs("point_clouds", "vertex arrays of 1..=3 points over 6 coordinates (9 thorough) x settings, without triangles", |ctx| {
            const A: [f32; 9] = [0.0, 1.0, -1.0, 0.1, 0.333_333, -2.5, 17.3, 100.0, 1e-4];
            let n = 1 + ctx.choose(3);
            let a = if ctx.thorough || n == 1 { &A[..] } else { &A[2..8] };
            let v: Vec<V3> = (0..n).map(|i| {
                let x = ctx.pick(a);
                if n < 3 { (x, ctx.pick(a), ctx.pick(a)) } else { (x, ctx.pick(a), A[(i * 4 + 1) % 9]) }
            }).collect();
            let p = ctx.pick(&[0.9f32, 0.3, 0.1, 0.01, 0.001]);
            ctx.note(|| format!("{v:?} to {p}"));
            let g = gens(ctx);
            cycles(ctx, &[(Snap { v: Some(v), ..Default::default() }, "p".into())], &Prec { v: p, ..DEF }, g)
        }),
        dfs("long_clouds", "point clouds long enough to be cut into segments: near and far groups in every order x group lengths x settings", |ctx| {
            let near = ctx.pick(&[10usize, 40, 64, 100]);
            let far = ctx.pick(&[1usize, 3, 8, 40]);
            let scale = ctx.pick(&[1.0f32, 20.0, 1000.0]);
            let order = ctx.choose(4);
            let p = ctx.pick(&[0.9f32, 0.1, 0.01]);
            let a: Vec<V3> = (0..near).map(|i| ((i % 7) as f32 * 0.3, (i % 5) as f32 * 0.7, (i % 3) as f32 * 0.11)).collect();
            let b: Vec<V3> = (0..far).map(|i| ((i as f32 + 5.0) * scale, -scale * (i % 4) as f32, scale * 0.77)).collect();
            let v: Vec<V3> = match order {
                0 => a.iter().chain(&b).copied().collect(),
                1 => b.iter().chain(&a).copied().collect(),
                2 => a.iter().chain(&b).chain(&a).copied().collect(),
                _ => a.iter().enumerate().flat_map(|(i, x)| [*x, b[i % b.len()]]).collect(),
            };
            ctx.note(|| format!("{near} near, {far} far by {scale}, order {order}, to {p}"));
            let g = gens(ctx);
            cycles(ctx, &[(Snap { v: Some(v), ..Default::default() }, "p".into())], &Prec { v: p, ..DEF }, g)
        }),
        dfs("indices", "12 index patterns x maxima x lengths x kind of array", |ctx| {
            let pat = ctx.choose(IDX_PATTERNS);
            let top = ctx.pick(&[0u32, 1, 2, 3, 7, 8, 100, 255, 256, 65535, 70_000, 1 << 31, u32::MAX].map(t));
            let len = ctx.pick(&[0usize, 1, 2, 3, 7, 16, 33, 64, 130, 300]);
            let kind = ctx.choose(5);
            let v = idx_pattern(pat, len, top);
            ctx.note(|| format!("pattern {pat} maximum {top} length {len} kind {kind}"));
            let mut s = Snap::default();
            match kind {
                0 => s.vt = Some(v),
                1 => {
                    s.vt = Some(v.clone());
                    s.nt = Some(v.clone());
                    s.ut = Some(v)
                }
                2 => s.tt = Some(v),
                3 => s.c = vec![("i".into(), Cd::Index(v, top as usize))],
                _ => s.c = vec![("n".into(), Cd::Int(v, top as usize))],
            }
            let g = gens(ctx);
            cycles(ctx, &[(s, "i".into())], &DEF, g)
        }),
        dfs("triangles", "triangles over 5 coordinates x settings: sizes and everything but vertices", |ctx| {
            const A: [f32; 5] = [0.0, 1.0, 0.1, -2.5, 17.3];
            let v: Vec<V3> = (0..3).map(|i| (ctx.pick(&A), ctx.pick(&A), A[(i * 3 + 1) % 5])).collect();
            let p = ctx.pick(&[0.9f32, 0.5, 0.3, 0.1, 0.01, 0.001]);
            ctx.note(|| format!("{v:?} to {p}"));
            let g = gens(ctx);
            cycles(ctx, &[(Snap { v: Some(v), vt: Some(vec![0, 1, 2]), ..Default::default() }, "p".into())], &Prec { v: p, ..DEF }, g)
        }),
        dfs("hand_made", "meshes of hand-made files of both layouts, taken as the start", |ctx| {
            let v01 = ctx.flag();
            let k = ctx.choose(4);
            let m = hand(v01).remove(k);
            let p = Prec { v: ctx.pick(&[0.5f32, 0.1, 0.001]), n_deg: ctx.pick(&[20.0f32, 1.0, 0.1]), u: (1024.0, ctx.pick(&[100.0f32, 0.1])), t_deg: ctx.pick(&[20.0f32, 0.5]) };
            ctx.note(|| format!("0.1 {v01} mesh {k} under {p:?}"));
            let s = match decode(&m, v01) {
                Ok(s) => s,
                Err(e) => return engine_error(e),
            };
            let g = gens(ctx);
            cycles(ctx, &[(s, String::from_utf8(m.name).unwrap())], &p, g)
        }),
    ]
}
// ---- C24 --------------------------------------------------------------------------------------------
// Every sequence runs in a process of its own (this executable, called with "op"), so that a sequence has
// no history but its own operations, and hash seeds, addresses and threads differ from run to run.
fn dig(s: &Snap) -> u64 {
    s.hash().0
}
fn meshes_text(l: &[(TMFMesh, String)]) -> String {
    l.iter().map(|(m, n)| format!("{n:?}:{:x} ", dig(&Snap::of(m, &LOOK)))).collect()
}
const LOOK: [&str; 11] = ["idx", "flt", "col", "int", "x", "y", "a", "ż", "f", "c", "new"];
fn bytes_text(b: &[u8]) -> String {
    format!("{} bytes {:x}", b.len(), H::new().bytes(b).0)
}
fn saved(l: &[(TMFMesh, String)], p: &Prec) -> String {
    let before = meshes_text(l);
    let mut o = vec![];
    let r = TMFMesh::write_tmf(l, &mut o, &p.make());
    let mut again = vec![];
    let q = TMFMesh::write_tmf(l, &mut again, &p.make());
    let same = if r.is_ok() == q.is_ok() && o == again && before == meshes_text(l) { "same" } else { "DIFFERENT" };
    format!("{} {} second call and arguments {same}", r.map_err(|e| e.to_string()).map_or_else(|e| e, |_| "ok".into()), bytes_text(&o))
}
fn exported(l: &[(TMFMesh, String)]) -> String {
    let before = meshes_text(l);
    let mut o = vec![];
    let r = TMFMesh::write_obj(l, &mut o);
    let mut again = vec![];
    let q = TMFMesh::write_obj(l, &mut again);
    let same = if r.is_ok() == q.is_ok() && o == again && before == meshes_text(l) { "same" } else { "DIFFERENT" };
    format!("{} {} second call and arguments {same}", r.map_err(|e| e.to_string()).map_or_else(|e| e, |_| "ok".into()), bytes_text(&o))
}
fn loaded(r: Result<Vec<(TMFMesh, String)>, TMFImportError>) -> String {
    match r {
        Ok(l) => meshes_text(&l),
        Err(e) => format!("{e:?}"),
    }
}
fn file(name: &str) -> &'static Vec<u8> {
    &files().iter().find(|f| f.0 == name).expect("a file of that name").1
}
const FINE: Prec = Prec { v: 0.01, n_deg: 0.1, u: (4096.0, 0.01), t_deg: 0.1 };
const NGONS: &str = "o n\nv 0 0 0\nv 2 0 0\nv 3 1 0\nv 2 2 0\nv 0 2 0\nvt 0 0\nvt 1 0\nvn 0 0 1\nf 1/1/1 2/2/1 3/1/1 4/2/1 5/1/1\nf 1/1/1 3/1/1 5/1/1\n";
const OPS: usize = 34;
fn big_snap() -> Snap {
    let v: Vec<V3> = (0..500).map(|i| ((i % 17) as f32, (i % 23) as f32 * 0.5, (i * 7 % 91) as f32)).collect();
    Snap { vt: Some((0..1500).map(|i| i * 31 % 500).collect()), v: Some(v), ..Default::default() }
}
fn unify_snap() -> Snap {
    let mut s = full_snap();
    s.v = Some(vec![(0.0, 0.0, 0.0), (1.0, 0.0, 0.5), (0.0, 2.0, -1.0), (1.5, 1.0, 0.25)]);
    s.n = Some(vec![(0.0, 1.0, 0.0), (0.0, 0.0, -1.0), (0.0, 1.0, 0.0)]);
    s
}
// Meshes whose parts are replaced in their own memory between calls.
const CONTENTS: [usize; 4] = [5, 4, 3, 3];
const SIGHTS: usize = 7;
fn content_parts(c: [usize; 4]) -> (Vec<V3>, Vec<u32>, Vec<V3>, Vec<V2>) {
    let v = [
        [(0.0, 0.0, 0.0), (1.0, 0.0, 0.5), (0.0, 2.0, -1.0), (1.5, 1.0, 0.25)],
        [(0.0, 0.0, 0.0), (0.01, 0.0, 0.0), (0.0, 0.02, 0.0), (9.0, 9.0, 9.0)],
        [(-30.0, 0.0, 7.0), (-30.25, 0.0, 7.0), (40.0, 900.0, 2.0), (0.0, 0.1, 0.2)],
        [(1.0, 1.0, 1.0), (1.0, 1.0, 1.0), (2.0, 2.0, 2.0), (1.0, 1.0, 1.0)],
        // the first one, its corners in another order
        [(1.5, 1.0, 0.25), (0.0, 2.0, -1.0), (1.0, 0.0, 0.5), (0.0, 0.0, 0.0)],
    ][c[0]];
    let t = [[0, 1, 2, 1, 3, 2], [3, 3, 0, 1, 2, 0], [0, 1, 2, 2, 1, 0], [0, 1, 9, 2, 2, 2]][c[1]];
    let n = [
        [(0.0, 1.0, 0.0), (0.0, 0.0, -1.0), unit(1.0, 2.0, 3.0), (0.0, 1.0, 0.0)],
        [(1.0, 0.0, 0.0), unit(-1.0, 2.0, -3.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0)],
        [(2.0, 0.0, 0.0), (0.0, 0.5, 0.0), (3.0, 4.0, 12.0), (0.0, 1.0, 0.0)],
    ][c[2]];
    let u = [[(0.0, 0.0), (1.0, 0.25), (0.5, 1.0), (0.5, 0.5)], [(0.75, 0.0), (0.1, 0.2), (0.3, 0.4), (1.0, 1.0)], [(0.0, 1.0), (0.0, 1.0), (1.0, 0.0), (0.0, 0.0)]][c[3]];
    (v.to_vec(), t.to_vec(), n.to_vec(), u.to_vec())
}
fn content(c: [usize; 4]) -> Snap {
    let (v, t, n, u) = content_parts(c);
    Snap { v: Some(v), vt: Some(t.clone()), n: Some(n), nt: Some(t.iter().map(|x| x % 4).collect()), u: Some(u), ut: Some(t.iter().map(|x| 3 - x % 4).collect()), ..Default::default() }
}
fn content_index(c: [usize; 4]) -> usize {
    ((c[0] * CONTENTS[1] + c[1]) * CONTENTS[2] + c[2]) * CONTENTS[3] + c[3]
}
fn sight(m: &TMFMesh, how: usize) -> String {
    let write = |p: &Prec| {
        let mut o = vec![];
        let r = m.write_tmf_one(&mut o, &p.make(), "m");
        format!("{:?} {}", r.map_err(|e| e.to_string()), bytes_text(&o))
    };
    match how {
        0 => write(&DEF),
        1 => write(&FINE),
        2 => {
            let mut o = vec![];
            let r = m.write_obj_one(&mut o, "m");
            format!("{:?} {}", r.map_err(|e| e.to_string()), bytes_text(&o))
        }
        3 => format!("{:?}", m.verify()),
        4 if m.verify().is_ok() => format!("{:?} {:?} {:?}", m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer()),
        5 if m.verify().is_ok() => {
            let mut m = m.clone();
            m.unify_index_data();
            format!("{:x}", dig(&Snap::of(&m, &[])))
        }
        6 => {
            let mut m = m.clone();
            m.normalize();
            m.reorder_data();
            format!("{:x}", dig(&Snap::of(&m, &[])))
        }
        _ => "nothing".into(),
    }
}
/// Puts new values where the old ones are.
fn overwrite(m: &mut TMFMesh, part: usize, to: [usize; 4]) {
    let (v, t, n, u) = content_parts(to);
    match part {
        0 => {
            let mut b = m.set_vertices([]).unwrap_or_default();
            b.copy_from_slice(&ups(&v));
            m.set_vertices(b);
        }
        1 => {
            let mut b = m.set_vertex_triangles([]).unwrap_or_default();
            b.copy_from_slice(&ups(&t));
            m.set_vertex_triangles(b);
            let mut b = m.set_normal_triangles([]).unwrap_or_default();
            b.copy_from_slice(&ups(&t.iter().map(|x| x % 4).collect::<Vec<_>>()));
            m.set_normal_triangles(b);
            let mut b = m.set_uv_triangles([]).unwrap_or_default();
            b.copy_from_slice(&ups(&t.iter().map(|x| 3 - x % 4).collect::<Vec<_>>()));
            m.set_uv_triangles(b);
        }
        2 => {
            let mut b = m.set_normals([]).unwrap_or_default();
            b.copy_from_slice(&ups(&n));
            m.set_normals(b);
        }
        _ => {
            let mut b = m.set_uvs([]).unwrap_or_default();
            b.copy_from_slice(&ups(&u));
            m.set_uvs(b);
        }
    }
}
// Operations that mostly fail: broken files and texts, readers and writers that give up.
const BROKEN: usize = 1_000_000;
const BROKEN_FILES: [&str; 3] = ["hand-made 0.2 all", "hand-made 0.1 all", "saved everything"];
const BROKEN_TEXTS: [&str; 3] = [OBJ_TEXTS[1], OBJ_TEXTS[2], NGONS];
const BYTE_WAYS: usize = 5;
fn break_bytes(b: &mut Vec<u8>, at: usize, way: usize, text: bool) {
    match way {
        0 => b.truncate(at),
        1 => b[at] = if text { b'x' } else { 0xff },
        2 => b[at] = if text { b'9' } else { 0 },
        3 => b[at] = if text { b' ' } else { b[at] ^ 1 },
        _ => b[at] = if text { b'\n' } else { b[at] ^ 0x80 },
    }
}
fn refused_meshes() -> Vec<Snap> {
    let full = full_snap;
    let bad = |x: f32| {
        let mut l = vec![
            Snap { v: Some(vec![(0.0, 1.0, 2.0), (1.0, x, 0.0), (2.0, 2.0, 2.0)]), ..full() },
            Snap { n: Some(vec![(0.0, 1.0, 0.0), (x, 0.0, 1.0)]), ..full() },
            Snap { u: Some(vec![(0.0, 1.0), (0.5, x)]), ..full() },
            Snap { t: Some(vec![((0.0, 1.0, 0.0), 1.0), ((x, 0.0, 1.0), 1.0)]), ..full() },
            Snap { c: vec![("f".into(), Cd::Float(vec![1.0, x, 2.0], 0.1))], ..full() },
            Snap { c: vec![("c".into(), Cd::Rgba(vec![(0.0, 1.0, 0.5, 1.0), (x, 0.0, 0.0, 0.0)], 0.1))], ..full() },
        ];
        l.push(Snap { c: vec![("f".into(), Cd::Float(vec![1.0, 3.0, 2.0], x))], ..full() });
        l
    };
    let mut l = bad(f32::NAN);
    l.extend(bad(f32::INFINITY));
    l.extend(bad(-1.0));
    l.push(Snap { vt: Some(vec![0, 1, 77]), ..full() });
    l.push(Snap { vt: Some(vec![0, 1]), ..full() });
    l.push(Snap { nt: Some(vec![0, 1, 2, 0, 1, 2, 0, 1, 2]), ..full() });
    l
}
/// (kind, number of operations of it)
fn broken_kinds() -> &'static Vec<(String, usize)> {
    static S: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut l = vec![];
        for f in BROKEN_FILES {
            l.push((format!("{f}, a byte changed or cut off"), file(f).len() * BYTE_WAYS));
        }
        for t in BROKEN_TEXTS {
            l.push((format!("text {t:.20?}, a byte changed or cut off"), t.len() * BYTE_WAYS));
        }
        for f in BROKEN_FILES {
            l.push((format!("{f} from a reader that gives up after some bytes"), file(f).len()));
        }
        l.push(("saved to a writer that gives up after some bytes".into(), 700));
        l.push(("exported to a writer that gives up after some bytes".into(), 300));
        l.push(("saved, exported, unified and reordered although invalid".into(), refused_meshes().len() * 4));
        for f in BROKEN_FILES {
            l.push((format!("{f} from a reader that panics after some bytes"), file(f).len()));
        }
        for t in BROKEN_TEXTS {
            l.push((format!("text {t:.20?} from a reader that gives up after some bytes"), t.len()));
        }
        for t in BROKEN_TEXTS {
            l.push((format!("text {t:.20?} from a reader that panics after some bytes"), t.len()));
        }
        l.push(("saved to a writer that panics after some bytes".into(), 700));
        l.push(("exported to a writer that panics after some bytes".into(), 300));
        l
    })
}
fn broken(kind: usize, i: usize) -> String {
    // the reader or writer of the caller panics: the caller catches it
    let panics = matches!(kind, 12..=14 | 18..=22);
    let caught = |f: &mut dyn FnMut() -> String| sut(f).unwrap_or_else(|e| format!("panic: {e}"));
    let give = |left: &mut usize, a: usize, e: ErrorKind| {
        let n = a.min(*left);
        *left -= n;
        if n > 0 {
            Ans::Some(n)
        } else if panics {
            panic!("the caller's own")
        } else {
            Ans::Error(e)
        }
    };
    let obj = |b: &[u8]| TMFMesh::read_from_obj(&mut &b[..]).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string());
    let list = || vec![(tri_snap().build(), "a".to_string()), (full_snap().build(), "żółć".into())];
    match kind {
        0..=2 => {
            let mut b = file(BROKEN_FILES[kind]).clone();
            break_bytes(&mut b, i / BYTE_WAYS, i % BYTE_WAYS, false);
            loaded(TMFMesh::read_tmf(&mut &b[..]))
        }
        3..=5 => {
            let mut b = BROKEN_TEXTS[kind - 3].as_bytes().to_vec();
            break_bytes(&mut b, i / BYTE_WAYS, i % BYTE_WAYS, true);
            obj(&b)
        }
        6..=8 | 12..=14 => caught(&mut || {
            let b = file(BROKEN_FILES[if panics { kind - 12 } else { kind - 6 }]);
            let mut left = i;
            loaded(TMFMesh::read_tmf(&mut ScriptRead::new(b, move |_, a| give(&mut left, a, ErrorKind::TimedOut))))
        }),
        15..=20 => caught(&mut || {
            let t = BROKEN_TEXTS[(kind - 15) % 3].as_bytes();
            let mut left = i;
            let mut r = ScriptRead::new(t, move |_, a| give(&mut left, a, ErrorKind::TimedOut));
            TMFMesh::read_from_obj(&mut r).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string())
        }),
        9 | 10 | 21 | 22 => caught(&mut || {
            let mut left = i;
            let mut w = ScriptWrite::new(move |_, a| give(&mut left, a, ErrorKind::BrokenPipe));
            let r = if matches!(kind, 9 | 21) {
                TMFMesh::write_tmf(&list(), &mut w, &DEF.make()).map_err(|e| e.to_string())
            } else {
                TMFMesh::write_obj(&list(), &mut w).map_err(|e| e.to_string())
            };
            format!("{r:?} {}", bytes_text(&w.out))
        }),
        _ => {
            let mut m = refused_meshes().swap_remove(i / 4).build();
            match i % 4 {
                0 => saved(&[(tri_snap().build(), "a".into()), (m, "b".into())], &DEF),
                1 => exported(&[(tri_snap().build(), "a".into()), (m, "b".into())]),
                2 => {
                    m.unify_index_data();
                    format!("{:x}", dig(&Snap::of(&m, &LOOK)))
                }
                _ => {
                    m.reorder_data();
                    format!("{:x}", dig(&Snap::of(&m, &LOOK)))
                }
            }
        }
    }
}
const PROBES: [usize; 12] = [10, 8, 9, 18, 19, 2, 7, 22, 24, 25, 33, 14];
/// Operations on large meshes.
const LARGE: usize = 900;
const LARGE_OPS: usize = 15;
fn large(k: usize) -> String {
    let s = &big_snaps()[[0, 2, 6][k / 5]].1;
    let l = vec![(s.build(), "big".to_string())];
    match k % 5 {
        0 => saved(&l, &DEF),
        1 => {
            let mut b = vec![];
            if let Err(e) = TMFMesh::write_tmf(&l, &mut b, &DEF.make()) {
                return e.to_string();
            }
            loaded(TMFMesh::read_tmf(&mut &b[..]))
        }
        2 => exported(&l),
        3 => {
            let mut m = Snap { v: Some((0..70_000).map(|i| (i as f32, 1.0, -1.0)).collect()), vt: Some((0..60_000).map(|i| t(i * 7 % 65_521)).collect()), n: Some(vec![(0.0, 1.0, 0.0), (1.0, 0.0, 0.0)]), nt: Some((0..60_000).map(|i| i % 2).collect()), ..s.clone() }.build();
            m.unify_index_data();
            format!("{:x}", dig(&Snap::of(&m, &LOOK)))
        }
        _ => {
            let mut m = Snap { v: Some((0..70_000).map(|i| (i as f32, 1.0, -1.0)).collect()), vt: Some((0..60_000).map(|i| t(i * 7 % 65_521)).collect()), ..s.clone() }.build();
            m.reorder_data();
            format!("{:x}", dig(&Snap::of(&m, &LOOK)))
        }
    }
}
fn op(k: usize) -> String {
    if (LARGE..1000).contains(&k) {
        return large(k - LARGE);
    }
    if k >= BROKEN {
        return broken(k / BROKEN - 1, k % BROKEN);
    }
    if k >= 1000 {
        let (c, how) = ((k - 1000) / SIGHTS, (k - 1000) % SIGHTS);
        let mut q = [0; 4];
        let mut c = c;
        for i in (0..4).rev() {
            q[i] = c % CONTENTS[i];
            c /= CONTENTS[i];
        }
        return sight(&content(q).build(), how);
    }
    let one = |s: &Snap| vec![(s.build(), "m".to_string())];
    let snap = |i: usize| &snaps()[i].1;
    match k {
        0 => saved(&one(&full_snap()), &DEF),
        1 => saved(&one(&full_snap()), &FINE),
        2 => saved(&[(tri_snap().build(), "a".into()), (full_snap().build(), "żółć".into()), (Snap::default().build(), String::new())], &DEF),
        3 => saved(&one(snap(12)), &DEF),
        4 => saved(&one(snap(13)), &DEF),
        5 => saved(&[(tri_snap().build(), "x".repeat(70_000))], &DEF),
        6 => saved(&one(&Snap { v: Some(vec![(f32::NAN, 0.0, 0.0), (1.0, 2.0, 3.0)]), ..Default::default() }), &DEF),
        7 => saved(&one(&big_snap()), &DEF),
        8 => loaded(TMFMesh::read_tmf(&mut &file("saved everything")[..])),
        9 => loaded(TMFMesh::read_tmf(&mut &file("hand-made 0.1 all")[..])),
        10 => loaded(TMFMesh::read_tmf(&mut &file("hand-made 0.2 all")[..])),
        11 => {
            let f = file("saved everything");
            loaded(TMFMesh::read_tmf(&mut &f[..f.len() - 7]))
        }
        12 => {
            let mut f = file("saved everything").clone();
            f[9] = 3;
            loaded(TMFMesh::read_tmf(&mut &f[..]))
        }
        13 => loaded(block_on(TMFMesh::read_tmf_async(&mut &file("hand-made 0.2 all")[..]))),
        14 => loaded(TMFMesh::read_tmf_one(&mut &file("saved three")[..]).map(|m| vec![m])),
        15 => {
            let f = file("saved split");
            let mut r = ScriptRead::new(f, |i, _| if i == 9 { Ans::Error(ErrorKind::TimedOut) } else { Ans::Some(3) });
            loaded(TMFMesh::read_tmf(&mut r))
        }
        16 => {
            let f = file("saved split");
            let mut r = ScriptRead::new(f, |i, _| if i % 2 == 0 { Ans::Interrupted } else { Ans::Some(5) });
            loaded(TMFMesh::read_tmf(&mut r))
        }
        17 => {
            let mut f = file("saved everything").clone();
            let n = f.len();
            f.truncate(n - 1);
            f.push(0x55);
            f[17] ^= 0x40;
            loaded(TMFMesh::read_tmf(&mut &f[..]))
        }
        18 => TMFMesh::read_from_obj(&mut OBJ_TEXTS[1].as_bytes()).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string()),
        19 => TMFMesh::read_from_obj(&mut NGONS.as_bytes()).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string()),
        20 => TMFMesh::read_from_obj(&mut OBJ_TEXTS[6].as_bytes()).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string()),
        21 => TMFMesh::read_from_obj(&mut OBJ_TEXTS[2].as_bytes()).map(|l| meshes_text(&l)).unwrap_or_else(|e| e.to_string()),
        22 => exported(&[(tri_snap().build(), "a".into()), (unify_snap().build(), "b".into()), (tri_snap().build(), "c".into())]),
        23 => exported(&one(&Snap { vt: Some(vec![0, 1]), ..tri_snap() })),
        24 => {
            let mut m = unify_snap().build();
            m.unify_index_data();
            format!("{:x}", dig(&Snap::of(&m, &LOOK)))
        }
        25 => {
            let mut m = unify_snap().build();
            m.reorder_data();
            format!("{:x}", dig(&Snap::of(&m, &LOOK)))
        }
        26 => {
            let m = unify_snap().build();
            let before = dig(&Snap::of(&m, &LOOK));
            let a = format!("{:?}", m.verify());
            let b = format!("{:?}", m.verify());
            format!("{a} {}", if a == b && before == dig(&Snap::of(&m, &LOOK)) { "same" } else { "DIFFERENT" })
        }
        27 => format!("{:?}", Snap { vt: Some(vec![0, 1, 9, 2, 2, 2]), ..unify_snap() }.build().verify()),
        28 => {
            let mut m = Snap { n: Some(vec![(3.0, 4.0, 0.0), (0.0, 0.0, 0.0), (1e20, 1e20, -1e20)]), ..full_snap() }.build();
            m.normalize();
            let a = dig(&Snap::of(&m, &LOOK));
            format!("{a:x}")
        }
        29 => {
            let mut w = ScriptWrite::new(|i, a| if i >= 5 { Ans::Error(ErrorKind::BrokenPipe) } else { Ans::Some((a / 2).max(1)) });
            let r = TMFMesh::write_tmf(&one(&full_snap()), &mut w, &DEF.make());
            format!("{:?} {}", r.map_err(|e| e.to_string()), bytes_text(&w.out))
        }
        30 => {
            let mut w = ScriptWrite::new(|_, a| Ans::Some(a));
            w.flush_answer = Some(ErrorKind::Other);
            let r = TMFMesh::write_obj(&one(&tri_snap()), &mut w);
            format!("{:?} {}", r.map_err(|e| e.to_string()), bytes_text(&w.out))
        }
        31 => {
            let mut m = full_snap().build();
            let r = m.add_custom_data(Cd::Int(vec![4, 5], 5).make(), "new").is_ok();
            let e = m.add_custom_data(Cd::Int(vec![4, 5], 5).make(), &"n".repeat(300)).is_ok();
            let old = m.set_vertices(vec![(1.0, 1.0, 1.0)]).map(|v| v.len());
            m.append_vertices(&[(2.0, 2.0, 2.0)]);
            format!("{r} {e} {old:?} {:x}", dig(&Snap::of(&m, &LOOK)))
        }
        32 => {
            let m = unify_snap().build();
            let b = (m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer());
            format!("{:?}", (b.0.map(|x| H::new().s(&format!("{x:?}")).0), b.1.map(|x| x.len()), b.2.map(|x| x.len())))
        }
        _ => {
            // a longer piece of work: load, change, save, load
            let mut l = TMFMesh::read_tmf(&mut &file("saved three")[..]).unwrap();
            l[0].0.normalize();
            let mut o = vec![];
            TMFMesh::write_tmf(&l, &mut o, &FINE.make()).unwrap();
            format!("{} {}", bytes_text(&o), loaded(TMFMesh::read_tmf(&mut &o[..])))
        }
    }
}
/// `op 3 5 7`: runs the operations in this process and prints a line for each.
pub fn op_main(a: &[String]) {
    for k in a.iter().skip(2) {
        let Ok(k) = k.parse::<usize>() else { continue };
        let r = match sut(|| op(k)) {
            Ok(t) => t,
            Err(p) => format!("panic {p}"),
        };
        println!("{}", r.replace('\n', " "));
    }
}
fn fresh(ops: &[usize]) -> R<Vec<String>> {
    let exe = std::env::current_exe().map_err(|e| Fail { msg: e.to_string(), key: None, engine: true })?;
    let out = std::process::Command::new(exe).arg("op").args(ops.iter().map(|k| k.to_string())).output();
    match out {
        Ok(o) => {
            let l: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()).collect();
            if o.status.success() && l.len() == ops.len() {
                Ok(l)
            } else {
                fail(format!("operations {ops:?}: the process ended with {} after {} of them", o.status, l.len()))
            }
        }
        Err(e) => engine_error(format!("cannot start a process: {e}")),
    }
}
fn alone(k: usize) -> R<&'static String> {
    static B: OnceLock<Vec<Result<String, String>>> = OnceLock::new();
    let b = B.get_or_init(|| (0..OPS).chain(LARGE..LARGE + LARGE_OPS).map(|k| fresh(&[k]).map(|mut v| v.remove(0)).map_err(|f| f.msg)).collect());
    match &b[if k < OPS { k } else { k - LARGE + OPS }] {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("operation {k} alone: {e}")),
    }
}
/// What a sight of a content is in a fresh process.
fn fresh_sight(c: [usize; 4], how: usize) -> R<&'static String> {
    static B: OnceLock<Vec<OnceLock<Result<String, String>>>> = OnceLock::new();
    let n = CONTENTS.iter().product::<usize>() * SIGHTS;
    let k = content_index(c) * SIGHTS + how;
    let b = B.get_or_init(|| (0..n).map(|_| OnceLock::new()).collect());
    match b[k].get_or_init(|| fresh(&[1000 + k]).map(|mut v| v.remove(0)).map_err(|f| f.msg)) {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("content {c:?}, sight {how} alone: {e}")),
    }
}
fn look(ctx: &mut Ctx, m: &TMFMesh, c: [usize; 4], how: usize) -> R {
    let got = match sut(|| sight(m, how)) {
        Ok(t) => t,
        Err(p) => format!("panic {p}"),
    };
    ctx.step();
    let want = fresh_sight(c, how)?;
    ensure!(got.replace('\n', " ") == *want, "content {c:?}, sight {how}: {got}, in a fresh process {want}");
    ctx.compared();
    Ok(())
}
fn sequence(ctx: &mut Ctx, ops: &[usize]) -> R {
    ctx.note(|| format!("operations {ops:?}"));
    ctx.state(ops.iter().fold(H::new(), |h, k| h.u(*k as u64)));
    let got = fresh(ops)?;
    for (i, (k, g)) in ops.iter().zip(&got).enumerate() {
        ctx.step();
        let want = alone(*k)?;
        ensure!(g == want, "operation {k} after {:?} gives {g}, in a fresh process {want}", &ops[..i]);
        ensure!(!g.contains("DIFFERENT"), "operation {k}: {g}");
    }
    ctx.compared();
    Ok(())
}
pub fn c24() -> Vec<Family> {
    vec![
        dfs("single", "every one of 34 operations, 16 times in a fresh process each: same result and bytes, arguments unchanged", |ctx| {
            let k = ctx.choose(OPS);
            let _ = ctx.choose(16);
            sequence(ctx, &[k])
        }),
        dfs("pairs", "all ordered pairs of operations (with repetition), a fresh process each", |ctx| {
            let s = [ctx.choose(OPS), ctx.choose(OPS)];
            sequence(ctx, &s)
        }),
        dfs("triples", "all ordered triples, a fresh process each", |ctx| {
            let s: Vec<usize> = (0..3).map(|_| ctx.choose(OPS)).collect();
            sequence(ctx, &s)
        }),
        dfs("large", "15 operations on meshes of segments over 64 KiB, twice in a row, with one of 12 others after and before, and all pairs of them, a fresh process each", |ctx| {
            let a = LARGE + ctx.choose(LARGE_OPS);
            let b = ctx.choose(PROBES.len() + LARGE_OPS);
            let s = if b < PROBES.len() { vec![PROBES[b], a, a, PROBES[b]] } else { vec![a, LARGE + b - PROBES.len()] };
            sequence(ctx, &s)
        }),
        dfs("repeats", "every pair (a, b) of operations as a b a b and as a a a b, and all operations in turn from every start", |ctx| {
            let how = ctx.choose(3);
            let a = ctx.choose(OPS);
            let s: Vec<usize> = match how {
                2 => (0..2 * OPS).map(|i| (a + i) % OPS).collect(),
                h => {
                    let b = ctx.choose(OPS);
                    if h == 0 { vec![a, b, a, b] } else { vec![a, a, a, b] }
                }
            };
            sequence(ctx, &s)
        }),
        dfs("after_failures", "23 kinds of operations that fail in every place (each byte of 3 files and 3 texts changed or missing, readers and writers giving up or panicking after every byte, invalid meshes), twice, then 12 operations in 2 orders: all as in a fresh process", |ctx| {
            let kinds = broken_kinds();
            let kind = ctx.choose(kinds.len());
            let i = ctx.choose(kinds[kind].1);
            let k = BROKEN * (kind + 1) + i;
            let back = ctx.flag();
            ctx.note(|| format!("{}: {i}, backwards {back}", kinds[kind].0));
            ctx.state(H::new().u(k as u64).u(back as u64));
            let mut ops = vec![k, k];
            ops.extend(PROBES);
            if back {
                ops[2..].reverse();
            }
            let got = fresh(&ops)?;
            ensure!(got[0] == got[1], "the same call gives {}, then {}", got[0], got[1]);
            for (k, g) in ops.iter().zip(&got).skip(2) {
                ctx.step();
                let want = alone(*k)?;
                ensure!(g == want, "operation {k} after the failure ({}) gives {g}, in a fresh process {want}", got[0]);
            }
            ctx.compared();
            Ok(())
        }),
        dfs("same_memory", "one mesh looked at (saved, exported, verified, unified...), parts of it overwritten in place or all of it rebuilt, looked at, overwritten, looked at: as in a fresh process", |ctx| {
            let mut c = [ctx.choose(CONTENTS[0]), if ctx.thorough { ctx.choose(CONTENTS[1]) } else { 0 }, 0, 0];
            let mut m = content(c).build();
            let mut log = vec![];
            let first = ctx.choose(SIGHTS);
            let mut h = H::new().u(content_index(c) as u64).u(first as u64);
            look(ctx, &m, c, first)?;
            for round in 0..2 {
                let all: usize = CONTENTS.iter().sum();
                let mut k = ctx.choose(all + CONTENTS[0]);
                h = h.u(k as u64);
                log.push(k);
                if k >= all {
                    // a mesh of its own, in memory just given back
                    c[0] = k - all;
                    drop(std::mem::replace(&mut m, TMFMesh::empty()));
                    m = content(c).build();
                } else {
                    let mut part = 0;
                    while k >= CONTENTS[part] {
                        k -= CONTENTS[part];
                        part += 1;
                    }
                    c[part] = k;
                    overwrite(&mut m, part, c);
                }
                if round == 0 {
                    let how = ctx.choose(SIGHTS + 1);
                    h = h.u(how as u64);
                    if how < SIGHTS {
                        look(ctx, &m, c, how)?;
                    }
                }
            }
            let last = ctx.choose(SIGHTS);
            ctx.state(h.u(last as u64));
            ctx.note(|| format!("first sight {first}, changes {log:?}, now {c:?}, last sight {last}"));
            look(ctx, &m, c, last)
        }),
        dfs("quads", "all ordered quadruples of 24 operations, a fresh process each", |ctx| {
            let q = [0usize, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 19, 20, 22, 23, 24, 25, 28, 29, 31, 33];
            let s: Vec<usize> = (0..4).map(|_| ctx.pick(&q)).collect();
            sequence(ctx, &s)
        })
        .thorough(),
    ]
}
