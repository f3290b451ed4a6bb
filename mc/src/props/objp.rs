//! C16 OBJ round trip, C17 OBJ grammar, C18 triangulation of convex polygons.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use std::collections::HashMap;
use tmf::*;

/// What one triangle corner selects.
#[derive(Clone, Debug, PartialEq)]
struct Corner {
    v: Option<V3>,
    t: Option<V2>,
    n: Option<V3>,
}
fn bits3(x: &Option<V3>) -> Option<[u32; 3]> {
    x.map(|x| [x.0.to_bits(), x.1.to_bits(), x.2.to_bits()])
}
fn bits2(x: &Option<V2>) -> Option<[u32; 2]> {
    x.map(|x| [x.0.to_bits(), x.1.to_bits()])
}
fn same_corner(a: &Corner, b: &Corner) -> bool {
    bits3(&a.v) == bits3(&b.v) && bits2(&a.t) == bits2(&b.t) && bits3(&a.n) == bits3(&b.n)
}
/// Corners of a loaded mesh, None when an index array does not fit the others.
fn corners(m: &TMFMesh) -> R<Vec<Corner>> {
    let s = Snap::of(m, &[]);
    let vt = s.vt.unwrap_or_default();
    let at = |what: &str, t: &Option<Vec<u32>>| -> R<Option<Vec<u32>>> {
        match t {
            None => Ok(None),
            Some(t) if t.is_empty() => Ok(None),
            Some(t) if t.len() == vt.len() => Ok(Some(t.clone())),
            Some(t) => fail(format!("{} {what} indices for {} corners", t.len(), vt.len())),
        }
    };
    let ut = at("uv", &s.ut)?;
    let nt = at("normal", &s.nt)?;
    Ok(vt
        .iter()
        .enumerate()
        .map(|(i, x)| Corner {
            v: s.v.as_ref().and_then(|v| v.get(*x as usize)).copied(),
            t: ut.as_ref().and_then(|t| s.u.as_ref().and_then(|u| u.get(t[i] as usize)).copied()),
            n: nt.as_ref().and_then(|t| s.n.as_ref().and_then(|n| n.get(t[i] as usize)).copied()),
        })
        .collect())
}
fn import(b: &[u8]) -> R<std::io::Result<Vec<(TMFMesh, String)>>> {
    match sut(|| TMFMesh::read_from_obj(&mut &b[..])) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("importing panicked: {p}; text {:?}", text(b))),
    }
}
fn text(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    s.chars().take(900).collect()
}
// ---- C16 --------------------------------------------------------------------------------------------
const VALS: [f32; 14] = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-45, -1e-38, 1.1754944e-38, 16777217.0, 1e10, -3.4028235e38, 0.333_333_34, 1e-7, 123456.79];
fn val(i: usize) -> f32 {
    VALS[i % VALS.len()]
}
/// kinds: 0 v, 1 v+n, 2 v+u, 3 v+u+n, 4 point cloud, 5 empty mesh, 6 all data but only vertex indices,
/// 7 empty index arrays, 8 point cloud with normals and uvs, 9 lengths differ (n), 10 lengths differ (u),
/// 11 normal indices without vertex indices, 12 uv indices without vertex indices, 13 no whole triangles
fn obj_mesh(kind: usize, seed: usize, idx: &[u32]) -> Snap {
    let n = 4;
    let v: Vec<V3> = (0..n).map(|i| (val(seed + i), val(seed * 3 + i * 2 + 1), val(seed + i * 5 + 2))).collect();
    let nn: Vec<V3> = (0..n + 1).map(|i| (val(seed + i + 4), val(seed + i * 3), val(seed * 2 + i))).collect();
    let u: Vec<V2> = (0..n + 2).map(|i| (val(seed * 5 + i), val(seed + i * 3 + 7))).collect();
    let vt: Vec<u32> = idx.to_vec();
    let nt: Vec<u32> = idx.iter().enumerate().map(|(i, x)| (x + i as u32) % 5).collect();
    let ut: Vec<u32> = idx.iter().enumerate().map(|(i, x)| (x * 2 + i as u32) % 6).collect();
    let mut s = Snap::default();
    if kind != 5 {
        s.v = Some(v);
    }
    if matches!(kind, 1 | 3 | 6 | 8 | 9 | 11) {
        s.n = Some(nn);
    }
    if matches!(kind, 2 | 3 | 6 | 8 | 10 | 12) {
        s.u = Some(u);
    }
    if matches!(kind, 0 | 1 | 2 | 3 | 6 | 9 | 10 | 13) {
        s.vt = Some(vt.clone());
    }
    if matches!(kind, 1 | 3) {
        s.nt = Some(nt.clone());
    }
    if matches!(kind, 2 | 3) {
        s.ut = Some(ut.clone());
    }
    match kind {
        7 => {
            s.n = Some(vec![(0.0, 1.0, 0.0)]);
            s.vt = Some(vec![]);
            s.nt = Some(vec![]);
            s.ut = Some(vec![]);
            s.u = Some(vec![(0.5, 0.5)]);
        }
        9 => s.nt = Some(nt[..nt.len() - 1].to_vec()),
        10 => {
            let mut x = ut;
            x.extend([0, 1, 2]);
            s.ut = Some(x)
        }
        11 => s.nt = Some(nt),
        12 => s.ut = Some(ut),
        13 => {
            s.vt.as_mut().unwrap().pop();
        }
        _ => (),
    }
    s
}
fn refused(kind: usize) -> bool {
    kind >= 9
}
fn check_obj(ctx: &mut Ctx, meshes: &[(Snap, String)], must_refuse: bool) -> R {
    let list: Vec<(TMFMesh, String)> = meshes.iter().map(|(s, n)| (s.build(), n.clone())).collect();
    let mut h = H::new();
    for (s, n) in meshes {
        h = h.u(s.hash().0).s(n);
    }
    ctx.state(h);
    let mut out = vec![];
    ctx.step();
    let r = match sut(|| TMFMesh::write_obj(&list, &mut out)) {
        Ok(r) => r,
        Err(p) => return fail(format!("exporting panicked: {p}")),
    };
    if must_refuse {
        ensure!(r.is_err(), "a mesh whose index arrays do not match was exported: {:?}", text(&out));
        ctx.compared();
        return Ok(());
    }
    if let Err(e) = r {
        return fail(format!("export failed: {e}"));
    }
    ctx.step();
    let got = match import(&out)? {
        Ok(g) => g,
        Err(e) => return fail(format!("the exported file is refused on import: {e}; file {:?}", text(&out))),
    };
    let got: Vec<_> = got.into_iter().filter(|(m, _)| m.get_vertex_triangles().is_some_and(|t| !t.is_empty())).collect();
    let want: Vec<_> = meshes.iter().filter(|(s, _)| s.vt.as_ref().is_some_and(|t| !t.is_empty())).collect();
    let names = |g: Vec<&String>| format!("{g:?}");
    ensure!(got.len() == want.len(), "meshes with triangles: exported {}, imported {}; file {:?}", names(want.iter().map(|x| &x.1).collect()), names(got.iter().map(|x| &x.1).collect()), text(&out));
    for (i, ((gm, gn), (wm, wn))) in got.iter().zip(&want).enumerate() {
        ensure!(gn == wn || (wn.trim() != wn && gn.trim() == wn.trim()), "mesh {i}: name {wn:?} became {gn:?}");
        let g = corners(gm)?;
        let w = corners(&wm.build())?;
        ensure!(g.len() == w.len(), "mesh {i}: {} corners became {}", w.len(), g.len());
        for (k, (a, b)) in w.iter().zip(&g).enumerate() {
            ensure!(same_corner(a, b), "mesh {i} corner {k}: {a:?} became {b:?}; file {:?}", text(&out));
        }
    }
    ctx.compared();
    if list.len() == 1 {
        let mut o2 = vec![];
        match sut(|| list[0].0.write_obj_one(&mut o2, &list[0].1)) {
            Ok(Ok(())) => ensure!(o2 == out, "write_obj_one and write_obj differ: {:?} and {:?}", text(&o2), text(&out)),
            Ok(Err(e)) => return fail(format!("write_obj_one failed: {e}")),
            Err(p) => return fail(format!("write_obj_one panicked: {p}")),
        }
        if got.len() == 1 {
            match sut(|| TMFMesh::read_from_obj_one(&mut &out[..])) {
                Ok(Ok((m, n))) => ensure!(Snap::of(&m, &[]) == Snap::of(&got[0].0, &[]) && n == got[0].1, "read_from_obj_one and read_from_obj differ"),
                Ok(Err(e)) => return fail(format!("read_from_obj_one failed: {e}")),
                Err(p) => return fail(format!("read_from_obj_one panicked: {p}")),
            }
        }
    } else if got.len() > 1 {
        match sut(|| TMFMesh::read_from_obj_one(&mut &out[..])) {
            Ok(Ok(_)) => return fail("read_from_obj_one accepts a file of several meshes".to_string()),
            Ok(Err(_)) => (),
            Err(p) => return fail(format!("read_from_obj_one panicked: {p}")),
        }
    }
    Ok(())
}
const IDX: [&[u32]; 6] = [&[0, 1, 2], &[3, 3, 3], &[2, 1, 3, 3, 1, 2], &[1, 2, 3], &[3, 2, 1, 0, 1, 2, 3, 0, 3], &[2, 3, 2]];
pub fn c16() -> Vec<Family> {
    vec![
        dfs("single", "one mesh: 14 kinds x index patterns x value rotations x names", |ctx| {
            let k = ctx.choose(14);
            let i = ctx.choose(IDX.len());
            let seed = ctx.choose(VALS.len());
            let names = ["m", "", "two words", "a/b", "zażółć", "#x", "v 1 2 3", "o", "f", "tab\tin", "x#y", "very long name with / many 1/2/3 parts"];
            let n = ctx.pick(&names).to_string();
            ctx.note(|| format!("kind {k} indices {:?} values from {seed} name {n:?}", IDX[i]));
            check_obj(ctx, &[(obj_mesh(k, seed, IDX[i]), n)], refused(k))
        }),
        dfs("odd_names", "names with line breaks are refused, names with white space around them do no harm to any mesh", |ctx| {
            let names = ["a\nb", "a\rb", "\n", "a\r\nv 1 2 3", "b\n", "\rb", " a", "a ", "\ta\t", " ", "  two  words  ", "a\u{b}b", "a\u{c}", "a\u{a0}b", "a\u{2028}b", "a\u{85}b"];
            let n = ctx.choose(names.len());
            let k = ctx.choose(9);
            let at = ctx.choose(3);
            let l: Vec<_> = (0..3).map(|j| (obj_mesh(if j == at { k } else { 3 }, j, IDX[0]), if j == at { names[n].to_string() } else { format!("m{j}") })).collect();
            ctx.note(|| format!("kind {k} named {:?} as mesh {at} of 3", names[n]));
            check_obj(ctx, &l, n < 6)
        }),
        dfs("lists", "lists of 0..=3 meshes: all kinds, index patterns (first used index 0 or not), equal or different names", |ctx| {
            let n = ctx.choose(4);
            let mut l = vec![];
            let mut bad = false;
            let same = ctx.flag();
            for j in 0..n {
                let k = ctx.choose(if n == 3 && !ctx.thorough { 9 } else { 14 });
                let i = if (4..=8).contains(&k) && k != 6 { 0 } else { ctx.choose(if n == 3 && !ctx.thorough { 4 } else { IDX.len() }) };
                bad |= refused(k);
                l.push((obj_mesh(k, j * 3 + 1, IDX[i]), if same { "n".to_string() } else { format!("mesh {j}") }));
            }
            ctx.note(|| format!("{:?}", l.iter().map(|x| x.0.short()).collect::<Vec<_>>()));
            check_obj(ctx, &l, bad)
        }),
        dfs("long_lists", "lists of 4..=8 meshes over two alternating kinds (9 kinds each), many offsets added up", |ctx| {
            let n = 4 + ctx.choose(5);
            let (a, b) = (ctx.choose(9), ctx.choose(9));
            let i = ctx.choose(IDX.len());
            let l: Vec<_> = (0..n).map(|j| (obj_mesh(if j % 2 == 0 { a } else { b }, j, IDX[(i + j) % IDX.len()]), format!("m{j}"))).collect();
            ctx.note(|| format!("{n} meshes of kinds {a}, {b}"));
            check_obj(ctx, &l, false)
        }),
        dfs("indices", "one triangle: every index triple over 4 vertices for vertices, uvs and normals, next to a second mesh", |ctx| {
            let t: Vec<u32> = (0..3).map(|_| ctx.choose(4) as u32).collect();
            let sh = ctx.choose(6) as u32;
            let order = ctx.flag();
            let mut a = obj_mesh(3, 2, &t);
            a.ut = Some(t.iter().rev().map(|x| (x + sh) % 6).collect());
            a.nt = Some(t.iter().map(|x| (x * 3 + sh) % 5).collect());
            let b = obj_mesh(1, 5, &[3, 1, 2]);
            let mut l = vec![(a, "a".to_string()), (b, "b".to_string())];
            if order { l.reverse() }
            ctx.note(|| format!("{t:?} shift {sh} order {order}"));
            check_obj(ctx, &l, false)
        }),
        dfs("floats", "all powers of two and their neighbours, and decimal values, as coordinates", |ctx| {
            let e = ctx.range(-149, 127);
            let d = ctx.choose(4);
            let f = match d { 0 => 2f64.powi(e as i32) as f32, 1 => f32::from_bits((2f64.powi(e as i32) as f32).to_bits() + 1), 2 => f32::from_bits((2f64.powi(e as i32) as f32).to_bits().max(1) - 1), _ => (2f64.powi(e as i32) * 1.3456789) as f32 };
            let s = Snap { v: Some(vec![(f, -f, 0.1), (1.0, f, f), (-f, 0.5, f)]), vt: Some(vec![0, 1, 2]), n: Some(vec![(f, 0.0, -f)]), nt: Some(vec![0, 0, 0]), u: Some(vec![(f, -f)]), ut: Some(vec![0, 0, 0]), ..Default::default() };
            ctx.note(|| format!("{f:e}"));
            check_obj(ctx, &[(s, "f".into())], false)
        }),
        dfs("large", "grids of triangles with up to tens of thousands of vertices, twice in one file", |ctx| {
            let n = ctx.pick(&[10usize, 300, 5000, if TOP > 65535 { 70000 } else { 30000 }]);
            let k = ctx.choose(4);
            let p = ctx.pick(&[0usize, 1, 10]);
            let mk = |seed: usize| {
                let d: Vec<V3> = (0..n).map(|i| (i as f32, (i * 7 % 100) as f32 + seed as f32, 0.5)).collect();
                let t = idx_pattern(p, n / 3 * 3, n as u32 - 1);
                let mut s = Snap { v: Some(d), vt: Some(t.clone()), ..Default::default() };
                if k & 1 != 0 { s.n = Some((0..n / 2).map(|i| (0.0, 1.0, i as f32)).collect()); s.nt = Some(t.iter().map(|x| x % (n as u32 / 2)).collect()); }
                if k & 2 != 0 { s.u = Some((0..n / 3).map(|i| (0.0, i as f32)).collect()); s.ut = Some(t.iter().map(|x| x % (n as u32 / 3)).collect()); }
                s
            };
            ctx.note(|| format!("{n} vertices, parts {k}, pattern {p}"));
            check_obj(ctx, &[(mk(0), "a".into()), (mk(1), "b".into())], false)
        }),
        dfs("many_vertices", "two meshes of as many vertices, normals and texture coordinates as counters, buffers and blocks hold", |ctx| {
            let c: Vec<usize> = many(ctx.thorough).into_iter().filter(|n| 2 * *n <= TOP as usize).collect();
            let n = ctx.pick(&c);
            let k = ctx.choose(4);
            let mk = |seed: usize| {
                let d: Vec<V3> = (0..n).map(|i| (i as f32, (i * 7 % 100) as f32 + seed as f32, 0.5)).collect();
                let t = idx_pattern(10, n / 3 * 3, n as u32 - 1);
                let mut s = Snap { v: Some(d), vt: Some(t.clone()), ..Default::default() };
                if k & 1 != 0 { s.n = Some((0..n).map(|i| (0.0, 1.0, i as f32)).collect()); s.nt = Some(t.iter().map(|x| n as u32 - 1 - x).collect()); }
                if k & 2 != 0 { s.u = Some((0..n / 3).map(|i| (0.0, i as f32)).collect()); s.ut = Some(t.iter().map(|x| x % (n as u32 / 3)).collect()); }
                s
            };
            ctx.note(|| format!("{n} vertices, parts {k}"));
            check_obj(ctx, &[(mk(0), "a".into()), (mk(1), "b".into())], false)
        }),
        dfs("many_meshes", "as many meshes as counters, buffers and blocks hold, of all kinds in turn", |ctx| {
            let c: Vec<usize> = many(false).into_iter().filter(|n| *n <= 70_001 && 8 * *n <= TOP as usize).collect();
            let n = ctx.pick(&c);
            let kind = ctx.choose(3);
            let l: Vec<(Snap, String)> = (0..n)
                .map(|i| {
                    let f = i as f32;
                    let mut s = Snap { v: Some(vec![(f, 0.5, 1.0), (f, 1.0, 2.0), (-f, 0.0, 3.0)]), vt: Some(vec![0, 2, 1]), ..Default::default() };
                    if kind > 0 && i % 3 != 1 {
                        s.n = Some(vec![(0.0, 1.0, f)]);
                        s.nt = Some(vec![0; 3]);
                    }
                    if kind > 1 && i % 5 != 2 {
                        s.u = Some(vec![(f, 0.5), (0.25, f)]);
                        s.ut = Some(vec![1, 0, 1]);
                    }
                    (s, format!("m{i}"))
                })
                .collect();
            ctx.note(|| format!("{n} meshes, kind {kind}"));
            check_obj(ctx, &l, false)
        }),
    ]
}
// ---- C17 --------------------------------------------------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
enum Num {
    Ok(f32),
    Either(f32),
    Bad,
}
fn num(t: &str) -> Num {
    // decimal numbers as OBJ writers produce them
    let b = t.strip_prefix(['-', '+']).unwrap_or(t);
    let (mant, exp) = match b.split_once(['e', 'E']) {
        Some((m, e)) => (m, Some(e)),
        None => (b, None),
    };
    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
    let ok_m = match mant.split_once('.') {
        Some((a, b)) => digits(a) && digits(b) && a.len() + b.len() > 0,
        None => digits(mant) && !mant.is_empty(),
    };
    let ok_e = exp.map_or(true, |e| {
        let e = e.strip_prefix(['-', '+']).unwrap_or(e);
        digits(e) && !e.is_empty()
    });
    match t.parse::<f32>() {
        Ok(f) if ok_m && ok_e => {
            if t.starts_with('+') {
                Num::Either(f)
            } else {
                Num::Ok(f)
            }
        }
        Ok(f) => Num::Either(f), // nan, inf
        Err(_) => Num::Bad,
    }
}
#[derive(Debug, Clone)]
struct RefCorner {
    /// (index, defined at the time of the face)
    v: i64,
    t: Option<i64>,
    n: Option<i64>,
}
#[derive(Debug, Default, Clone)]
struct Obj {
    name: String,
    alt_names: Vec<String>,
    faces: Vec<Vec<RefCorner>>,
}
enum Want {
    Refuse(String),
    /// accepted with this meaning; refusing is fine as well when the flag is set
    Accept(Vec<Obj>, bool, Tables),
}
#[derive(Default, Clone)]
struct Tables {
    v: Vec<V3>,
    t: Vec<V2>,
    n: Vec<V3>,
}
fn index(t: &str, count: usize) -> Result<(i64, bool), ()> {
    // (zero based index, whether refusing it would be fine too)
    if let Some(d) = t.strip_prefix('-') {
        if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
            return Err(());
        }
        let k: i64 = d.parse().map_err(|_| ())?;
        // relative index: refusing is fine, resolving it is fine, anything else is not
        return if k == 0 || k > count as i64 { Err(()) } else { Ok((count as i64 - k, true)) };
    }
    let (d, either) = match t.strip_prefix('+') {
        Some(d) => (d, true),
        None => (t, false),
    };
    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
        return Err(());
    }
    let k: i64 = d.parse().map_err(|_| ())?;
    if k == 0 || k > TOP_OBJ {
        return Err(());
    }
    Ok((k - 1, either))
}
/// The meaning of an OBJ text, by the rules of the property.
fn meaning(b: &[u8]) -> Want {
    let Ok(s) = std::str::from_utf8(b) else { return Want::Refuse("not UTF-8".into()) };
    let mut tb = Tables::default();
    let mut objs = vec![Obj::default()];
    let mut either = false;
    let mut refuse: Option<String> = None;
    macro_rules! no {
        ($($a:tt)*) => {{ if refuse.is_none() { refuse = Some(format!($($a)*)); } }};
    }
    for line in s.split('\n') {
        let line = line.strip_suffix('\r').unwrap_or(line);
        let f: Vec<&str> = line.split_whitespace().collect();
        let Some(k) = f.first() else { continue };
        match *k {
            "v" | "vn" | "vt" => {
                let need = if *k == "vt" { 2 } else { 3 };
                let mut x = vec![];
                for t in f[1..].iter().take(need) {
                    match num(t) {
                        Num::Ok(v) => x.push(v),
                        Num::Either(v) => {
                            either = true;
                            x.push(v)
                        }
                        Num::Bad => no!("malformed number {t:?}"),
                    }
                }
                if f.len() - 1 < need {
                    if *k == "vt" && f.len() == 2 {
                        either = true; // one-dimensional texture coordinate
                        x.push(0.0);
                    } else {
                        no!("missing number in {line:?}");
                    }
                }
                // whatever follows (weights, colours, comments) is not part of the model
                if f.len() - 1 > need && !f[need + 1].starts_with('#') && num(f[need + 1]) == Num::Bad {
                    either = true;
                }
                while x.len() < 3 {
                    x.push(0.0)
                }
                match *k {
                    "v" => tb.v.push((x[0], x[1], x[2])),
                    "vn" => tb.n.push((x[0], x[1], x[2])),
                    _ => tb.t.push((x[0], x[1])),
                }
            }
            "o" => {
                let name = f[1..].join(" ");
                let rest = line.trim_start()[1..].trim().to_string();
                if name.is_empty() {
                    either = true;
                }
                objs.push(Obj { alt_names: vec![rest], name, ..Default::default() });
            }
            "f" => {
                let mut face = vec![];
                let mut toks: Vec<&str> = f[1..].to_vec();
                if let Some(p) = toks.iter().position(|t| t.starts_with('#')) {
                    toks.truncate(p);
                    either = true; // a comment after a face may be refused
                }
                for t in toks {
                    let p: Vec<&str> = t.split('/').collect();
                    if p.len() > 3 {
                        no!("corner {t:?} has more than three parts");
                        continue;
                    }
                    let mut part = |i: usize, count: usize| -> Option<i64> {
                        if i >= p.len() {
                            return None;
                        }
                        if p[i].is_empty() {
                            if i == 0 {
                                no!("corner {t:?} has no vertex");
                            } else if i + 1 == p.len() {
                                either = true; // trailing slash
                            }
                            return None;
                        }
                        match index(p[i], count) {
                            Ok((x, e)) => {
                                either |= e || x >= count as i64; // out of range: may be refused
                                Some(x)
                            }
                            Err(()) => {
                                no!("corner {t:?} has a malformed index");
                                None
                            }
                        }
                    };
                    let v = part(0, tb.v.len());
                    let ti = part(1, tb.t.len());
                    let n = part(2, tb.n.len());
                    face.push(RefCorner { v: v.unwrap_or(0), t: ti, n });
                }
                if face.len() < 3 {
                    no!("face of {} corners", face.len());
                } else {
                    let o = objs.last_mut().unwrap();
                    if let Some(first) = o.faces.first().map(|f| f[0].clone()).or(face.first().cloned()) {
                        if face.iter().any(|c| c.t.is_some() != first.t.is_some() || c.n.is_some() != first.n.is_some()) {
                            no!("corners of mixed form");
                        }
                    }
                    if face.len() > 3 && !FULL {
                        no!("polygon without the triangulation feature");
                    }
                    o.faces.push(face);
                }
            }
            // a keyword glued to a slash may be taken for a malformed statement
            k if k.contains('/') => either = true,
            _ => (),
        }
    }
    match refuse {
        Some(r) => Want::Refuse(r),
        None => Want::Accept(objs.into_iter().filter(|o| !o.faces.is_empty()).collect(), either, tb),
    }
}
fn check_text(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.state(H::new().bytes(b));
    ctx.step();
    let got = import(b)?;
    match (meaning(b), got) {
        (Want::Refuse(why), Ok(m)) => {
            return fail(format!(
                "accepted though: {why}; text {:?} became {:?}",
                text(b),
                m.iter().map(|m| Snap::of(&m.0, &[]).short()).collect::<Vec<_>>()
            ))
        }
        (Want::Refuse(_), Err(_)) => (),
        (Want::Accept(_, true, _), Err(_)) => (),
        (Want::Accept(_, false, _), Err(e)) => return fail(format!("refused with {e:?} though well-formed: {:?}", text(b))),
        (Want::Accept(objs, _, tb), Ok(got)) => {
            let got: Vec<_> = got.into_iter().filter(|(m, _)| m.get_vertex_triangles().is_some_and(|t| !t.is_empty())).collect();
            ensure!(got.len() == objs.len(), "{} objects with faces expected, {} found; text {:?}", objs.len(), got.len(), text(b));
            let ordered = well_ordered(b);
            for (o, (m, name)) in objs.iter().zip(&got) {
                ensure!(&o.name == name || o.alt_names.contains(name), "object name {:?} expected, {name:?} found; text {:?}", o.name, text(b));
                let g = corners(m)?;
                let tris: usize = o.faces.iter().map(|f| f.len() - 2).sum();
                ensure!(g.len() == tris * 3, "{} corners expected, {} found; text {:?}", tris * 3, g.len(), text(b));
                let val = |c: &RefCorner| Corner {
                    v: tb.v.get(c.v as usize).copied(),
                    t: c.t.and_then(|i| tb.t.get(i as usize).copied()),
                    n: c.n.and_then(|i| tb.n.get(i as usize).copied()),
                };
                // a reference beyond what is defined may stay unresolved, but never resolves to anything else
                let fits = |w: &Corner, g: &Corner| {
                    let p = |a: bool, n: bool| a || n;
                    p(bits3(&w.v) == bits3(&g.v), g.v.is_none()) && p(bits2(&w.t) == bits2(&g.t), g.t.is_none()) && p(bits3(&w.n) == bits3(&g.n), g.n.is_none())
                };
                let in_file = |c: &RefCorner| {
                    (c.v as usize) < tb.v.len() && c.t.map_or(true, |i| (i as usize) < tb.t.len()) && c.n.map_or(true, |i| (i as usize) < tb.n.len())
                };
                let strict = o.faces.iter().flatten().all(in_file) && ordered;
                let mut k = 0;
                for f in &o.faces {
                    if f.len() == 3 {
                        for c in f {
                            let (w, x) = (val(c), &g[k]);
                            let ok = if strict { same_corner(&w, x) } else { fits(&w, x) };
                            ensure!(ok, "corner {k}: {w:?} expected, {x:?} found; text {:?}", text(b));
                            k += 1;
                        }
                    } else {
                        for _ in 0..(f.len() - 2) * 3 {
                            let ok = f.iter().any(|c| if strict { same_corner(&val(c), &g[k]) } else { fits(&val(c), &g[k]) });
                            ensure!(ok, "corner {k}: {:?} is no corner of its polygon; text {:?}", g[k], text(b));
                            k += 1;
                        }
                    }
                }
            }
        }
    }
    ctx.compared();
    Ok(())
}
/// True when no face refers to something defined after it.
fn well_ordered(b: &[u8]) -> bool {
    let s = String::from_utf8_lossy(b);
    let mut c = [0usize; 3];
    for l in s.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first() {
            Some(&"v") => c[0] += 1,
            Some(&"vt") => c[1] += 1,
            Some(&"vn") => c[2] += 1,
            Some(&"f") => {
                for t in &f[1..] {
                    for (i, p) in t.split('/').enumerate().take(3) {
                        if let Ok(k) = p.trim_start_matches('+').parse::<usize>() {
                            if k > c[i] {
                                return false;
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    true
}
const LINES: [&str; 30] = [
    "v 1 2 3", "v -4 5.5 1e3", "vt 0.5 0.25", "vn 0 1 0", "f 1 2 1", "f 1/1 2/1 1/1", "f 1//1 1//1 2//1", "f 1/1/1 2/1/1 1/1/1",
    "o a", "o b c/d", "f 2 2 1", "# f 1 2 3", "", "usemtl v", "f 1 2", "f 1/1 2 1",
    "v 1 2", "vt .75 1 0", "  v\t7  8 9 ", "f 1 2 3", "s off", "g grp", "vn 1 x 0", "f 2 1 2 1", "f 0 1 1", "o", "f 1//1 2//1 2//2", "mtllib a.mtl", "f 1/1 1/2 2/1", "l 1 2",
];
const CORNERS: [&str; 36] = [
    "1", "2", "3", "1/1", "2/2", "3/1", "1//1", "2//2", "1/1/1", "2/2/2", "3/2/1", "0", "-1", "-3", "4", "x", "1/", "1//", "/1", "//1",
    "1/1/", "1/1/1/1", "1/x", "1/0/1", "+1", "1.0", "99999999999", "1/1/0", "1//0", "-4", "1/-1/-2", "4294967296", "4294967297", "65537", "1x", "#",
];
pub fn c17() -> Vec<Family> {
    vec![
        dfs("documents", "all documents of up to 3 lines (4 thorough) over 30 lines, well- and malformed", |ctx| {
            let n = ctx.choose(if ctx.thorough { 5 } else { 4 });
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(ctx.pick(&LINES));
                t.push('\n');
            }
            ctx.note(|| format!("{t:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("objects", "two vertices, a texture coordinate and a normal, then all continuations of up to 4 lines (5 thorough) over 14 lines", |ctx| {
            let l = ["v 7 8 9", "vt 1 0", "vn 0 0 1", "f 1 2 1", "f 1/1 2/1 1/1", "f 1//1 1//1 2//1", "f 1/1/1 2/1/1 1/1/1", "o a", "o b", "f 3 2 3", "f 3/1 3/2 2/2", "f 3//2 2//1 3//2", "f 2/2/2 3/2/1 3/1/2", "# o x"];
            let n = ctx.choose(if ctx.thorough { 6 } else { 5 });
            let mut t = "v 1 2 3\nv 4 5 6\nvt 0.5 0.25\nvn 0 1 0\n".to_string();
            for _ in 0..n {
                t.push_str(ctx.pick(&l));
                t.push('\n');
            }
            ctx.note(|| format!("{t:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("corners", "one face of three corners over 36 corner spellings each, in the context of 3 vertices, 2 uvs, 2 normals", |ctx| {
            let c: Vec<&str> = (0..3).map(|_| ctx.pick(&CORNERS)).collect();
            let t = format!("v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 0 1\nvt 0.5 0.25\nvn 0 1 0\nvn 1 0 0\nf {} {} {}\n", c[0], c[1], c[2]);
            ctx.note(|| format!("{c:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("face_lengths", "faces of 0..=5 corners over six corner spellings, as first or second face", |ctx| {
            let n = ctx.choose(6);
            let sp = ["1", "2/1", "3//2", "1/2/1", "x", "2"];
            let c: Vec<&str> = (0..n).map(|_| ctx.pick(&sp)).collect();
            let pre = ctx.choose(3);
            let t = format!("v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 0 1\nvt 0.5 0.25\nvn 0 1 0\nvn 1 0 0\n{}f {}\n", ["", "f 1 2 3\n", "f 1/1/1 2/2/2 3/1/2\n"][pre], c.join(" "));
            ctx.note(|| format!("{c:?} after {pre}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("numbers", "all spellings of numbers in every field of v, vn and vt, also missing and extra fields", |ctx| {
            let sp = ["1", "-2.5", "1e3", ".5", "5.", "-0", "0.1", "1E-3", "+1", "x", "1,5", "0x10", "1e", "--1", "nan", "inf", "1/2", "3.4028236e38", "1e-46", "123456789.123456789", "#", "-", ".", "0.30000001192092896", "", "1e400", "16777217"];
            let k = ctx.pick(&["v", "vn", "vt"]);
            let n = ctx.choose(if k == "vt" { 4 } else { 5 });
            let pos = if n == 0 { 0 } else { ctx.choose(n) };
            let mut f: Vec<String> = (0..n).map(|i| (i + 1).to_string()).collect();
            if n > 0 {
                f[pos] = ctx.pick(&sp).to_string();
                if n > 1 && ctx.flag() {
                    f[(pos + 1) % n] = ctx.pick(&sp).to_string();
                }
            }
            let face = match k { "v" => "f 2 1 2", "vn" => "f 1//2 1//1 1//2", _ => "f 1/2 1/1 1/2" };
            let t = format!("v 9 9 9\nvn 9 9 9\nvt 9 9\n{k} {}\n{face}\n", f.join(" "));
            ctx.note(|| format!("{k} {f:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("spacing", "separators between all fields, leading and trailing white space, line ends, missing last line end", |ctx| {
            let sep = ctx.pick(&[" ", "  ", "\t", " \t ", "   "]);
            let sep2 = ctx.pick(&[" ", "  ", "\t"]);
            let lead = ctx.pick(&["", " ", "\t", "  "]);
            let trail = ctx.pick(&["", " ", "\t", "  "]);
            let eol = ctx.pick(&["\n", "\r\n", "\n\n"]);
            let form = ctx.choose(4);
            let last = ctx.flag();
            let c = match form { 0 => ["1", "2", "3"], 1 => ["1/1", "2/2", "3/1"], 2 => ["1//1", "2//2", "3//1"], _ => ["1/2/1", "2/1/2", "3/2/2"] };
            let mut lines = vec!["v 1 2 3", "v 4 5 6", "v 7 8 9", "vt 0 1", "vt 0.5 0.25", "vn 0 1 0", "vn 1 0 0", "o name"].into_iter().map(|l| l.replace(' ', sep)).collect::<Vec<_>>();
            lines.push(format!("f{sep2}{}{sep}{}{sep2}{}", c[0], c[1], c[2]));
            let mut t = String::new();
            let n = lines.len();
            for (i, l) in lines.into_iter().enumerate() {
                t.push_str(lead);
                t.push_str(&l);
                t.push_str(trail);
                if i + 1 < n || last {
                    t.push_str(eol);
                }
            }
            ctx.note(|| format!("{t:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("strings", "all strings of up to 5 characters (6 thorough) over 9 characters after a short prelude", |ctx| {
            let ch = ["f", "v", "o", " ", "1", "/", "\n", "x", "-"];
            let n = ctx.choose(if ctx.thorough { 8 } else { 7 });
            let pre = ctx.choose(2);
            let mut t = ["", "v 1 2 3\nvt 0 1\nvn 0 0 1\nf 1"][pre].to_string();
            for _ in 0..n {
                t.push_str(ctx.pick(&ch));
            }
            ctx.note(|| format!("{t:?}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("bytes", "a complete document with every byte replaced by every value, or the document cut at every length", |ctx| {
            let doc = b"o a\nv 1 2 3\nv 4 5 6\nv 7 8 9\nvt 0 1\nvn 0 1 0\nf 1/1/1 2/1/1 3/1/1\no b\nv 0 0 1\nf 4/1/1 2/1/1 3/1/1\n";
            let mut d = doc.to_vec();
            if ctx.flag() {
                let n = ctx.choose(d.len() + 1);
                d.truncate(n);
            } else {
                let p = ctx.choose(d.len());
                d[p] = ctx.choose(256) as u8;
                // other control characters as white space or line ends: no promise
                if matches!(d[p], 0x0b | 0x0c | 0x0d | 0x1c..=0x1f) {
                    import(&d)?.ok();
                    return Ok(());
                }
            }
            ctx.note(|| format!("{:?}", text(&d)));
            check_text(ctx, &d)
        }),
        dfs("many_lines", "documents of as many vertices, faces, objects or other lines as counters, buffers and blocks hold, faces referring to the first, the last and some in between; sound, or with one bad line", |ctx| {
            let c: Vec<usize> = many(ctx.thorough).into_iter().filter(|n| *n <= 300_000 && *n < TOP as usize).collect();
            let n = ctx.pick(&c);
            let kind = ctx.choose(6);
            let bad = ctx.choose(5);
            let mut t = String::from("v 1 2 3\nv 4 5 6\nvt 0.5 0.25\nvn 0 1 0\n");
            let at = [usize::MAX, 0, n / 2, n - 1, n - 1][bad];
            for i in 0..n {
                if i == at {
                    t.push_str(["", "v 1 2 x\n", "f 1 2 q\n", "vt\n", "f 1/1/1 2/1/1 0/1/1\n"][bad]);
                }
                match kind {
                    0 => t.push_str(&format!("v {i} {}.5 -{}\n", i % 7, i % 11)),
                    1 => t.push_str(&format!("v {i} 1 2\nf {} 1 {}\n", i + 3, i / 2 + 1)),
                    2 => t.push_str(&format!("vt {i} 0.5\nvn 0 {i} 1\nf 1/{}/{} 2/{}/1 1/1/{}\n", i + 2, i + 2, i / 2 + 1, i / 3 + 1)),
                    3 => t.push_str(&format!("o object {i}\nf 1 2 1\n")),
                    4 => t.push_str(&format!("# {i}\n\n")),
                    _ => t.push_str("f 2/1/1 1/1/1 2/1/1\n"),
                }
            }
            let last = if kind < 2 { n + 2 } else { 2 };
            t.push_str(&format!("f {last} 1 {}\n", last / 2 + 1));
            ctx.note(|| format!("{n} times kind {kind}, bad line {bad}"));
            check_text(ctx, t.as_bytes())
        }),
        dfs("long_lines", "lines of as many characters as counters, buffers and blocks hold: comments, names, white space, digits", |ctx| {
            let c = many(ctx.thorough);
            let n = ctx.pick(&c);
            let kind = ctx.choose(6);
            let last = ctx.flag();
            let l = match kind {
                0 => format!("#{}", "ż".repeat(n / 2)),
                1 => format!("o {}", "n".repeat(n)),
                2 => format!("{}f{}1 2 3", " ".repeat(n / 2), " ".repeat(n / 2)),
                3 => format!("v 1.{}1 2 3", "0".repeat(n)),
                4 => format!("f 1 2 3{}", " ".repeat(n)),
                _ => format!("f {}1 2 3", "0".repeat(n)),
            };
            let t = if last { format!("v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1 3 2\no a\nf 1 2 2\n{l}") } else { format!("{}{l}\nv 1 2 3\no b\nf 2 1 2\n", "v 1 2 3\nv 4 5 6\nv 7 8 9\nf 3 2 1\n") };
            ctx.note(|| format!("a line of {} bytes of kind {kind}, last {last}", l.len()));
            check_text(ctx, t.as_bytes())
        }),
    ]
}
// ---- C18 --------------------------------------------------------------------------------------------
struct Poly {
    /// global zero based indices (vertex, uv, normal) in polygon order
    corners: Vec<[usize; 3]>,
}
/// Checks that `tri` (corner triples) is a triangulation of the polygon.
fn check_cover(p: &Poly, pos: &[[f64; 3]], convex: bool, tri: &[[usize; 3]]) -> R {
    let n = p.corners.len();
    ensure!(tri.len() == n - 2, "{} triangles for a polygon of {n} corners", tri.len());
    let mut edges: HashMap<(usize, usize), i32> = HashMap::new();
    for t in tri {
        for k in 0..3 {
            *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    for i in 0..n {
        let e = (i, (i + 1) % n);
        ensure!(edges.get(&e) == Some(&1), "edge {e:?} of the polygon appears {:?} times in the polygon's orientation; triangles {tri:?}", edges.get(&e).unwrap_or(&0));
        edges.remove(&e);
    }
    for ((a, b), c) in &edges {
        ensure!(*c == 1 && edges.get(&(*b, *a)) == Some(&1), "inner edge {:?} is not shared by exactly two triangles; triangles {tri:?}", (a, b));
    }
    if convex {
        let sub = |a: [f64; 3], b: [f64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
        let cross = |a: [f64; 3], b: [f64; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let mut total = [0.0; 3];
        for i in 1..n - 1 {
            let c = cross(sub(pos[i], pos[0]), sub(pos[i + 1], pos[0]));
            for k in 0..3 {
                total[k] += c[k];
            }
        }
        let len = (total[0] * total[0] + total[1] * total[1] + total[2] * total[2]).sqrt();
        let mut sum = 0.0;
        for t in tri {
            let c = cross(sub(pos[t[1]], pos[t[0]]), sub(pos[t[2]], pos[t[0]]));
            let a = (c[0] * total[0] + c[1] * total[1] + c[2] * total[2]) / len;
            ensure!(a >= -1e-5 * len, "triangle {t:?} is turned over");
            sum += a;
        }
        ensure!((sum - len).abs() <= 1e-4 * len, "triangles cover an area of {} instead of {}", sum / 2.0, len / 2.0);
    }
    Ok(())
}
struct Doc {
    text: String,
    nv: usize,
    v: Vec<[f64; 3]>,
    polys: Vec<(usize, Poly, Vec<[f64; 3]>, bool)>, // object, corners, positions, convex
    objs: usize,
}
impl Doc {
    fn new() -> Doc {
        Doc { text: "o obj0\n".into(), nv: 0, v: vec![], polys: vec![], objs: 1 }
    }
    fn object(&mut self) {
        self.text.push_str(&format!("o obj{}\n", self.objs));
        self.objs += 1;
    }
    /// `order` shuffles the order in which the corners are listed as vertices
    fn poly(&mut self, pts: &[[f64; 3]], order: usize, form: usize, convex: bool) {
        let n = pts.len();
        let perm: Vec<usize> = match order {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).map(|i| (i * 7 + 3) % n).collect::<Vec<_>>(),
        };
        let perm = if { let mut p = perm.clone(); p.sort(); p.dedup(); p.len() == n } { perm } else { (0..n).collect() };
        let base = self.nv;
        let mut at = vec![0; n];
        for (k, i) in perm.iter().enumerate() {
            let p = pts[*i];
            self.text.push_str(&format!("v {} {} {}\nvt {} {}\nvn {} 1 {}\n", p[0] as f32, p[1] as f32, p[2] as f32, (base + k) as f32 / 1024.0, 0.5, base + k, k));
            at[*i] = base + k;
            self.v.push(p);
        }
        self.nv += n;
        // uv and normal indices differ from the vertex indices
        let corners: Vec<[usize; 3]> = (0..n).map(|i| match form { 0 => [at[i]; 3], _ => [at[i], base + (i + 1) % n, base + (i * 2) % n] }).collect();
        self.text.push('f');
        for c in &corners {
            self.text.push_str(&format!(" {}/{}/{}", c[0] + 1, c[1] + 1, c[2] + 1));
        }
        self.text.push('\n');
        self.polys.push((self.objs - 1, Poly { corners }, pts.iter().map(|p| [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]).collect(), convex));
    }
    fn check(&self, ctx: &mut Ctx) -> R {
        ctx.state(H::new().s(&self.text));
        ctx.step();
        let needs = self.polys.iter().any(|p| p.1.corners.len() > 3);
        let r = import(self.text.as_bytes())?;
        let got = match r {
            Ok(g) => g,
            Err(e) => {
                if needs && !FULL {
                    ctx.compared();
                    return Ok(());
                }
                return fail(format!("refused: {e}; text {:?}", text(self.text.as_bytes())));
            }
        };
        ensure!(!needs || FULL, "a polygon was accepted without the triangulation feature");
        let got: Vec<_> = got.into_iter().filter(|(m, _)| m.get_vertex_triangles().is_some_and(|t| !t.is_empty())).collect();
        let want: Vec<usize> = (0..self.objs).filter(|o| self.polys.iter().any(|p| p.0 == *o)).collect();
        ensure!(got.len() == want.len(), "{} objects expected, {} found", want.len(), got.len());
        for (o, (m, name)) in want.iter().zip(&got) {
            ensure!(name == &format!("obj{o}"), "object name {name:?}");
            let g = corners(m)?;
            let mut k = 0;
            for (pi, (_, p, pos, convex)) in self.polys.iter().filter(|p| p.0 == *o).enumerate() {
                let n = p.corners.len();
                let mut by_uv = HashMap::new();
                for (i, w) in p.corners.iter().enumerate() {
                    by_uv.entry((w[1] as f32 / 1024.0).to_bits()).or_insert(i);
                }
                ensure!(g.len() >= k + (n - 2) * 3, "object {o}: {} corners, too few for its polygons", g.len());
                let mut tri = vec![];
                for t in 0..n - 2 {
                    let mut x = [0; 3];
                    for c in 0..3 {
                        let q = &g[k + t * 3 + c];
                        // identify the polygon corner by its uv (unique per listed vertex), then compare everything
                        let hit = q.t.filter(|t| t.1 == 0.5).and_then(|t| by_uv.get(&(t.0 as f32).to_bits()));
                        let Some(&i) = hit else { return fail(format!("object {o} polygon {pi}: corner {q:?} has a UV which is none of the polygon's")) };
                        let w = p.corners[i];
                        let wv = self.v[w[0]];
                        ensure!(
                            q.v == Some((wv[0] as f32, wv[1] as f32, wv[2] as f32)) && q.n.is_some_and(|x| x.0 == w[2] as f32),
                            "object {o} polygon {pi} corner {i}: (vertex, uv, normal) triple {q:?} is none of the polygon's"
                        );
                        x[c] = i;
                    }
                    tri.push(x);
                }
                if let Err(e) = check_cover(p, pos, *convex, &tri) {
                    return fail(format!("object {o} polygon {pi} of {n} corners: {}", e.msg));
                }
                k += (n - 2) * 3;
            }
            ensure!(k == g.len(), "object {o}: {} corners instead of {k}", g.len());
        }
        ctx.compared();
        Ok(())
    }
}
fn plane(p: usize, x: f64, y: f64) -> [f64; 3] {
    match p {
        0 => [x, y, 0.0],
        1 => [0.5, x, y],
        2 => [x, -3.0, -y],
        3 => [x + 0.3 * y, y - 0.2 * x, 0.7 * x + 0.4 * y + 1.0],
        4 => [x * 1e-3, y * 1e-3, 1.0],
        5 => [x * 1e4 + 7.0, y * 1e4, x * 1e4],
        _ => [x * 1e30, y * 1e30, 0.0],
    }
}
fn ring(n: usize, shape: usize, rot: f64) -> Vec<(f64, f64)> {
    (0..n)
        .map(|i| {
            let t = i as f64 / n as f64;
            let a = match shape {
                0 => t,
                1 => t * t * 0.9 + t * 0.1,          // crowded start
                2 => t + 0.11 * (t * 6.283).sin() / 6.283 * 5.0, // uneven
                _ => t,
            } * std::f64::consts::TAU
                + rot;
            let (rx, ry) = if shape == 3 { (5.0, 0.3) } else { (2.0, 1.5) };
            (a.cos() * rx, a.sin() * ry)
        })
        .collect()
}
pub fn c18() -> Vec<Family> {
    vec![
        dfs("subsets", "every convex polygon on 12 points of an ellipse (all subsets of 3..=12 points) x starting corner x orientation x plane", |ctx| {
            let all = if ctx.thorough { 12 } else { 10 };
            let mask = ctx.choose(1 << all);
            if mask.count_ones() < 3 {
                return Ok(());
            }
            let mut pts: Vec<(f64, f64)> = ring(all, 0, 0.3).into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect();
            let rev = ctx.flag();
            if rev { pts.reverse() }
            let st = ctx.choose(pts.len());
            pts.rotate_left(st);
            let p = if ctx.thorough { ctx.choose(7) } else { ctx.pick(&[0usize, 3]) };
            let mut d = Doc::new();
            d.poly(&pts.iter().map(|x| plane(p, x.0, x.1)).collect::<Vec<_>>(), 0, 0, p != 6);
            ctx.note(|| format!("subset {mask:#b} reversed {rev} start {st} plane {p}"));
            d.check(ctx)
        }),
        dfs("rings", "polygons of 3..=16 (24) corners, 4 shapes, orientation, start, plane, order of listing, corner triples with different indices", |ctx| {
            let n = 3 + ctx.choose(if ctx.thorough { 22 } else { 14 });
            let sh = ctx.choose(4);
            let rev = ctx.flag();
            let st = ctx.pick(&[0usize, 1, 2]);
            let p = ctx.choose(7);
            let order = ctx.choose(3);
            let form = ctx.choose(2);
            let mut pts = ring(n, sh, 0.1);
            if rev { pts.reverse() }
            pts.rotate_left(st % n);
            let mut d = Doc::new();
            d.poly(&pts.iter().map(|x| plane(p, x.0, x.1)).collect::<Vec<_>>(), order, form, p != 6);
            ctx.note(|| format!("{n} corners shape {sh} reversed {rev} start {st} plane {p} order {order} form {form}"));
            d.check(ctx)
        }),
        dfs("large_rings", "polygons of 17..=40, 63..=65, 100, 127..=129 and 255..=257 corners, shapes, orientation, plane, order of listing", |ctx| {
            let k = ctx.choose(34);
            let n = if k < 24 { 17 + k } else { [63, 64, 65, 100, 127, 128, 129, 255, 256, 257][k - 24] };
            let sh = ctx.choose(4);
            let rev = ctx.flag();
            let p = ctx.pick(&[0usize, 1, 2, 3]);
            let order = ctx.choose(3);
            if n > 100 && (sh > 0 || p > 0) && !ctx.thorough {
                return Ok(());
            }
            let mut pts = ring(n, sh, 0.1);
            if rev { pts.reverse() }
            let mut d = Doc::new();
            d.poly(&pts.iter().map(|x| plane(p, x.0, x.1)).collect::<Vec<_>>(), order, 1, true);
            ctx.note(|| format!("{n} corners shape {sh} reversed {rev} plane {p} order {order}"));
            d.check(ctx)
        }),
        dfs("huge_rings", "polygons of as many corners as counters, buffers and blocks hold (258 to 4097, thorough: 70001), shapes, orientation, order of listing, alone or before another polygon", |ctx| {
            let mut l = vec![258usize, 259, 260, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097];
            if ctx.thorough {
                l.extend([5000, 8191, 8192, 8193, 10_007, 16_385, 20_001, 40_001, 65_535, 65_536, 65_537, 70_001]);
            }
            l.retain(|n| *n < TOP as usize / 4);
            let n = ctx.pick(&l);
            let rev = ctx.flag();
            let (sh, order, then) = if n > 1500 { (0, 0, ctx.flag()) } else { (ctx.choose(3), ctx.pick(&[0usize, 2]), ctx.flag()) };
            let mut pts = ring(n, sh, 0.1);
            if rev { pts.reverse() }
            let mut d = Doc::new();
            d.poly(&pts.iter().map(|x| plane(0, x.0, x.1)).collect::<Vec<_>>(), order, 1, true);
            if then {
                d.poly(&ring(5, 0, 0.0).into_iter().map(|x| plane(1, x.0, x.1)).collect::<Vec<_>>(), 0, 1, true);
            }
            ctx.note(|| format!("{n} corners shape {sh} reversed {rev} order {order}, another polygon after it {then}"));
            d.check(ctx)
        }),
        dfs("many_faces", "objects of as many faces as counters, buffers and blocks hold, of 3 to 6 corners in turn, some of them in a second object", |ctx| {
            let c: Vec<usize> = many(false).into_iter().filter(|n| *n <= if ctx.thorough { 131_073 } else { 70_001 }).collect();
            let n = ctx.pick(&c);
            let kind = ctx.choose(3);
            if n > TOP as usize / 8 {
                return Ok(());
            }
            let mut d = Doc::new();
            for i in 0..n {
                let k = match kind { 0 => 4, 1 => 3 + i % 4, _ => if i + 2 >= n { 5 } else { 3 } };
                if i > 0 && i + 1 == n {
                    d.object();
                }
                let pts: Vec<[f64; 3]> = ring(k, 0, i as f64).into_iter().map(|x| plane(0, x.0 + (i % 50) as f64, x.1)).collect();
                d.poly(&pts, 0, 1, true);
            }
            ctx.note(|| format!("{n} faces of kind {kind}"));
            d.check(ctx)
        }),
        dfs("sequences", "sequences of up to 4 faces of 3..=7 corners each over 1..=2 objects: every face keeps its own triangles", |ctx| {
            let n = 1 + ctx.choose(if ctx.thorough { 5 } else { 4 });
            let cut = ctx.choose(n + 1);
            let mut d = Doc::new();
            let mut sizes = vec![];
            for i in 0..n {
                let k = 3 + ctx.choose(5);
                sizes.push(k);
                if i == cut {
                    d.object();
                }
                let pts: Vec<[f64; 3]> = ring(k, i % 3, i as f64).into_iter().map(|x| plane(i % 4, x.0 + i as f64, x.1)).collect();
                d.poly(&pts, i % 3, (i + 1) % 2, true);
            }
            ctx.note(|| format!("faces {sizes:?} object boundary {cut}"));
            d.check(ctx)
        }),
        dfs("collinear", "polygons with corners in the middle of edges and with repeated corners", |ctx| {
            let n = 3 + ctx.choose(6);
            let extra = ctx.choose(1 << n.min(6));
            let rep = ctx.choose(n + 1);
            let st = ctx.choose(n);
            let base = ring(n, 0, 0.2);
            let mut pts = vec![];
            for i in 0..n {
                pts.push(base[i]);
                if i + 1 == rep { pts.push(base[i]) }
                if extra >> i & 1 == 1 {
                    let b = base[(i + 1) % n];
                    pts.push(((base[i].0 + b.0) / 2.0, (base[i].1 + b.1) / 2.0));
                }
            }
            pts.rotate_left(st);
            let mut d = Doc::new();
            d.poly(&pts.iter().map(|x| plane(0, x.0, x.1)).collect::<Vec<_>>(), 0, 1, true);
            ctx.note(|| format!("{n} corners, midpoints {extra:#b}, repeated {rep}, start {st}"));
            d.check(ctx)
        }),
        dfs("missing", "polygons of 3..=7 corners in which some corners refer to vertices, uvs or normals that do not exist: no panic", |ctx| {
            let n = 3 + ctx.choose(5);
            let bad = ctx.choose(1 << n);
            let part = ctx.choose(4);
            let nv = ctx.choose(3);
            let mut t = String::new();
            for i in 0..nv {
                t.push_str(&format!("v {i} 0 1\nvt 0 0\nvn 0 0 1\n"));
            }
            t.push('f');
            for i in 0..n {
                let ok = (i % nv.max(1)) + 1;
                let b = if bad >> i & 1 == 1 { 1000 + i } else { ok };
                let c = |k: usize| if part == 3 || part == k { b } else { ok };
                t.push_str(&format!(" {}/{}/{}", c(0), c(1), c(2)));
            }
            t.push_str("\nf 1/1/1 1/1/1 1/1/1\n");
            ctx.note(|| format!("{t:?}"));
            ctx.state(H::new().s(&t));
            ctx.step();
            let _ = import(t.as_bytes())?;
            ctx.compared();
            Ok(())
        }),
    ]
}
