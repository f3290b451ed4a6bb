//! C30: any sequence of operations keeps the model, and a mesh behaves by its contents alone.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use futures::executor::block_on;
use tmf::*;

type F = FloatType;
type I = IndexType;
const FLOATS: &str = "weights";
const INTS: &str = "groups";
const FINE: Prec = Prec { v: 0.01, n_deg: 0.1, u: (8192.0, 0.1), t_deg: 0.1 };
const CUSTOM_PREC: f64 = 0.01;

fn up3(v: Vector3) -> [f64; 3] {
    [v.0 as f64, v.1 as f64, v.2 as f64]
}
fn dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    (0..3).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
}
/// What a user sees of a mesh: the values at its corners, or the array where there are no indices.
#[derive(Clone, Debug)]
struct Seen {
    name: String,
    v: Vec<[f64; 3]>,
    n: Option<Vec<[f64; 3]>>,
    u: Option<Vec<[f64; 2]>>,
    t: Option<Vec<([f64; 3], bool)>>,
    indexed: bool,
    custom: bool,
    /// how far values may be off by now
    ev: f64,
    en: f64,
    eu: f64,
    ec: f64,
}
fn corner<T: Copy, O>(what: &str, d: Option<&[T]>, i: Option<&[I]>, f: impl Fn(T) -> O) -> R<Option<Vec<O>>> {
    match (d, i) {
        (None, None) => Ok(None),
        (None, Some(_)) => fail(format!("{what} have indices and no data")),
        (Some(d), None) => Ok(Some(d.iter().map(|x| f(*x)).collect())),
        (Some(d), Some(i)) => {
            let mut o = vec![];
            for i in i {
                match d.get(*i as usize) {
                    Some(x) => o.push(f(*x)),
                    None => return fail(format!("{what}: index {i} of {} elements", d.len())),
                }
            }
            Ok(Some(o))
        }
    }
}
const FLOAT_DATA: [F; 4] = [0.125, 7.5, 3.25, 1.0];
const INT_DATA: [I; 5] = [9, 0, 200, 3, 3];
/// The meshes sequences start from.
const STARTS: usize = 7;
fn start(k: usize) -> Vec<(TMFMesh, Seen)> {
    let d = |i: usize| {
        let v = dir(15.0 + 60.0 * (i / 8 % 2) as f64, 20.0 + 25.0 * (i / 16 % 2) as f64, i % 8);
        (v.0 as F, v.1 as F, v.2 as F)
    };
    let one = |name: &str, nv: usize, tris: Option<&[I]>, parts: usize, custom: bool, offset: bool| {
        let mut m = TMFMesh::empty();
        let v: Vec<Vector3> = (0..nv).map(|i| ((i % 3) as F * 2.0, (i / 3 % 4) as F * 1.5, (i / 12) as F + (i % 2) as F * 3.0)).collect();
        m.set_vertices(&v[..]);
        let m2 = |k: usize, n: usize| -> Option<Vec<I>> {
            tris.map(|t| t.iter().map(|i| if offset { ((*i as usize + k) * 5 % n) as I } else { *i % n as I }).collect())
        };
        if let Some(t) = tris {
            m.set_vertex_triangles(t);
        }
        if parts & 1 != 0 {
            let n = if offset { 7 } else { nv };
            m.set_normals((0..n).map(d).collect::<Vec<_>>());
            if let Some(t) = m2(1, n) {
                m.set_normal_triangles(t);
            }
        }
        if parts & 2 != 0 {
            let n = if offset { 9 } else { nv };
            m.set_uvs((0..n).map(|i| ((i % 5) as F * 0.25, (i / 5 % 8) as F * 0.125)).collect::<Vec<_>>());
            if let Some(t) = m2(2, n) {
                m.set_uv_triangles(t);
            }
        }
        if parts & 4 != 0 {
            let n = if offset { 6 } else { nv };
            m.set_tangents((0..n).map(|i| (d(i * 3 + 1), if i % 2 == 0 { 1.0 } else { -1.0 })).collect::<Vec<_>>());
            if let Some(t) = m2(3, n) {
                m.set_tangent_triangles(t);
            }
        }
        if custom {
            m.add_custom_data(CustomData::CustomFloat(FLOAT_DATA[..].into(), CUSTOM_PREC as F), FLOATS).expect("valid");
            m.add_custom_data(CustomData::CustomIntiger(INT_DATA[..].into(), 200), INTS).expect("valid");
        }
        let seen = look(&m, name, custom).ok().expect("a valid start");
        (m, seen)
    };
    let quad: &[I] = &[0, 1, 2, 2, 1, 3];
    let fan: &[I] = &[5, 4, 3, 0, 5, 1, 2, 2, 5, 4, 0, 1, 3, 1, 5];
    let grid: Vec<I> = (0..240).map(|i| (i * 37 % 72) as I).collect();
    match k {
        0 => vec![one("quad", 4, Some(quad), 7, true, false)],
        1 => vec![one("fan", 6, Some(fan), 7, true, true)],
        2 => vec![one("cloud", 11, None, 0, true, false)],
        3 => vec![one("first", 6, Some(fan), 3, false, true), one("second one", 4, Some(quad), 1, true, true)],
        4 => vec![one("only vertices", 5, Some(quad), 0, false, false), one("cloud", 3, None, 0, false, false), one("ż", 6, Some(fan), 6, true, false)],
        5 => vec![one("grid", 72, Some(&grid), 7, false, true)],
        _ => vec![one("same", 6, Some(fan), 5, true, true), one("same", 6, Some(fan), 2, false, false)],
    }
}
fn look(m: &TMFMesh, name: &str, custom: bool) -> R<Seen> {
    Ok(Seen {
        name: name.into(),
        v: corner("vertices", m.get_vertices(), m.get_vertex_triangles(), up3)?.unwrap_or_default(),
        n: corner("normals", m.get_normals(), m.get_normal_triangles(), up3)?,
        u: corner("UVs", m.get_uvs(), m.get_uv_triangles(), |u| [u.0 as f64, u.1 as f64])?,
        t: corner("tangents", m.get_tangents(), m.get_tangent_triangles(), |t| (up3(t.0), t.1 > 0.0))?,
        indexed: m.get_vertex_triangles().is_some(),
        custom,
        ev: 0.0,
        en: 0.0,
        eu: 0.0,
        ec: 0.0,
    })
}
fn shortest(m: &TMFMesh) -> f64 {
    let mut s = f64::INFINITY;
    if let (Some(v), Some(t)) = (m.get_vertices(), m.get_vertex_triangles()) {
        for t in t.chunks_exact(3) {
            for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                let e = dist(up3(v[t[a] as usize]), up3(v[t[b] as usize]));
                if e > 0.0 {
                    s = s.min(e)
                }
            }
        }
    }
    if s.is_finite() { s } else { 0.1 }
}
const OPS: [&str; 13] = [
    "save+load", "save finely+load alone", "OBJ", "unify", "reorder", "clone", "append", "normalize", "expand", "look", "scale", "exchange UVs", "append small",
];
fn same(w: &Seen, g: &Seen) -> R {
    let what = &w.name;
    ensure!(w.name == g.name, "{what}: the name became {:?}", g.name);
    ensure!(w.indexed == g.indexed, "{what}: has vertex indices: {} became {}", w.indexed, g.indexed);
    ensure!(w.v.len() == g.v.len(), "{what}: {} corners became {}", w.v.len(), g.v.len());
    for (i, (a, b)) in w.v.iter().zip(&g.v).enumerate() {
        ensure!(dist(*a, *b) <= w.ev + 1e-5, "{what}: corner {i} was at {a:?} and is at {b:?}, allowed {:e}", w.ev);
    }
    let dirs = |part: &str, a: &[f64; 3], b: &[f64; 3], i: usize| -> R {
        ensure!(dist(*a, *b) <= w.en + 1e-5, "{what}: {part} of corner {i} was {a:?} and is {b:?}, allowed {:e}", w.en);
        Ok(())
    };
    ensure!(w.n.as_ref().map(|x| x.len()) == g.n.as_ref().map(|x| x.len()), "{what}: normals {:?} became {:?}", w.n, g.n);
    for (i, (a, b)) in w.n.iter().flatten().zip(g.n.iter().flatten()).enumerate() {
        dirs("normal", a, b, i)?;
    }
    ensure!(w.t.as_ref().map(|x| x.len()) == g.t.as_ref().map(|x| x.len()), "{what}: tangents {:?} became {:?}", w.t, g.t);
    for (i, (a, b)) in w.t.iter().flatten().zip(g.t.iter().flatten()).enumerate() {
        dirs("tangent", &a.0, &b.0, i)?;
        ensure!(a.1 == b.1, "{what}: handedness of corner {i} changed");
    }
    ensure!(w.u.as_ref().map(|x| x.len()) == g.u.as_ref().map(|x| x.len()), "{what}: UVs {:?} became {:?}", w.u, g.u);
    for (i, (a, b)) in w.u.iter().flatten().zip(g.u.iter().flatten()).enumerate() {
        ensure!((a[0] - b[0]).abs() <= w.eu + 1e-6 && (a[1] - b[1]).abs() <= w.eu + 1e-6, "{what}: UV of corner {i} was {a:?} and is {b:?}, allowed {:e}", w.eu);
    }
    Ok(())
}
fn custom(m: &TMFMesh, w: &Seen) -> R {
    let (f, i) = (m.lookup_custom_data(FLOATS), m.lookup_custom_data(INTS));
    ensure!(f.is_some() == w.custom && i.is_some() == w.custom, "{}: custom data present: {}, expected {}", w.name, f.is_some() || i.is_some(), w.custom);
    if w.custom {
        let f = f.and_then(|f| f.as_float()).map(|f| f.0.to_vec()).unwrap_or_default();
        let ok = f.len() == 4 && f.iter().zip(FLOAT_DATA).all(|(a, b)| ((a - b) as f64).abs() <= w.ec + 1e-5);
        ensure!(ok, "{}: custom floats {FLOAT_DATA:?} became {f:?}, allowed {:e}", w.name, w.ec);
        let i = i.and_then(|i| i.as_intiger()).map(|i| i.0.to_vec());
        ensure!(i.as_deref() == Some(&INT_DATA[..]), "{}: custom integers became {i:?}", w.name);
    }
    Ok(())
}
/// The arrays of a mesh, bit by bit.
fn all(o: &mut Vec<u8>, m: &TMFMesh) {
    fn part<T: Copy>(o: &mut Vec<u8>, a: Option<&[T]>, f: impl Fn(T, &mut Vec<u8>)) {
        o.extend((a.map_or(u64::MAX, |a| a.len() as u64)).to_le_bytes());
        a.unwrap_or(&[]).iter().for_each(|x| f(*x, o));
    }
    let v3 = |v: Vector3, o: &mut Vec<u8>| [v.0, v.1, v.2].iter().for_each(|x| o.extend(x.to_le_bytes()));
    let i1 = |i: I, o: &mut Vec<u8>| o.extend(i.to_le_bytes());
    part(o, m.get_vertices(), v3);
    part(o, m.get_normals(), v3);
    part(o, m.get_uvs(), |u, o| [u.0, u.1].iter().for_each(|x| o.extend(x.to_le_bytes())));
    part(o, m.get_tangents(), |t, o| {
        v3(t.0, o);
        o.extend(t.1.to_le_bytes())
    });
    for t in [m.get_vertex_triangles(), m.get_normal_triangles(), m.get_uv_triangles(), m.get_tangent_triangles()] {
        part(o, t, i1);
    }
}
/// Everything a mesh answers: the file it is saved as, and all the rest.
fn answers(m: &TMFMesh) -> Result<(Vec<u8>, Vec<u8>), String> {
    sut(|| {
        let mut o = vec![];
        let (mut tmf, mut obj) = (vec![], vec![]);
        o.extend(format!("{:?}", m.verify()).bytes());
        o.extend(format!("{:?}", m.write_tmf_one(&mut tmf, &TMFPrecisionInfo::default(), "m").map_err(|e| e.to_string())).bytes());
        o.extend(format!("{:?}", m.write_obj_one(&mut obj, "m").map_err(|e| e.to_string())).bytes());
        o.extend(obj);
        let mut b = TMFMesh::empty();
        m.get_vertex_buffer().map(|x| b.set_vertices(x));
        m.get_normal_buffer().map(|x| b.set_normals(x));
        m.get_uv_buffer().map(|x| b.set_uvs(x));
        all(&mut o, &b);
        let mut c = m.clone();
        all(&mut o, &c);
        c.unify_index_data();
        all(&mut o, &c);
        c.reorder_data();
        all(&mut o, &c);
        let mut c = m.clone();
        c.reorder_data();
        all(&mut o, &c);
        c.normalize();
        all(&mut o, &c);
        (tmf, o)
    })
}
/// The mesh goes on with further operations; what it is after each of them.
fn goes_on(m: &mut TMFMesh, script: usize) -> Result<Vec<u8>, String> {
    sut(|| {
        let mut o = vec![];
        let len = |n: Option<usize>| n.unwrap_or(0);
        let at = |n: usize, l: [usize; 3]| l.map(|i| (n + i) as I);
        let append = |m: &mut TMFMesh| {
            // not of unit length, not of the scale of the others
            let (nv, nn, nu, nt) = (len(m.get_vertices().map(|x| x.len())), len(m.get_normals().map(|x| x.len())), len(m.get_uvs().map(|x| x.len())), len(m.get_tangents().map(|x| x.len())));
            m.append_vertices(&[(40.0, -3.0, 0.5), (40.125, -3.0, 0.5), (40.0, -3.0, 0.75)]);
            m.append_normals(&[(0.0, 3.0, 4.0), (0.5, 0.0, 0.0), (-2.0, -2.0, 1.0)]);
            m.append_uvs(&[(0.625, 0.0), (1.0, 1.0)]);
            m.append_tangents(&[((0.0, 0.0, -2.0), 1.0), ((3.0, 4.0, 0.0), -1.0)]);
            if m.get_vertex_triangles().is_some() {
                m.append_vertex_triangles(&at(nv, [2, 1, 0]));
                m.append_normal_triangles(&at(nn, [1, 0, 2]));
                m.append_uv_triangles(&at(nu, [0, 1, 1]));
                m.append_tangent_triangles(&at(nt, [1, 0, 1]));
            }
        };
        let steps: [&dyn Fn(&mut TMFMesh); 3] = match script {
            0 => [&append, &|m| m.normalize(), &|m| m.unify_index_data()],
            1 => [&|m| m.normalize(), &append, &|m| m.reorder_data()],
            _ => [
                &|m| {
                    if let Some(x) = m.get_vertices() {
                        let x: Vec<Vector3> = x.iter().map(|v| (v.0 * 3.0, v.2, -v.1)).collect();
                        m.set_vertices(x);
                    }
                    if let Some(x) = m.get_normals() {
                        let x: Vec<Vector3> = x.iter().rev().map(|v| (v.0 * 3.0, -v.2 * 3.0, v.1 * 3.0)).collect();
                        m.set_normals(x);
                    }
                },
                &|m| m.normalize(),
                &|m| {
                    let f: [fn(&TMFMesh) -> Option<Vec<I>>; 4] = [|m| Some(m.get_vertex_triangles()?.to_vec()), |m| Some(m.get_normal_triangles()?.to_vec()), |m| Some(m.get_uv_triangles()?.to_vec()), |m| Some(m.get_tangent_triangles()?.to_vec())];
                    let s: [fn(&mut TMFMesh, Vec<I>); 4] = [|m, x| drop(m.set_vertex_triangles(x)), |m, x| drop(m.set_normal_triangles(x)), |m, x| drop(m.set_uv_triangles(x)), |m, x| drop(m.set_tangent_triangles(x))];
                    for (f, s) in f.iter().zip(s) {
                        if let Some(mut x) = f(m) {
                            x.reverse();
                            s(m, x);
                        }
                    }
                    for (n, d) in [("new", CustomData::CustomFloat(vec![1.0, 2.0].into(), 0.25)), (FLOATS, CustomData::CustomIntiger(vec![4 as I].into(), 4))] {
                        drop(m.add_custom_data(d, n));
                    }
                },
            ],
        };
        for s in steps {
            s(m);
            all(&mut o, m);
        }
        o.extend(format!("{:?}", m.verify()).bytes());
        let mut tmf = vec![];
        o.extend(format!("{:?}", m.write_tmf_one(&mut tmf, &TMFPrecisionInfo::default(), "m").map_err(|e| e.to_string())).bytes());
        o.extend(tmf);
        o
    })
}
/// A mesh with the same contents and no history.
fn fresh(m: &TMFMesh, w: &Seen) -> TMFMesh {
    let mut f = TMFMesh::empty();
    if let Some(x) = m.get_vertices() {
        f.set_vertices(x);
    }
    if let Some(x) = m.get_normals() {
        f.set_normals(x);
    }
    if let Some(x) = m.get_uvs() {
        f.set_uvs(x);
    }
    if let Some(x) = m.get_tangents() {
        f.set_tangents(x);
    }
    if let Some(x) = m.get_vertex_triangles() {
        f.set_vertex_triangles(x);
    }
    if let Some(x) = m.get_normal_triangles() {
        f.set_normal_triangles(x);
    }
    if let Some(x) = m.get_uv_triangles() {
        f.set_uv_triangles(x);
    }
    if let Some(x) = m.get_tangent_triangles() {
        f.set_tangent_triangles(x);
    }
    if w.custom {
        for n in [FLOATS, INTS] {
            if let Some(c) = m.lookup_custom_data(n) {
                f.add_custom_data(c.clone(), n).expect("valid");
            }
        }
    }
    f
}
fn lossy(w: &mut Seen, m: &TMFMesh, p: &Prec) {
    let far = w.v.iter().flatten().fold(1.0, |a: f64, b| a.max(b.abs()));
    w.ev += p.v as f64 * shortest(m) + far * 2f64.powi(-20);
    w.en += (if cfg!(feature = "full") { 5.0f64 } else { 3.0 } * p.n_deg as f64 + if cfg!(feature = "full") { 1.6 } else { 0.0 }).to_radians();
    w.eu += p.u.1 as f64 / p.u.0 as f64 + 1e-6;
    w.ec += CUSTOM_PREC;
}
fn apply(ctx: &mut Ctx, list: Vec<(TMFMesh, Seen)>, op: usize) -> R<Vec<(TMFMesh, Seen)>> {
    ctx.step();
    let (mut meshes, mut seen): (Vec<TMFMesh>, Vec<Seen>) = list.into_iter().unzip();
    let named = |meshes: Vec<TMFMesh>, seen: &[Seen]| -> Vec<(TMFMesh, String)> { meshes.into_iter().zip(seen).map(|(m, s)| (m, s.name.clone())).collect() };
    // names a reader gave back become the names
    let back = |l: Vec<(TMFMesh, String)>, seen: &[Seen]| -> R<Vec<TMFMesh>> {
        ensure!(l.len() == seen.len(), "{} meshes became {}", seen.len(), l.len());
        for ((_, n), s) in l.iter().zip(seen) {
            ensure!(*n == s.name, "mesh {:?} came back as {n:?}", s.name);
        }
        Ok(l.into_iter().map(|x| x.0).collect())
    };
    let each = |meshes: &mut Vec<TMFMesh>, f: &dyn Fn(&mut TMFMesh)| -> R {
        for m in meshes {
            sut(|| f(m)).or_else(|e| fail(format!("{} panicked: {e}", OPS[op])))?;
        }
        Ok(())
    };
    match op {
        0 => {
            for (m, s) in meshes.iter().zip(&mut seen) {
                lossy(s, m, &DEF);
            }
            let b = save(&named(meshes, &seen), &DEF.make())?;
            meshes = back(load(&b)?, &seen)?;
        }
        1 => {
            for (m, s) in meshes.iter_mut().zip(&mut seen) {
                lossy(s, m, &FINE);
                let r = sut(|| {
                    let mut b = vec![];
                    m.write_tmf_one(&mut b, &FINE.make(), s.name.as_str()).map_err(|e| e.to_string())?;
                    block_on(TMFMesh::read_tmf_one_async(&mut &b[..])).map_err(|e| e.to_string())
                });
                *m = match r {
                    Ok(Ok((l, n))) => {
                        ensure!(n == s.name, "mesh {:?} came back as {n:?}", s.name);
                        l
                    }
                    e => return fail(format!("{} alone: {:?}", s.name, e.map(|e| e.map(|x| x.1)))),
                };
            }
        }
        // OBJ has meshes of faces only
        2 if seen.iter().any(|s| !s.indexed) => (),
        2 => {
            let l = named(meshes, &seen);
            let r = sut(|| {
                let mut b = vec![];
                TMFMesh::write_obj(&l, &mut b).map_err(|e| e.to_string())?;
                TMFMesh::read_from_obj(&mut &b[..]).map_err(|e| e.to_string())
            });
            meshes = match r {
                Ok(Ok(l)) => back(l, &seen)?,
                e => return fail(format!("OBJ: {:?}", e.map(|e| e.map(|x| x.len())))),
            };
            for s in &mut seen {
                s.t = None;
                s.custom = false;
            }
        }
        3 => each(&mut meshes, &|m| m.unify_index_data())?,
        4 => each(&mut meshes, &|m| m.reorder_data())?,
        5 => each(&mut meshes, &|m| {
            let mut c = m.clone();
            std::mem::swap(m, &mut c);
            // the original goes on to be something else
            c.set_vertices(&[(9.0, 9.0, 9.0)][..]);
            c.set_uvs(&[(0.0, 0.0)][..]);
            c.append_vertex_triangles(&[0, 0, 0]);
            c.reorder_data();
        })?,
        6 | 12 => {
            let v: [Vector3; 3] = if op == 6 {
                [(-4.0, 1.0, 7.0), (6.0, -2.0, 8.0), (0.0, 9.0, -3.0)]
            } else {
                [(1.0, 1.0, 1.0), (1.25, 1.0, 1.0), (1.0, 1.25, 1.125)]
            };
            let d: [Vector3; 2] = [(0.6, 0.0, 0.8), (0.0, -0.8, 0.6)];
            let (m, s) = (&mut meshes[0], &mut seen[0]);
            let at = |n: Option<usize>, l: &[usize]| -> Vec<I> { l.iter().map(|i| (n.unwrap_or(0) + i) as I).collect() };
            sut(|| {
                let nv = m.get_vertices().map(|x| x.len());
                m.append_vertices(&v);
                s.v.extend(v.map(up3));
                if !s.indexed {
                    return;
                }
                m.append_vertex_triangles(&at(nv, &[0, 1, 2]));
                if s.n.is_some() {
                    let n = m.get_normals().map(|x| x.len());
                    m.append_normals(&d);
                    m.append_normal_triangles(&at(n, &[0, 1, 1]));
                }
                if s.u.is_some() {
                    let n = m.get_uvs().map(|x| x.len());
                    m.append_uvs(&[(0.375, 0.875)]);
                    m.append_uv_triangles(&at(n, &[0, 0, 0]));
                }
                if s.t.is_some() {
                    let n = m.get_tangents().map(|x| x.len());
                    m.append_tangents(&[(d[1], -1.0), (d[0], 1.0)]);
                    m.append_tangent_triangles(&at(n, &[1, 0, 1]));
                }
            })
            .or_else(|e| fail(format!("append panicked: {e}")))?;
            if s.indexed {
                s.n.iter_mut().for_each(|n| n.extend([0, 1, 1].map(|i| up3(d[i]))));
                s.u.iter_mut().for_each(|n| n.extend([[0.375, 0.875]; 3]));
                s.t.iter_mut().for_each(|n| n.extend([0, 1, 0].map(|i| (up3(d[i]), i == 0))));
            }
        }
        7 => each(&mut meshes, &|m| m.normalize())?,
        8 => {
            // a mesh of its own elements for every corner, as graphics cards want it
            for (m, s) in meshes.iter_mut().zip(&seen) {
                if !s.indexed {
                    continue;
                }
                let r = sut(|| {
                    let mut f = fresh(m, s);
                    let flat: Vec<I> = (0..s.v.len()).map(|i| i as I).collect();
                    f.set_vertices(m.get_vertex_buffer()?.into_vec());
                    f.set_vertex_triangles(&flat[..]);
                    if s.n.is_some() {
                        f.set_normals(m.get_normal_buffer()?.into_vec());
                        f.set_normal_triangles(&flat[..]);
                    }
                    if s.u.is_some() {
                        f.set_uvs(m.get_uv_buffer()?.into_vec());
                        f.set_uv_triangles(&flat[..]);
                    }
                    Some(f)
                });
                match r {
                    Ok(Some(f)) => *m = f,
                    Ok(None) => return fail(format!("{}: a buffer is missing", s.name)),
                    Err(e) => return fail(format!("{}: buffers panicked: {e}", s.name)),
                }
            }
        }
        9 => {
            for m in &meshes {
                answers(m).or_else(|e| fail(format!("looking panicked: {e}")))?;
            }
        }
        10 => {
            for (m, s) in meshes.iter_mut().zip(&mut seen) {
                let v: Vec<Vector3> = m.get_vertices().unwrap_or(&[]).iter().map(|v| (v.0 * 2.0, v.1 * -2.0, v.2 * 2.0)).collect();
                m.set_vertices(v);
                s.v.iter_mut().for_each(|v| *v = [v[0] * 2.0, v[1] * -2.0, v[2] * 2.0]);
                s.ev *= 2.0;
            }
        }
        _ => {
            for (m, s) in meshes.iter_mut().zip(&mut seen) {
                if s.u.is_none() {
                    continue;
                }
                let u: Vec<Vector2> = m.get_uvs().unwrap_or(&[]).iter().map(|u| (u.1, u.0)).collect();
                let i: Vec<I> = m.get_uv_triangles().unwrap_or(&[]).iter().rev().copied().collect();
                m.set_uvs(u);
                m.set_uv_triangles(i);
                s.u.iter_mut().for_each(|u| {
                    u.reverse();
                    u.iter_mut().for_each(|u| u.reverse());
                });
            }
        }
    }
    Ok(meshes.into_iter().zip(seen).collect())
}
pub fn c30() -> Vec<Family> {
    vec![dfs(
        "sequences",
        "all sequences of 1..=4 (5 thorough) of 13 operations (save and load, in a list or alone, OBJ and back, unify, reorder, clone, append a large or a small triangle, normalize, expand into buffers, look, scale, exchange UVs) on 7 lists of meshes, and three ways of going on after each",
        |ctx| {
            let k = ctx.choose(STARTS);
            let len = 1 + ctx.choose(if ctx.thorough { 5 } else { 4 });
            let ops: Vec<usize> = (0..len).map(|_| ctx.choose(OPS.len())).collect();
            ctx.note(|| format!("start {k}: {:?}", ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>()));
            let mut list = start(k);
            for op in &ops {
                list = apply(ctx, list, *op)?;
            }
            for (m, w) in &mut list {
                let g = look(m, &w.name, w.custom)?;
                same(w, &g)?;
                custom(m, w)?;
                match sut(|| m.verify().is_ok()) {
                    Ok(true) => (),
                    r => return fail(format!("{}: verify gives {r:?}", w.name)),
                }
                let mut f = fresh(m, w);
                match (answers(m), answers(&f)) {
                    (Ok(a), Ok(b)) => {
                        ensure!(a.0 == b.0, "{}: saved differently ({} bytes) from a mesh made with the same contents ({} bytes)", w.name, a.0.len(), b.0.len());
                        ensure!(a.1 == b.1, "{}: verified, exported, expanded, unified or reordered differently from a mesh made with the same contents", w.name);
                        ctx.state(H::new().u(k as u64).bytes(&a.1));
                    }
                    (a, b) => return fail(format!("{}: panicked: {:?} {:?}", w.name, a.err(), b.err())),
                }
                for script in 0..3 {
                    let (mut mc, mut fc);
                    let (m, f) = if script < 2 {
                        (mc, fc) = (m.clone(), f.clone());
                        (&mut mc, &mut fc)
                    } else {
                        (&mut *m, &mut f)
                    };
                    ctx.step();
                    match (goes_on(m, script), goes_on(f, script)) {
                        (Ok(a), Ok(b)) => ensure!(a == b, "{}: going on ({script}) it differs from a mesh made with the same contents", w.name),
                        (a, b) => return fail(format!("{}: going on ({script}) panicked: {:?} {:?}", w.name, a.err(), b.err())),
                    }
                }
            }
            ctx.compared();
            Ok(())
        },
    )]
}
