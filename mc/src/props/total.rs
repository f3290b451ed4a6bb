//! C29: every operation on every mesh returns, and what is saved can be loaded.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use tmf::*;

type F = FloatType;
const S: [F; 14] = [
    0.0,
    1.0,
    -1.0,
    F::NAN,
    F::INFINITY,
    F::NEG_INFINITY,
    F::MAX,
    F::MIN,
    F::MIN_POSITIVE,
    -F::MIN_POSITIVE / 4.0,
    -0.0,
    0.37,
    1e19,
    -1e-19,
];
/// Settings as the numbers they are made from.
#[derive(Clone, Copy, Debug)]
struct Set {
    v: F,
    n: F,
    u: (f32, f32),
    t: F,
    rad: bool,
}
const USUAL: Set = Set { v: 0.1, n: 1.0, u: (1024.0, 0.1), t: 1.0, rad: false };
const SETS: [Set; 3] = [
    USUAL,
    Set { v: 1e-12, n: 1e-9, u: (65536.0, 1e-9), t: 1e-9, rad: true },
    Set { v: 1e9, n: 400.0, u: (1.0, 50.0), t: 400.0, rad: false },
];
impl Set {
    fn make(&self) -> TMFPrecisionInfo {
        TMFPrecisionInfo {
            vertex_precision: VertexPrecisionMode(self.v),
            normal_precision: if self.rad { NormalPrecisionMode::from_rad_dev(self.n) } else { NormalPrecisionMode::from_deg_dev(self.n) },
            uv_prec: UvPrecisionMode::form_texture_resolution(self.u.0, self.u.1),
            tangent_prec: if self.rad { TangentPrecisionMode::from_rad_dev(self.t) } else { TangentPrecisionMode::from_deg_dev(self.t) },
        }
    }
}
fn counts(m: &TMFMesh) -> [Option<usize>; 4] {
    [m.get_vertices().map(<[_]>::len), m.get_normals().map(<[_]>::len), m.get_uvs().map(<[_]>::len), m.get_tangents().map(<[_]>::len)]
}
fn indices(m: &TMFMesh) -> [Option<&[IndexType]>; 4] {
    [m.get_vertex_triangles(), m.get_normal_triangles(), m.get_uv_triangles(), m.get_tangent_triangles()]
}
fn custom_kind(c: Option<&CustomData>) -> String {
    match c {
        None => "none".into(),
        Some(CustomData::CustomIndex(a, _)) => format!("index {a:?}"),
        Some(CustomData::CustomIntiger(a, _)) => format!("integer {a:?}"),
        Some(CustomData::CustomFloat(a, _)) => format!("float {}", a.len()),
        Some(CustomData::CustomColorRGBA(a, _)) => format!("rgba {}", a.len()),
    }
}
/// Settings, operations, files: all of them return.
fn use_it(ctx: &mut Ctx, what: &dyn Fn() -> String, set: &Set, build: &dyn Fn() -> TMFMesh, name: Option<&str>) -> R {
    ctx.note(what);
    let p = match sut(|| set.make()) {
        Ok(p) => p,
        Err(e) => return fail(format!("making the settings panicked: {e}")),
    };
    let m = build();
    let mut call = |n: &str, f: &mut dyn FnMut()| {
        ctx.steps += 1;
        sut(f).or_else(|e| fail(format!("{n} panicked: {e}")))
    };
    call("get_vertex_buffer", &mut || drop(m.get_vertex_buffer()))?;
    call("get_normal_buffer", &mut || drop(m.get_normal_buffer()))?;
    call("get_uv_buffer", &mut || drop(m.get_uv_buffer()))?;
    call("verify", &mut || drop(format!("{:?}", m.verify())))?;
    call("clone", &mut || drop(m.clone()))?;
    call("write_obj", &mut || drop(m.write_obj_one(&mut vec![], "m")))?;
    let mut c = m.clone();
    call("normalize", &mut || c.normalize())?;
    let mut c = m.clone();
    call("unify_index_data", &mut || c.unify_index_data())?;
    call("reorder_data after unify_index_data", &mut || c.reorder_data())?;
    let mut c = m.clone();
    call("reorder_data", &mut || c.reorder_data())?;
    let mut b = vec![];
    let mut saved = Ok(());
    call("saving", &mut || saved = m.write_tmf_one(&mut b, &p, "m").map_err(|e| e.to_string()))?;
    if saved.is_ok() {
        let (l, n) = match load(&b)?.pop() {
            Some(l) => l,
            None => return fail("saved one mesh, loaded none"),
        };
        ensure!(n == "m", "the name became {n}");
        ensure!(counts(&l) == counts(&m), "saved {:?} elements, loaded {:?}", counts(&m), counts(&l));
        ensure!(indices(&l) == indices(&m), "saved indices {:?}, loaded {:?}", indices(&m), indices(&l));
        if let Some(name) = name {
            let (w, h) = (custom_kind(m.lookup_custom_data(name)), custom_kind(l.lookup_custom_data(name)));
            ensure!(w == h, "saved custom data {w}, loaded {h}");
        }
        for (x, y) in l.get_uvs().unwrap_or(&[]) {
            ensure!((0.0..=1.0).contains(x) && (0.0..=1.0).contains(y), "UV {x} {y} in a file");
        }
        let unit = |v: &Vector3| ((v.0 as f64).powi(2) + (v.1 as f64).powi(2) + (v.2 as f64).powi(2) - 1.0).abs() < 0.05;
        for v in l.get_normals().unwrap_or(&[]) {
            ensure!(unit(v), "normal {v:?} in a file");
        }
        for (v, s) in l.get_tangents().unwrap_or(&[]) {
            ensure!(unit(v) && (*s == 1.0 || *s == -1.0), "tangent {v:?} {s} in a file");
        }
        ctx.compared();
    }
    ctx.compared();
    Ok(())
}
pub fn c29() -> Vec<Family> {
    vec![
        dfs("floats", "every array of floats with two entries of 3 (2, 4) of 14 special values (zeros, NaN, infinities, largest, smallest, beyond the range) next to a usual one, 3 settings", |ctx| {
            let part = ctx.choose(7);
            let set = SETS[ctx.choose(3)];
            let n = [3, 3, 2, 4, 2, 4, 1][part];
            let a: Vec<F> = (0..n).map(|_| S[ctx.choose(if ctx.thorough || n < 4 { S.len() } else { 12 })]).collect();
            let other = ctx.choose(4);
            let k = |i: usize| match other {
                0 => [0.25, 0.5, 0.75, 0.5][i],
                1 => [1.0, 0.0, 0.0, 1.0][i],
                2 => a[n - 1 - i.min(n - 1)],
                _ => [F::MAX, F::MIN, F::NAN, -0.5][i],
            };
            let (x, y) = ((a[0], a.get(1).copied().unwrap_or(0.0), a.get(2).copied().unwrap_or(0.0)), (k(0), k(1), k(2)));
            let at = ctx.choose(3);
            let order = |m: Vec<(F, F, F)>| if at == 1 { m.into_iter().rev().collect::<Vec<_>>() } else { m };
            ctx.state(a.iter().fold(H::new().u(part as u64).u(other as u64).u(at as u64).s(&format!("{set:?}")), |h, x| h.s(&format!("{x:e}"))));
            let two = order(vec![x, y]);
            let w = |i: usize| if i == 0 { a.get(3).copied().unwrap_or(1.0) } else { k(3) };
            let i: &[IndexType] = &[0, 1, 0];
            let build = || {
                let mut m = TMFMesh::empty();
                match part {
                    0 => {
                        let mut v = two.clone();
                        v.push((0.0, 1.0, 2.0));
                        m.set_vertices(v);
                        if at > 0 {
                            m.set_vertex_triangles(&[0, 1, 2, 2, 0, 1][..]);
                        }
                    }
                    1 => drop((m.set_normals(&two[..]), m.set_normal_triangles(i))),
                    2 => drop((m.set_uvs(two.iter().map(|v| (v.0, v.1)).collect::<Vec<_>>()), m.set_uv_triangles(i))),
                    3 => drop(m.set_tangents(two.iter().enumerate().map(|(i, v)| (*v, w(i))).collect::<Vec<_>>())),
                    4 => m.add_custom_data(CustomData::CustomFloat(vec![a[0], 0.5, k(0)].into(), a[1]), "c").expect("valid name"),
                    5 => {
                        let l: Vec<_> = two.iter().enumerate().map(|(i, v)| (v.0, v.1, v.2, w(i))).collect();
                        m.add_custom_data(CustomData::CustomColorRGBA(l.into(), [0.01, 1.0, F::NAN][at]), "c").expect("valid name")
                    }
                    _ => {
                        let l = vec![(0.5, 0.25, 1.0, k(3))];
                        m.add_custom_data(CustomData::CustomColorRGBA(l.into(), a[0]), "c").expect("valid name")
                    }
                }
                m
            };
            use_it(ctx, &|| format!("part {part}, {a:?}, other {other} at {at}, {set:?}"), &set, &build, Some("c"))
        }),
        dfs("settings", "every pair of settings made from 20 values each (zero, negative, NaN, infinite, tiny, huge), in degrees and radians, for meshes of every kind", |ctx| {
            let s = [0.0, -0.0, F::NAN, F::INFINITY, F::NEG_INFINITY, -1.0, F::MIN_POSITIVE, F::MAX, 1e-30, 1e-20, 1e-15, 1e-9, 1e-4, 0.02, 1.0, 44.0, 91.0, 1e5, 1e20, F::MIN];
            let mut set = USUAL;
            let (f, g) = (ctx.choose(5), ctx.choose(5));
            let (x, y) = (ctx.pick(&s), ctx.pick(&s));
            set.rad = ctx.flag();
            let l = snaps();
            let i = ctx.choose(l.len());
            if g < f {
                return Ok(());
            }
            for (f, x) in [(f, x), (g, y)] {
                match f {
                    0 => set.v = x,
                    1 => set.n = x,
                    2 => set.u.0 = x as f32,
                    3 => set.u.1 = x as f32,
                    _ => set.t = x,
                }
            }
            ctx.state(H::new().s(&format!("{i} {set:?}")));
            use_it(ctx, &|| format!("{}, {set:?}", l[i].0), &set, &|| l[i].1.build(), None)
        }),
        dfs("declared", "custom index and integer arrays of up to 3 entries of 7 values with every declared maximum of 9, right or wrong, names of 1 and 255 bytes, a second part behind", |ctx| {
            let vals = [0, 1, 2, 255, 256, 0x8000_0000u32, u32::MAX].map(t);
            let n = ctx.choose(4);
            let a: Vec<IndexType> = (0..n).map(|_| vals[ctx.choose(7)] as IndexType).collect();
            let max = a.iter().copied().max().unwrap_or(0) as usize;
            let decl = [max, 0, 1, 254, 255, 65536, u32::MAX as usize, 1 << 40, usize::MAX][ctx.choose(9)];
            let (int, long) = (ctx.flag(), ctx.flag());
            let name = if long { "é".repeat(127) + "x" } else { "n".to_string() };
            ctx.state(a.iter().fold(H::new().u(decl as u64).u(int as u64 * 2 + long as u64), |h, x| h.u(*x as u64 + 7)));
            let data = |a: &[IndexType]| if int { CustomData::CustomIntiger(a.into(), decl) } else { CustomData::CustomIndex(a.into(), decl) };
            let build = || {
                let mut m = TMFMesh::empty();
                m.set_vertices(&[(0.0, 1.0, 2.0), (1.0, 0.0, 0.5)][..]);
                m.add_custom_data(data(&a), &name).expect("valid name");
                m.add_custom_data(CustomData::from(&[3, 4][..]), "behind").expect("valid name");
                m
            };
            // what a declared maximum that is too small loses is the caller's
            let same = decl >= max;
            if same {
                use_it(ctx, &|| format!("{a:?} declared {decl} integer {int} name of {} bytes", name.len()), &USUAL, &build, Some(&name))?;
            } else {
                ctx.note(|| format!("{a:?} declared {decl} integer {int} name of {} bytes", name.len()));
            }
            let mut b = vec![];
            let m = build();
            match sut(|| m.write_tmf_one(&mut b, &TMFPrecisionInfo::default(), "m")) {
                Err(e) => return fail(format!("saving panicked: {e}")),
                Ok(Err(_)) => return Ok(()),
                Ok(Ok(())) => (),
            }
            let l = load(&b)?.pop().expect("a mesh").0;
            let len = |c: Option<&CustomData>| c.and_then(|c| c.as_index().or(c.as_intiger())).map(|c| c.0.len());
            ensure!(len(l.lookup_custom_data(&name)) == Some(a.len()), "{:?} entries, saved {}", len(l.lookup_custom_data(&name)), a.len());
            ensure!(custom_kind(l.lookup_custom_data("behind")) == "index [3, 4]", "the part behind it became {}", custom_kind(l.lookup_custom_data("behind")));
            ctx.compared();
            Ok(())
        }),
        dfs("structure", "all meshes of up to 2 elements per array and index arrays of up to 4 entries, within and beyond the arrays, of equal and different lengths", |ctx| {
            let arr = |ctx: &mut Ctx| match ctx.choose(4) {
                0 => None,
                n => Some(n - 1),
            };
            let counts = [arr(ctx), arr(ctx), arr(ctx)];
            let far = t(u32::MAX);
            let mut index = |ctx: &mut Ctx, full: bool| -> Option<Vec<u32>> {
                let l: &[&[u32]] = &[&[], &[0], &[1, 0], &[0, 1, 0], &[5, 0, 1], &[far, far, far], &[0, 1, 1, 0], &[1, 0, far, 0, 1, 2]];
                let n = ctx.choose(if full { 9 } else { 5 });
                (n > 0).then(|| l[if full { n - 1 } else { [3, 4, 0, 6][n - 1] }].to_vec())
            };
            let i = [index(ctx, true), index(ctx, true), index(ctx, true), index(ctx, false)];
            let tangents = ctx.choose(3);
            let s = Snap {
                v: counts[0].map(|n| vec![(1.0, 2.0, 3.0), (4.0, -2.0, 0.5)][..n].to_vec()),
                n: counts[1].map(|n| vec![(0.0, 1.0, 0.0), (0.0, 0.0, -1.0)][..n].to_vec()),
                u: counts[2].map(|n| vec![(0.0, 1.0), (0.5, 0.0)][..n].to_vec()),
                t: (tangents > 0).then(|| vec![((0.0, 1.0, 0.0), 1.0)][..tangents - 1].to_vec()),
                vt: i[0].clone(),
                nt: i[1].clone(),
                ut: i[2].clone(),
                tt: i[3].clone(),
                ..Default::default()
            };
            ctx.state(s.hash());
            use_it(ctx, &|| s.short(), &USUAL, &|| s.build(), None)
        }),
    ]
}
