//! C06 what is put in a file comes out, C07 arbitrary bytes, C08 truncation and exact consumption.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
use std::sync::OnceLock;
use futures::executor::block_on;
use tmf::*;

const LOOKUPS: [&str; 12] = ["idx", "flt", "col", "int", "x", "y", "a", "ż", "f", "c", "e", "absent"];
fn see(m: &TMFMesh) -> Snap {
    Snap::of(m, &LOOKUPS)
}
type Loaded = Result<Vec<(TMFMesh, String)>, TMFImportError>;
fn text_of(r: &Loaded) -> String {
    match r {
        Ok(l) => format!("{} meshes {:?}", l.len(), l.iter().map(|(m, n)| (n, see(m).hash().0)).collect::<Vec<_>>()),
        Err(e) => format!("error {e:?}"),
    }
}
/// Loads with every reader the crate has and checks that they agree.
fn load_all_ways(ctx: &mut Ctx, b: &[u8]) -> R<Loaded> {
    let sync = load_r(b)?;
    ctx.step();
    let want = text_of(&sync);
    match sut(|| block_on(TMFMesh::read_tmf_async(&mut &b[..]))) {
        Ok(r) => ensure!(text_of(&r) == want, "read_tmf gives {want}, read_tmf_async {}", text_of(&r)),
        Err(p) => return fail(format!("read_tmf_async panicked: {p}")),
    }
    ctx.step();
    let one_want = match &sync {
        Ok(l) if l.is_empty() => format!("error {:?}", TMFImportError::NoMeshes),
        Ok(l) if l.len() > 1 => format!("error {:?}", TMFImportError::TooManyMeshes),
        _ => want,
    };
    for a in [false, true] {
        let r = match sut(|| if a { block_on(TMFMesh::read_tmf_one_async(&mut &b[..])) } else { TMFMesh::read_tmf_one(&mut &b[..]) }) {
            Ok(r) => text_of(&r.map(|x| vec![x])),
            Err(p) => return fail(format!("the single-mesh reader (async {a}) panicked: {p}")),
        };
        ensure!(r == one_want, "the single-mesh reader (async {a}) gives {r} instead of {one_want}");
        ctx.step();
    }
    Ok(sync)
}
/// Groups of meshes which differ from the first in one thing.
fn relatives() -> &'static Vec<Vec<(String, Snap)>> {
    static S: std::sync::OnceLock<Vec<Vec<(String, Snap)>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        ["triangles", "everything", "split", "points"]
            .iter()
            .map(|w| {
                let s = &snaps().iter().find(|s| s.0 == *w).expect("a mesh of that name").1;
                let mut o = vec![(w.to_string(), s.clone())];
                // entry `at`, or all but the first, changed by `f`
                fn some<T: Clone>(a: &Option<Vec<T>>, f: impl Fn(&mut T)) -> Vec<(&'static str, Option<Vec<T>>)> {
                    let Some(a) = a else { return vec![] };
                    let edit = |g: &dyn Fn(usize) -> bool| {
                        let mut a = a.clone();
                        a.iter_mut().enumerate().filter(|x| g(x.0)).for_each(|x| f(x.1));
                        Some(a)
                    };
                    let n = a.len();
                    vec![("absent", None), ("without the last", Some(a[..n - 1].to_vec())), ("first changed", edit(&|i| i == 0)), ("last changed", edit(&|i| i + 1 == n)), ("all but the first changed", edit(&|i| i > 0)), ("all but the ends changed", edit(&|i| i > 0 && i + 1 < n))]
                }
                for k in [0.125, 16.0] {
                    o.extend(some(&s.v, |v| *v = (v.0 * k, v.1 * k, v.2 * k)).into_iter().map(|(w, v)| (format!("vertices {w} by {k}"), Snap { v, ..s.clone() })));
                }
                o.extend(some(&s.n, |v| *v = (v.1, v.2, -v.0)).into_iter().map(|(w, n)| (format!("normals {w}"), Snap { n, ..s.clone() })));
                o.extend(some(&s.u, |v| *v = (1.0 - v.1, v.0 * 0.5)).into_iter().map(|(w, u)| (format!("UVs {w}"), Snap { u, ..s.clone() })));
                o.extend(some(&s.t, |v| v.1 = -v.1).into_iter().map(|(w, t)| (format!("tangents {w}"), Snap { t, ..s.clone() })));
                let other = |i: &mut u32| *i = (*i + 1) % 3;
                o.extend(some(&s.vt, other).into_iter().map(|(w, vt)| (format!("vertex indices {w}"), Snap { vt, ..s.clone() })));
                o.extend(some(&s.nt, other).into_iter().map(|(w, nt)| (format!("normal indices {w}"), Snap { nt, ..s.clone() })));
                o.extend(some(&s.ut, other).into_iter().map(|(w, ut)| (format!("UV indices {w}"), Snap { ut, ..s.clone() })));
                o.extend(some(&s.tt, other).into_iter().map(|(w, tt)| (format!("tangent indices {w}"), Snap { tt, ..s.clone() })));
                for i in 0..s.c.len() {
                    let mut c = s.c.clone();
                    match &mut c[i].1 {
                        Cd::Index(a, _) | Cd::Int(a, _) => a[0] = 1,
                        Cd::Float(a, _) => a[0] = 1.5,
                        Cd::Rgba(a, _) => a[0].0 = 0.75,
                    }
                    o.push((format!("custom array {i} changed"), Snap { c, ..s.clone() }));
                    let mut c = s.c.clone();
                    match &mut c[i].1 {
                        Cd::Index(_, m) | Cd::Int(_, m) => *m += 60,
                        Cd::Float(_, p) | Cd::Rgba(_, p) => *p *= 0.125,
                    }
                    o.push((format!("custom array {i} of another precision"), Snap { c, ..s.clone() }));
                    let mut c = s.c.clone();
                    c[i].0.push('x');
                    o.push((format!("custom array {i} of another name"), Snap { c, ..s.clone() }));
                    let mut c = s.c.clone();
                    c.remove(i);
                    o.push((format!("custom array {i} absent"), Snap { c, ..s.clone() }));
                }
                o
            })
            .collect()
    })
}
// ---- C06 --------------------------------------------------------------------------------------------
fn check_list(ctx: &mut Ctx, l: &[(&Snap, &str)], p: &Prec) -> R {
    let mut h = H::new();
    for (s, n) in l {
        h = h.u(s.hash().0).s(n);
    }
    ctx.state(h);
    let list: Vec<(TMFMesh, String)> = l.iter().map(|(s, n)| (s.build(), n.to_string())).collect();
    let b = save(&list, &p.make())?;
    ctx.step();
    for ((m, _), (s, _)) in list.iter().zip(l) {
        ensure!(Snap::of(m, &s.names()).hash().0 == { let mut t = (*s).clone(); t.c = Snap::of(&t.build(), &t.names()).c; t.hash().0 }, "saving changed a mesh");
    }
    let got = match load_all_ways(ctx, &b)? {
        Ok(g) => g,
        Err(e) => return fail(format!("the written file is refused: {e:?}")),
    };
    ensure!(got.len() == l.len(), "{} meshes saved, {} loaded", l.len(), got.len());
    for (i, ((m, n), (s, name))) in got.iter().zip(l).enumerate() {
        ensure!(n == name, "mesh {i}: name {:?} became {:?}", name, n);
        let mut one = vec![];
        match sut(|| s.build().write_tmf_one(&mut one, &p.make(), *name)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return fail(format!("mesh {i} alone cannot be saved: {e}")),
            Err(p) => return fail(format!("saving mesh {i} alone panicked: {p}")),
        }
        ctx.step();
        if l.len() == 1 {
            ensure!(one == b, "write_tmf_one and write_tmf of one mesh give different files");
        }
        let own = load(&one)?;
        ensure!(own.len() == 1, "write_tmf_one wrote {} meshes", own.len());
        let names = s.names();
        let (a, o) = (Snap::of(m, &names), Snap::of(&own[0].0, &names));
        ensure!(a.hash().0 == o.hash().0, "mesh {i}: in this file {}, in a file of its own {}", a.short(), o.short());
        same_shape(s, &a).map_err(|e| Fail { msg: format!("mesh {i}: {e}"), key: None, engine: false })?;
    }
    ctx.compared();
    Ok(())
}
/// Presence and lengths of all parts, and everything that is stored exactly.
fn same_shape(s: &Snap, a: &Snap) -> Result<(), String> {
    let l = |x: Option<usize>| x;
    let p = |s: &Snap| {
        [
            l(s.v.as_ref().map(|x| x.len())),
            l(s.n.as_ref().map(|x| x.len())),
            l(s.u.as_ref().map(|x| x.len())),
            l(s.t.as_ref().map(|x| x.len())),
        ]
    };
    if p(s) != p(a) {
        return Err(format!("lengths of vertices, normals, uvs, tangents {:?} became {:?}", p(s), p(a)));
    }
    for (w, x, y) in [("vertex", &s.vt, &a.vt), ("normal", &s.nt, &a.nt), ("uv", &s.ut, &a.ut), ("tangent", &s.tt, &a.tt)] {
        if x != y {
            return Err(format!("{w} index array {x:?} became {y:?}").chars().take(300).collect());
        }
    }
    let firsts: Vec<&(String, Cd)> = s.c.iter().enumerate().filter(|(i, c)| !s.c[..*i].iter().any(|d| d.0 == c.0)).map(|x| x.1).collect();
    if firsts.len() != a.c.len() {
        return Err(format!("{} custom arrays became {}", firsts.len(), a.c.len()));
    }
    for (x, y) in firsts.iter().zip(&a.c) {
        if x.0 != y.0 || x.1.kind() != y.1.kind() || x.1.len() != y.1.len() {
            return Err(format!("custom array {x:?} became {y:?}"));
        }
    }
    Ok(())
}
const NAMES: [&str; 9] = ["", "mesh", "zażółć gęślą jaźń", "a/b\\c", "line\nbreak", "\0", "😀", "mesh ", "TMF"];
fn presence(ctx: &mut Ctx, options: usize) -> Snap {
    let f = full_snap();
    let mut s = Snap::default();
    macro_rules! part {
        ($f:ident) => {
            match ctx.choose(options) {
                0 => (),
                1 => s.$f = f.$f.clone(),
                _ => s.$f = Some(vec![]),
            }
        };
    }
    part!(v);
    part!(n);
    part!(u);
    part!(t);
    part!(vt);
    part!(nt);
    part!(ut);
    part!(tt);
    match ctx.choose(3) {
        0 => (),
        1 => s.c = f.c.clone(),
        _ => s.c = vec![("e".into(), Cd::Int(vec![], 0)), ("f".into(), Cd::Float(vec![], 0.1)), ("idx".into(), Cd::Index(vec![], 0)), ("col".into(), Cd::Rgba(vec![], 0.1))],
    }
    s
}
pub fn c06() -> Vec<Family> {
    vec![
        dfs("presence", "one mesh: every combination of absent, present and empty parts (3^9)", |ctx| {
            let s = presence(ctx, 3);
            ctx.note(|| s.short());
            check_list(ctx, &[(&s, "m")], &DEF)
        }),
        dfs("sharing", "every equality pattern of the four index arrays over a pool of 4 arrays (one empty, one long enough to be cut) and absence, with and without data", |ctx| {
            let long: Vec<u32> = (0..130).map(|i| if i < 120 { i % 3 } else { t(70_000) - i }).collect();
            let pool: [Vec<u32>; 4] = [vec![0, 1, 2], vec![2, 1, 0, 0, 1, 2], vec![], long];
            let mut q = [None, None, None, None];
            for x in &mut q {
                *x = match ctx.choose(5) {
                    0 => None,
                    k => Some(pool[k - 1].clone()),
                };
            }
            let f = full_snap();
            let mut s = if ctx.flag() { Snap { v: f.v, n: f.n, u: f.u, t: f.t, ..Default::default() } } else { Snap::default() };
            let [a, b, c, d] = q;
            s.vt = a;
            s.nt = b;
            s.ut = c;
            s.tt = d;
            ctx.note(|| s.short());
            check_list(ctx, &[(&s, "m")], &DEF)
        }),
        dfs("lists", "lists of 0..=3 meshes (4 thorough) out of 14, all names for the first, plain, empty or repeated names for the others", |ctx| {
            let n = ctx.choose(if ctx.thorough { 5 } else { 4 });
            let all = snaps();
            let mut l: Vec<(&Snap, &str)> = vec![];
            for i in 0..n {
                let s = if n == 4 { &all[ctx.choose(6)].1 } else { &ctx.pick_ref(all).1 };
                let name = if i == 0 { ctx.pick(&NAMES) } else { ["b", "", l[0].1][i - 1] };
                l.push((s, name));
            }
            ctx.note(|| format!("{:?}", l.iter().map(|x| (x.1, x.0.short())).collect::<Vec<_>>()));
            check_list(ctx, &l, &DEF)
        }),
        dfs("names", "all pairs of names out of 9 and their concatenations, on lists of two meshes", |ctx| {
            let (a, b) = (ctx.pick(&NAMES), ctx.pick(&NAMES));
            let c = format!("{}{}", ctx.pick(&NAMES), b);
            ctx.note(|| format!("{a:?} {c:?}"));
            check_list(ctx, &[(&tri_snap(), a), (&Snap::default(), &c)], &DEF)
        }),
        dfs("settings", "every mesh under settings from coarse to fine: same parts, same as in a file of its own", |ctx| {
            let s = &ctx.pick_ref(snaps()).1;
            let p = Prec { v: ctx.pick(&[0.9f32, 0.1, 0.001]), n_deg: ctx.pick(&[45.0f32, 1.0, 0.01]), u: (1024.0, ctx.pick(&[1024.0f32, 1.0, 0.001])), t_deg: ctx.pick(&[30.0f32, 0.5]) };
            let more = ctx.choose(3);
            ctx.note(|| format!("{p:?} {}", s.short()));
            let o = tri_snap();
            let l: Vec<(&Snap, &str)> = match more {
                0 => vec![(s, "m")],
                1 => vec![(s, "m"), (&o, "n")],
                _ => vec![(&o, "n"), (s, "m")],
            };
            check_list(ctx, &l, &p)
        }),
        dfs("relatives", "lists of two (three thorough) meshes which differ in one thing: one of the parts absent, shorter, with one entry changed or all but the first changed", |ctx| {
            let base = ctx.pick_ref(relatives());
            let n = if ctx.thorough { 3 } else { 2 };
            let l: Vec<(&Snap, &str)> = (0..n).map(|i| (&ctx.pick_ref(base).1, ["a", "b", "a"][i])).collect();
            ctx.note(|| format!("{:?}", l.iter().map(|x| base.iter().find(|b| std::ptr::eq(&b.1, x.0)).unwrap().0.as_str()).collect::<Vec<_>>()));
            check_list(ctx, &l, &DEF)
        }),
        dfs("large", "meshes of segments over 64 KiB, alone and before, between and after small ones", |ctx| {
            let (w, s) = ctx.pick_ref(big_snaps());
            let at = ctx.choose(4);
            ctx.note(|| format!("{w}, place {at}"));
            let (a, b) = (tri_snap(), full_snap());
            let mut l: Vec<(&Snap, &str)> = vec![(&a, "a"), (&b, "b")];
            match at {
                0 => l = vec![(s, "big")],
                k => l.insert(k - 1, (s, "big")),
            }
            check_list(ctx, &l, &DEF)
        }),
        dfs("name_limit", "names around the 65535 byte limit, of 1, 2 and 3 byte characters, alone, first and last in a list", |ctx| {
            let ch = ctx.pick(&['n', 'ż', '漢']);
            let bytes = 65530 + ctx.choose(12);
            let k = bytes / ch.len_utf8();
            let mut name: String = std::iter::repeat(ch).take(k).collect();
            while name.len() < bytes {
                name.push('.');
            }
            let at = ctx.choose(4);
            ctx.note(|| format!("name of {} bytes of {ch:?}, place {at}", name.len()));
            let s = tri_snap();
            let l: Vec<(&Snap, &str)> = match at {
                0 => vec![(&s, &name)],
                1 => vec![(&s, &name), (&s, "b")],
                2 => vec![(&s, "a"), (&s, &name)],
                _ => vec![(&s, "a"), (&s, &name), (&s, "c")],
            };
            if name.len() <= 65535 {
                return check_list(ctx, &l, &DEF);
            }
            ctx.state(H::new().s(&name).u(at as u64));
            let list: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.to_string())).collect();
            ctx.step();
            ensure!(save_r(&list, &DEF.make())?.is_err(), "a mesh name of {} bytes was written", name.len());
            ctx.compared();
            Ok(())
        }),
        dfs("segment_limit", "meshes needing close to 65535 segments, through custom arrays", |ctx| {
            let n = if ctx.thorough { ctx.pick(&[65533usize, 65534, 65535, 65536, 65537, 131072]) } else { ctx.pick(&[65533usize, 65535, 65536]) };
            let with = ctx.choose(2);
            ctx.note(|| format!("{n} custom arrays, further segments {with}"));
            let mut s = if with == 1 { tri_snap() } else { Snap::default() };
            s.c = (0..n).map(|i| (format!("{i:x}"), Cd::Int(vec![], 0))).collect();
            let m = s.build();
            ctx.state(H::new().u(n as u64).u(with as u64));
            let segs = n + 2 * with;
            ctx.step();
            match save_r(&[(m, "m".into())], &DEF.make())? {
                Err(e) => ensure!(segs > 65535, "a mesh of {segs} segments is refused: {e}"),
                Ok(b) => {
                    ensure!(segs <= 65535, "a mesh of {segs} segments was written");
                    let mut g = load(&b)?;
                    ensure!(g.len() == 1, "{} meshes loaded", g.len());
                    let g = g.pop().unwrap().0;
                    for i in [0, 1, n / 2, n - 2, n - 1] {
                        ensure!(g.lookup_custom_data(&format!("{i:x}")).is_some(), "custom array {i} of {n} is gone");
                    }
                    ensure!(see(&g).vt == s.vt, "index array changed");
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("many_meshes", "files of many meshes", |ctx| {
            let n = ctx.pick(&[10usize, 255, 256, 257, 65535, 65536, 70001]);
            let s = if n > 1000 { Snap::default() } else { tri_snap() };
            ctx.note(|| format!("{n} meshes"));
            ctx.state(H::new().u(n as u64));
            let list: Vec<_> = (0..n).map(|i| (s.build(), format!("{i}"))).collect();
            let b = save(&list, &DEF.make())?;
            let g = load(&b)?;
            ctx.step();
            ctx.step();
            ensure!(g.len() == n, "{n} meshes saved, {} loaded", g.len());
            for (i, (m, name)) in g.iter().enumerate() {
                ensure!(*name == format!("{i}"), "mesh {i} is named {name:?}");
                ensure!(see(m).vt == s.vt, "index array of mesh {i} changed");
            }
            ctx.compared();
            Ok(())
        }),
        dfs("readers_agree", "all readers on all valid files, their prefixes and single-byte changes to 6 values: same result or same error", |ctx| {
            let f = ctx.pick_ref(files());
            let pos = ctx.choose(f.1.len() + 1);
            let how = ctx.choose(if pos == f.1.len() { 1 } else { 7 });
            let mut b = f.1.clone();
            match how {
                0 => b.truncate(pos),
                k => b[pos] = [0, 1, 2, 0x7f, 0x80, 0xff][k - 1],
            }
            ctx.note(|| format!("{} position {pos} change {how}", f.0));
            ctx.state(H::new().bytes(&b));
            if bomb(&b) {
                return Ok(());
            }
            load_all_ways(ctx, &b).map(|_| ctx.compared())
        }),
    ]
}
// ---- C07 --------------------------------------------------------------------------------------------
/// True when some segment asks for an enormous array at zero bits per element: a legitimate request for
/// gigabytes, limited by its count only.  The explorations leave these out (and count them as such).
pub fn bomb(b: &[u8]) -> bool {
    const MANY: u64 = 1 << 20;
    fn u(b: &[u8], p: usize, n: usize) -> Option<u64> {
        b.get(p..p.checked_add(n)?).map(|x| x.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn go(b: &[u8]) -> Option<bool> {
        let v01 = u(b, 9, 2)? < 2;
        let meshes = u(b, 11, 4)?;
        let mut p = 15usize;
        for _ in 0..meshes {
            p += 2 + u(b, p, 2)? as usize;
            let segs = u(b, p, 2)?;
            p += 2;
            for _ in 0..segs {
                let (ty, len, h) = if v01 { (u(b, p, 2)?, u(b, p + 2, 8)?, 11) } else { (u(b, p, 1)?, u(b, p + 1, 4)?, 6) };
                p += h;
                let d = b.get(p..p.checked_add(len as usize)?)?;
                let tri = |q: usize| Some(u(d, q, 1)? == 0 && u(d, q + 1, 8)? > MANY);
                let name = || u(d, 0, 1).map(|n| 1 + n as usize);
                let x = match ty as u16 {
                    VERTEX => (|| Some(u(d, 56, 3)? == 0 && u(d, 0, 8)? > MANY))(),
                    UV => tri(0),
                    VTRI | NTRI | UTRI | TTRI => tri(0),
                    SHARED => tri(1),
                    CINDEX | CINT => name().and_then(tri),
                    CFLOAT => name().and_then(|q| Some(u(d, q + 24, 1)? == 0 && u(d, q, 8)? > MANY)),
                    CRGBA => name().and_then(|q| Some(u(d, q + 8, 1)? == 0 && u(d, q, 8)? > MANY)),
                    _ => None,
                };
                if x == Some(true) {
                    return Some(true);
                }
                p += len as usize;
            }
        }
        Some(false)
    }
    go(b).unwrap_or(false)
}
/// Loads arbitrary bytes and uses whatever comes out.
fn feed(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.state(H::new().bytes(b));
    if bomb(b) {
        return Ok(());
    }
    ctx.step();
    let l = match load_r(b) {
        Ok(Ok(l)) => l,
        Ok(Err(_)) => {
            ctx.compared();
            return Ok(());
        }
        Err(f) => return Err(Fail { msg: format!("{}; bytes {:02x?}", f.msg, &b[..b.len().min(300)]), ..f }),
    };
    for (m, n) in &l {
        let r = sut(|| {
            let s = see(m);
            let _ = (m.get_vertex_buffer().map(|x| x.len()), m.get_normal_buffer().map(|x| x.len()), m.get_uv_buffer().map(|x| x.len()));
            let v = m.verify();
            let _ = format!("{v:?}");
            let c = m.clone();
            let mut o = vec![];
            let saved = m.write_tmf_one(&mut o, &DEF.make(), n.as_str());
            let back = saved.map(|_| TMFMesh::read_tmf_one(&mut &o[..]).is_ok()).unwrap_or(true);
            let _ = m.write_obj_one(&mut vec![], n.as_str());
            let mut d = m.clone();
            d.normalize();
            if !back {
                panic!("its own copy, saved without an error, cannot be loaded");
            }
            (s.hash().0, see(&c).hash().0, n.len())
        });
        match r {
            Ok((a, b, _)) => ensure!(a == b, "a clone of a loaded mesh differs from it"),
            Err(p) => return fail(format!("using a mesh loaded from malformed bytes panicked: {p}; bytes {:02x?}", &b[..b.len().min(300)])),
        }
        ctx.step();
    }
    ctx.compared();
    Ok(())
}
const COUNTS: [u64; 14] = [0, 1, 2, 3, 8, 255, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX];
const BITS: [u8; 17] = [0, 1, 2, 7, 8, 9, 24, 31, 32, 33, 52, 53, 63, 64, 65, 128, 255];
const MINS: [u64; 8] = [0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX];
const FL: [f64; 12] = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, 5e-324, 1e38, 3.5e38];
fn wrap(v01: bool, ty: u16, comp: u8, data: Vec<u8>) -> Vec<u8> {
    build(v01, &[FileMesh { name: b"m".to_vec(), segs: vec![Seg { ty, comp, data }] }])
}
/// Positions of a file worth changing in pairs: everything but the packed bits and the names.
fn field_positions(b: &[u8]) -> Vec<usize> {
    let Ok(p) = parse(b) else { return (0..b.len().min(60)).collect() };
    let mut out: Vec<usize> = (3..15).collect();
    let mut q = 15;
    for m in &p.meshes {
        out.extend([q, q + 1]);
        q += 2 + m.name.len();
        out.extend([q, q + 1]);
        q += 2;
        for s in &m.segs {
            let h = if p.v01 { 11 } else { 6 };
            out.extend(q..q + h);
            q += h;
            let fixed = match s.ty {
                VERTEX => 8 + 48 + 3,
                NORMAL | TANGENT | UV => 9,
                SHARED => 18,
                CINDEX | CINT => 1 + s.data[0] as usize + 17,
                CFLOAT => 1 + s.data[0] as usize + 25,
                CRGBA => 1 + s.data[0] as usize + 9,
                _ => 17,
            };
            out.extend(q..q + fixed.min(s.data.len()));
            q += s.data.len();
        }
    }
    out
}
pub fn c07() -> Vec<Family> {
    vec![
        dfs("short", "all byte strings of 0..=2 bytes, and all of 3 bytes over 24 values", |ctx| {
            let n = ctx.choose(4);
            let some: [u8; 24] = [0, 1, 2, 3, b'T', b'M', b'F', b't', 7, 8, 9, 10, 13, 16, 25, 31, 32, 63, 64, 65, 127, 128, 254, 255];
            let b: Vec<u8> = (0..n).map(|_| if n == 3 { ctx.pick(&some) } else { ctx.choose(256) as u8 }).collect();
            ctx.note(|| format!("{b:?}"));
            feed(ctx, &b)
        }),
        dfs("versions", "all headers over 7 values per version field, mesh counts and what follows", |ctx| {
            let mut h = vec![];
            h.extend(b"TMF");
            for _ in 0..4 {
                h.extend(ctx.pick(&[0u16, 1, 2, 3, 255, 256, 65535]).to_le_bytes());
            }
            h.extend(ctx.pick(&[0u32, 1, 2, 65536, u32::MAX]).to_le_bytes());
            h.extend_from_slice(*ctx.pick_ref(&[&[][..], &[0], &[0, 0], &[0; 4], &[0; 8], &[0; 40], &[1, 0, b'm', 1, 0, 1, 0, 0, 0, 0, 0], &[255; 40]]));
            ctx.note(|| format!("{h:02x?}"));
            feed(ctx, &h)
        }),
        dfs("mutations", "every valid file x every position x every byte value (64 values with all features in the quick tier)", |ctx| {
            let f = ctx.pick_ref(files());
            let pos = ctx.choose(f.1.len());
            let v = if !ctx.thorough && cfg!(feature = "full") {
                const V: [u8; 64] = {
                    // every single bit, everything below 32 and the values around the powers of two
                    let mut v = [0; 64];
                    let mut i = 0;
                    while i < 64 {
                        v[i] = if i < 34 { i as u8 } else { [63, 64, 65, 66, 80, 96, 100, 111, 126, 127, 128, 129, 130, 144, 160, 191, 192, 193, 200, 207, 222, 223, 224, 239, 240, 247, 251, 253, 254, 255][i - 34] };
                        i += 1;
                    }
                    v
                };
                ctx.pick(&V)
            } else {
                ctx.choose(256) as u8
            };
            let mut b = f.1.clone();
            b[pos] = v;
            ctx.note(|| format!("{} byte {pos} = {v:#x}", f.0));
            feed(ctx, &b)
        }),
        dfs("field_pairs", "files up to 420 bytes x all pairs of positions of header, length, count, precision and range fields x 3 x 3 byte values (2 x 2 with all features, 7 x 7 thorough)", |ctx| {
            let fs = small_files();
            let f = *ctx.pick_ref(&fs);
            let pos = field_positions(&f.1);
            if pos.len() < 2 {
                return Ok(());
            }
            let i = ctx.choose(pos.len() - 1);
            let j = i + 1 + ctx.choose(pos.len() - 1 - i);
            let vals: &[u8] = if ctx.thorough { &[0, 1, 64, 0x7f, 0x80, 0xfe, 0xff] } else if cfg!(feature = "full") { &[0, 0xff] } else { &[0, 0x7f, 0xff] };
            let mut b = f.1.clone();
            b[pos[i]] = ctx.pick(vals);
            b[pos[j]] = ctx.pick(vals);
            ctx.note(|| format!("{} bytes {} {} = {:#x} {:#x}", f.0, pos[i], pos[j], b[pos[i]], b[pos[j]]));
            feed(ctx, &b)
        }),
        dfs("edits", "every valid file with a run of 1..=4 bytes removed, doubled or replaced by 00 or FF at every position, or joined to the tail of another file", |ctx| {
            let f = ctx.pick_ref(files());
            let pos = ctx.choose(f.1.len());
            let how = ctx.choose(5);
            let mut b = f.1.clone();
            if how == 4 {
                let g = ctx.pick_ref(files());
                let k = ctx.pick(&[15usize, 20, 30, 60]);
                b.truncate(pos);
                b.extend(&g.1[k.min(g.1.len())..]);
            } else {
                let n = (1 + ctx.choose(4)).min(b.len() - pos);
                match how {
                    0 => drop(b.drain(pos..pos + n)),
                    1 => {
                        let x = b[pos..pos + n].to_vec();
                        for (i, v) in x.into_iter().enumerate() {
                            b.insert(pos + n + i, v);
                        }
                    }
                    2 => b[pos..pos + n].fill(0),
                    _ => b[pos..pos + n].fill(255),
                }
            }
            ctx.note(|| format!("{} position {pos} edit {how}", f.0));
            feed(ctx, &b)
        }),
        dfs("index_headers", "index segments of every kind, in both layouts: count x bits x minimum at their limits, with 0..=9 bytes of data", |ctx| {
            let v01 = ctx.flag();
            let ty = ctx.pick(&[VTRI, NTRI, UTRI, TTRI, SHARED, CINDEX, CINT]);
            let comp = ctx.pick(&[0u8, 1, 2, 3, 255]);
            let (c, b) = (ctx.pick(&COUNTS), ctx.pick(&BITS));
            let min = if v01 { 0 } else { ctx.pick(&MINS) };
            let n = ctx.pick(&[0usize, 1, 8, 9, 24]);
            let fill = ctx.pick(&[0xffu8, 0x80]);
            let mut d = vec![b];
            d.extend(c.to_le_bytes());
            if !v01 {
                d.extend(min.to_le_bytes());
            }
            d.extend(vec![fill; n]);
            match ty {
                SHARED => d.insert(0, ctx.pick(&[7u8, 0, 255])),
                CINDEX | CINT => d = pl_name(b"a", d),
                _ => (),
            }
            ctx.note(|| format!("0.1 {v01} type {ty} compression {comp} count {c} bits {b} minimum {min} data {n} x {fill:#x}"));
            feed(ctx, &wrap(v01, ty, comp, d))
        }),
        dfs("direction_headers", "normal, tangent, UV and RGBA segments: count x bits at their limits, with 0..=40 bytes of data", |ctx| {
            let v01 = ctx.flag();
            let ty = ctx.pick(&[NORMAL, TANGENT, UV, CRGBA]);
            let (c, b) = (ctx.pick(&COUNTS), ctx.choose(256) as u8);
            let n = ctx.pick(&[0usize, 1, 2, 8, 9, 17, 24, 40]);
            let fill = ctx.pick(&[0xffu8, 0x80, 0]);
            let mut d = c.to_le_bytes().to_vec();
            if ty == UV {
                d.insert(0, b);
            } else {
                d.push(b);
            }
            d.extend(vec![fill; n]);
            if ty == CRGBA {
                d = pl_name(b"a", d);
            }
            ctx.note(|| format!("0.1 {v01} type {ty} count {c} bits {b} data {n} x {fill:#x}"));
            feed(ctx, &wrap(v01, ty, 0, d))
        }),
        dfs("range_headers", "vertex and custom float segments: count x bits x bounds at their limits (infinities, NaN, inverted)", |ctx| {
            let float = ctx.flag();
            let c = ctx.pick(&COUNTS);
            let fl = if ctx.thorough { &FL[..] } else { &FL[2..10] };
            let (lo, hi) = (ctx.pick(fl), ctx.pick(fl));
            let n = ctx.pick(&[0usize, 1, 25, 50]);
            let fill = if ctx.thorough { ctx.pick(&[0xffu8, 0x80, 0]) } else { ctx.pick(&[0xffu8, 0x80]) };
            let d = if float {
                let b = ctx.pick(&BITS);
                let mut d = c.to_le_bytes().to_vec();
                d.extend(lo.to_le_bytes());
                d.extend(hi.to_le_bytes());
                d.push(b);
                d.extend(vec![fill; n]);
                pl_name(b"a", d)
            } else {
                let b = if ctx.thorough { [ctx.pick(&BITS), ctx.pick(&BITS), ctx.pick(&BITS)] } else { let k = ctx.pick(&BITS); let o = ctx.choose(4); [0, 1, 2].map(|i| if o == 3 || o == i { k } else { 9 }) };
                let mut d = c.to_le_bytes().to_vec();
                let one = ctx.choose(4);
                for i in 0..3 {
                    let (l, h) = if one == 3 || one == i { (lo, hi) } else { (0.0, 1.0) };
                    d.extend(l.to_le_bytes());
                    d.extend(h.to_le_bytes());
                }
                d.extend(b);
                d.extend(vec![fill; n]);
                d
            };
            ctx.note(|| format!("custom float {float} count {c} bounds {lo} {hi} data {d:02x?}"));
            feed(ctx, &wrap(false, if float { CFLOAT } else { VERTEX }, 0, d))
        }),
        dfs("types", "every segment type 0..=255 (and beyond 255 in the 0.1 layout) x compression x data length x fill", |ctx| {
            let v01 = ctx.flag();
            let ty = if v01 { let k = ctx.choose(262); if k < 256 { k as u16 } else { [256, 257, 258, 259, 32768, 65535][k - 256] } } else { ctx.choose(256) as u16 };
            let comp = ctx.pick(&[0u8, 1, 2, 3, 128, 254, 255]);
            let n = ctx.choose(72);
            let fill = ctx.pick(&[0u8, 1, 0xff]);
            ctx.note(|| format!("0.1 {v01} type {ty} compression {comp} data {n} x {fill}"));
            let d = if comp > 2 && n > 8 { vec![fill; 8] } else { vec![fill; n] };
            feed(ctx, &wrap(v01, ty, comp, d))
        }),
        dfs("lengths", "segment, name and count fields that claim more or less than is there", |ctx| {
            let v01 = ctx.flag();
            let ty = ctx.pick(&[VERTEX, VTRI, NORMAL, UV, TANGENT, CFLOAT, SHARED, 99]);
            let claim = ctx.pick(&[0u64, 1, 7, 8, 9, 16, 17, 18, 30, 65535, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX]);
            let n = ctx.pick(&[0usize, 1, 8, 17, 64]);
            let segs = ctx.pick(&[0u16, 1, 2, 65535]);
            let name = ctx.pick(&[0u16, 1, 2, 65535]);
            let meshes = ctx.pick(&[0u32, 1, 2, u32::MAX]);
            let mut b = if v01 { header(0, 1, 0, 1, meshes) } else { header(0, 2, 0, 2, meshes) };
            b.extend(name.to_le_bytes());
            b.push(b'm');
            b.extend(segs.to_le_bytes());
            if v01 {
                b.extend(ty.to_le_bytes());
                b.extend(claim.to_le_bytes());
            } else {
                b.push(ty as u8);
                b.extend((claim as u32).to_le_bytes());
            }
            b.push(0);
            b.extend((0..n).map(|i| if i == 0 { 3 } else { 0 }));
            ctx.note(|| format!("0.1 {v01} type {ty} length {claim} of {n}, segments {segs}, name {name}, meshes {meshes}"));
            feed(ctx, &b)
        }),
        dfs("names", "mesh and custom names: all byte strings of 1..=3 bytes over UTF-8 edge cases", |ctx| {
            let a: [u8; 14] = [0, b'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff];
            let custom = ctx.flag();
            let n = ctx.choose(5);
            let name: Vec<u8> = (0..n).map(|_| ctx.pick(&a)).collect();
            ctx.note(|| format!("custom {custom} {name:02x?}"));
            if custom {
                feed(ctx, &wrap(false, CINT, 0, pl_name(&name, pl_tris(false, 3, 0, &[1]))))
            } else {
                feed(ctx, &build(false, &[FileMesh { name, segs: vec![] }]))
            }
        }),
        dfs("tails", "after a valid header and mesh start: all byte strings of 0..=6 (8 thorough) symbols out of 6", |ctx| {
            let v01 = ctx.flag();
            let n = ctx.choose(if ctx.thorough { 9 } else { 7 });
            let mut b = if v01 { header(0, 1, 0, 1, 1) } else { header(0, 2, 0, 2, 1) };
            b.extend([0, 0, 2, 0]);
            for _ in 0..n {
                b.push(ctx.pick(&[0u8, 1, 2, 25, 15, 255]));
            }
            ctx.note(|| format!("{b:02x?}"));
            feed(ctx, &b)
        }),
    ]
}
// ---- C08 --------------------------------------------------------------------------------------------
fn refuse(ctx: &mut Ctx, b: &[u8], what: &str) -> R {
    ctx.state(H::new().bytes(b));
    ctx.step();
    match load_r(b)? {
        Err(_) => (),
        Ok(l) => return fail(format!("{what} was accepted as {}", text_of(&Ok(l)))),
    }
    ctx.step();
    match sut(|| TMFMesh::read_tmf_one(&mut &b[..])) {
        Ok(Err(_)) => (),
        Ok(Ok(_)) => return fail(format!("{what} was accepted by the single-mesh reader")),
        Err(p) => return fail(format!("read_tmf_one panicked on {what}: {p}")),
    }
    ctx.compared();
    Ok(())
}
/// A larger file written by the crate for lengths beyond one buffer.
fn large_file(k: usize) -> Vec<u8> {
    let n = 700usize;
    let v: Vec<V3> = (0..n).map(|i| ((i % 17) as f32, (i % 23) as f32 * 0.5, (i * 7 % 91) as f32)).collect();
    let t: Vec<u32> = (0..n as u32 * 3).map(|i| (i * 31) % n as u32).collect();
    let s = match k {
        0 => Snap { v: Some(v), vt: Some(t), ..Default::default() },
        1 => Snap { u: Some(v.iter().map(|x| (x.0 / 17.0, x.2 / 91.0)).collect()), ut: Some(t), ..Default::default() },
        _ => Snap { c: vec![("big".into(), Cd::Float(v.iter().map(|x| x.2).collect(), 0.01)), ("i".into(), Cd::Int(t, 699))], ..Default::default() },
    };
    let mut o = vec![];
    let _ = s.build().write_tmf_one(&mut o, &DEF.make(), "large");
    o
}
/// Files whose last segment has data that no decoder needs: unknown types, the type that stands for nothing.
fn unneeded() -> &'static Vec<(String, Vec<u8>)> {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o = vec![];
        for v01 in [true, false] {
            let types: &[u16] = if v01 { &[INVALID, 15, 200, 255, 256, 257, 700, 65535] } else { &[INVALID, 15, 200, 255] };
            for ty in types {
                for comp in [0u8, 1, 255] {
                    for (n, before) in [(1usize, 0), (3, 1), (9, 0), (20, 2)] {
                        let data = vec![if n == 3 { 0 } else { 7 }; n];
                        let mut segs = vec![Seg { ty: VTRI, comp: 0, data: pl_tris(v01, 3, 0, &[1, 2, 3]) }; before.min(1)];
                        segs.extend(vec![Seg { ty: 200, comp: 0, data: vec![] }; before / 2]);
                        segs.push(Seg { ty: *ty, comp, data });
                        let b = build(v01, &[FileMesh { name: b"m".to_vec(), segs }]);
                        // what this version does with such types is another property's business
                        if matches!(load_r(&b), Ok(Ok(_))) {
                            o.push((format!("0.1 {v01}, {before} segments and one of type {ty}, compression {comp}, with {n} bytes"), b));
                        }
                    }
                }
            }
        }
        o
    })
}
pub fn c08() -> Vec<Family> {
    vec![
        dfs("prefixes", "every proper prefix of every valid file (saved by the crate and hand-made, both layouts)", |ctx| {
            let f = ctx.pick_ref(files());
            let n = ctx.choose(f.1.len());
            ctx.note(|| format!("{}: first {n} of {} bytes", f.0, f.1.len()));
            refuse(ctx, &f.1[..n], "a truncated file")
        }),
        dfs("unneeded_data", "every proper prefix of files ending in segments of unknown types and of no type, with data", |ctx| {
            let f = ctx.pick_ref(unneeded());
            let n = ctx.choose(f.1.len());
            ctx.note(|| format!("{}: first {n} of {} bytes", f.0, f.1.len()));
            refuse(ctx, &f.1[..n], "a truncated file")
        }),
        dfs("unneeded_in_stream", "files ending in such segments followed by other files and by other bytes", |ctx| {
            let f = ctx.pick_ref(unneeded());
            let k = ctx.choose(files().len() + 3);
            let tail = if k < files().len() { &files()[k].1[..] } else { [&[][..], &[0; 40], &[255; 9]][k - files().len()] };
            ctx.note(|| format!("{} then {} bytes", f.0, tail.len()));
            let b = [&f.1[..], tail].concat();
            ctx.state(H::new().bytes(&b));
            let mut r = &b[..];
            let got = match sut(|| TMFMesh::read_tmf(&mut r)) {
                Ok(r) => r,
                Err(p) => return fail(format!("panic {p}")),
            };
            ctx.step();
            ensure!(text_of(&got) == text_of(&load_r(&f.1)?), "in a stream the file gives {}", text_of(&got));
            ensure!(r.len() == tail.len(), "reading a file of {} bytes consumed {}", f.1.len(), b.len() - r.len());
            ctx.compared();
            Ok(())
        }),
        dfs("large_prefixes", "every proper prefix of three files of several kilobytes", |ctx| {
            let k = ctx.choose(3);
            let b = large_file(k);
            if b.is_empty() {
                return Ok(());
            }
            let n = ctx.choose(b.len());
            ctx.note(|| format!("large file {k}: first {n} of {} bytes", b.len()));
            refuse(ctx, &b[..n], "a truncated file")
        }),
        dfs("segment_cuts", "every valid file x every segment x its data cut after every byte (lengths made consistent)", |ctx| {
            let f = ctx.pick_ref(files());
            let Ok(mut p) = parse(&f.1) else { return fail(format!("{}: an independent reader cannot parse the file", f.0)) };
            let segs: Vec<(usize, usize)> = p.meshes.iter().enumerate().flat_map(|(i, m)| m.segs.iter().enumerate().filter(|(_, s)| s.ty != INVALID && s.ty != 200).map(move |(j, _)| (i, j))).collect();
            if segs.is_empty() {
                return Ok(());
            }
            let (i, j) = ctx.pick(&segs);
            let s = &mut p.meshes[i].segs[j];
            let n = ctx.choose(s.data.len());
            s.data.truncate(n);
            let ty = s.ty;
            ctx.note(|| format!("{}: mesh {i} segment {j} (type {ty}) cut to {n} bytes", f.0));
            let mut b = f.1[..15].to_vec();
            for m in &p.meshes {
                b.extend(mesh_bytes(m, p.v01));
            }
            refuse(ctx, &b, "a file with a shortened segment")
        }),
        dfs("bit_tails", "arrays of every width 1..=64 and length 1..=9 of every packed kind, last byte cut", |ctx| {
            let v01 = ctx.flag();
            let bits = 1 + ctx.choose(64) as u8;
            let n = 1 + ctx.choose(9);
            let kind = ctx.choose(9);
            if bits > 32 && kind != 0 && kind != 1 && kind != 6 {
                return Ok(());
            }
            let top = u64::MAX >> (64 - bits);
            let one = |i: usize| if i % 2 == 0 { if matches!(kind, 0 | 1 | 6) { top.min(TOP as u64) } else { top } } else { 1 };
            let c: Vec<u64> = (0..n).map(one).collect();
            let (ty, d) = match kind {
                0 => (VTRI, pl_tris(v01, bits, 0, &c)),
                1 => (SHARED, pl_shared(v01, 7, bits, 0, &c)),
                2 => (NORMAL, pl_normals(bits, &c.iter().map(|x| (*x, *x, 5)).collect::<Vec<_>>())),
                3 => (TANGENT, pl_tangents(bits, &c.iter().map(|x| (*x, *x, 13)).collect::<Vec<_>>())),
                4 => (UV, pl_uvs(bits, &c.iter().map(|x| (*x, *x)).collect::<Vec<_>>())),
                5 => (VERTEX, pl_vertices([0.0; 3], [1.0; 3], [bits, 1, bits], &c.iter().map(|x| [*x, 1, *x]).collect::<Vec<_>>())),
                6 => (CINT, pl_name(b"n", pl_tris(v01, bits, 0, &c))),
                7 => (CFLOAT, pl_name(b"n", pl_cfloat(0.0, 1.0, bits, &c))),
                _ => (CRGBA, pl_name(b"n", pl_crgba(bits, &c.iter().map(|x| [*x; 4]).collect::<Vec<_>>()))),
            };
            ctx.note(|| format!("0.1 {v01} kind {kind} {n} x {bits} bits"));
            let whole = wrap(v01, ty, 0, d.clone());
            ctx.step();
            if let Err(e) = load_r(&whole)? {
                return fail(format!("the complete file is refused: {e:?}"));
            }
            refuse(ctx, &wrap(v01, ty, 0, d[..d.len() - 1].to_vec()), "a file lacking the last byte of an array")
        }),
        dfs("streams", "all sequences of 1..=3 valid files in one stream (2 in quick runs for all, 3 for a third of them), followed by 6 kinds of trailing bytes", |ctx| {
            let fs = files();
            let n = 1 + ctx.choose(3);
            let mut l = vec![];
            for _ in 0..n {
                let k = if n == 3 && !ctx.thorough { ctx.choose((fs.len() + 2) / 3) * 3 } else { ctx.choose(fs.len()) };
                l.push(&fs[k.min(fs.len() - 1)]);
            }
            let tail: &[u8] = *ctx.pick_ref(&[&[][..], &[0], b"TMF", &[255; 9], &[0; 64], &[1, 2, 3]]);
            ctx.note(|| format!("{:?} then {tail:?}", l.iter().map(|f| &f.0).collect::<Vec<_>>()));
            let mut b: Vec<u8> = l.iter().flat_map(|f| f.1.iter().copied()).collect();
            b.extend(tail);
            ctx.state(H::new().bytes(&b));
            let mut r = &b[..];
            let mut left = b.len();
            for (i, f) in l.iter().enumerate() {
                let got = match sut(|| TMFMesh::read_tmf(&mut r)) {
                    Ok(r) => r,
                    Err(p) => return fail(format!("file {i}: panic {p}")),
                };
                ctx.step();
                let own = load_r(&f.1)?;
                ensure!(own.is_ok(), "{} alone is refused: {}", f.0, text_of(&own));
                ensure!(text_of(&got) == text_of(&own), "file {i} of the stream gives {}, alone {}", text_of(&got), text_of(&own));
                ensure!(left - r.len() == f.1.len(), "reading file {i} of {} bytes consumed {}", f.1.len(), left - r.len());
                left = r.len();
            }
            ensure!(r == tail, "trailing bytes were consumed");
            ctx.compared();
            Ok(())
        }),
        dfs("vast_streams", "files whose segments take more than 128 KiB and small ones, two or three in one stream, from sources that deliver all or blocks: every file gives what it gives alone, and exactly its bytes are taken", |ctx| {
            let fs: Vec<_> = super::io::vast_sources().iter().filter(|s| !s.obj).collect();
            let small = files();
            let n = 2 + ctx.choose(2);
            let mut l: Vec<(&str, &[u8], usize)> = vec![];
            for _ in 0..n {
                let k = ctx.choose(fs.len() + 2);
                l.push(match fs.get(k) {
                    Some(f) => (&f.name, &f.bytes, k),
                    None => (&small[(k - fs.len()) * (small.len() - 1)].0, &small[(k - fs.len()) * (small.len() - 1)].1, k),
                });
            }
            if l.iter().all(|x| x.2 >= fs.len()) {
                return Ok(());
            }
            let tail: &[u8] = ctx.pick(&[&[][..], &[0; 70_000]]);
            let reader = ctx.choose(4);
            let chunk = ctx.pick(&[usize::MAX, 65_536, 8192, 4097]);
            ctx.note(|| format!("{:?} then {} bytes, reader {reader}, chunks of {chunk}", l.iter().map(|f| f.0).collect::<Vec<_>>(), tail.len()));
            ctx.state(l.iter().fold(H::new(), |h, x| h.u(x.2 as u64)).u(tail.len() as u64 * 4 + reader as u64).u(chunk as u64));
            let mut b: Vec<u8> = l.iter().flat_map(|f| f.1.iter().copied()).collect();
            b.extend(tail);
            let mut src = ScriptRead::new(&b, move |_, a| Ans::Some(a.min(chunk)));
            let mut end = 0;
            for f in &l {
                let got = super::io::raw_load(reader, &mut src);
                ctx.step();
                let alone = match fs.get(f.2) {
                    Some(s) => s.want[reader].clone(),
                    None => super::io::raw_load(reader, &mut ScriptRead::new(f.1, |_, a| Ans::Some(a))),
                };
                ensure!(got == alone, "{} in the stream gives {got:?}, alone {alone:?}", f.0);
                end += f.1.len();
                ensure!(src.pos == end, "after {} the source is {} bytes in, the files so far have {end}", f.0, src.pos);
            }
            ctx.compared();
            Ok(())
        }),
        dfs("vast_cuts", "files whose segments take more than 128 KiB, cut at every length around the sizes blocks and buffers have, from both ends", |ctx| {
            let fs: Vec<_> = super::io::vast_sources().iter().filter(|s| !s.obj).collect();
            let f = fs[ctx.choose(fs.len())];
            let b = super::io::blocks(ctx.thorough);
            let d = b[ctx.choose(b.len())];
            let n = if d >= f.bytes.len() {
                f.bytes.len() - 1 - d % 1000
            } else if ctx.flag() {
                d
            } else {
                f.bytes.len() - d
            };
            ctx.note(|| format!("{}: the first {n} of {} bytes", f.name, f.bytes.len()));
            ctx.state(H::new().u(f.bytes.len() as u64).u(n as u64));
            for reader in 0..4 {
                ctx.step();
                match super::io::raw_load(reader, &mut ScriptRead::new(&f.bytes[..n], |_, a| Ans::Some(a))) {
                    Ok(super::io::Got::Meshes(l)) => return fail(format!("a truncated file was accepted by reader {reader} as {} meshes", l.len())),
                    Ok(_) => (),
                    Err(p) => return fail(format!("reader {reader} panicked: {p}")),
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("single_in_stream", "the single-mesh and asynchronous readers consume exactly one file too", |ctx| {
            let fs: Vec<_> = files().iter().collect();
            let f = *ctx.pick_ref(&fs);
            let g = *ctx.pick_ref(&fs);
            let a = ctx.choose(3);
            let mut b = f.1.clone();
            b.extend(&g.1);
            ctx.state(H::new().bytes(&b).u(a as u64));
            ctx.note(|| format!("{} then {}, reader {a}", f.0, g.0));
            let mut r = &b[..];
            let res = match sut(|| match a {
                0 => TMFMesh::read_tmf_one(&mut r).map(|_| ()),
                1 => block_on(TMFMesh::read_tmf_one_async(&mut r)).map(|_| ()),
                _ => block_on(TMFMesh::read_tmf_async(&mut r)).map(|_| ()),
            }) {
                Ok(r) => r,
                Err(p) => return fail(format!("panic {p}")),
            };
            ctx.step();
            if let Err(e) = res {
                ensure!(a < 2 && matches!(e, TMFImportError::NoMeshes | TMFImportError::TooManyMeshes), "a valid file is refused: {e:?}");
            }
            ensure!(r.len() == g.1.len(), "reading a file of {} bytes consumed {}", f.1.len(), b.len() - r.len());
            ctx.compared();
            Ok(())
        }),
    ]
}
