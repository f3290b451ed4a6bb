//! C27: builds with different cargo features exchange files.
//!
//! Every build is asked once (`mc dump FILE`) for what it makes of a fixed list of cases; the explorations of
//! each build then take the dumps of all the others apart.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use tmf::*;

pub const BUILDS: [&str; 6] = ["default", "full", "wide", "short", "wfull", "sfull"];
const OWN: usize = match (FULL, cfg!(feature = "wide"), cfg!(feature = "short")) {
    (false, false, false) => 0,
    (true, false, false) => 1,
    (false, true, _) => 2,
    (false, _, true) => 3,
    (true, true, _) => 4,
    (true, _, true) => 5,
};
fn fast_trig(b: usize) -> bool {
    [1, 4, 5].contains(&b)
}
fn double(b: usize) -> bool {
    [2, 4].contains(&b)
}
/// Builds with the same number types.
fn alike(b: usize) -> [usize; 2] {
    [[0, 1], [2, 4], [3, 5]].into_iter().find(|p| p.contains(&b)).unwrap()
}
/// One part of a loaded mesh, in numbers every build has.
#[derive(Clone, Debug, Default, PartialEq)]
struct Part {
    /// 0 vertices, 1 normals, 2 uvs, 3 tangents, 4..=7 index arrays, 8.. custom data
    kind: u64,
    name: String,
    ints: Vec<u64>,
    floats: Vec<f64>,
}
const KINDS: [&str; 13] = ["vertices", "normals", "UVs", "tangents", "vertex indices", "normal indices", "UV indices", "tangent indices", "custom indices", "custom integers", "custom floats", "custom colours", "length"];
const LONG: usize = 1 << 12;
type View = Vec<(String, Vec<Part>)>;
const LOOK: [&str; 16] = ["idx", "flt", "col", "int", "x", "y", "a", "ż", "f", "c", "i", "n", "u", "new", "", "custom"];
#[allow(clippy::unnecessary_cast)]
fn view(l: &[(TMFMesh, String)]) -> View {
    l.iter()
        .map(|(m, n)| {
            let mut p = vec![];
            let mut put = |kind: u64, name: &str, len: usize, ints: Vec<u64>, floats: Vec<f64>| {
                p.push(Part { kind, name: name.into(), ints, floats });
                if len > LONG {
                    p.push(Part { kind: 12, name: KINDS[kind as usize].into(), ints: vec![len as u64], floats: vec![] });
                }
            };
            // damaged files may declare enormous arrays: the first and the last entries stand for them
            fn ends<T>(a: &[T]) -> impl Iterator<Item = &T> {
                a[..a.len().min(LONG)].iter().chain(&a[a.len() - a.len().saturating_sub(LONG).min(LONG)..])
            }
            let v3 = |a: &[Vector3]| ends(a).flat_map(|x| [x.0 as f64, x.1 as f64, x.2 as f64]).collect::<Vec<_>>();
            if let Some(a) = m.get_vertices() {
                put(0, "", a.len(), vec![], v3(a));
            }
            if let Some(a) = m.get_normals() {
                put(1, "", a.len(), vec![], v3(a));
            }
            if let Some(a) = m.get_uvs() {
                put(2, "", a.len(), vec![], ends(a).flat_map(|x| [x.0 as f64, x.1 as f64]).collect());
            }
            if let Some(a) = m.get_tangents() {
                let d: Vec<Vector3> = a.iter().map(|x| x.0).collect();
                put(3, "", a.len(), ends(a).map(|x| (x.1 > 0.0) as u64).collect(), v3(&d));
            }
            for (k, a) in [m.get_vertex_triangles(), m.get_normal_triangles(), m.get_uv_triangles(), m.get_tangent_triangles()].into_iter().enumerate() {
                if let Some(a) = a {
                    put(4 + k as u64, "", a.len(), ends(a).map(|x| *x as u64).collect(), vec![]);
                }
            }
            for n in LOOK {
                match m.lookup_custom_data(n) {
                    None => (),
                    Some(CustomData::CustomIndex(a, _)) => put(8, n, a.len(), ends(a).map(|x| *x as u64).collect(), vec![]),
                    Some(CustomData::CustomIntiger(a, _)) => put(9, n, a.len(), ends(a).map(|x| *x as u64).collect(), vec![]),
                    Some(CustomData::CustomFloat(a, _)) => put(10, n, a.len(), vec![], ends(a).map(|x| *x as f64).collect()),
                    Some(CustomData::CustomColorRGBA(a, _)) => put(11, n, a.len(), vec![], ends(a).flat_map(|x| [x.0 as f64, x.1 as f64, x.2 as f64, x.3 as f64]).collect()),
                }
            }
            (n.clone(), p)
        })
        .collect()
}
/// `b` (of build `r`) is `a` (of build `w`) up to the rounding of the coarser one.
fn agree(a: &View, w: usize, b: &View, r: usize) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} meshes became {}", a.len(), b.len()));
    }
    let both_double = double(w) && double(r);
    for ((an, a), (bn, b)) in a.iter().zip(b) {
        if an != bn {
            return Err(format!("name {an:?} became {bn:?}"));
        }
        let what = |p: &[Part]| p.iter().map(|p| format!("{} {:?}", KINDS[p.kind as usize], p.name)).collect::<Vec<_>>();
        if what(a) != what(b) {
            return Err(format!("mesh {an:?}: parts {:?} became {:?}", what(a), what(b)));
        }
        for (a, b) in a.iter().zip(b) {
            let k = format!("mesh {an:?}, {} {:?}", KINDS[a.kind as usize], a.name);
            if a.ints.len() != b.ints.len() || a.floats.len() != b.floats.len() {
                return Err(format!("{k}: lengths {} {} became {} {}", a.ints.len(), a.floats.len(), b.ints.len(), b.floats.len()));
            }
            if let Some(i) = (0..a.ints.len()).find(|&i| a.ints[i] != b.ints[i]) {
                return Err(format!("{k}: entry {i} {} became {}", a.ints[i], b.ints[i]));
            }
            let mag = a.floats.iter().filter(|x| x.is_finite()).fold(0f64, |m, x| m.max(x.abs()));
            let dir = a.kind == 1 || a.kind == 3;
            let tol = if dir && fast_trig(w) != fast_trig(r) {
                0.03
            } else if dir && both_double {
                1e-9
            } else if dir {
                1e-3
            } else if both_double {
                mag * 2f64.powi(-48)
            } else {
                mag * 2f64.powi(-21)
            };
            if let Some(i) = (0..a.floats.len()).find(|&i| a.floats[i].is_finite() && (a.floats[i] - b.floats[i]).abs() > tol) {
                return Err(format!("{k}: value {i} {} became {}", a.floats[i], b.floats[i]));
            }
        }
    }
    Ok(())
}
// ---- cases ------------------------------------------------------------------------------------------
enum Case {
    Tmf(Vec<(Snap, String)>, Prec),
    /// a file laid out by hand: loaded only
    File(String),
    Obj(Vec<(Snap, String)>),
}
fn cases() -> &'static Vec<(String, Case)> {
    static S: OnceLock<Vec<(String, Case)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o: Vec<(String, Case)> = vec![];
        let s = snaps();
        let precs = [DEF, Prec { v: 0.9, n_deg: 45.0, u: (16.0, 4.0), t_deg: 30.0 }, Prec { v: 0.01, n_deg: 0.1, u: (4096.0, 0.01), t_deg: 0.01 }, Prec { v: 0.5, n_deg: 5.0, u: (1024.0, 1.0), t_deg: 2.0 }, Prec { v: 1e-4, n_deg: 0.01, u: (1024.0, 1e-4), t_deg: 0.1 }];
        for (i, p) in precs.iter().enumerate() {
            for (w, a) in s {
                o.push((format!("{w}, settings {i}"), Case::Tmf(vec![(a.clone(), "zażółć".into())], *p)));
                if i == 0 {
                    for (x, b) in s {
                        o.push((format!("{w} and {x}"), Case::Tmf(vec![(a.clone(), "a".into()), (b.clone(), String::new())], *p)));
                    }
                }
            }
        }
        for pat in 0..IDX_PATTERNS {
            for top in [0u32, 1, 2, 3, 7, 8, 100, 255, 256, 65_534, 65_535, 65_536, 70_000, 1 << 31, u32::MAX] {
                for len in [0usize, 1, 2, 3, 5, 7, 8, 16, 33, 64, 65, 130, 300] {
                    let v = idx_pattern(pat, len, top);
                    for kind in 0..4 {
                        let mut s = Snap::default();
                        match kind {
                            0 => s.vt = Some(v.clone()),
                            1 => {
                                s.vt = Some(v.clone());
                                s.nt = Some(v.clone());
                                s.ut = Some(v.clone());
                            }
                            2 => {
                                s.nt = Some(v.clone());
                                s.tt = Some(v.clone());
                            }
                            _ => s.c = vec![("i".into(), Cd::Index(v.clone(), top as usize)), ("n".into(), Cd::Int(v.clone(), top as usize))],
                        }
                        o.push((format!("indices: pattern {pat} maximum {top} length {len} kind {kind}"), Case::Tmf(vec![(s, "i".into())], DEF)));
                    }
                }
            }
        }
        for k in 0..9 {
            let a = [90.0f32, 30.0, 5.0, 1.0, 0.1, 1e-3, 1e-5, 1e-8, 1e-12][k];
            let p = Prec { v: [0.9f32, 0.5, 0.1, 0.01, 1e-3, 1e-5, 1e-7, 1e-9, 1e-12][k], n_deg: a, u: (4096.0, [4096.0f32, 100.0, 10.0, 1.0, 0.1, 1e-4, 1e-6, 1e-9, 1e-12][k]), t_deg: a };
            for e in 0..10 {
                for oct in 0..8 {
                    let d: Vec<V3> = (0..10).map(|a| dir(a as f64 * 10.0, e as f64 * 10.0, oct)).collect();
                    let c = |x: f32| (x + 1.0) / 2.0;
                    let s = Snap {
                        n: Some(d.clone()),
                        t: Some(d.iter().map(|d| (*d, if d.0 > 0.3 { 1.0 } else { -1.0 })).collect()),
                        u: Some(d.iter().map(|d| (c(d.0), c(d.2))).collect()),
                        v: Some(d.iter().map(|d| (d.0 * 100.0, d.1, -d.2 * 7.0)).collect()),
                        c: vec![("f".into(), Cd::Float(d.iter().map(|d| d.0 * 7.0).collect(), p.v)), ("c".into(), Cd::Rgba(d.iter().map(|d| (c(d.0), c(d.1), c(d.2), 0.5)).collect(), p.v))],
                        ..Default::default()
                    };
                    o.push((format!("values: setting {k} elevation {e} octant {oct}"), Case::Tmf(vec![(s, "v".into())], p)));
                }
            }
        }
        for k in -30..=30 {
            for m in [1.0f64, 1.37, -0.77] {
                let x = 2f64.powi(k * 3) * m;
                let v: Vec<V3> = (0..6).map(|i| ((x * i as f64) as f32, (x * 0.3 * (i * i) as f64) as f32, (-x * (5 - i) as f64) as f32)).collect();
                let s = Snap { vt: Some(vec![0, 1, 2, 3, 4, 5]), v: Some(v), ..Default::default() };
                o.push((format!("vertices around {x:e}"), Case::Tmf(vec![(s.clone(), "v".into())], DEF)));
                o.push((format!("points around {x:e}"), Case::Tmf(vec![(Snap { vt: None, ..s.clone() }, "v".into())], Prec { v: (x.abs() * 0.1) as f32, ..DEF })));
                o.push((format!("vertices around {x:e}"), Case::Obj(vec![(s, "v".into())])));
            }
        }
        for (w, a) in big_snaps() {
            o.push((w.to_string(), Case::Tmf(vec![(a.clone(), "big".into())], DEF)));
            o.push((format!("{w} between others"), Case::Tmf(vec![(tri_snap(), "a".into()), (a.clone(), String::new()), (full_snap(), "z".into())], DEF)));
        }
        for f in files().iter().filter(|f| f.0.starts_with("hand-made")) {
            o.push((f.0.clone(), Case::File(f.0.clone())));
        }
        let even: Vec<&(&str, Snap)> = s.iter().filter(|s| ["triangles", "everything", "all equal", "two equal", "points", "nothing"].contains(&s.0)).collect();
        for a in &even {
            for b in &even {
                for c in &even {
                    o.push((format!("OBJ: {}, {}, {}", a.0, b.0, c.0), Case::Obj(vec![(a.1.clone(), "a b".into()), (b.1.clone(), "ż".into()), (c.1.clone(), String::new())])));
                }
            }
        }
        o
    })
}
fn fits(s: &Snap) -> bool {
    let t = [&s.vt, &s.nt, &s.ut, &s.tt];
    t.into_iter().flatten().all(|a| a.iter().all(|x| *x <= TOP))
        && s.c.iter().all(|(_, c)| match c {
            Cd::Index(a, m) | Cd::Int(a, m) => *m <= TOP as usize && a.iter().all(|x| *x <= TOP),
            _ => true,
        })
}
/// What a build makes of a case.
#[derive(Clone, Debug, Default)]
struct Rec {
    /// 0 beyond the number types of the build, 1 done, 2 refused or panicked (text in `bytes`)
    status: u64,
    bytes: Vec<u8>,
    view: View,
}
fn answer(c: &Case) -> Rec {
    let r = sut(|| -> Result<Rec, String> {
        match c {
            Case::Tmf(l, p) => {
                if !l.iter().all(|s| fits(&s.0)) {
                    return Ok(Rec::default());
                }
                let l: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.clone())).collect();
                let mut bytes = vec![];
                TMFMesh::write_tmf(&l, &mut bytes, &p.make()).map_err(|e| format!("save: {e}"))?;
                let back = TMFMesh::read_tmf(&mut &bytes[..]).map_err(|e| format!("load: {e}"))?;
                Ok(Rec { status: 1, bytes, view: view(&back) })
            }
            Case::File(n) => {
                let bytes = file(n).clone();
                let back = TMFMesh::read_tmf(&mut &bytes[..]).map_err(|e| format!("load: {e}"))?;
                Ok(Rec { status: 1, bytes, view: view(&back) })
            }
            Case::Obj(l) => {
                let l: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.clone())).collect();
                let mut bytes = vec![];
                TMFMesh::write_obj(&l, &mut bytes).map_err(|e| format!("export: {e}"))?;
                let back = TMFMesh::read_from_obj(&mut &bytes[..]).map_err(|e| format!("import: {e}"))?;
                Ok(Rec { status: 1, bytes, view: view(&back) })
            }
        }
    });
    match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => Rec { status: 2, bytes: e.into_bytes(), view: vec![] },
        Err(p) => Rec { status: 2, bytes: format!("panic: {p}").into_bytes(), view: vec![] },
    }
}
fn file(name: &str) -> &'static Vec<u8> {
    &files().iter().find(|f| f.0 == name).expect("a file of that name").1
}
// ---- damaged files ----------------------------------------------------------------------------------
const WAYS: usize = 16;
fn damage(b: &mut Vec<u8>, at: usize, way: usize) {
    match way {
        0 => b.truncate(at),
        1 => b[at] = 0,
        2 => b[at] = 0xff,
        3..=10 => b[at] ^= 1 << (way - 3),
        11 => b[at] = b[at].wrapping_add(1),
        12 => b[at] = b[at].wrapping_sub(1),
        13 => b[at] = 0x40,
        14 => b[at] = 0x7f,
        // one byte too many
        _ => b.insert(at, 0),
    }
}
/// Fingerprint of what comes out of a damaged file (0: refused); directions count only by number.
fn fingerprint(b: &[u8]) -> u64 {
    if super::files::bomb(b) {
        return 3;
    }
    match sut(|| TMFMesh::read_tmf(&mut &b[..]).map(|l| view(&l))) {
        Err(_) => 1,
        Ok(Err(_)) => 0,
        Ok(Ok(v)) => {
            let mut h = H::new().u(v.len() as u64);
            for (n, p) in &v {
                h = h.s(n);
                for p in p {
                    h = h.u(p.kind).s(&p.name).u(p.ints.len() as u64).u(p.floats.len() as u64);
                    h = p.ints.iter().fold(h, |h, x| h.u(*x));
                    if p.kind != 1 && p.kind != 3 {
                        h = p.floats.iter().fold(h, |h, x| h.u(if x.is_nan() { 7 } else { x.to_bits() }));
                    }
                }
            }
            h.0.max(4)
        }
    }
}
// ---- dumps ------------------------------------------------------------------------------------------
struct Dump {
    recs: Vec<Rec>,
    damaged: Vec<u64>,
}
fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u64).to_le_bytes());
    o.extend(b);
}
pub fn dump_main(path: &str) {
    let mut o = vec![];
    for (_, c) in cases() {
        let r = answer(c);
        o.extend(r.status.to_le_bytes());
        put_bytes(&mut o, &r.bytes);
        o.extend((r.view.len() as u64).to_le_bytes());
        for (n, p) in &r.view {
            put_bytes(&mut o, n.as_bytes());
            o.extend((p.len() as u64).to_le_bytes());
            for p in p {
                o.extend(p.kind.to_le_bytes());
                put_bytes(&mut o, p.name.as_bytes());
                o.extend((p.ints.len() as u64).to_le_bytes());
                p.ints.iter().for_each(|x| o.extend(x.to_le_bytes()));
                o.extend((p.floats.len() as u64).to_le_bytes());
                p.floats.iter().for_each(|x| o.extend(x.to_le_bytes()));
            }
        }
    }
    for f in files() {
        for at in 0..f.1.len() {
            for way in 0..WAYS {
                let mut b = f.1.clone();
                damage(&mut b, at, way);
                o.extend(fingerprint(&b).to_le_bytes());
            }
        }
    }
    std::fs::write(path, o).expect("dump");
}
fn read_dump(build: usize) -> Result<Dump, String> {
    let path = std::env::current_exe().map_err(|e| e.to_string())?;
    let path = path.ancestors().nth(4).ok_or("no such directory")?.join("work").join(format!("dump.{}", BUILDS[build]));
    let b = std::fs::read(&path).map_err(|e| format!("{path:?}: {e}"))?;
    let mut at = 0;
    fn word(b: &[u8], at: &mut usize) -> u64 {
        *at += 8;
        u64::from_le_bytes(b[*at - 8..*at].try_into().unwrap())
    }
    fn bytes(b: &[u8], at: &mut usize) -> Vec<u8> {
        let n = word(b, at) as usize;
        *at += n;
        b[*at - n..*at].to_vec()
    }
    let text = |b| String::from_utf8(b).expect("UTF-8");
    let mut recs = vec![];
    for _ in cases() {
        let status = word(&b, &mut at);
        let own = bytes(&b, &mut at);
        let view = (0..word(&b, &mut at))
            .map(|_| {
                let n = text(bytes(&b, &mut at));
                let p = (0..word(&b, &mut at))
                    .map(|_| {
                        let kind = word(&b, &mut at);
                        let name = text(bytes(&b, &mut at));
                        let ints = (0..word(&b, &mut at)).map(|_| word(&b, &mut at)).collect();
                        let floats = (0..word(&b, &mut at)).map(|_| f64::from_bits(word(&b, &mut at))).collect();
                        Part { kind, name, ints, floats }
                    })
                    .collect();
                (n, p)
            })
            .collect();
        recs.push(Rec { status, bytes: own, view });
    }
    let mut damaged = vec![];
    while at < b.len() {
        damaged.push(word(&b, &mut at));
    }
    Ok(Dump { recs, damaged })
}
fn dump(build: usize) -> R<&'static Dump> {
    static D: [OnceLock<Result<Dump, String>>; 6] = [const { OnceLock::new() }; 6];
    match D[build].get_or_init(|| read_dump(build)) {
        Ok(d) => Ok(d),
        Err(e) => engine_error(format!("no dump of the {} build: {e}", BUILDS[build])),
    }
}
fn places() -> &'static HashMap<usize, (usize, usize)> {
    // start of each file in the list of fingerprints
    static S: OnceLock<HashMap<usize, (usize, usize)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut at = 0;
        files()
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let r = (i, (at, f.1.len()));
                at += f.1.len() * WAYS;
                r
            })
            .collect()
    })
}
pub fn c27() -> Vec<Family> {
    vec![
        dfs("same_bytes", "the same cases saved by this build and by the one that differs only in features which do not concern number types: same bytes, and the same cases refused", |ctx| {
            let w = alike(OWN)[(alike(OWN)[0] == OWN) as usize];
            let k = ctx.choose(cases().len());
            let (note, case) = &cases()[k];
            ctx.note(|| format!("{note}, by the {} and the {} build", BUILDS[w], BUILDS[OWN]));
            let b = answer(case);
            let a = &dump(w)?.recs[k];
            ctx.step();
            ctx.state(H::new().bytes(&b.bytes));
            ensure!(a.status == b.status, "the {} build: {} {:.300?}, the {} build: {} {:.300?}", BUILDS[w], a.status, String::from_utf8_lossy(&a.bytes), BUILDS[OWN], b.status, String::from_utf8_lossy(&b.bytes));
            ensure!(a.status != 1 || a.bytes == b.bytes, "the {} build writes {} bytes, the {} build {}, not the same", BUILDS[w], a.bytes.len(), BUILDS[OWN], b.bytes.len());
            if let Err(e) = agree(&a.view, w, &b.view, OWN) {
                return fail(format!("loaded by the {} build it differs: {e}", BUILDS[w]));
            }
            ctx.compared();
            Ok(())
        }),
        dfs("damaged", "every base file with a byte changed in 14 ways, inserted or the rest cut off: the build that differs only in features which do not concern number types accepts the same files with the same contents", |ctx| {
            let w = alike(OWN)[(alike(OWN)[0] == OWN) as usize];
            let i = ctx.choose(files().len());
            let (start, len) = places()[&i];
            let at = ctx.choose(len);
            let way = ctx.choose(WAYS);
            let mut b = files()[i].1.clone();
            damage(&mut b, at, way);
            ctx.note(|| format!("{} byte {at} way {way}, {} and {} build", files()[i].0, BUILDS[w], BUILDS[OWN]));
            ctx.state(H::new().bytes(&b));
            ctx.step();
            let f = fingerprint(&b);
            let Some(g) = dump(w)?.damaged.get(start + at * WAYS + way) else { return fail("the files saved by the two builds differ in length") };
            let say = |x: u64| match x { 0 => "refused".to_string(), 1 => "panic".into(), 3 => "left out".into(), x => format!("contents {x:x}") };
            ensure!(f == *g, "the {} build: {}, the {} build: {}", BUILDS[w], say(*g), BUILDS[OWN], say(f));
            ctx.compared();
            Ok(())
        }),
        dfs("exchange", "what each of the other five builds saves or exports (meshes x settings, index patterns x maxima x lengths, directions, values at all scales, lists, hand-made files, OBJ texts), loaded or imported by this build", |ctx| {
            let w = ctx.choose(BUILDS.len());
            if w == OWN {
                return Ok(());
            }
            let d = dump(w)?;
            let k = ctx.choose(cases().len());
            let (note, case) = &cases()[k];
            let r = &d.recs[k];
            ctx.note(|| format!("{note}, by the {} build, read by the {} build", BUILDS[w], BUILDS[OWN]));
            if r.status == 0 {
                return Ok(());
            }
            ensure!(r.status == 1, "the {} build: {}", BUILDS[w], String::from_utf8_lossy(&r.bytes));
            ctx.state(H::new().u(w as u64).bytes(&r.bytes));
            let too_big = r.view.iter().any(|m| m.1.iter().any(|p| (4..=9).contains(&p.kind) && p.ints.iter().any(|x| *x > IndexType::MAX as u64)));
            ctx.step();
            let back = match sut(|| match case {
                Case::Obj(_) => TMFMesh::read_from_obj(&mut &r.bytes[..]).map_err(|e| e.to_string()),
                _ => TMFMesh::read_tmf(&mut &r.bytes[..]).map_err(|e| e.to_string()),
            }) {
                Ok(x) => x,
                Err(p) => return fail(format!("panicked: {p}")),
            };
            match back {
                Ok(l) => {
                    ensure!(!too_big, "accepted although its indices exceed the index type");
                    if let Err(e) = agree(&r.view, w, &view(&l), OWN) {
                        return fail(e);
                    }
                }
                Err(e) => ensure!(too_big, "refused: {e}"),
            }
            ctx.compared();
            Ok(())
        }),
    ]
}
