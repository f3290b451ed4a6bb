//! Meshes and files several explorations start from: small, yet with every part, layout and split the format has.
use crate::refcodec::*;
use crate::util::*;
use std::sync::OnceLock;

pub fn tri_snap() -> Snap {
    Snap {
        v: Some(vec![(0.0, 0.0, 0.0), (1.0, 0.0, 0.5), (0.0, 2.0, -1.0), (1.5, 1.0, 0.25)]),
        vt: Some(vec![0, 1, 2, 1, 3, 2]),
        ..Default::default()
    }
}
pub fn full_snap() -> Snap {
    let mut s = tri_snap();
    s.n = Some(vec![(0.0, 1.0, 0.0), (0.0, 0.0, -1.0), unit(1.0, 2.0, 3.0)]);
    s.u = Some(vec![(0.0, 0.0), (1.0, 0.25), (0.5, 1.0)]);
    s.t = Some(vec![((0.0, 1.0, 0.0), 1.0), (unit(-1.0, 0.5, 0.25), -1.0)]);
    s.nt = Some(vec![0, 1, 2, 2, 1, 0]);
    s.ut = Some(vec![2, 1, 0, 0, 1, 2]);
    s.tt = Some(vec![0, 1, 1, 1, 0, 0]);
    s.c = vec![
        ("idx".into(), Cd::Index(vec![0, 5, 3], 5)),
        ("flt".into(), Cd::Float(vec![0.0, 0.5, -2.0], 0.25)),
        ("col".into(), Cd::Rgba(vec![(0.0, 0.5, 1.0, 0.25)], 0.01)),
        ("int".into(), Cd::Int(vec![7, 9], 9)),
    ];
    s
}
/// Named meshes covering presence, emptiness, sharing and splitting.
pub fn snaps() -> &'static Vec<(&'static str, Snap)> {
    static S: OnceLock<Vec<(&'static str, Snap)>> = OnceLock::new();
    S.get_or_init(|| {
        let f = full_snap();
        let mut o: Vec<(&'static str, Snap)> = vec![
            ("nothing", Snap::default()),
            ("triangles", tri_snap()),
            ("everything", f.clone()),
            ("points", Snap { v: f.v.clone(), ..Default::default() }),
            ("normals only", Snap { n: f.n.clone(), ..Default::default() }),
            ("uvs only", Snap { u: f.u.clone(), ..Default::default() }),
            ("tangents only", Snap { t: f.t.clone(), tt: f.tt.clone(), ..Default::default() }),
            ("empty parts", Snap { v: Some(vec![]), n: Some(vec![]), u: Some(vec![]), t: Some(vec![]), vt: Some(vec![]), nt: Some(vec![]), ut: Some(vec![]), tt: Some(vec![]), c: vec![] }),
            ("all equal", Snap { vt: Some(vec![0, 1, 2]), nt: Some(vec![0, 1, 2]), ut: Some(vec![0, 1, 2]), tt: Some(vec![0, 1, 2]), ..f.clone() }),
            ("two equal", Snap { vt: Some(vec![0, 1, 2]), nt: Some(vec![2, 1, 0]), ut: Some(vec![0, 1, 2]), tt: None, c: vec![], ..f.clone() }),
            ("custom only", Snap { c: f.c.clone(), ..Default::default() }),
            ("same names", Snap { c: vec![("x".into(), Cd::Int(vec![1], 1)), ("x".into(), Cd::Float(vec![1.0], 0.5)), ("y".into(), Cd::Int(vec![2], 2))], ..Default::default() }),
        ];
        // long enough to be cut in two: many small indices, then large ones
        let mut a: Vec<u32> = (0..120).map(|i| i % 3).collect();
        a.extend([70_000, 70_001, 70_002, 69_999, 70_000, 1].map(t));
        let b: Vec<u32> = a.iter().rev().copied().collect();
        o.push(("split", Snap { vt: Some(a.clone()), nt: Some(b), ut: Some(a), ..Default::default() }));
        // vertices in a small box, then far away: vertex arrays are cut too
        let mut v: Vec<V3> = (0..60).map(|i| ((i % 4) as f32 * 0.25, (i % 5) as f32 * 0.25, (i % 3) as f32 * 0.25)).collect();
        v.extend((0..8).map(|i| (1000.0 + i as f32, -500.0, 20.0 * i as f32)));
        o.push(("far away", Snap { v: Some(v), vt: Some(vec![0, 1, 60]), ..Default::default() }));
        o
    })
}
/// Meshes with segments of more than 64 KiB next to small ones, in both orders.
pub fn big_snaps() -> &'static Vec<(&'static str, Snap)> {
    static S: OnceLock<Vec<(&'static str, Snap)>> = OnceLock::new();
    S.get_or_init(|| {
        const N: usize = 30_000;
        let ints: Vec<u32> = (0..70_000).map(|i| i * 7 % 251).collect();
        let floats: Vec<f32> = (0..N).map(|i| (i % 1000) as f32 * 0.125 - 7.0).collect();
        let col: Vec<(f32, f32, f32, f32)> = (0..N).map(|i| ((i % 3) as f32 * 0.5, (i % 256) as f32 / 255.0, 1.0, 0.25)).collect();
        let d = |i: usize| dir((i % 10) as f64 * 9.0, (i / 10 % 9) as f64 * 10.0, i % 8);
        // a part cut into a large and a small piece
        let low: Vec<u32> = (0..100_000).map(|i| i * 31 % 1000).collect();
        let high: Vec<u32> = [70_000, 70_001, 70_002, 69_999, 70_000, 1].map(t).into();
        let near: Vec<V3> = (0..N).map(|i| ((i % 40) as f32 * 0.25, (i / 40 % 50) as f32 * 0.25, (i % 7) as f32 * 0.25)).collect();
        let far: Vec<V3> = (0..8).map(|i| (1000.0 + i as f32, -500.0, 20.0 * i as f32)).collect();
        let tri = Some(vec![0, 1, 40]);
        let f = full_snap();
        vec![
            ("large custom arrays, then small ones of the same name", Snap { c: vec![("x".into(), Cd::Int(ints.clone(), 250)), ("x".into(), Cd::Float(vec![1.0, 3.0], 0.5)), ("y".into(), Cd::Rgba(col.clone(), 0.01)), ("y".into(), Cd::Int(vec![2], 2)), ("a".into(), Cd::Float(floats.clone(), 0.01)), ("a".into(), Cd::Index(vec![1, 0], 1))], ..f.clone() }),
            ("small custom arrays, then large ones of the same name", Snap { c: vec![("x".into(), Cd::Int(vec![1], 1)), ("x".into(), Cd::Index(ints.clone(), 250)), ("y".into(), Cd::Float(vec![1.0], 0.5)), ("y".into(), Cd::Float(floats, 0.01)), ("a".into(), Cd::Int(vec![3], 3)), ("a".into(), Cd::Rgba(col, 0.01))], ..Default::default() }),
            ("large indices, then small ones", Snap { vt: Some([&low[..], &high[..]].concat()), nt: Some([&low[..], &high[..], &low[..300]].concat()), v: f.v.clone(), ..Default::default() }),
            ("small indices, then large ones", Snap { ut: Some([&high[..], &low[..]].concat()), tt: Some([&high[..], &low[..], &[t(70_000), 0]].concat()), u: f.u.clone(), ..Default::default() }),
            ("near, then far", Snap { v: Some([&near[..], &far[..]].concat()), vt: tri.clone(), n: f.n.clone(), ..Default::default() }),
            ("far, then near", Snap { v: Some([&far[..], &near[..]].concat()), vt: tri.clone(), ..Default::default() }),
            ("large in every part", Snap { v: Some(near), n: Some((0..N).map(d).collect()), u: Some((0..N).map(|i| ((i % 64) as f32 / 64.0, (i % 37) as f32 / 36.0)).collect()), t: Some((0..N).map(|i| (d(i * 3), if i % 3 == 0 { 1.0 } else { -1.0 })).collect()), vt: Some(low.clone()), nt: Some(low.iter().rev().copied().collect()), ut: Some(low[..99_000].to_vec()), tt: tri, c: vec![("int".into(), Cd::Int(ints, 250))] }),
        ]
    })
}
/// Hand-made meshes of the file format in one layout: one for every segment type, unknown types, repeats.
pub fn hand(v01: bool) -> Vec<FileMesh> {
    let s = |ty, data| Seg { ty, comp: 0, data };
    let m = |name: &str, segs| FileMesh { name: name.as_bytes().to_vec(), segs };
    let v = pl_vertices([0.0, -1.0, 2.0], [1.0, 1.0, 4.0], [3, 2, 9], &[[0, 0, 0], [7, 3, 511], [4, 1, 300]]);
    let v2 = pl_vertices([-5.0; 3], [5.0; 3], [1, 1, 1], &[[1, 0, 1]]);
    vec![
        m("v", vec![s(VERTEX, v.clone()), s(VTRI, pl_tris(v01, 3, 0, &[0, 1, 2, 2, 1, 0])), s(VERTEX, v2)]),
        m("żółć", vec![
            s(NORMAL, pl_normals(7, &[(0, 0, 0), (127, 3, 5), (64, 127, 7)])),
            s(NTRI, pl_tris(v01, 8, if v01 { 0 } else { 3 }, &[0, 200, 9])),
            s(TANGENT, pl_tangents(5, &[(1, 2, 15), (31, 31, 0)])),
            s(TTRI, pl_tris(v01, 33, 0, &[4, 7])),
        ]),
        m("", vec![
            s(200, vec![1, 2, 3]),
            s(UV, pl_uvs(10, &[(0, 1023), (512, 1)])),
            s(SHARED, pl_shared(v01, 7, 2, 0, &[0, 1, 2, 3])),
            s(UTRI, pl_tris(v01, 4, 0, &[9, 8, 7])),
            s(INVALID, vec![]),
        ]),
        m("custom", vec![
            s(CINDEX, pl_name(b"a", pl_tris(v01, 6, 0, &[1, 63, 9]))),
            s(CINT, pl_name("ż".as_bytes(), pl_tris(v01, 32, 0, &[TOP as u64, 0]))),
            s(CFLOAT, pl_name(b"f", pl_cfloat(-1.0, 3.0, 4, &[0, 15, 8]))),
            s(CRGBA, pl_name(b"c", pl_crgba(8, &[[0, 255, 128, 1]]))),
        ]),
    ]
}
/// Complete, valid files: written by the crate and laid out by hand.
pub fn files() -> &'static Vec<(String, Vec<u8>)> {
    static S: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o = vec![];
        let put = |o: &mut Vec<(String, Vec<u8>)>, name: String, l: &[(&Snap, &str)]| {
            let l: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.to_string())).collect();
            // what cannot be saved is another property's business
            if let Ok(b) = save(&l, &DEF.make()) {
                o.push((name, b));
            }
        };
        for (n, s) in snaps() {
            put(&mut o, format!("saved {n}"), &[(s, "mesh")]);
        }
        put(&mut o, "saved none".into(), &[]);
        put(&mut o, "saved three".into(), &[(&tri_snap(), "a"), (&Snap::default(), ""), (&snaps()[10].1, "zażółć")]);
        for v01 in [true, false] {
            let l = if v01 { "0.1" } else { "0.2" };
            for m in hand(v01) {
                o.push((format!("hand-made {l} {:?}", String::from_utf8_lossy(&m.name)), build(v01, &[m])));
            }
            o.push((format!("hand-made {l} all"), build(v01, &hand(v01))));
        }
        o
    })
}
/// Files small enough for exploring pairs of changes.
pub fn small_files() -> Vec<&'static (String, Vec<u8>)> {
    files().iter().filter(|f| f.1.len() <= 420).collect()
}
pub const OBJ_TEXTS: [&str; 7] = [
    "o a\nv 1 2 3\nv 4 5 6\nv -7 8e2 9\nf 1 2 3\n",
    "# comment\r\no zażółć gęślą\r\nv 0 0 0\r\nv 1 0 0\r\nv 0 1 0\r\nvt 0 0\r\nvt 1 0.5\r\nvn 0 0 1\r\nf 1/1/1 2/2/1 3/1/1\r\nf 3/2/1 2/1/1 1/1/1",
    "v 0 0 0\nv 1 0 0\nv 0 1 0\nvn 0 0 1\nf 1//1 2//1 3//1\no b\nv 2 2 2\nvt 0 1\nf 4/1 2/1 1/1\no c\n",
    "",
    "o x\nv 1 2\n",
    "f 1 2 3",
    "o bad\nv 1 2 3\nf 1 1 x\nv 9 9 9\n",
];
pub fn err_text(e: &tmf::TMFImportError) -> String {
    format!("{e:?}")
}
