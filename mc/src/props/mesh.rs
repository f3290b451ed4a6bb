//! C12 unify, C13 reorder, C14 container, C15 verify, C22 buffers, C23 normalize.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use tmf::*;

fn vdata(n: usize, same: bool) -> Vec<V3> {
    (0..n).map(|i| if same { (1.0, 2.0, 3.0) } else { (i as f32, 10.0 + i as f32, -(i as f32)) }).collect()
}
fn ndata(n: usize, same: bool) -> Vec<V3> {
    (0..n).map(|i| if same { (0.0, 1.0, 0.0) } else { dir(10.0 + (i % 80) as f64 * 0.9 + (i / 80) as f64 * 0.0004, (i * 7 % 80) as f64, i % 8) }).collect()
}
fn udata(n: usize, same: bool) -> Vec<V2> {
    (0..n).map(|i| if same { (0.5, 0.25) } else { (i as f32 / n as f32, 1.0 - i as f32 / n as f32) }).collect()
}
fn tdata(n: usize, same: bool) -> Vec<(V3, f32)> {
    ndata(n, same).into_iter().enumerate().map(|(i, x)| (x, if i % 2 == 0 || same { 1.0 } else { -1.0 })).collect()
}
fn corners<T: Clone>(d: &Option<Vec<T>>, t: &Option<Vec<u32>>) -> Option<Vec<Option<T>>> {
    t.as_ref().map(|t| t.iter().map(|i| d.as_ref().and_then(|d| d.get(*i as usize).cloned())).collect())
}
fn call(what: &str, m: &mut TMFMesh, f: impl FnOnce(&mut TMFMesh)) -> R {
    match sut(|| f(m)) {
        Ok(()) => Ok(()),
        Err(p) => fail(format!("{what} panicked: {p}")),
    }
}
fn in_range(s: &Snap) -> bool {
    fn ok<T>(d: &Option<Vec<T>>, t: &Option<Vec<u32>>) -> bool {
        t.as_ref().map_or(true, |t| d.as_ref().is_some_and(|d| t.iter().all(|i| (*i as usize) < d.len())))
    }
    ok(&s.v, &s.vt) && ok(&s.n, &s.nt) && ok(&s.u, &s.ut) && ok(&s.t, &s.tt)
}
const CUSTOM: [&str; 2] = ["keep", "idx"];
fn with_custom(s: &mut Snap) {
    s.c = vec![
        ("keep".into(), Cd::Float(vec![1.0, 2.0], 0.1)),
        ("idx".into(), Cd::Index(vec![3, 1, 2], 4)),
    ];
}
fn same_corners(a: &Snap, b: &Snap, what: &str) -> R {
    ensure!(corners(&a.v, &a.vt) == corners(&b.v, &b.vt), "{what}: vertices per corner changed from {:?} to {:?}", corners(&a.v, &a.vt), corners(&b.v, &b.vt));
    ensure!(corners(&a.n, &a.nt) == corners(&b.n, &b.nt), "{what}: normals per corner changed from {:?} to {:?}", corners(&a.n, &a.nt), corners(&b.n, &b.nt));
    ensure!(corners(&a.u, &a.ut) == corners(&b.u, &b.ut), "{what}: UVs per corner changed from {:?} to {:?}", corners(&a.u, &a.ut), corners(&b.u, &b.ut));
    ensure!(corners(&a.t, &a.tt) == corners(&b.t, &b.tt), "{what}: tangents per corner changed from {:?} to {:?}", corners(&a.t, &a.tt), corners(&b.t, &b.tt));
    ensure!(a.c == b.c, "{what}: custom data changed");
    Ok(())
}
fn check_unify(ctx: &mut Ctx, s: &Snap) -> R {
    let mut m = s.build();
    // only meshes verify() accepts are promised anything; the oracle is ours, not verify()'s
    let vn_ok = in_range(&Snap { t: None, tt: None, ..s.clone() });
    if !vn_ok {
        return Ok(());
    }
    ctx.step();
    call("unify_index_data", &mut m, |m| m.unify_index_data())?;
    let r = Snap::of(&m, &CUSTOM);
    ctx.state(s.hash());
    same_corners(s, &r, "after unify_index_data")?;
    // parts without an index array are data of their own
    ensure!(s.vt.is_some() || s.v == r.v, "vertices without indices changed");
    ensure!(s.nt.is_some() || s.n == r.n, "normals without indices changed");
    ensure!(s.ut.is_some() || s.u == r.u, "uvs without indices changed");
    ensure!(s.tt.is_some() || s.t == r.t, "tangents without indices changed");
    if !in_range(&r) && in_range(s) {
        return fail(format!("indices out of range after unify: {}", r.short()));
    }
    let parts = [(&s.vt, s.v.is_some()), (&s.nt, s.n.is_some()), (&s.ut, s.u.is_some()), (&s.tt, s.t.is_some())];
    let present: Vec<_> = parts.iter().filter(|(t, _)| t.is_some()).collect();
    let complete = in_range(s)
        && present.iter().all(|p| p.1)
        && present.windows(2).all(|w| w[0].0.as_ref().unwrap().len() == w[1].0.as_ref().unwrap().len());
    if complete {
        let after: Vec<_> = [&r.vt, &r.nt, &r.ut, &r.tt].into_iter().filter(|t| t.is_some()).collect();
        ensure!(after.windows(2).all(|w| w[0] == w[1]), "index arrays are not identical after unify_index_data: {}", r.short());
    }
    call("second unify_index_data", &mut m, |m| m.unify_index_data())?;
    ctx.step();
    let r2 = Snap::of(&m, &CUSTOM);
    ensure!(r == r2, "a second unify_index_data changed the mesh from {} to {}", r.short(), r2.short());
    ctx.compared();
    Ok(())
}
/// 0 absent, 1 data only, 2 data + indices, 3 indices only, 4 empty data, 5 empty data + empty indices
fn part<T>(state: usize, data: impl FnOnce() -> Vec<T>, idx: impl FnOnce() -> Vec<u32>) -> (Option<Vec<T>>, Option<Vec<u32>>) {
    match state {
        0 => (None, None),
        1 => (Some(data()), None),
        2 => (Some(data()), Some(idx())),
        3 => (None, Some(idx())),
        4 => (Some(vec![]), None),
        _ => (Some(vec![]), Some(vec![])),
    }
}
pub fn c12() -> Vec<Family> {
    vec![
        dfs("tables", "4 parts absent/present, index arrays of length 3 (4 thorough) over 2 data elements, all index values", |ctx| {
            let len = if ctx.thorough { 4 } else { 3 };
            let mut s = Snap::default();
            with_custom(&mut s);
            let mut arr = |ctx: &mut Ctx| -> Option<Vec<u32>> {
                if ctx.flag() {
                    None
                } else {
                    let w = ctx.choose(1 << len);
                    Some((0..len).map(|i| (w >> i & 1) as u32).collect())
                }
            };
            let a = [arr(ctx), arr(ctx), arr(ctx), arr(ctx)];
            if a[0].is_some() { s.v = Some(vdata(2, false)); s.vt = a[0].clone(); }
            if a[1].is_some() { s.n = Some(ndata(2, false)); s.nt = a[1].clone(); }
            if a[2].is_some() { s.u = Some(udata(2, false)); s.ut = a[2].clone(); }
            if a[3].is_some() { s.t = Some(tdata(2, false)); s.tt = a[3].clone(); }
            ctx.note(|| format!("indices of v/n/u/t: {a:?}"));
            check_unify(ctx, &s)
        }),
        dfs("parts", "all presence states of the 4 parts (absent, data, data+indices, indices only, empty) x index lengths 0..=3 each x value classes", |ctx| {
            let mut st = [0usize; 4];
            let mut ln = [0usize; 4];
            let mut pat = [0usize; 4];
            for k in 0..4 {
                st[k] = ctx.choose(6);
                if st[k] == 2 || st[k] == 3 {
                    ln[k] = if ctx.thorough { ctx.choose(4) } else { ctx.pick(&[0, 2, 3]) };
                    pat[k] = ctx.choose(if ctx.thorough { 3 } else { 2 });
                }
            }
            let same = false;
            let idx = |k: usize| -> Vec<u32> { (0..ln[k]).map(|i| match pat[k] { 0 => i as u32 % 2, 1 => 1 - (i as u32 % 2), _ => 2 }).collect() };
            let mut s = Snap::default();
            with_custom(&mut s);
            let dn = 3;
            (s.v, s.vt) = part(st[0], || vdata(dn, same), || idx(0));
            (s.n, s.nt) = part(st[1], || ndata(dn, same), || idx(1));
            (s.u, s.ut) = part(st[2], || udata(dn, same), || idx(2));
            (s.t, s.tt) = part(st[3], || tdata(dn, same), || idx(3));
            ctx.note(|| format!("states {st:?} lengths {ln:?} patterns {pat:?}"));
            check_unify(ctx, &s)
        }),
        dfs("lengths", "4 parts with data, every combination of index array lengths 0..=5, equal and repeated data values", |ctx| {
            let l: Vec<usize> = (0..4).map(|_| ctx.choose(6)).collect();
            let same = ctx.flag();
            let sh = ctx.choose(3);
            let idx = |k: usize| -> Vec<u32> { (0..l[k]).map(|i| ((i * (k + 1) + sh) % 4) as u32).collect() };
            let mut s = Snap { v: Some(vdata(4, same)), n: Some(ndata(4, same)), u: Some(udata(4, same)), t: Some(tdata(4, same)), vt: Some(idx(0)), nt: Some(idx(1)), ut: Some(idx(2)), tt: Some(idx(3)), c: vec![] };
            with_custom(&mut s);
            ctx.note(|| format!("index lengths {l:?}, equal data {same}"));
            check_unify(ctx, &s)
        }),
        dfs("tangents", "tangent indices in and out of range next to a complete mesh", |ctx| {
            let dn = ctx.choose(3);
            let l = ctx.choose(4);
            let top = ctx.pick(&[0u32, 1, 2, 5, TOP]);
            let has = ctx.flag();
            let others = ctx.choose(8);
            let mut s = Snap::default();
            with_custom(&mut s);
            if others & 1 != 0 { s.v = Some(vdata(3, false)); s.vt = Some(vec![0, 1, 2]); }
            if others & 2 != 0 { s.n = Some(ndata(3, false)); s.nt = Some(vec![0, 2, 2]); }
            if others & 4 != 0 { s.u = Some(udata(3, false)); s.ut = Some(vec![2, 1, 0]); }
            if has { s.t = Some(tdata(dn, false)); }
            s.tt = Some((0..l).map(|i| if i == 1 { top } else { 0 }).collect());
            ctx.note(|| format!("{}", s.short()));
            check_unify(ctx, &s)
        }),
        dfs("large", "index patterns of hundreds to thousands of entries over large data arrays", |ctx| {
            let len = ctx.pick(&[17usize, 64, 257, 1000, 5000]);
            let dn = ctx.pick(&[5u32, 64, 300, 4096]);
            let p: Vec<usize> = (0..4).map(|k| if k < 2 { ctx.choose(IDX_PATTERNS) } else { ctx.pick(&[0, 3, 10]) }).collect();
            let has_t = p[3] != 3;
            let i = |k: usize| Some(idx_pattern(p[k], len, dn - 1));
            let n = dn as usize;
            let mut s = Snap { v: Some(vdata(n, false)), n: Some(ndata(n, false)), u: Some(udata(n, false)), t: None, vt: i(0), nt: i(1), ut: i(2), tt: None, c: vec![] };
            if has_t {
                s.t = Some(tdata(n, false));
                s.tt = i(3);
            }
            with_custom(&mut s);
            ctx.note(|| format!("{len} indices into {dn} elements, patterns {p:?}"));
            check_unify(ctx, &s)
        }),
        dfs("many", "index arrays of as many entries as counters, buffers and blocks hold, all different, few different and repeated, into arrays of all sizes, in 2, 3 or 4 parts", |ctx| {
            let len = ctx.pick(&many(ctx.thorough));
            let mask = ctx.pick(&[3usize, 5, 6, 7, 12, 15]);
            let how = ctx.choose(4);
            if len > TOP as usize {
                return Ok(());
            }
            let i = |p: usize| -> Option<Vec<u32>> {
                (mask >> p & 1 == 1).then(|| {
                    let len = len as u32;
                    match how {
                        // a combination of its own for every corner, from the first on or from the last on
                        0 => (0..len).map(|i| if p % 2 == 0 { i } else { i % 3 }).collect(),
                        1 => (0..len).map(|i| if p % 2 == 0 { i % 250 } else { len - 1 - i }).collect(),
                        2 => (0..len).map(|i| i * (p as u32 + 1) % 5).collect(),
                        _ => (0..len).map(|i| (i / 2 + p as u32) % len).collect(),
                    }
                })
            };
            let x = |i: usize| (i as f32, (i % 1000) as f32, 1.0);
            let mut s = Snap { vt: i(0), nt: i(1), ut: i(2), tt: i(3), ..Default::default() };
            let size = |t: &Option<Vec<u32>>| t.as_ref().map(|t| t.iter().max().map_or(0, |m| *m as usize + 1));
            s.v = size(&s.vt).map(|n| (0..n).map(x).collect());
            s.n = size(&s.nt).map(|n| (0..n).map(x).collect());
            s.u = size(&s.ut).map(|n| (0..n).map(|i| (i as f32, 0.0)).collect());
            s.t = size(&s.tt).map(|n| (0..n).map(|i| (x(i), 1.0)).collect());
            ctx.note(|| format!("{len} corners, parts {mask:#b}, way {how}"));
            check_unify(ctx, &s)
        }),
        dfs("distant", "all combinations of the indices next to 0 and next to 2^8, 2^10, 2^16, 2^21 in 2, 3 or 4 parts within one mesh, or of all indices up to 140 (33, 11) or 299 (44, 16): no two of them may be taken for one another", |ctx| {
            let k = ctx.choose(7);
            let e = [8, 10, 16, 20, 21, 0, 0][k];
            let mask = ctx.choose(16);
            let back = ctx.flag();
            let n = (mask as u32).count_ones() as usize;
            // 2^20 and up: once for each number of parts, the larger in thorough runs only
            if n < 2 || (e > 16 && (back || !matches!(mask, 3 | 7 | 12 | 15) || (e > 20 && !ctx.thorough && mask != 7))) || (e >= 16 && TOP <= 65536) {
                return Ok(());
            }
            let set: Vec<u32> = if e > 0 {
                let far = 1u32 << e;
                vec![0, 1, 2, far - 1, far, far + 1, far + 2]
            } else {
                // k = 6: more combinations than 16 bits count
                (0..if k == 6 && TOP > 65536 { [0, 0, 300, 45, 17][n] } else { [0, 0, 141, 34, 12][n] }).collect()
            };
            let len = *set.last().unwrap() as usize + 1;
            let total = set.len().pow(n as u32);
            let mut idx: Vec<Vec<u32>> = vec![vec![]; 4];
            for c in 0..total {
                let mut c = if back { total - 1 - c } else { c };
                for (p, i) in idx.iter_mut().enumerate() {
                    if mask >> p & 1 == 1 {
                        i.push(set[c % set.len()]);
                        c /= set.len();
                    }
                }
            }
            ctx.note(|| format!("indices {:?}.. in parts {mask:#b}, {total} corners, backwards {back}", &set[..set.len().min(8)]));
            let mut s = Snap::default();
            let x = |i: usize| (i as f32, (i / 1000) as f32, 1.0);
            let mut i = |p: usize| (mask >> p & 1 == 1).then(|| std::mem::take(&mut idx[p]));
            s.vt = i(0);
            s.nt = i(1);
            s.ut = i(2);
            s.tt = i(3);
            s.v = s.vt.is_some().then(|| (0..len).map(x).collect());
            s.n = s.nt.is_some().then(|| (0..len).map(x).collect());
            s.u = s.ut.is_some().then(|| (0..len).map(|i| (i as f32, 0.0)).collect());
            s.t = s.tt.is_some().then(|| (0..len).map(|i| (x(i), 1.0)).collect());
            check_unify(ctx, &s)
        }),
    ]
}
fn expect_reorder<T: Clone>(d: &Option<Vec<T>>, t: &Option<Vec<u32>>) -> (Option<Vec<T>>, Option<Vec<u32>>) {
    match (d, t) {
        (Some(d), Some(t)) if !t.is_empty() => {
            let mut order: Vec<u32> = vec![];
            let mut map = std::collections::HashMap::new();
            let mut nt = vec![];
            for i in t {
                let n = order.len() as u32;
                let id = *map.entry(*i).or_insert_with(|| {
                    order.push(*i);
                    n
                });
                nt.push(id);
            }
            (Some(order.iter().map(|i| d[*i as usize].clone()).collect()), Some(nt))
        }
        _ => (d.clone(), t.clone()),
    }
}
fn check_reorder(ctx: &mut Ctx, s: &Snap) -> R {
    if !in_range(&Snap { t: None, tt: None, ..s.clone() }) {
        return Ok(());
    }
    ctx.state(s.hash());
    let mut m = s.build();
    ctx.step();
    call("reorder_data", &mut m, |m| m.reorder_data())?;
    let r = Snap::of(&m, &CUSTOM);
    same_corners(s, &r, "after reorder_data")?;
    ensure!(s.t == r.t && s.tt == r.tt, "tangents changed");
    fn part<T: Clone + PartialEq + std::fmt::Debug>(w: &str, d: &Option<Vec<T>>, t: &Option<Vec<u32>>, rd: &Option<Vec<T>>, rt: &Option<Vec<u32>>) -> R {
        let (ed, et) = expect_reorder(d, t);
        if t.as_ref().is_some_and(|t| t.is_empty()) && d.is_some() {
            // nothing is used: keeping the array and dropping its elements are both fine
            ensure!((rd == d || *rd == Some(vec![])) && rt == t, "{w} with an empty index array became {rd:?} {rt:?}");
            return Ok(());
        }
        ensure!(&ed == rd, "{w}: data became {rd:?}, expected the used elements in order of first use: {ed:?}");
        ensure!(&et == rt, "{w}: indices became {rt:?}, expected {et:?}");
        Ok(())
    }
    part("vertices", &s.v, &s.vt, &r.v, &r.vt)?;
    part("normals", &s.n, &s.nt, &r.n, &r.nt)?;
    part("uvs", &s.u, &s.ut, &r.u, &r.ut)?;
    call("second reorder_data", &mut m, |m| m.reorder_data())?;
    ctx.step();
    let r2 = Snap::of(&m, &CUSTOM);
    ensure!(r == r2, "a second reorder_data changed the mesh from {} to {}", r.short(), r2.short());
    ctx.compared();
    Ok(())
}
pub fn c13() -> Vec<Family> {
    vec![
        dfs("one_part", "each kind: every index array of length <= 5 (6 thorough) over data arrays of length <= 4, distinct and equal data", |ctx| {
            let kind = ctx.choose(3);
            let dn = ctx.choose(5);
            let len = ctx.choose(if ctx.thorough { 7 } else { 6 });
            if dn == 0 && len > 0 {
                return Ok(());
            }
            let t: Vec<u32> = (0..len).map(|_| ctx.choose(dn) as u32).collect();
            let same = ctx.flag();
            ctx.note(|| format!("kind {kind}: {t:?} into {dn} elements, equal data {same}"));
            let mut s = Snap { t: Some(tdata(3, false)), tt: Some(vec![2, 0, 2]), ..Default::default() };
            with_custom(&mut s);
            match kind {
                0 => { s.v = Some(vdata(dn, same)); s.vt = Some(t); s.n = Some(ndata(2, false)); }
                1 => { s.n = Some(ndata(dn, same)); s.nt = Some(t); s.u = Some(udata(2, false)); }
                _ => { s.u = Some(udata(dn, same)); s.ut = Some(t); s.v = Some(vdata(2, false)); }
            }
            check_reorder(ctx, &s)
        }),
        dfs("three_parts", "three kinds together: every index triple over 3 elements for each, equal and unequal lengths", |ctx| {
            let mut t = vec![];
            for _ in 0..3 {
                let l = ctx.pick(&[3usize, 2]);
                t.push((0..l).map(|_| ctx.choose(3) as u32).collect::<Vec<u32>>());
            }
            ctx.note(|| format!("{t:?}"));
            let mut s = Snap { v: Some(vdata(3, false)), n: Some(ndata(3, false)), u: Some(udata(3, false)), vt: Some(t[0].clone()), nt: Some(t[1].clone()), ut: Some(t[2].clone()), ..Default::default() };
            with_custom(&mut s);
            check_reorder(ctx, &s)
        }),
        dfs("presence", "all presence states of the 4 parts", |ctx| {
            let st: Vec<usize> = (0..4).map(|_| ctx.choose(6)).collect();
            let idx = || vec![2u32, 0, 2];
            let mut s = Snap::default();
            with_custom(&mut s);
            (s.v, s.vt) = part(st[0], || vdata(4, false), idx);
            (s.n, s.nt) = part(st[1], || ndata(4, false), idx);
            (s.u, s.ut) = part(st[2], || udata(4, false), idx);
            (s.t, s.tt) = part(st[3], || tdata(4, false), idx);
            ctx.note(|| format!("states {st:?}"));
            // index arrays without data select nothing: they have to stay as they are
            ctx.state(s.hash());
            let mut m = s.build();
            call("reorder_data", &mut m, |m| m.reorder_data())?;
            let r = Snap::of(&m, &CUSTOM);
            for (w, st, a, b) in [("vertex", st[0], &s.vt, &r.vt), ("normal", st[1], &s.nt, &r.nt), ("uv", st[2], &s.ut, &r.ut), ("tangent", st[3], &s.tt, &r.tt)] {
                ensure!(st != 3 || a == b, "{w} indices without data changed from {a:?} to {b:?}");
            }
            check_reorder(ctx, &s)
        }),
        dfs("large", "index patterns of up to thousands of entries", |ctx| {
            let len = ctx.pick(&[17usize, 64, 255, 256, 257, 1000, 5000, 70000]);
            let dn = ctx.pick(&[5u32, 64, 255, 256, 257, 4096, 65536, 70000].map(t));
            let p: Vec<usize> = (0..3).map(|k| if k == 0 { ctx.choose(IDX_PATTERNS) } else { ctx.pick(&[1, 10]) }).collect();
            let n = dn as usize;
            let i = |k: usize| Some(idx_pattern(p[k], len, dn - 1));
            let mut s = Snap { v: Some(vdata(n, false)), n: Some(ndata(n, false)), u: Some(udata(n, false)), vt: i(0), nt: i(1), ut: i(2), ..Default::default() };
            with_custom(&mut s);
            ctx.note(|| format!("{len} indices into {dn} elements, patterns {p:?}"));
            check_reorder(ctx, &s)
        }),
    ]
}
// ---- C14 --------------------------------------------------------------------------------------------
const NAMES: [&str; 3] = ["a", "b", "c2"];
/// Applies operation `op` to the model and the mesh and compares what it returned.
fn container_op(op: usize, m: &mut TMFMesh, s: &mut Snap, clones: &mut Vec<(TMFMesh, Snap)>) -> R {
    fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, got: Option<Vec<T>>, want: Option<Vec<T>>) -> R {
        ensure!(got == want, "{what} returned {got:?}, the previous array was {want:?}");
        Ok(())
    }
    macro_rules! kind {
        ($o:expr, $set:ident, $app:ident, $f:ident, $a:expr, $b:expr, $name:expr) => {{
            match $o {
                0 => { let r = sut(|| m.$set(ups(&$a))); cmp(concat!("set_", $name), match r { Ok(x) => x.map(|x| downs(&x)), Err(p) => return fail(format!("set panicked: {p}")) }, s.$f.replace($a.to_vec()))? }
                1 => { let r = sut(|| m.$set(Vec::new())); cmp(concat!("set_", $name), match r { Ok(x) => x.map(|x| downs(&x)), Err(p) => return fail(format!("set panicked: {p}")) }, s.$f.replace(vec![]))? }
                2 => { if let Err(p) = sut(|| m.$app(&ups(&$b))) { return fail(format!("append panicked: {p}")) } s.$f.get_or_insert_with(Vec::new).extend_from_slice(&$b) }
                _ => { if let Err(p) = sut(|| m.$app(&[])) { return fail(format!("append panicked: {p}")) } s.$f.get_or_insert_with(Vec::new); }
            }
        }};
    }
    let (k, o) = (op / 4, op % 4);
    match k {
        0 => kind!(o, set_vertices, append_vertices, v, [(1.0, 2.0, 3.0), (4.0, 5.0, 6.0)], [(7.0, -8.0, f32::MAX)], "vertices"),
        1 => kind!(o, set_normals, append_normals, n, [(0.0, 1.0, 0.0), (9.0, 0.0, 0.0)], [(0.0, 0.0, 0.0)], "normals"),
        2 => kind!(o, set_uvs, append_uvs, u, [(0.5, 0.25), (7.0, -1.0)], [(1.0, 0.0)], "uvs"),
        3 => kind!(o, set_tangents, append_tangents, t, [((1.0, 0.0, 0.0), 1.0), ((0.0, 1.0, 0.0), -1.0)], [((0.0, 0.0, 1.0), -1.0)], "tangents"),
        4 => kind!(o, set_vertex_triangles, append_vertex_triangles, vt, [0u32, 1, 7], [11u32], "vertex_triangles"),
        5 => kind!(o, set_normal_triangles, append_normal_triangles, nt, [2u32, 3, 8], [12u32, 4], "normal_triangles"),
        6 => kind!(o, set_uv_triangles, append_uv_triangles, ut, [4u32, 5, 9], [13u32], "uv_triangles"),
        7 => kind!(o, set_tangent_triangles, append_tangent_triangles, tt, [6u32, 7, 10], [TOP], "tangent_triangles"),
        8 => {
            let (n, c) = match o {
                0 => ("a", Cd::Float(vec![1.0, 2.0], 0.5)),
                1 => ("b", Cd::Index(vec![1, 2, 3], 9)),
                2 => ("a", Cd::Int(vec![5], 5)),
                _ => ("c2", Cd::Rgba(vec![(0.0, 0.5, 1.0, 0.25)], 0.01)),
            };
            match sut(|| m.add_custom_data(c.make(), n)) {
                Ok(Ok(())) => {
                    s.c.push((n.to_string(), c));
                }
                Ok(Err(e)) => return fail(format!("add_custom_data refused {n:?}: {e:?}")),
                Err(p) => return fail(format!("add_custom_data panicked: {p}")),
            }
        }
        _ => match o {
            0 => clones.push((m.clone(), s.clone())),
            1 => {
                // go on with a clone; the original must not follow
                let c = m.clone();
                let old = std::mem::replace(m, c);
                clones.push((old, s.clone()));
            }
            2 => {
                if let Some(c) = clones.pop() {
                    let old = std::mem::replace(m, c.0);
                    let olds = std::mem::replace(s, c.1);
                    clones.push((old, olds));
                }
            }
            _ => {
                // a name of 256 bytes and more is refused and changes nothing
                let n = "x".repeat(256);
                match sut(|| m.add_custom_data(Cd::Int(vec![1], 1).make(), &n)) {
                    Ok(Err(_)) => (),
                    Ok(Ok(())) => return fail("a custom data name of 256 bytes was accepted".to_string()),
                    Err(p) => return fail(format!("add_custom_data panicked: {p}")),
                }
            }
        },
    }
    Ok(())
}
/// What the mesh shows against what the model holds.  Of custom data only the names already seen are known to
/// be looked up one way or the other (first or last added), but always one of those added under the name.
fn container_cmp(m: &TMFMesh, s: &Snap, what: &str) -> R {
    let r = match sut(|| Snap::of(m, &NAMES)) {
        Ok(r) => r,
        Err(p) => return fail(format!("{what}: getter panicked: {p}")),
    };
    let mut a = s.clone();
    let mut b = r.clone();
    a.c.clear();
    b.c.clear();
    ensure!(a == b, "{what} holds {} instead of {}", b.short(), a.short());
    for n in NAMES {
        let added: Vec<&Cd> = s.c.iter().filter(|c| c.0 == n).map(|c| &c.1).collect();
        let got = r.c.iter().find(|c| c.0 == n).map(|c| &c.1);
        match got {
            None => ensure!(added.is_empty(), "{what}: custom data {n:?} cannot be found"),
            Some(g) => {
                ensure!(added.contains(&g), "{what}: custom data {n:?} is {g:?}, added were {added:?}");
                // one rule for every lookup: the first one added
                ensure!(added[0] == g, "{what}: lookup of {n:?} gives {g:?}, not the first one added under that name ({:?})", added[0]);
            }
        }
    }
    for n in ["c", "A", "aa", ""] {
        ensure!(m.lookup_custom_data(n).is_none(), "{what}: custom data {n:?} found though never added");
    }
    Ok(())
}
pub fn c14() -> Vec<Family> {
    fn body(ctx: &mut Ctx, start: usize) -> R<u64> {
        let mut s = Snap::default();
        if start == 1 {
            s = Snap {
                v: Some(vdata(3, false)), n: Some(ndata(2, false)), u: Some(udata(2, false)), t: Some(tdata(2, false)),
                vt: Some(vec![0, 1, 2]), nt: Some(vec![1, 0, 1]), ut: Some(vec![1, 1, 0]), tt: Some(vec![0, 1, 0]), c: vec![],
            };
            with_custom(&mut s);
        }
        let mut m = s.build();
        let mut clones: Vec<(TMFMesh, Snap)> = vec![];
        container_cmp(&m, &s, "the mesh")?;
        let mut ops = vec![];
        while let Some(op) = ctx.next_op(40) {
            ops.push(op);
            ctx.step();
            container_op(op, &mut m, &mut s, &mut clones)?;
            container_cmp(&m, &s, "the mesh")?;
            for (m, s) in &clones {
                container_cmp(m, s, "a clone made earlier")?;
            }
            ctx.compared();
        }
        ctx.note(|| format!("operations {ops:?}"));
        let mut h = s.hash();
        for c in &clones {
            h = h.u(c.1.hash().0);
        }
        Ok(h.0)
    }
    vec![
        bfs("from_empty", "breadth-first over set/append/custom/clone operations from the empty mesh", 40, 3, 4, |ctx| body(ctx, 0)),
        bfs("from_full", "breadth-first over the same operations from a mesh with every part", 40, 3, 4, |ctx| body(ctx, 1)),
        dfs("many", "arrays of as many elements as counters, buffers and blocks hold, set and appended in two or three goes: getters, what set returns, clones", |ctx| {
            let c = many(ctx.thorough);
            let n = ctx.pick(&c);
            let kind = ctx.choose(8);
            let first = ctx.pick(&[0usize, 1, 255, 256, 65_536]);
            let how = ctx.choose(4);
            ctx.note(|| format!("kind {kind}: {n} elements after {first}, way {how}"));
            ctx.state(H::new().u(n as u64 * 8 + kind as u64).u(first as u64 * 4 + how as u64));
            let mut s = Snap::default();
            let mut m = s.build();
            let one = |n: usize, k: usize| -> Snap {
                let mut s = Snap::default();
                let f = |i: usize| ((i + k) % 8191) as f32 / 8192.0;
                let u = |i: usize| (i as u32).wrapping_mul(2_654_435_761).wrapping_add(k as u32) & TOP;
                match kind {
                    0 => s.v = Some((0..n).map(|i| (f(i), i as f32, -f(i))).collect()),
                    1 => s.n = Some((0..n).map(|i| (f(i), i as f32, -f(i))).collect()),
                    2 => s.u = Some((0..n).map(|i| (f(i), i as f32)).collect()),
                    3 => s.t = Some((0..n).map(|i| ((f(i), i as f32, -f(i)), 1.0)).collect()),
                    4 => s.vt = Some((0..n).map(u).collect()),
                    5 => s.nt = Some((0..n).map(u).collect()),
                    6 => s.ut = Some((0..n).map(u).collect()),
                    _ => s.tt = Some((0..n).map(u).collect()),
                }
                s
            };
            let goes: Vec<(bool, usize)> = match how {
                0 => vec![(true, n)],
                1 => vec![(true, first), (false, n)],
                2 => vec![(false, first), (false, n), (false, 1)],
                _ => vec![(true, n), (false, first), (true, 2)],
            };
            let mut before: Option<(TMFMesh, Snap)> = None;
            for (k, (set, n)) in goes.into_iter().enumerate() {
                let a = one(n, k);
                macro_rules! go {
                    ($set:ident, $app:ident, $f:ident) => {{
                        let d = a.$f.unwrap();
                        if set {
                            let got = sut(|| m.$set(ups(&d))).map_err(|p| Fail { msg: format!("set panicked: {p}"), key: None, engine: false })?;
                            let old = s.$f.replace(d);
                            ensure!(got.map(|x| downs(&x)) == old, "set returned something else than the previous array");
                        } else {
                            sut(|| m.$app(&ups(&d))).map_err(|p| Fail { msg: format!("append panicked: {p}"), key: None, engine: false })?;
                            s.$f.get_or_insert_with(Vec::new).extend_from_slice(&d);
                        }
                    }};
                }
                match kind {
                    0 => go!(set_vertices, append_vertices, v),
                    1 => go!(set_normals, append_normals, n),
                    2 => go!(set_uvs, append_uvs, u),
                    3 => go!(set_tangents, append_tangents, t),
                    4 => go!(set_vertex_triangles, append_vertex_triangles, vt),
                    5 => go!(set_normal_triangles, append_normal_triangles, nt),
                    6 => go!(set_uv_triangles, append_uv_triangles, ut),
                    _ => go!(set_tangent_triangles, append_tangent_triangles, tt),
                }
                ctx.step();
                let got = Snap::of(&m, &NAMES);
                ensure!(got == s, "after {} goes the mesh holds {} instead of {}", k + 1, got.short(), s.short());
                if let Some((b, bs)) = &before {
                    ensure!(Snap::of(b, &NAMES) == *bs, "a clone made earlier has changed");
                }
                before = Some((m.clone(), s.clone()));
            }
            ctx.compared();
            Ok(())
        }),
    ]
}
// ---- C15 --------------------------------------------------------------------------------------------
fn kinds_of(e: &TMFIntegrityStatus, out: &mut [bool; 3]) {
    use TMFIntegrityStatus::*;
    match e {
        VertexArrayMissing | IndexOutsideVertexArray(..) => out[0] = true,
        NormalArrayMissing | NormalsNotNormalized | IndexOutsideNormalArray(..) => out[1] = true,
        UVOutsideRange(..) | UVArrayMissing | IndexOutsideUVArray(..) => out[2] = true,
        CompositeError(l) => l.iter().for_each(|e| kinds_of(e, out)),
    }
}
fn check_verify(ctx: &mut Ctx, s: &Snap) -> R {
    fn bad<T>(d: &Option<Vec<T>>, t: &Option<Vec<u32>>) -> bool {
        match (d, t) {
            (_, None) => false,
            (None, Some(_)) => true,
            (Some(d), Some(t)) => t.iter().any(|i| *i as usize >= d.len()),
        }
    }
    // an empty index array without data: both answers are fine
    let amb = |d: bool, t: &Option<Vec<u32>>| !d && t.as_ref().is_some_and(|t| t.is_empty());
    if amb(s.v.is_some(), &s.vt) || amb(s.n.is_some(), &s.nt) || amb(s.u.is_some(), &s.ut) {
        return Ok(());
    }
    let mag = |x: &V3| ((x.0 as f64).powi(2) + (x.1 as f64).powi(2) + (x.2 as f64).powi(2)).sqrt();
    let want = [
        bad(&s.v, &s.vt),
        bad(&s.n, &s.nt) || s.n.as_ref().is_some_and(|n| n.iter().any(|x| !((mag(x) - 1.0).abs() <= 0.001))),
        bad(&s.u, &s.ut) || s.u.as_ref().is_some_and(|u| u.iter().any(|x| !((0.0..=1.0).contains(&x.0) && (0.0..=1.0).contains(&x.1)))),
    ];
    ctx.state(s.hash());
    ctx.step();
    let m = s.build();
    let r = match sut(|| m.verify()) {
        Ok(r) => r,
        Err(p) => return fail(format!("verify panicked: {p}")),
    };
    let mut got = [false; 3];
    match &r {
        Ok(()) => ensure!(want == got, "verify accepts a mesh with faulty parts (vertex, normal, uv) = {want:?}: {}", s.short()),
        Err(e) => {
            let text = sut(|| format!("{e} {e:?}"));
            ensure!(text.is_ok(), "formatting the error panicked");
            ensure!(want != [false; 3], "verify rejects a consistent mesh with {e}: {}", s.short());
            kinds_of(e, &mut got);
            ensure!(got == want, "verify names parts (vertex, normal, uv) {got:?} in {e}, at fault are {want:?}: {}", s.short());
            ctx.compared();
            return Ok(());
        }
    }
    let finite = s.v.as_ref().map_or(true, |v| v.iter().all(|x| x.0.is_finite() && x.1.is_finite() && x.2.is_finite()));
    if finite {
        let b = save(&[(m, "m".into())], &TMFPrecisionInfo::default())?;
        let mut l = load(&b)?;
        ensure!(l.len() == 1, "{} meshes loaded", l.len());
        ctx.step();
        let l = l.pop().unwrap().0;
        match sut(|| l.verify()) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return fail(format!("the mesh loaded back is rejected by verify: {e}; saved was {}", s.short())),
            Err(p) => return fail(format!("verify panicked: {p}")),
        }
        let r = Snap::of(&l, &[]);
        diff_idx("vertex indices", &s.vt, &r.vt)?;
        ensure!(s.v.as_ref().map(|x| x.len()) == r.v.as_ref().map(|x| x.len()), "number of vertices changed");
    }
    ctx.compared();
    Ok(())
}
pub fn c15() -> Vec<Family> {
    vec![
        dfs("indices", "each kind: data missing or of length 0..=3 x all index arrays of length <= 4 (5 thorough) over values around the length and the extremes", |ctx| {
            let kind = ctx.choose(3);
            let dn = ctx.choose(5);
            let len = ctx.choose(if ctx.thorough { 6 } else { 5 });
            let d = dn.saturating_sub(1) as u32;
            let vals = [0u32, d.saturating_sub(1), d, d + 1, TOP];
            let t: Vec<u32> = (0..len).map(|_| ctx.pick(&vals)).collect();
            ctx.note(|| format!("kind {kind}, {} elements, indices {t:?}", dn as i32 - 1));
            let mut s = Snap::default();
            let n = dn.saturating_sub(1);
            match kind {
                0 => { s.v = (dn > 0).then(|| vdata(n, false)); s.vt = Some(t); }
                1 => { s.n = (dn > 0).then(|| ndata(n, false)); s.nt = Some(t); }
                _ => { s.u = (dn > 0).then(|| udata(n, false)); s.ut = Some(t); }
            }
            check_verify(ctx, &s)
        }),
        dfs("many", "parts of hundreds to 131073 elements (thorough: 1048577) at all counts around powers of two, an index 0 to 2 below or above the count, 256 or 65536 above it, at the start, the middle or the end, a bad last element", |ctx| {
            let n = ctx.pick(&many(ctx.thorough));
            let kind = ctx.choose(3);
            let i = ctx.choose(8);
            let at = ctx.choose(3);
            let bad = ctx.flag();
            let last = [n - 2, n - 1, n, n + 1, n + 2, n + 256, n + 65536, 0][i].min(TOP as usize) as u32;
            let mut t = vec![0u32; 9];
            t[[0, 4, 8][at]] = last;
            ctx.note(|| format!("kind {kind}, {n} elements, index {last} at {at}, bad element {bad}"));
            let mut s = Snap::default();
            match kind {
                0 => { s.v = Some(vdata(n, false)); s.vt = Some(t); }
                1 => {
                    let mut d = ndata(n, false);
                    if bad { d[n - 1] = (0.5, 0.5, 0.5); }
                    s.n = Some(d);
                    s.nt = Some(t);
                }
                _ => {
                    let mut d = udata(n, false);
                    if bad { d[n - 1] = (0.5, 1.5); }
                    s.u = Some(d);
                    s.ut = Some(t);
                }
            }
            check_verify(ctx, &s)
        }),
        dfs("faults", "every combination of faults of the three parts (index out of range by 1/by far, array missing, bad values, both), with and without the other parts", |ctx| {
            // 0 absent 1 fine 2 index = len 3 index far 4 array missing 5 bad value 6 bad value + bad index 7 data only 8 empty data, index 0 9 bad value, no indices
            let st: Vec<usize> = (0..3).map(|_| ctx.choose(10)).collect();
            let pos = ctx.choose(3);
            let extra = ctx.choose(3);
            let idx = |k: usize| -> Vec<u32> {
                let mut t = vec![0u32, 1, 2];
                match st[k] { 2 => t[pos] = 3, 3 => t[pos] = TOP / 2 + 1, 6 => t[pos] = 4, 8 => t = vec![0], _ => () }
                t
            };
            let has_idx = |k: usize| !matches!(st[k], 0 | 7 | 9);
            let has_data = |k: usize| !matches!(st[k], 0 | 4);
            let bad = |k: usize| matches!(st[k], 5 | 6 | 9);
            let n = |k: usize| if st[k] == 8 { 0 } else { 3 };
            let mut s = Snap::default();
            if has_data(0) { s.v = Some(vdata(n(0), false)); }
            if has_data(1) { let mut d = ndata(n(1), false); if bad(1) { d[pos] = (0.5, 0.5, 0.5); } s.n = Some(d); }
            if has_data(2) { let mut d = udata(n(2), false); if bad(2) { d[pos] = (1.5, 0.5); } s.u = Some(d); }
            if has_idx(0) { s.vt = Some(idx(0)); }
            if has_idx(1) { s.nt = Some(idx(1)); }
            if has_idx(2) { s.ut = Some(idx(2)); }
            match extra {
                1 => s.tt = Some(vec![7, 8, 9]),
                2 => { s.t = Some(vec![((3.0, 0.0, 0.0), 1.0)]); s.tt = Some(vec![0]) }
                _ => (),
            }
            ctx.note(|| format!("states {st:?} position {pos} tangents {extra}"));
            if extra == 2 {
                // a tangent that is not a unit vector is none of verify()'s business; saving is not promised
                s.t = Some(vec![((1.0, 0.0, 0.0), 1.0)]);
            }
            check_verify(ctx, &s)
        }),
        dfs("normals", "normal lengths around the limits, directions, positions in the array, special floats", |ctx| {
            let n = 1 + ctx.choose(4);
            let pos = ctx.choose(n);
            let m = ctx.pick(&[1.0f64, 0.9991, 0.9989, 1.0009, 1.0011, 0.0, 0.5, 2.0, 1e-30, 1e30, f64::NAN, f64::INFINITY, -1.0]);
            let d = ctx.pick(&[(0.0, 0.0), (90.0, 0.0), (0.0, 90.0), (45.0, 35.0), (10.0, 80.0)]);
            let o = ctx.choose(8);
            let mut a = ndata(n, false);
            let u = dir(d.0, d.1, o);
            a[pos] = ((u.0 as f64 * m) as f32, (u.1 as f64 * m) as f32, (u.2 as f64 * m) as f32);
            ctx.note(|| format!("normal {pos} of {n}: {:?}", a[pos]));
            let s = Snap { n: Some(a), ..Default::default() };
            check_verify(ctx, &s)
        }),
        dfs("uvs", "all UV pairs over boundary values at every position", |ctx| {
            let vals = [0.0f32, -0.0, 1.0, 0.5, 1.0 + f32::EPSILON, -f32::MIN_POSITIVE, -1e-45, -1.0, 2.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 - f32::EPSILON / 2.0];
            let n = 1 + ctx.choose(3);
            let pos = ctx.choose(n);
            let (x, y) = (ctx.pick(&vals), ctx.pick(&vals));
            let mut u = udata(n, false);
            u[pos] = (x, y);
            let idx = ctx.flag();
            ctx.note(|| format!("uv {pos} of {n}: ({x}, {y}), indices {idx}"));
            let s = Snap { u: Some(u), ut: idx.then(|| vec![0]), ..Default::default() };
            check_verify(ctx, &s)
        }),
        dfs("savable", "consistent meshes with extreme and degenerate coordinates: saved, loaded and verified again", |ctx| {
            let vals = [0.0f32, 0.1, 1e-45, 1e-7, 1e7, 1e30, f32::MAX, f32::MIN, -0.0, 1.0, -1.0, 1e-30];
            let vals = &vals[..if !ctx.thorough && cfg!(feature = "full") { 8 } else { 12 }];
            let n = ctx.choose(if ctx.thorough { 4 } else { 3 });
            let mut v = vec![];
            for _ in 0..n {
                v.push((ctx.pick(vals), ctx.pick(vals), if ctx.thorough && n == 3 { 0.5 } else { ctx.pick(vals) }));
            }
            // 0 no indices 1 empty 2 one index 3 degenerate triangle 4 triangle and a half 5 all
            let t = ctx.choose(6);
            let l = n as u32;
            let vt = match t {
                0 => None,
                1 => Some(vec![]),
                2 if n > 0 => Some(vec![l - 1]),
                3 if n > 0 => Some(vec![0, 0, 0]),
                4 if n > 0 => Some(vec![0, l - 1, 0, l - 1]),
                5 if n > 0 => Some((0..l).collect()),
                _ => return Ok(()),
            };
            ctx.note(|| format!("vertices {v:?} indices {vt:?}"));
            check_verify(ctx, &Snap { v: Some(v), vt, ..Default::default() })
        }),
        dfs("savable_parts", "consistent meshes over all presence states and index lengths (equal or not), also not whole triangles", |ctx| {
            let mut s = Snap::default();
            let mut l = [0usize; 4];
            let mut st = [0usize; 4];
            for k in 0..4 {
                st[k] = ctx.choose(if k == 3 { 6 } else { 4 });
                if st[k] == 2 {
                    l[k] = ctx.pick(&[1usize, 3, 4]);
                }
            }
            let map = |x: usize| match x { 3 => 5, x => x };
            let idx = |k: usize| (0..l[k]).map(|i| (i % 3) as u32).collect::<Vec<_>>();
            (s.v, s.vt) = part(map(st[0]), || vdata(3, false), || idx(0));
            (s.n, s.nt) = part(map(st[1]), || ndata(3, false), || idx(1));
            (s.u, s.ut) = part(map(st[2]), || udata(3, false), || idx(2));
            (s.t, s.tt) = part(st[3], || tdata(3, false), || idx(3));
            ctx.note(|| s.short());
            check_verify(ctx, &s)
        }),
    ]
}
// ---- C22 --------------------------------------------------------------------------------------------
fn check_buffers(ctx: &mut Ctx, s: &Snap) -> R {
    let m = s.build();
    ctx.state(s.hash());
    for _ in 0..3 {
        ctx.step();
    }
    fn want<T: Clone>(d: &Option<Vec<T>>, t: &Option<Vec<u32>>) -> Option<Vec<T>> {
        let (d, t) = (d.as_ref()?, t.as_ref()?);
        t.iter().map(|i| d.get(*i as usize).cloned()).collect()
    }
    let got = sut(|| (m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer()));
    let (v, n, u) = match got {
        Ok(x) => x,
        Err(p) => return fail(format!("a get_*_buffer call panicked: {p}")),
    };
    let (v, n, u) = (v.map(|x| downs(&x)), n.map(|x| downs(&x)), u.map(|x| downs(&x)));
    ensure!(v == want(&s.v, &s.vt), "vertex buffer {v:?} instead of {:?}", want(&s.v, &s.vt));
    ensure!(n == want(&s.n, &s.nt), "normal buffer {n:?} instead of {:?}", want(&s.n, &s.nt));
    ensure!(u == want(&s.u, &s.ut), "uv buffer {u:?} instead of {:?}", want(&s.u, &s.ut));
    ensure!(Snap::of(&m, &CUSTOM) == Snap { c: s.c.clone(), ..s.clone() }, "asking for buffers changed the mesh");
    ctx.compared();
    Ok(())
}
pub fn c22() -> Vec<Family> {
    vec![
        dfs("one_kind", "each kind: data missing or of length 0..=3 x all index arrays of length <= 4 (5) over in- and out-of-range values", |ctx| {
            let kind = ctx.choose(3);
            let dn = ctx.choose(5);
            let len = ctx.choose(if ctx.thorough { 6 } else { 5 });
            let d = dn.saturating_sub(1) as u32;
            let vals = [0u32, 1, d.saturating_sub(1), d, d + 1, TOP];
            let t: Vec<u32> = (0..len).map(|_| ctx.pick(&vals)).collect();
            let n = dn.saturating_sub(1);
            let mut s = Snap { v: Some(vdata(5, false)), n: Some(ndata(5, false)), u: Some(udata(5, false)), vt: Some(vec![4, 4, 0]), nt: Some(vec![3, 0, 4]), ut: Some(vec![1, 4, 0]), ..Default::default() };
            match kind {
                0 => { s.v = (dn > 0).then(|| vdata(n, false)); s.vt = Some(t); }
                1 => { s.n = (dn > 0).then(|| ndata(n, false)); s.nt = Some(t); }
                _ => { s.u = (dn > 0).then(|| udata(n, false)); s.ut = Some(t); }
            }
            ctx.note(|| s.short());
            check_buffers(ctx, &s)
        }),
        dfs("presence", "all presence states of the four parts x index arrays in and out of range of equal and different lengths", |ctx| {
            let mut st = [0usize; 4];
            let mut ix = [0usize; 4];
            for k in 0..4 {
                st[k] = ctx.choose(6);
                ix[k] = if (2..=3).contains(&st[k]) { ctx.choose(5) } else { 0 };
            }
            let idx = |k: usize| -> Vec<u32> { match ix[k] { 0 => vec![2, 0, 1], 1 => vec![0, 1, 3], 2 => vec![3], 3 => vec![1, 1, 1, 0, 2, 2], _ => vec![] } };
            let mut s = Snap::default();
            with_custom(&mut s);
            (s.v, s.vt) = part(st[0], || vdata(3, false), || idx(0));
            (s.n, s.nt) = part(st[1], || ndata(3, false), || idx(1));
            (s.u, s.ut) = part(st[2], || udata(3, false), || idx(2));
            (s.t, s.tt) = part(st[3], || tdata(3, false), || idx(3));
            ctx.note(|| format!("states {st:?} index classes {ix:?}"));
            check_buffers(ctx, &s)
        }),
        dfs("large", "patterns over large arrays, optionally with one index out of range at any of several positions", |ctx| {
            let len = ctx.pick(&[17usize, 255, 256, 1000, 70000]);
            let dn = ctx.pick(&[1u32, 7, 256, 65536, 70000].map(t));
            let p = ctx.choose(IDX_PATTERNS);
            let bad = ctx.choose(4);
            let kind = ctx.choose(3);
            let mut t = idx_pattern(p, len, dn - 1);
            match bad { 1 => t[0] = dn, 2 => t[len / 2] = dn, 3 => *t.last_mut().unwrap() = dn, _ => () }
            let mut s = Snap::default();
            let n = dn as usize;
            match kind {
                0 => { s.v = Some(vdata(n, false)); s.vt = Some(t); }
                1 => { s.n = Some(ndata(n, false)); s.nt = Some(t); }
                _ => { s.u = Some(udata(n, false)); s.ut = Some(t); }
            }
            ctx.note(|| format!("{len} indices into {dn} elements, pattern {p}, bad index class {bad}, kind {kind}"));
            check_buffers(ctx, &s)
        }),
        dfs("many", "index arrays and parts of as many elements as counters, buffers and blocks hold, optionally with one index out of range", |ctx| {
            let c = many(ctx.thorough);
            let len = ctx.pick(&c);
            let dn = ctx.pick(&[3, len - 1, len, 256, 65_535, 65_536, 65_537, 100_000]).min(TOP as usize - 1) as u32;
            let bad = ctx.choose(4);
            let kind = ctx.choose(3);
            let mut t = idx_pattern(10, len, dn - 1);
            match bad { 1 => t[0] = dn, 2 => t[len / 2] = dn + 1, 3 => *t.last_mut().unwrap() = dn, _ => () }
            let mut s = Snap::default();
            let n = dn as usize;
            match kind {
                0 => { s.v = Some(vdata(n, false)); s.vt = Some(t); }
                1 => { s.n = Some(ndata(n, false)); s.nt = Some(t); }
                _ => { s.u = Some(udata(n, false)); s.ut = Some(t); }
            }
            ctx.note(|| format!("{len} indices into {dn} elements, bad index class {bad}, kind {kind}"));
            check_buffers(ctx, &s)
        }),
    ]
}
// ---- C23 --------------------------------------------------------------------------------------------
fn norm_values(thorough: bool) -> Vec<f32> {
    let mut v = vec![0.0f32, 1e-45, 1e-40, 1.1754944e-38, 1e-30, 1e-22, 1e-20, 1e-19, 1e-12, 1e-4, 0.5, 1.0, 3.0, 1e4, 1e15, 1e18, 1.8446744e19, 2e19, 1e20, 1e30, f32::MAX];
    if thorough {
        for e in (-149..128).step_by(7) {
            v.push((2f64.powi(e) * 1.37) as f32);
        }
    }
    let neg: Vec<f32> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v
}
fn check_normalize(ctx: &mut Ctx, a: Vec<V3>) -> R {
    let s = Snap { v: Some(vdata(2, false)), n: Some(a.clone()), u: Some(udata(2, false)), t: Some(vec![((3.0, 0.0, 0.0), 1.0)]), vt: Some(vec![1, 0]), nt: Some(vec![0, 0, 0]), ..Default::default() };
    let mut m = s.build();
    ctx.state(s.hash());
    ctx.step();
    call("normalize", &mut m, |m| m.normalize())?;
    let r = Snap::of(&m, &[]);
    ensure!(Snap { n: None, ..r.clone() } == Snap { n: None, ..s.clone() }, "normalize changed other parts: {}", r.short());
    let n = r.n.unwrap_or_default();
    ensure!(n.len() == a.len(), "number of normals changed from {} to {}", a.len(), n.len());
    for (i, (x, y)) in a.iter().zip(&n).enumerate() {
        let mag = ((x.0 as f64).powi(2) + (x.1 as f64).powi(2) + (x.2 as f64).powi(2)).sqrt();
        if mag == 0.0 {
            ensure!(y.0 == 0.0 && y.1 == 0.0 && y.2 == 0.0, "normal {i}: zero became {y:?}");
            continue;
        }
        let w = (x.0 as f64 / mag, x.1 as f64 / mag, x.2 as f64 / mag);
        let ok = |a: f32, b: f64| (a as f64 - b).abs() <= 6e-7;
        ensure!(ok(y.0, w.0) && ok(y.1, w.1) && ok(y.2, w.2), "normal {i}: {x:?} became {y:?}, expected {w:?}");
    }
    ctx.compared();
    Ok(())
}
pub fn c23() -> Vec<Family> {
    vec![
        dfs("components", "every triple of components over magnitudes from denormal to the largest float, both signs", |ctx| {
            let vals = norm_values(ctx.thorough);
            let (x, y) = (ctx.pick(&vals), ctx.pick(&vals));
            let a: Vec<V3> = vals.iter().map(|z| (x, y, *z)).collect();
            ctx.note(|| format!("x {x} y {y}, {} values of z", a.len()));
            check_normalize(ctx, a)
        }),
        dfs("arrays", "arrays of 0..=4 normals over six kinds of normals", |ctx| {
            let n = ctx.choose(if ctx.thorough { 7 } else { 6 });
            let kinds = [(0.0, 0.0, 0.0), (0.0, 1.0, 0.0), (3.0, 4.0, 12.0), (1e-25, 1e-25, 0.0), (1e25, -1e25, 1e25), (-0.0, 0.0, -2.0)];
            let a: Vec<V3> = (0..n).map(|_| ctx.pick(&kinds)).collect();
            ctx.note(|| format!("{a:?}"));
            check_normalize(ctx, a)
        }),
        dfs("lengths", "arrays of every length up to 600 and of lengths around every power of two up to 2^17 (2^20 thorough)", |ctx| {
            let c = many(ctx.thorough);
            let n = ctx.choose(600 + c.len());
            let n = if n < 600 { n } else { c[n - 600] };
            let k = ctx.choose(2);
            let a: Vec<V3> = (0..n).map(|i| { let d = dir((i % 90) as f64, (i * 13 % 91) as f64, i % 8); let s = if k == 0 { 1.0 + i as f32 } else { 1e-3 * (1 + i % 7) as f32 }; (d.0 * s, d.1 * s, d.2 * s) }).collect();
            ctx.note(|| format!("{n} normals"));
            check_normalize(ctx, a)
        }),
        dfs("scales", "14 directions at every power of two from the smallest to the largest float, four mantissas", |ctx| {
            let d = ctx.pick(&[(1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 1.0, 1.0), (-1.0, 1.0, 0.0), (0.6, 0.0, 0.8), (0.0, 0.28, -0.96), (1.0, 1e-3, 0.0), (-1e-3, 1.0, 1e-4), (0.1, 0.2, 0.97), (1.0, 2.0, -3.0), (1e-6, 1.0, 1.0), (-0.48, 0.6, 0.64), (1e-7, 0.0, -1.0f64)]);
            let l = (d.0 * d.0 + d.1 * d.1 + d.2 * d.2).sqrt();
            let e = -149 + ctx.choose(276) as i32;
            let a: Vec<V3> = [1.0, 1.0 + f64::from(f32::EPSILON), 1.5, 2.0 - f64::from(f32::EPSILON)]
                .iter()
                .map(|m| {
                    let k = m * 2f64.powi(e) / l;
                    ((d.0 * k) as f32, (d.1 * k) as f32, (d.2 * k) as f32)
                })
                .collect();
            ctx.note(|| format!("direction {d:?} times 2^{e}"));
            check_normalize(ctx, a)
        }),
        dfs("near_unit", "14 directions, lengths differing from 1 by every multiple of a power of two from 2^-22 to 2^-1", |ctx| {
            let (i, j, k) = (ctx.choose(90) as f64, ctx.choose(91) as f64, ctx.choose(8));
            let d = dir(i, j, k);
            let mut a: Vec<V3> = vec![];
            for e in 1..23 {
                for m in [-1.5f32, -1.0, 1.0, 1.25, 1.5] {
                    let s = 1.0 + m * 2f32.powi(-e);
                    a.push((d.0 * s, d.1 * s, d.2 * s));
                }
            }
            ctx.note(|| format!("direction {d:?}"));
            check_normalize(ctx, a)
        }),
        dfs("no_normals", "meshes without normals, all presence states of the other parts", |ctx| {
            let f: Vec<bool> = (0..8).map(|_| ctx.flag()).collect();
            let s = Snap { v: f[0].then(|| vdata(2, false)), u: f[1].then(|| udata(2, false)), t: f[2].then(|| vec![((3.0, 0.0, 0.0), 1.0)]), vt: f[3].then(|| vec![0]), nt: f[4].then(|| vec![0, 1]), ut: f[5].then(|| vec![1]), tt: f[6].then(|| vec![0]), n: f[7].then(Vec::new), c: vec![] };
            let mut m = s.build();
            ctx.state(s.hash());
            ctx.step();
            call("normalize", &mut m, |m| m.normalize())?;
            let r = Snap::of(&m, &[]);
            ensure!(r == s, "normalize changed a mesh without normals from {} to {}", s.short(), r.short());
            ctx.compared();
            Ok(())
        }),
    ]
}
