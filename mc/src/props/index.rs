//! C01: index arrays survive saving and loading exactly.
use crate::engine::*;
use crate::ensure;
use crate::util::*;

pub fn tops() -> Vec<u32> {
    let mut v = vec![0u32];
    for b in 1..=32u32 {
        let t = ((1u64 << b) - 1) as u32;
        v.push(t - 1);
        v.push(t);
        if b < 32 {
            v.push(t + 1);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x <= TOP);
    v
}
const KINDS: [&str; 4] = ["vertex", "normal", "uv", "tangent"];
fn put(s: &mut Snap, kind: usize, a: Vec<u32>) {
    match kind {
        0 => s.vt = Some(a),
        1 => s.nt = Some(a),
        2 => s.ut = Some(a),
        _ => s.tt = Some(a),
    }
}
fn check(ctx: &mut Ctx, s: Snap) -> R {
    ctx.state(s.hash());
    let (m, _) = round(ctx, s.build(), &DEF.make())?;
    let r = Snap::of(&m, &[]);
    diff_idx("vertex indices", &s.vt, &r.vt)?;
    diff_idx("normal indices", &s.nt, &r.nt)?;
    diff_idx("uv indices", &s.ut, &r.ut)?;
    diff_idx("tangent indices", &s.tt, &r.tt)?;
    ensure!(r.v.is_none() == s.v.is_none() && r.n.is_none() && r.u.is_none() && r.t.is_none(), "data arrays appeared or vanished");
    ctx.compared();
    Ok(())
}
pub fn families() -> Vec<Family> {
    let mut short_lens: Vec<usize> = (0..=18).collect();
    short_lens.extend([31, 32, 33, 63, 64, 65, 89, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025]);
    vec![
        dfs(
            "single",
            "one index array: 4 kinds x 12 value patterns x all maxima 2^b-2, 2^b-1, 2^b (b=1..32) x 36 lengths",
            move |ctx| {
                let tops = tops();
                let kind = ctx.choose(4);
                let top = ctx.pick(&tops);
                let pat = ctx.choose(IDX_PATTERNS);
                let len = ctx.pick(&short_lens);
                ctx.note(|| format!("{} indices: pattern {pat}, maximum {top}, length {len}", KINDS[kind]));
                let mut s = Snap::default();
                put(&mut s, kind, idx_pattern(pat, len, top));
                check(ctx, s)
            },
        ),
        dfs("lengths", "every length 0..=600 x 12 patterns x 8 maxima x 4 kinds (2 kinds in quick)", |ctx| {
            let kind = if ctx.thorough { ctx.choose(4) } else { ctx.choose(2) };
            let len = ctx.choose(601);
            let top = ctx.pick(&[1u32, 5, 255, 1000, 65535, 65536, 1 << 31, u32::MAX].map(t));
            let pat = ctx.choose(IDX_PATTERNS);
            ctx.note(|| format!("{} indices: pattern {pat}, maximum {top}, length {len}", KINDS[kind]));
            let mut s = Snap::default();
            put(&mut s, kind, idx_pattern(pat, len, top));
            check(ctx, s)
        }),
        dfs("long", "lengths around 2^12, 2^16, 2^17 (2^20 in thorough) x 12 patterns x 6 maxima", |ctx| {
            let mut l = vec![4095usize, 4096, 4097, 65535, 65536, 65537, (1 << 17) + 1];
            if ctx.thorough {
                l.extend([1 << 20, (1 << 20) + 1])
            }
            let len = ctx.pick(&l);
            let top = ctx.pick(&[0u32, 1, 300, 70_000, 1 << 24, u32::MAX].map(t));
            let pat = ctx.choose(IDX_PATTERNS);
            ctx.note(|| format!("pattern {pat}, maximum {top}, length {len}"));
            let mut s = Snap::default();
            put(&mut s, ctx.choose(2), idx_pattern(pat, len, top));
            check(ctx, s)
        }),
        dfs(
            "small",
            "every array of up to 4 (thorough 5) entries over {0,1,2,3,2^31,2^32-1}, 4 kinds",
            |ctx| {
                let kind = ctx.choose(4);
                let n = ctx.choose(if ctx.thorough { 6 } else { 5 });
                let a: Vec<u32> = (0..n).map(|_| ctx.pick(&[0, 1, 2, 3, 1 << 31, u32::MAX].map(t))).collect();
                ctx.note(|| format!("{} indices {a:?}", KINDS[kind]));
                let mut s = Snap::default();
                put(&mut s, kind, a);
                check(ctx, s)
            },
        ),
        dfs(
            "equality",
            "four arrays, each absent / empty / A / B / prefix of A / A with a changed end / A with a changed start, over 6 base arrays",
            |ctx| {
                let base = ctx.choose(6);
                let a = match base {
                    0 => vec![0, 1, 2],
                    1 => vec![7, 7, 7, 3, 3, 3],
                    2 => idx_pattern(0, 303, 302),
                    3 => idx_pattern(5, 240, TOP),
                    4 => idx_pattern(6, 301, t(1 << 20)),
                    _ => vec![TOP],
                };
                let mut s = Snap::default();
                let mut d = vec![];
                for k in 0..4 {
                    let c = ctx.choose(7);
                    d.push(c);
                    let x = match c {
                        0 => continue,
                        1 => vec![],
                        2 => a.clone(),
                        3 => a.iter().rev().map(|x| x / 2).collect(),
                        4 => a[..a.len() - 1].to_vec(),
                        5 => {
                            let mut b = a.clone();
                            *b.last_mut().unwrap() ^= 1;
                            b
                        }
                        _ => {
                            let mut b = a.clone();
                            b[0] ^= 1;
                            b
                        }
                    };
                    put(&mut s, k, x);
                }
                ctx.note(|| format!("base {base}, classes of vertex/normal/uv/tangent arrays {d:?}"));
                check(ctx, s)
            },
        ),
        dfs(
            "blocks",
            "concatenations of 2 and 3 blocks (base value x span x length), driving the recursive splitting",
            |ctx| {
                let k = 2 + ctx.choose(2);
                let mut a = vec![];
                let mut d = vec![];
                for _ in 0..k {
                    let base = ctx.pick(&[0u32, 200, 1 << 16, 1 << 31].map(|x| if x < TOP { x } else { TOP / 2 }));
                    let span = ctx.pick(&[1u32, 3, 250]);
                    let len = if k == 2 || ctx.thorough { ctx.pick(&[1usize, 20, 90, 300]) } else { ctx.pick(&[2usize, 120]) };
                    d.push((base, span, len));
                    a.extend((0..len as u32).map(|i| base + (i * 7) % span));
                }
                ctx.note(|| format!("blocks (base, span, length) {d:?}"));
                let mut s = Snap::default();
                // shared when the array is in all three places
                if ctx.flag() {
                    s.nt = Some(a.clone());
                    s.ut = Some(a.clone());
                }
                s.vt = Some(a);
                check(ctx, s)
            },
        ),
        dfs(
            "spikes",
            "an otherwise small array of 130 entries with one or two spikes at every pair of positions (step 3) and 3 heights",
            |ctx| {
                let n = 130usize;
                let i = ctx.choose(n);
                let j = ctx.choose(n / 3 + 1) * 3;
                let h = ctx.pick(&[17u32, 70_000, u32::MAX].map(t));
                let floor = ctx.pick(&[0u32, 16]);
                let mut a: Vec<u32> = (0..n as u32).map(|x| floor + x % 2).collect();
                a[i] = h;
                if j < n {
                    a[j] = h - 1;
                }
                ctx.note(|| format!("spikes of {h} at {i} and {j}, floor {floor}"));
                let mut s = Snap::default();
                s.vt = Some(a);
                check(ctx, s)
            },
        ),
        dfs(
            "far_spikes",
            "long arrays with one or two spikes or a run of large entries at the start, in the middle or at the end, own and shared",
            |ctx| {
                let len = ctx.pick(&[300usize, 4095, 4097, 5000, 8193, 12_289, 65_537, 70_001, 131_073]);
                let h = ctx.pick(&[4u32, 17, 300, 70_000, u32::MAX].map(t));
                let floor = ctx.pick(&[0u32, 3]);
                let at = ctx.choose(9);
                let i = [0, 1, len / 4, len / 2, len - 4097.min(len), len - 4096.min(len), len - 2, len - 1, 4096 % len][at];
                let run = ctx.pick(&[1usize, 2, 40]);
                let how = ctx.choose(4);
                let mut a: Vec<u32> = (0..len as u32).map(|x| floor + x % 3).collect();
                for (k, x) in a[i..(i + run).min(len)].iter_mut().enumerate() {
                    *x = h - k as u32 % 2;
                }
                ctx.note(|| format!("{len} entries, {run} large ones of {h} at {i}, floor {floor}, sharing {how}"));
                let mut s = Snap::default();
                if how > 0 {
                    s.nt = Some(a.clone());
                }
                if how > 1 {
                    s.ut = Some(a.clone());
                }
                if how > 2 {
                    s.tt = Some(a.clone());
                }
                s.vt = Some(a);
                check(ctx, s)
            },
        ),
        dfs(
            "almost_equal",
            "two to four arrays of 40 to 131073 entries, equal but for one entry (changed by one, by a half, or set to the maximum), two swapped entries or two changed so that the sum stays, at 20 positions",
            |ctx| {
                let len = ctx.pick(&[40usize, 300, 1025, 4097, 8193, 12_300, 65_537, 131_073]);
                if len > 70_000 && !ctx.thorough && ctx.choose(2) == 0 {
                    return Ok(());
                }
                let top = ctx.pick(&[299u32, 65_535, 1 << 20].map(t));
                // which arrays there are, and which of them differ
                let (here, changed) = ctx.pick(&[(0b11, 0b10), (0b11, 0b01), (0b101, 0b100), (0b110, 0b100), (0b1001, 0b1000), (0b111, 0b001), (0b111, 0b010), (0b111, 0b100), (0b1111, 0b1010)]);
                let at = ctx.choose(20);
                let i = match at {
                    0..=4 => at,
                    5..=9 => len - 1 - (at - 5),
                    10..=16 => len * (at - 9) / 8,
                    17 => len.min(4096) - 1,
                    18 => (len - 4096.min(len)).max(4),
                    _ => len * 2 / 3,
                }
                .min(len - 1);
                let how = ctx.choose(5);
                let a: Vec<u32> = (0..len as u64).map(|i| (i * 2_654_435_761 % (top as u64 + 1)) as u32).collect();
                let mut b = a.clone();
                let j = (i + len / 3) % len;
                match how {
                    0 => b[i] ^= 1,
                    1 => b[i] ^= top / 2 + 1,
                    2 => b[i] = if b[i] == top { 0 } else { top },
                    3 => b.swap(i, j),
                    _ if b[i] < top && b[j] > 0 => {
                        b[i] += 1;
                        b[j] -= 1;
                    }
                    _ => return Ok(()),
                }
                ctx.note(|| format!("{len} entries up to {top}, arrays {here:04b}, differing {changed:04b} at {i} in way {how}"));
                let mut s = Snap::default();
                for k in 0..4 {
                    if here >> k & 1 == 1 {
                        put(&mut s, k, if changed >> k & 1 == 1 { b.clone() } else { a.clone() });
                    }
                }
                check(ctx, s)
            },
        ),
        dfs(
            "with_vertices",
            "index arrays in meshes which also carry the data arrays: lengths 0..=40 (also not multiples of 3), degenerate triangles, empty data with empty indices",
            |ctx| {
                let nv = ctx.choose(5);
                let len = if nv == 0 { 0 } else { ctx.choose(41) };
                let pat = ctx.choose(IDX_PATTERNS);
                let same = ctx.flag();
                let a = idx_pattern(pat, len, nv.max(1) as u32 - 1);
                ctx.note(|| format!("{nv} vertices, pattern {pat}, length {len}, equal arrays {same}"));
                let s = Snap {
                    v: Some((0..nv).map(|i| (i as f32, (i * i) as f32, -(i as f32))).collect()),
                    nt: same.then(|| a.clone()),
                    ut: same.then(|| a.clone()),
                    vt: Some(a),
                    ..Default::default()
                };
                check(ctx, s)
            },
        ),
    ]
}
