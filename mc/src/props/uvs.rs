//! C04: UV coordinates survive within the requested pixel deviation.
use crate::engine::*;
use crate::ensure;
use crate::util::*;

fn check(ctx: &mut Ctx, u: Vec<V2>, res: f32, dev: f32) -> R {
    let s = Snap { u: Some(u), ..Default::default() };
    ctx.state(s.hash().u((res.to_bits() as u64) << 32 | dev.to_bits() as u64));
    let (m, _) = round(ctx, s.build(), &Prec { u: (res, dev), ..DEF }.make())?;
    let r = Snap::of(&m, &[]);
    let (a, b) = (s.u.unwrap(), r.u.unwrap_or_default());
    ensure!(a.len() == b.len(), "{} UVs became {}", a.len(), b.len());
    let tol = dev as f64 / res as f64 + 2f64.powi(-22);
    for i in 0..a.len() {
        for (x, y, n) in [(a[i].0, b[i].0, "u"), (a[i].1, b[i].1, "v")] {
            let e = (x as f64 - y as f64).abs();
            ensure!(e <= tol, "UV {i}: {n} {x} became {y}, off by {e:e}, allowed {tol:e}");
            ensure!((0.0..=1.0).contains(&y), "UV {i}: {n} {x} became {y}, outside of 0..=1");
        }
    }
    ctx.compared();
    Ok(())
}
fn settings(thorough: bool) -> Vec<(f32, f32)> {
    let mut v = vec![(1024.0, 0.1), (1.0, 1.0), (512.0, 2000.0), (1.0, 0.6), (4096.0, 0.001), (3.0, 1.0), (1000.0, 0.3), (65536.0, 1e-6), (100.0, 50.0), (8192.0, 4.0)];
    for b in 0..=(if thorough { 60 } else { 40 }) {
        v.push((1024.0, 1024.0 * 2f32.powi(-b)));
        if thorough {
            v.push((1000.0, 1001.0 * 2f32.powi(-b)));
            v.push((2048.0, 2047.0 * 2f32.powi(-b)));
        }
    }
    v
}
pub fn families() -> Vec<Family> {
    vec![
        dfs("cells", "every quantisation cell (start, just below and above its middle, end) for every setting of up to 10 (thorough 12) bits, next to 0 and 1, for all settings", |ctx| {
            let (res, dev) = *ctx.pick_ref(&settings(ctx.thorough));
            let bits = (res as f64 / dev as f64).log2().ceil().max(0.0) as u32;
            let lim = if ctx.thorough { 12 } else { 10 };
            let mut vals: Vec<f32> = vec![];
            let n = 1u64 << bits.min(52);
            let cells: Vec<u64> = if bits <= lim {
                (0..n).collect()
            } else {
                (0..200).chain((0..200).map(|i| n / 2 - 100 + i)).chain((0..200).map(|i| n - 1 - i)).chain((1..200).map(|i| n / 200 * i)).collect()
            };
            for c in cells {
                for f in [0.0, 0.25, 0.499, 0.5, 0.501, 0.99] {
                    vals.push(((c as f64 + f) / (n - 1).max(1) as f64).clamp(0.0, 1.0) as f32);
                }
            }
            vals.extend([0.0, -0.0, 1.0, 0.5, f32::MIN_POSITIVE, 1e-45, 1.0 - f32::EPSILON / 2.0, 1e-9]);
            let swap = ctx.flag();
            let k = vals.len();
            ctx.note(|| format!("resolution {res} deviation {dev}: {k} values"));
            let u = (0..k).map(|i| if swap { (vals[k - 1 - i], vals[i]) } else { (vals[i], vals[(i * 7 + 3) % k]) }).collect();
            check(ctx, u, res, dev)
        }),
        dfs("lengths", "arrays of 0..=130 UVs for every setting (bit alignment of the packed data)", |ctx| {
            let (res, dev) = *ctx.pick_ref(&settings(ctx.thorough));
            let n = ctx.choose(131);
            ctx.note(|| format!("{n} UVs, resolution {res} deviation {dev}"));
            let u = (0..n).map(|i| ((i * 37 % 101) as f32 / 100.0, (i * 53 % 97) as f32 / 96.0)).collect();
            check(ctx, u, res, dev)
        }),
        dfs("many", "hundreds to 131073 UVs (thorough: 1048577) at all counts around powers of two, 5 settings", |ctx| {
            let (res, dev) = ctx.pick(&[(1024.0, 0.1), (2.0, 1.0), (1.0, 1.0), (256.0, 0.01), (1e6, 0.001)]);
            let n = ctx.pick(&many(ctx.thorough));
            ctx.note(|| format!("{n} UVs, resolution {res} deviation {dev}"));
            let u = (0..n).map(|i| ((i * 37 % 1009) as f32 / 1008.0, (i * 53 % 499) as f32 / 498.0)).collect();
            check(ctx, u, res, dev)
        }),
        dfs("corners", "every array of up to 3 UVs over {0, 1, 0.5, 1/3, 1-2^-24, 2^-24}, all settings of a list", |ctx| {
            let (res, dev) = ctx.pick(&[(1024.0, 0.1), (1.0, 1.0), (1.0, 0.5), (4.0, 1.0), (256.0, 256.0), (1e6, 0.001), (512.0, 1e-7)]);
            let n = 1 + ctx.choose(if ctx.thorough { 3 } else { 2 });
            let vals = [0.0f32, 1.0, 0.5, 1.0 / 3.0, 1.0 - 2f32.powi(-24), 2f32.powi(-24)];
            let u: Vec<V2> = (0..n).map(|_| (ctx.pick(&vals), ctx.pick(&vals))).collect();
            ctx.note(|| format!("{u:?} resolution {res} deviation {dev}"));
            check(ctx, u, res, dev)
        }),
    ]
}
