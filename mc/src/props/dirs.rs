//! C03: normals and tangents keep direction and handedness within the setting.
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use tmf::*;

fn az(v: V3) -> f64 {
    (v.0.abs() as f64).atan2(v.1.abs() as f64).to_degrees()
}
fn angle(a: V3, b: V3) -> f64 {
    let (a, b) = ([a.0 as f64, a.1 as f64, a.2 as f64], [b.0 as f64, b.1 as f64, b.2 as f64]);
    let cross = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let c = cross.iter().map(|x| x * x).sum::<f64>().sqrt();
    let d: f64 = (0..3).map(|i| a[i] * b[i]).sum();
    c.atan2(d).to_degrees()
}
/// Rounding allowance for azimuths in degrees. Single precision asin near one loses up to 0.03 degrees; the
/// fast_trig approximation (sine within 0.00034) up to 1.6 degrees where the sine is near one.
fn az_slack(az: f64) -> f64 {
    if FULL {
        // |d asin(s)| for an error of 0.00034 in s
        let s = az.to_radians().sin();
        let lo = (s - 0.00034).max(0.0).asin().to_degrees();
        let hi = (s + 0.00034).min(1.0).asin().to_degrees();
        0.05 + (az - lo).max(hi - az).max(if s + 0.00034 >= 1.0 { 1.6 } else { 0.0 })
    } else {
        0.03
    }
}
pub fn compare_dir(o: V3, r: V3, d: f64) -> R {
    let len = ((r.0 as f64).powi(2) + (r.1 as f64).powi(2) + (r.2 as f64).powi(2)).sqrt();
    ensure!(len.is_finite() && (len - 1.0).abs() <= 2e-6, "{o:?} became {r:?} of length {len}");
    for (a, b, n) in [(o.0, r.0, "x"), (o.1, r.1, "y"), (o.2, r.2, "z")] {
        // (the cosine of a right angle is not exactly zero in floating point)
        let flipped = (a > 0.0 && b < 0.0) || (a < 0.0 && b > 0.0);
        ensure!(!flipped || b.abs() <= 1e-6, "{o:?} became {r:?}: sign of {n} changed");
    }
    let olen = ((o.0 as f64).powi(2) + (o.1 as f64).powi(2) + (o.2 as f64).powi(2)).sqrt();
    // what verification lets through may deviate from unit length by 0.001
    let lslack = (olen - 1.0).abs();
    let zb = if d < 89.99 { d / (90.0 - d) } else { f64::INFINITY };
    let dz = (o.2.abs() as f64 - r.2.abs() as f64).abs();
    ensure!(dz <= zb + 1e-6 + lslack, "{o:?} became {r:?}: |z| changed by {dz:e}, allowed {zb:e} for {d} degrees");
    // the azimuth is meaningful where the vector has an xy part after loading
    let (oxy, rxy) = ((o.0 as f64).hypot(o.1 as f64), (r.0 as f64).hypot(r.1 as f64));
    if oxy > 1e-3 && rxy > 1e-3 {
        let da = (az(o) - az(r)).abs();
        ensure!(da <= d + az_slack(az(o)), "{o:?} became {r:?}: azimuth changed by {da} degrees, allowed {d}");
        if oxy >= 0.5 && d <= 8.0 && (FULL || d >= 0.05) {
            let a = angle(o, r);
            ensure!(
                a <= d + az_slack(az(o)) + 0.06 * lslack / 0.001,
                "{o:?} became {r:?}: angle {a} degrees, allowed {d}"
            );
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
pub enum P {
    Deg(f32),
    Rad(f32),
}
impl P {
    fn deg(self) -> f64 {
        match self {
            P::Deg(d) => d as f64,
            P::Rad(r) => (r as f64).to_degrees(),
        }
    }
    fn info(self) -> TMFPrecisionInfo {
        let (n, t) = match self {
            P::Deg(d) => (NormalPrecisionMode::from_deg_dev(d.up()), TangentPrecisionMode::from_deg_dev(d.up())),
            P::Rad(r) => (NormalPrecisionMode::from_rad_dev(r.up()), TangentPrecisionMode::from_rad_dev(r.up())),
        };
        TMFPrecisionInfo { normal_precision: n, tangent_prec: t, ..TMFPrecisionInfo::default() }
    }
}
fn check(ctx: &mut Ctx, s: Snap, p: P) -> R {
    ctx.state(s.hash().u(p.deg().to_bits()));
    let (m, _) = round(ctx, s.build(), &p.info())?;
    let r = Snap::of(&m, &[]);
    if let Some(n) = &s.n {
        let w = match &r.n {
            Some(w) => w,
            None => return fail("normals vanished"),
        };
        ensure!(n.len() == w.len(), "{} normals became {}", n.len(), w.len());
        for i in 0..n.len() {
            compare_dir(n[i], w[i], p.deg()).map_err(|mut f| {
                f.msg = format!("normal {i}: {}", f.msg);
                f
            })?;
        }
    }
    if let Some(n) = &s.t {
        let w = match &r.t {
            Some(w) => w,
            None => return fail("tangents vanished"),
        };
        ensure!(n.len() == w.len(), "{} tangents became {}", n.len(), w.len());
        for i in 0..n.len() {
            compare_dir(n[i].0, w[i].0, p.deg()).map_err(|mut f| {
                f.msg = format!("tangent {i}: {}", f.msg);
                f
            })?;
            let want = if n[i].1.is_sign_negative() { -1.0 } else { 1.0 };
            ensure!(w[i].1 == want, "tangent {i}: handedness {} became {}", n[i].1, w[i].1);
        }
    }
    ctx.compared();
    Ok(())
}
/// All settings: exact powers of two of 90 degrees, next to them, documented ones; radians.
fn precs(thorough: bool) -> Vec<P> {
    let mut v = vec![P::Deg(90.0), P::Deg(1.0), P::Deg(0.01), P::Deg(5.0), P::Deg(0.1), P::Deg(7.3), P::Deg(33.0), P::Deg(60.0)];
    v.extend([P::Rad(0.01), P::Rad(0.05), P::Rad(1.5), P::Rad(0.7), P::Rad(0.001), P::Rad(std::f32::consts::FRAC_PI_2)]);
    for b in 1..=(if thorough { 22 } else { 14 }) {
        let d = 90.0 / (1u32 << b) as f32;
        v.extend([P::Deg(d), P::Deg(d * 1.01), P::Deg(d * 0.99)]);
    }
    v
}
fn hand(i: usize) -> f32 {
    [1.0, -1.0, 0.5, -3.0, 0.0, -0.0][i]
}
pub fn families() -> Vec<Family> {
    vec![
        dfs(
            "sphere",
            "settings (powers of two of 90 degrees, next to them, documented values, radians) x 8 octants x elevation 0..90 x azimuth 0..90 in steps",
            |ctx| {
                let p = *ctx.pick_ref(&precs(ctx.thorough));
                let oct = ctx.choose(8);
                let el = ctx.choose(if ctx.thorough { 61 } else { 31 }) as f64 * if ctx.thorough { 1.5 } else { 3.0 };
                // one execution per row of azimuths
                let n = if ctx.thorough { 361 } else { 91 };
                ctx.note(|| format!("setting {p:?} octant {oct} elevation {el} with {n} azimuths"));
                let v: Vec<V3> = (0..n).map(|i| dir(i as f64 * 90.0 / (n - 1) as f64, el, oct)).collect();
                let t = v.iter().enumerate().map(|(i, x)| (*x, hand(i % 6))).collect();
                check(ctx, Snap { n: Some(v), t: Some(t), ..Default::default() }, p)
            },
        ),
        dfs(
            "cells",
            "vectors at the centre, the ends and the middle between neighbours of every quantisation cell for settings of up to 8 (thorough 10) bits",
            |ctx| {
                let b = 1 + ctx.choose(if ctx.thorough { 10 } else { 8 });
                let d = 90.0 / (1u32 << b) as f32 * ctx.pick(&[1.0f32, 1.4]);
                let n = 1usize << b;
                let zi = ctx.choose(n);
                let frac = ctx.pick(&[0.0f64, 0.499, 0.501, 0.98]);
                let z = ((zi as f64 + frac) / (n - 1) as f64).min(1.0);
                let oct = ctx.pick(&[0usize, 7]);
                let v: Vec<V3> = (0..n)
                    .flat_map(|i| {
                        [0.0, 0.49, 0.51, 0.97].map(|f| {
                            let a = ((i as f64 + f) / (n - 1) as f64).min(1.0) * 90.0;
                            dir(a, z.asin().to_degrees(), oct)
                        })
                    })
                    .collect();
                ctx.note(|| format!("setting {d} degrees, z cell {zi}+{frac} of {n}, octant {oct}"));
                let t = v.iter().enumerate().map(|(i, x)| (*x, hand(i % 6))).collect();
                check(ctx, Snap { n: Some(v), t: Some(t), ..Default::default() }, P::Deg(d))
            },
        ),
        dfs(
            "special",
            "axis vectors, vectors with one zero component (either sign of zero), vectors off unit length by up to 0.00099, vectors next to an axis; every setting; handedness of either sign and signed zero",
            |ctx| {
                let p = *ctx.pick_ref(&precs(true));
                let mut all: Vec<V3> = vec![];
                for s in [1.0f32, -1.0] {
                    for zero in [0.0f32, -0.0] {
                        all.extend([(s, zero, zero), (zero, s, zero), (zero, zero, s)]);
                        let h = s * std::f32::consts::FRAC_1_SQRT_2;
                        all.extend([(h, -h, zero), (h, zero, h), (zero, h, h), (h, h, zero), (zero, -h, h)]);
                    }
                    for e in [1e-3f64, 1e-5, 1e-7, 1e-20] {
                        all.extend([unit(1.0, e, 0.0), unit(e, 1.0, 0.0), unit(e, e, 1.0), unit(1.0, 1.0, e), unit(-e, 0.0, -1.0)].map(|v| (v.0 * s, v.1 * s, v.2 * s)));
                    }
                }
                let i = ctx.choose(all.len());
                let sc = ctx.pick(&[1.0f32, 1.00099, 0.99901, 1.0001, 0.9999]);
                let v = (all[i].0 * sc, all[i].1 * sc, all[i].2 * sc);
                let h = hand(ctx.choose(6));
                ctx.note(|| format!("{v:?} handedness {h} setting {p:?}"));
                check(ctx, Snap { n: Some(vec![v]), t: Some(vec![(v, h)]), ..Default::default() }, p)
            },
        ),
        dfs(
            "arrays",
            "arrays of 0..=70 vectors, normals and tangents of different lengths in one mesh, settings of 1..=20 bits (bit alignment of the packed data)",
            |ctx| {
                let n = ctx.choose(71);
                let b = 1 + ctx.choose(20);
                let k = ctx.pick(&[0usize, 1, 13]);
                let p = P::Deg(90.0 / (1u32 << b) as f32);
                let f = |i: usize| dir((i * 37 % 91) as f64, (i * 53 % 61) as f64, i % 8);
                ctx.note(|| format!("{n} normals, {} tangents, setting {p:?}", n + k));
                let s = Snap {
                    n: Some((0..n).map(f).collect()),
                    t: Some((0..n + k).map(|i| (f(i + 3), hand(i * 5 % 6))).collect()),
                    ..Default::default()
                };
                check(ctx, s, p)
            },
        ),
        dfs(
            "many",
            "hundreds to 131073 vectors (thorough: 1048577) at all counts around powers of two, normals and tangents, alone and together, 3 settings",
            |ctx| {
                let n = ctx.pick(&many(ctx.thorough));
                let p = ctx.pick(&[P::Deg(1.0), P::Deg(0.01), P::Deg(45.0)]);
                let which = ctx.choose(3);
                let f = |i: usize| dir((i * 37 % 91) as f64, (i * 53 % 61) as f64, i % 8);
                ctx.note(|| format!("{n} vectors, which {which}, setting {p:?}"));
                let s = Snap {
                    n: (which != 1).then(|| (0..n).map(f).collect()),
                    t: (which != 0).then(|| (0..n).map(|i| (f(i + 3), hand(i * 5 % 6))).collect()),
                    ..Default::default()
                };
                check(ctx, s, p)
            },
        ),
        dfs(
            "documented_angle",
            "the documented claim itself (angle between stored and original vector at most the setting) next to the z poles and the equator for the documented settings",
            |ctx| {
                let d = ctx.pick(&[1.0f32, 0.01, 5.0]);
                let el = ctx.pick(&[0.0f64, 30.0, 60.0, 80.0, 85.0, 87.0, 88.0, 89.0]);
                let a = ctx.pick(&[0.0f64, 30.0]);
                let v = dir(a, el, 0);
                ctx.note(|| format!("setting {d} degrees, normal {v:?} (elevation {el}, azimuth {a})"));
                let (m, _) = round(ctx, Snap { n: Some(vec![v]), ..Default::default() }.build(), &P::Deg(d).info())?;
                let r = m.get_normals().map(|x| x.to_vec()).unwrap_or_default();
                ensure!(r.len() == 1, "normal vanished");
                compare_dir(v, r[0].down(), d as f64)?;
                ctx.compared();
                let g = angle(v, r[0].down());
                if g > d as f64 + az_slack(az(v)) * v.0.hypot(v.1) as f64 {
                    return ctx.known(
                        format!("angle-d{d}-el{el}-az{a}"),
                        format!("normal {v:?} saved with {d} degrees comes back {g:.3} degrees off"),
                    );
                }
                Ok(())
            },
        ),
    ]
}
