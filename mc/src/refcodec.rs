//! Independent codec of the TMF file format (0.1 and 0.2 layouts), written from the specification of the
//! format and sharing no code with the crate.  Used as an oracle and to lay files out by hand.
use crate::util::{Cd, Snap};

pub const INVALID: u16 = 0;
pub const VERTEX: u16 = 1;
pub const VTRI: u16 = 2;
pub const NORMAL: u16 = 3;
pub const NTRI: u16 = 4;
pub const UV: u16 = 5;
pub const UTRI: u16 = 6;
pub const TANGENT: u16 = 9;
pub const TTRI: u16 = 10;
pub const CINDEX: u16 = 15;
pub const CFLOAT: u16 = 16;
pub const CRGBA: u16 = 23;
pub const CINT: u16 = 24;
pub const SHARED: u16 = 25;

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub ty: u16,
    pub comp: u8,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FileMesh {
    pub name: Vec<u8>,
    pub segs: Vec<Seg>,
}
#[derive(Default)]
pub struct BitW {
    pub out: Vec<u8>,
    n: u8,
}
impl BitW {
    pub fn put(&mut self, bits: u8, v: u64) {
        for i in (0..bits).rev() {
            let b = (v >> i) & 1;
            if self.n == 0 {
                self.out.push(0);
            }
            *self.out.last_mut().unwrap() |= (b as u8) << (7 - self.n);
            self.n = (self.n + 1) % 8;
        }
    }
}
pub struct BitR<'a> {
    d: &'a [u8],
    pos: usize,
}
impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, pos: 0 }
    }
    pub fn get(&mut self, bits: u8) -> Result<u64, String> {
        let mut r = 0u64;
        for _ in 0..bits {
            let byte = self.d.get(self.pos / 8).ok_or("data of a segment too short")?;
            r = r << 1 | ((byte >> (7 - self.pos % 8)) & 1) as u64;
            self.pos += 1;
        }
        Ok(r)
    }
}
pub fn header(major: u16, minor: u16, min_major: u16, min_minor: u16, count: u32) -> Vec<u8> {
    let mut o = b"TMF".to_vec();
    for v in [major, minor, min_major, min_minor] {
        o.extend(v.to_le_bytes());
    }
    o.extend(count.to_le_bytes());
    o
}
pub fn seg_bytes(s: &Seg, v01: bool, len: usize) -> Vec<u8> {
    let mut o = vec![];
    if v01 {
        o.extend(s.ty.to_le_bytes());
        o.extend((len as u64).to_le_bytes());
    } else {
        o.push(s.ty as u8);
        o.extend((len as u32).to_le_bytes());
    }
    o.push(s.comp);
    o.extend(&s.data);
    o
}
pub fn mesh_bytes(m: &FileMesh, v01: bool) -> Vec<u8> {
    let mut o = (m.name.len() as u16).to_le_bytes().to_vec();
    o.extend(&m.name);
    o.extend((m.segs.len() as u16).to_le_bytes());
    for s in &m.segs {
        o.extend(seg_bytes(s, v01, s.data.len()));
    }
    o
}
pub fn build(v01: bool, meshes: &[FileMesh]) -> Vec<u8> {
    let mut o = if v01 { header(0, 1, 0, 1, meshes.len() as u32) } else { header(0, 2, 0, 2, meshes.len() as u32) };
    for m in meshes {
        o.extend(mesh_bytes(m, v01));
    }
    o
}
struct P<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.d.len() - self.p < n {
            return Err(format!("file ends at {} while {} more bytes are due", self.d.len(), n));
        }
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn f(&mut self) -> Result<f64, String> {
        Ok(f64::from_bits(self.u(8)?))
    }
}
pub struct Parsed {
    pub version: [u16; 4],
    pub v01: bool,
    pub meshes: Vec<FileMesh>,
}
pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = P { d, p: 0 };
    if p.take(3)? != b"TMF" {
        return Err("magic".into());
    }
    let mut version = [0; 4];
    for v in &mut version {
        *v = p.u(2)? as u16;
    }
    let v01 = version[3] < 2;
    let n = p.u(4)?;
    let mut meshes = vec![];
    for _ in 0..n {
        let l = p.u(2)? as usize;
        let name = p.take(l)?.to_vec();
        let c = p.u(2)?;
        let mut segs = vec![];
        for _ in 0..c {
            let ty = if v01 { p.u(2)? } else { p.u(1)? } as u16;
            let len = if v01 { p.u(8)? } else { p.u(4)? } as usize;
            let comp = p.u(1)? as u8;
            segs.push(Seg { ty, comp, data: p.take(len)?.to_vec() });
        }
        meshes.push(FileMesh { name, segs });
    }
    if p.p != d.len() {
        return Err(format!("{} bytes left after the last mesh", d.len() - p.p));
    }
    Ok(Parsed { version, v01, meshes })
}

// ---- payload builders -------------------------------------------------------------------------------
pub fn pl_vertices(min: [f64; 3], max: [f64; 3], bits: [u8; 3], codes: &[[u64; 3]]) -> Vec<u8> {
    let mut o = (codes.len() as u64).to_le_bytes().to_vec();
    for i in 0..3 {
        o.extend(min[i].to_le_bytes());
        o.extend(max[i].to_le_bytes());
    }
    o.extend(bits);
    let mut w = BitW::default();
    for c in codes {
        for i in 0..3 {
            w.put(bits[i], c[i]);
        }
    }
    o.extend(w.out);
    o
}
/// codes: (azimuth, z, sign bits x=1 y=2 z=4)
pub fn pl_normals(bits: u8, codes: &[(u64, u64, u8)]) -> Vec<u8> {
    let mut o = (codes.len() as u64).to_le_bytes().to_vec();
    o.push(bits);
    let mut w = BitW::default();
    for c in codes {
        for i in 0..3 {
            w.put(1, (c.2 >> i & 1) as u64);
        }
        w.put(bits, c.0);
        w.put(bits, c.1);
    }
    o.extend(w.out);
    o
}
/// sign bits: x=1 y=2 z=4 handedness=8
pub fn pl_tangents(bits: u8, codes: &[(u64, u64, u8)]) -> Vec<u8> {
    let mut o = (codes.len() as u64).to_le_bytes().to_vec();
    o.push(bits);
    let mut w = BitW::default();
    for c in codes {
        w.put(1, (c.2 >> 3 & 1) as u64);
        for i in 0..3 {
            w.put(1, (c.2 >> i & 1) as u64);
        }
        w.put(bits, c.0);
        w.put(bits, c.1);
    }
    o.extend(w.out);
    o
}
pub fn pl_uvs(bits: u8, codes: &[(u64, u64)]) -> Vec<u8> {
    let mut o = vec![bits];
    o.extend((codes.len() as u64).to_le_bytes());
    let mut w = BitW::default();
    for c in codes {
        w.put(bits, c.0);
        w.put(bits, c.1);
    }
    o.extend(w.out);
    o
}
pub fn pl_tris(v01: bool, bits: u8, min: u64, codes: &[u64]) -> Vec<u8> {
    let mut o = vec![bits];
    o.extend((codes.len() as u64).to_le_bytes());
    if !v01 {
        o.extend(min.to_le_bytes());
    }
    let mut w = BitW::default();
    for c in codes {
        w.put(bits, *c);
    }
    o.extend(w.out);
    o
}
pub fn pl_shared(v01: bool, mask: u8, bits: u8, min: u64, codes: &[u64]) -> Vec<u8> {
    let mut o = vec![mask];
    o.extend(pl_tris(v01, bits, min, codes));
    o
}
pub fn pl_name(name: &[u8], rest: Vec<u8>) -> Vec<u8> {
    let mut o = vec![name.len() as u8];
    o.extend(name);
    o.extend(rest);
    o
}
pub fn pl_cfloat(min: f64, max: f64, bits: u8, codes: &[u64]) -> Vec<u8> {
    let mut o = (codes.len() as u64).to_le_bytes().to_vec();
    o.extend(min.to_le_bytes());
    o.extend(max.to_le_bytes());
    o.push(bits);
    let mut w = BitW::default();
    for c in codes {
        w.put(bits, *c);
    }
    o.extend(w.out);
    o
}
pub fn pl_crgba(bits: u8, codes: &[[u64; 4]]) -> Vec<u8> {
    let mut o = (codes.len() as u64).to_le_bytes().to_vec();
    o.push(bits);
    let mut w = BitW::default();
    for c in codes {
        for k in c {
            w.put(bits, *k);
        }
    }
    o.extend(w.out);
    o
}

// ---- decoding ---------------------------------------------------------------------------------------
fn top(bits: u8) -> f64 {
    ((1u64 << bits) - 1) as f64
}
fn dec_dir(bits: u8, az: u64, z: u64, s: [bool; 3]) -> (f32, f32, f32) {
    let a = az as f64 / top(bits) * std::f64::consts::FRAC_PI_2;
    let zz = z as f64 / top(bits);
    let m = (1.0 - zz * zz).max(0.0).sqrt();
    let (mut x, mut y, mut z) = (a.sin() * m, a.cos() * m, zz);
    if s[0] {
        x = -x
    }
    if s[1] {
        y = -y
    }
    if s[2] {
        z = -z
    }
    (x as f32, y as f32, z as f32)
}
fn dec_tris(p: &mut P, v01: bool) -> Result<Vec<u32>, String> {
    let bits = p.u(1)? as u8;
    let n = p.u(8)?;
    let min = if v01 { 0 } else { p.u(8)? };
    let mut r = BitR::new(&p.d[p.p..]);
    (0..n)
        .map(|_| r.get(bits)?.checked_add(min).and_then(|i| u32::try_from(i).ok()).ok_or("index too large".to_string()))
        .collect()
}
fn app<T>(o: &mut Option<Vec<T>>, v: Vec<T>) {
    match o {
        Some(x) => x.extend(v),
        None => *o = Some(v),
    }
}
pub fn decode(m: &FileMesh, v01: bool) -> Result<Snap, String> {
    let mut s = Snap::default();
    for g in &m.segs {
        let mut p = P { d: &g.data, p: 0 };
        match g.ty {
            VERTEX => {
                let n = p.u(8)?;
                let mut b = [0.0; 6];
                for x in &mut b {
                    *x = p.f()?;
                }
                let bits = [p.u(1)? as u8, p.u(1)? as u8, p.u(1)? as u8];
                let mut r = BitR::new(&p.d[p.p..]);
                let mut v = vec![];
                for _ in 0..n {
                    let mut c = [0f32; 3];
                    for i in 0..3 {
                        let k = r.get(bits[i])? as f64 / top(bits[i]);
                        c[i] = (k * (b[2 * i + 1] - b[2 * i]) + b[2 * i]) as f32;
                    }
                    v.push((c[0], c[1], c[2]));
                }
                app(&mut s.v, v);
            }
            NORMAL => {
                let n = p.u(8)?;
                let bits = p.u(1)? as u8;
                let mut r = BitR::new(&p.d[p.p..]);
                let mut v = vec![];
                for _ in 0..n {
                    let sg = [r.get(1)? == 1, r.get(1)? == 1, r.get(1)? == 1];
                    let (a, z) = (r.get(bits)?, r.get(bits)?);
                    v.push(dec_dir(bits, a, z, sg));
                }
                app(&mut s.n, v);
            }
            TANGENT => {
                let n = p.u(8)?;
                let bits = p.u(1)? as u8;
                let mut r = BitR::new(&p.d[p.p..]);
                let mut v = vec![];
                for _ in 0..n {
                    let h = r.get(1)? == 1;
                    let sg = [r.get(1)? == 1, r.get(1)? == 1, r.get(1)? == 1];
                    let (a, z) = (r.get(bits)?, r.get(bits)?);
                    v.push((dec_dir(bits, a, z, sg), if h { -1.0 } else { 1.0 }));
                }
                app(&mut s.t, v);
            }
            UV => {
                let bits = p.u(1)? as u8;
                let n = p.u(8)?;
                let mut r = BitR::new(&p.d[p.p..]);
                let mut v = vec![];
                for _ in 0..n {
                    if bits == 0 {
                        v.push((0.0, 0.0));
                    } else {
                        let (a, b) = (r.get(bits)?, r.get(bits)?);
                        v.push(((a as f64 / top(bits)) as f32, (b as f64 / top(bits)) as f32));
                    }
                }
                app(&mut s.u, v);
            }
            VTRI => app(&mut s.vt, dec_tris(&mut p, v01)?),
            NTRI => app(&mut s.nt, dec_tris(&mut p, v01)?),
            UTRI => app(&mut s.ut, dec_tris(&mut p, v01)?),
            TTRI => app(&mut s.tt, dec_tris(&mut p, v01)?),
            SHARED => {
                let mask = p.u(1)?;
                let v = dec_tris(&mut p, v01)?;
                if mask & 1 != 0 {
                    app(&mut s.vt, v.clone());
                }
                if mask & 2 != 0 {
                    app(&mut s.nt, v.clone());
                }
                if mask & 4 != 0 {
                    app(&mut s.ut, v);
                }
            }
            CINDEX | CINT | CFLOAT | CRGBA => {
                let l = p.u(1)? as usize;
                let name = String::from_utf8(p.take(l)?.to_vec()).map_err(|_| "custom name not UTF-8")?;
                let c = match g.ty {
                    CINDEX | CINT => {
                        let v = dec_tris(&mut p, v01)?;
                        let m = v.iter().copied().max().unwrap_or(0) as usize;
                        if g.ty == CINDEX {
                            Cd::Index(v, m)
                        } else {
                            Cd::Int(v, m)
                        }
                    }
                    CFLOAT => {
                        let n = p.u(8)?;
                        let (min, max) = (p.f()?, p.f()?);
                        let bits = p.u(1)? as u8;
                        let mut r = BitR::new(&p.d[p.p..]);
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push((r.get(bits)? as f64 / top(bits) * (max - min) + min) as f32);
                        }
                        Cd::Float(v, ((max - min) / top(bits)) as f32)
                    }
                    _ => {
                        let n = p.u(8)?;
                        let bits = p.u(1)? as u8;
                        let mut r = BitR::new(&p.d[p.p..]);
                        let mut v = vec![];
                        for _ in 0..n {
                            let mut c = [0f32; 4];
                            for x in &mut c {
                                *x = (r.get(bits)? as f64 / top(bits)) as f32;
                            }
                            v.push((c[0], c[1], c[2], c[3]));
                        }
                        Cd::Rgba(v, (1.0 / top(bits)) as f32)
                    }
                };
                s.c.push((name, c));
            }
            _ => (),
        }
    }
    Ok(s)
}
fn close(a: f32, b: f32, tol: f64) -> bool {
    (a as f64 - b as f64).abs() <= tol || a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Compares two meshes decoded from the same file: indices, counts and integers exactly, floats up to the
/// rounding of single precision arithmetic (and the documented error of `fast_trig` for directions).
pub fn same(a: &Snap, b: &Snap) -> Result<(), String> {
    same_at(a, b, (0.0, 0.0))
}
/// The largest bounds of the vertex and of the custom float segments of a mesh.
pub fn scale(m: &FileMesh) -> (f64, f64) {
    let mut o = (0f64, 0f64);
    for s in &m.segs {
        let f = |p: usize| s.data.get(p..p + 8).map_or(0.0, |x| f64::from_le_bytes(x.try_into().unwrap()).abs());
        match s.ty {
            VERTEX => (0..6).for_each(|i| o.0 = o.0.max(f(8 + 8 * i))),
            CFLOAT => (0..2).for_each(|i| o.1 = o.1.max(f(9 + s.data[0] as usize + 8 * i))),
            _ => (),
        }
    }
    o
}
/// As `same`, with rounding measured against the given scales of vertices and of custom floats as well.
pub fn same_at(a: &Snap, b: &Snap, scale: (f64, f64)) -> Result<(), String> {
    fn len<T>(w: &str, a: &Option<Vec<T>>, b: &Option<Vec<T>>) -> Result<(), String> {
        match (a, b) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if a.len() == b.len() => Ok(()),
            (a, b) => Err(format!(
                "{w}: {:?} elements expected, {:?} found",
                a.as_ref().map(|x| x.len()),
                b.as_ref().map(|x| x.len())
            )),
        }
    }
    len("vertices", &a.v, &b.v)?;
    len("normals", &a.n, &b.n)?;
    len("uvs", &a.u, &b.u)?;
    len("tangents", &a.t, &b.t)?;
    for (w, x, y) in [
        ("vertex indices", &a.vt, &b.vt),
        ("normal indices", &a.nt, &b.nt),
        ("uv indices", &a.ut, &b.ut),
        ("tangent indices", &a.tt, &b.tt),
    ] {
        if x != y {
            return Err(format!("{w}: expected {:?} found {:?}", short(x), short(y)));
        }
    }
    if let (Some(x), Some(y)) = (&a.v, &b.v) {
        let m = x.iter().fold(scale.0.max(1e-30), |m, v| m.max(v.0.abs() as f64).max(v.1.abs() as f64).max(v.2.abs() as f64));
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            let t = m * 2f64.powi(-20);
            if !(close(p.0, q.0, t) && close(p.1, q.1, t) && close(p.2, q.2, t)) {
                return Err(format!("vertex {i}: expected {p:?} found {q:?}"));
            }
        }
    }
    // the radius of the horizontal part is a root that magnifies rounding where z is close to 1
    let dt = |z: f32| {
        let m = (1.0 - (z as f64) * (z as f64)).max(0.0).sqrt();
        (if crate::util::FULL { 0.03 } else { 2e-6 }) + 4e-7 / (m + 6e-4)
    };
    if let (Some(x), Some(y)) = (&a.n, &b.n) {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if !(close(p.0, q.0, dt(p.2)) && close(p.1, q.1, dt(p.2)) && close(p.2, q.2, 2e-6)) {
                return Err(format!("normal {i}: expected {p:?} found {q:?}"));
            }
        }
    }
    if let (Some(x), Some(y)) = (&a.t, &b.t) {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if !(close(p.0 .0, q.0 .0, dt(p.0 .2)) && close(p.0 .1, q.0 .1, dt(p.0 .2)) && close(p.0 .2, q.0 .2, 2e-6)) || p.1 != q.1 {
                return Err(format!("tangent {i}: expected {p:?} found {q:?}"));
            }
        }
    }
    if let (Some(x), Some(y)) = (&a.u, &b.u) {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if !(close(p.0, q.0, 5e-7) && close(p.1, q.1, 5e-7)) {
                return Err(format!("uv {i}: expected {p:?} found {q:?}"));
            }
        }
    }
    same_custom_at(&a.c, &b.c, scale.1)
}
fn same_custom_at(a: &[(String, Cd)], b: &[(String, Cd)], scale: f64) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} custom arrays expected, {} found", a.len(), b.len()));
    }
    for ((n, x), (m, y)) in a.iter().zip(b) {
        if n != m {
            return Err(format!("custom array name: expected {n:?} found {m:?}"));
        }
        if x.kind() != y.kind() || x.len() != y.len() {
            return Err(format!(
                "custom array {n:?}: expected {} of length {}, found {} of length {}",
                x.kind(),
                x.len(),
                y.kind(),
                y.len()
            ));
        }
        let ok = match (x, y) {
            (Cd::Index(p, _), Cd::Index(q, _)) | (Cd::Int(p, _), Cd::Int(q, _)) => p == q,
            (Cd::Float(p, _), Cd::Float(q, _)) => {
                let m = p.iter().fold(scale, |m, v| m.max(v.abs() as f64));
                p.iter().zip(q).all(|(p, q)| close(*p, *q, m * 2f64.powi(-21)))
            }
            (Cd::Rgba(p, _), Cd::Rgba(q, _)) => p.iter().zip(q).all(|(p, q)| {
                close(p.0, q.0, 5e-7) && close(p.1, q.1, 5e-7) && close(p.2, q.2, 5e-7) && close(p.3, q.3, 5e-7)
            }),
            _ => false,
        };
        if !ok {
            return Err(format!("custom array {n:?}: contents differ: expected {x:?} found {y:?}").chars().take(600).collect());
        }
    }
    Ok(())
}
fn short(x: &Option<Vec<u32>>) -> String {
    match x {
        None => "absent".into(),
        Some(v) if v.len() <= 24 => format!("{v:?}"),
        Some(v) => format!("{:?}… ({})", &v[..24], v.len()),
    }
}

// ---- faults -----------------------------------------------------------------------------------------
/// What can be wrong with a file, as far as the format tells.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    /// ends too early, as a whole or inside a segment
    Short,
    /// text that is not UTF-8, indices beyond the index type
    Invalid,
    NotTmf,
    Newer,
    TooLong,
    UnknownCompression(u8),
    UnsupportedCompression(u8),
    Precision(u8),
}
pub const MAX_SEG: u64 = 0x8000_0000;
/// All faults a reader of the file meets: `.0` those it has to refuse the file for, `.1` those it may.
pub fn faults(d: &[u8]) -> (Vec<Fault>, Vec<Fault>) {
    let (mut must, mut may) = (vec![], vec![]);
    if let Err(f) = walk(d, &mut must, &mut may) {
        must.push(f);
    }
    (must, may)
}
fn walk(d: &[u8], must: &mut Vec<Fault>, may: &mut Vec<Fault>) -> Result<(), Fault> {
    let mut p = P { d, p: 0 };
    let short = |_| Fault::Short;
    if p.take(3).map_err(short)? != b"TMF" {
        return Err(Fault::NotTmf);
    }
    let mut version = [0; 4];
    for v in &mut version {
        *v = p.u(2).map_err(short)?;
    }
    if version[2] > 0 || version[3] > 2 {
        return Err(Fault::Newer);
    }
    let v01 = version[3] < 2;
    for _ in 0..p.u(4).map_err(short)? {
        let l = p.u(2).map_err(short)? as usize;
        if std::str::from_utf8(p.take(l).map_err(short)?).is_err() {
            return Err(Fault::Invalid);
        }
        for _ in 0..p.u(2).map_err(short)? {
            let ty = p.u(if v01 { 2 } else { 1 }).map_err(short)? as u16;
            let len = p.u(if v01 { 8 } else { 4 }).map_err(short)?;
            if len > MAX_SEG {
                return Err(Fault::TooLong);
            }
            let comp = p.u(1).map_err(short)? as u8;
            if ![0, 1, 2, 255].contains(&comp) {
                return Err(Fault::UnknownCompression(comp));
            }
            let data = p.take(len as usize).map_err(short)?;
            segment_faults(ty, comp, data, v01, must, may);
        }
    }
    Ok(())
}
fn segment_faults(ty: u16, comp: u8, data: &[u8], v01: bool, must: &mut Vec<Fault>, may: &mut Vec<Fault>) {
    let mut p = P { d: data, p: 0 };
    if comp != 0 {
        match ty {
            VTRI | NTRI | UTRI | TTRI | SHARED => must.push(Fault::UnsupportedCompression(comp)),
            _ => may.push(Fault::UnsupportedCompression(comp)),
        }
    }
    // a closure per field would not be shorter: a missing one ends the segment
    let mut go = || -> Result<(), String> {
        let mut f = |x| must.push(x);
        let named = matches!(ty, CINDEX | CINT | CFLOAT | CRGBA);
        if named {
            let l = p.u(1)? as usize;
            let name = p.take(l)?;
            if name.is_empty() || std::str::from_utf8(name).is_err() {
                may.push(Fault::Invalid);
            }
        }
        if ty == SHARED {
            p.u(1)?;
        }
        let index = matches!(ty, VTRI | NTRI | UTRI | TTRI | SHARED | CINDEX | CINT);
        let most = if index { 64 } else { 63 };
        fn count(p: &mut P, f: &mut impl FnMut(Fault)) -> Result<u64, String> {
            let n = p.u(8)?;
            if n > MAX_SEG {
                f(Fault::TooLong);
            }
            Ok(n)
        }
        let width = |p: &mut P, f: &mut dyn FnMut(Fault)| -> Result<u8, String> {
            let b = p.u(1)? as u8;
            if b > most {
                f(Fault::Precision(b));
            }
            Ok(b)
        };
        // bits an entry takes beside its coded values, bits of each coded value
        let (count, fixed, bits): (u64, u64, Vec<u8>) = match ty {
            VERTEX => {
                let n = count(&mut p, &mut f)?;
                p.take(48)?;
                (n, 0, vec![width(&mut p, &mut f)?, width(&mut p, &mut f)?, width(&mut p, &mut f)?])
            }
            NORMAL | TANGENT => {
                let n = count(&mut p, &mut f)?;
                (n, if ty == NORMAL { 3 } else { 4 }, vec![width(&mut p, &mut f)?; 2])
            }
            UV => {
                let b = width(&mut p, &mut f)?;
                (count(&mut p, &mut f)?, 0, vec![b; 2])
            }
            CFLOAT => {
                let n = count(&mut p, &mut f)?;
                p.take(16)?;
                (n, 0, vec![width(&mut p, &mut f)?])
            }
            CRGBA => {
                let n = count(&mut p, &mut f)?;
                (n, 0, vec![width(&mut p, &mut f)?; 4])
            }
            _ if index => {
                let b = width(&mut p, &mut f)?;
                let n = count(&mut p, &mut f)?;
                let min = if v01 { 0 } else { p.u(8)? };
                if b <= 64 && n <= MAX_SEG {
                    let max = tmf::IndexType::MAX as u64;
                    let mut r = BitR::new(&p.d[p.p..]);
                    if b == 0 {
                        if n > 0 && min > max {
                            f(Fault::Invalid);
                        }
                    } else {
                        for _ in 0..n {
                            let Ok(c) = r.get(b) else { break };
                            if c.checked_add(min).is_none_or(|i| i > max) {
                                f(Fault::Invalid);
                                break;
                            }
                        }
                    }
                }
                (n, 0, vec![b])
            }
            _ => return Ok(()),
        };
        let need = count as u128 * (fixed as u128 + bits.iter().map(|b| *b as u128).sum::<u128>());
        if need > (p.d.len() - p.p) as u128 * 8 {
            f(Fault::Short);
        }
        Ok(())
    };
    if go().is_err() {
        must.push(Fault::Short);
    }
}
