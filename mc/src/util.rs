use crate::engine::*;
use crate::ensure;
use std::io::{Error, ErrorKind, Read, Write};
use tmf::*;

pub type V3 = (f32, f32, f32);
pub type V2 = (f32, f32);
pub const FULL: bool = cfg!(feature = "full");

/// Largest index explored in general families.
pub const TOP: u32 = if cfg!(feature = "short") { 65535 } else { u32::MAX };
/// The largest index an OBJ text can spell: counted from 1, so one more than the index type holds.
pub const TOP_OBJ: i64 = if cfg!(feature = "short") { 65536 } else if cfg!(feature = "wide") { i64::MAX } else { u32::MAX as i64 + 1 };
/// An index of an alphabet, cut to what the index type holds.
pub fn t(x: u32) -> u32 {
    x.min(TOP)
}
/// To the number types of the build of the crate under exploration.
pub trait Up {
    type O;
    fn up(self) -> Self::O;
}
/// From any of its number types to the ones used here.
pub trait Down {
    type O;
    fn down(self) -> Self::O;
}
impl Up for f32 {
    type O = FloatType;
    fn up(self) -> FloatType {
        self as FloatType
    }
}
impl Up for u32 {
    type O = IndexType;
    fn up(self) -> IndexType {
        IndexType::try_from(self).expect("alphabet fits the index type")
    }
}
macro_rules! down {
    ($($a:ty => $b:ty: $f:expr,)*) => {$(impl Down for $a { type O = $b; fn down(self) -> $b { let f: fn($a) -> $b = $f; f(self) } })*};
}
down! {
    f32 => f32: |x| x,
    f64 => f32: |x| x as f32,
    u16 => u32: |x| x as u32,
    u32 => u32: |x| x,
    // nothing explored through this conversion has larger indices
    u64 => u32: |x| u32::try_from(x).unwrap_or(0xdead_beef),
}
macro_rules! tuples {
    ($($($t:ident $n:tt)+,)*) => {$(
        impl<$($t: Up),+> Up for ($($t,)+) { type O = ($($t::O,)+); fn up(self) -> Self::O { ($(self.$n.up(),)+) } }
        impl<$($t: Down),+> Down for ($($t,)+) { type O = ($($t::O,)+); fn down(self) -> Self::O { ($(self.$n.down(),)+) } }
    )*};
}
tuples! { A 0 B 1, A 0 B 1 C 2, A 0 B 1 C 2 D 3, }
pub fn ups<T: Up + Copy>(a: &[T]) -> Vec<T::O> {
    a.iter().map(|x| x.up()).collect()
}
pub fn downs<T: Down + Copy>(a: &[T]) -> Vec<T::O> {
    a.iter().map(|x| x.down()).collect()
}

/// Everything the public API shows of a mesh.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub v: Option<Vec<V3>>,
    pub n: Option<Vec<V3>>,
    pub u: Option<Vec<V2>>,
    pub t: Option<Vec<(V3, f32)>>,
    pub vt: Option<Vec<u32>>,
    pub nt: Option<Vec<u32>>,
    pub ut: Option<Vec<u32>>,
    pub tt: Option<Vec<u32>>,
    pub c: Vec<(String, Cd)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cd {
    Index(Vec<u32>, usize),
    Int(Vec<u32>, usize),
    Float(Vec<f32>, f32),
    Rgba(Vec<(f32, f32, f32, f32)>, f32),
}
impl Cd {
    pub fn make(&self) -> CustomData {
        match self {
            Cd::Index(a, m) => CustomData::CustomIndex(ups(a).into(), *m),
            Cd::Int(a, m) => CustomData::CustomIntiger(ups(a).into(), *m),
            Cd::Float(a, p) => CustomData::CustomFloat(ups(a).into(), p.up()),
            Cd::Rgba(a, p) => CustomData::CustomColorRGBA(ups(a).into(), p.up()),
        }
    }
    pub fn of(c: &CustomData) -> Cd {
        match c {
            CustomData::CustomIndex(a, m) => Cd::Index(downs(a), *m),
            CustomData::CustomIntiger(a, m) => Cd::Int(downs(a), *m),
            CustomData::CustomFloat(a, p) => Cd::Float(downs(a), p.down()),
            CustomData::CustomColorRGBA(a, p) => Cd::Rgba(downs(a), p.down()),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Cd::Index(..) => "index",
            Cd::Int(..) => "integer",
            Cd::Float(..) => "float",
            Cd::Rgba(..) => "rgba",
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Cd::Index(a, _) | Cd::Int(a, _) => a.len(),
            Cd::Float(a, _) => a.len(),
            Cd::Rgba(a, _) => a.len(),
        }
    }
}
impl Snap {
    pub fn build(&self) -> TMFMesh {
        let mut m = TMFMesh::empty();
        if let Some(x) = &self.v {
            m.set_vertices(ups(x));
        }
        if let Some(x) = &self.n {
            m.set_normals(ups(x));
        }
        if let Some(x) = &self.u {
            m.set_uvs(ups(x));
        }
        if let Some(x) = &self.t {
            m.set_tangents(ups(x));
        }
        if let Some(x) = &self.vt {
            m.set_vertex_triangles(ups(x));
        }
        if let Some(x) = &self.nt {
            m.set_normal_triangles(ups(x));
        }
        if let Some(x) = &self.ut {
            m.set_uv_triangles(ups(x));
        }
        if let Some(x) = &self.tt {
            m.set_tangent_triangles(ups(x));
        }
        for (n, c) in &self.c {
            m.add_custom_data(c.make(), n).expect("alphabet uses valid names");
        }
        m
    }
    /// Snapshot of a mesh; custom data is looked up by the given names.
    pub fn of(m: &TMFMesh, names: &[&str]) -> Snap {
        Snap {
            v: m.get_vertices().map(downs),
            n: m.get_normals().map(downs),
            u: m.get_uvs().map(downs),
            t: m.get_tangents().map(downs),
            vt: m.get_vertex_triangles().map(downs),
            nt: m.get_normal_triangles().map(downs),
            ut: m.get_uv_triangles().map(downs),
            tt: m.get_tangent_triangles().map(downs),
            c: names
                .iter()
                .filter_map(|n| m.lookup_custom_data(n).map(|c| (n.to_string(), Cd::of(c))))
                .collect(),
        }
    }
    pub fn names(&self) -> Vec<&str> {
        let mut v: Vec<&str> = vec![];
        for (n, _) in &self.c {
            if !v.contains(&n.as_str()) {
                v.push(n)
            }
        }
        v
    }
    /// Bitwise equality (NaN equals NaN, 0.0 differs from -0.0).
    pub fn bits(&self) -> u64 {
        self.hash().0
    }
    pub fn hash(&self) -> H {
        let mut h = H::new();
        h = hv3(h, &self.v);
        h = hv3(h, &self.n);
        h = match &self.u {
            None => h.u(7),
            Some(a) => a.iter().fold(h.u(8 + a.len() as u64), |h, x| h.u((x.0.to_bits() as u64) << 32 | x.1.to_bits() as u64)),
        };
        h = match &self.t {
            None => h.u(7),
            Some(a) => a.iter().fold(h.u(8 + a.len() as u64), |h, x| hv(h, &x.0).u(x.1.to_bits() as u64)),
        };
        for t in [&self.vt, &self.nt, &self.ut, &self.tt] {
            h = match t {
                None => h.u(7),
                Some(a) => a.iter().fold(h.u(8 + a.len() as u64), |h, x| h.u(*x as u64)),
            };
        }
        for (n, c) in &self.c {
            h = h.s(n);
            h = match c {
                Cd::Index(a, m) => a.iter().fold(h.u(1).u(*m as u64), |h, x| h.u(*x as u64)),
                Cd::Int(a, m) => a.iter().fold(h.u(2).u(*m as u64), |h, x| h.u(*x as u64)),
                Cd::Float(a, m) => a.iter().fold(h.u(3).u(m.to_bits() as u64), |h, x| h.u(x.to_bits() as u64)),
                Cd::Rgba(a, m) => a.iter().fold(h.u(4).u(m.to_bits() as u64), |h, x| {
                    h.u(x.0.to_bits() as u64).u(x.1.to_bits() as u64).u(x.2.to_bits() as u64).u(x.3.to_bits() as u64)
                }),
            };
        }
        h
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 600 {
            let mut e = 600;
            while !s.is_char_boundary(e) {
                e -= 1
            }
            format!("{}… ({} chars)", &s[..e], s.len())
        } else {
            s
        }
    }
}
fn hv(h: H, x: &V3) -> H {
    h.u((x.0.to_bits() as u64) << 32 | x.1.to_bits() as u64).u(x.2.to_bits() as u64)
}
fn hv3(h: H, a: &Option<Vec<V3>>) -> H {
    match a {
        None => h.u(7),
        Some(a) => a.iter().fold(h.u(8 + a.len() as u64), |h, x| hv(h, x)),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Prec {
    pub v: f32,
    pub n_deg: f32,
    pub u: (f32, f32),
    pub t_deg: f32,
}
pub const DEF: Prec = Prec { v: 0.1, n_deg: 1.0, u: (1024.0, 0.1), t_deg: 1.0 };
impl Prec {
    pub fn make(&self) -> TMFPrecisionInfo {
        TMFPrecisionInfo {
            vertex_precision: VertexPrecisionMode(self.v.up()),
            normal_precision: NormalPrecisionMode::from_deg_dev(self.n_deg.up()),
            uv_prec: UvPrecisionMode::form_texture_resolution(self.u.0, self.u.1),
            tangent_prec: TangentPrecisionMode::from_deg_dev(self.t_deg.up()),
        }
    }
}

pub fn save_r(meshes: &[(TMFMesh, String)], p: &TMFPrecisionInfo) -> R<Result<Vec<u8>, TMFExportError>> {
    match sut(|| {
        let mut out = Vec::new();
        TMFMesh::write_tmf(meshes, &mut out, p).map(|_| out)
    }) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("saving panicked: {p}")),
    }
}
pub fn save(meshes: &[(TMFMesh, String)], p: &TMFPrecisionInfo) -> R<Vec<u8>> {
    match save_r(meshes, p)? {
        Ok(b) => Ok(b),
        Err(e) => fail(format!("saving failed: {e}")),
    }
}
pub fn load_r(b: &[u8]) -> R<Result<Vec<(TMFMesh, String)>, TMFImportError>> {
    match sut(|| TMFMesh::read_tmf(&mut &b[..])) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("loading panicked: {p}")),
    }
}
pub fn load(b: &[u8]) -> R<Vec<(TMFMesh, String)>> {
    match load_r(b)? {
        Ok(b) => Ok(b),
        Err(e) => fail(format!("loading failed: {e}")),
    }
}
/// Save one mesh, load it again and return what came back (and the file).
pub fn round(ctx: &mut Ctx, m: TMFMesh, p: &TMFPrecisionInfo) -> R<(TMFMesh, Vec<u8>)> {
    let b = save(&[(m, "m".to_string())], p)?;
    let mut r = load(&b)?;
    ctx.step();
    ctx.step();
    ensure!(r.len() == 1, "one mesh saved, {} loaded", r.len());
    let (m, n) = r.pop().unwrap();
    ensure!(n == "m", "mesh name changed from 'm' to {n:?}");
    Ok((m, b))
}
/// First difference between two index arrays.
pub fn diff_idx(what: &str, a: &Option<Vec<u32>>, b: &Option<Vec<u32>>) -> R {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{what}: length {} became {}", a.len(), b.len());
            if let Some(i) = (0..a.len()).find(|&i| a[i] != b[i]) {
                return fail(format!("{what}: entry {i} of {} was {} and became {}", a.len(), a[i], b[i]));
            }
            Ok(())
        }
        (a, b) => fail(format!(
            "{what}: {} became {}",
            if a.is_some() { "present" } else { "absent" },
            if b.is_some() { "present" } else { "absent" }
        )),
    }
}
pub fn unit(x: f64, y: f64, z: f64) -> V3 {
    let m = (x * x + y * y + z * z).sqrt();
    ((x / m) as f32, (y / m) as f32, (z / m) as f32)
}
/// Direction from azimuth in the first quadrant (0..90), |z| elevation, and octant bits.
pub fn dir(az_deg: f64, el_deg: f64, oct: usize) -> V3 {
    let (a, e) = (az_deg.to_radians(), el_deg.to_radians());
    let (mut x, mut y, mut z) = (a.sin() * e.cos(), a.cos() * e.cos(), e.sin());
    if x.abs() < 1e-12 {
        x = 0.0
    }
    if y.abs() < 1e-12 {
        y = 0.0
    }
    if z.abs() < 1e-12 {
        z = 0.0
    }
    if oct & 1 != 0 {
        x = -x
    }
    if oct & 2 != 0 {
        y = -y
    }
    if oct & 4 != 0 {
        z = -z
    }
    (x as f32, y as f32, z as f32)
}

/// Did the code under test ever hand several buffers to a source or sink in one call?
pub static VECTORED_USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    /// Do the sources and sinks made by this thread fill several buffers in one call? Otherwise they
    /// do what std does by default, and use the first buffer that is not empty.
    static VECTORED: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
/// Explores both kinds of sources and sinks, if the code can tell them apart at all (which the runs without
/// faults that came before tell).
pub fn choose_vectored(ctx: &mut crate::engine::Ctx) {
    static USED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let used = *USED.get_or_init(|| VECTORED_USED.load(std::sync::atomic::Ordering::Relaxed));
    let all = !used || !ctx.flag();
    VECTORED.with(|v| v.set(all));
}
pub fn use_vectored(all: bool) {
    VECTORED.with(|v| v.set(all));
}
/// A reader whose every answer is scripted.
pub struct ScriptRead<'a> {
    vectored: bool,
    pub data: &'a [u8],
    pub pos: usize,
    pub calls: usize,
    /// answer for call number i given the number of bytes that could be delivered
    pub answer: Box<dyn FnMut(usize, usize) -> Ans + 'a>,
    pub failed: bool,
    pub reads_after_failure: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    /// deliver/accept at most this many bytes
    Some(usize),
    Interrupted,
    Error(ErrorKind),
}
impl<'a> ScriptRead<'a> {
    pub fn new(data: &'a [u8], answer: impl FnMut(usize, usize) -> Ans + 'a) -> Self {
        Self { vectored: VECTORED.with(|v| v.get()), data, pos: 0, calls: 0, answer: Box::new(answer), failed: false, reads_after_failure: 0 }
    }
}
pub const MARK: &str = "injected fault";
impl Read for ScriptRead<'_> {
    fn read_vectored(&mut self, bufs: &mut [std::io::IoSliceMut<'_>]) -> std::io::Result<usize> {
        VECTORED_USED.store(true, std::sync::atomic::Ordering::Relaxed);
        if !self.vectored {
            return match bufs.iter_mut().find(|b| !b.is_empty()) {
                Some(b) => self.read(b),
                None => self.read(&mut []),
            };
        }
        let mut all = vec![0; bufs.iter().map(|b| b.len()).sum()];
        let n = self.read(&mut all)?;
        let mut rest = &all[..n];
        for b in bufs {
            let k = b.len().min(rest.len());
            b[..k].copy_from_slice(&rest[..k]);
            rest = &rest[k..];
        }
        Ok(n)
    }
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.failed {
            self.reads_after_failure += 1;
        }
        let avail = buf.len().min(self.data.len() - self.pos);
        let a = (self.answer)(self.calls, avail);
        self.calls += 1;
        match a {
            Ans::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Ans::Error(k) => {
                self.failed = true;
                Err(Error::new(k, MARK))
            }
            Ans::Some(n) => {
                let n = if avail == 0 { 0 } else { avail.min(n.max(1)) };
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}
/// A sink whose every answer is scripted.
pub struct ScriptWrite<'a> {
    vectored: bool,
    pub out: Vec<u8>,
    pub calls: usize,
    pub answer: Box<dyn FnMut(usize, usize) -> Ans + 'a>,
    /// answer for flush calls; same numbering as writes
    pub failed: bool,
    pub flush_answer: Option<ErrorKind>,
    pub flushes: usize,
}
impl<'a> ScriptWrite<'a> {
    pub fn new(answer: impl FnMut(usize, usize) -> Ans + 'a) -> Self {
        Self { vectored: VECTORED.with(|v| v.get()), out: vec![], calls: 0, answer: Box::new(answer), failed: false, flush_answer: None, flushes: 0 }
    }
}
impl Write for ScriptWrite<'_> {
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        VECTORED_USED.store(true, std::sync::atomic::Ordering::Relaxed);
        if self.vectored {
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            self.write(&all)
        } else {
            self.write(bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &b[..]))
        }
    }
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let a = (self.answer)(self.calls, buf.len());
        self.calls += 1;
        match a {
            Ans::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Ans::Error(k) => {
                self.failed = true;
                Err(Error::new(k, MARK))
            }
            Ans::Some(n) => {
                let n = if buf.is_empty() { 0 } else { buf.len().min(n) };
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        match self.flush_answer {
            Some(k) => {
                self.failed = true;
                Err(Error::new(k, MARK))
            }
            None => Ok(()),
        }
    }
}
/// Index array patterns used by several properties.
pub fn idx_pattern(kind: usize, len: usize, top: u32) -> Vec<u32> {
    let l = len as u64;
    let t = top as u64;
    (0..l)
        .map(|i| {
            (match kind {
                // evenly rising to top
                0 => if l <= 1 { t } else { t * i / (l - 1) },
                // evenly falling from top
                1 => if l <= 1 { t } else { t * (l - 1 - i) / (l - 1) },
                // constant top
                2 => t,
                // sawtooth
                3 => (i * 7) % (t + 1).min(11) ,
                // small values, then one top in the middle
                4 => if i == l / 2 { t } else { i % 3 },
                // low half, then high half
                5 => if i < l / 2 { i % 2 } else { t - i % 2 % (t + 1) },
                // high half, then low half
                6 => if i < l / 2 { t - i % 2 % (t + 1) } else { i % 2 },
                // narrow band below top (large minimum)
                7 => t - (i * 5) % 4.min(t + 1),
                // last entry is the maximum
                8 => if i + 1 == l { t } else { 0 },
                // first entry is the maximum
                9 => if i == 0 { t } else { 1.min(t) },
                // scattered over the whole range
                10 => ((i.wrapping_mul(0x9E3779B97F4A7C15)) >> 32) % (t + 1),
                // min(i, top)
                _ => i.min(t),
            }) as u32
        })
        .collect()
}
pub const IDX_PATTERNS: usize = 12;

/// Numbers of elements around the powers of two that counters, buffers and blocks have.
pub fn many(thorough: bool) -> Vec<usize> {
    let mut v = vec![254, 510, 1000, 70_001, 100_000];
    for b in 8..=(if thorough { 20 } else { 17 }) {
        v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    v
}
