//! C09 loading does not depend on how the source delivers, C10 saving reports every sink failure.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use futures::executor::block_on;
use std::io::ErrorKind;
use std::sync::OnceLock;
use tmf::*;

const LOOKUPS: [&str; 12] = ["idx", "flt", "col", "int", "x", "y", "a", "ż", "f", "c", "e", "b"];
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
];
// ---- C09 --------------------------------------------------------------------------------------------
/// Outcome of a load: a description of everything it returned, or the error.
#[derive(Clone, Debug, PartialEq)]
pub(super) enum Got {
    Meshes(Vec<(u64, String)>),
    Io(ErrorKind, String),
    Other(String),
}
pub(super) fn meshes(l: &[(TMFMesh, String)]) -> Got {
    Got::Meshes(l.iter().map(|(m, n)| (Snap::of(m, &LOOKUPS).hash().0, n.clone())).collect())
}
pub(super) fn tmf_err(e: TMFImportError) -> Got {
    match e {
        TMFImportError::IO(e) => Got::Io(e.kind(), e.to_string()),
        e => Got::Other(format!("{e:?}")),
    }
}
const READERS: usize = 6; // 4 for TMF, 2 for OBJ
pub(super) fn raw_load(reader: usize, r: &mut ScriptRead) -> Result<Got, String> {
    sut(|| match reader {
        0 => TMFMesh::read_tmf(r).map(|l| meshes(&l)).unwrap_or_else(tmf_err),
        1 => block_on(TMFMesh::read_tmf_async(r)).map(|l| meshes(&l)).unwrap_or_else(tmf_err),
        2 => TMFMesh::read_tmf_one(r).map(|m| meshes(&[m])).unwrap_or_else(tmf_err),
        3 => block_on(TMFMesh::read_tmf_one_async(r)).map(|m| meshes(&[m])).unwrap_or_else(tmf_err),
        4 => TMFMesh::read_from_obj(r).map(|l| meshes(&l)).unwrap_or_else(|e| Got::Io(e.kind(), e.to_string())),
        _ => TMFMesh::read_from_obj_one(r).map(|m| meshes(&[m])).unwrap_or_else(|e| Got::Io(e.kind(), e.to_string())),
    })
}
pub(super) struct Source {
    pub(super) name: String,
    pub(super) bytes: Vec<u8>,
    pub(super) obj: bool,
    /// reference result per reader, from a slice-like source
    pub(super) want: Vec<Result<Got, String>>,
    /// number of reads a prompt source sees
    calls: Vec<usize>,
}
impl Source {
    fn reader(&self, ctx: &mut Ctx) -> usize {
        if self.obj { 4 + ctx.choose(2) } else { ctx.choose(4) }
    }
}
fn sources() -> &'static Vec<Source> {
    static S: OnceLock<Vec<Source>> = OnceLock::new();
    S.get_or_init(|| {
        let mut all: Vec<(String, Vec<u8>, bool)> = files().iter().map(|(n, b)| (n.clone(), b.clone(), false)).collect();
        // more than one buffer of data in one segment
        let big = Snap {
            v: Some((0..900).map(|i| ((i % 17) as f32, (i % 23) as f32 * 0.5, (i * 7 % 91) as f32)).collect()),
            vt: Some((0..2700).map(|i| (i * 31) % 900).collect()),
            ..Default::default()
        };
        if let Ok(b) = save(&[(big.build(), "b".repeat(9000))], &DEF.make()) {
            all.push(("saved big, long name".into(), b, false));
        }
        // files that are refused must be refused for the same reason
        let f = &files()[1].1;
        for (n, at, v) in [("bad magic", 0, b'X'), ("newer version", 9, 9), ("bad width", 0, 0)] {
            let mut b = f.clone();
            if n == "bad width" {
                if let Some(k) = b.len().checked_sub(30) {
                    b[k] = 200;
                }
            } else {
                b[at] = v;
            }
            all.push((n.into(), b, false));
        }
        all.push(("cut".into(), f[..f.len() - 3].to_vec(), false));
        all.extend(OBJ_TEXTS.iter().enumerate().map(|(i, t)| (format!("OBJ text {i}"), t.as_bytes().to_vec(), true)));
        // longer than the buffer of the OBJ reader, with a multi-byte character across its end
        let mut long = String::from("o dłuższy\n");
        while long.len() < 8150 {
            long.push_str("v 1.5 -2.25 3e2 \n");
        }
        while long.len() < 8188 {
            long.push('#');
        }
        long.push_str("\no ąęść\nv 1 1 1\nf 1 2 3\n");
        all.push(("long OBJ text".into(), long.into_bytes(), true));
        all.push(("OBJ text that is not UTF-8".into(), b"o a\nv 1 2 3\no \xff\xfe\nv 1 2 3\n".to_vec(), true));
        with_reference(all)
    })
}
fn with_reference(all: Vec<(String, Vec<u8>, bool)>) -> Vec<Source> {
    all.into_iter()
        .map(|(name, bytes, obj)| {
            let mut want = vec![];
            let mut calls = vec![];
            for r in 0..READERS {
                if (r >= 4) != obj {
                    want.push(Err("not for this kind of file".into()));
                    calls.push(0);
                    continue;
                }
                let mut most = 0;
                for vectored in [true, false] {
                    use_vectored(vectored);
                    let mut s = ScriptRead::new(&bytes, |_, a| Ans::Some(a));
                    let got = raw_load(r, &mut s);
                    most = most.max(s.calls);
                    if vectored {
                        want.push(got);
                    }
                }
                calls.push(most);
            }
            Source { name, bytes, obj, want, calls }
        })
        .collect()
}
/// Sizes around those that blocks and buffers have.
pub(super) fn blocks(thorough: bool) -> Vec<usize> {
    let mut v = vec![1000, 1500, 10_007, 100_000, 1 << 20];
    for b in 9..=(if thorough { 19 } else { 17 }) {
        v.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    v
}
/// A mesh whose vertices, indices and custom data all take more than 128 KiB.
fn vast(n: u32) -> Snap {
    let at = |i: u32, k: u64| (i as u64 * k % n as u64) as f32 / 64.0;
    Snap {
        v: Some((0..n).map(|i| (at(i, 7919), at(i, 104_729), at(i, 31))).collect()),
        vt: Some((0..3 * n).map(|i| i * 7 % n).collect()),
        c: vec![("idx".into(), Cd::Index((0..2 * n).map(|i| i * 31 % n).collect(), n as usize - 1))],
        ..Default::default()
    }
}
pub(super) fn vast_sources() -> &'static Vec<Source> {
    static S: OnceLock<Vec<Source>> = OnceLock::new();
    S.get_or_init(|| {
        let mut all: Vec<(String, Vec<u8>, bool)> = vec![];
        for n in [30_000u32, 90_000] {
            if n > TOP {
                continue;
            }
            if let Ok(b) = save(&[(vast(n).build(), "vast".into()), (tri_snap().build(), "after".into())], &DEF.make()) {
                all.push((format!("saved with {n} vertices"), b, false));
            }
        }
        if let Ok(b) = save(&[(tri_snap().build(), "n".repeat(65_535)), (full_snap().build(), "after".into())], &DEF.make()) {
            all.push(("saved with a name of 65535 bytes".into(), b, false));
        }
        let mut t = String::from("o first\n");
        for i in 0..6000 {
            t.push_str(&format!("v {}.5 -2.25 {}e-1 \n", i % 97, i % 13));
            if i % 500 == 499 {
                t.push_str(&format!("f {} {} {}\n#{}\n", i - 1, i, i + 1, "ż".repeat(i * 3)));
            }
        }
        t.push_str("o last\nv 1 1 1\nf -1 1 2\n");
        all.push(("OBJ text with long lines".into(), t.into_bytes(), true));
        with_reference(all)
    })
}
fn pick_source(ctx: &mut Ctx, of: &'static [Source]) -> &'static Source {
    // every run without faults comes first
    let _ = (sources(), vast_sources());
    let s = ctx.pick_ref(of);
    choose_vectored(ctx);
    s
}
fn check_same(ctx: &mut Ctx, s: &Source, reader: usize, r: &mut ScriptRead) -> R {
    ctx.step();
    let got = raw_load(reader, r).map_err(|p| Fail { msg: format!("reader {reader} panicked: {p}"), key: None, engine: false })?;
    match &s.want[reader] {
        Err(p) => fail(format!("{}: loading from a slice panicked: {p}", s.name)),
        Ok(w) => {
            ensure!(*w == got, "{}, reader {reader}: from a slice {w:?}, from this source {got:?}", s.name);
            ctx.compared();
            Ok(())
        }
    }
}
fn check_error(ctx: &mut Ctx, s: &Source, reader: usize, r: &mut ScriptRead, kind: ErrorKind) -> R {
    ctx.step();
    let got = raw_load(reader, r).map_err(|p| Fail { msg: format!("reader {reader} panicked: {p}"), key: None, engine: false })?;
    if !r.failed {
        // the load ended before the fault: it must be the ordinary result
        let same = matches!(&s.want[reader], Ok(w) if *w == got);
        ensure!(same, "{}, reader {reader}: no fault happened, yet {got:?} instead of {:?}", s.name, s.want[reader]);
    } else {
        ensure!(r.reads_after_failure == 0, "{}, reader {reader}: {} reads after the source had failed", s.name, r.reads_after_failure);
        // text that is refused line by line may be refused before or after the fault is met
        let refused = s.obj && matches!((&s.want[reader], &got), (Ok(w @ Got::Io(..)), g) if w == g);
        let faithful = matches!(&got, Got::Io(k, m) if *k == kind && m.contains(MARK));
        ensure!(faithful || refused, "{}, reader {reader}: the source failed with {kind:?} and the load gives {got:?}", s.name);
    }
    ctx.compared();
    Ok(())
}
pub fn c09() -> Vec<Family> {
    vec![
        dfs("deviations", "every file x reader: at every read deliver everything, 1 byte, half, all but one, or be interrupted; every combination of up to 2 (3 thorough) deviations", |ctx| {
            let s = pick_source(ctx, sources());
            let reader = s.reader(ctx);
            let base: usize = if ctx.flag() { 1 << 20 } else { 5 };
            if base == 5 && s.bytes.len() > if ctx.thorough { 900 } else { 300 } {
                return Ok(());
            }
            let few = s.calls[reader] > 150 || (s.calls[reader] > 60 && base == 5);
            ctx.set_deviations(if few { 1 } else if ctx.thorough { 3 } else { 2 });
            let mut log = H::new().s(&s.name).u(reader as u64).u(base as u64);
            let mut script = vec![];
            let mut r = ScriptRead::new(&s.bytes, |i, a| {
                let d = ctx.deviate(5);
                if d > 0 {
                    script.push((i, d));
                }
                match d {
                    0 => Ans::Some(a.min(base)),
                    1 => Ans::Some(1),
                    2 => Ans::Some(a / 2),
                    3 => Ans::Some(a.saturating_sub(1)),
                    _ => Ans::Interrupted,
                }
            });
            let got = raw_load(reader, &mut r);
            drop(r);
            ctx.step();
            for (i, d) in &script {
                log = log.u(*i as u64).u(*d as u64);
            }
            ctx.state(log);
            ctx.note(|| format!("{} reader {reader} chunks of {base}, deviations {script:?}", s.name));
            let got = got.map_err(|p| Fail { msg: format!("reader {reader} panicked: {p}"), key: None, engine: false })?;
            match &s.want[reader] {
                Err(p) => fail(format!("{}: loading from a slice panicked: {p}", s.name)),
                Ok(w) => {
                    ensure!(*w == got, "{}, reader {reader}: from a slice {w:?}, with deviations {script:?} {got:?}", s.name);
                    ctx.compared();
                    Ok(())
                }
            }
        }),
        dfs("uniform", "every file x reader x chunk size out of 1..=20 and 7 larger ones x interruption before every k-th read (up to 3 in a row)", |ctx| {
            let s = pick_source(ctx, sources());
            let reader = s.reader(ctx);
            let k = ctx.choose(27);
            let chunk = if k < 20 { k + 1 } else { [31, 32, 33, 64, 127, 511, 4096][k - 20] };
            let every = ctx.pick(&[0usize, 1, 2, 3, 5, 7]);
            let row = if every == 0 { 1 } else { 1 + ctx.choose(3) };
            ctx.note(|| format!("{} reader {reader}: chunks of {chunk}, {row} interruptions before every {every}th", s.name));
            ctx.state(H::new().s(&s.name).u(reader as u64).u(chunk as u64).u(every as u64).u(row as u64));
            let (mut done, mut pending) = (0usize, 0usize);
            let mut r = ScriptRead::new(&s.bytes, move |_, _| {
                if every > 0 && done % every == 0 && pending < row {
                    pending += 1;
                    return Ans::Interrupted;
                }
                pending = 0;
                done += 1;
                Ans::Some(chunk)
            });
            check_same(ctx, s, reader, &mut r)
        }),
        dfs("alternating", "every file x reader x all cyclic patterns of chunk sizes of length 2 and 3 over 6 sizes", |ctx| {
            let s = pick_source(ctx, sources());
            let reader = s.reader(ctx);
            let n = 2 + ctx.choose(2);
            let pat: Vec<usize> = (0..n).map(|_| ctx.pick(&[1usize, 2, 3, 7, 8, 1000])).collect();
            ctx.note(|| format!("{} reader {reader}: {pat:?}", s.name));
            ctx.state(H::new().s(&s.name).u(reader as u64).bytes(format!("{pat:?}").as_bytes()));
            let mut r = ScriptRead::new(&s.bytes, move |i, _| Ans::Some(pat[i % pat.len()]));
            check_same(ctx, s, reader, &mut r)
        }),
        dfs("errors", "every file x reader x an error of 8 kinds at every read of a prompt source", |ctx| {
            let s = pick_source(ctx, sources());
            let reader = s.reader(ctx);
            let at = ctx.choose(s.calls[reader] + 1);
            let kind = ctx.pick(&KINDS);
            let once = ctx.flag();
            ctx.note(|| format!("{} reader {reader}: {kind:?} at read {at}, only once {once}", s.name));
            ctx.state(H::new().s(&s.name).u(reader as u64).u(at as u64).u(kind as u64).u(once as u64));
            let mut r = ScriptRead::new(&s.bytes, move |i, a| if i == at || (i > at && !once) { Ans::Error(kind) } else { Ans::Some(a) });
            check_error(ctx, s, reader, &mut r, kind)
        }),
        dfs("errors_at_bytes", "every file x reader x an error after every byte, when the source delivers 1, 3 or all bytes at a time, some reads interrupted", |ctx| {
            let s = pick_source(ctx, sources());
            let reader = s.reader(ctx);
            let chunk = ctx.pick(&[1usize, 3, 1 << 20]);
            let step = if s.bytes.len() > 1500 && !ctx.thorough { 37 } else { 1 };
            let at = ctx.choose(s.bytes.len() / step + 1) * step;
            let intr = ctx.pick(&[0usize, 2, 3]);
            let kind = ctx.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset]);
            ctx.note(|| format!("{} reader {reader}: chunks of {chunk}, {kind:?} after byte {at}, every {intr}th read interrupted", s.name));
            ctx.state(H::new().s(&s.name).u(reader as u64).u(at as u64).u(kind as u64).u(chunk as u64).u(intr as u64));
            let mut pos = 0;
            let mut r = ScriptRead::new(&s.bytes, move |i, a| {
                if intr > 0 && i % intr == 1 {
                    return Ans::Interrupted;
                }
                if pos >= at {
                    return Ans::Error(kind);
                }
                let n = a.min(chunk).min(at - pos);
                pos += n;
                Ans::Some(n)
            });
            check_error(ctx, s, reader, &mut r, kind)
        }),
        dfs("vast", "files with segments, names and lines of 64 to 800 KiB x reader: chunks of every size around a power of two from 512 to 131072 (thorough: 524288), all the same, only the first, every second, or with interruptions; an error after that many bytes", |ctx| {
            let s = pick_source(ctx, vast_sources());
            let reader = s.reader(ctx);
            let chunk = ctx.pick(&blocks(ctx.thorough));
            let how = ctx.choose(5);
            if how == 4 && chunk > s.bytes.len() {
                return Ok(());
            }
            ctx.note(|| format!("{} reader {reader}: chunks of {chunk}, pattern {how}", s.name));
            ctx.state(H::new().s(&s.name).u(reader as u64).u(chunk as u64).u(how as u64));
            let mut pos = 0;
            let mut r = ScriptRead::new(&s.bytes, move |i, a| match how {
                0 => Ans::Some(chunk),
                1 if pos == 0 || a > 1000 => {
                    // the first of the long reads is short
                    pos += usize::from(a > 1000);
                    Ans::Some(if pos == 1 { chunk } else { a })
                }
                1 => Ans::Some(a),
                2 => Ans::Some(if i % 2 == 0 { chunk } else { a }),
                3 if i % 3 == 1 => Ans::Interrupted,
                3 => Ans::Some(chunk),
                _ if pos >= chunk => Ans::Error(ErrorKind::TimedOut),
                _ => {
                    let n = a.min(chunk - pos);
                    pos += n;
                    Ans::Some(n)
                }
            });
            if how == 4 {
                check_error(ctx, s, reader, &mut r, ErrorKind::TimedOut)
            } else {
                check_same(ctx, s, reader, &mut r)
            }
        }),
    ]
}
// ---- C10 --------------------------------------------------------------------------------------------
/// (what, meshes, writer)  writers: 0 write_tmf, 1 write_tmf_one, 2 write_obj, 3 write_obj_one
struct Job {
    name: String,
    list: Vec<(Snap, String)>,
    writer: usize,
    want: Result<Vec<u8>, String>,
    calls: usize,
    flushes: usize,
}
/// Ok(Err(text)): the call returned an error
fn run_job(list: &[(TMFMesh, String)], writer: usize, w: &mut ScriptWrite) -> Result<Result<(), String>, String> {
    sut(|| match writer {
        0 => TMFMesh::write_tmf(list, w, &DEF.make()).map_err(|e| e.to_string()),
        1 => list[0].0.write_tmf_one(w, &DEF.make(), list[0].1.as_str()).map_err(|e| e.to_string()),
        2 => TMFMesh::write_obj(list, w).map_err(|e| e.to_string()),
        _ => list[0].0.write_obj_one(w, &list[0].1).map_err(|e| e.to_string()),
    })
}
impl Job {
    fn meshes(&self) -> Vec<(TMFMesh, String)> {
        self.list.iter().map(|(s, n)| (s.build(), n.clone())).collect()
    }
}
fn pick_job(ctx: &mut Ctx, of: &'static [Job]) -> &'static Job {
    let _ = (jobs(), vast_jobs());
    let j = ctx.pick_ref(of);
    choose_vectored(ctx);
    j
}
fn jobs() -> &'static Vec<Job> {
    static S: OnceLock<Vec<Job>> = OnceLock::new();
    S.get_or_init(|| {
        let mut lists: Vec<(String, Vec<(Snap, String)>)> = snaps().iter().map(|(n, s)| (n.to_string(), vec![(s.clone(), "mesh".into())])).collect();
        lists.push(("none".into(), vec![]));
        lists.push(("three".into(), vec![(tri_snap(), "a".into()), (Snap::default(), "żółć".into()), (full_snap(), "c d".into())]));
        // more than the 8 KiB buffer of the OBJ writer
        let v: Vec<V3> = (0..300).map(|i| ((i % 17) as f32 + 0.125, (i % 23) as f32 * 0.5, (i * 7 % 91) as f32)).collect();
        let big = Snap { vt: Some((0..900).map(|i| i * 31 % 300).collect()), v: Some(v), ..Default::default() };
        lists.push(("big".into(), vec![(big.clone(), "big".into()), (big, "big again".into())]));
        all_jobs(lists)
    })
}
fn vast_jobs() -> &'static Vec<Job> {
    static S: OnceLock<Vec<Job>> = OnceLock::new();
    S.get_or_init(|| {
        let small = vast(20_000);
        all_jobs(vec![
            ("vast".into(), vec![(small, "vast".into())]),
            ("long name".into(), vec![(tri_snap(), "n".repeat(65_535))]),
            ("vast and after".into(), vec![(vast(TOP.min(60_000)), "vast".into()), (tri_snap(), "ż".repeat(32_767)), (tri_snap(), "after".into())]),
        ])
    })
}
fn all_jobs(lists: Vec<(String, Vec<(Snap, String)>)>) -> Vec<Job> {
        let mut o = vec![];
        for (n, l) in lists {
            for writer in 0..4 {
                if writer % 2 == 1 && l.len() != 1 {
                    continue;
                }
                let mut j = Job { name: format!("{n}, writer {writer}"), list: l.clone(), writer, want: Err(String::new()), calls: 0, flushes: 0 };
                use_vectored(false);
                let mut w = ScriptWrite::new(|_, a| Ans::Some(a));
                let _ = run_job(&j.meshes(), writer, &mut w);
                j.calls = w.calls;
                use_vectored(true);
                let mut w = ScriptWrite::new(|_, a| Ans::Some(a));
                let r = run_job(&j.meshes(), writer, &mut w);
                (j.calls, j.flushes) = (w.calls.max(j.calls), w.flushes);
                let out = std::mem::take(&mut w.out);
                drop(w);
                j.want = match r {
                    Ok(Ok(())) => Ok(out),
                    Ok(Err(e)) => {
                        // what cannot be exported is another property's business
                        if writer >= 2 {
                            continue;
                        }
                        Err(e)
                    }
                    Err(p) => Err(format!("panic: {p}")),
                };
                o.push(j);
            }
        }
        o
}
fn judge(ctx: &mut Ctx, j: &Job, r: Result<Result<(), String>, String>, out: &[u8], failed: bool) -> R {
    ctx.step();
    let want = match &j.want {
        Ok(w) => w,
        Err(e) => return fail(format!("{}: cannot be saved to a sink without faults: {e}", j.name)),
    };
    let common = out.iter().zip(want).take_while(|(a, b)| a == b).count();
    match r {
        Err(p) => return fail(format!("{}: panic: {p}", j.name)),
        Ok(Ok(())) => {
            ensure!(!failed, "{}: the sink failed, yet the call reports success", j.name);
            ensure!(out == want, "{}: {} bytes written, {} expected, first difference at {common}", j.name, out.len(), want.len());
        }
        Ok(Err(e)) => {
            ensure!(failed, "{}: the sink never failed, yet the call reports {e}", j.name);
            ensure!(common == out.len(), "{}: what the sink accepted ({} bytes) is not a prefix of the fault-free output ({} bytes), first difference at {common}", j.name, out.len(), want.len());
        }
    }
    ctx.compared();
    Ok(())
}
pub fn c10() -> Vec<Family> {
    vec![
        dfs("deviations", "every mesh list x writer: at every write accept everything, 1 byte, half, all but one, nothing (which is a failure), be interrupted or fail; every combination of up to 2 (3 thorough) deviations", |ctx| {
            let j = pick_job(ctx, jobs());
            let few = j.calls > 120;
            let base: usize = if j.writer >= 2 { ctx.pick(&[1usize << 20, 700]) } else { 1 << 20 };
            ctx.set_deviations(if few { 1 } else if ctx.thorough { 3 } else { 2 });
            let mut script = vec![];
            let mut failed = false;
            let mut w = ScriptWrite::new(|i, a| {
                let d = ctx.deviate(7);
                if d > 0 {
                    script.push((i, d));
                }
                match d {
                    0 => Ans::Some(a.min(base)),
                    1 => Ans::Some(1),
                    2 => Ans::Some((a / 2).max(1)),
                    3 => Ans::Some(a.saturating_sub(1).max(1)),
                    4 => Ans::Interrupted,
                    5 => {
                        failed |= a > 0;
                        Ans::Some(0)
                    }
                    _ => {
                        failed = true;
                        Ans::Error(ErrorKind::Other)
                    }
                }
            });
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let out = std::mem::take(&mut w.out);
            drop(w);
            let mut h = H::new().s(&j.name).u(base as u64);
            for (i, d) in &script {
                h = h.u(*i as u64).u(*d as u64);
            }
            ctx.state(h);
            ctx.note(|| format!("{}: deviations {script:?}", j.name));
            judge(ctx, j, r, &out, failed)
        }),
        dfs("uniform", "every mesh list x writer x chunk size out of 1..=20 and 7 larger ones x interruption before every k-th write (up to 3 in a row)", |ctx| {
            let j = pick_job(ctx, jobs());
            let k = ctx.choose(27);
            let chunk = if k < 20 { k + 1 } else { [31, 32, 33, 64, 127, 511, 4096][k - 20] };
            let every = ctx.pick(&[0usize, 1, 2, 3, 5]);
            let row = if every == 0 { 1 } else { 1 + ctx.choose(3) };
            ctx.note(|| format!("{}: chunks of {chunk}, {row} interruptions before every {every}th", j.name));
            ctx.state(H::new().s(&j.name).u(chunk as u64).u(every as u64).u(row as u64));
            let (mut done, mut pending) = (0usize, 0usize);
            let mut w = ScriptWrite::new(move |_, _| {
                if every > 0 && done % every == 0 && pending < row {
                    pending += 1;
                    return Ans::Interrupted;
                }
                pending = 0;
                done += 1;
                Ans::Some(chunk)
            });
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let out = std::mem::take(&mut w.out);
            judge(ctx, j, r, &out, false)
        }),
        dfs("failures", "every mesh list x writer x failure (8 error kinds, or accepting nothing) at every write, once or from then on, with full and partial writes before", |ctx| {
            let j = pick_job(ctx, jobs());
            let partial = ctx.flag();
            let at = ctx.choose(if partial { j.calls * 2 } else { j.calls } + 1);
            let k = ctx.choose(KINDS.len() + 1);
            let once = ctx.flag();
            ctx.note(|| format!("{}: failure {k} at write {at}, only once {once}, partial writes {partial}", j.name));
            ctx.state(H::new().s(&j.name).u(at as u64).u(k as u64).u(once as u64).u(partial as u64));
            let hit = std::cell::Cell::new(false);
            let mut w = ScriptWrite::new(|i, a| {
                if i == at || (i > at && !once) {
                    if k == KINDS.len() {
                        if a > 0 {
                            hit.set(true);
                        }
                        Ans::Some(0)
                    } else {
                        hit.set(true);
                        Ans::Error(KINDS[k])
                    }
                } else if partial && i % 2 == 0 {
                    Ans::Some((a / 2).max(1))
                } else {
                    Ans::Some(a)
                }
            });
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let out = std::mem::take(&mut w.out);
            drop(w);
            judge(ctx, j, r, &out, hit.get())
        }),
        dfs("failures_at_bytes", "every mesh list x writer x a sink that is full after every number of bytes (accepting what fits, then failing or accepting nothing)", |ctx| {
            let j = pick_job(ctx, jobs());
            let total = j.want.as_ref().map_or(0, |w| w.len());
            let step = if total > 1500 && !ctx.thorough { 41 } else { 1 };
            let room = ctx.choose(total / step + 1) * step;
            let zero = ctx.flag();
            let chunk = ctx.pick(&[1usize, 3, 1 << 20]);
            ctx.note(|| format!("{}: room for {room} of {total} bytes, then {}", j.name, if zero { "nothing accepted" } else { "an error" }));
            ctx.state(H::new().s(&j.name).u(room as u64).u(zero as u64).u(chunk as u64));
            let hit = std::cell::Cell::new(false);
            let mut left = room;
            let mut w = ScriptWrite::new(|_, a| {
                let n = a.min(left).min(chunk);
                if n == 0 && a > 0 {
                    hit.set(true);
                    return if zero { Ans::Some(0) } else { Ans::Error(ErrorKind::StorageFull) };
                }
                left -= n;
                Ans::Some(n)
            });
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let out = std::mem::take(&mut w.out);
            drop(w);
            judge(ctx, j, r, &out, hit.get())
        }),
        dfs("flush", "every mesh list x writer: a flush that fails (8 error kinds) after writes of every kind", |ctx| {
            let j = pick_job(ctx, jobs());
            let kind = ctx.pick(&KINDS);
            let chunk = ctx.pick(&[1usize, 100, 1 << 20]);
            ctx.note(|| format!("{}: flush fails with {kind:?}", j.name));
            ctx.state(H::new().s(&j.name).u(kind as u64).u(chunk as u64));
            let mut w = ScriptWrite::new(|_, _| Ans::Some(chunk));
            w.flush_answer = Some(kind);
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let (out, failed) = (std::mem::take(&mut w.out), w.failed);
            drop(w);
            judge(ctx, j, r, &out, failed)
        }),
        dfs("buffered", "saving through a std BufWriter (capacity 1, 7, 64, 8192) over a sink failing at every write: the data reach the sink in order and nothing is lost silently once flushed", |ctx| {
            use std::io::Write;
            let j = pick_job(ctx, jobs());
            let cap = ctx.pick(&[1usize, 7, 64, 8192]);
            let at = ctx.choose(if cap < 64 { j.calls + 1 } else { 12 });
            ctx.note(|| format!("{}: BufWriter of {cap}, sink fails at write {at}", j.name));
            ctx.state(H::new().s(&j.name).u(cap as u64).u(at as u64));
            let hit = std::cell::Cell::new(false);
            let mut w = ScriptWrite::new(|i, a| {
                if i >= at {
                    hit.set(true);
                    Ans::Error(ErrorKind::Other)
                } else {
                    Ans::Some(a)
                }
            });
            let list = j.meshes();
            let r = {
                let mut b = std::io::BufWriter::with_capacity(cap, &mut w);
                let r = sut(|| match j.writer {
                    0 => TMFMesh::write_tmf(&list, &mut b, &DEF.make()).map_err(|e| e.to_string()),
                    1 => list[0].0.write_tmf_one(&mut b, &DEF.make(), list[0].1.as_str()).map_err(|e| e.to_string()),
                    2 => TMFMesh::write_obj(&list, &mut b).map_err(|e| e.to_string()),
                    _ => list[0].0.write_obj_one(&mut b, &list[0].1).map_err(|e| e.to_string()),
                });
                r.map(|x| x.and_then(|_| b.flush().map_err(|e| e.to_string())))
            };
            let out = std::mem::take(&mut w.out);
            drop(w);
            judge(ctx, j, r, &out, hit.get())
        }),
        dfs("vast", "meshes and names with segments and lines of 64 KiB to 1 MiB x writer: sinks accepting every size around a power of two from 512 to 131072 (thorough: 524288) at once, always, only at first, every second time or with interruptions; full after that many bytes", |ctx| {
            let j = pick_job(ctx, vast_jobs());
            let chunk = ctx.pick(&blocks(ctx.thorough));
            let how = ctx.choose(6);
            ctx.note(|| format!("{}: chunks of {chunk}, pattern {how}", j.name));
            ctx.state(H::new().s(&j.name).u(chunk as u64).u(how as u64));
            let hit = std::cell::Cell::new(false);
            let mut pos = 0;
            let mut w = ScriptWrite::new(|i, a| match how {
                0 => Ans::Some(chunk),
                1 => {
                    // the first of the long writes is short
                    pos += usize::from(a > 1000);
                    Ans::Some(if pos <= 1 { chunk } else { a })
                }
                2 => Ans::Some(if i % 2 == 0 { chunk } else { a }),
                3 if i % 3 == 1 => Ans::Interrupted,
                3 => Ans::Some(chunk),
                _ => {
                    let n = a.min(chunk - pos);
                    if n == 0 && a > 0 {
                        hit.set(true);
                        return if how == 4 { Ans::Error(ErrorKind::StorageFull) } else { Ans::Some(0) };
                    }
                    pos += n;
                    Ans::Some(n)
                }
            });
            let r = run_job(&j.meshes(), j.writer, &mut w);
            let out = std::mem::take(&mut w.out);
            drop(w);
            judge(ctx, j, r, &out, hit.get())
        }),
    ]
}
