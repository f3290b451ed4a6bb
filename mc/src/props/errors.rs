//! C28: what is refused is refused for what is wrong with it.
use super::bases::*;
use crate::engine::*;
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
use std::error::Error as _;
use std::io::ErrorKind;
use tmf::*;

fn fault_of(e: &TMFImportError) -> Option<Fault> {
    Some(match e {
        TMFImportError::IO(e) if e.kind() == ErrorKind::UnexpectedEof => Fault::Short,
        TMFImportError::IO(_) => Fault::Invalid,
        TMFImportError::CompressionTypeUnknown(c) => Fault::UnknownCompression(*c),
        TMFImportError::UnsuportedCompressionType(c) => Fault::UnsupportedCompression(*c),
        TMFImportError::InvalidPrecision(p) => Fault::Precision(*p),
        TMFImportError::SegmentTooLong => Fault::TooLong,
        TMFImportError::NotTMFFile => Fault::NotTmf,
        TMFImportError::NewerVersionRequired => Fault::Newer,
        _ => return None,
    })
}
fn check(ctx: &mut Ctx, b: &[u8]) -> R {
    ctx.state(H::new().bytes(b));
    if super::files::bomb(b) {
        return Ok(());
    }
    let (must, may) = faults(b);
    ctx.step();
    match load_r(b)? {
        Ok(_) => ensure!(must.is_empty(), "accepted, yet wrong with the file: {must:?}"),
        Err(e) => match fault_of(&e) {
            Some(f) => {
                ensure!(must.contains(&f) || may.contains(&f), "refused with {e:?}, yet wrong with the file: {must:?}");
                let number = match f {
                    Fault::UnknownCompression(n) | Fault::UnsupportedCompression(n) | Fault::Precision(n) => Some(n),
                    _ => None,
                };
                ensure!(number.is_none_or(|n| e.to_string().contains(&n.to_string())), "the text of {e:?} does not say so: {e}");
            }
            None => return fail(format!("refused with {e:?}, yet wrong with the file: {must:?}")),
        },
    }
    // the readers of one mesh: its own errors only where the file itself is fine
    ctx.step();
    match sut(|| TMFMesh::read_tmf_one(&mut &b[..]).map(|_| ())) {
        Err(p) => return fail(format!("read_tmf_one panicked: {p}")),
        Ok(Ok(())) => ensure!(must.is_empty(), "read_tmf_one accepted, yet wrong with the file: {must:?}"),
        Ok(Err(TMFImportError::NoMeshes | TMFImportError::TooManyMeshes)) => ensure!(must.is_empty(), "read_tmf_one counts the meshes of a file with {must:?}"),
        Ok(Err(e)) => ensure!(fault_of(&e).is_some_and(|f| must.contains(&f) || may.contains(&f)), "read_tmf_one refused with {e:?}, yet wrong with the file: {must:?}"),
    }
    ctx.compared();
    Ok(())
}
const BYTES: [u8; 20] = [0, 1, 2, 3, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 0x7f, 0x80, 0x81, 0xc3, 0xfe, 0xff];
const MARKS: [ErrorKind; 9] = [
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
];
fn own(e: &std::io::Error, k: ErrorKind) -> R {
    ensure!(e.kind() == k, "an error of kind {k:?} came back as {:?} ({e})", e.kind());
    ensure!(e.to_string().contains(MARK), "the message {MARK:?} came back as {e}");
    Ok(())
}
pub fn c28() -> Vec<Family> {
    vec![
        dfs("bytes", "every base file with one byte set to every value (quick: 20 values, its neighbours and bit flips)", |ctx| {
            let f = ctx.choose(files().len());
            let at = ctx.choose(files()[f].1.len());
            let mut b = files()[f].1.clone();
            let old = b[at];
            b[at] = if ctx.thorough {
                ctx.choose(256) as u8
            } else {
                let i = ctx.choose(30);
                match i {
                    0..20 => BYTES[i],
                    20..28 => old ^ 1 << (i - 20),
                    28 => old.wrapping_add(1),
                    _ => old.wrapping_sub(1),
                }
            };
            ctx.note(|| format!("{} byte {at} {old} -> {}", files()[f].0, b[at]));
            check(ctx, &b)
        }),
        dfs("lengths", "every base file cut off at, and with a byte inserted at or removed from, every place", |ctx| {
            let f = ctx.choose(files().len());
            let at = ctx.choose(files()[f].1.len());
            let mut b = files()[f].1.clone();
            match ctx.choose(6) {
                0 => b.truncate(at),
                1 => drop(b.remove(at)),
                2 => b.insert(at, 0),
                3 => b.insert(at, 1),
                4 => b.insert(at, 65),
                _ => b.insert(at, 255),
            }
            ctx.note(|| format!("{} at {at}", files()[f].0));
            check(ctx, &b)
        }),
        dfs("two_bytes", "two bytes of the small hand-made files, every pair of places x 6 values each", |ctx| {
            let l: Vec<_> = files().iter().filter(|f| f.0.starts_with("hand-made") && !f.0.ends_with("all")).collect();
            let f = l[ctx.choose(l.len())];
            let mut b = f.1.clone();
            let x = ctx.choose(b.len());
            let y = ctx.choose(b.len());
            if y <= x {
                return Ok(());
            }
            const V: [u8; 6] = [0, 1, 64, 65, 128, 255];
            let n = if ctx.thorough { 6 } else { 3 };
            b[x] = V[ctx.choose(n) * 6 / n];
            b[y] = V[ctx.choose(n) * 6 / n + 6 / n - 1];
            ctx.note(|| format!("{} bytes {x} and {y}: {} {}", f.0, b[x], b[y]));
            check(ctx, &b)
        }),
        dfs("compressions", "every segment of every base file with every compression type, alone and with its data emptied", |ctx| {
            let f = ctx.choose(files().len());
            let Ok(mut p) = parse(&files()[f].1) else { return fail("a base file the reference can not read") };
            let m = ctx.choose(p.meshes.len().max(1));
            let Some(mesh) = p.meshes.get_mut(m) else { return Ok(()) };
            let s = ctx.choose(mesh.segs.len().max(1));
            let Some(seg) = mesh.segs.get_mut(s) else { return Ok(()) };
            seg.comp = ctx.choose(256) as u8;
            if ctx.flag() {
                seg.data.clear();
            }
            ctx.note(|| format!("{} mesh {m} segment {s} compression {}", files()[f].0, p.meshes[m].segs[s].comp));
            check(ctx, &build(p.v01, &p.meshes))
        }),
        dfs("source_errors", "an error of every kind at every call of the source: TMF (all meshes, one mesh, async) and OBJ", |ctx| {
            let k = MARKS[ctx.choose(MARKS.len())];
            let f = ctx.choose(files().len() + OBJ_TEXTS.len());
            let way = ctx.choose(4);
            let at = ctx.choose(400);
            let obj = f >= files().len();
            let data: &[u8] = if obj { OBJ_TEXTS[f - files().len()].as_bytes() } else { &files()[f].1 };
            if obj && way > 1 {
                return Ok(());
            }
            ctx.note(|| format!("{} way {way}, {k:?} at call {at}", if obj { data.escape_ascii().to_string() } else { files()[f].0.clone() }));
            let mut r = ScriptRead::new(data, move |i, _| if i == at { Ans::Error(k) } else { Ans::Some(if obj { 9 } else { usize::MAX }) });
            ctx.step();
            enum E {
                Tmf(Option<TMFImportError>),
                Obj(Option<std::io::Error>),
            }
            let e = sut(|| match (obj, way) {
                (false, 0) => E::Tmf(TMFMesh::read_tmf(&mut r).err()),
                (false, 1) => E::Tmf(TMFMesh::read_tmf_one(&mut r).err()),
                (false, 2) => E::Tmf(futures::executor::block_on(TMFMesh::read_tmf_async(&mut r)).err()),
                (false, _) => E::Tmf(futures::executor::block_on(TMFMesh::read_tmf_one_async(&mut r)).err()),
                (true, 0) => E::Obj(TMFMesh::read_from_obj(&mut r).err()),
                (true, _) => E::Obj(TMFMesh::read_from_obj_one(&mut r).err()),
            });
            ctx.state(H::new().u(k as u64).u(f as u64).u(way as u64).u(r.calls as u64).u(r.failed as u64));
            if !r.failed {
                return Ok(());
            }
            match e {
                Err(p) => return fail(format!("panicked: {p}")),
                Ok(E::Tmf(None) | E::Obj(None)) => return fail("the error of the source is lost"),
                Ok(E::Tmf(Some(e))) => {
                    ensure!(e.to_string().contains(MARK), "the text of the error does not contain the one of the source: {e}");
                    let from = e.source().and_then(|s| s.downcast_ref::<std::io::Error>()).map(|s| s.kind());
                    ensure!(from == Some(k), "the source of the error is {from:?}");
                    match e {
                        TMFImportError::IO(e) => own(&e, k)?,
                        e => return fail(format!("an error of the source came back as {e:?}")),
                    }
                }
                Ok(E::Obj(Some(e))) => own(&e, k)?,
            }
            ctx.compared();
            Ok(())
        }),
        dfs("sink_errors", "an error of every kind at every call of the sink and on flush: TMF (list, one mesh) and OBJ", |ctx| {
            let k = MARKS[ctx.choose(MARKS.len())];
            let (name, s) = &snaps()[ctx.choose(snaps().len())];
            let way = ctx.choose(4);
            let at = ctx.choose(121);
            let flush = at == 120;
            ctx.note(|| format!("{name} way {way}, {k:?} at call {at}"));
            let m = s.build();
            let mut w = ScriptWrite::new(move |i, _| if i == at && !flush { Ans::Error(k) } else { Ans::Some(usize::MAX) });
            if flush {
                w.flush_answer = Some(k);
            }
            ctx.step();
            let p = DEF.make();
            let e: Result<Option<(std::io::Error, String)>, String> = sut(|| match way {
                0 => TMFMesh::write_tmf(&[(m.clone(), "a".to_string())], &mut w, &p).err().map(|e| (e.to_string(), e)).map(|(t, TMFExportError::IO(e))| (e, t)),
                1 => m.write_tmf_one(&mut w, &p, "a").err().map(|e| (e.to_string(), e)).map(|(t, TMFExportError::IO(e))| (e, t)),
                2 => TMFMesh::write_obj(&[(m.clone(), "a".to_string())], &mut w).err().map(|e| (e.to_string(), e)).map(|(t, e)| (e, t)),
                _ => m.write_obj_one(&mut w, "a").err().map(|e| (e.to_string(), e)).map(|(t, e)| (e, t)),
            });
            ctx.state(H::new().u(k as u64).s(name).u(way as u64).u(w.calls as u64).u(w.failed as u64));
            if !w.failed {
                return Ok(());
            }
            match e {
                Err(p) => return fail(format!("panicked: {p}")),
                Ok(None) => return fail("the error of the sink is lost"),
                Ok(Some((e, text))) => {
                    ensure!(text.contains(MARK), "the text of the error does not contain the one of the sink: {text}");
                    own(&e, k)?;
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("verify", "all index arrays up to length 3 over 0..=4, present or not, over arrays of 0..=4 entries with faulty ones in every place: what verify() names is in the mesh", |ctx| {
            let part = ctx.choose(4);
            let len = ctx.choose(6);
            let mut s = Snap::default();
            let idx: Option<Vec<u32>> = match ctx.choose(5) {
                0 => None,
                n => Some((0..n - 1).map(|_| ctx.choose(5) as u32).collect()),
            };
            let bad = ctx.choose(len.max(1) + 1);
            let how = ctx.choose(4);
            let data = len > 0;
            let uv = |i: usize| if i + 1 == bad { [(-0.25, 0.5), (0.5, 1.5), (f32::NAN, 0.0), (2.0, -3.0)][how] } else { (0.0, 1.0) };
            let nm = |i: usize| if i + 1 == bad { [(0.0, 0.0, 0.0), (1.0, 1.0, 0.0), (f32::NAN, 0.0, 0.0), (0.0, 0.9, 0.0)][how] } else { (0.0, 1.0, 0.0) };
            if part == 0 || part == 3 {
                s.v = data.then(|| vec![(1.0, 2.0, 3.0); len - 1]);
                s.vt = idx.clone();
            }
            if part == 1 || part == 3 {
                s.n = data.then(|| (0..len - 1).map(nm).collect());
                s.nt = idx.clone();
            }
            if part == 2 || part == 3 {
                s.u = data.then(|| (0..len - 1).map(uv).collect());
                s.ut = idx.clone();
            }
            ctx.note(|| format!("part {part}, {} entries, indices {idx:?}, faulty {bad} way {how}", len as i64 - 1));
            ctx.state(s.hash());
            ctx.step();
            let r = match sut(|| s.build().verify()) {
                Ok(r) => r,
                Err(p) => return fail(format!("panicked: {p}")),
            };
            use TMFIntegrityStatus as T;
            let list = match r {
                Ok(()) => vec![],
                Err(T::CompositeError(l)) => {
                    ensure!(l.len() > 1, "a composite of {} errors", l.len());
                    l.to_vec()
                }
                Err(e) => vec![e],
            };
            let out = |a: &Option<Vec<u32>>, n: usize, i: IndexType, l: IndexType| l as usize == n && i >= l && a.as_ref().is_some_and(|a| a.contains(&i.down()));
            let mut parts = vec![];
            for e in &list {
                let (part, ok) = match e {
                    T::VertexArrayMissing => (0, s.v.is_none() && s.vt.is_some()),
                    T::NormalArrayMissing => (1, s.n.is_none() && s.nt.is_some()),
                    T::UVArrayMissing => (2, s.u.is_none() && s.ut.is_some()),
                    T::IndexOutsideVertexArray(i, l) => (0, s.v.as_ref().is_some_and(|v| out(&s.vt, v.len(), *i, *l))),
                    T::IndexOutsideNormalArray(i, l) => (1, s.n.as_ref().is_some_and(|v| out(&s.nt, v.len(), *i, *l))),
                    T::IndexOutsideUVArray(i, l) => (2, s.u.as_ref().is_some_and(|v| out(&s.ut, v.len(), *i, *l))),
                    T::NormalsNotNormalized => (1, s.n.as_ref().is_some_and(|n| n.iter().any(|n| *n != (0.0, 1.0, 0.0)))),
                    T::UVOutsideRange(x, y) => {
                        let bits = |a: (f32, f32)| (a.0.to_bits(), a.1.to_bits());
                        (2, s.u.as_ref().is_some_and(|u| u.iter().any(|u| *u != (0.0, 1.0) && bits(*u) == bits((x.down(), y.down())))))
                    }
                    T::CompositeError(_) => return fail("a composite in a composite"),
                };
                ensure!(ok, "{e} is not what is wrong with the mesh");
                let text = format!("{e} {e:?}");
                let says = match e {
                    T::IndexOutsideVertexArray(i, l) | T::IndexOutsideNormalArray(i, l) | T::IndexOutsideUVArray(i, l) => text.contains(&i.to_string()) && text.contains(&l.to_string()),
                    _ => true,
                };
                ensure!(says, "the text {text} does not give the index and the length");
                ensure!(!parts.contains(&part), "two errors for part {part}");
                parts.push(part);
            }
            ctx.compared();
            Ok(())
        }),
        dfs("names", "custom data names of 0..=600 bytes (1 to 4 byte characters): NoName, NameTooLong or accepted", |ctx| {
            let c = ["a", "ż", "€", "😀"][ctx.choose(4)];
            let n = ctx.choose(601);
            let name = c.repeat(n);
            ctx.note(|| format!("{n} times {c}"));
            ctx.state(H::new().s(&name));
            ctx.step();
            let r = sut(|| TMFMesh::empty().add_custom_data(Cd::Int(vec![1], 1).make(), &name));
            let ok = match &r {
                Err(p) => return fail(format!("panicked: {p}")),
                Ok(Ok(())) => (1..=255).contains(&name.len()),
                Ok(Err(DataSegmentError::NoName)) => name.is_empty(),
                Ok(Err(DataSegmentError::NameTooLong)) => name.len() > 255,
            };
            ensure!(ok, "a name of {} bytes gave {r:?}", name.len());
            ctx.compared();
            Ok(())
        }),
    ]
}
