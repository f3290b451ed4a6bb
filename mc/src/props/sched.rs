//! C20 the outcome of loads and saves does not depend on task or thread scheduling.
//!
//! Built with the real tokio runtime ("full") the readers are called from every kind of place a caller may be
//! in.  Built with the controlled runtime ("sched") every scheduling decision is a choice of the explorer.
use super::bases::*;
use super::io::{meshes, tmf_err, Got};
use crate::engine::*;
#[cfg(not(feature = "sched"))]
use crate::ensure;
use crate::refcodec::*;
use crate::util::*;
#[cfg(not(feature = "sched"))]
use std::future::Future;
use std::sync::OnceLock;
use tmf::*;

#[cfg(not(feature = "sched"))]
#[inline(always)]
fn io_point() {}
#[cfg(feature = "sched")]
fn io_point() {
    tokio::ctl::point(tokio::ctl::Point::Io)
}
#[cfg(feature = "sched")]
#[inline]
pub fn alloc_point() {
    tokio::ctl::point(tokio::ctl::Point::Alloc)
}
/// A source which is a scheduling point at every read.
struct Src<'a>(&'a [u8]);
impl std::io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        io_point();
        std::io::Read::read(&mut self.0, b)
    }
}
struct Sink(Vec<u8>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        io_point();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reader {
    Sync,
    Async,
    One,
    OneAsync,
}
const ALL_READERS: [Reader; 4] = [Reader::Sync, Reader::Async, Reader::One, Reader::OneAsync];
fn poll_all<F: std::future::Future>(f: F) -> F::Output {
    #[cfg(feature = "sched")]
    return tokio::ctl::block_on(f);
    #[cfg(not(feature = "sched"))]
    futures::executor::block_on(f)
}
type Loaded = Result<Vec<(TMFMesh, String)>, TMFImportError>;
fn load_raw(r: Reader, d: &[u8]) -> Loaded {
    let mut s = Src(d);
    let one = |m: Result<(TMFMesh, String), TMFImportError>| m.map(|m| vec![m]);
    match r {
        Reader::Sync => TMFMesh::read_tmf(&mut s),
        Reader::Async => poll_all(TMFMesh::read_tmf_async(&mut s)),
        Reader::One => one(TMFMesh::read_tmf_one(&mut s)),
        Reader::OneAsync => one(poll_all(TMFMesh::read_tmf_one_async(&mut s))),
    }
}
fn got(l: Loaded) -> Got {
    match l {
        Ok(l) => meshes(&l),
        Err(e) => tmf_err(e),
    }
}
/// Files whose decoding is spread over several tasks.
fn task_files() -> &'static Vec<(String, usize, Vec<u8>)> {
    static S: OnceLock<Vec<(String, usize, Vec<u8>)>> = OnceLock::new();
    S.get_or_init(|| {
        let s = |ty, data| Seg { ty, comp: 0, data };
        let v = |x: f64| s(VERTEX, pl_vertices([x, 0.0, 0.0], [x + 1.0, 1.0, 1.0], [2, 2, 2], &[[0, 1, 2], [3, 2, 1]]));
        let n = |c| s(NORMAL, pl_normals(7, &[(c, 3, 5), (64, c, 7)]));
        let t = |a: u64| s(VTRI, pl_tris(false, 6, 1, &[a, a + 1, a + 2]));
        let nt = |a: u64| s(NTRI, pl_tris(false, 6, 0, &[a, a + 1, a + 2]));
        let ut = |a: u64| s(UTRI, pl_tris(false, 6, 0, &[a, a + 1, a + 2]));
        let uv = |c| s(UV, pl_uvs(10, &[(c, 1023), (512, c)]));
        let ta = |c| s(TANGENT, pl_tangents(5, &[(c, 2, 15), (31, c, 0)]));
        let sh = |a: u64| s(SHARED, pl_shared(false, 7, 6, 0, &[a, a + 1, a + 2]));
        let ci = |name: &[u8], x: u64| s(CINT, pl_name(name, pl_tris(false, 32, 0, &[x, x + 1])));
        let cf = |x: f64| s(CFLOAT, pl_name(b"f", pl_cfloat(x, x + 1.0, 4, &[0, 15, 8])));
        // segments that are refused when decoded, each in a way of its own
        let bad_width = || s(VTRI, pl_tris(false, 65, 0, &[]));
        let bad_width2 = || s(NTRI, pl_tris(false, 70, 0, &[]));
        let cut = || s(VERTEX, pl_vertices([0.0; 3], [1.0; 3], [2; 3], &[[0, 1, 2]])[..20].to_vec());
        let long = || {
            let mut d = pl_tris(false, 3, 0, &[]);
            d[1..9].copy_from_slice(&(1u64 << 40).to_be_bytes());
            s(UTRI, d)
        };
        let comp = || Seg { ty: VTRI, comp: 3, data: pl_tris(false, 3, 0, &[1]) };
        let mut o: Vec<(&str, Vec<Vec<Seg>>)> = vec![
            ("one", vec![vec![v(0.0)]]),
            ("two vertex segments", vec![vec![v(0.0), v(5.0)]]),
            ("three triangle segments", vec![vec![t(0), t(10), t(20)]]),
            ("shared and own", vec![vec![sh(1), t(10), sh(20), nt(30)]]),
            ("repeats of two types", vec![vec![v(0.0), n(1), v(2.0), n(3)]]),
            ("six types", vec![vec![v(0.0), n(1), uv(2), ta(3), t(0), cf(1.0)]]),
            ("repeats of three types", vec![vec![t(0), nt(1), ut(2), t(13), nt(14), ut(15)]]),
            ("custom arrays of one name", vec![vec![ci(b"x", 1), ci(b"x", 20), cf(0.0), ci(b"x", 300), cf(7.0)]]),
            ("unknown segments in between", vec![vec![t(0), s(200, vec![1]), t(9), s(INVALID, vec![]), t(17)]]),
            ("two bad", vec![vec![bad_width(), bad_width2()]]),
            ("good, bad, good, other bad", vec![vec![v(0.0), bad_width2(), n(1), long(), bad_width()]]),
            ("bad last", vec![vec![v(0.0), t(0), t(3), cut()]]),
            ("all bad", vec![vec![cut(), long(), comp(), bad_width(), bad_width2()]]),
            ("two meshes", vec![vec![v(0.0), t(0)], vec![v(5.0), t(4), v(6.0)]]),
            ("two meshes, both bad", vec![vec![v(0.0), long(), t(0)], vec![bad_width(), t(4)]]),
            ("three meshes", vec![vec![t(4), t(8)], vec![], vec![t(0), t(2)]]),
        ];
        o.push(("seven triangle segments", vec![(0..7).map(|i| t(i * 5)).collect()]));
        let mut r: Vec<(String, usize, Vec<u8>)> = o
            .into_iter()
            .map(|(n, ms)| {
                let segs = ms.iter().map(|m| m.len()).max().unwrap_or(0);
                let l: Vec<_> = ms.into_iter().enumerate().map(|(i, segs)| FileMesh { name: format!("m{i}").into_bytes(), segs }).collect();
                (n.to_string(), segs, build(false, &l))
            })
            .collect();
        // files of the old version, whose segments are laid out in another way
        let t1 = |ty, a: u64| s(ty, pl_tris(true, 9, 0, &[a, a + 1, a + 2]));
        let u1 = |a: u64| s(SHARED, pl_shared(true, 7, 9, 0, &[a, a + 1, a + 2]));
        for (n, l) in [("0.1: two types", vec![t1(VTRI, 300), t1(NTRI, 1)]), ("0.1: four", vec![v(2.0), t1(UTRI, 400), u1(7), t1(UTRI, 0)])] {
            r.push((n.to_string(), l.len(), build(true, &[FileMesh { name: b"old".to_vec(), segs: l }])));
        }
        // files this version writes: arrays cut into several segments
        for (n, s) in snaps() {
            if let Ok(b) = save(&[(s.build(), "m".into())], &DEF.make()) {
                let segs = parse(&b).map(|p| p.meshes.iter().map(|m| m.segs.len()).max().unwrap_or(0)).unwrap_or(99);
                r.push((format!("saved {n}"), segs, b));
            }
        }
        r
    })
}
/// What each file gives when loaded with nothing else going on, per reader.
fn alone() -> &'static Vec<Vec<Result<Got, String>>> {
    static S: OnceLock<Vec<Vec<Result<Got, String>>>> = OnceLock::new();
    S.get_or_init(|| {
        task_files().iter().map(|(_, _, b)| ALL_READERS.iter().map(|r| sut(|| got(load_raw(*r, b)))).collect()).collect()
    })
}
fn same(what: &str, want: &Result<Got, String>, have: &Result<Got, String>) -> R {
    match (want, have) {
        (Ok(w), Ok(h)) if w == h => Ok(()),
        (Err(p), _) => fail(format!("{what}: panicked when run alone: {p}")),
        (Ok(_), Err(p)) => fail(format!("{what}: panicked: {p}")),
        (Ok(w), Ok(h)) => fail(format!("{what}: alone {w:?}, now {h:?}")),
    }
}
#[cfg(not(feature = "sched"))]
pub fn families() -> Vec<Family> {
    vec![
        dfs("own_values", "the first file of each kind decodes to the values laid out in it", |ctx| {
            // the reference itself is right: order of appending is the order in the file
            let i = ctx.choose(task_files().len());
            let (name, _, b) = &task_files()[i];
            ctx.note(|| name.clone());
            let p = parse(b).map_err(|e| Fail { msg: format!("an independent reader cannot parse the file: {e}"), key: None, engine: false })?;
            let (_, r) = (ctx.step(), load_r(b)?);
            let mut want = vec![];
            for m in &p.meshes {
                match decode(m, p.v01) {
                    Ok(mut s) => {
                        // looking up a name finds the first array of that name
                        let mut seen = std::collections::HashSet::new();
                        s.c.retain(|c| seen.insert(c.0.clone()));
                        want.push((s, m))
                    }
                    Err(_) => {
                        ensure!(r.is_err(), "{name}: a damaged segment was accepted");
                        ctx.compared();
                        return Ok(());
                    }
                }
            }
            let r = match r {
                Ok(r) => r,
                // what is refused, and how, is compared by the other families
                Err(_) if name.contains("bad") => return Ok(()),
                Err(e) => return fail(format!("{name}: refused: {e}")),
            };
            ensure!(r.len() == want.len(), "{name}: {} meshes became {}", want.len(), r.len());
            for ((w, m), (g, _)) in want.iter().zip(&r) {
                let g = Snap::of(g, &w.names());
                if let Err(e) = same_at(w, &g, scale(m)) {
                    return fail(format!("{name}: {e}"));
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("dropped", "loads dropped after up to three polls, at once or when their tasks have had time to end, then every load", |ctx| {
            let i = ctx.choose(task_files().len());
            let one = ctx.flag();
            let (polls, wait) = (ctx.choose(4), ctx.choose(2));
            let (next, reader) = (ctx.choose(task_files().len()), ctx.choose(ALL_READERS.len()));
            let (name, _, b) = &task_files()[i];
            ctx.note(|| format!("{name} polled {polls} times and dropped, then {}, {:?}", task_files()[next].0, ALL_READERS[reader]));
            let r = sut(|| {
                let (mut s, mut s1) = (Src(b), Src(b));
                let mut all = Box::pin(async { TMFMesh::read_tmf_async(&mut s).await.is_ok() });
                let mut first = Box::pin(async { TMFMesh::read_tmf_one_async(&mut s1).await.is_ok() });
                let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                for k in 0..polls {
                    let p = if one { first.as_mut().poll(&mut cx) } else { all.as_mut().poll(&mut cx) };
                    if p.is_ready() {
                        break;
                    }
                    if wait == 1 && k + 1 < polls {
                        std::thread::yield_now();
                    }
                }
                drop((all, first));
                got(load_raw(ALL_READERS[reader], &task_files()[next].2))
            });
            ctx.steps += 2;
            same(&format!("{} after {name} was dropped", task_files()[next].0), &alone()[next][reader], &r)?;
            ctx.state([i, one as usize, polls, wait, next, reader].iter().fold(H::new(), |h, k| h.u(*k as u64)));
            ctx.compared();
            Ok(())
        }),
        overlapping(),
        crowd(),
        #[cfg(feature = "full")]
        dfs("places", "every reader from outside, from within runtimes of every kind, from tasks and blocking threads", |ctx| {
            let i = ctx.choose(task_files().len());
            let reader = ctx.pick(&ALL_READERS);
            let place = ctx.choose(10);
            let (name, _, b) = &task_files()[i];
            let is_async = matches!(reader, Reader::Async | Reader::OneAsync);
            ctx.note(|| format!("{name}, {reader:?}, place {place}"));
            let b: &'static [u8] = b;
            async fn go(reader: Reader, b: &[u8]) -> Got {
                let mut s = Src(b);
                got(match reader {
                    Reader::Async => TMFMesh::read_tmf_async(&mut s).await,
                    _ => TMFMesh::read_tmf_one_async(&mut s).await.map(|m| vec![m]),
                })
            }
            ctx.step();
            let g = match place {
                // blocking calls belong outside of a runtime or on its blocking threads
                0 => sut(|| got(load_raw(reader, b))),
                1 => sut(|| std::thread::spawn(move || got(load_raw(reader, b))).join().unwrap()),
                2 => sut(|| {
                    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                    rt.block_on(async { tokio::task::spawn_blocking(move || got(load_raw(reader, b))).await.unwrap() })
                }),
                3 => sut(|| {
                    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
                    rt.block_on(async { tokio::task::spawn_blocking(move || got(load_raw(reader, b))).await.unwrap() })
                }),
                _ if !is_async => return Ok(()),
                4 => sut(|| {
                    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                    rt.block_on(go(reader, b))
                }),
                5 => sut(|| {
                    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
                    rt.block_on(go(reader, b))
                }),
                6 => sut(|| {
                    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
                    rt.block_on(async { tokio::spawn(futures_send(go(reader, b))).await.unwrap() })
                }),
                7 => sut(|| {
                    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().unwrap();
                    rt.block_on(async {
                        let l: Vec<_> = (0..4).map(|_| tokio::spawn(futures_send(go(reader, b)))).collect();
                        let mut all = vec![];
                        for h in l {
                            all.push(h.await.unwrap());
                        }
                        for a in &all {
                            assert!(*a == all[0], "four loads at once gave different results");
                        }
                        all.pop().unwrap()
                    })
                }),
                // loads of several files at once on one thread, which is not this one
                8 => sut(|| {
                    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
                    rt.block_on(async {
                        let others: Vec<_> = task_files().iter().map(|(_, _, b)| tokio::spawn(futures_send(go(Reader::Async, b)))).collect();
                        let mine = tokio::spawn(futures_send(go(reader, b)));
                        for (h, want) in others.into_iter().zip(alone()) {
                            let have = h.await.map_err(|e| e.to_string());
                            assert!(have == want[1], "one of many loads at once: {have:?} instead of {:?}", want[1]);
                        }
                        mine.await.unwrap()
                    })
                }),
                // a runtime whose only thread is this one, several loads interleaved on it
                _ => sut(|| {
                    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                    rt.block_on(async {
                        let (a, b) = futures::future::join(go(reader, b), go(reader, b)).await;
                        assert!(a == b, "two loads at once gave different results");
                        a
                    })
                }),
            };
            let r = ALL_READERS.iter().position(|x| *x == reader).unwrap();
            same(&format!("{name}, {reader:?}, place {place}"), &alone()[i][r], &g)?;
            ctx.state(H::new().u(i as u64).u(r as u64).u(place as u64));
            ctx.compared();
            Ok(())
        }),
    ]
}
/// A whole call made by another thread while a call of this one is inside its `at`-th read or write.
#[cfg(not(feature = "sched"))]
struct Inside<'a> {
    at: usize,
    calls: usize,
    then: Option<Box<dyn FnOnce() + Send + 'a>>,
}
#[cfg(not(feature = "sched"))]
impl Inside<'_> {
    fn call(&mut self) {
        if self.calls == self.at {
            if let Some(f) = self.then.take() {
                std::thread::scope(|s| {
                    let t = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, f);
                    drop(t.map(|t| t.join()));
                });
            }
        }
        self.calls += 1;
    }
}
#[cfg(not(feature = "sched"))]
struct Stop<'d, 'h, 'a>(&'d [u8], Vec<u8>, &'h mut Inside<'a>);
#[cfg(not(feature = "sched"))]
impl std::io::Read for Stop<'_, '_, '_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.2.call();
        std::io::Read::read(&mut self.0, b)
    }
}
#[cfg(not(feature = "sched"))]
impl std::io::Write for Stop<'_, '_, '_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.2.call();
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[cfg(not(feature = "sched"))]
enum Call {
    Load(Vec<u8>),
    Save(Vec<(Snap, String)>, Prec),
    Import(Vec<u8>),
    Export(Vec<(Snap, String)>),
}
#[cfg(not(feature = "sched"))]
fn digest(l: &[(TMFMesh, String)]) -> u64 {
    let names = ["x", "y", "idx", "flt", "col", "int", "f"];
    l.iter().fold(H::new().u(l.len() as u64), |h, (m, n)| h.s(n).u(Snap::of(m, &names).hash().0)).0
}
/// The outcome of a call in short.
#[cfg(not(feature = "sched"))]
fn make(c: &Call, inside: &mut Inside) -> Result<String, String> {
    sut(|| match c {
        Call::Load(b) => match TMFMesh::read_tmf(&mut Stop(b, vec![], inside)) {
            Ok(l) => format!("{:x}", digest(&l)),
            Err(e) => format!("{e:?}"),
        },
        Call::Import(b) => match TMFMesh::read_from_obj(&mut Stop(b, vec![], inside)) {
            Ok(l) => format!("{:x}", digest(&l)),
            Err(e) => e.to_string(),
        },
        Call::Save(l, p) => {
            let l: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.clone())).collect();
            let mut w = Stop(&[], vec![], inside);
            let r = TMFMesh::write_tmf(&l, &mut w, &p.make()).map_err(|e| e.to_string());
            format!("{r:?} {:x}", H::new().bytes(&w.1).0)
        }
        Call::Export(l) => {
            let l: Vec<_> = l.iter().map(|(s, n)| (s.build(), n.clone())).collect();
            let mut w = Stop(&[], vec![], inside);
            let r = TMFMesh::write_obj(&l, &mut w).map_err(|e| e.to_string());
            format!("{r:?} {:x}", H::new().bytes(&w.1).0)
        }
    })
}
#[cfg(not(feature = "sched"))]
struct CallDef {
    name: String,
    call: Call,
    /// reads or writes it makes when nothing else is going on, and its outcome then
    calls: usize,
    want: Result<String, String>,
    large: bool,
}
#[cfg(not(feature = "sched"))]
fn calls() -> &'static Vec<CallDef> {
    static S: OnceLock<Vec<CallDef>> = OnceLock::new();
    S.get_or_init(|| {
        let mut o: Vec<(String, Call, bool)> = vec![];
        let file = |n: &str| task_files().iter().find(|f| f.0 == n).expect("a file of that name").2.clone();
        for n in ["six types", "two meshes", "saved split", "good, bad, good, other bad", "0.1: four"] {
            o.push((format!("load {n}"), Call::Load(file(n)), false));
        }
        let mut cut = file("saved everything");
        cut.truncate(cut.len() - 3);
        o.push(("load cut".into(), Call::Load(cut), false));
        for (n, s) in [("triangles", tri_snap()), ("everything", full_snap()), ("split", snaps().iter().find(|s| s.0 == "split").unwrap().1.clone())] {
            let l = vec![(s, "a".to_string()), (tri_snap(), "zażółć".to_string())];
            o.push((format!("save {n}"), Call::Save(l.clone(), DEF), false));
            o.push((format!("export {n}"), Call::Export(l), false));
        }
        for i in [1, 2, 6] {
            o.push((format!("import {i}"), Call::Import(OBJ_TEXTS[i].into()), false));
        }
        // large ones: segments of megabytes, documents of more than one buffer
        let many: Vec<u32> = (0..3_000_000u64).map(|i| (i * 7919 % 65_536) as u32).collect();
        let s = Snap { c: vec![("x".into(), Cd::Int(many, 65_535)), ("y".into(), Cd::Int(vec![1, 2], 2)), ("f".into(), Cd::Float(vec![1.0, 2.0], 0.5))], ..tri_snap() };
        if let Ok(b) = save(&[(s.build(), "big".into()), (tri_snap().build(), "small".into())], &DEF.make()) {
            o.push(("load megabytes".into(), Call::Load(b), true));
        }
        for (n, s) in big_snaps().iter().step_by(2) {
            let l = vec![(s.clone(), "big".to_string()), (full_snap(), "b".to_string())];
            if let Ok(b) = save(&l.iter().map(|x| (x.0.build(), x.1.clone())).collect::<Vec<_>>(), &DEF.make()) {
                o.push((format!("load {n}"), Call::Load(b), true));
            }
            o.push((format!("save {n}"), Call::Save(l, DEF), true));
        }
        let mut text = String::from("o a b\n");
        for i in 0..6000 {
            text += &format!("v {} {} {}\n", i % 7, i as f32 * 0.25, -i);
        }
        for i in 1..5000 {
            text += &format!("f {} {} {}\n", i, i + 1, i + 2);
        }
        o.push(("import a long text".into(), Call::Import(text.into_bytes()), true));
        o.into_iter()
            .map(|(name, call, large)| {
                let mut inside = Inside { at: usize::MAX, calls: 0, then: None };
                let want = make(&call, &mut inside);
                CallDef { name, call, calls: inside.calls, want, large }
            })
            .collect()
    })
}
#[cfg(not(feature = "sched"))]
fn overlapping() -> Family {
    dfs("overlapping", "every pair of calls out of 25, large ones among them: one made by another thread, from beginning to end, within one of the first or last 12 (40 thorough) reads or writes of the other", |ctx| {
        let outer = ctx.pick_ref(calls());
        let ends = if ctx.thorough { 40 } else { 12 };
        let k = ctx.choose(outer.calls.min(2 * ends));
        let at = if k < ends { k } else { outer.calls - outer.calls.min(2 * ends) + k };
        let inner = ctx.pick_ref(calls());
        if outer.large && inner.large && !ctx.thorough && k % 4 != 1 {
            return Ok(());
        }
        ctx.note(|| format!("{} within input/output call {at} of {}", inner.name, outer.name));
        let mut got = Err("never made".to_string());
        let mut inside = Inside { at, calls: 0, then: Some(Box::new(|| got = make(&inner.call, &mut Inside { at: usize::MAX, calls: 0, then: None }))) };
        let have = make(&outer.call, &mut inside);
        drop(inside);
        ctx.steps += 2;
        ctx.state(H::new().s(&outer.name).s(&inner.name).u(at as u64));
        ensure!(have == outer.want, "'{}' interrupted by '{}': {have:?} instead of {:?}", outer.name, inner.name, outer.want);
        ensure!(got == inner.want, "'{}' within '{}': {got:?} instead of {:?}", inner.name, outer.name, inner.want);
        ctx.compared();
        Ok(())
    })
}
#[cfg(not(feature = "sched"))]
fn crowd() -> Family {
    dfs("crowd", "up to 300 calls under way at once, each begun within one read or write of the one before, of one kind or of all kinds in turn", |ctx| {
        fn nest(which: &[usize], at: usize, out: &mut [Result<String, String>]) {
            let Some((first, rest)) = which.split_first() else { return };
            let (mine, others) = out.split_first_mut().expect("as many results as calls");
            let d = &calls()[*first];
            let mut inside = Inside { at: [0, d.calls / 2, d.calls - 1][at], calls: 0, then: Some(Box::new(|| nest(rest, at, others))) };
            *mine = make(&d.call, &mut inside);
        }
        let small: Vec<usize> = (0..calls().len()).filter(|i| !calls()[*i].large && calls()[*i].calls > 0).collect();
        let n = ctx.pick(&[3usize, 17, 70, 300]);
        let kind = ctx.choose(small.len() + 1);
        let at = ctx.choose(3);
        let which: Vec<usize> = (0..n).map(|i| if kind < small.len() { small[kind] } else { small[i % small.len()] }).collect();
        ctx.note(|| format!("{n} at once: {}, place {at}", if kind < small.len() { &calls()[small[kind]].name } else { "all kinds" }));
        let mut out = vec![Err("never made".to_string()); n];
        nest(&which, at, &mut out);
        ctx.steps += n as u64;
        for (i, (w, o)) in which.iter().zip(&out).enumerate() {
            ensure!(*o == calls()[*w].want, "'{}', number {i} of {n}: {o:?} instead of {:?}", calls()[*w].name, calls()[*w].want);
        }
        ctx.state(H::new().u(n as u64).u(kind as u64).u(at as u64));
        ctx.compared();
        Ok(())
    })
}
#[cfg(all(not(feature = "sched"), feature = "full"))]
fn futures_send<F: std::future::Future + Send>(f: F) -> F {
    f
}

// ---- controlled scheduler --------------------------------------------------------------------------
#[cfg(feature = "sched")]
pub use controlled::families;
#[cfg(feature = "sched")]
mod controlled {
    use super::*;
    use tokio::ctl::{self, Cfg};
    /// Runs the threads with every decision taken by the explorer.  With `delays`, going on with another than the
    /// first runnable thread uses up the budget even where the running one cannot go on.
    fn explore<'a>(ctx: &mut Ctx, threads: Vec<Box<dyn FnOnce() + Send + 'a>>, cfg: Cfg, delays: bool) -> R {
        let c = ctx as *mut Ctx as usize;
        let mut ask = move |free: bool, n: usize| {
            // only the one running thread asks
            let ctx = unsafe { &mut *(c as *mut Ctx) };
            if free && !delays { ctx.soft_choose(n) } else { ctx.soft_deviate(n) }
        };
        let o = ctl::run(threads, cfg, &mut ask);
        ctx.steps += o.switches;
        if o.deadlock {
            return fail(format!("deadlock: none of {} threads can go on", o.threads));
        }
        Ok(())
    }
    const ORDERS: Cfg = Cfg { spawn_free: true, io: false, alloc: false };
    /// Switches where tasks are spawned and where they end.
    const TASKS: Cfg = Cfg { spawn_free: false, io: false, alloc: false };
    const POLLED: [&str; 6] = ["two vertex segments", "two bad", "two meshes", "repeats of two types", "one", "0.1: two types"];
    async fn hand_load(reader: Reader, b: &[u8]) -> Got {
        let mut s = Src(b);
        let l = match reader {
            Reader::Async => TMFMesh::read_tmf_async(&mut s).await,
            _ => TMFMesh::read_tmf_one_async(&mut s).await.map(|m| vec![m]),
        };
        quiet_got(l)
    }
    const ALL: Cfg = Cfg { spawn_free: false, io: true, alloc: true };

    type Op = Box<dyn Fn() -> Result<Got, String> + Send + Sync>;
    struct OpDef {
        name: String,
        op: Op,
        deep: bool,
        want: Result<Got, String>,
    }
    fn bytes(b: Vec<u8>) -> Got {
        ctl::quiet(|| Got::Meshes(vec![(H::new().bytes(&b).0, format!("{} bytes", b.len()))]))
    }
    fn quiet_got(l: Loaded) -> Got {
        ctl::quiet(|| {
            let g = got(l);
            g
        })
    }
    /// A mesh that differs from `full_snap` in everything a save looks at: lengths, spans, edges, largest values, names.
    fn other_snap(all: bool) -> Snap {
        let t = vec![4, 3, 2, 2, 1, 0, 1, 4, 3];
        let mut s = Snap {
            v: Some(vec![(-30.0, 0.0, 7.0), (-30.25, 0.0, 7.0), (40.0, 900.0, 2.0), (0.0, 0.1, 0.2), (5.0, 6.0, -70.0)]),
            vt: Some(t),
            ..Default::default()
        };
        if all {
            s.n = Some(vec![unit(-1.0, 0.2, 0.1), (1.0, 0.0, 0.0)]);
            s.u = Some(vec![(0.125, 0.0), (0.25, 0.75)]);
            s.t = Some(vec![(unit(0.3, 0.3, -0.9), -1.0), (unit(1.0, 0.5, 0.25), 1.0), ((0.0, -1.0, 0.0), 1.0)]);
            s.nt = Some(vec![1, 0, 1]);
            s.ut = Some(vec![0, 1, 1, 0, 0, 1, 900]);
            s.tt = Some(vec![70_000, 3]);
            s.c = vec![("other".into(), Cd::Float(vec![100.0, -3.0, 7.0, 8.0], 2.0)), ("idx".into(), Cd::Index(vec![4000, 1], 4001)), ("flt".into(), Cd::Int(vec![3], 3))];
        }
        s
    }
    fn ops() -> &'static Vec<OpDef> {
        static S: OnceLock<Vec<OpDef>> = OnceLock::new();
        S.get_or_init(|| {
            let mut o: Vec<(String, Op)> = vec![];
            let mut load = |name: &str, r: Reader, b: Vec<u8>| {
                o.push((format!("load {name} ({r:?})"), Box::new(move || sut(|| quiet_got(load_raw(r, &b))))));
            };
            let file = |n: &str| task_files().iter().find(|f| f.0 == n).unwrap().2.clone();
            load("three triangle segments", Reader::Sync, file("three triangle segments"));
            load("repeats of two types", Reader::Sync, file("repeats of two types"));
            load("repeats of two types", Reader::Async, file("repeats of two types"));
            load("good, bad", Reader::Sync, file("good, bad, good, other bad"));
            load("two meshes", Reader::OneAsync, file("two meshes"));
            load("0.1", Reader::Sync, build(true, &hand(true)[0..1]));
            load("custom", Reader::Sync, build(false, &hand(false)[3..4]));
            let mut cut = file("repeats of two types");
            cut.truncate(cut.len() - 9);
            load("cut", Reader::Sync, cut);
            for (name, s, p) in [
                ("triangles", tri_snap(), DEF),
                ("triangles fine", tri_snap(), Prec { v: 0.001, ..DEF }),
                ("other triangles", other_snap(false), DEF),
                ("everything", full_snap(), DEF),
                ("everything else", other_snap(true), DEF),
                ("everything coarse", full_snap(), Prec { v: 0.3, n_deg: 10.0, u: (16.0, 1.0), t_deg: 15.0 }),
            ] {
                let l = vec![(s.build(), format!("mesh {name}"))];
                o.push((
                    format!("save {name}"),
                    Box::new(move || {
                        sut(|| {
                            let mut w = Sink(vec![]);
                            TMFMesh::write_tmf(&l, &mut w, &p.make()).map(|_| bytes(w.0)).unwrap_or_else(|e| Got::Other(e.to_string()))
                        })
                    }),
                ));
            }
            let l = vec![(full_snap().build(), "a".to_string()), (tri_snap().build(), "b".to_string())];
            o.push((
                "write OBJ".into(),
                Box::new(move || {
                    sut(|| {
                        let mut w = Sink(vec![]);
                        TMFMesh::write_obj(&l, &mut w).map(|_| bytes(w.0)).unwrap_or_else(|e| Got::Other(e.to_string()))
                    })
                }),
            ));
            for (i, t) in OBJ_TEXTS.iter().enumerate() {
                if i == 1 || i == 2 || i == 6 {
                    o.push((
                        format!("read OBJ {i}"),
                        Box::new(move || {
                            sut(|| {
                                let l = TMFMesh::read_from_obj(&mut Src(t.as_bytes()));
                                ctl::quiet(|| match l {
                                    Ok(l) => meshes(&l),
                                    Err(e) => Got::Io(e.kind(), e.to_string()),
                                })
                            })
                        }),
                    ));
                }
            }
            for (name, f) in [("unify", 0), ("reorder", 1), ("verify", 2), ("normalize", 3), ("buffers", 4)] {
                let base = full_snap().build();
                o.push((
                    name.into(),
                    Box::new(move || {
                        sut(|| {
                            let mut m = base.clone();
                            let mut extra = String::new();
                            match f {
                                0 => m.unify_index_data(),
                                1 => m.reorder_data(),
                                2 => extra = format!("{:?}", m.verify()),
                                3 => m.normalize(),
                                _ => extra = format!("{:?}{:?}{:?}", m.get_vertex_buffer(), m.get_normal_buffer(), m.get_uv_buffer()),
                            }
                            ctl::quiet(|| match meshes(&[(m, String::new())]) {
                                Got::Meshes(mut v) => {
                                    v[0].1 = extra;
                                    Got::Meshes(v)
                                }
                                g => g,
                            })
                        })
                    }),
                ));
            }
            o.into_iter()
                .map(|(name, op)| {
                    let want = op();
                    let deep = ["load repeats of two types (Sync)", "load good, bad (Sync)", "save triangles", "save other triangles", "save everything else", "save everything", "write OBJ", "read OBJ 2"]
                        .contains(&name.as_str());
                    OpDef { name, deep, op, want }
                })
                .collect()
        })
    }
    fn several(ctx: &mut Ctx, which: &[usize], preemptions: u32) -> R {
        let ops = ops();
        ctx.note(|| which.iter().map(|i| ops[*i].name.as_str()).collect::<Vec<_>>().join(" || "));
        ctx.set_deviations(preemptions);
        let mut res: Vec<Result<Got, String>> = which.iter().map(|_| Err("never ended".into())).collect();
        let threads = res
            .iter_mut()
            .zip(which)
            .map(|(r, i)| Box::new(move || *r = (ops[*i].op)()) as Box<dyn FnOnce() + Send>)
            .collect();
        explore(ctx, threads, ALL, true)?;
        for (r, i) in res.iter().zip(which) {
            same(&format!("'{}' while others run", ops[*i].name), &ops[*i].want, r)?;
        }
        ctx.state(which.iter().fold(H::new(), |h, i| h.u(*i as u64)));
        ctx.compared();
        Ok(())
    }
    pub fn families() -> Vec<Family> {
        // the runtime and every reference value come into being before anything is explored
        let _ = (alone(), ops());
        vec![
            dfs("task_orders", "every order of running and completing the decoding tasks of a file", |ctx| {
                let limit = if ctx.thorough { 7 } else { 6 };
                let fit: Vec<usize> = (0..task_files().len()).filter(|i| task_files()[*i].1 <= limit).collect();
                let i = ctx.pick(&fit);
                let r = if ctx.thorough || task_files()[i].1 <= 4 { ctx.choose(4) } else { 0 };
                let (name, _, b) = &task_files()[i];
                ctx.note(|| format!("{name}, {:?}", ALL_READERS[r]));
                let mut res = Err("never ended".to_string());
                explore(ctx, vec![Box::new(|| res = sut(|| quiet_got(load_raw(ALL_READERS[r], b))))], ORDERS, false)?;
                same(name, &alone()[i][r], &res)?;
                let order = ctx.trace.iter().fold(H::new(), |h, c| h.u(c.0 as u64));
                ctx.state(order);
                ctx.compared();
                Ok(())
            })
            .threaded(),
            dfs("task_interleavings", "tasks preempted at their memory requests and reads", |ctx| {
                let fit: Vec<usize> = (0..task_files().len()).filter(|i| task_files()[*i].1 <= if ctx.thorough { 6 } else { 4 }).collect();
                let i = ctx.pick(&fit);
                let (name, segs, b) = &task_files()[i];
                ctx.note(|| name.clone());
                ctx.set_deviations(if *segs <= 3 { 2 } else { 1 } + if ctx.thorough || *segs <= 2 { 1 } else { 0 });
                let mut res = Err("never ended".to_string());
                explore(ctx, vec![Box::new(|| res = sut(|| quiet_got(load_raw(Reader::Sync, b))))], ALL, false)?;
                same(name, &alone()[i][0], &res)?;
                ctx.state(H::new().u(i as u64));
                ctx.compared();
                Ok(())
            })
            .threaded(),
            dfs("two_threads", "every pair of calls in two threads, switched at reads, writes and memory requests", |ctx| {
                let n = ops().len();
                let a = ctx.choose(n);
                let b = a + ctx.choose(n - a);
                several(ctx, &[a, b], if ctx.thorough { 2 } else { 1 })
            })
            .threaded(),
            dfs("two_threads_deep", "pairs of different kinds of calls, one more switch", |ctx| {
                let some: Vec<usize> = (0..ops().len()).filter(|i| ops()[*i].deep).collect();
                let a = ctx.choose(some.len());
                let b = a + ctx.choose(some.len() - a);
                several(ctx, &[some[a], some[b]], if ctx.thorough { 3 } else { 2 })
            })
            .threaded(),
            dfs("three_threads", "every three calls in three threads", |ctx| {
                let n = ops().len();
                let a = ctx.choose(n);
                let b = a + ctx.choose(n - a);
                let c = b + ctx.choose(n - b);
                several(ctx, &[a, b, c], 1)
            })
            .threaded(),
            dfs("polled", "loads on one thread polled in every order, dropped at every point, and loads after them", |ctx| {
                let few: Vec<usize> = (0..task_files().len())
                    .filter(|i| POLLED.contains(&task_files()[*i].0.as_str()))
                    .collect();
                let n = 1 + ctx.choose(2);
                let which: Vec<(usize, Reader)> =
                    (0..n).map(|_| (ctx.pick(&few), ctx.pick(&[Reader::Async, Reader::OneAsync]))).collect();
                let after = ctx.pick(&few);
                ctx.note(|| format!("{:?}, then {}", which.iter().map(|(i, r)| format!("{} {r:?}", task_files()[*i].0)).collect::<Vec<_>>(), task_files()[after].0));
                ctx.set_deviations(3 - n as u32 + ctx.thorough as u32);
                let mut res: Vec<Option<Result<Got, String>>> = vec![None; n];
                let mut last = Err("never ended".to_string());
                let c = ctx as *mut Ctx as usize;
                let (r, l, w) = (&mut res, &mut last, &which);
                explore(
                    ctx,
                    vec![Box::new(move || {
                        // only the running thread asks
                        let choose = |n: usize| ctl::quiet(|| unsafe { &mut *(c as *mut Ctx) }.soft_choose(n));
                        let deviate = |n: usize| ctl::quiet(|| unsafe { &mut *(c as *mut Ctx) }.soft_deviate(n));
                        let mut live: Vec<_> = w
                            .iter()
                            .enumerate()
                            .map(|(k, (i, r))| (k, Box::pin(hand_load(*r, &task_files()[*i].2)), ctl::Flag::new()))
                            .collect();
                        while !live.is_empty() {
                            let ready: Vec<usize> = (0..live.len()).filter(|k| live[*k].2.is_set()).collect();
                            // otherwise: a load is dropped, or polled without need
                            let other = deviate(1 + 2 * live.len());
                            let at = if other > live.len() {
                                drop(live.remove(other - live.len() - 1));
                                continue;
                            } else if other > 0 {
                                other - 1
                            } else if ready.is_empty() {
                                ctl::wait();
                                continue;
                            } else {
                                ready[choose(ready.len())]
                            };
                            let (k, f, flag) = &mut live[at];
                            match sut(|| ctl::poll_once(f.as_mut(), flag)) {
                                Ok(std::task::Poll::Pending) => {}
                                Ok(std::task::Poll::Ready(g)) => {
                                    r[*k] = Some(Ok(g));
                                    live.remove(at);
                                }
                                Err(p) => {
                                    r[*k] = Some(Err(p));
                                    live.remove(at);
                                }
                            }
                        }
                        *l = sut(|| quiet_got(load_raw(Reader::Sync, &task_files()[after].2)));
                    })],
                    TASKS,
                    true,
                )?;
                for (k, (i, reader)) in which.iter().enumerate() {
                    if let Some(have) = &res[k] {
                        let at = ALL_READERS.iter().position(|x| x == reader).unwrap();
                        same(&format!("{} polled by hand", task_files()[*i].0), &alone()[*i][at], have)?;
                    }
                }
                same(&format!("{} after loads that were dropped", task_files()[after].0), &alone()[after][0], &last)?;
                ctx.state(ctx.trace.iter().fold(H::new(), |h, c| h.u(c.0 as u64)));
                ctx.compared();
                Ok(())
            })
            .threaded(),
            dfs("shared_mesh", "two threads using the same mesh by reference", |ctx| {
                static M: OnceLock<(TMFMesh, Vec<Result<Got, String>>)> = OnceLock::new();
                fn use_mesh(m: &TMFMesh, how: usize) -> Result<Got, String> {
                    sut(|| match how {
                        0 => {
                            let mut w = Sink(vec![]);
                            m.write_tmf_one(&mut w, &DEF.make(), "m").map(|_| bytes(w.0)).unwrap_or_else(|e| Got::Other(e.to_string()))
                        }
                        1 => {
                            let mut w = Sink(vec![]);
                            m.write_obj_one(&mut w, "m").map(|_| bytes(w.0)).unwrap_or_else(|e| Got::Other(e.to_string()))
                        }
                        2 => Got::Other(format!("{:?}", m.verify())),
                        3 => Got::Other(format!("{:?}{:?}", m.get_vertex_buffer(), m.get_normal_buffer())),
                        _ => {
                            let c = m.clone();
                            ctl::quiet(|| meshes(&[(c, String::new())]))
                        }
                    })
                }
                let (m, want) = M.get_or_init(|| {
                    let m = full_snap().build();
                    let want = (0..5).map(|i| use_mesh(&m, i)).collect();
                    (m, want)
                });
                let (a, b) = (ctx.choose(5), ctx.choose(5));
                ctx.note(|| format!("uses {a} and {b} of one mesh"));
                ctx.set_deviations(if ctx.thorough { 2 } else { 1 });
                let (mut x, mut y) = (Err("never ended".to_string()), Err("never ended".to_string()));
                explore(ctx, vec![Box::new(|| x = use_mesh(m, a)), Box::new(|| y = use_mesh(m, b))], ALL, false)?;
                same(&format!("use {a} of a shared mesh"), &want[a], &x)?;
                same(&format!("use {b} of a shared mesh"), &want[b], &y)?;
                ctx.state(H::new().u(a as u64).u(b as u64));
                ctx.compared();
                Ok(())
            })
            .threaded(),
        ]
    }
}
