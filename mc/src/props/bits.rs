//! C19: the bit-level reader and writer are exact inverses.
use crate::engine::*;
use crate::ensure;
use crate::refcodec::BitW;
use crate::util::*;
use std::cell::{Cell, RefCell};
use std::io::{ErrorKind, Write};
use tmf::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};

fn mode(w: u8) -> UnalignedRWMode {
    UnalignedRWMode::precision_bits(w)
}
fn top(w: u8) -> u64 {
    if w == 0 {
        0
    } else {
        u64::MAX >> (64 - w)
    }
}
/// Boundary value number `k` of width `w`.
fn value(w: u8, k: usize) -> u64 {
    let m = top(w);
    match k {
        0 => m,
        1 => 0,
        2 => 1 & m,
        3 => m ^ (m >> 1),
        4 => 0x5555_5555_5555_5555 & m,
        5 => 0xA5C3_0F96_1234_9BDE & m,
        _ => 0x0123_4567_89AB_CDEF & m,
    }
}
/// Writes with the library and checks the layout against the reference writer.
fn write(vals: &[(u8, u64)]) -> R<Vec<u8>> {
    let mut out = vec![];
    let r = sut(|| -> std::io::Result<()> {
        let mut w = UnalignedWriter::new(&mut out);
        for (i, (b, v)) in vals.iter().enumerate() {
            if *b == 1 && i % 2 == 0 {
                w.write_bit(*v == 1)?;
            } else {
                w.write_unaligned(mode(*b), *v)?;
            }
        }
        w.flush()
    });
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return fail(format!("writing into memory failed: {e}")),
        Err(p) => return fail(format!("writing panicked: {p}")),
    }
    let mut rw = BitW::default();
    for (b, v) in vals {
        rw.put(*b, *v);
    }
    ensure!(rw.out == out, "bytes written for {} values: {:?}, expected {:?}", vals.len(), &out[..out.len().min(40)], &rw.out[..rw.out.len().min(40)]);
    Ok(out)
}
/// A sink that counts what it has taken.
struct Lent<'a, 'b>(&'a mut ScriptWrite<'b>, &'a RefCell<usize>);
impl Write for Lent<'_, '_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.0.write(b)?;
        *self.1.borrow_mut() += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    One,
    Two,
    Three,
    Pair,
    Bits,
}
/// Reads the values back grouped by the given operations; `answer` scripts the source.
/// `avail` is the number of bytes of the stream that exist (all of it, or a truncation).
fn read_back(ctx: &mut Ctx, data: &[u8], vals: &[(u8, u64)], ops: &[Op], chunk: usize) -> R {
    let mut src = ScriptRead::new(data, move |call, _| match chunk {
        0 => Ans::Some(usize::MAX),
        1 => Ans::Some(1),
        2 => Ans::Some(3),
        3 => Ans::Some(7),
        4 => if call % 2 == 0 { Ans::Interrupted } else { Ans::Some(usize::MAX) },
        5 => if call % 3 != 2 { Ans::Interrupted } else { Ans::Some(1 + call % 5) },
        6 => Ans::Some(1 + call % 9),
        _ => Ans::Some(5),
    });
    let mut i = 0;
    let mut bits = 0u64;
    let total: u64 = data.len() as u64 * 8;
    let mut rd = UnalignedReader::new(&mut src);
    let mut oi = 0;
    while i < vals.len() {
        let op = ops.get(oi).copied().unwrap_or(Op::One);
        oi += 1;
        ctx.step();
        let w = vals[i].0;
        let (n, got): (usize, Result<std::io::Result<Vec<u64>>, String>) = match op {
            Op::Two => (2, sut(|| rd.read2_unaligned(mode(w)).map(|x| vec![x.0, x.1]))),
            Op::Three => (3, sut(|| rd.read3_unaligned(mode(w)).map(|x| vec![x.0, x.1, x.2]))),
            Op::Pair => (2, sut(|| rd.read_pair_unaligned(mode(w), mode(vals[i + 1].0)).map(|x| vec![x.0, x.1]))),
            Op::Bits => (1, sut(|| {
                let mut r = 0u64;
                for _ in 0..w {
                    r = r << 1 | rd.read_bit()? as u64;
                }
                Ok(vec![r])
            })),
            Op::One => (1, sut(|| rd.read_unaligned(mode(w)).map(|x| vec![x]))),
        };
        let need: u64 = vals[i..i + n].iter().map(|x| x.0 as u64).sum();
        bits += need;
        let got = match got {
            Ok(g) => g,
            Err(p) => return fail(format!("{op:?} read of width(s) {:?} panicked: {p}", vals[i..i + n].iter().map(|x| x.0).collect::<Vec<_>>())),
        };
        match got {
            Ok(g) => {
                ensure!(bits < total + 8, "{op:?} read at bit {} of a stream of {total} bits gave {g:x?} instead of an error", bits - need);
                if bits <= total {
                    for (k, x) in g.iter().enumerate() {
                        ensure!(*x == vals[i + k].1, "value {} of width {}: wrote {:#x}, {op:?} read gave {:#x}", i + k, vals[i + k].0, vals[i + k].1, x);
                    }
                }
            }
            Err(e) => {
                ensure!(bits > total, "{op:?} read of value {i} (width {w}, bits {}..{bits} of {total}) failed: {e}", bits - need);
                ctx.compared();
                return Ok(());
            }
        }
        i += n;
    }
    ctx.compared();
    Ok(())
}
fn st(ctx: &mut Ctx, vals: &[(u8, u64)], ops: &[Op], extra: u64) {
    let mut h = H::new().u(extra);
    for v in vals {
        h = h.u(v.0 as u64).u(v.1);
    }
    for o in ops {
        h = h.u(*o as u64);
    }
    ctx.state(h);
}
/// All groupings of the values into read operations.
fn grouping(ctx: &mut Ctx, vals: &[(u8, u64)]) -> Vec<Op> {
    let mut ops = vec![];
    let mut i = 0;
    while i < vals.len() {
        let mut c = vec![Op::One, Op::Bits];
        if i + 1 < vals.len() {
            c.push(Op::Pair);
            if vals[i].0 == vals[i + 1].0 {
                c.push(Op::Two);
                if i + 2 < vals.len() && vals[i].0 == vals[i + 2].0 {
                    c.push(Op::Three);
                }
            }
        }
        let o = ctx.pick(&c);
        i += match o {
            Op::One | Op::Bits => 1,
            Op::Two | Op::Pair => 2,
            Op::Three => 3,
        };
        ops.push(o);
    }
    ops
}
const WIDTHS: [u8; 15] = [1, 8, 0, 2, 7, 9, 16, 21, 22, 31, 32, 33, 40, 63, 64];
pub fn families() -> Vec<Family> {
    vec![
        dfs("mixes", "all sequences of up to 3 widths out of 15 (all 65 for two) x boundary values x every grouping into single/double/triple/pair/bit reads", |ctx| {
            let n = 1 + ctx.choose(3);
            let mut vals = vec![];
            for _ in 0..n {
                let w = ctx.pick(&WIDTHS);
                vals.push((w, 0));
            }
            let k = ctx.choose(7);
            for (i, v) in vals.iter_mut().enumerate() {
                v.1 = value(v.0, (k + i) % 7);
            }
            let ops = grouping(ctx, &vals);
            ctx.note(|| format!("{vals:x?} read as {ops:?}"));
            st(ctx, &vals, &ops, 0);
            let out = write(&vals)?;
            read_back(ctx, &out, &vals, &ops, 0)
        }),
        dfs("pairs", "every width pair 0..=64 x 0..=64 at every bit offset 0..=7 x value classes x single/pair reads", |ctx| {
            let off = ctx.choose(8) as u8;
            let (a, b) = (ctx.choose(65) as u8, ctx.choose(65) as u8);
            let k = ctx.choose(if ctx.thorough { 7 } else { 3 });
            let op = ctx.flag();
            let mut vals = vec![];
            if off > 0 {
                vals.push((off, value(off, 1)));
            }
            vals.push((a, value(a, k)));
            vals.push((b, value(b, k + 1)));
            vals.push((3, 5));
            let mut ops = vec![];
            if off > 0 {
                ops.push(Op::One);
            }
            if op {
                ops.push(Op::Pair)
            } else {
                ops.extend([Op::One, Op::One])
            }
            ctx.note(|| format!("offset {off} widths {a}, {b} values {k} pair read {op}"));
            st(ctx, &vals, &ops, 1);
            let out = write(&vals)?;
            read_back(ctx, &out, &vals, &ops, 0)
        }),
        dfs("runs", "runs of 1..=26 values of one width 0..=64, read singly, in twos, threes and bits, from 8 kinds of sources (chunked, interrupted)", |ctx| {
            let w = ctx.choose(65) as u8;
            let n = 1 + ctx.choose(if ctx.thorough { 70 } else { 26 });
            let chunk = ctx.choose(8);
            let kind = ctx.choose(4);
            let k = ctx.choose(3);
            let vals: Vec<(u8, u64)> = (0..n).map(|i| (w, match k { 0 => top(w), 1 => value(w, i % 7), _ => (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) & top(w) })).collect();
            let mut ops = vec![];
            let mut i = 0;
            while i < n {
                let o = match kind { 1 if i + 2 <= n => Op::Two, 2 if i + 3 <= n => Op::Three, 3 => Op::Bits, _ => Op::One };
                i += match o { Op::Two => 2, Op::Three => 3, _ => 1 };
                ops.push(o);
            }
            ctx.note(|| format!("{n} values of width {w}, source kind {chunk}, read kind {kind}"));
            st(ctx, &vals, &ops, 2 + chunk as u64);
            let out = write(&vals)?;
            read_back(ctx, &out, &vals, &ops, chunk)
        }),
        dfs("chunkings", "streams of up to 12 bytes (16 thorough): every way the source can split them into reads, with and without interruptions", |ctx| {
            let seqs: [&[u8]; 5] = [&[8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8], &[13, 20, 32, 3, 7, 21], &[64, 32], &[3, 3, 3, 33, 33, 21], &[1, 63, 17, 15]];
            let s = ctx.choose(seqs.len());
            let vals: Vec<(u8, u64)> = seqs[s].iter().enumerate().map(|(i, w)| (*w, value(*w, (i + 5) % 7))).collect();
            let out = write(&vals)?;
            let max = if ctx.thorough { 12 } else { 9 };
            let cuts = ctx.choose(1 << (out.len().min(max) - 1));
            let intr = ctx.flag();
            let mut sizes = vec![];
            let mut run = 1;
            for i in 0..out.len() - 1 {
                if i < max - 1 && cuts >> i & 1 == 1 {
                    sizes.push(run);
                    run = 1;
                } else {
                    run += 1;
                }
            }
            sizes.push(run);
            ctx.note(|| format!("sequence {:?} delivered as {sizes:?} interrupted {intr}", seqs[s]));
            st(ctx, &vals, &[], cuts as u64 * 2 + intr as u64 + 100);
            // deliver exactly the chosen chunks
            let mut pos = 0usize;
            let mut k = 0usize;
            let mut left = sizes[0];
            let mut i = 0;
            let src = ScriptRead::new(&out, |call, avail| {
                if intr && call % 2 == 0 {
                    return Ans::Interrupted;
                }
                if left == 0 && k + 1 < sizes.len() {
                    k += 1;
                    left = sizes[k];
                }
                let n = left.min(avail).max(1);
                left = left.saturating_sub(n);
                pos += n;
                Ans::Some(n)
            });
            let mut rd = UnalignedReader::new(src);
            for (w, v) in &vals {
                ctx.step();
                match sut(|| rd.read_unaligned(mode(*w))) {
                    Ok(Ok(x)) => ensure!(x == *v, "value {i} of width {w}: wrote {v:#x}, read {x:#x}"),
                    Ok(Err(e)) => return fail(format!("reading value {i} failed: {e}")),
                    Err(p) => return fail(format!("reading panicked: {p}")),
                }
                i += 1;
            }
            ctx.compared();
            Ok(())
        }),
        dfs("truncated", "streams cut after every byte: values before the cut intact, an error at the latest when a whole byte is missing", |ctx| {
            let seqs: [&[u8]; 8] = [&[8; 9], &[13, 20, 32, 3, 7, 21], &[64, 32, 64], &[3, 3, 3, 33, 33, 33, 21, 21, 21], &[1, 63, 17, 15], &[32, 32, 32, 32], &[7, 7, 7, 7, 7, 7], &[40, 24, 40, 24]];
            let s = ctx.choose(seqs.len());
            let kind = ctx.choose(5);
            let chunk = ctx.choose(8);
            let vals: Vec<(u8, u64)> = seqs[s].iter().enumerate().map(|(i, w)| (*w, value(*w, i % 7))).collect();
            let out = write(&vals)?;
            let cut = ctx.choose(out.len() + 1);
            let mut ops = vec![];
            let mut i = 0;
            while i < vals.len() {
                let eq = |n: usize| i + n <= vals.len() && vals[i..i + n].iter().all(|x| x.0 == vals[i].0);
                let o = match kind { 1 if eq(2) => Op::Two, 2 if eq(3) => Op::Three, 3 => Op::Bits, 4 if i + 1 < vals.len() => Op::Pair, _ => Op::One };
                i += match o { Op::Two | Op::Pair => 2, Op::Three => 3, _ => 1 };
                ops.push(o);
            }
            ctx.note(|| format!("sequence {:?} cut to {cut} of {} bytes, read kind {kind}, source {chunk}", seqs[s], out.len()));
            st(ctx, &vals, &ops, 1000 + cut as u64 * 8 + chunk as u64);
            read_back(ctx, &out[..cut], &vals, &ops, chunk)
        }),
        dfs("flush", "flushing at any whole-byte position changes nothing; a flush at the end or dropping the writer emits the rest", |ctx| {
            let n = 1 + ctx.choose(5);
            let ws: Vec<u8> = (0..n).map(|_| ctx.pick(&[8u8, 3, 13, 16, 64])).collect();
            let at = ctx.choose(1 << n);
            let vals: Vec<(u8, u64)> = ws.iter().enumerate().map(|(i, w)| (*w, value(*w, i % 7))).collect();
            let mut bits = 0;
            let at: Vec<bool> = ws.iter().enumerate().map(|(i, w)| {
                bits += *w as usize;
                // only a flush at the end may meet a byte that is not full
                at >> i & 1 == 1 && (bits % 8 == 0 || i + 1 == n)
            }).collect();
            ctx.note(|| format!("widths {ws:?}, flushes {at:?}"));
            st(ctx, &vals, &[], at.iter().fold(5000, |a, b| a * 2 + *b as u64));
            let mut out = vec![];
            let r = sut(|| -> std::io::Result<()> {
                let mut w = UnalignedWriter::new(&mut out);
                for (i, (b, v)) in vals.iter().enumerate() {
                    w.write_unaligned(mode(*b), *v)?;
                    if at[i] {
                        w.flush()?;
                    }
                }
                Ok(())
            });
            ensure!(matches!(r, Ok(Ok(()))), "writing failed: {r:?}");
            ctx.step();
            ensure!(out == write(&vals)?, "the bytes differ with flushes in between: {out:?}");
            read_back(ctx, &out, &vals, &[], 0)
        }),
        dfs("sinks", "sinks that take everything, one byte, some bytes or are interrupted, and that fail, are full or cannot be flushed after every number of bytes around the beginning, the end and the block sizes: after a flush without error the sink has every bit, a failure is reported by a write or the flush as it is, and no call nor the drop panics", |ctx| {
            let total = ctx.pick(&[0usize, 1, 3, 9, 17, 64, 1023, 1024, 8191, 8192, 8193, 16_384, 20_000]);
            let w = ctx.pick(&[1u8, 3, 8, 13, 64]);
            let fault = ctx.choose(7);
            let at = match ctx.choose(3) {
                _ if fault == 0 || fault == 6 => total,
                0 => ctx.choose(total.min(20)+1),
                1 => total - ctx.choose(total.min(6) + 1),
                _ => [255usize, 256, 511, 512, 1023, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16_383, 16_384][ctx.choose(14)],
            };
            let chunk = ctx.pick(&[usize::MAX, 1, 3, 1000, 8191]);
            let intr = ctx.choose(3);
            let tail = ctx.choose(3) as u8 * 3;
            // whole bytes of values of one width, then some bits
            let mut vals: Vec<(u8, u64)> = (0..total * 8 / w as usize).map(|i| (w, (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) & top(w))).collect();
            if tail > 0 {
                vals.push((tail, value(tail, 5)));
            }
            ctx.note(|| format!("{} values of width {w} and {tail} bits, fault {fault} after {at} bytes, chunks of {chunk}, interruptions {intr}", vals.len()));
            ctx.state(H::new().u(total as u64 * 64 + w as u64).u(fault as u64).u(at as u64).u(chunk as u64).u(intr as u64 * 16 + tail as u64));
            let mut rw = BitW::default();
            for (b, v) in &vals {
                rw.put(*b, *v);
            }
            let want = rw.out;
            const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied];
            let hit = Cell::new(false);
            let mut left = if fault == 0 || fault == 6 { usize::MAX } else { at };
            let mut pending = 0;
            let mut sink = ScriptWrite::new(|_, avail| {
                if pending < intr {
                    pending += 1;
                    return Ans::Interrupted;
                }
                pending = 0;
                let n = avail.min(chunk).min(left);
                if n == 0 && avail > 0 {
                    hit.set(true);
                    return if fault == 5 { Ans::Some(0) } else { Ans::Error(KINDS[fault - 1]) };
                }
                left -= n;
                Ans::Some(n)
            });
            if fault == 6 {
                sink.flush_answer = Some(ErrorKind::Other);
            }
            let sent = RefCell::new(0);
            let r = sut(|| -> std::io::Result<()> {
                let mut w = UnalignedWriter::new(Lent(&mut sink, &sent));
                for (i, (b, v)) in vals.iter().enumerate() {
                    if *b == 1 && i % 2 == 0 {
                        w.write_bit(*v == 1)?;
                    } else {
                        w.write_unaligned(mode(*b), *v)?;
                    }
                }
                w.flush()?;
                // everything must be out before the writer is dropped
                if *sent.borrow() != want.len() {
                    return Err(std::io::Error::new(ErrorKind::InvalidData, format!("{} of {} bytes had reached the sink after the flush", sent.borrow(), want.len())));
                }
                Ok(())
            });
            ctx.step();
            let out = std::mem::take(&mut sink.out);
            drop(sink);
            let r = r.map_err(|p| Fail { msg: format!("panicked: {p}"), key: None, engine: false })?;
            ensure!(want.starts_with(&out), "the sink has other bytes than the values make: {} bytes", out.len());
            match r {
                Ok(()) => {
                    ensure!(!hit.get() && fault != 6, "the sink failed and no error was reported");
                    ensure!(out == want, "{} of {} bytes are in the sink, and no error was reported", out.len(), want.len());
                }
                Err(e) => {
                    let kind = match fault { 5 => ErrorKind::WriteZero, 6 => ErrorKind::Other, 0 => return fail(format!("error without a failure: {e}")), k => KINDS[k - 1] };
                    ensure!(fault == 6 || hit.get(), "the sink did not fail, and yet {e}");
                    ensure!(e.kind() == kind && (fault == 5 || e.to_string().contains(MARK)), "the sink failed with {kind:?}, reported was {e:?}");
                }
            }
            ctx.compared();
            Ok(())
        }),
        dfs("long", "thousands of values of mixed widths, from chunked and interrupted sources", |ctx| {
            let n = ctx.pick(&[1000usize, 9000, 70_001]);
            let step = 1 + ctx.choose(64);
            let chunk = ctx.choose(8);
            let vals: Vec<(u8, u64)> = (0..n).map(|i| { let w = ((i * step + i / 7) % 65) as u8; (w, (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) & top(w)) }).collect();
            ctx.note(|| format!("{n} values, widths stepping by {step}, source kind {chunk}"));
            st(ctx, &[], &[], (n * 1000 + step * 8 + chunk) as u64);
            let out = write(&vals)?;
            read_back(ctx, &out, &vals, &[], chunk)
        }),
    ]
}
