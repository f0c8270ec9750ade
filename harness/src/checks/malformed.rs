//! C07: hostile patches. Every entry point that reads a patch either reports an error
//! or gives the result the format defines; it does not panic, hang or allocate out of
//! proportion to its input.
use super::codec::head;
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, PErr, ROp, WComp};
use crate::{alloc, gen};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u16, u8),
    Set(u16, u8),
    Ins(u16, u8),
    Del(u16, u8),
    Trunc(u16),
    Dup(u16, u8),
    /// insert a varint of the given continuation length ending in the byte
    Var(u16, u8, u8),
    /// overwrite the first header fields: control byte, then the varints
    Ctl(u8),
}
fn muts() -> BoxedStrategy<Vec<Mut>> {
    pvec(
        prop_oneof![
            4 => (any::<u16>(), 0u8..8).prop_map(|(p, b)| Mut::Flip(p, b)),
            3 => (any::<u16>(), prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8), 1 => Just(0x7f), 1 => Just(0x80), 1 => Just(0xC0), 1 => Just(0x3f)]).prop_map(|(p, v)| Mut::Set(p, v)),
            1 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Mut::Ins(p, v)),
            1 => (any::<u16>(), 1u8..5).prop_map(|(p, n)| Mut::Del(p, n)),
            2 => any::<u16>().prop_map(Mut::Trunc),
            1 => (any::<u16>(), 1u8..9).prop_map(|(p, n)| Mut::Dup(p, n)),
            1 => (any::<u16>(), 1u8..12, 0u8..128).prop_map(|(p, n, v)| Mut::Var(p, n, v)),
            1 => any::<u8>().prop_map(Mut::Ctl),
        ],
        1..4,
    )
    .boxed()
}
fn mutate(b: &mut Vec<u8>, ms: &[Mut]) {
    // the first bytes are the header: aim there half of the time
    let at = |p: u16, n: usize| -> usize {
        if n == 0 {
            0
        } else if p & 1 == 0 {
            (p >> 1) as usize % n.min(8)
        } else {
            (p >> 1) as usize % n
        }
    };
    for m in ms {
        let n = b.len();
        match m {
            Mut::Flip(p, k) if n > 0 => b[at(*p, n)] ^= 1 << (k & 7),
            Mut::Set(p, v) if n > 0 => b[at(*p, n)] = *v,
            Mut::Ins(p, v) => b.insert(at(*p, n), *v),
            Mut::Del(p, k) if n > 0 => {
                let a = at(*p, n);
                b.drain(a..(a + *k as usize).min(n));
            }
            Mut::Trunc(p) if n > 0 => b.truncate(*p as usize % n),
            Mut::Dup(p, k) if n > 0 => {
                let a = at(*p, n);
                let s = b[a..(a + *k as usize).min(n)].to_vec();
                for (i, x) in s.into_iter().enumerate() {
                    b.insert(a + i, x)
                }
            }
            Mut::Var(p, k, v) => {
                let a = at(*p, n);
                let mut s = vec![0xFFu8; *k as usize];
                s.push(*v & 0x7f);
                for (i, x) in s.into_iter().enumerate() {
                    b.insert(a + i, x)
                }
            }
            Mut::Ctl(v) if n > 0 => b[0] = *v,
            _ => {}
        }
    }
}

/// An in-memory sink of a fixed capacity, allocated before anything is measured.
struct Bounded {
    buf: Vec<u8>,
    len: usize,
    pos: u64,
    hit: bool,
}
const SINK: usize = 1 << 21;
impl Bounded {
    fn new() -> Self {
        Bounded { buf: vec![0; SINK], len: 0, pos: 0, hit: false }
    }
}
impl Read for Bounded {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.pos.min(self.len as u64) as usize;
        let n = b.len().min(self.len - p);
        b[..n].copy_from_slice(&self.buf[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Bounded {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.pos.saturating_add(b.len() as u64) > SINK as u64 {
            self.hit = true;
            return Err(io::Error::new(io::ErrorKind::Other, "sink full"));
        }
        let p = self.pos as usize;
        self.buf[p..p + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
        self.len = self.len.max(p + b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Bounded {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = match s {
            SeekFrom::Start(n) => n,
            SeekFrom::End(d) => (self.len as i64 + d) as u64,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

/// Peak memory an entry point may use on an input of n bytes: a small constant, one
/// section of the format's maximum size, and a factor for in-memory operations.
fn mem_bound(n: usize, compressed: bool) -> usize {
    if compressed {
        // a decompressor window and the operations of one full section
        1 << 30
    } else {
        (40 << 20) + 200 * n
    }
}
fn measured<T>(n: usize, compressed: bool, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let base = alloc::live();
    alloc::reset();
    let r = cut(f).map_err(|p| format!("{what}: {p}"));
    let (peak, req) = alloc::measure(base);
    let b = mem_bound(n, compressed);
    let r = r?;
    ensure!(peak <= b, "{what}: {peak} bytes of memory in use (largest request {req}) for an input of {n} bytes");
    Ok(r)
}

/// `strict`: the compression containers are sound, so every error is the format's.
fn probe(bytes: &[u8], src: Option<&[u8]>, pred: &[u8], containers_ok: bool, cx: &mut Cx) -> Outcome {
    let p = spec::parse_all(bytes, &Default::default());
    let strict = containers_ok || !p.compressed;
    let n = bytes.len();
    let lenient = p.secs.iter().any(|s| !s.lenient.is_empty() || !s.nested.is_empty());
    let bad_format = match &p.err {
        None => None,
        Some(PErr::Leftover(_)) => None,
        Some(e) => Some(e.clone()),
    };
    let want = if p.err.is_none() { Some(spec::interpret(&p.secs, src)) } else { None };
    cx.label_if(p.err.is_none(), "still a valid patch");
    cx.label_if(matches!(want, Some(Err(_))), "impossible copy");
    cx.label_if(bad_format.is_some(), "format violated");
    cx.label_if(p.compressed, "compressed");
    cx.label_if(lenient, "tolerable deviation");
    cx.nontrivial_if((bad_format.is_some() || matches!(want, Some(Err(_)))) && n >= 3);

    // apply
    let mut sink = Bounded::new();
    let mut pc = Cursor::new(bytes);
    let mut sc = src.map(Cursor::new);
    let r = measured(n, p.compressed, "apply_patch", || smdiff_decoder::apply_patch(&mut pc, sc.as_mut(), &mut sink))?;
    if !sink.hit {
        match (&r, &want) {
            (Ok(()), Some(Ok(w))) => ensure!(sink.len == w.len() && sink.buf[..sink.len] == w[..], "apply_patch reports success with the wrong output: {}", diff(w, &sink.buf[..sink.len])),
            (Ok(()), Some(Err(e))) => return Err(format!("apply_patch reports success on an impossible patch ({e})")),
            (Ok(()), None) => {
                if let (true, Some(e)) = (strict, &bad_format) {
                    return Err(format!("apply_patch reports success on a malformed patch ({e})"));
                }
            }
            (Err(e), Some(Ok(_))) => ensure!(lenient || (p.compressed && !containers_ok), "apply_patch rejects a valid patch: {e}"),
            (Err(_), _) => {}
        }
    }
    // a sink that already holds something: stale bytes are not output
    let mut old = Bounded::new();
    old.buf[..6000].fill(0x5A);
    old.len = 6000;
    let mut sc = src.map(Cursor::new);
    let r2 = measured(n, p.compressed, "apply_patch (used sink)", || smdiff_decoder::apply_patch(&mut Cursor::new(bytes), sc.as_mut(), &mut old))?;
    if !sink.hit && !old.hit {
        ensure!(r.is_ok() == r2.is_ok(), "apply_patch onto a sink that held other bytes: {r2:?}, onto an empty one: {r:?}");
        if r.is_ok() {
            ensure!(sink.buf[..sink.len] == old.buf[..sink.len] && old.buf[sink.len..6000.max(sink.len)].iter().all(|b| *b == 0x5A), "apply_patch gives another output onto a sink that held other bytes");
        }
    }
    // readers
    let want_ops: Vec<&Vec<ROp>> = p.secs.iter().map(|s| &s.ops).collect();
    let reader_must_fail = strict && matches!(&bad_format, Some(e) if *e != PErr::Address);
    for which in 0..3 {
        if which == 2 && p.compressed {
            continue;
        }
        let what = ["section reader (owned)", "section reader (borrowed)", "plain section reader"][which];
        let (secs, err) = measured(n, p.compressed, what, || {
            let mut secs: Vec<Vec<ROp>> = Vec::new();
            let conv = |o: &[smdiff_reader::Op]| o.iter().map(spec::from_reader_op).collect::<Vec<_>>();
            let mut a = smdiff_decoder::reader::SectionIterator::new(Cursor::new(bytes));
            let mut b = smdiff_reader::SectionIterator::new(Cursor::new(bytes));
            loop {
                let r = match which {
                    0 => a.next().map(|r| r.map(|(o, _)| conv(&o))),
                    1 => a.next_borrowed().map(|r| r.map(|(o, _)| conv(o))),
                    _ => b.next().map(|r| r.map(|(o, _)| conv(&o))),
                };
                match r {
                    None => return (secs, None),
                    Some(Ok(s)) => secs.push(s),
                    Some(Err(e)) => return (secs, Some(e)),
                }
                if secs.len() > n + 1 {
                    return (secs, Some(io::Error::new(io::ErrorKind::Other, "endless")));
                }
            }
        })?;
        ensure!(secs.len() <= n, "{what}: more sections than bytes");
        if err.is_none() {
            ensure!(!reader_must_fail, "{what}: reads a malformed patch ({}) without an error", bad_format.clone().unwrap());
            if p.err.is_none() {
                ensure!(secs.iter().eq(want_ops.iter().copied()), "{what}: reads other operations than the patch contains: {}", secs.first().map(|s| head(s)).unwrap_or_default());
            }
        } else if p.err.is_none() {
            ensure!(lenient || (p.compressed && !containers_ok), "{what}: rejects a valid patch: {}", err.unwrap());
        }
    }
    // extraction, merging, transcoding: no panic; errors where the format is violated
    let r = measured(n, true, "extract_patch_instructions", || smdiff_merger::extract_patch_instructions(Cursor::new(bytes)))?;
    match &r {
        Ok((v, _)) => {
            ensure!(!reader_must_fail, "extract_patch_instructions reads a malformed patch ({}) without an error", bad_format.clone().unwrap());
            if p.err.is_none() {
                ensure!(v.iter().map(|(_, o)| spec::from_reader_op(o)).eq(want_ops.iter().flat_map(|o| o.iter().cloned())), "extract_patch_instructions yields other operations");
            }
        }
        Err(e) => ensure!(p.err.is_some() || lenient || (p.compressed && !containers_ok) || unsatisfiable(&p.secs), "extract_patch_instructions rejects a valid patch: {e}"),
    }
    if let Ok((v, _)) = r {
        measured(n, true, "deref_copy_o", || smdiff_merger::deref_copy_o(v))?;
    }
    for (what, a, b) in [("Merger (hostile terminal patch)", bytes, pred), ("Merger (hostile predecessor)", pred, bytes)] {
        measured(n, true, what, || -> io::Result<()> {
            if let Ok(m) = smdiff_merger::Merger::new(Cursor::new(a))? {
                match m.merge(Cursor::new(b))? {
                    Ok(m) => m.finish(),
                    Err(s) => s,
                }
                .take_ops();
            }
            Ok(())
        })?
        .ok();
    }
    for seg in [false, true] {
        let mut w = Vec::new();
        let r = measured(n, true, "transcode", || smdiff_merger::transcoder::transcode(&mut Cursor::new(bytes), &mut w, super::codec::fmt(seg), None, 1 << 20))?;
        if r.is_ok() {
            ensure!(!reader_must_fail, "transcode accepts a malformed patch ({})", bad_format.clone().unwrap());
        }
    }
    cx.sub_evals += 10;
    Ok(())
}
/// A copy that no source satisfies: past the bytes written so far, or past 2^64.
fn unsatisfiable(secs: &[spec::RSection]) -> bool {
    let mut out = 0u64;
    for o in secs.iter().flat_map(|s| &s.ops) {
        if let ROp::CopyO { addr, len } = o {
            if addr.checked_add(*len as u64).map(|e| e > out).unwrap_or(true) {
                return true;
            }
        }
        if let ROp::CopyD { addr, len } = o {
            if addr.checked_add(*len as u64).is_none() {
                return true;
            }
        }
        out += o.len() as u64;
    }
    false
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MutCase {
    pub src: Option<Vec<Seg>>,
    pub secs: Vec<ASec>,
    pub muts: Vec<Mut>,
}
fn small_src() -> BoxedStrategy<Option<Vec<Seg>>> {
    prop_oneof![1 => Just(None), 3 => pvec(seg((0u32..60).boxed()), 0..3).prop_map(Some)].boxed()
}
fn mut_len() -> BoxedStrategy<u16> {
    prop_oneof![6 => 1u16..12, 1 => prop::sample::select(vec![62u16, 63, 64, 255, 256, 317, 318])].boxed()
}
fn s_mut() -> BoxedStrategy<MutCase> {
    (small_src(), pvec(asec(mut_len(), 0..7, true, Just(WComp::None).boxed()), 1..4), muts()).prop_map(|(src, secs, muts)| MutCase { src, secs, muts }).boxed()
}
fn s_mut_comp() -> BoxedStrategy<MutCase> {
    (small_src(), pvec(asec(mut_len(), 0..7, true, wcomp()), 1..4), muts()).prop_map(|(src, secs, muts)| MutCase { src, secs, muts }).boxed()
}
/// A valid predecessor that produces `n` bytes.
fn pred_for(n: usize) -> Vec<u8> {
    let mut w = Vec::new();
    let ops: Vec<ROp> = if n == 0 { vec![] } else { vec![ROp::Add(gen::build(&[Seg::Rand(3, n as u32)])), ROp::CopyD { addr: 0, len: 9 }] };
    spec::ser_section(&mut w, &ops, false, false, &WComp::None, &[]);
    w
}
fn run_mut(c: &MutCase, cx: &mut Cx) -> Outcome {
    let src = c.src.as_ref().map(|s| build(s));
    let s = src.clone().unwrap_or_default();
    let b = build_patch(&c.secs, &s, 1 << 16);
    let mut bytes = b.bytes.clone();
    mutate(&mut bytes, &c.muts);
    probe(&bytes, src.as_deref(), &pred_for(s.len()), false, cx)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    pub src: Option<Vec<Seg>>,
    pub ctl: u8,
    pub nops: u8,
    pub bytes: Vec<u8>,
}
fn s_raw() -> BoxedStrategy<RawCase> {
    let byte = prop_oneof![3 => any::<u8>(), 2 => prop::sample::select(vec![0u8, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xff])];
    (small_src(), prop_oneof![3 => Just(0u8), 3 => Just(0x40u8), 2 => any::<u8>(), 1 => Just(0x80u8), 1 => Just(0xC0)], 0u8..6, pvec(byte, 0..40))
        .prop_map(|(src, ctl, nops, bytes)| RawCase { src, ctl, nops, bytes })
        .boxed()
}
fn run_raw(c: &RawCase, cx: &mut Cx) -> Outcome {
    let src = c.src.as_ref().map(|s| build(s));
    let mut b = vec![c.ctl, c.nops];
    b.extend_from_slice(&c.bytes);
    probe(&b, src.as_deref(), &pred_for(5), false, cx)?;
    probe(&c.bytes, src.as_deref(), &pred_for(5), false, &mut Cx::default())
}

// ------------------------------------------------------------ structured lies

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Lie {
    None,
    Delta(i32),
    Abs(u64),
    /// the true value plus this multiple of 2^32
    Wrap(u8),
    /// correct value with k padding bytes
    Overlong(u8),
    /// a varint of more than ten bytes
    Endless(u8),
}
fn lie() -> BoxedStrategy<Lie> {
    prop_oneof![
        10 => Just(Lie::None),
        2 => prop_oneof![Just(1i32), Just(-1), -70_000i32..70_000].prop_map(Lie::Delta),
        2 => prop::sample::select(vec![128i32, 256, 512, 16_384, 32_768, 65_536, 131_072, 1 << 21, 1 << 23]).prop_map(Lie::Delta),
        2 => prop_oneof![prop::sample::select(vec![0u64, 1, (1 << 24) - 1, 1 << 24, u32::MAX as u64 - 1, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 40, i64::MAX as u64, u64::MAX - 3, u64::MAX]), any::<u64>()].prop_map(Lie::Abs),
        2 => (1u8..5).prop_map(Lie::Wrap),
        1 => (1u8..4).prop_map(Lie::Overlong),
        1 => (10u8..14).prop_map(Lie::Endless),
    ]
    .boxed()
}
fn put_lie(out: &mut Vec<u8>, v: u64, l: &Lie) {
    match l {
        Lie::None => spec::put_uvar(out, v),
        Lie::Delta(d) => spec::put_uvar(out, (v as i128 + *d as i128).max(0) as u64),
        Lie::Abs(a) => spec::put_uvar(out, *a),
        Lie::Wrap(k) => spec::put_uvar(out, v + ((*k as u64) << 32)),
        Lie::Overlong(k) => {
            let mut t = Vec::new();
            spec::put_uvar(&mut t, v);
            *t.last_mut().unwrap() |= 0x80;
            for _ in 1..*k {
                t.push(0x80)
            }
            t.push(0);
            out.extend(t)
        }
        Lie::Endless(k) => {
            for _ in 0..*k {
                out.push(0x80 | (v as u8 & 0x7f))
            }
            out.push(1)
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spoil {
    /// size 0, written as u16
    Zero,
    /// a run with a u8 (true) or u16 size indicator
    RunInd(bool, u8),
    /// absolute address set to this distance past the end of what it may read
    Past(u32),
    /// negative absolute address
    Neg(u32),
    Addr(u64),
    AddrLie(u8),
    /// more bytes claimed than follow
    Size(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadSec {
    pub ops: Vec<AOp>,
    pub seg: bool,
    pub comp: WComp,
    pub version: u8,
    pub algo: Option<u8>,
    pub nops: Lie,
    pub adds: Lie,
    pub out: Lie,
    pub spoils: Vec<(u8, Spoil)>,
    /// drop this many payload bytes from the end
    pub cut: u8,
    pub leftover: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LieCase {
    pub src: Option<Vec<Seg>>,
    pub secs: Vec<BadSec>,
    pub ends: bool,
}
fn s_lie_with(comp: BoxedStrategy<WComp>) -> BoxedStrategy<LieCase> {
    let spoil = prop_oneof![
        2 => Just(Spoil::Zero),
        1 => (any::<bool>(), 0u8..30).prop_map(|(a, b)| Spoil::RunInd(a, b)),
        3 => prop_oneof![Just(1u32), 0u32..30, any::<u32>()].prop_map(Spoil::Past),
        1 => prop_oneof![Just(1u32), any::<u32>()].prop_map(Spoil::Neg),
        1 => prop_oneof![Just(u64::MAX), Just(1u64 << 63), Just((1u64 << 63) - 1), Just((1u64 << 63) + 1), any::<u64>()].prop_map(Spoil::Addr),
        1 => (9u8..13).prop_map(Spoil::AddrLie),
        1 => prop_oneof![Just(65_535u16), any::<u16>()].prop_map(Spoil::Size),
    ];
    let sec = (
        pvec(aop(mut_len(), true), 0..7),
        any::<bool>(),
        comp,
        prop_oneof![12 => Just(0u8), 1 => 1u8..8],
        prop::option::weighted(0.04, 4u8..8),
        (lie(), lie(), lie()),
        prop_oneof![3 => Just(vec![]), 3 => pvec((any::<u8>(), spoil), 1..3)],
        prop_oneof![12 => Just(0u8), 1 => 1u8..5],
        prop_oneof![12 => Just(0u8), 1 => 1u8..5],
    )
        .prop_map(|(ops, seg, comp, version, algo, (nops, adds, out), spoils, cut, leftover)| BadSec { ops, seg, comp, version, algo, nops, adds, out, spoils, cut, leftover });
    (small_src(), pvec(sec, 1..4), prop::bool::weighted(0.9)).prop_map(|(src, secs, ends)| LieCase { src, secs, ends }).boxed()
}
fn s_lie() -> BoxedStrategy<LieCase> {
    s_lie_with(Just(WComp::None).boxed())
}
fn s_lie_comp() -> BoxedStrategy<LieCase> {
    s_lie_with(wcomp())
}
/// Nothing wrong with the format, only with what is copied.
fn s_impossible() -> BoxedStrategy<LieCase> {
    let spoil = prop_oneof![
        5 => prop_oneof![3 => Just(0u32), 2 => 0u32..30, 1 => any::<u32>()].prop_map(Spoil::Past),
        1 => Just(Spoil::Neg(1)),
        1 => prop_oneof![Just(u64::MAX - 1), Just((1u64 << 63) - 2), Just(1u64 << 63), any::<u64>().prop_map(|a| a & !1)].prop_map(Spoil::Addr),
    ];
    let op = prop_oneof![2 => aop(mut_len(), true), 1 => (any::<u32>(), mut_len()).prop_map(|(a, n)| AOp::D(a, n)), 1 => (any::<u32>(), mut_len()).prop_map(|(a, n)| AOp::O(a, n))];
    let sec = (pvec(op, 1..7), any::<bool>(), prop_oneof![4 => Just(WComp::None), 1 => wcomp()], pvec((any::<u8>(), spoil), 0..3))
        .prop_map(|(ops, seg, comp, spoils)| BadSec { ops, seg, comp, version: 0, algo: None, nops: Lie::None, adds: Lie::None, out: Lie::None, spoils, cut: 0, leftover: 0 });
    (small_src(), pvec(sec, 1..4)).prop_map(|(src, secs)| LieCase { src, secs, ends: true }).boxed()
}
fn build_lies(c: &LieCase, src: &[u8]) -> Vec<u8> {
    let mut bytes = Vec::new();
    let mut out_len = 0u64;
    for (si, s) in c.secs.iter().enumerate() {
        let start = out_len;
        let ops = resolve(&s.ops, src.len() as u64, &mut out_len, 1 << 16);
        let mut payload = Vec::new();
        let mut tail = Vec::new();
        let (mut da, mut oa) = (0u64, 0u64);
        let mut cur = start;
        for (i, o) in ops.iter().enumerate() {
            let sp = s.spoils.iter().find(|(k, _)| *k as usize % ops.len() == i).map(|x| &x.1);
            let ty: u8 = match o {
                ROp::CopyD { .. } => 0,
                ROp::CopyO { .. } => 0x40,
                ROp::Add(_) => 0x80,
                ROp::Run { .. } => 0xC0,
            };
            let n = o.len();
            match sp {
                Some(Spoil::Zero) => payload.extend_from_slice(&[ty, 0, 0]),
                Some(Spoil::RunInd(true, v)) if ty == 0xC0 => payload.extend_from_slice(&[0xFF, *v]),
                Some(Spoil::RunInd(false, v)) if ty == 0xC0 => payload.extend_from_slice(&[0xC0, *v, 0]),
                Some(Spoil::Size(v)) if ty != 0xC0 => {
                    payload.push(ty);
                    payload.extend_from_slice(&v.to_le_bytes())
                }
                _ if n <= 62 => payload.push(ty | n as u8),
                _ => {
                    payload.push(ty);
                    payload.extend_from_slice(&(n as u16).to_le_bytes())
                }
            }
            match o {
                ROp::Add(b) => {
                    if s.seg {
                        tail.extend_from_slice(b)
                    } else if !matches!(sp, Some(Spoil::Zero)) {
                        payload.extend_from_slice(b)
                    }
                }
                ROp::Run { byte, .. } => payload.push(*byte),
                ROp::CopyD { addr, len } | ROp::CopyO { addr, len } => {
                    let base = if ty == 0 { &mut da } else { &mut oa };
                    let limit = if ty == 0 { src.len() as u64 } else { cur };
                    let z = match sp {
                        Some(Spoil::Past(d)) => spec::zig((limit + 1 + *d as u64) as i128 - *len as i128 - *base as i128),
                        Some(Spoil::Neg(d)) => spec::zig(-(*base as i128) - *d as i128),
                        Some(Spoil::Addr(z)) => *z,
                        _ => spec::zig(*addr as i128 - *base as i128),
                    };
                    if let Some(Spoil::AddrLie(k)) = sp {
                        put_lie(&mut payload, z, &Lie::Endless(*k));
                    } else {
                        spec::put_uvar(&mut payload, z);
                    }
                    *base = (*base as i128 + spec::unzig(z)) as u64;
                }
            }
            cur += n as u64;
        }
        payload.extend(tail);
        payload.truncate(payload.len().saturating_sub(s.cut as usize));
        payload.extend(std::iter::repeat(0xC1).take(s.leftover as usize));
        let more = si + 1 < c.secs.len() || !c.ends;
        bytes.push(s.algo.unwrap_or(s.comp.algo()) << 3 | (s.seg as u8) << 6 | (more as u8) << 7 | s.version);
        put_lie(&mut bytes, ops.len() as u64, &s.nops);
        let total: u64 = ops.iter().map(|o| o.len() as u64).sum();
        let adds: u64 = ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
        if s.seg {
            put_lie(&mut bytes, adds, &s.adds);
            put_lie(&mut bytes, total - adds, &s.out);
        } else {
            put_lie(&mut bytes, total, &s.out);
        }
        bytes.extend(spec::compress(&payload, &s.comp));
    }
    bytes
}
fn run_lie(c: &LieCase, cx: &mut Cx) -> Outcome {
    let src = c.src.as_ref().map(|s| build(s));
    let s = src.clone().unwrap_or_default();
    let bytes = build_lies(c, &s);
    for b in &c.secs {
        cx.label_if(!b.spoils.is_empty() && !b.ops.is_empty(), "spoiled operation");
        cx.label_if(!matches!((&b.nops, &b.adds, &b.out), (Lie::None, Lie::None, Lie::None)), "lying header");
        cx.label_if(b.algo.is_some(), "unspecified algorithm");
    }
    // with a known payload container only unspecified algorithms may desynchronise
    probe(&bytes, src.as_deref(), &pred_for(s.len()), true, cx)
}

/// Histories of patches that do not fit together: the merge is an error, not a panic.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MisfitCase {
    pub a: Vec<ASec>,
    pub b: Vec<ASec>,
    pub src: u16,
}
fn s_misfit() -> BoxedStrategy<MisfitCase> {
    (pvec(asec(op_len(), 0..6, true, Just(WComp::None).boxed()), 1..3), pvec(asec(op_len(), 0..6, true, Just(WComp::None).boxed()), 1..3), 0u16..500).prop_map(|(a, b, src)| MisfitCase { a, b, src }).boxed()
}
fn run_misfit(c: &MisfitCase, cx: &mut Cx) -> Outcome {
    let d = build(&[Seg::Rand(1, c.src as u32 + 1)]);
    // the terminal patch expects a dictionary of 3000 bytes whatever the predecessor makes
    let big = build(&[Seg::Rand(2, 3000)]);
    let a = build_patch(&c.a, &big, 1 << 16);
    let b = build_patch(&c.b, &d, 1 << 16);
    let need = a.secs.iter().flatten().filter_map(|o| if let ROp::CopyD { addr, len } = o { Some(addr + *len as u64) } else { None }).max().unwrap_or(0);
    let r = cut(|| -> io::Result<Option<Vec<smdiff_reader::Op>>> {
        Ok(match smdiff_merger::Merger::new(Cursor::new(&a.bytes))? {
            Err(s) => Some(s.take_ops()),
            Ok(m) => match m.merge(Cursor::new(&b.bytes))? {
                Ok(m) => Some(m.finish().take_ops()),
                Err(s) => Some(s.take_ops()),
            },
        })
    })
    .map_err(|p| format!("merging a predecessor that is too short: {p}"))?;
    let fits = need <= b.output.len() as u64;
    cx.label_if(!fits, "predecessor too short");
    cx.nontrivial_if(!fits);
    // copies of dictionary bytes that the terminal output never keeps do not exist, so every
    // dictionary copy of the terminal patch must be answered
    ensure!(fits || r.is_err(), "the terminal patch reads {need} bytes of its dictionary, the predecessor makes {}, yet the merge succeeds", b.output.len());
    ensure!(!fits || r.is_ok(), "merging patches that fit fails: {:?}", r.err());
    Ok(())
}

/// Small inputs that would need a lot of memory if the reader only believed in what is there
/// instead of in the format's limits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BombCase {
    /// a segregated section of `n` adds of 65535 bytes (three bytes each) that announces less output
    Outgrow { n: u32, out: u32, comp: WComp },
    /// a smdiff payload of `sections` full sections made of output copies
    Nested { sections: u8, nops: u32, out: u32, seg: bool },
}
fn s_bomb() -> BoxedStrategy<BombCase> {
    let out = prop::sample::select(vec![0u32, 1, 70_000, 1 << 20, (1 << 24) - 1]);
    prop_oneof![
        1 => (20_000u32..45_000, out.clone(), prop_oneof![1 => Just(WComp::None), 2 => wcomp()]).prop_map(|(n, out, comp)| BombCase::Outgrow { n, out, comp }),
        1 => (16u8..160, prop_oneof![Just(1u32), Just(1000), Just(1 << 23), Just(u32::MAX)], out, any::<bool>()).prop_map(|(sections, nops, out, seg)| BombCase::Nested { sections, nops, out, seg }),
    ]
    .boxed()
}
fn run_bomb(c: &BombCase, cx: &mut Cx) -> Outcome {
    let mut b = Vec::new();
    let (comp, bad) = match c {
        BombCase::Outgrow { n, out, comp } => {
            b.push(0x40 | comp.algo() << 3);
            spec::put_uvar(&mut b, *n as u64);
            spec::put_uvar(&mut b, 0);
            spec::put_uvar(&mut b, *out as u64);
            let mut payload = Vec::with_capacity(*n as usize * 3);
            for _ in 0..*n {
                payload.extend_from_slice(&[0x80, 0xff, 0xff])
            }
            b.extend(spec::compress(&payload, comp));
            (!matches!(comp, WComp::None), true)
        }
        BombCase::Nested { sections, nops, out, seg } => {
            b.push(1 << 3 | (*seg as u8) << 6);
            spec::put_uvar(&mut b, *nops as u64);
            if *seg {
                spec::put_uvar(&mut b, 0);
            }
            spec::put_uvar(&mut b, *out as u64);
            for s in 0..*sections {
                let mut ops = Vec::new();
                let mut len = 0u64;
                if s == 0 {
                    ops.push(ROp::Add([0xC1, 7].repeat(32)));
                    len = 64;
                    while len < 65_534 {
                        let k = len.min(65_534 - len);
                        ops.push(ROp::CopyO { addr: 0, len: k as u16 });
                        len += k;
                    }
                }
                while len + 65_534 < 1 << 24 {
                    ops.push(ROp::CopyO { addr: 0, len: 65_534 });
                    len += 65_534;
                }
                spec::ser_section(&mut b, &ops, false, s + 1 < *sections, &WComp::None, &[]);
            }
            // valid (but for unused bytes) when exactly the announced runs are read
            (true, nops != out || *seg && *nops > 0)
        }
    };
    cx.nontrivial_if(true);
    cx.label(if matches!(c, BombCase::Nested { .. }) { "nested bomb" } else { "outgrowing section" });
    let n = b.len();
    let mut sink = Bounded::new();
    let r = measured(n, comp, "apply_patch", || smdiff_decoder::apply_patch(&mut Cursor::new(&b), None::<&mut Cursor<Vec<u8>>>, &mut sink))?;
    ensure!(!(bad && r.is_ok()), "apply_patch reports success although the operations do not make the announced output");
    measured(n, comp, "section reader", || smdiff_decoder::reader::SectionIterator::new(Cursor::new(&b)).next().map(|r| r.map(|_| ())))?;
    if !comp {
        measured(n, comp, "plain section reader", || smdiff_reader::SectionIterator::new(Cursor::new(&b)).next().map(|r| r.map(|_| ())))?;
    }
    measured(n, comp, "extract_patch_instructions", || smdiff_merger::extract_patch_instructions(Cursor::new(&b)).map(|_| ()))?.ok();
    Ok(())
}

/// Large literals of which many short pieces are used: what is kept of a piece is the piece.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SliverCase {
    /// lengths of the literals
    pub adds: Vec<u16>,
    pub runs: bool,
    /// where the pieces start and how long they are, gone through again and again
    pub pieces: Vec<(u32, u16)>,
    pub n: u16,
    /// 0: output copies of a terminal patch, 1: of a predecessor, 2: dictionary copies of the terminal patch,
    /// 3: slices of the extracted patch
    pub how: u8,
    pub seg: bool,
}
fn s_sliver() -> BoxedStrategy<SliverCase> {
    let piece = (any::<u32>(), prop_oneof![4 => 1u16..8, 2 => 1u16..60, 1 => 1u16..400]);
    (pvec(prop_oneof![2 => 60_000u16..=65_535, 1 => 1u16..=65_535], 1..4), any::<bool>(), pvec(piece, 1..40), 500u16..3000, 0u8..4, any::<bool>())
        .prop_map(|(adds, runs, pieces, n, how, seg)| SliverCase { adds, runs, pieces, n, how, seg })
        .boxed()
}
fn run_sliver(c: &SliverCase, cx: &mut Cx) -> Outcome {
    let mut base: Vec<ROp> = Vec::new();
    let mut made = 0u64;
    for (i, n) in c.adds.iter().enumerate() {
        base.push(ROp::Add(gen::build(&[Seg::Rand(i as u32, *n as u32)])));
        made += *n as u64;
        if c.runs {
            base.push(ROp::Run { byte: i as u8, len: 62 });
            made += 62;
        }
    }
    let mut pieces = Vec::with_capacity(c.n as usize);
    let mut total = 0u64;
    for i in 0..c.n as usize {
        let (at, len) = &c.pieces[i % c.pieces.len()];
        let len = (*len as u64).min(made);
        let addr = (*at as u64).wrapping_add(i as u64 * 7) % (made - len + 1);
        pieces.push((addr, len as u16));
        total += len;
    }
    let patch = |ops: &[ROp]| {
        let mut b = Vec::new();
        spec::ser_section(&mut b, ops, c.seg, false, &WComp::None, &[]);
        b
    };
    let mut with = base.clone();
    with.push(ROp::CopyD { addr: 0, len: 1 });
    let all = |dict: bool| pieces.iter().map(|(addr, len)| if dict { ROp::CopyD { addr: *addr, len: *len } } else { ROp::CopyO { addr: *addr, len: *len } }).collect::<Vec<_>>();
    // literals, their pieces and the operations, each a few times over
    let bound = (8 << 20) + 8 * (made + total) as usize + 600 * c.n as usize;
    let start = alloc::live();
    alloc::reset();
    let what;
    let got: u64 = match c.how % 4 {
        0 => {
            what = "merging a terminal patch with output copies";
            let p = patch(&[with, all(false)].concat());
            let m = cut(|| smdiff_merger::Merger::new(Cursor::new(p)))?.map_err(|e| e.to_string())?.map_err(|_| "the merge is finished although a dictionary byte is needed")?;
            let ops = m.finish().take_ops();
            ops.iter().map(|o| o.oal() as u64).sum::<u64>() - made - 1
        }
        1 | 2 => {
            what = "merging";
            let (t, p) = if c.how % 4 == 1 {
                (patch(&[ROp::CopyD { addr: made + 1, len: total.min(65_535) as u16 }]), patch(&[with, all(false)].concat()))
            } else {
                (patch(&all(true)), patch(&with))
            };
            let m = cut(|| smdiff_merger::Merger::new(Cursor::new(t)))?.map_err(|e| e.to_string())?.map_err(|_| "the merge is finished although a dictionary byte is needed")?;
            let s = match cut(|| m.merge(Cursor::new(p)))?.map_err(|e| e.to_string())? {
                Ok(m) => m.finish(),
                Err(s) => s,
            };
            let n = s.take_ops().iter().map(|o| o.oal() as u64).sum::<u64>();
            if c.how % 4 == 1 { n + total - total.min(65_535) } else { n }
        }
        _ => {
            what = "slicing";
            let (ops, _) = cut(|| smdiff_merger::extract_patch_instructions(Cursor::new(patch(&with))))?.map_err(|e| e.to_string())?;
            let slices: Vec<_> = pieces.iter().map(|(a, n)| smdiff_merger::get_exact_slice(&ops, *a, *n as u32)).collect();
            slices.iter().flatten().flatten().map(|o| o.1.oal() as u64).sum()
        }
    };
    let (peak, _) = alloc::measure(start);
    cx.nontrivial_if(c.n as u64 * (made / (c.adds.len() as u64)) > 4 * bound as u64);
    cx.label(what);
    ensure!(got == total, "{what}: {got} bytes instead of {total}");
    ensure!(peak <= bound, "{what}: {peak} bytes of memory for {} pieces of together {total} bytes and {made} bytes of literals", c.n);
    Ok(())
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "the input violates the format or asks for an impossible copy, and is at least three bytes long",
        assumptions: vec![
            "tolerated either way: non-zero version bits, a wrong add-byte count, overlong in-range varints, unused bytes in a compressed payload, compressed sections inside a nested smdiff payload",
            "for damaged zstd/brotli containers only panics, hangs, memory and disagreement with a successful reference decode are judged",
            "memory bound: 40 MiB + 200 bytes per input byte; 1 GiB where a decompressor or a merge is involved; for many pieces of large literals 8 MiB, 8 bytes per byte and 600 per operation",
            "the output sink is capped at 2 MiB; larger outputs are not compared",
        ],
        families: vec![
            Box::new(Family { name: "mutated", quick: 180_000, thorough: 15_000_000, strat: s_mut, run: run_mut }),
            Box::new(Family { name: "mutated-compressed", quick: 60_000, thorough: 5_000_000, strat: s_mut_comp, run: run_mut }),
            Box::new(Family { name: "raw", quick: 180_000, thorough: 15_000_000, strat: s_raw, run: run_raw }),
            Box::new(Family { name: "lies", quick: 180_000, thorough: 15_000_000, strat: s_lie, run: run_lie }),
            Box::new(Family { name: "lies-compressed", quick: 60_000, thorough: 5_000_000, strat: s_lie_comp, run: run_lie }),
            Box::new(Family { name: "impossible", quick: 150_000, thorough: 10_000_000, strat: s_impossible, run: run_lie }),
            Box::new(Family { name: "misfit", quick: 60_000, thorough: 4_000_000, strat: s_misfit, run: run_misfit }),
            Box::new(Family { name: "bombs", quick: 120, thorough: 7_500, strat: s_bomb, run: run_bomb }),
            Box::new(Family { name: "slivers", quick: 1_200, thorough: 40_000, strat: s_sliver, run: run_sliver }),
        ],
        floors: vec![("slicing", 100), ("merging", 200), ("merging a terminal patch with output copies", 100), ("nested bomb", 20), ("outgrowing section", 20), ("impossible copy", 3_000), ("format violated", 50_000), ("lying header", 20_000), ("spoiled operation", 10_000), ("predecessor too short", 3_000)],
    }
}
