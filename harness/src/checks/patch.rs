//! C06 apply against the reference interpreter, C08 compression transparency, C18 section readers.
use super::codec::{check_header, fmt, head};
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, ROp, WComp};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Seek, SeekFrom, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PatchCase {
    pub src: Vec<Seg>,
    pub secs: Vec<ASec>,
    /// bytes already in the sink
    pub prefill: u16,
    /// where the sink and the dictionary stand before the call
    pub at: u16,
    /// bytes after the patch
    pub trailing: Vec<u8>,
}
fn pc(src: BoxedStrategy<Vec<Seg>>, secs: BoxedStrategy<Vec<ASec>>) -> BoxedStrategy<PatchCase> {
    (src, secs, prop_oneof![2 => Just(0u16), 1 => 1u16..600], prop_oneof![2 => Just(0u16), 1 => 1u16..600], pvec(any::<u8>(), 0..5))
        .prop_map(|(src, secs, prefill, at, trailing)| PatchCase { src, secs, prefill, at, trailing })
        .boxed()
}
pub fn s_plain() -> BoxedStrategy<PatchCase> {
    pc(pvec(seg(len_small()), 0..4).boxed(), pvec(asec(op_len(), 0..20, true, Just(WComp::None).boxed()), 1..4).boxed())
}
pub fn s_comp() -> BoxedStrategy<PatchCase> {
    pc(pvec(seg(len_small()), 0..4).boxed(), pvec(asec(op_len(), 0..20, true, wcomp()), 1..5).boxed())
}
pub fn s_wide() -> BoxedStrategy<PatchCase> {
    pc(pvec(seg(len_big()), 1..3).boxed(), pvec(asec(op_len_wide(), 0..12, true, wcomp()), 1..4).boxed())
}
fn s_many() -> BoxedStrategy<PatchCase> {
    pc(pvec(seg(len_small()), 1..3).boxed(), pvec(asec((1u16..6).boxed(), 0..150, true, wcomp()), 1..12).boxed())
}
/// More operations in one section than 16 bits count.
pub fn many_ops(comp: BoxedStrategy<WComp>) -> BoxedStrategy<ASec> {
    (any::<u16>(), 60_000u32..150_000, any::<bool>(), comp, forms()).prop_map(|(s, n, seg, comp, forms)| ASec { ops: vec![AOp::Many(s, n)], seg, comp, forms }).boxed()
}
pub fn fast_wcomp() -> BoxedStrategy<WComp> {
    prop_oneof![
        3 => Just(WComp::None),
        1 => any::<bool>().prop_map(|seg| WComp::Smdiff { chunk: 5000, every: 0, seg }),
        1 => Just(WComp::Zstd { level: 1, checksum: false, content_size: true, flush_every: 0 }),
    ]
    .boxed()
}
fn s_many_ops() -> BoxedStrategy<PatchCase> {
    pc(pvec(seg(len_mid()), 1..3).boxed(), (many_ops(fast_wcomp()), pvec(asec(op_len(), 0..12, true, Just(WComp::None).boxed()), 0..2)).prop_map(|(m, mut v)| {
        v.insert(v.len() / 2, m);
        v
    }).boxed())
}

pub fn classify(secs: &[Vec<ROp>], asecs: &[ASec], cx: &mut Cx) {
    let mut out = 0u64;
    let mut k = [false; 4];
    let mut boundary = false;
    for s in secs {
        let start = out;
        for o in s {
            match o {
                ROp::Add(_) => k[0] = true,
                ROp::Run { .. } => k[1] = true,
                ROp::CopyD { .. } => k[2] = true,
                ROp::CopyO { addr, len } => {
                    k[3] = true;
                    cx.label_if(addr + *len as u64 == out, "copies up to the last byte written");
                    boundary |= start > 0 && *addr < start && addr + *len as u64 > start;
                }
            }
            out += o.len() as u64;
        }
        cx.label_if(s.is_empty(), "empty section");
    }
    cx.label_if(boundary, "copy across a section boundary");
    cx.label_if(k.iter().all(|x| *x), "all four op kinds");
    cx.label_if(secs.len() > 1, "several sections");
    for (s, ops) in asecs.iter().zip(secs) {
        cx.label_if(matches!(s.comp, WComp::Smdiff { every, .. } if every > 0 && ops.len() > 1), "nested sections");
        cx.label_if(s.seg, "segregated");
        match s.comp.algo() {
            1 => cx.label("smdiff compression"),
            2 => cx.label("zstd compression"),
            3 => cx.label("brotli compression"),
            _ => {}
        }
    }
    if asecs.len() > 1 {
        let a: std::collections::HashSet<u8> = asecs.iter().map(|s| s.comp.algo()).collect();
        cx.label_if(a.len() > 1, "mixed compression");
    }
    cx.nontrivial_if((k[2] || k[3]) && (k[0] || k[1]));
}

fn run_c06(c: &PatchCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let b = build_patch(&c.secs, &src, 40 << 20);
    classify(&b.secs, &c.secs, cx);
    // the generator and the parser are both ours: keep them honest with each other
    let (p, used) = spec::parse_patch(&b.bytes, &Default::default()).expect("own patch parses");
    assert!(used == b.bytes.len() && p.iter().map(|s| &s.ops).eq(b.secs.iter()));
    let mut bytes = b.bytes.clone();
    bytes.extend_from_slice(&c.trailing);
    let mut pc = Cursor::new(&bytes[..]);
    let mut sc = Cursor::new(&src[..]);
    sc.set_position(c.at as u64);
    let mut sink = Cursor::new(vec![0xEEu8; c.prefill as usize]);
    let _ = sink.seek(SeekFrom::Start((c.at as u64).min(c.prefill as u64)));
    let r = cut(|| smdiff_decoder::apply_patch(&mut pc, Some(&mut sc), &mut sink)).map_err(|p| format!("apply_patch: {p}"))?;
    ensure!(r.is_ok(), "apply_patch rejects a valid patch: {}", r.err().unwrap());
    let out = sink.into_inner();
    let n = b.output.len();
    ensure!(out.len() >= n && out[..n] == b.output[..], "apply_patch gives the wrong output: {}", diff(&b.output, &out[..n.min(out.len())]));
    ensure!(out.len() == n.max(c.prefill as usize) && out[n..].iter().all(|x| *x == 0xEE), "apply_patch wrote outside the output");
    // a patch that never reads the dictionary does not need one
    if !b.secs.iter().flatten().any(|o| matches!(o, ROp::CopyD { .. })) {
        let o2 = apply(&b.bytes, None).map_err(|e| format!("without a dictionary: {e}"))?;
        ensure!(o2 == b.output, "the output depends on a dictionary the patch does not use");
        cx.label("no dictionary");
    }
    Ok(())
}

fn s_sections() -> BoxedStrategy<ManySecs> {
    many_secs(90_000)
}
fn run_sections(c: &ManySecs, cx: &mut Cx) -> Outcome {
    cx.label_if(c.count > 256, "more than 256 sections");
    cx.label_if(c.count > 65_536, "more than 65536 sections");
    run_c06(&PatchCase { src: c.src.clone(), secs: c.expand(), prefill: 0, at: 0, trailing: vec![] }, cx)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LimitCase {
    pub kind: u8,
    pub seg: bool,
    pub comp: WComp,
    pub extra: Vec<AOp>,
    pub under: u16,
}
fn s_limit() -> BoxedStrategy<LimitCase> {
    (0u8..3, any::<bool>(), prop_oneof![2 => Just(WComp::None), 1 => Just(WComp::Zstd { level: 1, checksum: false, content_size: true, flush_every: 0 }), 1 => Just(WComp::Brotli { quality: 1, window: 20, flush_every: 0 })], pvec(aop(op_len_wide(), true), 1..8), 0u16..3)
        .prop_map(|(kind, seg, comp, extra, under)| LimitCase { kind, seg, comp, extra, under })
        .boxed()
}
/// Sections of (almost) exactly the maximum output size, and output beyond 2^24.
fn run_limit(c: &LimitCase, cx: &mut Cx) -> Outcome {
    let src = build(&[Seg::Rand(1, 70_000)]);
    let goal = spec::MAX_SECTION - c.under as u64;
    let mut ops = vec![ROp::CopyD { addr: 7, len: 60_001 }];
    let mut n = 60_001u64;
    while n < goal {
        let k = (goal - n).min(65_535) as u16;
        let o = match c.kind {
            0 => ROp::CopyD { addr: (n * 7919) % (70_000 - k as u64 + 1), len: k },
            1 => ROp::CopyO { addr: (n * 7919) % (n.saturating_sub(k as u64) + 1), len: (k as u64).min(n) as u16 },
            _ => ROp::Add(build(&[Seg::Alpha(n as u32, 3, k as u32)])),
        };
        n += o.len() as u64;
        ops.push(o);
    }
    let mut output = Vec::new();
    spec::interpret_ops(&ops, Some(&src), &mut output).unwrap();
    let mut bytes = Vec::new();
    spec::ser_section(&mut bytes, &ops, c.seg, true, &c.comp, &[]);
    let mut len = output.len() as u64;
    let tail = resolve(&c.extra, src.len() as u64, &mut len, 1 << 22);
    spec::interpret_ops(&tail, Some(&src), &mut output).unwrap();
    spec::ser_section(&mut bytes, &tail, !c.seg, true, &WComp::None, &[]);
    // copies from beyond 2^24
    let far: Vec<ROp> = vec![ROp::CopyO { addr: output.len() as u64 - 300.min(output.len() as u64), len: 300 }, ROp::CopyO { addr: 5, len: 9 }];
    spec::interpret_ops(&far, Some(&src), &mut output).unwrap();
    spec::ser_section(&mut bytes, &far, c.seg, false, &c.comp, &[]);
    let out = apply(&bytes, Some(&src))?;
    ensure!(out == output, "wrong output around the section limit: {}", diff(&output, &out));
    cx.label("section at the limit");
    cx.nontrivial_if(true);
    Ok(())
}
// ---- addresses and positions beyond 32 bits ----
fn far_byte(p: u64) -> u8 {
    let x = (p ^ (p >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (x >> 56) as u8
}
/// A dictionary of 2^62 bytes that nobody has to store.
struct FarDict {
    pos: u64,
}
const FAR_LEN: u64 = 1 << 62;
impl std::io::Read for FarDict {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(FAR_LEN.saturating_sub(self.pos)) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            *x = far_byte(self.pos + i as u64);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for FarDict {
    fn seek(&mut self, f: SeekFrom) -> std::io::Result<u64> {
        let p = match f {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => FAR_LEN as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        self.pos = u64::try_from(p).map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before 0"))?;
        Ok(self.pos)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarCase {
    /// per section: (address, length, how) and layout
    pub secs: Vec<(Vec<(u64, u16, u8)>, bool, WComp)>,
}
fn s_far() -> BoxedStrategy<FarCase> {
    let addr = prop_oneof![
        3 => (0u32..61, -40i64..40).prop_map(|(k, d)| (1u64 << k).saturating_add_signed(d)),
        2 => 0u64..FAR_LEN - 70_000,
        1 => 0u64..100,
        1 => (0u64..70_000).prop_map(|d| FAR_LEN - 70_000 + d),
    ];
    pvec((pvec((addr, 1u16..200, 0u8..5), 1..10), any::<bool>(), wcomp()), 1..4).prop_map(|secs| FarCase { secs }).boxed()
}
fn run_far(c: &FarCase, cx: &mut Cx) -> Outcome {
    let mut bytes = Vec::new();
    let mut want: Vec<u8> = Vec::new();
    for (i, (ops, seg, comp)) in c.secs.iter().enumerate() {
        let mut l = Vec::new();
        for (a, n, how) in ops {
            match how {
                0 => {
                    let b = build(&[Seg::Rand(*a as u32, *n as u32)]);
                    want.extend_from_slice(&b);
                    l.push(ROp::Add(b));
                }
                1 if !want.is_empty() => {
                    let p = a % want.len() as u64;
                    let n = (*n as u64).min(want.len() as u64 - p) as u16;
                    want.extend_from_within(p as usize..p as usize + n as usize);
                    l.push(ROp::CopyO { addr: p, len: n });
                }
                _ => {
                    let n = (*n as u64).min(FAR_LEN - a) as u16;
                    want.extend((*a..a + n as u64).map(far_byte));
                    l.push(ROp::CopyD { addr: *a, len: n });
                    cx.label_if(*a > u32::MAX as u64, "dictionary address above 2^32");
                    cx.nontrivial_if(*a > u32::MAX as u64);
                }
            }
        }
        spec::ser_section(&mut bytes, &l, *seg, i + 1 < c.secs.len(), comp, &[]);
    }
    let mut sink = Cursor::new(Vec::new());
    cut(|| smdiff_decoder::apply_patch(&mut Cursor::new(&bytes), Some(&mut FarDict { pos: 0 }), &mut sink)).map_err(|p| format!("apply_patch: {p}"))?.map_err(|e| format!("apply_patch rejects a valid patch: {e}"))?;
    let out = sink.into_inner();
    ensure!(out == want, "apply_patch gives the wrong output: {}", diff(&want, &out));
    Ok(())
}
/// A sink that stores only what is not zero.
#[derive(Default)]
struct ThinSink {
    pos: u64,
    len: u64,
    parts: std::collections::BTreeMap<u64, Vec<u8>>,
}
impl Write for ThinSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.iter().any(|x| *x != 0) {
            self.parts.insert(self.pos, b.to_vec());
        }
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for ThinSink {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        b[..n].fill(0);
        let (lo, hi) = (self.pos, self.pos + n as u64);
        for (p, v) in self.parts.range(lo.saturating_sub(70_000)..hi) {
            for (i, x) in v.iter().enumerate() {
                let q = p + i as u64;
                if q >= lo && q < hi {
                    b[(q - lo) as usize] = *x;
                }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for ThinSink {
    fn seek(&mut self, f: SeekFrom) -> std::io::Result<u64> {
        self.pos = match f {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => self.len.saturating_add_signed(d),
            SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
        };
        Ok(self.pos)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeOutCase {
    pub mark: u16,
    /// (distance from 2^32, length): copies of the output there
    pub ops: Vec<(i16, u16)>,
    pub seg: bool,
}
fn s_huge_out() -> BoxedStrategy<HugeOutCase> {
    (any::<u16>(), pvec((-3000i16..3000, 1u16..900), 3..12), any::<bool>()).prop_map(|(mark, ops, seg)| HugeOutCase { mark, ops, seg }).boxed()
}
/// More than 4 GiB of output, nearly all of it zero.
fn run_huge_out(c: &HugeOutCase, cx: &mut Cx) -> Outcome {
    let zeros = vec![0u8; 70_000];
    let edge = 1u64 << 32;
    let mut bytes = Vec::new();
    let mark = build(&[Seg::Rand(c.mark as u32, 4000)]);
    // bytes near position 0, so that a wrapped address reads something else
    let first = build(&[Seg::Rand(c.mark as u32 ^ 0x5555, 4000)]);
    let mut pos = 4000u64;
    let mut l = vec![ROp::Add(first.clone())];
    let goal = edge - 2000;
    while pos < goal {
        let mut acc: u64 = l.iter().map(|o| o.len() as u64).sum();
        while pos < goal && acc + 65_535 <= spec::MAX_SECTION {
            let n = (goal - pos).min(65_535) as u16;
            l.push(ROp::CopyD { addr: 0, len: n });
            pos += n as u64;
            acc += n as u64;
        }
        spec::ser_section(&mut bytes, &l, c.seg, true, &WComp::None, &[]);
        l.clear();
    }
    // the mark lies across 2^32
    l.push(ROp::Add(mark.clone()));
    pos += 4000;
    let mut tail: Vec<u8> = Vec::new();
    let at = |tail: &Vec<u8>, p: u64| -> u8 {
        if p < 4000 {
            first[p as usize]
        } else if p < goal {
            0
        } else if p < goal + 4000 {
            mark[(p - goal) as usize]
        } else {
            tail[(p - goal - 4000) as usize]
        }
    };
    for (d, n) in &c.ops {
        let a = ((edge as i64 + *d as i64) as u64).min(pos - 1);
        let n = (*n as u64).min(pos - a) as u16;
        let b: Vec<u8> = (a..a + n as u64).map(|p| at(&tail, p)).collect();
        tail.extend(b);
        pos += n as u64;
        l.push(ROp::CopyO { addr: a, len: n });
    }
    spec::ser_section(&mut bytes, &l, c.seg, false, &WComp::None, &[]);
    let mut sink = ThinSink::default();
    cut(|| smdiff_decoder::apply_patch(&mut Cursor::new(&bytes), Some(&mut Cursor::new(&zeros)), &mut sink)).map_err(|p| format!("apply_patch: {p}"))?.map_err(|e| format!("apply_patch rejects a valid patch: {e}"))?;
    ensure!(sink.len == pos, "the output has {} bytes instead of {pos}", sink.len);
    for (from, to) in [(0u64, 5000u64), (goal - 1000, pos)] {
        let mut got = vec![0u8; (to - from) as usize];
        let want: Vec<u8> = (from..to).map(|p| at(&tail, p)).collect();
        sink.pos = from;
        std::io::Read::read_exact(&mut sink, &mut got).unwrap();
        ensure!(got == want, "wrong output near position {from}: {}", diff(&want, &got));
    }
    ensure!(sink.parts.keys().all(|p| *p < 4000 || *p >= goal), "something was written in the middle of the output");
    cx.label("output beyond 4 GiB");
    cx.nontrivial_if(true);
    Ok(())
}
pub fn c06() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "the patch mixes copies with literal operations",
        assumptions: vec!["reference interpreter in harness/src/spec.rs; compressed payloads produced by the zstd and brotli C libraries and an independent nested encoder"],
        families: vec![
            Box::new(Family { name: "plain", quick: 480_000, thorough: 15_000_000, strat: s_plain, run: run_c06 }),
            Box::new(Family { name: "compressed", quick: 320_000, thorough: 9_000_000, strat: s_comp, run: run_c06 }),
            Box::new(Family { name: "many", quick: 64_000, thorough: 1_500_000, strat: s_many, run: run_c06 }),
            Box::new(Family { name: "many-ops", quick: 240, thorough: 15_000, strat: s_many_ops, run: run_c06 }),
            Box::new(Family { name: "wide", quick: 12_000, thorough: 300_000, strat: s_wide, run: run_c06 }),
            Box::new(Family { name: "many-sections", quick: 600, thorough: 30_000, strat: s_sections, run: run_sections }),
            Box::new(Family { name: "far", quick: 160_000, thorough: 4_000_000, strat: s_far, run: run_far }),
            Box::new(Family { name: "beyond-4GiB", quick: 2, thorough: 120, strat: s_huge_out, run: run_huge_out }),
            Box::new(Family { name: "limit", quick: 16, thorough: 1_000, strat: s_limit, run: run_limit }),
        ],
        floors: vec![("copy across a section boundary", 500), ("mixed compression", 5_000), ("zstd compression", 3_000), ("brotli compression", 3_000), ("smdiff compression", 2_000), ("segregated", 10_000), ("section at the limit", 10), ("all four op kinds", 5_000), ("nested sections", 500), ("dictionary address above 2^32", 5_000), ("output beyond 4 GiB", 1)],
    }
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TransCase {
    pub src: Vec<Seg>,
    /// per section: operations, segregated, compression
    pub secs: Vec<(Vec<AOp>, bool, Comp)>,
}
fn s_trans() -> BoxedStrategy<TransCase> {
    (pvec(seg(len_small()), 0..3), pvec((pvec(aop(op_len(), true), 0..25), any::<bool>(), comp()), 1..5)).prop_map(|(src, secs)| TransCase { src, secs }).boxed()
}
fn s_trans_wide() -> BoxedStrategy<TransCase> {
    (pvec(seg(len_big()), 1..3), pvec((pvec(aop(op_len_wide(), true), 1..10), any::<bool>(), comp()), 1..3)).prop_map(|(src, secs)| TransCase { src, secs }).boxed()
}
fn check_trans(src: &[u8], lists: &[(Vec<ROp>, bool, Comp)], cx: &mut Cx) -> Outcome {
    let mut w = Vec::new();
    let mut plain = Vec::new();
    let mut output = Vec::new();
    let mut buf = Vec::new();
    let n = lists.len();
    for (i, (ops, seg, comp)) in lists.iter().enumerate() {
        let rops: Vec<smdiff_reader::Op> = ops.iter().map(spec::to_reader_op).collect();
        let total: usize = ops.iter().map(|o| o.len()).sum();
        let adds: usize = ops.iter().map(|o| if let ROp::Add(b) = o { b.len() } else { 0 }).sum();
        let h = smdiff_common::SectionHeader::new(ops.len() as u32, adds as u32, total as u32).set_format(fmt(*seg)).set_more_sections(i + 1 < n);
        let r = cut(|| smdiff_encoder::writer::section_writer(&comp.to_sec(), h, &mut w, &rops, &mut buf)).map_err(|p| format!("section_writer: {p}"))?;
        ensure!(r.is_ok(), "section_writer fails: {:?}", r.err());
        ensure!(buf.is_empty(), "section_writer leaves {} bytes in the scratch buffer", buf.len());
        let r = cut(|| smdiff_encoder::writer::section_writer(&None, h, &mut plain, &rops, &mut buf)).map_err(|p| format!("section_writer: {p}"))?;
        ensure!(r.is_ok(), "section_writer fails: {:?}", r.err());
        spec::interpret_ops(ops, Some(src), &mut output).unwrap();
    }
    // every section says what its uncompressed twin says
    let (secs, used) = spec::parse_patch(&w, &Default::default()).map_err(|e| format!("compressed patch is not valid SMDIFF: {e}"))?;
    ensure!(used == w.len(), "{} bytes after the last section", w.len() - used);
    ensure!(secs.len() == n, "{} sections instead of {n}", secs.len());
    for (i, (s, (ops, seg, comp))) in secs.iter().zip(lists).enumerate() {
        ensure!(s.algo == comp.algo() && s.segregated == *seg, "section {i}: algorithm {} segregated {}", s.algo, s.segregated);
        ensure!(s.ops == *ops, "section {i} says {} instead of {}", head(&s.ops), head(ops));
    }
    for (what, bytes) in [("compressed", &w), ("uncompressed", &plain)] {
        let out = apply(bytes, Some(src)).map_err(|e| format!("{what}: {e}"))?;
        ensure!(out == output, "{what} patch gives the wrong output: {}", diff(&output, &out));
    }
    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&w[..]));
    for (i, (ops, seg, comp)) in lists.iter().enumerate() {
        let (o, h) = cut(|| it.next()).map_err(|p| format!("section {i}: {p}"))?.ok_or_else(|| format!("section {i} is missing"))?.map_err(|e| format!("section {i}: {e}"))?;
        let o: Vec<ROp> = o.iter().map(spec::from_reader_op).collect();
        ensure!(o == *ops, "section {i} reads back as {} instead of {}", head(&o), head(ops));
        let total: u64 = ops.iter().map(|o| o.len() as u64).sum();
        let adds: u64 = ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
        check_header(&format!("section {i}"), &h, *seg, i + 1 < n, comp.algo(), ops.len(), adds, total)?;
    }
    ensure!(cut(|| it.next())?.is_none(), "a section after the terminal one");
    cx.nontrivial_if(lists.iter().any(|l| l.2 != Comp::None && !l.0.is_empty()));
    cx.label_if(n > 1 && lists.iter().take(n - 1).any(|l| l.2.algo() == 2), "zstd section before another");
    cx.label_if(n > 1 && lists.iter().take(n - 1).any(|l| l.2.algo() == 3), "brotli section before another");
    cx.label_if(n > 1 && lists.iter().take(n - 1).any(|l| l.2.algo() == 1), "smdiff section before another");
    cx.label_if(lists.iter().any(|l| l.2 != Comp::None && l.0.is_empty()), "empty compressed section");
    Ok(())
}
fn run_c08(c: &TransCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let mut out_len = 0;
    let lists: Vec<_> = c.secs.iter().map(|(o, s, k)| (resolve(o, src.len() as u64, &mut out_len, 4 << 20), *s, k.clone())).collect();
    check_trans(&src, &lists, cx)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockCase {
    /// target payload size of each section: multiple of 64 KiB plus a little
    pub secs: Vec<(u16, i8, u8, bool, Comp)>,
}
fn s_block() -> BoxedStrategy<BlockCase> {
    let comp = prop_oneof![4 => (1i32..8).prop_map(Comp::Zstd), 3 => (0u8..6, 16u8..=24).prop_map(|(q, w)| Comp::Brotli(q, w, 0, 0, false)), 1 => (5u32..40, 1u32..4).prop_map(|(early, chain)| Comp::Smdiff { early, chain, cap: None })];
    pvec((prop_oneof![3 => Just(2u16), 2 => Just(4u16), 1 => Just(6u16), 1 => Just(1u16), 1 => Just(8u16)], -2i8..3, 0u8..4, any::<bool>(), comp), 2..4).prop_map(|secs| BlockCase { secs }).boxed()
}
/// The same next to whole megabytes.
fn s_block_big() -> BoxedStrategy<BlockCase> {
    let comp = prop_oneof![3 => (1i32..4).prop_map(Comp::Zstd), 5 => (0u8..3, 16u8..=24).prop_map(|(q, w)| Comp::Brotli(q, w, 0, 0, false)), 1 => (5u32..40, 1u32..4).prop_map(|(early, chain)| Comp::Smdiff { early, chain, cap: None })];
    pvec((prop_oneof![2 => Just(16u16), 4 => Just(32u16), 3 => Just(48u16), 2 => Just(64u16), 1 => Just(128u16), 1 => 9u16..255], -2i8..3, 0u8..4, any::<bool>(), comp), 1..3).prop_map(|secs| BlockCase { secs }).boxed()
}
/// Payloads that end at, or next to, the compressors' block boundaries.
fn run_block(c: &BlockCase, cx: &mut Cx) -> Outcome {
    let mut lists = Vec::new();
    for (i, (k, d, content, seg, comp)) in c.secs.iter().enumerate() {
        let goal = (*k as i64 * 65_536 + *d as i64) as usize;
        let mut ops = Vec::new();
        let mut left = goal;
        while left > 0 {
            let n = if left > 65_538 { (left - 100).min(65_538) - 3 } else { left - 3 };
            let s = match content {
                0 => Seg::Rand(i as u32 + 77, n as u32),
                1 => Seg::Run(7, n as u32),
                2 => Seg::Alpha(i as u32, 3, n as u32),
                _ => Seg::Per(i as u32, 5003, n as u32),
            };
            ops.push(ROp::Add(build(&[s])));
            left -= n + 3;
        }
        let payload = spec::ser_ops(&ops, *seg, &[]);
        assert!(payload.len() == goal);
        cx.label_if(goal > 1 << 20, "payload of more than a megabyte");
        cx.label_if(goal % 131_072 == 0, "payload fills whole blocks");
        lists.push((ops, *seg, comp.clone()));
    }
    check_trans(&[], &lists, cx)
}
pub fn c08() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "a compressed section with at least one operation",
        assumptions: vec!["zstd levels -5..=22, brotli windows 10..=24"],
        families: vec![
            Box::new(Family { name: "mixed", quick: 375_000, thorough: 5_000_000, strat: s_trans, run: run_c08 }),
            Box::new(Family { name: "wide", quick: 2_100, thorough: 60_000, strat: s_trans_wide, run: run_c08 }),
            Box::new(Family { name: "blocks", quick: 1_500, thorough: 40_000, strat: s_block, run: run_block }),
            Box::new(Family { name: "megabytes", quick: 600, thorough: 12_000, strat: s_block_big, run: run_block }),
        ],
        floors: vec![("zstd section before another", 2_000), ("brotli section before another", 2_000), ("smdiff section before another", 1_500), ("empty compressed section", 200), ("payload fills whole blocks", 50), ("payload of more than a megabyte", 100)],
    }
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    pub src: Vec<Seg>,
    /// patches one after another in one stream
    pub patches: Vec<Vec<ASec>>,
    /// alternate between the borrowing and the owning reader
    pub pick: Vec<bool>,
    pub after: u8,
}
fn s_read_plain() -> BoxedStrategy<ReadCase> {
    (pvec(seg(len_small()), 0..3), pvec(pvec(asec(op_len(), 0..12, true, Just(WComp::None).boxed()), 1..5), 1..4), pvec(any::<bool>(), 1..4), 1u8..4)
        .prop_map(|(src, patches, pick, after)| ReadCase { src, patches, pick, after })
        .boxed()
}
fn s_read_comp() -> BoxedStrategy<ReadCase> {
    (pvec(seg(len_small()), 0..3), pvec(pvec(asec(op_len(), 0..12, true, wcomp()), 1..6), 1..3), pvec(any::<bool>(), 1..4), 1u8..4)
        .prop_map(|(src, patches, pick, after)| ReadCase { src, patches, pick, after })
        .boxed()
}
type Sections = Vec<(Vec<ROp>, smdiff_common::SectionHeader)>;
macro_rules! collect {
    ($it:expr, $pick:expr, $after:expr, $what:expr) => {{
        let mut got: Sections = Vec::new();
        let mut i = 0usize;
        loop {
            let own = $pick[i % $pick.len()];
            i += 1;
            let r: Option<std::io::Result<(Vec<ROp>, smdiff_common::SectionHeader)>> = cut(|| {
                if own {
                    $it.next().map(|r| r.map(|(o, h)| (o.iter().map(spec::from_reader_op).collect(), h)))
                } else {
                    $it.next_borrowed().map(|r| r.map(|(o, h)| (o.iter().map(spec::from_reader_op).collect(), h)))
                }
            })
            .map_err(|p| format!("{}: {p}", $what))?;
            match r {
                None => break,
                Some(Ok(s)) => got.push(s),
                Some(Err(e)) => return Err(format!("{}: section {}: {e}", $what, got.len())),
            }
            if got.len() > 100_000 {
                return Err(format!("{}: does not stop", $what));
            }
        }
        for _ in 0..$after {
            if cut(|| $it.next().is_some())? || cut(|| $it.next_borrowed().is_some())? {
                return Err(format!("{}: yields sections after the end", $what));
            }
        }
        got
    }};
}
fn same(what: &str, got: &Sections, want: &[Vec<ROp>], asecs: &[ASec]) -> Outcome {
    ensure!(got.len() == want.len(), "{what}: {} sections instead of {}", got.len(), want.len());
    for (i, ((o, h), w)) in got.iter().zip(want).enumerate() {
        ensure!(o == w, "{what}: section {i} is {} instead of {}", head(o), head(w));
        let total: u64 = w.iter().map(|o| o.len() as u64).sum();
        let adds: u64 = w.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
        check_header(&format!("{what}: section {i}"), h, asecs[i].seg, i + 1 < want.len(), asecs[i].comp.algo(), w.len(), adds, total)?;
    }
    Ok(())
}
fn run_c18(c: &ReadCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let plain = c.patches.iter().flatten().all(|s| s.comp == WComp::None);
    let mut stream = Vec::new();
    let built: Vec<Built> = c.patches.iter().map(|p| build_patch(p, &src, 1 << 20)).collect();
    let mut ends = Vec::new();
    for b in &built {
        stream.extend_from_slice(&b.bytes);
        ends.push(stream.len());
    }
    // 1. the decompressing reader on each patch with the rest of the stream behind it
    let mut start = 0;
    for (i, b) in built.iter().enumerate() {
        let rest = &stream[start..];
        for (what, pick) in [("owning reader", &vec![true]), ("borrowing reader", &vec![false]), ("alternating reader", &c.pick)] {
            let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(rest));
            let got = collect!(it, pick, c.after, what);
            same(what, &got, &b.secs, &c.patches[i])?;
        }
        // 2. extraction sees the same operations
        let (ex, _) = cut(|| smdiff_merger::extract_patch_instructions(Cursor::new(rest)))?.map_err(|e| format!("extract: {e}"))?;
        let ops: Vec<ROp> = ex.iter().map(|(_, o)| spec::from_reader_op(o)).collect();
        let want: Vec<ROp> = b.secs.iter().flatten().cloned().collect();
        ensure!(ops == want, "extraction yields other operations than the readers");
        start = ends[i];
    }
    // 3. the plain reader, which leaves its source at the end of each patch
    if plain {
        for (what, pick) in [("plain owning reader", &vec![true]), ("plain borrowing reader", &vec![false]), ("plain alternating reader", &c.pick)] {
            let mut cur = Cursor::new(&stream[..]);
            for (i, b) in built.iter().enumerate() {
                let mut it = smdiff_reader::SectionIterator::new(cur);
                let got = collect!(it, pick, c.after, what);
                same(what, &got, &b.secs, &c.patches[i])?;
                cur = it.into_inner();
                ensure!(cur.position() as usize == ends[i], "{what}: stands at {} after patch {i}, which ends at {}", cur.position(), ends[i]);
            }
        }
        cx.label_if(built.len() > 1, "patches back to back");
    }
    cx.label_if(c.patches.iter().any(|p| p.len() > 1), "several sections");
    cx.nontrivial_if(c.patches.iter().any(|p| p.len() > 1) && built.iter().any(|b| !b.output.is_empty()));
    Ok(())
}
fn run_read_sections(c: &ManySecs, cx: &mut Cx) -> Outcome {
    cx.label_if(c.count > 256, "more than 256 sections");
    cx.label_if(c.count > 65_536, "more than 65536 sections");
    run_c18(&ReadCase { src: c.src.clone(), patches: vec![c.expand()], pick: vec![true, false, false], after: 1 }, cx)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutoffCase {
    pub read: ReadCase,
    #[serde(default)]
    pub cuts: Vec<u32>,
}
fn s_cutoff() -> BoxedStrategy<CutoffCase> {
    (prop_oneof![1 => s_read_plain(), 1 => s_read_comp()], pvec(any::<u32>(), 1..6)).prop_map(|(read, cuts)| CutoffCase { read, cuts }).boxed()
}
/// A stream that ends before the terminal section does is an error, never a quiet end; the
/// complete sections before the cut are still delivered.
fn run_cutoff(c: &CutoffCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.read.src);
    let asecs = &c.read.patches[0];
    let b = build_patch(asecs, &src, 1 << 16);
    let (p, _) = spec::parse_patch(&b.bytes, &Default::default()).expect("own patch");
    let ends: Vec<usize> = p.iter().map(|s| s.end).collect();
    // between sections, next to their ends, and anywhere
    let mut cuts: Vec<usize> = ends[..ends.len() - 1].to_vec();
    cuts.extend(ends.iter().map(|e| e - 1));
    cuts.extend(c.cuts.iter().map(|k| *k as usize % b.bytes.len()));
    let plain = asecs.iter().all(|s| s.comp == WComp::None);
    for k in cuts {
        let whole = ends.iter().take_while(|e| **e <= k).count();
        let bytes = &b.bytes[..k];
        let clean = k == 0 || ends.contains(&k);
        // the last bytes of a compressed payload may carry no information, so a reader need not miss them
        let lenient = !clean && asecs[whole].comp != WComp::None;
        for r in 0..3 {
            if r > 0 && !plain {
                continue;
            }
            let what = ["decompressing reader", "plain reader", "borrowing plain reader"][r];
            let mut dec = smdiff_decoder::reader::SectionIterator::new(Cursor::new(bytes));
            let mut pl = smdiff_reader::SectionIterator::new(Cursor::new(bytes));
            let mut n = 0;
            let mut err = false;
            while n < 50 {
                let next = cut(|| match r {
                    0 => dec.next().map(|x| x.map(|(o, _)| o.iter().map(spec::from_reader_op).collect::<Vec<_>>())),
                    1 => pl.next().map(|x| x.map(|(o, _)| o.iter().map(spec::from_reader_op).collect())),
                    _ => pl.next_borrowed().map(|x| x.map(|(o, _)| o.iter().map(spec::from_reader_op).collect())),
                })
                .map_err(|p| format!("{what}: {p}"))?;
                match next {
                    Some(Ok(o)) => {
                        ensure!((n < whole || lenient) && n < b.secs.len() && o == b.secs[n], "{what}: section {n} of a stream cut at {k} (after {whole} whole sections) reads as {}", head(&o));
                        n += 1
                    }
                    Some(Err(_)) => {
                        err = true;
                        break;
                    }
                    None => break,
                }
            }
            cx.sub_evals += 1;
            if lenient {
                ensure!(n >= whole && (err || n == b.secs.len()), "{what}: stream cut at byte {k} in section {whole}: {n} sections and {}", if err { "an error" } else { "a normal end" });
            } else {
                ensure!(err && n == whole, "{what}: stream cut at byte {k} after {whole} whole sections of {}: the reader yields {n} sections and {}", p.len(), if err { "an error" } else { "a normal end" });
            }
        }
        let a = apply_raw(bytes, Some(&src))?;
        if lenient {
            if let Ok(o) = a {
                ensure!(o == b.output, "stream cut at byte {k} in section {whole}: apply reports success with another output");
                cx.label("cut off redundant payload bytes");
            }
        } else {
            ensure!(a.is_err(), "stream cut at byte {k} after {whole} whole sections: apply reports success");
        }
        cx.label_if(clean && whole > 0, "cut between sections");
        cx.label_if(!clean, "cut inside a section");
    }
    cx.nontrivial_if(p.len() > 1);
    Ok(())
}
pub fn c18() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "a patch of several sections with output",
        assumptions: vec!["the decompressing reader buffers its source, so only the plain reader promises where the source stands afterwards"],
        families: vec![
            Box::new(Family { name: "plain", quick: 300_000, thorough: 4_000_000, strat: s_read_plain, run: run_c18 }),
            Box::new(Family { name: "compressed", quick: 300_000, thorough: 4_000_000, strat: s_read_comp, run: run_c18 }),
            Box::new(Family { name: "many-sections", quick: 600, thorough: 30_000, strat: s_sections, run: run_read_sections }),
            Box::new(Family { name: "cutoff", quick: 180_000, thorough: 2_500_000, strat: s_cutoff, run: run_cutoff }),
        ],
        floors: vec![("patches back to back", 5_000), ("several sections", 20_000), ("cut between sections", 3_000), ("cut inside a section", 5_000)],
    }
}
