//! C03 section round trip, C04 integers and addresses, C05 sectioning, C17 header consistency.
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, ROp, SizeForm};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use smdiff_common::{Format, SectionHeader};

/// An operation with any address the format can express.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Add(u16, u16),
    Run(u8, u8),
    D(u64, u16),
    O(u64, u16),
    /// relative to the previous address of its kind
    DRel(i64, u16),
    ORel(i64, u16),
}
fn cop(len: BoxedStrategy<u16>) -> BoxedStrategy<COp> {
    let l = move || len.clone();
    let addr = || prop_oneof![3 => 0u64..300, 2 => 0u64..70_000, 1 => 0u64..(1 << 40), 1 => (0u32..63).prop_map(|k| (1u64 << k) - 1), 1 => 0u64..(1 << 63)];
    let rel = || prop_oneof![3 => -70i64..70, 2 => -9000i64..9000, 1 => any::<i32>().prop_map(|x| x as i64)];
    prop_oneof![
        3 => (any::<u16>(), l()).prop_map(|(s, n)| COp::Add(s, n)),
        3 => (any::<u8>(), 1u8..63).prop_map(|(b, n)| COp::Run(b, n)),
        2 => (addr(), l()).prop_map(|(a, n)| COp::D(a, n)),
        2 => (addr(), l()).prop_map(|(a, n)| COp::O(a, n)),
        2 => (rel(), l()).prop_map(|(a, n)| COp::DRel(a, n)),
        2 => (rel(), l()).prop_map(|(a, n)| COp::ORel(a, n)),
    ]
    .boxed()
}
pub fn cops(v: &[COp]) -> Vec<ROp> {
    let (mut d, mut o) = (0u64, 0u64);
    let rel = |b: u64, r: i64| (b as i128 + r as i128).clamp(0, (1 << 63) - 1) as u64;
    v.iter()
        .map(|c| match c {
            COp::Add(s, n) => {
                let mut b = Vec::new();
                Seg::Rand(*s as u32, (*n).max(1) as u32).put(&mut b);
                ROp::Add(b)
            }
            COp::Run(b, n) => ROp::Run { byte: *b, len: (*n).clamp(1, 62) },
            COp::D(a, n) => {
                d = *a;
                ROp::CopyD { addr: d, len: (*n).max(1) }
            }
            COp::O(a, n) => {
                o = *a;
                ROp::CopyO { addr: o, len: (*n).max(1) }
            }
            COp::DRel(r, n) => {
                d = rel(d, *r);
                ROp::CopyD { addr: d, len: (*n).max(1) }
            }
            COp::ORel(r, n) => {
                o = rel(o, *r);
                ROp::CopyO { addr: o, len: (*n).max(1) }
            }
        })
        .collect()
}
fn sums(ops: &[ROp]) -> (u64, u64) {
    (ops.iter().map(|o| o.len() as u64).sum(), ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SecCase {
    pub ops: Vec<COp>,
    pub seg: bool,
    pub more: bool,
    pub algo: u8,
    pub forms: Vec<SizeForm>,
    pub trailing: Vec<u8>,
    pub pre: u8,
}
fn s_sec() -> BoxedStrategy<SecCase> {
    (pvec(cop(op_len()), 0..30), any::<bool>(), any::<bool>(), 0u8..8, forms(), pvec(any::<u8>(), 0..6), 0u8..4)
        .prop_map(|(ops, seg, more, algo, forms, trailing, pre)| SecCase { ops, seg, more, algo, forms, trailing, pre })
        .boxed()
}
fn s_sec_wide() -> BoxedStrategy<SecCase> {
    (pvec(cop(op_len_wide()), 0..12), any::<bool>(), any::<bool>(), 0u8..8, forms(), pvec(any::<u8>(), 0..6), 0u8..4)
        .prop_map(|(ops, seg, more, algo, forms, trailing, pre)| SecCase { ops, seg, more, algo, forms, trailing, pre })
        .boxed()
}
fn s_sec_many() -> BoxedStrategy<SecCase> {
    (pvec(cop((1u16..4).boxed()), 100..400), any::<bool>(), any::<bool>(), forms())
        .prop_map(|(ops, seg, more, forms)| SecCase { ops, seg, more, algo: 0, forms, trailing: vec![1], pre: 0 })
        .boxed()
}
/// All lengths that are equal modulo 256: a few hundred cases go through every length.
fn s_sec_lengths() -> BoxedStrategy<SecCase> {
    (0u16..256, prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], any::<bool>(), forms())
        .prop_map(|(r, kind, seg, forms)| {
            let ops = (0..256u32)
                .map(|j| (r as u32 + 256 * j).max(1) as u16)
                .map(|n| match kind {
                    0 => COp::Add(n, n),
                    1 => COp::DRel(n as i64, n),
                    _ => COp::O(n as u64, n),
                })
                .collect();
            SecCase { ops, seg, more: false, algo: 0, forms, trailing: vec![], pre: 0 }
        })
        .boxed()
}
pub fn fmt(seg: bool) -> Format {
    if seg {
        Format::Segregated
    } else {
        Format::Interleaved
    }
}

fn run_c03(c: &SecCase, cx: &mut Cx) -> Outcome {
    let ops = cops(&c.ops);
    let (total, adds) = sums(&ops);
    if total > spec::MAX_SECTION {
        cx.excluded += 1;
        return Ok(());
    }
    let rops: Vec<smdiff_reader::Op> = ops.iter().map(spec::to_reader_op).collect();
    let h = SectionHeader::new(ops.len() as u32, adds as u32, total as u32).set_format(fmt(c.seg)).set_more_sections(c.more).set_compression_algo(c.algo);
    // write -> reference
    let mut w = Vec::new();
    let r = cut(|| -> std::io::Result<()> {
        smdiff_writer::write_section_header(&h, &mut w)?;
        smdiff_writer::write_ops(&rops, &h, &mut w)
    })?;
    ensure!(r.is_ok(), "writing a consistent section fails: {:?}", r.err());
    ensure!(!w.is_empty() && (w[0] >> 3) & 7 == c.algo, "compression algorithm {} not in the control byte", c.algo);
    {
        // the algorithm field is the caller's claim about the payload; for the layout, read it as 0
        let mut u = w.clone();
        u[0] &= !0x38;
        let mut cur = spec::Cur::new(&u);
        let s = spec::parse_section(&mut cur, &Default::default()).map_err(|e| format!("the written section is not valid SMDIFF: {e}"))?;
        ensure!(cur.p == w.len(), "{} bytes after the written section", w.len() - cur.p);
        ensure!(s.lenient.is_empty(), "written section: {:?}", s.lenient);
        ensure!(s.ops == ops, "the written section says something else: {:?} instead of {:?}", head(&s.ops), head(&ops));
        ensure!(s.segregated == c.seg && s.more == c.more && s.version == 0, "control byte {:#010b}", w[0]);
    }
    for (o, r) in rops.iter().zip(&ops) {
        let (add, run, copy) = (matches!(r, ROp::Add(_)), matches!(r, ROp::Run { .. }), matches!(r, ROp::CopyD { .. } | ROp::CopyO { .. }));
        ensure!(o.is_add() == add && o.is_run() == run && o.is_copy() == copy && o.take_copy().is_some() == copy && o.oal() as usize == r.len() as usize, "an operation's predicates contradict it");
    }
    // written and reference-serialised bytes -> reader
    let mut refb = Vec::new();
    spec::ser_section(&mut refb, &ops, c.seg, c.more, &spec::WComp::None, &c.forms);
    w[0] &= !0x38;
    for (what, bytes) in [("written", &w), ("reference", &refb)] {
        let mut b = bytes.clone();
        b.extend_from_slice(&c.trailing);
        let mut cur = std::io::Cursor::new(&b[..]);
        let pre: Vec<smdiff_reader::Op> = (0..c.pre).map(|i| spec::to_reader_op(&ROp::Run { byte: i, len: 1 })).collect();
        let mut buf = pre.clone();
        let hd = cut(|| smdiff_reader::read_section(&mut cur, &mut buf))?.map_err(|e| format!("{what} bytes: read_section fails: {e}"))?;
        ensure!(cur.position() as usize == bytes.len(), "{what} bytes: read {} of {} bytes of the section", cur.position(), bytes.len());
        // the same in two steps
        let mut cur = std::io::Cursor::new(&b[..]);
        let mut hd3 = cut(|| smdiff_reader::read_section_header(&mut cur))?.map_err(|e| format!("{what} bytes: read_section_header fails: {e}"))?;
        check_header(&format!("{what} bytes, header alone"), &hd3, c.seg, c.more, 0, ops.len(), if c.seg { adds } else { 0 }, total)?;
        let mut buf3 = Vec::new();
        cut(|| smdiff_reader::read_ops_no_comp(&mut cur, &mut hd3, &mut buf3))?.map_err(|e| format!("{what} bytes: read_ops_no_comp fails: {e}"))?;
        ensure!(buf3[..] == buf[pre.len()..] && cur.position() as usize == bytes.len() && hd3 == hd, "{what} bytes: header and operations read one after the other differ from the section");
        ensure!(buf[..pre.len().min(buf.len())] == pre[..], "{what} bytes: operations already in the buffer changed");
        let got: Vec<ROp> = buf[pre.len()..].iter().map(spec::from_reader_op).collect();
        ensure!(got == ops, "{what} bytes: read back {:?} instead of {:?}", head(&got), head(&ops));
        check_header(what, &hd, c.seg, c.more, 0, ops.len(), adds, total)?;
        // the two section iterators, owned and borrowed, see the same
        if !c.more {
            let mut it = smdiff_reader::SectionIterator::new(std::io::Cursor::new(&b[..]));
            let (o, hd2) = cut(|| it.next())?.ok_or("no section")?.map_err(|e| format!("{what}: {e}"))?;
            ensure!(o == buf[pre.len()..] && hd2 == hd, "{what} bytes: the plain iterator reads something else");
            ensure!(cut(|| it.next())?.is_none(), "{what} bytes: a section after the terminal one");
            ensure!(it.into_inner().position() as usize == bytes.len(), "{what} bytes: the iterator does not stop at the end of the patch");
            let mut it = smdiff_decoder::reader::SectionIterator::new(std::io::Cursor::new(&b[..]));
            let (o, hd2) = cut(|| it.next())?.ok_or("no section")?.map_err(|e| format!("{what}: {e}"))?;
            ensure!(o == buf[pre.len()..] && hd2 == hd, "{what} bytes: the decompressing iterator reads something else");
        }
    }
    let kinds: std::collections::HashSet<_> = ops.iter().map(|o| std::mem::discriminant(o)).collect();
    cx.nontrivial_if(kinds.len() >= 3);
    cx.label_if(c.seg, "segregated");
    cx.label_if(ops.is_empty(), "empty section");
    for o in &ops {
        match o.len() {
            62 => cx.label("size 62"),
            63 => cx.label("size 63"),
            64..=317 => cx.label("size 64..=317"),
            65535 => cx.label("size 65535"),
            _ => {}
        }
        if let ROp::CopyD { addr, .. } | ROp::CopyO { addr, .. } = o {
            cx.label_if(*addr > u32::MAX as u64, "address above 32 bits")
        }
    }
    Ok(())
}
pub fn head(o: &[ROp]) -> String {
    let mut s = format!("{o:?}");
    if s.len() > 400 {
        s = s.chars().take(400).collect::<String>() + "..";
    }
    s
}
#[allow(clippy::too_many_arguments)]
pub fn check_header(what: &str, h: &SectionHeader, seg: bool, more: bool, algo: u8, n: usize, adds: u64, total: u64) -> Outcome {
    ensure!(h.format == fmt(seg), "{what}: header format {:?}", h.format);
    ensure!(h.is_interleaved() == !seg && h.format.is_segregated() == seg && h.format.is_interleaved() == !seg && h.is_compressed() == (algo != 0), "{what}: the header's predicates contradict its fields");
    ensure!(h.more_sections == more, "{what}: header more_sections {}", h.more_sections);
    ensure!(h.compression_algo == algo, "{what}: header compression_algo {}", h.compression_algo);
    ensure!(h.num_operations as usize == n, "{what}: header num_operations {} instead of {n}", h.num_operations);
    ensure!(h.output_size as u64 == total, "{what}: header output_size {} instead of {total}", h.output_size);
    ensure!(h.num_add_bytes as u64 == adds, "{what}: header num_add_bytes {} but the section adds {adds} bytes ({})", h.num_add_bytes, if seg { "segregated" } else { "interleaved" });
    Ok(())
}
pub fn c03() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "the section has at least three kinds of operation",
        assumptions: vec!["copy addresses below 2^63 (differences are 64-bit signed)", "sections within the format's output limit"],
        families: vec![
            Box::new(Family { name: "ops", quick: 1_200_000, thorough: 15_000_000, strat: s_sec, run: run_c03 }),
            Box::new(Family { name: "wide", quick: 120_000, thorough: 1_500_000, strat: s_sec_wide, run: run_c03 }),
            Box::new(Family { name: "many", quick: 80_000, thorough: 800_000, strat: s_sec_many, run: run_c03 }),
            Box::new(Family { name: "lengths", quick: 6_000, thorough: 60_000, strat: s_sec_lengths, run: run_c03 }),
        ],
        floors: vec![("size 62", 500), ("size 63", 500), ("size 64..=317", 5_000), ("size 65535", 100), ("address above 32 bits", 5_000), ("segregated", 10_000)],
    }
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntCase {
    pub a: u64,
    pub b: u64,
    pub tail: Vec<u8>,
}
fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        3 => (0u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        2 => 0u64..70_000,
        1 => (0u64..3).prop_map(|d| u64::MAX - d),
        1 => (1u32..10, -2i64..3).prop_map(|(k, d)| 1u64.checked_shl(7 * k).unwrap_or(0).wrapping_add(d as u64)),
    ]
    .boxed()
}
fn s_int() -> BoxedStrategy<IntCase> {
    (edge_u64(), edge_u64(), pvec(any::<u8>(), 0..4)).prop_map(|(a, b, tail)| IntCase { a, b, tail }).boxed()
}
fn s_near() -> BoxedStrategy<IntCase> {
    (edge_u64(), edge_u64(), any::<bool>()).prop_map(|(a, d, s)| IntCase { a, b: if s { a.wrapping_add(d) } else { a.wrapping_sub(d) }, tail: vec![] }).boxed()
}
fn run_int(c: &IntCase, cx: &mut Cx) -> Outcome {
    use smdiff_common::*;
    let n = c.a;
    // unsigned
    let mut w = Vec::new();
    cut(|| write_u_varint(&mut w, n))?.map_err(|e| e.to_string())?;
    let mut want = Vec::new();
    spec::put_uvar(&mut want, n);
    ensure!(w == want, "u-varint of {n}: {w:x?} instead of {want:x?}");
    let sz = cut(|| u_varint_encode_size(n))?;
    ensure!(sz == want.len(), "u_varint_encode_size({n}) = {sz}, but it takes {} bytes", want.len());
    w.extend_from_slice(&c.tail);
    let mut cur = std::io::Cursor::new(&w[..]);
    let v = cut(|| read_u_varint(&mut cur))?.map_err(|e| format!("reading the u-varint of {n}: {e}"))?;
    ensure!(v == n && cur.position() as usize == want.len(), "u-varint of {n} reads back as {v} using {} of {} bytes", cur.position(), want.len());
    // signed
    let s = n as i64;
    let z = cut(|| zigzag_encode(s))?;
    ensure!(z == spec::zig(s as i128), "zigzag({s}) = {z}");
    ensure!(cut(|| zigzag_decode(z))? == s, "zigzag does not invert at {s}");
    ensure!(cut(|| zigzag_encode(zigzag_decode(n)))? == n, "inverse zigzag does not invert at {n}");
    let mut w = Vec::new();
    cut(|| write_i_varint(&mut w, s))?.map_err(|e| e.to_string())?;
    let mut want = Vec::new();
    spec::put_uvar(&mut want, spec::zig(s as i128));
    ensure!(w == want, "i-varint of {s}: {w:x?} instead of {want:x?}");
    let mut cur = std::io::Cursor::new(&w[..]);
    let v = cut(|| read_i_varint(&mut cur))?.map_err(|e| format!("reading the i-varint of {s}: {e}"))?;
    ensure!(v == s && cur.position() as usize == w.len(), "i-varint of {s} reads back as {v}");
    // fixed width
    let x = n as u16;
    let mut w = Vec::new();
    cut(|| write_u16(&mut w, x))?.map_err(|e| e.to_string())?;
    ensure!(w == [x as u8, (x >> 8) as u8], "u16 {x} written as {w:x?}");
    ensure!(cut(|| read_u16(&mut &w[..]))?.ok() == Some(x), "u16 {x} does not read back");
    let mut w = Vec::new();
    cut(|| write_u8(&mut w, x as u8))?.map_err(|e| e.to_string())?;
    ensure!(w == [x as u8] && cut(|| read_u8(&mut &w[..]))?.ok() == Some(x as u8), "u8 {} does not round trip", x as u8);
    // address differences
    let d = cut(|| diff_addresses_to_i64(c.a, c.b)).map_err(|e| format!("diff_addresses_to_i64({}, {}): {e}", c.a, c.b))?;
    let exact = c.b as i128 - c.a as i128;
    if exact >= i64::MIN as i128 && exact <= i64::MAX as i128 {
        ensure!(d as i128 == exact, "address difference {} -> {} encoded as {d}", c.a, c.b);
    }
    let back = cut(|| diff_addresses_to_u64(c.a, d)).map_err(|e| format!("diff_addresses_to_u64({}, {d}): {e}", c.a))?;
    ensure!(back == c.b, "address {} after {} decodes as {back}", c.b, c.a);
    // sizes
    if x > 0 {
        let r = cut(|| size_routine(x))?;
        let ok = match r {
            Size::Done(v) => v as u16 == x && (1..=62).contains(&x),
            Size::U8And62 => (62..=317).contains(&x),
            Size::U16 => true,
        };
        ensure!(ok, "size {x} routed to {r:?}, which cannot hold it");
        let oh = match r {
            Size::Done(_) => 0,
            Size::U8And62 => 1,
            Size::U16 => 2,
        };
        ensure!(r.size_overhead() == oh, "size_overhead of {r:?} is {}", r.size_overhead());
    }
    cx.nontrivial_if(n >= 128);
    cx.label_if(n > u32::MAX as u64, "above 32 bits");
    cx.label_if(n >= 1 << 63, "top bit set");
    cx.label_if(exact < i64::MIN as i128 || exact > i64::MAX as i128, "difference above 63 bits");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase {
    pub b: Vec<u8>,
}
fn s_bytes() -> BoxedStrategy<BytesCase> {
    (pvec(prop_oneof![4 => 128u8..=255, 1 => Just(0x80u8), 1 => Just(0xFFu8)], 0..12), pvec(any::<u8>(), 0..4))
        .prop_map(|(mut a, b)| {
            a.extend(b);
            BytesCase { b: a }
        })
        .boxed()
}
fn run_bytes(c: &BytesCase, cx: &mut Cx) -> Outcome {
    let mut rc = spec::Cur::new(&c.b);
    let want = rc.uvar("v");
    let mut cur = std::io::Cursor::new(&c.b[..]);
    let got = cut(|| smdiff_common::read_u_varint(&mut cur)).map_err(|p| format!("read_u_varint({}): {p}", hexs(&c.b)))?;
    let mut cur2 = std::io::Cursor::new(&c.b[..]);
    let goti = cut(|| smdiff_common::read_i_varint(&mut cur2)).map_err(|p| format!("read_i_varint({}): {p}", hexs(&c.b)))?;
    match want {
        Ok((v, minimal)) => {
            if minimal {
                ensure!(matches!(&got, Ok(g) if *g == v), "varint {} reads as {got:?} instead of {v}", hexs(&c.b));
                ensure!(cur.position() as usize == rc.p, "varint {}: used {} bytes instead of {}", hexs(&c.b), cur.position(), rc.p);
                ensure!(matches!(&goti, Ok(g) if *g as i128 == spec::unzig(v)), "i-varint {} reads as {goti:?}", hexs(&c.b));
            } else if let Ok(g) = got {
                // an overlong form may be rejected, but not misread
                ensure!(g == v, "overlong varint {} reads as {g} instead of {v}", hexs(&c.b));
            }
            cx.label("valid varint");
            cx.nontrivial_if(rc.p > 1);
        }
        Err(e) => {
            ensure!(got.is_err(), "{} ({e}) reads as {got:?}", hexs(&c.b));
            ensure!(goti.is_err(), "{} ({e}) reads as {goti:?}", hexs(&c.b));
            cx.label_if(matches!(e, spec::PErr::Truncated(_)), "truncated varint");
            cx.label_if(matches!(e, spec::PErr::Invalid(_)), "varint above 64 bits");
            cx.nontrivial_if(matches!(e, spec::PErr::Invalid(_)));
        }
    }
    Ok(())
}
pub fn c04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "a value of at least two varint bytes, or a byte string that is not a 64-bit varint",
        assumptions: vec!["an overlong but in-range varint may be accepted or rejected"],
        families: vec![
            Box::new(Family { name: "values", quick: 4_000_000, thorough: 100_000_000, strat: s_int, run: run_int }),
            Box::new(Family { name: "near", quick: 3_000_000, thorough: 80_000_000, strat: s_near, run: run_int }),
            Box::new(Family { name: "bytes", quick: 3_000_000, thorough: 80_000_000, strat: s_bytes, run: run_bytes }),
        ],
        floors: vec![("difference above 63 bits", 1000), ("varint above 64 bits", 1000), ("valid varint", 1000)],
    }
}

// ------------------------------------------------------------------ C05

pub struct Fake(usize);
static ZEROS: [u8; 70_000] = [0u8; 70_000];
impl smdiff_common::AddOp for Fake {
    fn bytes(&self) -> &[u8] {
        &ZEROS[..self.0]
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplitCase {
    /// (kind, len, repeat)
    pub ops: Vec<(u8, u16, u16)>,
    pub max: u64,
}
fn s_split() -> BoxedStrategy<SplitCase> {
    let len = || prop_oneof![3 => 1u16..200, 3 => 1u16..=65535, 2 => Just(65535u16), 1 => 65_000u16..=65535, 1 => Just(1u16)];
    let max = || {
        prop_oneof![
            2 => prop::sample::select(vec![0u64, 1, 65_534, 65_535, 65_536, 131_070, 131_071, 1 << 24, (1 << 24) - 1, (1 << 24) - 2, u32::MAX as u64, u64::MAX, 1 << 32, (1 << 32) + 70_000, 1 << 48, (1 << 63) + 65_536]),
            3 => 65_535u64..600_000,
            1 => 600_000u64..(1 << 24),
        ]
    };
    (pvec((0u8..4, len(), prop_oneof![6 => Just(1u16), 2 => 1u16..20, 1 => 200u16..400]), 0..25), max()).prop_map(|(ops, max)| SplitCase { ops, max }).boxed()
}
/// Tens of thousands of tiny operations in a row.
fn s_split_many() -> BoxedStrategy<SplitCase> {
    let max = prop_oneof![1 => 65_535u64..200_000, 2 => Just(u32::MAX as u64)];
    let n = prop_oneof![9 => 1usize..6, 1 => 20usize..60];
    (n.prop_flat_map(|n| pvec((0u8..4, 1u16..4, 20_000u16..=65_535), n)), max).prop_map(|(ops, max)| SplitCase { ops, max }).boxed()
}
/// Lists that make more than 4 GiB in all.
fn s_split_far() -> BoxedStrategy<SplitCase> {
    let max = prop_oneof![2 => 65_535u64..600_000, 2 => 600_000u64..(1 << 24), 1 => Just(u32::MAX as u64)];
    (pvec((0u8..4, prop_oneof![2 => 1u16..=65_535, 3 => Just(65_535u16)], prop_oneof![1u16..20, 1u16..=65_535]), 1..6), 2u8..4, any::<bool>(), max)
        .prop_map(|(mut ops, k, d, max)| {
            let i = ops.len() / 2;
            ops.insert(i, (if d { 2 } else { 0 }, 65_535, 65_535));
            ops.insert(i, (k, 65_535, 3));
            SplitCase { ops, max }
        })
        .boxed()
}
fn run_c05(c: &SplitCase, cx: &mut Cx) -> Outcome {
    use smdiff_common::{Copy, CopySrc, Op, Run};
    let mut ops: Vec<Op<Fake>> = Vec::new();
    for (k, n, r) in &c.ops {
        let n = (*n).max(1);
        for _ in 0..(*r).max(1) {
            ops.push(match k % 4 {
                0 => Op::Add(Fake(n as usize)),
                1 => Op::Run(Run { byte: 3, len: (n % 62 + 1) as u8 }),
                2 => Op::Copy(Copy { src: CopySrc::Dict, addr: 5, len: n }),
                _ => Op::Copy(Copy { src: CopySrc::Output, addr: 5, len: n }),
            });
        }
    }
    let olen = |o: &Op<Fake>| match o {
        Op::Add(f) => f.0 as u64,
        Op::Run(r) => r.len as u64,
        Op::Copy(c) => c.len as u64,
    };
    let lim = c.max.clamp(65_535, spec::MAX_SECTION);
    let secs = cut(|| smdiff_writer::make_sections(&ops, c.max as usize)).map_err(|p| format!("make_sections: {p}"))?;
    ensure!(!secs.is_empty(), "no sections");
    let mut next = ops.as_ptr();
    let mut n = 0usize;
    for (i, (o, h)) in secs.iter().enumerate() {
        // consecutive slices of the one list: nothing lost, repeated or reordered
        ensure!(o.as_ptr() == next || (o.is_empty() && ops.is_empty()), "section {i} does not start where the previous one ended");
        next = unsafe { next.add(o.len()) };
        n += o.len();
        let total: u64 = o.iter().map(olen).sum();
        let adds: u64 = o.iter().map(|x| if let Op::Add(f) = x { f.0 as u64 } else { 0 }).sum();
        ensure!(total <= lim, "section {i} produces {total} bytes, the limit is {lim}");
        ensure!(h.output_size as u64 == total, "section {i}: output size {} instead of {total}", h.output_size);
        ensure!(h.num_operations as usize == o.len(), "section {i}: {} operations instead of {}", h.num_operations, o.len());
        ensure!(h.num_add_bytes as u64 == adds, "section {i}: {} add bytes instead of {adds}", h.num_add_bytes);
        ensure!(h.more_sections == (i + 1 < secs.len()), "section {i} of {}: more_sections = {}", secs.len(), h.more_sections);
        ensure!(!o.is_empty() || ops.is_empty(), "section {i} of {} is empty", secs.len());
        // no needless splitting: the next operation would not have fitted
        if i + 1 < secs.len() {
            let nx = olen(&secs[i + 1].0[0]);
            ensure!(total + nx > lim, "section {i} ends at {total} bytes although the next operation ({nx}) fits the limit {lim}");
        }
    }
    ensure!(n == ops.len(), "{n} of {} operations are in the sections", ops.len());
    cx.nontrivial_if(secs.len() > 1);
    cx.label_if(secs.len() > 1, "several sections");
    cx.label_if(secs.len() > 20, "more than 20 sections");
    cx.label_if(ops.is_empty(), "empty list");
    cx.label_if(ops.iter().map(olen).sum::<u64>() > u32::MAX as u64, "more than 4 GiB of output");
    cx.label_if(secs.iter().any(|(o, _)| o.len() > 65_535), "more than 65535 operations in a section");
    cx.label_if(secs.iter().any(|(o, _)| o.len() > 1 << 20), "more than a million operations in a section");
    cx.label_if(secs.iter().any(|(_, h)| h.output_size as u64 == lim), "section filled exactly");
    cx.label_if(lim == spec::MAX_SECTION && secs.len() > 1, "split at the format's limit");
    Ok(())
}
pub fn c05() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "the operations need more than one section",
        assumptions: vec!["operations are 1..=65535 bytes, as the format requires"],
        families: vec![
            Box::new(Family { name: "split", quick: 6_000_000, thorough: 60_000_000, strat: s_split, run: run_c05 }),
            Box::new(Family { name: "many", quick: 1_200, thorough: 30_000, strat: s_split_many, run: run_c05 }),
            Box::new(Family { name: "far", quick: 20_000, thorough: 400_000, strat: s_split_far, run: run_c05 }),
        ],
        floors: vec![("several sections", 20_000), ("section filled exactly", 500), ("split at the format's limit", 50), ("more than 65535 operations in a section", 200), ("more than a million operations in a section", 20), ("more than 4 GiB of output", 200)],
    }
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bend {
    None,
    Ops(i64),
    Out(i64),
    Adds(i64),
    /// drop / duplicate an operation after the header was computed
    Drop(u16),
    Dup(u16),
    /// move bytes between output size and add bytes
    Shift(i64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeadCase {
    pub ops: Vec<COp>,
    pub seg: bool,
    pub bend: Bend,
    /// replace op i by one the format cannot express
    pub odd: Option<(u16, u8, u16)>,
    /// copies of the first operation
    pub reps: u32,
}
fn s_head() -> BoxedStrategy<HeadCase> {
    // differences that vanish when a count is kept in too few bits
    let round = || (1i64..4, prop::sample::select(vec![8u32, 15, 16, 24, 31]), any::<bool>()).prop_map(|(k, p, neg)| if neg { -(k << p) } else { k << p });
    let near = |n: i64| prop_oneof![-n..0, 1..n + 1, Just(1i64), Just(-1i64)];
    let bend = prop_oneof![
        2 => Just(Bend::None),
        1 => prop_oneof![2 => near(3), 1 => round()].prop_map(Bend::Ops),
        2 => prop_oneof![3 => near(70_000), 1 => round()].prop_map(Bend::Out),
        2 => prop_oneof![3 => near(70_000), 1 => round()].prop_map(Bend::Adds),
        1 => any::<u16>().prop_map(Bend::Drop),
        1 => any::<u16>().prop_map(Bend::Dup),
        1 => prop_oneof![3 => near(300), 1 => round()].prop_map(Bend::Shift),
    ];
    (pvec(cop(op_len_wide()), 0..10), any::<bool>(), bend, prop::option::weighted(0.15, (any::<u16>(), 0u8..5, 0u16..3000)))
        .prop_map(|(ops, seg, bend, odd)| HeadCase { ops, seg, bend, odd, reps: 1 })
        .boxed()
}
/// Around the largest section.
fn s_head_max() -> BoxedStrategy<HeadCase> {
    (any::<bool>(), prop_oneof![Just(256u32), Just(257u32), Just(258u32)], prop_oneof![Just(Bend::None), Just(Bend::Out(-1)), Just(Bend::Out(1))], prop_oneof![Just(COp::D(5, 65_535)), Just(COp::O(5, 65_535))], 0u16..3)
        .prop_map(|(seg, reps, bend, op, x)| HeadCase { ops: vec![op, COp::D(1, 254 + x)], seg, bend, odd: None, reps })
        .boxed()
}
/// More operations than 16 bits count.
fn s_head_many() -> BoxedStrategy<HeadCase> {
    let bend = prop_oneof![Just(Bend::None), (-2i64..=2).prop_map(|k| Bend::Ops(k << 16)), (-4i64..=4).prop_map(Bend::Ops), (-2i64..=2).prop_map(|k| Bend::Out(k << 16)), any::<u16>().prop_map(Bend::Drop), any::<u16>().prop_map(Bend::Dup)];
    (any::<bool>(), prop_oneof![65_530u32..65_545, 66_000u32..140_000], bend, prop::collection::vec(cop(Just(1u16).boxed()), 1..4)).prop_map(|(seg, reps, bend, ops)| HeadCase { ops, seg, bend, odd: None, reps }).boxed()
}
/// A list of operations, the header it is written under, and what the format says about that.
struct Bent {
    rops: Vec<smdiff_reader::Op>,
    h: SectionHeader,
    odd: Option<&'static str>,
    consistent: bool,
    /// operations, output and add bytes: of the header, and true
    n: i64,
    out: i64,
    ab: i64,
    t2: i64,
    a2: i64,
}
fn bent(c: &HeadCase) -> Bent {
    use smdiff_common::Op;
    let mut ops: Vec<ROp> = cops(&c.ops);
    if c.reps > 1 && !ops.is_empty() {
        let f = ops[0].clone();
        ops.splice(0..0, std::iter::repeat(f).take(c.reps.min(200_000) as usize - 1));
    }
    let mut rops: Vec<smdiff_reader::Op> = ops.iter().map(spec::to_reader_op).collect();
    let mut odd = None;
    if let Some((i, k, n)) = &c.odd {
        if !rops.is_empty() {
            let i = *i as usize % rops.len();
            let (o, what) = match k {
                0 => (Op::Add(smdiff_reader::Add::new(vec![])), "empty add"),
                1 => (Op::Copy(smdiff_common::Copy { src: smdiff_common::CopySrc::Dict, addr: 3, len: 0 }), "empty copy"),
                2 => (Op::Run(smdiff_common::Run { byte: 1, len: 0 }), "empty run"),
                3 => (Op::Run(smdiff_common::Run { byte: 1, len: 63 + (*n % 190) as u8 }), "run above 62"),
                _ => (Op::Add(smdiff_reader::Add::new(vec![7; 65_536 + *n as usize])), "add above 65535"),
            };
            rops[i] = o;
            odd = Some(what);
        }
    }
    // true length as the caller counts it; for odd ops also the wrapped count, whichever fools more
    let tl = |o: &smdiff_reader::Op| match o {
        Op::Add(a) => (a.bytes.len() as u64) & 0xffff,
        Op::Run(r) => r.len as u64,
        Op::Copy(c) => c.len as u64,
    };
    let total: i64 = rops.iter().map(|o| tl(o) as i64).sum();
    let adds: i64 = rops.iter().map(|o| if let Op::Add(a) = o { a.bytes.len() as i64 } else { 0 }).sum();
    let (mut n, mut out, mut ab) = (rops.len() as i64, total, adds);
    match &c.bend {
        Bend::None => {}
        Bend::Ops(d) => n += *d,
        Bend::Out(d) => out += *d,
        Bend::Adds(d) => ab += *d,
        Bend::Drop(i) => {
            if !rops.is_empty() {
                rops.remove(*i as usize % rops.len());
            }
        }
        Bend::Dup(i) => {
            if !rops.is_empty() {
                let o = rops[*i as usize % rops.len()].clone();
                rops.push(o);
            }
        }
        Bend::Shift(d) => {
            ab += *d;
            out += *d;
        }
    }
    let (n, out, ab) = (n.clamp(0, u32::MAX as i64), out.clamp(0, u32::MAX as i64), ab.clamp(0, u32::MAX as i64));
    let h = SectionHeader::new(n as u32, ab as u32, out as u32).set_format(fmt(c.seg));
    // whether header and list agree
    let t2: i64 = rops.iter().map(|o| tl(o) as i64).sum();
    let a2: i64 = rops.iter().map(|o| if let Op::Add(a) = o { a.bytes.len() as i64 } else { 0 }).sum();
    let consistent = odd.is_none() && n as usize == rops.len() && out == t2 && out as u64 <= spec::MAX_SECTION && (!c.seg || ab == a2);
    Bent { rops, h, odd, consistent, n, out, ab, t2, a2 }
}
fn run_c17(c: &HeadCase, cx: &mut Cx) -> Outcome {
    let Bent { rops, h, odd, consistent, n, out, ab, t2, a2 } = bent(c);
    let mut w = Vec::new();
    let r = cut(|| smdiff_writer::write_ops(&rops, &h, &mut w)).map_err(|p| format!("write_ops{}: {p}", odd.map(|o| format!(" ({o})")).unwrap_or_default()))?;
    ensure!(r.is_ok() || !consistent, "write_ops refuses a consistent section: {:?}", r.as_ref().err());
    ensure!(
        r.is_err() || consistent,
        "write_ops accepts a section that does not match its header or the format: header {n} ops, {out} bytes, {ab} add bytes; list {} ops, {t2} bytes, {a2} add bytes; odd operation: {odd:?}; segregated {}",
        rops.len(),
        c.seg
    );
    if r.is_ok() {
        // and what was accepted is what a reader sees
        let mut b = Vec::new();
        {
            cut(|| smdiff_writer::write_section_header(&h, &mut b)).map_err(|p| format!("write_section_header: {p}"))?.map_err(|e| format!("write_section_header refuses a consistent section: {e}"))?;
            b.extend_from_slice(&w);
            let s = spec::parse_section(&mut spec::Cur::new(&b), &Default::default()).map_err(|e| format!("accepted section does not parse: {e}"))?;
            let want: Vec<ROp> = rops.iter().map(spec::from_reader_op).collect();
            ensure!(s.ops == want, "accepted section says something else");
        }
    }
    cx.nontrivial_if(!consistent);
    cx.label_if(consistent, "consistent");
    cx.label_if(!consistent && n as usize != rops.len(), "operation count wrong");
    cx.label_if(out != t2, "output size wrong");
    cx.label_if(c.seg && ab != a2, "add byte count wrong");
    cx.label_if(odd.is_some(), "inexpressible operation");
    cx.label_if(rops.len() > 65_535, "more than 65535 operations");
    cx.label_if(out as u64 > spec::MAX_SECTION, "above the section limit");
    cx.label_if(out as u64 == spec::MAX_SECTION && out == t2, "exactly the section limit");
    Ok(())
}
/// Headers on their own: what is written reads back as the same header.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawHead {
    pub n: u32,
    pub adds: u32,
    pub out: u32,
    pub algo: u8,
    pub seg: bool,
    pub more: bool,
}
fn s_raw_head() -> BoxedStrategy<RawHead> {
    let v = || prop_oneof![2 => 0u32..300, 2 => any::<u32>(), 3 => (0u32..32, -2i64..3).prop_map(|(s, d)| ((1i64 << s) + d).clamp(0, u32::MAX as i64) as u32), 1 => 16_777_210u32..16_777_220];
    let pair = prop_oneof![2 => (v(), v()), 2 => (v(), -2i64..3).prop_map(|(a, d)| (a, (a as i64 + d).clamp(0, u32::MAX as i64) as u32)), 1 => (v(), v()).prop_map(|(a, b)| (a.min(b), a.max(b)))];
    (v(), pair, prop_oneof![4 => 0u8..4, 2 => 4u8..12, 1 => any::<u8>()], any::<bool>(), any::<bool>()).prop_map(|(n, (adds, out), algo, seg, more)| RawHead { n, adds, out, algo, seg, more }).boxed()
}
fn run_raw_head(c: &RawHead, cx: &mut Cx) -> Outcome {
    let mut h = SectionHeader::new(c.n, c.adds, c.out).set_format(fmt(c.seg)).set_more_sections(c.more);
    h.compression_algo = c.algo;
    let mut b = Vec::new();
    let r = cut(|| smdiff_writer::write_section_header(&h, &mut b)).map_err(|p| format!("write_section_header: {p}"))?;
    let fits = c.algo < 8 && !(c.seg && c.adds > c.out);
    cx.nontrivial_if(!fits);
    cx.label_if(c.algo > 7, "algorithm above the field");
    cx.label_if(c.seg && c.adds > c.out, "more add bytes than output");
    cx.label_if(fits, "header that fits");
    match r {
        Err(e) => ensure!(!fits || c.algo > 3 || c.out as u64 > spec::MAX_SECTION, "write_section_header refuses {h:?}: {e}"),
        Ok(()) => {
            ensure!(fits, "write_section_header accepts what the format cannot express: {h:?}");
            let mut cur = spec::Cur::new(&b);
            let ctl = cur.u8("control").map_err(|e| e.to_string())?;
            let mut int = || cur.uvar("header").map(|x| x.0).map_err(|e| e.to_string());
            let n = int()?;
            let adds = if c.seg { int()? } else { 0 };
            let rest = int()?;
            ensure!(cur.p == b.len(), "{} bytes after the header", b.len() - cur.p);
            ensure!(ctl >> 7 == c.more as u8 && ctl >> 6 & 1 == c.seg as u8 && ctl >> 3 & 7 == c.algo && ctl & 7 == 0, "control byte {ctl:08b} for {h:?}");
            ensure!(n == c.n as u64 && rest + adds == c.out as u64 && (!c.seg || adds == c.adds as u64), "header of {n} operations, {adds} add bytes and {rest} more for {h:?}");
        }
    }
    Ok(())
}
/// Sections written one after another through the section writer, with one scratch buffer: a refused one, or one
/// whose sink failed, must not show in the next.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Through {
    /// a section, its compression, the algorithm its header had before, and how many bytes its sink takes
    pub secs: Vec<(HeadCase, Comp, u8, Option<u16>)>,
    /// what the scratch buffer holds at first
    pub dirt: Vec<u8>,
}
fn s_through() -> BoxedStrategy<Through> {
    let sink = prop_oneof![5 => Just(None), 1 => (0u16..300).prop_map(Some)];
    let algo = prop_oneof![3 => Just(0u8), 2 => 1u8..4, 1 => 4u8..8];
    (pvec((s_head(), comp(), algo, sink), 1..5), prop_oneof![4 => Just(vec![]), 1 => pvec(any::<u8>(), 1..20)]).prop_map(|(secs, dirt)| Through { secs, dirt }).boxed()
}
struct Small {
    got: Vec<u8>,
    room: usize,
}
impl std::io::Write for Small {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the sink is full"));
        }
        let n = b.len().min(self.room);
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn run_through(c: &Through, cx: &mut Cx) -> Outcome {
    let mut buf = c.dirt.clone();
    let (mut refused, mut failed) = (false, false);
    for (i, (hc, comp, algo, room)) in c.secs.iter().enumerate() {
        let Bent { rops, h, odd, consistent, n, out, ab, t2, a2 } = bent(hc);
        let mut h = h;
        h.compression_algo = *algo;
        let mut w = Small { got: Vec::new(), room: room.map_or(usize::MAX, |r| r as usize) };
        let r = cut(|| smdiff_encoder::writer::section_writer(&comp.to_sec(), h, &mut w, &rops, &mut buf)).map_err(|p| format!("section_writer: {p}"))?;
        match r {
            Err(e) => {
                ensure!(!consistent || w.room == 0, "section {i}: section_writer refuses a consistent section: {e}");
                cx.label_if(!consistent, "refused by the section writer");
                cx.label_if(consistent, "the sink of the section writer failed");
                refused |= !consistent;
                failed |= consistent;
            }
            Ok(()) => {
                ensure!(
                    consistent,
                    "section {i}: section_writer accepts a section that does not match its header or the format: header {n} ops, {out} bytes, {ab} add bytes; list {} ops, {t2} bytes, {a2} add bytes; odd operation: {odd:?}; segregated {}",
                    rops.len(),
                    hc.seg
                );
                let mut cur = spec::Cur::new(&w.got);
                let s = spec::parse_section(&mut cur, &Default::default()).map_err(|e| format!("section {i} (scratch buffer used before: {}, compression of the given header: {algo}): what was written does not parse: {e}", i > 0 || !c.dirt.is_empty()))?;
                ensure!(cur.p == w.got.len(), "section {i}: {} bytes behind it", w.got.len() - cur.p);
                ensure!(s.algo == comp.algo(), "section {i}: written with algorithm {} instead of {}", s.algo, comp.algo());
                let want: Vec<ROp> = rops.iter().map(spec::from_reader_op).collect();
                ensure!(s.ops == want, "section {i} says {} instead of {}", head(&s.ops), head(&want));
                cx.label_if(refused && *comp != Comp::None, "compressed section after a refused one");
                cx.label_if(failed && *comp != Comp::None, "compressed section after a failed one");
                cx.label_if(*comp == Comp::None && *algo != 0, "uncompressed section with the header of a compressed one");
            }
        }
    }
    cx.nontrivial_if(refused || failed || !c.dirt.is_empty() || c.secs.iter().any(|s| s.2 != 0));
    Ok(())
}
pub fn c17() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        rule: "header and operation list disagree, or an operation cannot be expressed",
        assumptions: vec!["the add-byte count is only part of the format for segregated sections"],
        families: vec![
            Box::new(Family { name: "bent", quick: 3_000_000, thorough: 30_000_000, strat: s_head, run: run_c17 }),
            Box::new(Family { name: "limit", quick: 4_800, thorough: 48_000, strat: s_head_max, run: run_c17 }),
            Box::new(Family { name: "many", quick: 1_600, thorough: 30_000, strat: s_head_many, run: run_c17 }),
            Box::new(Family { name: "section-writer", quick: 150_000, thorough: 3_000_000, strat: s_through, run: run_through }),
            Box::new(Family { name: "headers", quick: 1_000_000, thorough: 10_000_000, strat: s_raw_head, run: run_raw_head }),
        ],
        floors: vec![("consistent", 3_000), ("operation count wrong", 3_000), ("output size wrong", 3_000), ("add byte count wrong", 2_000), ("inexpressible operation", 2_000), ("exactly the section limit", 10), ("above the section limit", 50), ("more than 65535 operations", 300), ("algorithm above the field", 3_000), ("more add bytes than output", 3_000), ("header that fits", 100_000), ("refused by the section writer", 5_000), ("the sink of the section writer failed", 1_000), ("compressed section after a refused one", 2_000), ("compressed section after a failed one", 500), ("uncompressed section with the header of a compressed one", 2_000)],
    }
}
