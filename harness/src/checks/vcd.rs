//! C14 VCDIFF conversion, against an independent RFC 3284 encoder and interpreter.
use super::merge::{ranges_of, same_ranges, sub_rng, Rng};
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VOp {
    Add(u16, u32),
    Run(u8, u32),
    /// from the source segment
    S(u32, u32),
    /// from the part of the target window written so far
    T(u32, u32),
    /// self-overlapping: (distance back from the write position, length)
    Q(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Win {
    /// 0 none, 1 source file, 2 target file
    pub ind: u8,
    pub seg: (u32, u32),
    pub ops: Vec<VOp>,
    /// picks address modes and opcode forms
    pub pick: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VcdCase {
    pub src: Vec<Seg>,
    pub wins: Vec<Win>,
}

/// Resolved instruction: literal bytes, or (address in U, length).
#[derive(Debug)]
enum I {
    Add(Vec<u8>),
    Run(u8, u32),
    Copy(u64, u32),
}
fn put_int(out: &mut Vec<u8>, v: u64) {
    let mut b = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        b.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    b.reverse();
    out.extend(b);
}
struct ACache {
    near: [u64; 4],
    next: usize,
    same: Vec<u64>,
}
impl ACache {
    fn new() -> Self {
        ACache { near: [0; 4], next: 0, same: vec![0; 768] }
    }
    /// every way to encode `addr`: (mode, address-section bytes)
    fn ways(&self, addr: u64, here: u64) -> Vec<(u8, Vec<u8>)> {
        let int = |v| {
            let mut b = Vec::new();
            put_int(&mut b, v);
            b
        };
        let mut w = vec![(0u8, int(addr)), (1, int(here - addr))];
        for i in 0..4 {
            if addr >= self.near[i] {
                w.push((2 + i as u8, int(addr - self.near[i])));
            }
        }
        if self.same[(addr % 768) as usize] == addr {
            w.push((6 + (addr % 768 / 256) as u8, vec![(addr % 256) as u8]));
        }
        w
    }
    fn update(&mut self, addr: u64) {
        self.near[self.next] = addr;
        self.next = (self.next + 1) % 4;
        self.same[(addr % 768) as usize] = addr;
    }
}
/// Which table the two-instruction opcodes follow.
#[derive(Clone, Copy, PartialEq)]
enum Table {
    /// only those on which RFC 3284 and the VCDIFF reader library agree
    Common,
    Reader,
    Rfc,
}
fn pair_add_copy(t: Table, add: usize, copy: u32, mode: u8) -> Option<u8> {
    if !(1..=4).contains(&add) {
        return None;
    }
    let m = mode as usize;
    let (rfc, rdr) = if mode < 6 {
        if !(4..=6).contains(&copy) {
            return None;
        }
        let k = copy as usize - 4;
        (163 + m * 12 + (add - 1) * 3 + k, 163 + (add - 1) * 18 + m * 3 + k)
    } else {
        if copy != 4 {
            return None;
        }
        (235 + (m - 6) * 4 + (add - 1), 235 + (add - 1) * 3 + (m - 6))
    };
    match t {
        Table::Rfc => Some(rfc as u8),
        Table::Reader => Some(rdr as u8),
        Table::Common => (rfc == rdr).then_some(rfc as u8),
    }
}

struct Enc {
    bytes: Vec<u8>,
    out: Vec<u8>,
}
/// Build the VCDIFF bytes and the output RFC 3284 gives them. With `conv`, a
/// self-overlapping copy follows the VCDIFF reader library's convention (its encoded
/// length counts the overlapped bytes before the write position, which it does not
/// output again).
fn encode_vcd(c: &VcdCase, src: &[u8], t: Table, conv: bool, cx: &mut Cx) -> Enc {
    let mut bytes = vec![0xd6, 0xc3, 0xc4, 0, 0];
    let mut out: Vec<u8> = Vec::new();
    for w in &c.wins {
        let from: Option<Vec<u8>> = match w.ind {
            1 => Some(src.to_vec()),
            2 if !out.is_empty() => Some(out.clone()),
            _ => None,
        };
        let (s, ssp): (Vec<u8>, u64) = match &from {
            Some(f) => {
                let p = (w.seg.0 as usize) % (f.len() + 1);
                let e = p + (w.seg.1 as usize) % (f.len() - p + 1);
                (f[p..e].to_vec(), p as u64)
            }
            None => (vec![], 0),
        };
        let sss = s.len() as u64;
        let mut u = s.clone();
        let mut insts: Vec<I> = Vec::new();
        for o in &w.ops {
            let here = u.len() as u64;
            match o {
                VOp::Add(sd, n) => insts.push(I::Add(build(&[Seg::Rand(*sd as u32, *n)]))),
                VOp::Run(b, n) => insts.push(I::Run(*b, *n)),
                VOp::S(a, n) if sss > 0 => {
                    let a = *a as u64 % sss;
                    insts.push(I::Copy(a, (*n as u64).min(sss - a) as u32));
                }
                VOp::T(a, n) if here > sss => {
                    let a = sss + *a as u64 % (here - sss);
                    insts.push(I::Copy(a, (*n as u64).min(here - a) as u32));
                }
                VOp::Q(d, n) if here > sss => {
                    let d = 1 + *d as u64 % (here - sss);
                    let n = (*n).max(1);
                    // at least one byte beyond the write position
                    insts.push(I::Copy(here - d, d as u32 + n));
                    cx.label("self-overlapping copy");
                }
                VOp::S(_, n) | VOp::T(_, n) | VOp::Q(_, n) => insts.push(I::Run(9, *n)),
            }
            match insts.last().unwrap() {
                I::Add(b) => u.extend_from_slice(b),
                I::Run(b, n) => u.extend(std::iter::repeat(*b).take(*n as usize)),
                I::Copy(a, n) => {
                    let end = a + *n as u64;
                    let n = if conv && end > here { end - here } else { *n as u64 };
                    for i in 0..n {
                        u.push(u[(a + i) as usize]);
                    }
                }
            }
        }
        if insts.is_empty() {
            insts.push(I::Run(1, 1));
            u.push(1);
        }
        // sections
        let (mut data, mut inst, mut addrs) = (Vec::new(), Vec::new(), Vec::new());
        let mut cache = ACache::new();
        let mut here = sss;
        let pick = |i: usize| if w.pick.is_empty() { 0 } else { w.pick[i % w.pick.len()] };
        let step = |i: &I, here: u64| -> u64 {
            match i {
                I::Add(b) => b.len() as u64,
                I::Run(_, n) => *n as u64,
                I::Copy(a, n) => {
                    let end = a + *n as u64;
                    if conv && end > here {
                        end - here
                    } else {
                        *n as u64
                    }
                }
            }
        };
        let mut i = 0;
        while i < insts.len() {
            let p = pick(i);
            let choose = |cache: &ACache, a: u64, here: u64| {
                let w = cache.ways(a, here);
                w[(p >> 2) as usize % w.len()].clone()
            };
            match &insts[i] {
                I::Run(b, n) => {
                    inst.push(0);
                    put_int(&mut inst, *n as u64);
                    data.push(*b);
                }
                I::Add(b) => {
                    data.extend_from_slice(b);
                    // with the following copy?
                    if p & 1 == 1 {
                        if let Some(I::Copy(a, n)) = insts.get(i + 1) {
                            let h = here + b.len() as u64;
                            let (mode, ab) = choose(&cache, *a, h);
                            if let Some(op) = pair_add_copy(t, b.len(), *n, mode) {
                                inst.push(op);
                                addrs.extend(ab);
                                cache.update(*a);
                                here += step(&insts[i], here);
                                here += step(&insts[i + 1], here);
                                i += 2;
                                cx.label("two-instruction opcode");
                                continue;
                            }
                        }
                    }
                    if (1..=17).contains(&b.len()) && p & 2 == 0 {
                        inst.push(1 + b.len() as u8);
                    } else {
                        inst.push(1);
                        put_int(&mut inst, b.len() as u64);
                    }
                }
                I::Copy(a, n) => {
                    let (mode, ab) = choose(&cache, *a, here);
                    addrs.extend(ab);
                    cache.update(*a);
                    match mode {
                        0 => {}
                        1 => cx.label("address mode HERE"),
                        2..=5 => cx.label("address mode NEAR"),
                        _ => cx.label("address mode SAME"),
                    }
                    if p & 1 == 1 && *n == 4 {
                        if let Some(I::Add(b)) = insts.get(i + 1) {
                            if b.len() == 1 {
                                inst.push(247 + mode);
                                data.extend_from_slice(b);
                                here += step(&insts[i], here);
                                here += 1;
                                i += 2;
                                cx.label("two-instruction opcode");
                                continue;
                            }
                        }
                    }
                    if (4..=18).contains(n) && p & 2 == 0 {
                        inst.push(19 + 16 * mode + (*n as u8 - 3));
                    } else {
                        inst.push(19 + 16 * mode);
                        put_int(&mut inst, *n as u64);
                    }
                }
            }
            here += step(&insts[i], here);
            i += 1;
        }
        assert!(here == u.len() as u64);
        // window header
        let trgt = &u[sss as usize..];
        match &from {
            None => bytes.push(0),
            Some(_) => {
                bytes.push(w.ind);
                put_int(&mut bytes, sss);
                put_int(&mut bytes, ssp);
                cx.label_if(w.ind == 2 && sss > 0, "target-file segment");
                cx.label_if(w.ind == 1 && sss > 0, "source-file segment");
                cx.label_if(ssp > 0 && sss > 0, "segment not at the start");
            }
        }
        let mut body = Vec::new();
        put_int(&mut body, trgt.len() as u64);
        body.push(0);
        put_int(&mut body, data.len() as u64);
        put_int(&mut body, inst.len() as u64);
        put_int(&mut body, addrs.len() as u64);
        body.extend(data);
        body.extend(inst);
        body.extend(addrs);
        put_int(&mut bytes, body.len() as u64);
        bytes.extend(body);
        let trgt = trgt.to_vec();
        out.extend(trgt);
    }
    Enc { bytes, out }
}

fn vlen() -> BoxedStrategy<u32> {
    prop_oneof![5 => 1u32..20, 3 => 1u32..130, 1 => Just(4u32), 1 => prop::sample::select(vec![61u32, 62, 63, 64, 124, 125, 317, 318]), 1 => 1u32..2000, 1 => Just(0u32)].boxed()
}
fn vlen_wide() -> BoxedStrategy<u32> {
    prop_oneof![3 => vlen(), 2 => prop::sample::select(vec![65_534u32, 65_535, 65_536, 65_537, 131_070, 131_071]), 1 => 1u32..200_000].boxed()
}
fn vops(len: BoxedStrategy<u32>, q: u32) -> BoxedStrategy<VOp> {
    let l = move || len.clone();
    prop_oneof![
        3 => (any::<u16>(), l()).prop_map(|(s, n)| VOp::Add(s, n)),
        1 => (any::<u16>(), 1u32..5).prop_map(|(s, n)| VOp::Add(s, n)),
        2 => (any::<u8>(), l()).prop_map(|(b, n)| VOp::Run(b, n)),
        3 => (any::<u32>(), l()).prop_map(|(a, n)| VOp::S(a, n)),
        1 => (0u32..40, 4u32..7).prop_map(|(a, n)| VOp::S(a, n)),
        3 => (any::<u32>(), l()).prop_map(|(a, n)| VOp::T(a, n)),
        1 => (0u32..40, 4u32..7).prop_map(|(a, n)| VOp::T(a, n)),
        q => (prop_oneof![2 => 0u32..6, 1 => any::<u32>()], l()).prop_map(|(a, n)| VOp::Q(a, n)),
    ]
    .boxed()
}
fn wins(len: BoxedStrategy<u32>, q: u32, n: usize, max_wins: usize) -> BoxedStrategy<Vec<Win>> {
    pvec((prop_oneof![1 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)], (prop_oneof![2 => Just(0u32), 2 => any::<u32>()], prop_oneof![1 => Just(u32::MAX), 3 => any::<u32>()]), pvec(vops(len, q), 1..n), pvec(any::<u8>(), 0..8)).prop_map(|(ind, seg, ops, pick)| Win { ind, seg, ops, pick }), 1..max_wins).boxed()
}
fn s_rfc() -> BoxedStrategy<VcdCase> {
    (pvec(seg(len_small()), 0..4), wins(vlen(), 0, 14, 5)).prop_map(|(src, wins)| VcdCase { src, wins }).boxed()
}
fn s_reader() -> BoxedStrategy<VcdCase> {
    (pvec(seg(len_small()), 0..4), wins(vlen(), 2, 14, 5)).prop_map(|(src, wins)| VcdCase { src, wins }).boxed()
}
fn s_wide() -> BoxedStrategy<VcdCase> {
    (pvec(seg(len_big()), 1..3), wins(vlen_wide(), 0, 8, 4)).prop_map(|(src, wins)| VcdCase { src, wins }).boxed()
}
fn s_reader_wide() -> BoxedStrategy<VcdCase> {
    (pvec(seg(len_big()), 1..3), wins(vlen_wide(), 2, 8, 4)).prop_map(|(src, wins)| VcdCase { src, wins }).boxed()
}
/// Dozens to hundreds of small windows.
fn s_many_windows() -> BoxedStrategy<VcdCase> {
    let l = || prop_oneof![4 => 1u32..20, 1 => 1u32..130].boxed();
    (pvec(seg(len_small()), 0..4), prop_oneof![3 => wins(l(), 2, 4, 60), 1 => wins(l(), 2, 3, 400)]).prop_map(|(src, wins)| VcdCase { src, wins }).boxed()
}
/// More than one section's worth of output.
fn s_huge() -> BoxedStrategy<VcdCase> {
    let n = || prop_oneof![2 => 16_000_000u32..16_800_000, 1 => 1u32..900_000].boxed();
    let op = prop_oneof![
        2 => (any::<u32>(), n()).prop_map(|(a, n)| VOp::S(a % 1000, n)),
        2 => (any::<u32>(), n()).prop_map(|(a, n)| VOp::T(a % 1000, n)),
        1 => (any::<u16>(), n()).prop_map(|(a, n)| VOp::Add(a, n)),
        1 => (any::<u8>(), 16_700_000u32..16_900_000).prop_map(|(a, n)| VOp::Run(a, n)),
        2 => vops(vlen(), 0),
    ];
    (16_700_000u32..17_200_000, pvec((Just(1u8), Just((0u32, u32::MAX)), pvec(op, 2..5), pvec(any::<u8>(), 0..4)).prop_map(|(ind, seg, ops, pick)| Win { ind, seg, ops, pick }), 1..3))
        .prop_map(|(n, wins)| VcdCase { src: vec![Seg::Alpha(1, 200, n)], wins })
        .boxed()
}
/// A section fills up in the middle of an instruction of each kind.
fn s_boundary() -> BoxedStrategy<VcdCase> {
    let near = || prop_oneof![2 => 0u32..200, 2 => 0u32..70_000, 1 => 65_000u32..200_000].boxed();
    let fill = (0u8..4, near()).prop_map(|(k, d)| {
        let n = (1u32 << 24) - 1 - d;
        match k {
            0 => VOp::S(0, n),
            1 => VOp::Run(3, n),
            2 => VOp::Add(4, n),
            _ => VOp::Q(d, n),
        }
    });
    let l = || prop_oneof![3 => 1u32..200, 2 => vlen_wide(), 1 => 1u32..400_000].boxed();
    let across = prop_oneof![
        1 => (any::<u16>(), l()).prop_map(|(a, n)| VOp::Add(a, n)),
        1 => (any::<u8>(), l()).prop_map(|(b, n)| VOp::Run(b, n)),
        1 => (any::<u32>(), l()).prop_map(|(a, n)| VOp::S(a, n)),
        1 => (any::<u32>(), l()).prop_map(|(a, n)| VOp::T(a, n)),
        2 => (prop_oneof![0u32..6, 0u32..300, 60_000u32..140_000], l()).prop_map(|(a, n)| VOp::Q(a, n)),
        // the repeated stretch takes several operations
        3 => (65_536u32..250_000, 66_000u32..900_000).prop_map(|(a, n)| VOp::Q(a, n)),
    ];
    pvec((fill, pvec(across, 1..5)), 1..3)
        .prop_map(|v| {
            let mut ops = vec![VOp::Add(1, 3)];
            for (f, r) in v {
                ops.push(f);
                ops.extend(r);
            }
            VcdCase { src: vec![Seg::Alpha(1, 200, 17_000_000)], wins: vec![Win { ind: 1, seg: (0, u32::MAX), ops, pick: vec![3, 8, 77] }] }
        })
        .boxed()
}

fn check_conv(c: &VcdCase, t: Table, conv: bool, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let e = encode_vcd(c, &src, t, conv, cx);
    let mut w = Vec::new();
    cut(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&e.bytes), &mut w)).map_err(|p| format!("convert_vcdiff_to_smdiff: {p}"))?.map_err(|e| format!("conversion of a valid VCDIFF fails: {e}"))?;
    let (secs, used) = spec::parse_patch(&w, &Default::default()).map_err(|e| format!("the converted patch is not valid SMDIFF: {e}"))?;
    ensure!(used == w.len(), "{} bytes after the converted patch", w.len() - used);
    let out = spec::interpret(&secs, Some(&src)).map_err(|e| format!("the converted patch does not apply: {e}"))?;
    ensure!(out == e.out, "the converted patch gives another output than the VCDIFF: {}", diff(&e.out, &out));
    let a = apply(&w, Some(&src))?;
    ensure!(a == e.out, "applying the converted patch gives another output than the VCDIFF: {}", diff(&e.out, &a));
    cx.label_if(c.wins.len() > 1, "several windows");
    cx.label_if(c.wins.len() > 30, "more than thirty windows");
    cx.label_if(secs.len() > 1, "several sections");
    cx.nontrivial_if(c.wins.iter().any(|w| w.ops.iter().any(|o| matches!(o, VOp::S(_, n) | VOp::T(_, n) | VOp::Q(_, n) if *n > 0))));
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutCase {
    pub vcd: VcdCase,
    pub cuts: Vec<u32>,
}
fn s_cut() -> BoxedStrategy<CutCase> {
    (s_rfc(), pvec(any::<u32>(), 1..8)).prop_map(|(vcd, cuts)| CutCase { vcd, cuts }).boxed()
}
/// A VCDIFF that was cut off is an error, unless the cut falls between two windows.
fn run_cut(c: &CutCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.vcd.src);
    // the length and output after each number of windows
    let stages: Vec<Enc> = (0..=c.vcd.wins.len())
        .map(|k| encode_vcd(&VcdCase { src: vec![], wins: c.vcd.wins[..k].to_vec() }, &src, Table::Common, false, &mut Cx::default()))
        .collect();
    let full = &stages.last().unwrap().bytes;
    let mut cuts: Vec<usize> = c.cuts.iter().map(|k| *k as usize % full.len()).collect();
    cuts.extend(stages.iter().map(|s| s.bytes.len()));
    cuts.extend(stages.iter().map(|s| (s.bytes.len() + 1).min(full.len() - 1)));
    cuts.extend(stages.iter().map(|s| s.bytes.len() - 1));
    for k in cuts {
        let mut w = Vec::new();
        let r = cut(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&full[..k]), &mut w)).map_err(|p| format!("convert_vcdiff_to_smdiff on {k} of {} bytes: {p}", full.len()))?;
        match stages.iter().find(|s| s.bytes.len() == k) {
            None => {
                ensure!(r.is_err(), "the first {k} of {} bytes of a VCDIFF convert without an error", full.len());
                cx.label("cut inside of a window");
                cx.nontrivial_if(k > 5);
            }
            Some(s) => {
                ensure!(r.is_ok(), "a VCDIFF of whole windows is rejected: {}", r.err().unwrap());
                let a = apply(&w, Some(&src))?;
                ensure!(a == s.out, "the converted patch gives another output than the VCDIFF: {}", diff(&s.out, &a));
                cx.label("cut between windows");
            }
        }
        cx.sub_evals += 1;
    }
    Ok(())
}
// ---- damaged VCDIFFs ----
fn get_int(b: &[u8], p: &mut usize) -> Option<u64> {
    let start = *p;
    let mut v = 0u64;
    loop {
        let x = *b.get(*p)?;
        *p += 1;
        if *p - start > 8 || (*p - start == 1 && x == 0x80) {
            return None; // not the shortest form, or out of range
        }
        v = v << 7 | (x & 0x7f) as u64;
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
}
/// The instructions of an opcode: (kind 0 add / 1 run / 2 copy, size, mode), in the VCDIFF
/// reader library's numbering.
fn opcode(op: u8) -> Vec<(u8, u32, u8)> {
    let o = op as u32;
    match op {
        0 => vec![(1, 0, 0)],
        1..=18 => vec![(0, o - 1, 0)],
        19..=162 => {
            let (m, k) = ((o - 19) / 16, (o - 19) % 16);
            vec![(2, if k == 0 { 0 } else { k + 3 }, m as u8)]
        }
        163..=234 => {
            let k = o - 163;
            vec![(0, k / 18 + 1, 0), (2, 4 + k % 3, (k % 18 / 3) as u8)]
        }
        235..=246 => {
            let k = o - 235;
            vec![(0, k / 3 + 1, 0), (2, 4, 6 + (k % 3) as u8)]
        }
        247..=255 => vec![(2, 4, (o - 247) as u8), (0, 1, 0)],
    }
}
/// Strict decoder (library conventions); None for anything that is not plainly valid.
fn decode_vcd(b: &[u8], src: &[u8], max: u64) -> Option<Vec<u8>> {
    if b.get(..5)? != [0xd6, 0xc3, 0xc4, 0, 0] {
        return None;
    }
    let mut p = 5;
    let mut out: Vec<u8> = Vec::new();
    while p < b.len() {
        let ind = b[p];
        p += 1;
        if ind > 2 {
            return None;
        }
        let mut u: Vec<u8> = Vec::new();
        if ind > 0 {
            let sss = get_int(b, &mut p)? as usize;
            let ssp = get_int(b, &mut p)? as usize;
            let f: &[u8] = if ind == 1 { src } else { &out };
            u.extend_from_slice(f.get(ssp..ssp.checked_add(sss)?)?);
        }
        let sss = u.len();
        let dl = get_int(b, &mut p)? as usize;
        let end = p.checked_add(dl)?;
        let trgt = get_int(b, &mut p)?;
        if *b.get(p)? != 0 || trgt > max {
            return None;
        }
        p += 1;
        let (d, i, a) = (get_int(b, &mut p)? as usize, get_int(b, &mut p)? as usize, get_int(b, &mut p)? as usize);
        if end > b.len() || p.checked_add(d)?.checked_add(i)?.checked_add(a)? != end || i == 0 {
            return None;
        }
        let (mut dp, mut ip, mut ap) = (p, p + d, p + d + i);
        let (de, ie) = (p + d, p + d + i);
        let data = &b[..de];
        let inst = &b[..ie];
        let addrs = &b[..end];
        let mut cache = ACache::new();
        while ip < ie {
            let op = inst[ip];
            ip += 1;
            for (kind, size, mode) in opcode(op) {
                let n = if size == 0 { get_int(inst, &mut ip)? } else { size as u64 };
                if n + u.len() as u64 > max {
                    return None;
                }
                let n = n as usize;
                match kind {
                    0 => {
                        u.extend_from_slice(data.get(dp..dp + n)?);
                        dp += n;
                    }
                    1 => {
                        u.extend(std::iter::repeat(*data.get(dp)?).take(n));
                        dp += 1;
                    }
                    _ => {
                        let here = u.len() as u64;
                        let addr = if mode < 6 {
                            let v = get_int(addrs, &mut ap)?;
                            match mode {
                                0 => v,
                                1 => here.checked_sub(v)?,
                                m => cache.near[m as usize - 2].checked_add(v)?,
                            }
                        } else {
                            let v = *addrs.get(ap)?;
                            ap += 1;
                            cache.same[(mode as usize - 6) * 256 + v as usize]
                        };
                        cache.update(addr);
                        if addr >= here {
                            return None;
                        }
                        let (addr, e) = (addr as usize, addr as usize + n);
                        if e > sss && addr < sss {
                            return None;
                        }
                        let n = if e > u.len() { e - u.len() } else { n };
                        for k in 0..n {
                            u.push(u[addr + k]);
                        }
                    }
                }
            }
        }
        if dp != de || ap != end || (u.len() - sss) as u64 != trgt {
            return None;
        }
        out.extend_from_slice(&u[sss..]);
        p = end;
    }
    Some(out)
}
struct LimitedSink {
    v: Vec<u8>,
    max: usize,
}
impl std::io::Write for LimitedSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.v.len() + b.len() > self.max {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink is full"));
        }
        self.v.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VMut {
    Set(u32, u8),
    Add(u32, u8),
    Insert(u32, u8),
    Remove(u32),
    /// false target window size (window, difference)
    Size(u8, i8),
    /// one of the header integers of a window (window, field, difference)
    Field(u8, u8, i8),
    /// the same with any value
    Value(u8, u8, u64),
    /// an integer in place of a byte (not in the file header)
    Int(u32, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MangledCase {
    pub vcd: VcdCase,
    pub muts: Vec<VMut>,
}
/// Values around the powers of two, up to the largest.
fn extreme() -> BoxedStrategy<u64> {
    prop_oneof![3 => (6u32..64, -3i64..4).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)), 1 => (0u64..200).prop_map(|d| u64::MAX - d), 1 => any::<u64>()].boxed()
}
fn s_mangled() -> BoxedStrategy<MangledCase> {
    let m = prop_oneof![
        2 => (any::<u32>(), any::<u8>()).prop_map(|(p, v)| VMut::Set(p, v)),
        3 => (any::<u32>(), prop_oneof![Just(1u8), Just(255), Just(16), Just(128)]).prop_map(|(p, v)| VMut::Add(p, v)),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(p, v)| VMut::Insert(p, v)),
        1 => any::<u32>().prop_map(VMut::Remove),
        2 => (any::<u8>(), -3i8..4).prop_map(|(w, d)| VMut::Size(w, d)),
        2 => (any::<u8>(), 0u8..7, -3i8..4).prop_map(|(w, f, d)| VMut::Field(w, f, d)),
        2 => (any::<u8>(), 0u8..7, extreme()).prop_map(|(w, f, v)| VMut::Value(w, f, v)),
        1 => (any::<u32>(), extreme()).prop_map(|(p, v)| VMut::Int(p, v)),
    ];
    (s_reader(), pvec(m, 1..3)).prop_map(|(vcd, muts)| MangledCase { vcd, muts }).boxed()
}
/// Rewrite one header integer of window `w`: 0 segment size, 1 segment position, 2 delta
/// length, 3 target size, 4..6 section lengths.
fn bend_field(b: &[u8], starts: &[usize], w: usize, f: u8, d: impl Fn(u64) -> u64) -> Option<Vec<u8>> {
    let mut p = *starts.get(w)?;
    let ind = *b.get(p)?;
    p += 1;
    for k in 0..7u8 {
        if k < 2 && ind == 0 {
            continue;
        }
        if k == 4 {
            p += 1; // delta indicator
        }
        let at = p;
        let v = get_int(b, &mut p)?;
        if k == f {
            let mut out = b[..at].to_vec();
            put_int(&mut out, d(v));
            out.extend_from_slice(&b[p..]);
            return Some(out);
        }
    }
    None
}
fn run_mangled(c: &MangledCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.vcd.src);
    let starts: Vec<usize> = (0..c.vcd.wins.len())
        .map(|k| encode_vcd(&VcdCase { src: vec![], wins: c.vcd.wins[..k].to_vec() }, &src, Table::Reader, true, &mut Cx::default()).bytes.len())
        .collect();
    let full = encode_vcd(&c.vcd, &src, Table::Reader, true, &mut Cx::default());
    const MAX: u64 = 4 << 20;
    match decode_vcd(&full.bytes, &src, MAX) {
        Some(o) if o == full.out => {}
        _ => panic!("reference VCDIFF decoder and encoder disagree"),
    }
    let mut b = full.bytes.clone();
    let mut sizes_only = true;
    for m in &c.muts {
        let at = |p: u32, n: usize| p as usize % n;
        match m {
            VMut::Set(p, v) => {
                let i = at(*p, b.len());
                b[i] = *v;
            }
            VMut::Add(p, v) => {
                let i = at(*p, b.len());
                b[i] = b[i].wrapping_add(*v);
            }
            VMut::Insert(p, v) => {
                let i = at(*p, b.len() + 1);
                b.insert(i, *v);
            }
            VMut::Remove(p) => {
                let i = at(*p, b.len());
                b.remove(i);
            }
            VMut::Size(w, d) => {
                if let Some(n) = bend_field(&b, &starts, *w as usize % starts.len(), 3, |v| v.saturating_add_signed(*d as i64)) {
                    b = n;
                }
            }
            VMut::Field(w, f, d) => {
                if let Some(n) = bend_field(&b, &starts, *w as usize % starts.len(), *f, |v| v.saturating_add_signed(*d as i64)) {
                    b = n;
                }
            }
            VMut::Value(w, f, v) => {
                if let Some(n) = bend_field(&b, &starts, *w as usize % starts.len(), *f, |_| *v) {
                    b = n;
                    cx.label("header integer set to any value");
                }
            }
            VMut::Int(p, v) => {
                if b.len() > 5 {
                    let i = 5 + at(*p, b.len() - 5);
                    let tail = b.split_off(i + 1);
                    b.pop();
                    put_int(&mut b, *v);
                    b.extend_from_slice(&tail);
                }
            }
        }
        sizes_only &= matches!(m, VMut::Size(..));
        if !sizes_only && c.muts.len() > 1 && b.is_empty() {
            return Ok(());
        }
    }
    // one false target size in an otherwise valid VCDIFF (same-length integers keep the rest in place)
    let false_size = sizes_only && c.muts.len() == 1 && b != full.bytes && b.len() == full.bytes.len();
    if b.len() > 4 && b[4] & 2 != 0 {
        // announces a code table of its own, which the reader library allocates unseen
        cx.label("announces a code table");
        return Ok(());
    }
    let want = decode_vcd(&b, &src, MAX);
    let mut w = LimitedSink { v: Vec::new(), max: 64 << 20 };
    let r = match cut(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&b), &mut w)) {
        Ok(r) => r,
        // the VCDIFF reader library panics on some malformed input
        Err(p) if p.contains("vcdiff-reader-") || p.contains("vcdiff-common-") => {
            ensure!(want.is_none(), "converting a valid VCDIFF: {p}");
            cx.label("panic in the VCDIFF reader library");
            return Ok(());
        }
        Err(p) => return Err(format!("convert_vcdiff_to_smdiff: {p}")),
    };
    cx.nontrivial_if(b != full.bytes);
    match (r, want) {
        (Err(e), Some(_)) => return Err(format!("conversion of a valid VCDIFF fails: {e}")),
        (Err(_), None) => cx.label("damaged VCDIFF rejected"),
        (Ok(()), want) => {
            ensure!(!false_size, "a VCDIFF whose window does not produce its announced size is converted");
            let (secs, used) = match spec::parse_patch(&w.v, &Default::default()) {
                // a segment at a position that no file reaches
                Err(spec::PErr::Address) if want.is_none() => {
                    cx.label("malformed VCDIFF tolerated");
                    return Ok(());
                }
                r => r.map_err(|e| format!("the converted patch is not valid SMDIFF: {e}"))?,
            };
            ensure!(used == w.v.len(), "{} bytes after the converted patch", w.v.len() - used);
            match want {
                Some(o) => {
                    let out = spec::interpret(&secs, Some(&src)).map_err(|e| format!("the converted patch does not apply: {e}"))?;
                    ensure!(out == o, "the converted patch gives another output than the VCDIFF: {}", diff(&o, &out));
                    cx.label_if(b != full.bytes, "damaged VCDIFF is another valid one");
                }
                None => {
                    // (the source is not known to the converter, its own output is)
                    let mut made = 0u64;
                    for o in secs.iter().flat_map(|s| &s.ops) {
                        if let spec::ROp::CopyO { addr, len } = o {
                            ensure!(addr.checked_add(*len as u64).is_some_and(|e| e <= made), "the converted patch copies output at {addr} when only {made} bytes of output exist");
                        }
                        made += o.len() as u64;
                    }
                    cx.label("malformed VCDIFF tolerated")
                }
            }
        }
    }
    cx.label_if(false_size, "false target window size");
    Ok(())
}
// ---- output beyond 2^32, compared as ranges instead of bytes ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Add(u16, u16),
    Run(u8, u16),
    /// of the source segment
    S(u32, u16),
    /// of the target window
    T(u32, u16),
    /// self-overlapping: distance, bytes beyond the write position
    Q(u8, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarVcd {
    /// sizes (below 2^30) and segment positions of the windows that fill the first 4 GiB
    pub fill: Vec<(u32, u64)>,
    /// bytes by which these miss 2^32
    pub miss: i16,
    /// (source: 0 none, 1 source, 2 target; position; size; operations; mode bits)
    pub wins: Vec<(u8, u64, u32, Vec<FOp>, u8)>,
}
fn s_far() -> BoxedStrategy<FarVcd> {
    let n = || prop_oneof![3 => 1u16..40, 1 => 1u16..2000];
    let op = prop_oneof![
        3 => (any::<u16>(), n()).prop_map(|(a, n)| FOp::Add(a, n)),
        1 => (any::<u8>(), n()).prop_map(|(a, n)| FOp::Run(a, n)),
        2 => (any::<u32>(), n()).prop_map(|(a, n)| FOp::S(a, n)),
        3 => (any::<u32>(), n()).prop_map(|(a, n)| FOp::T(a, n)),
        1 => (any::<u8>(), n()).prop_map(|(a, n)| FOp::Q(a, n)),
    ];
    let pos = prop_oneof![3 => (0u64..20_000).prop_map(|d| (1 << 32) - 10_000 + d), 1 => 0u64..1 << 33, 1 => 0u64..1 << 40];
    (
        pvec(((1u32 << 28)..1 << 30, prop_oneof![Just(0u64), 0u64..1 << 40]), 1..4),
        prop_oneof![-40i16..40, -6000i16..6000],
        pvec((0u8..3, pos, 0u32..20_000, pvec(op, 1..12), any::<u8>()), 1..6),
    )
        .prop_map(|(fill, miss, wins)| FarVcd { fill, miss, wins })
        .boxed()
}
fn run_far(c: &FarVcd, cx: &mut Cx) -> Outcome {
    let edge = ((1i64 << 32) - 3000 + c.miss as i64) as u64;
    let mut bytes = vec![0xd6, 0xc3, 0xc4, 0, 0];
    let mut window = |src: Option<(u8, u64, u64)>, n: u64, data: &[u8], inst: &[u8], addr: &[u8]| {
        match src {
            Some((k, p, s)) => {
                bytes.push(k);
                put_int(&mut bytes, s);
                put_int(&mut bytes, p);
            }
            None => bytes.push(0),
        }
        let mut b = Vec::new();
        put_int(&mut b, n);
        b.push(0);
        for s in [data, inst, addr] {
            put_int(&mut b, s.len() as u64);
        }
        for s in [data, inst, addr] {
            b.extend_from_slice(s);
        }
        put_int(&mut bytes, b.len() as u64);
        bytes.extend(b);
    };
    let mut flat: Vec<(u64, Rng)> = Vec::new();
    let mut pos = 0u64;
    let mut i = 0;
    while pos < edge {
        let (n, p) = c.fill[i % c.fill.len()];
        let n = (n as u64).min(edge - pos);
        let mut inst = vec![19];
        put_int(&mut inst, n);
        window(Some((1, p, n)), n, &[], &inst, &[0]);
        flat.push((pos, Rng::Dict(p, n)));
        pos += n;
        i += 1;
    }
    for (k, p, n, ops, bits) in &c.wins {
        let (src, mut u): (Option<(u8, u64, u64)>, Vec<(u64, Rng)>) = match k {
            1 => (Some((1, *p, *n as u64)), vec![(0, Rng::Dict(*p, *n as u64))]),
            2 => {
                let p = if *p % 2 == 0 { pos - (*p >> 1) % 4000 } else { *p % (pos + 1) };
                let n = (*n as u64).min(pos - p);
                let mut v = Vec::new();
                sub_rng(&flat, p, n, &mut v);
                cx.label_if(p > u32::MAX as u64 && n > 0, "target segment beyond 2^32");
                let mut at = 0;
                (Some((2, p, n)), v.into_iter().map(|r| { at += r.len(); (at - r.len(), r) }).collect())
            }
            _ => (None, vec![]),
        };
        let sss = src.map_or(0, |s| s.2);
        let mut here = sss;
        let (mut data, mut inst, mut addrs) = (Vec::new(), Vec::new(), Vec::new());
        for o in ops {
            let mut one = Vec::new();
            // address, encoded length
            let mut copy = None;
            match o {
                FOp::S(a, n) if sss > 0 => {
                    let a = *a as u64 % sss;
                    copy = Some((a, (*n as u64).min(sss - a)));
                }
                FOp::T(a, n) if here > sss => {
                    let a = sss + *a as u64 % (here - sss);
                    copy = Some((a, (*n as u64).min(here - a)));
                }
                FOp::Q(d, n) if here > sss => {
                    let d = 1 + *d as u64 % (here - sss);
                    copy = Some((here - d, d + *n as u64));
                }
                FOp::Run(b, n) => {
                    inst.push(0);
                    put_int(&mut inst, *n as u64);
                    data.push(*b);
                    one.push(Rng::Lit(vec![*b; *n as usize]));
                }
                _ => {}
            }
            if one.is_empty() && copy.is_none() {
                let (FOp::Add(_, n) | FOp::S(_, n) | FOp::T(_, n) | FOp::Q(_, n) | FOp::Run(_, n)) = o;
                let b = build(&[Seg::Rand(here as u32, *n as u32)]);
                inst.push(1);
                put_int(&mut inst, b.len() as u64);
                data.extend_from_slice(&b);
                one.push(Rng::Lit(b));
            }
            if let Some((a, n)) = copy {
                let mode = bits.rotate_left(here as u32) & 1;
                inst.push(19 + 16 * mode);
                put_int(&mut inst, n);
                put_int(&mut addrs, if mode == 1 { here - a } else { a });
                if a + n > here {
                    let d = here - a;
                    let mut left = a + n - here;
                    while left > 0 {
                        sub_rng(&u, a, left.min(d), &mut one);
                        left -= left.min(d);
                    }
                    cx.label("self-overlapping copy beyond 2^32");
                } else {
                    sub_rng(&u, a, n, &mut one);
                    cx.label_if(a >= sss && pos + (a - sss) > u32::MAX as u64, "copy of output beyond 2^32");
                }
            }
            for r in one {
                u.push((here, r.clone()));
                here += r.len();
            }
        }
        window(src, here - sss, &data, &inst, &addrs);
        for (at, r) in u {
            if at >= sss {
                flat.push((pos + at - sss, r));
            }
        }
        pos += here - sss;
    }
    let mut want = Vec::new();
    sub_rng(&flat, 0, pos, &mut want);
    let mut w = Vec::new();
    cut(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&bytes), &mut w)).map_err(|p| format!("convert_vcdiff_to_smdiff: {p}"))?.map_err(|e| format!("conversion of a valid VCDIFF fails: {e}"))?;
    let (secs, used) = spec::parse_patch(&w, &Default::default()).map_err(|e| format!("the converted patch is not valid SMDIFF: {e}"))?;
    ensure!(used == w.len(), "{} bytes after the converted patch", w.len() - used);
    same_ranges("output of more than 4 GiB", &ranges_of(secs.iter().flat_map(|s| &s.ops)), &want)?;
    cx.nontrivial_if(pos > 1 << 32);
    cx.label_if(pos > 1 << 32, "more than 4 GiB of output");
    Ok(())
}
/// `vp vcd-child`: converts the VCDIFF on stdin to standard output.
pub fn vcd_child() -> i32 {
    let mut b = Vec::new();
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).expect("stdin");
    let r = smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(b), std::io::stdout());
    std::io::Write::flush(&mut std::io::stdout()).expect("flush");
    r.is_err() as i32
}
/// The destination may be standard output: nothing but the patch arrives there.
fn run_stdout(c: &VcdCase, cx: &mut Cx) -> Outcome {
    use std::process::{Command, Stdio};
    let src = build(&c.src);
    let e = encode_vcd(c, &src, Table::Common, false, cx);
    let mut w = Vec::new();
    cut(|| smdiff_vcdiff::convert_vcdiff_to_smdiff(Cursor::new(&e.bytes), &mut w)).map_err(|p| format!("convert_vcdiff_to_smdiff: {p}"))?.map_err(|e| format!("conversion of a valid VCDIFF fails: {e}"))?;
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("vcd-child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    std::io::Write::write_all(&mut ch.stdin.take().unwrap(), &e.bytes).expect("write the VCDIFF");
    let o = ch.wait_with_output().expect("child");
    ensure!(o.status.success(), "converting to standard output: {}", o.status);
    ensure!(o.stdout == w, "standard output does not receive the patch that another writer does: {}", diff(&w, &o.stdout));
    cx.nontrivial_if(!e.out.is_empty());
    cx.label("converted to standard output");
    Ok(())
}
fn run_common(c: &VcdCase, cx: &mut Cx) -> Outcome {
    check_conv(c, Table::Common, false, cx)
}
fn run_reader(c: &VcdCase, cx: &mut Cx) -> Outcome {
    check_conv(c, Table::Reader, true, cx)
}
fn run_full(c: &VcdCase, cx: &mut Cx) -> Outcome {
    check_conv(c, Table::Rfc, false, cx)
}
pub fn c14() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        rule: "a VCDIFF with at least one non-empty copy",
        assumptions: vec![
            "VCDIFFs with the default code table, no secondary compression, no checksums, at least one instruction per window, and no copy across the border of source segment and target window (the VCDIFF reader library rejects the rest)",
            "families 'reader' and 'reader-wide' take two-instruction opcodes and self-overlapping copies as the VCDIFF reader library defines them; under RFC 3284 those are known findings",
        ],
        families: vec![
            Box::new(Family { name: "rfc", quick: 300_000, thorough: 12_000_000, strat: s_rfc, run: run_common }),
            Box::new(Family { name: "reader", quick: 300_000, thorough: 12_000_000, strat: s_reader, run: run_reader }),
            Box::new(Family { name: "wide", quick: 800, thorough: 75_000, strat: s_wide, run: run_common }),
            Box::new(Family { name: "reader-wide", quick: 800, thorough: 75_000, strat: s_reader_wide, run: run_reader }),
            Box::new(Family { name: "many-windows", quick: 30_000, thorough: 1_000_000, strat: s_many_windows, run: run_reader }),
            Box::new(Family { name: "cut", quick: 60_000, thorough: 3_000_000, strat: s_cut, run: run_cut }),
            Box::new(Family { name: "mangled", quick: 240_000, thorough: 15_000_000, strat: s_mangled, run: run_mangled }),
            Box::new(Family { name: "huge", quick: 16, thorough: 1_000, strat: s_huge, run: run_common }),
            Box::new(Family { name: "far", quick: 4_000, thorough: 200_000, strat: s_far, run: run_far }),
            Box::new(Family { name: "stdout", quick: 400, thorough: 20_000, strat: s_rfc, run: run_stdout }),
            Box::new(Family { name: "boundary", quick: 120, thorough: 3_000, strat: s_boundary, run: run_reader }),
            // replayed for the known findings only
            Box::new(Family { name: "full", quick: 0, thorough: 0, strat: s_reader, run: run_full }),
        ],
        floors: vec![("two-instruction opcode", 3_000), ("address mode SAME", 5_000), ("address mode NEAR", 10_000), ("target-file segment", 10_000), ("self-overlapping copy", 10_000), ("several sections", 8), ("more than thirty windows", 500), ("converted to standard output", 300), ("copy of output beyond 2^32", 600), ("target segment beyond 2^32", 100), ("self-overlapping copy beyond 2^32", 200), ("damaged VCDIFF rejected", 5_000), ("damaged VCDIFF is another valid one", 2_000), ("false target window size", 1_000), ("header integer set to any value", 10_000)],
    }
}
