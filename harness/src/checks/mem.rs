//! C19 memory: sections are handled one at a time.
use super::patch::fast_wcomp;
use super::*;
use crate::alloc;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, WComp};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    pub src: Vec<Seg>,
    pub secs: Vec<ASec>,
    /// how often the sections follow each other
    pub reps: u8,
    pub how: u8,
}
fn s_mem() -> BoxedStrategy<MemCase> {
    let big = prop_oneof![2 => 200u16..3000, 1 => 3000u16..20_000].boxed();
    let comp = prop_oneof![
        3 => fast_wcomp(),
        1 => (0u8..5, 10u8..=18, Just(0u32)).prop_map(|(quality, window, flush_every)| WComp::Brotli { quality, window, flush_every }),
    ]
    .boxed();
    let sec = (pvec(prop_oneof![3 => (any::<u16>(), 3000u16..30_000).prop_map(|(s, n)| AOp::Add(s, n)), 2 => aop(big, true), 1 => (any::<u16>(), 100u32..2000).prop_map(|(s, n)| AOp::Many(s, n))], 1..12), any::<bool>(), comp, forms())
        .prop_map(|(ops, seg, comp, forms)| ASec { ops, seg, comp, forms });
    (pvec(seg(len_mid()), 0..3), pvec(sec, 1..4), 16u8..48, 0u8..5).prop_map(|(src, secs, reps, how)| MemCase { src, secs, reps, how }).boxed()
}
/// The sections, `n` times one after another. Each time the copies read from elsewhere and the literals differ, so
/// that remembering what was seen does not pay.
fn repeat_sections(c: &MemCase, src: &[u8], lists: &[Vec<spec::ROp>], n: usize) -> (Vec<u8>, usize) {
    use spec::ROp;
    let mut bytes = Vec::new();
    let mut out = 0u64;
    let unit: u64 = lists.iter().flatten().map(|o| o.len() as u64).sum();
    for r in 0..n {
        for (i, (s, ops)) in c.secs.iter().zip(lists).enumerate() {
            let ops: Vec<ROp> = ops
                .iter()
                .map(|o| match o {
                    ROp::CopyD { addr, len } => ROp::CopyD { addr: (addr + r as u64 * 997) % (src.len() as u64 - *len as u64 + 1), len: *len },
                    ROp::CopyO { addr, len } if r % 2 == 1 => ROp::CopyO { addr: addr + r as u64 * unit, len: *len },
                    ROp::Add(b) => {
                        let mut b = b.clone();
                        b[0] = b[0].wrapping_add(r as u8);
                        ROp::Add(b)
                    }
                    o => o.clone(),
                })
                .collect();
            spec::ser_section(&mut bytes, &ops, s.seg, r + 1 < n || i + 1 < c.secs.len(), &s.comp, &s.forms);
            out += ops.iter().map(|o| o.len() as u64).sum::<u64>();
        }
    }
    (bytes, out as usize)
}
fn run_mem(c: &MemCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let b = build_patch(&c.secs, &src, 2 << 20);
    let held: usize = b.secs.iter().flatten().map(|o| 24 + if let spec::ROp::Add(b) = o { b.len() } else { 0 }).sum();
    let plain = c.secs.iter().all(|s| s.comp == WComp::None);
    let how = if plain { c.how % 5 } else { c.how % 3 };
    let one = |n: usize| -> Result<(usize, u64), String> {
        let (bytes, out) = repeat_sections(c, &src, &b.secs, n);
        let mut sink = vec![0u8; out];
        let base = alloc::live();
        alloc::reset();
        let mut made = 0u64;
        let r = cut(|| -> std::io::Result<()> {
            match how {
                0 => {
                    let mut s = Cursor::new(&src[..]);
                    let mut w = Cursor::new(&mut sink[..]);
                    smdiff_decoder::apply_patch(&mut Cursor::new(&bytes[..]), Some(&mut s), &mut w)?;
                    made = w.position();
                }
                1 => {
                    let mut it = smdiff_decoder::reader::SectionIterator::new(Cursor::new(&bytes[..]));
                    while let Some(r) = it.next_borrowed() {
                        made += r?.1.output_size as u64;
                    }
                }
                2 => {
                    for r in smdiff_decoder::reader::SectionIterator::new(Cursor::new(&bytes[..])) {
                        made += r?.1.output_size as u64;
                    }
                }
                3 => {
                    let mut it = smdiff_reader::SectionIterator::new(Cursor::new(&bytes[..]));
                    while let Some(r) = it.next_borrowed() {
                        made += r?.1.output_size as u64;
                    }
                }
                _ => {
                    for r in smdiff_reader::SectionIterator::new(Cursor::new(&bytes[..])) {
                        made += r?.1.output_size as u64;
                    }
                }
            }
            Ok(())
        })?;
        let (peak, _) = alloc::measure(base);
        r.map_err(|e| format!("a valid patch is refused: {e}"))?;
        ensure!(made == out as u64, "{made} of {out} bytes");
        Ok((peak, out as u64))
    };
    let (few, _) = one(2)?;
    let (many, out) = one(c.reps.max(4) as usize)?;
    // a buffer that a section just outgrows doubles
    let bound = 2 * few + 65_536;
    let what = ["applying", "reading (decompressing, borrowed)", "reading (decompressing, owned)", "reading (borrowed)", "reading (owned)"][how as usize];
    cx.nontrivial_if(held * (c.reps.max(4) as usize - 2) > 2 * bound);
    cx.label(what);
    ensure!(many <= bound, "{what}: the sections twice need {few} bytes of memory, {} times ({out} bytes of output) {many}", c.reps);
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "holding on to all sections would take at least twice the allowed memory",
        assumptions: vec!["memory is what Rust's global allocator hands out on the calling thread; the brotli C library's own memory is not counted"],
        families: vec![
            Box::new(Family { name: "sections", quick: 6_000, thorough: 200_000, strat: s_mem, run: run_mem }),
        ],
        floors: vec![("applying", 1000), ("reading (decompressing, borrowed)", 1000), ("reading (decompressing, owned)", 1000), ("reading (borrowed)", 200), ("reading (owned)", 200)],
    }
}
