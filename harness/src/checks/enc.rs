//! C01 round trip, C02 conformance, C15 compactness, C16 purity of the encoder.
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, ROp};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    pub files: Files,
    pub cfg: Cfg,
}
fn case(f: BoxedStrategy<Files>, c: BoxedStrategy<Cfg>) -> BoxedStrategy<EncCase> {
    (f, c).prop_map(|(files, cfg)| EncCase { files, cfg }).boxed()
}
fn s_tiny() -> BoxedStrategy<EncCase> {
    case(files_tiny(), cfg_with(prop_oneof![8 => Just(Comp::None), 1 => comp()].boxed()))
}
fn s_small() -> BoxedStrategy<EncCase> {
    case(files_small(), cfg())
}
fn s_affix() -> BoxedStrategy<EncCase> {
    case(
        files_affix(),
        cfg_with(prop_oneof![6 => Just(Comp::None), 1 => comp()].boxed())
            .prop_map(|mut c| {
                c.naive = true;
                c
            })
            .boxed(),
    )
}
fn s_mid() -> BoxedStrategy<EncCase> {
    case(files_mid(), cfg())
}
fn s_big() -> BoxedStrategy<EncCase> {
    case(
        files_big(),
        cfg_with(prop_oneof![4 => Just(Comp::None), 1 => smd_comp(), 1 => (1i32..6).prop_map(Comp::Zstd), 1 => (0u8..5, 10u8..=22).prop_map(|(q, w)| Comp::Brotli(q, w, 0, 0, false))].boxed()),
    )
}
/// The same file but for a few single bytes.
fn s_points() -> BoxedStrategy<EncCase> {
    let len = prop_oneof![2 => 0u32..600, 3 => 1000u32..12_000, 2 => 12_000u32..80_000, 1 => prop::sample::select(vec![4096u32, 8192, 16_384, 32_768, 65_535, 65_536])].boxed();
    let pos = || prop_oneof![2 => any::<u32>(), 1 => 0u32..70, 1 => (0u32..70).prop_map(|k| u32::MAX - k)];
    let point = (pos(), 0u8..4, any::<u8>());
    (pvec(seg(len), 1..3), prop_oneof![4 => pvec(point.clone(), 1..2), 3 => pvec(point.clone(), 1..5), 1 => pvec(point, 0..40)], prop_oneof![3 => cfg_with(Just(Comp::None).boxed()), 1 => cfg_with(prop_oneof![smd_comp(), (1i32..6).prop_map(Comp::Zstd)].boxed())])
        .prop_map(|(src, mut p, cfg)| {
            // the last bytes
            let n = build(&src).len() as u32;
            for x in p.iter_mut() {
                if x.0 > u32::MAX - 70 && n > 70 {
                    x.0 = n - 1 - (u32::MAX - x.0);
                }
            }
            EncCase { files: Files { src: Some(src), trgt: vec![TSeg::Points(p)] }, cfg }
        })
        .boxed()
}
/// Different content with the same rolling checksums.
fn s_collide() -> BoxedStrategy<EncCase> {
    let piece = || {
        prop_oneof![
            4 => (any::<u16>(), prop_oneof![9u32..40, 9u32..400], prop_oneof![2 => Just(9u32), 3 => 9u32..60, 1 => Just(1000)], any::<u8>()).prop_map(|(a, n, k, w)| TSeg::Collide9(a as u32, n, k, w)),
            3 => (any::<u16>(), prop_oneof![4u32..30, 4u32..300], prop_oneof![2 => Just(4u32), 3 => 4u32..40, 1 => Just(1000)], any::<u8>()).prop_map(|(a, n, k, w)| TSeg::Collide4(a as u32, n, k, w)),
            2 => tseg(len_small()),
        ]
    };
    let src = prop_oneof![4 => (any::<u16>(), 9u32..600).prop_map(|(s, n)| Seg::Rand(s as u32, n)), 1 => seg(len_small())];
    (prop_oneof![1 => Just(None), 12 => pvec(src, 1..4).prop_map(Some)], tseg(len_small()), pvec(piece(), 1..5), cfg_with(prop_oneof![8 => Just(Comp::None), 1 => comp()].boxed()), prop::option::weighted(0.7, 1u32..6))
        .prop_map(|(src, first, mut trgt, mut cfg, step)| {
            if src.is_none() {
                trgt.insert(0, first)
            }
            if let (Some(s), Some(src)) = (step, cfg.src.as_mut()) {
                src.0 = s
            }
            EncCase { files: Files { src, trgt }, cfg }
        })
        .boxed()
}
/// Sources larger than the smallest source window, so that the window slides.
fn s_window() -> BoxedStrategy<EncCase> {
    (1_100_000u32..2_600_000, 0u32..4, pvec(tseg(prop_oneof![2 => 100_000u32..900_000, 1 => len_big()].boxed()), 2..6), cfg_with(Just(Comp::None).boxed()), 3u32..40)
        .prop_map(|(n, k, mut trgt, mut cfg, step)| {
            let src = match k {
                0 => vec![Seg::Rand(1, n)],
                1 => vec![Seg::Rand(2, n / 2), Seg::Alpha(3, 4, n / 2)],
                2 => vec![Seg::Per(4, 70_001, n)],
                _ => vec![Seg::Rand(5, n / 3), Seg::Run(0, 5000), Seg::Rand(6, n / 2)],
            };
            trgt.insert(0, TSeg::Src(0, 600_000));
            cfg.level = None;
            cfg.src = Some((step, Some(1)));
            if let Some(t) = cfg.trgt.as_mut() {
                t.1 = t.1.min(8);
            }
            EncCase { files: Files { src: Some(src), trgt }, cfg }
        })
        .boxed()
}
/// More instructions than 16 bits count.
fn s_weave() -> BoxedStrategy<EncCase> {
    (any::<u16>(), 45_000u32..70_000, 4000u32..60_000, any::<bool>(), prop_oneof![4 => Just(Comp::None), 1 => Just(Comp::Zstd(1)), 1 => Just(Comp::Smdiff { early: 20, chain: 2, cap: None })], prop_oneof![Just(u32::MAX), segsize()], prop_oneof![Just(None), (0u32..60).prop_map(Some)], prop::option::of(1u32..6))
        .prop_map(|(s, n, m, seg, comp, segsize, lazy, chain)| EncCase {
            files: Files { src: Some(vec![Seg::Rand(s as u32, m)]), trgt: vec![TSeg::Weave(s as u32 ^ 0x99, n)] },
            cfg: Cfg { src: Some((1, None)), trgt: chain.map(|c| (20, c, None)), seg, comp, segsize, naive: false, lazy, level: None, builder: false },
        })
        .boxed()
}
/// More than the largest section.
fn s_huge() -> BoxedStrategy<EncCase> {
    (16_700_000u32..16_900_000, 0u32..4, any::<bool>(), any::<bool>(), prop_oneof![Just((1u32 << 24) - 1), Just(u32::MAX), Just(9_000_000u32)])
        .prop_map(|(n, k, seg, z, segsize)| {
            let (src, trgt) = match k {
                0 => (vec![Seg::Rand(1, n)], vec![TSeg::New(Seg::Lit(vec![1, 2, 3])), TSeg::Whole]),
                1 => (vec![Seg::Rand(1, 3000)], vec![TSeg::New(Seg::Run(9, n)), TSeg::Whole]),
                2 => (vec![Seg::Rand(1, 2_000_000)], vec![TSeg::Whole, TSeg::New(Seg::Rand(9, n - 1_900_000)), TSeg::Own(77, 500_000)]),
                _ => (vec![Seg::Per(3, 5000, 400_000)], (0..43).map(|_| TSeg::Whole).collect()),
            };
            EncCase {
                files: Files { src: Some(src), trgt },
                cfg: Cfg { src: Some((26, None)), trgt: if k == 3 { Some((20, 2, None)) } else { None }, seg, comp: if z && k != 2 { Comp::Zstd(1) } else { Comp::None }, segsize, naive: false, lazy: Some(20), level: None, builder: false },
            }
        })
        .boxed()
}

/// Beyond the default source window of 64 MB.
fn s_giant() -> BoxedStrategy<EncCase> {
    let m = || 66_000_000u32..90_000_000;
    (m(), 0u32..4, any::<bool>(), 8u32..27, any::<u32>(), prop_oneof![Just(None), (0u32..60).prop_map(Some)])
        .prop_map(|(n, k, seg, step, r, lazy)| {
            let cut = 1_000_000 + r % 30_000_000;
            let (src, trgt) = match k {
                0 => (vec![Seg::Rand(r, n)], vec![TSeg::New(Seg::Lit(vec![1, 2, 3])), TSeg::Whole]),
                1 => (vec![Seg::Rand(r, n)], vec![TSeg::Src(cut, n), TSeg::New(Seg::Rand(r ^ 5, 1000)), TSeg::Src(0, cut)]),
                2 => (vec![Seg::Rand(r, n)], vec![TSeg::Edit(0, n, 900_001)]),
                _ => (vec![Seg::Per(r, 1_000_003, n)], vec![TSeg::Src(n - 30_000_000, 30_000_000), TSeg::Src(cut, n)]),
            };
            EncCase {
                files: Files { src: Some(src), trgt },
                cfg: Cfg { src: Some((step, None)), trgt: None, seg, comp: Comp::None, segsize: u32::MAX, naive: r % 2 == 0, lazy, level: None, builder: false },
            }
        })
        .boxed()
}
fn classify(c: &EncCase, trgt: &[u8], secs: Option<&[spec::RSection]>, cx: &mut Cx) {
    cx.label_if(trgt.is_empty(), "empty target");
    cx.label_if(c.files.src.is_none(), "no dictionary");
    cx.label_if(c.cfg.naive, "naive tests");
    cx.label_if(c.cfg.trgt.is_some(), "target matcher");
    cx.label_if(c.cfg.src.is_none() && c.cfg.level.is_none(), "source matcher off");
    cx.label_if(c.cfg.comp.algo() == 1, "smdiff compression");
    cx.label_if(c.cfg.comp.algo() == 2, "zstd compression");
    cx.label_if(c.cfg.comp.algo() == 3, "brotli compression");
    if let Some(secs) = secs {
        let mut kinds = [false; 4];
        let mut split = false;
        for o in secs.iter().flat_map(|s| s.ops.iter()) {
            kinds[match o {
                ROp::Add(_) => 0,
                ROp::Run { .. } => 1,
                ROp::CopyD { .. } => 2,
                ROp::CopyO { .. } => 3,
            }] = true;
            split |= o.len() == 65535;
        }
        cx.label_if(kinds[2], "has dictionary copies");
        cx.label_if(kinds[3], "has output copies");
        cx.label_if(kinds[1], "has runs");
        cx.label_if(kinds.iter().all(|k| *k), "all four op kinds");
        cx.label_if(secs.len() > 1, "several sections");
        cx.label_if(secs.iter().any(|s| s.ops.len() > 65_535), "more than 65535 operations in a section");
        cx.label_if(split, "op of the maximum size");
        cx.nontrivial_if((kinds[2] || kinds[3]) && (kinds[0] || kinds[1]) || secs.len() > 1);
    }
}

fn run_c01(c: &EncCase, cx: &mut Cx) -> Outcome {
    let (src, trgt) = c.files.expand();
    let patch = encode_cfg(src.as_deref(), &trgt, &c.cfg)?;
    let out = apply(&patch, src.as_deref())?;
    ensure!(out == trgt, "applying the encoded patch does not reproduce the target: {}", diff(&trgt, &out));
    // classification only; conformance is C02
    let secs = spec::parse_patch(&patch, &Default::default()).ok();
    classify(c, &trgt, secs.as_ref().map(|s| &s.0[..]), cx);
    Ok(())
}
pub fn c01() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        rule: "the patch mixes literal operations with copies, or has several sections",
        assumptions: vec![
            "prev_table_capacity is 0 or a power of two (the constructor asserts it); zstd levels -5..=22; brotli windows 10..=24 (the large-window extension is not decodable by design)",
            "generated files are at most about 17 MB, with a few cases of up to 90 MB and two beyond 4 GiB",
        ],
        families: vec![
            Box::new(Family { name: "tiny", quick: 2_400_000, thorough: 30_000_000, strat: s_tiny, run: run_c01 }),
            Box::new(Family { name: "small", quick: 1_200_000, thorough: 12_000_000, strat: s_small, run: run_c01 }),
            Box::new(Family { name: "affix", quick: 1_000_000, thorough: 12_000_000, strat: s_affix, run: run_c01 }),
            Box::new(Family { name: "mid", quick: 80_000, thorough: 800_000, strat: s_mid, run: run_c01 }),
            Box::new(Family { name: "collide", quick: 400_000, thorough: 4_000_000, strat: s_collide, run: run_c01 }),
            Box::new(Family { name: "points", quick: 120000, thorough: 1500000, strat: s_points, run: run_c01 }),
            Box::new(Family { name: "big", quick: 3_500, thorough: 60_000, strat: s_big, run: run_c01 }),
            Box::new(Family { name: "window", quick: 120, thorough: 4_500, strat: s_window, run: run_c01 }),
            Box::new(Family { name: "huge", quick: 16, thorough: 320, strat: s_huge, run: run_c01 }),
            Box::new(Family { name: "weave", quick: 60, thorough: 2_000, strat: s_weave, run: run_c01 }),
            Box::new(Family { name: "giant", quick: 8, thorough: 200, strat: s_giant, run: run_c01 }),
            super::giant::far_dict(),
            super::giant::far_trgt(),
        ],
        floors: vec![("several sections", 100), ("has output copies", 5000), ("has dictionary copies", 10_000), ("op of the maximum size", 50), ("brotli compression", 1000), ("zstd compression", 1000), ("smdiff compression", 1000), ("more than 65535 operations in a section", 10)],
    }
}

pub fn check_conformance(patch: &[u8], src: Option<&[u8]>, trgt: &[u8], algo: u8, segregated: bool, max_sec: u64) -> Result<Vec<spec::RSection>, String> {
    let (secs, used) = spec::parse_patch(patch, &Default::default()).map_err(|e| format!("patch is not valid SMDIFF: {e}"))?;
    ensure!(used == patch.len(), "{} bytes follow the terminal section", patch.len() - used);
    for (i, s) in secs.iter().enumerate() {
        ensure!(s.lenient.is_empty(), "section {i}: {:?}", s.lenient);
        ensure!(s.version == 0, "section {i}: version bits {}", s.version);
        ensure!(s.algo == algo, "section {i}: compression algorithm {} instead of {algo}", s.algo);
        ensure!(s.segregated == segregated, "section {i}: segregated = {} instead of {segregated}", s.segregated);
        ensure!(s.output_size <= max_sec, "section {i}: output size {} above the configured maximum {max_sec}", s.output_size);
        for n in &s.nested {
            ensure!(n.lenient.is_empty() && n.version == 0, "nested section: {:?} version {}", n.lenient, n.version);
        }
        if secs.len() > 1 {
            ensure!(!s.ops.is_empty(), "section {i} of {} is empty", secs.len());
        }
    }
    let out = spec::interpret(&secs, src).map_err(|e| format!("patch operations are invalid: {e}"))?;
    ensure!(out == trgt, "the operations do not describe the target: {}", diff(trgt, &out));
    Ok(secs)
}
fn run_c02(c: &EncCase, cx: &mut Cx) -> Outcome {
    let (src, trgt) = c.files.expand();
    let patch = encode_cfg(src.as_deref(), &trgt, &c.cfg)?;
    let secs = check_conformance(&patch, src.as_deref(), &trgt, c.cfg.comp.algo(), c.cfg.is_segregated(), c.cfg.segsize_eff())?;
    classify(c, &trgt, Some(&secs), cx);
    Ok(())
}
pub fn c02() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "the patch mixes literal operations with copies, or has several sections",
        assumptions: vec!["the reference parser and interpreter in harness/src/spec.rs are the reading of spec.md; any of the legal size encodings is accepted"],
        families: vec![
            Box::new(Family { name: "tiny", quick: 1_600_000, thorough: 20_000_000, strat: s_tiny, run: run_c02 }),
            Box::new(Family { name: "small", quick: 1_200_000, thorough: 12_000_000, strat: s_small, run: run_c02 }),
            Box::new(Family { name: "affix", quick: 600_000, thorough: 8_000_000, strat: s_affix, run: run_c02 }),
            Box::new(Family { name: "mid", quick: 80_000, thorough: 800_000, strat: s_mid, run: run_c02 }),
            Box::new(Family { name: "collide", quick: 200_000, thorough: 2_000_000, strat: s_collide, run: run_c02 }),
            Box::new(Family { name: "points", quick: 60000, thorough: 800000, strat: s_points, run: run_c02 }),
            Box::new(Family { name: "big", quick: 4_000, thorough: 70_000, strat: s_big, run: run_c02 }),
            Box::new(Family { name: "window", quick: 80, thorough: 3_000, strat: s_window, run: run_c02 }),
            Box::new(Family { name: "huge", quick: 16, thorough: 320, strat: s_huge, run: run_c02 }),
            Box::new(Family { name: "weave", quick: 60, thorough: 2_000, strat: s_weave, run: run_c02 }),
        ],
        floors: vec![("several sections", 100), ("op of the maximum size", 50), ("has output copies", 5000)],
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Ins(u32, u8),
    Del(u8),
    Rep(u32, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EditCase {
    pub seed: u32,
    /// length of the source in index steps
    pub len: u16,
    pub gaps: Vec<u16>,
    pub edits: Vec<Edit>,
    pub step: u32,
    pub trgt: bool,
    pub naive: bool,
    pub lazy: Option<u32>,
    pub seg: bool,
    pub level: Option<u8>,
}
fn s_edit() -> BoxedStrategy<EditCase> {
    (any::<u16>(), 200u16..3000, pvec((0u16..600, prop_oneof![(any::<u16>(), 1u8..40).prop_map(|(s, n)| Edit::Ins(s as u32, n)), (1u8..60).prop_map(Edit::Del), (any::<u16>(), 1u8..40).prop_map(|(s, n)| Edit::Rep(s as u32, n))]), 0..8), 1u32..27, any::<bool>(), any::<bool>(), prop_oneof![Just(None), Just(Some(45u32)), (1u32..100).prop_map(Some)], any::<bool>(), prop::option::weighted(0.4, 0u8..10))
        .prop_map(|(seed, len, ge, step, trgt, naive, lazy, seg, level)| {
            let (gaps, edits) = ge.into_iter().unzip();
            EditCase { seed: seed as u32, len, gaps, edits, step, trgt, naive, lazy, seg, level }
        })
        .boxed()
}
/// The index of the source has room for fewer positions than there are in it, and a position
/// that comes earlier in the source displaces a later one. Of the positions of a stretch
/// from `a` to `b`, about (w/step)(e^(-a/w) - e^(-b/w)) are left, where w is a quarter of the
/// source's length, rounded up to a power of two. The returned length makes that at least
/// 40 for a stretch starting at `a`, so that the chance to find none of them is e^-40.
fn findable(total: usize, step: usize, a: usize) -> Option<usize> {
    let w = (total.next_power_of_two() / 4) as f64;
    let left = (-(a as f64) / w).exp() - 40.0 * step as f64 / w;
    if left <= 0.0 {
        return None;
    }
    let b = (-w * left.ln()).ceil() as usize + 2 * step + 32;
    if b > total { None } else { Some((b - a).max(64 * step + 64)) }
}
/// Random source; the target differs by a few small edits, far enough apart that the
/// matcher has dozens of stored positions to resynchronise on between them.
fn run_edit(c: &EditCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((c.step, None)), trgt: if c.trgt { Some((30, 16, None)) } else { None }, seg: c.seg, comp: Comp::None, segsize: u32::MAX, naive: c.naive, lazy: c.lazy, level: c.level, builder: false };
    // comp_level steps are at most 26
    let step = if c.level.is_some() { 26 } else { c.step } as usize;
    let total = c.len as usize * step;
    let src = build(&[Seg::Rand(c.seed, total as u32)]);
    let mut t = Vec::new();
    let mut p = 0usize;
    let mut fresh = 0usize;
    let mut n = 0;
    for (g, e) in c.gaps.iter().zip(&c.edits) {
        let k = match findable(total, step, p) {
            Some(k) => k + *g as usize,
            None => break,
        };
        match findable(total, step, p + k + 60) {
            Some(tail) if p + k + 60 + tail <= total => {}
            _ => break,
        }
        n += 1;
        t.extend_from_slice(&src[p..p + k]);
        p += k;
        let mut b = Vec::new();
        match e {
            Edit::Ins(s, k) => Seg::Rand(s ^ 0x777777, *k as u32).put(&mut b),
            Edit::Del(k) => p += *k as usize,
            Edit::Rep(s, k) => {
                Seg::Rand(s ^ 0x333333, *k as u32).put(&mut b);
                p += *k as usize
            }
        }
        fresh += b.len();
        t.extend_from_slice(&b);
    }
    t.extend_from_slice(&src[p..]);
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    let copies = n + 1 + t.len() / 65535;
    // one copy (1 + 2 + up to 4 address bytes) and one add header per edit, header, a few bytes of
    // slack per edit for bytes the backward extension does not reach
    let bound = 16 + fresh + copies * 7 + n * (3 + 9);
    cx.nontrivial_if(n > 0);
    cx.label_if(n == 0, "identical files");
    cx.label_if(n > 0, "edited files");
    cx.label_if(c.trgt, "target matcher");
    cx.label_if(c.level.is_some(), "compression level");
    ensure!(patch.len() <= bound, "{} local edits ({} new bytes) of a {} byte file cost a {} byte patch (bound {})", n, fresh, src.len(), patch.len(), bound);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoveCase {
    pub seed: u32,
    pub blocks: Vec<(u16, u16)>,
    pub step: u32,
    pub trgt: bool,
    pub lazy: Option<u32>,
    pub level: Option<u8>,
}
fn s_move() -> BoxedStrategy<MoveCase> {
    (any::<u16>(), pvec((any::<u16>(), 0u16..2000), 1..9), 1u32..27, any::<bool>(), prop_oneof![Just(None), (1u32..100).prop_map(Some)], prop::option::weighted(0.4, 0u8..10))
        .prop_map(|(seed, blocks, step, trgt, lazy, level)| MoveCase { seed: seed as u32, blocks, step, trgt, lazy, level })
        .boxed()
}
/// The target is a concatenation of large blocks taken from anywhere in the source.
fn run_move(c: &MoveCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((c.step, None)), trgt: if c.trgt { Some((30, 16, None)) } else { None }, seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: c.level, builder: false };
    let step = if c.level.is_some() { 26 } else { c.step } as usize;
    let n = 40_000usize;
    let src = build(&[Seg::Rand(c.seed, n as u32)]);
    // the last positions of the source are not indexed, keep clear of them
    let hi = n - 64 - 2 * step;
    let mut t = Vec::new();
    let mut taken: Vec<(usize, usize)> = Vec::new();
    for (a, l) in &c.blocks {
        let mut a = *a as usize % hi;
        // far into the source, fewer positions are left in the index
        let len = loop {
            match findable(n, step, a) {
                Some(k) if a + k + *l as usize <= hi => break k + *l as usize,
                _ => a /= 2,
            }
        };
        if c.trgt && taken.iter().any(|(x, n)| a < x + n && *x < a + len) {
            // a copy of the target may then legitimately be preferred to a longer one of the source
            cx.excluded += 1;
            continue;
        }
        taken.push((a, len));
        t.extend_from_slice(&src[a..a + len]);
    }
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    let k = taken.len();
    // the first block may cost the bytes before the first stored position only when it
    // cannot be extended backwards; 9 bytes of slack per block
    let bound = 16 + k * (7 + 3 + 9) + k * 7;
    cx.nontrivial_if(k > 1);
    cx.label("moved blocks");
    ensure!(patch.len() <= bound, "{k} moved blocks ({} bytes in all) cost a {} byte patch (bound {bound})", t.len(), patch.len());
    Ok(())
}

/// Blocks of the dictionary behind short runs, short fresh pieces and short repetitions of
/// what is already in the target: each is over before the matcher has a full window again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Separated {
    pub seed: u32,
    /// (position, extra length, kind of the separator, its length, where it repeats)
    pub blocks: Vec<(u16, u8, u8, u8, u16)>,
    pub step: u32,
    pub trgt: Option<(u32, u32)>,
    pub lazy: Option<u32>,
    pub level: Option<u8>,
    pub builder: bool,
}
fn s_separated() -> BoxedStrategy<Separated> {
    (
        any::<u16>(),
        pvec((any::<u16>(), any::<u8>(), 0u8..4, 1u8..21, any::<u16>()), 1..12),
        prop_oneof![3 => 1u32..6, 1 => 1u32..27],
        prop::option::weighted(0.6, (20u32..80, 1u32..33)),
        prop_oneof![1 => Just(None), 3 => (0u32..12).prop_map(Some), 1 => (12u32..100).prop_map(Some)],
        prop::option::weighted(0.2, 0u8..10),
        any::<bool>(),
    )
        .prop_map(|(seed, blocks, step, trgt, lazy, level, builder)| Separated { seed: seed as u32, blocks, step, trgt, lazy, level, builder })
        .boxed()
}
fn run_separated(c: &Separated, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((c.step, None)), trgt: c.trgt.map(|(e, k)| (e, k, None)), seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: c.level, builder: c.builder };
    let step = if c.level.is_some() { 26 } else { c.step } as usize;
    let n = 40_000usize;
    let src = build(&[Seg::Rand(c.seed, n as u32)]);
    let hi = n - 64 - 2 * step;
    let mut r = Mix(c.seed as u64 ^ 0x5e9a);
    let (mut t, mut bound) = (Vec::new(), 24);
    let mut taken: Vec<(usize, usize)> = Vec::new();
    let (mut runs, mut repeats) = (0, 0);
    for (a, l, kind, m, w) in &c.blocks {
        let mut a = *a as usize % hi;
        let len = loop {
            match findable(n, step, a) {
                Some(k) if a + k + *l as usize <= hi => break k + *l as usize,
                _ => a /= 2,
            }
        };
        if taken.iter().any(|(x, n)| a < x + n && *x < a + len) {
            cx.excluded += 1;
            continue;
        }
        let m = *m as usize;
        match kind {
            0 | 1 => {
                runs += 1;
                let b = r.next() as u8;
                t.extend(std::iter::repeat(b).take(m));
            }
            2 if t.len() > m => {
                repeats += 1;
                let from = *w as usize % (t.len() - m);
                t.extend_from_within(from..from + m);
            }
            _ => t.extend((0..m).map(|_| r.next() as u8)),
        }
        taken.push((a, len));
        t.extend_from_slice(&src[a..a + len]);
        // the separator in full, a header for it, one copy, and what resynchronising may cost
        bound += m + 4 + 7 + 3 + 9 + 7;
    }
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    cx.nontrivial_if(taken.len() > 1);
    cx.label_if(runs > 0, "short runs between blocks");
    cx.label_if(repeats > 0 && c.trgt.is_some(), "short repetitions between blocks");
    cx.label_if(c.lazy.is_some_and(|l| l < 9) && c.level.is_none(), "lazy search ends early");
    ensure!(patch.len() <= bound, "{} blocks of a {n} byte file ({} bytes in all) behind short pieces cost a {} byte patch (bound {bound})", taken.len(), t.len(), patch.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RepCase {
    pub seed: u32,
    pub n: u16,
    pub pre: u16,
    pub gap: u16,
    pub reps: u8,
    pub chain: u32,
    pub early: u32,
    pub lazy: Option<u32>,
    pub src: u8,
    pub level: Option<u8>,
}
fn s_rep() -> BoxedStrategy<RepCase> {
    (any::<u16>(), 64u16..3000, 0u16..300, prop_oneof![Just(0u16), 0u16..300], 1u8..5, 4u32..33, 20u32..80, prop_oneof![Just(None), (1u32..100).prop_map(Some)], 0u8..3, prop::option::weighted(0.3, 1u8..10))
        .prop_map(|(seed, n, pre, gap, reps, chain, early, lazy, src, level)| RepCase { seed: seed as u32, n, pre, gap, reps, chain, early, lazy, src, level })
        .boxed()
}
/// Fresh content that repeats inside the target is found by the target matcher, with
/// and without a dictionary.
fn run_rep(c: &RepCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((3, None)), trgt: Some((c.early, c.chain, None)), seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: c.level, builder: false };
    let src = match c.src {
        0 => None,
        1 => Some(vec![]),
        _ => Some(build(&[Seg::Rand(c.seed ^ 0x999999, 3000)])),
    };
    let block = build(&[Seg::Rand(c.seed, c.n as u32)]);
    let mut t = build(&[Seg::Rand(c.seed ^ 0x424242, c.pre as u32)]);
    let mut fresh = t.len() + block.len();
    t.extend_from_slice(&block);
    for i in 0..c.reps {
        let g = build(&[Seg::Rand(c.seed ^ (0x1000000 * (i as u32 + 1)) ^ 0xF00, c.gap as u32)]);
        fresh += g.len();
        t.extend_from_slice(&g);
        t.extend_from_slice(&block);
    }
    let patch = encode_cfg(src.as_deref(), &t, &cfg)?;
    let reps = c.reps as usize;
    // the same for the table of target positions: what comes later displaces earlier ones
    let load = (block.len() + c.gap as usize) as f64 / ((t.len() + t.len() / 2).next_power_of_two() / 2) as f64;
    let lost = (30.0 * load.min(3.0).exp()) as usize;
    // a repetition costs one copy (at most 1 + 2 + 4 bytes), one add header, and a few bytes
    // the matcher needs before it has a full hash window; accidental 4-byte matches cannot
    // occur often enough in random data of this size to matter
    let bound = 16 + fresh + 8 + reps * (7 + 3 + lost + 10);
    let raw = fresh + reps * block.len();
    cx.nontrivial_if(bound < raw);
    cx.label("repeated content");
    cx.label_if(src.is_none(), "no dictionary");
    ensure!(patch.len() <= bound, "target of {} bytes, of which {} repeat earlier target content, cost a {} byte patch (bound {bound})", t.len(), reps * block.len(), patch.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunCase {
    pub byte: u8,
    pub n: u32,
    pub pre: u16,
    pub post: u16,
    pub trgt: bool,
    pub lazy: Option<u32>,
}
fn s_run() -> BoxedStrategy<RunCase> {
    (any::<u8>(), prop_oneof![3 => 400u32..3000, 2 => 400u32..40_000, 1 => 60_000u32..400_000], 0u16..200, 0u16..200, any::<bool>(), prop_oneof![Just(None), (1u32..100).prop_map(Some)])
        .prop_map(|(byte, n, pre, post, trgt, lazy)| RunCase { byte, n, pre, post, trgt, lazy })
        .boxed()
}
fn run_run(c: &RunCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((3, None)), trgt: if c.trgt { Some((30, 16, None)) } else { None }, seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: None, builder: false };
    let src = build(&[Seg::Rand(4242, 500)]);
    let t = build(&[Seg::Rand(1, c.pre as u32), Seg::Run(c.byte, c.n), Seg::Rand(2, c.post as u32)]);
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    let fresh = c.pre as usize + c.post as usize;
    let bound = 16 + fresh + 32 + 8 * (16 + c.n as usize / 65535);
    cx.nontrivial_if(c.n > 600);
    cx.label("long runs");
    ensure!(patch.len() <= bound, "a run of {} bytes inside {} fresh bytes costs a {} byte patch (bound {bound})", c.n, fresh, patch.len());
    Ok(())
}
fn run_bloat(c: &EncCase, cx: &mut Cx) -> Outcome {
    let (src, trgt) = c.files.expand();
    let patch = encode_cfg(src.as_deref(), &trgt, &c.cfg)?;
    let bound = 2 * trgt.len() + 64 + 32 * (1 + trgt.len() / 65535);
    cx.nontrivial_if(!trgt.is_empty());
    cx.label("bounded growth");
    ensure!(patch.len() <= bound, "patch of {} bytes for a target of {} bytes", patch.len(), trgt.len());
    Ok(())
}
/// Edits in a file larger than the source window.
fn s_wedit() -> BoxedStrategy<WEdit> {
    (any::<u16>(), 1_200_000u32..2_500_000, pvec((20_000u32..120_000, 1u8..30), 1..12), 3u32..24, 0u32..2).prop_map(|(seed, n, edits, step, win)| WEdit { seed: seed as u32, n, edits, step, win }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WEdit {
    pub seed: u32,
    pub n: u32,
    pub edits: Vec<(u32, u8)>,
    pub step: u32,
    pub win: u32,
}
fn run_wedit(c: &WEdit, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((c.step, if c.win == 0 { Some(1) } else { None })), trgt: None, seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: None, level: None, builder: false };
    let src = build(&[Seg::Rand(c.seed, c.n)]);
    let mut t = Vec::new();
    let mut p = 0;
    let mut fresh = 0;
    for (i, (g, k)) in c.edits.iter().enumerate() {
        let e = (p + *g as usize * 2).min(src.len());
        t.extend_from_slice(&src[p..e]);
        p = e;
        Seg::Rand(c.seed ^ (0xA5A5 + i as u32), *k as u32).put(&mut t);
        fresh += *k as usize;
    }
    t.extend_from_slice(&src[p..]);
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    let n = c.edits.len();
    let bound = 32 + fresh + (n + 1 + t.len() / 65535) * 9 + n * 12;
    cx.nontrivial_if(true);
    cx.label_if(c.win == 0, "file larger than the window");
    ensure!(patch.len() <= bound, "{n} small insertions in a {} byte file cost a {} byte patch (bound {bound})", c.n, patch.len());
    Ok(())
}
/// Whole stretches of a file of some megabytes change places; the source window, which
/// is 64 MB by default, covers the file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarMove {
    pub seed: u32,
    pub n: u32,
    /// lengths of the consecutive pieces of the source (fractions), and their order in the target
    pub cuts: Vec<u16>,
    pub order: Vec<u8>,
    pub step: u32,
    pub win: u8,
    pub trgt: bool,
    pub level: Option<u8>,
    pub segsize: u32,
    pub lazy: Option<u32>,
}
fn s_far_move() -> BoxedStrategy<FarMove> {
    (
        (any::<u16>(), prop_oneof![3 => 700_000u32..3_000_000, 2 => 3_000_000u32..9_000_000], pvec(any::<u16>(), 1..5), pvec(any::<u8>(), 1..6)),
        (2u32..27, 0u8..3, prop::bool::weighted(0.2), prop::option::weighted(0.4, 0u8..10), prop_oneof![4 => Just(u32::MAX), 1 => 600_000u32..3_000_000], prop_oneof![Just(None), Just(Some(45u32))]),
    )
        .prop_map(|((seed, n, cuts, order), (step, win, trgt, level, segsize, lazy))| FarMove { seed: seed as u32, n, cuts, order, step, win, trgt, level, segsize, lazy })
        .boxed()
}
fn run_far_move(c: &FarMove, cx: &mut Cx) -> Outcome {
    let win = match c.win {
        0 => None,
        1 => Some(c.n),
        _ => Some(1 << 26),
    };
    let cfg = Cfg { src: Some((c.step, win)), trgt: if c.trgt && c.n < 2_000_000 { Some((30, 4, None)) } else { None }, seg: false, comp: Comp::None, segsize: c.segsize, naive: false, lazy: c.lazy, level: if c.n < 2_000_000 { c.level } else { None }, builder: false };
    let src = build(&[Seg::Rand(c.seed, c.n)]);
    let n = src.len();
    let step = if cfg.level.is_some() { 26 } else { c.step } as usize;
    let mut at: Vec<usize> = c.cuts.iter().map(|f| *f as usize * n / 65536).collect();
    at.push(0);
    // the last positions of the source are not indexed
    at.push(n - 200);
    at.sort();
    let pieces: Vec<(usize, usize)> = at.windows(2).map(|w| (w[0], w[1])).filter(|(a, b)| b - a >= 20_000 && findable(n, step, *a).map_or(false, |k| k <= b - a)).collect();
    if pieces.is_empty() {
        cx.excluded += 1;
        return Ok(());
    }
    // a piece is used once: the order is a permutation of a part of them
    let mut left = pieces.clone();
    let mut t = Vec::new();
    let mut k = 0;
    let mut far = 0;
    for o in &c.order {
        if left.is_empty() {
            break;
        }
        let (a, b) = left.remove(*o as usize % left.len());
        far = far.max(a.abs_diff(t.len()));
        t.extend_from_slice(&src[a..b]);
        k += 1;
    }
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    let secs = 1 + t.len() / seg_usize(c.segsize).min(1 << 24);
    let bound = 16 + secs * 40 + k * 40 + (t.len() / 65535 + k + secs) * 12;
    cx.nontrivial_if(far >= 1 << 19);
    cx.label_if(far >= 1 << 19, "moved by more than 512 kB");
    cx.label_if(far >= 1 << 21, "moved by more than 2 MB");
    ensure!(patch.len() <= bound, "{k} pieces of a {n} byte file in another order ({} bytes, moved by up to {far}) cost a {} byte patch (bound {bound})", t.len(), patch.len());
    Ok(())
}
/// Hundreds of pieces of the dictionary in another order with fresh bytes between them. A
/// piece is so long that five of its positions are expected to be left in the index, so that
/// one in 150 is missed; if the index kept fewer than it has room for, many more would be.
const LEFT: f64 = 5.0;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyPieces {
    pub seed: u32,
    pub n: u32,
    pub k: u16,
    pub step: u32,
    pub lazy: Option<u32>,
    pub trgt: bool,
    pub builder: bool,
}
fn s_many_pieces() -> BoxedStrategy<ManyPieces> {
    (any::<u16>(), prop_oneof![3 => 150_000u32..700_000, 1 => 700_000u32..2_500_000], 100u16..3000, prop_oneof![2 => 1u32..6, 1 => 1u32..27], prop_oneof![Just(None), (1u32..100).prop_map(Some)], prop::bool::weighted(0.2), any::<bool>())
        .prop_map(|(seed, n, k, step, lazy, trgt, builder)| ManyPieces { seed: seed as u32, n, k, step, lazy, trgt, builder })
        .boxed()
}
fn run_many_pieces(c: &ManyPieces, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: Some((c.step, None)), trgt: if c.trgt { Some((30, 4, None)) } else { None }, seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: None, builder: c.builder };
    let src = build(&[Seg::Rand(c.seed, c.n)]);
    let (n, step) = (src.len(), c.step as usize);
    let w = (n.next_power_of_two() / 4) as f64;
    let mut r = Mix(c.seed as u64 ^ 0x3333);
    let (mut t, mut fresh, mut k) = (Vec::new(), 0, 0);
    let mut lens = Vec::new();
    let mut taken = std::collections::BTreeMap::new();
    for _ in 0..2 * c.k {
        let a = r.below(n as u64) as usize;
        // expected number of positions left: (w / step) (e^(-a/w) - e^(-b/w))
        let left = (-(a as f64) / w).exp() - LEFT * c.step as f64 / w;
        if left <= 0.0 {
            continue;
        }
        let b = (-w * left.ln()).ceil() as usize + 9;
        // the last positions of the source are not indexed
        if b - a > 20_000 || b + 64 + 2 * step > n || taken.range(..b).next_back().is_some_and(|(_, e)| a < *e) {
            continue;
        }
        taken.insert(a, b);
        lens.push(b - a);
        t.extend_from_slice(&src[a..b]);
        t.extend_from_slice(&r.next().to_le_bytes()[..7]);
        fresh += 7;
        k += 1;
        if k == c.k as usize {
            break;
        }
    }
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    lens.sort_by(|a, b| b.cmp(a));
    let miss = k as f64 * (-LEFT).exp();
    let miss = (miss + 6.0 * miss.sqrt() + 4.0) as usize;
    let bound = 64 + fresh + k * 12 + (k + t.len() / 65535) * 2 + lens.iter().take(miss).sum::<usize>();
    cx.nontrivial_if(k >= 50);
    cx.label_if(k >= 50, "many pieces");
    cx.label_if(miss * 20 < k, "at most one piece in twenty may be missed");
    ensure!(patch.len() <= bound, "{k} pieces of a {n} byte file, {} bytes in all, cost a {} byte patch (bound {bound})", t.len(), patch.len());
    Ok(())
}
/// Content that the naive test takes as the dictionary, and that repeats later on.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrefixCase {
    pub seed: u32,
    pub n: u16,
    pub gap: u16,
    /// (offset, length) of slices of the dictionary that follow
    pub reps: Vec<(u16, u16)>,
    pub cap: Option<u8>,
    pub chain: u32,
    pub early: u32,
    pub lazy: Option<u32>,
    pub append: bool,
}
fn s_prefix() -> BoxedStrategy<PrefixCase> {
    (any::<u16>(), 100u16..4000, prop_oneof![Just(0u16), 0u16..12, 0u16..200], pvec((any::<u16>(), 64u16..1500), 1..5), prop_oneof![Just(None), (12u8..15).prop_map(Some)], 2u32..33, 20u32..80, prop_oneof![Just(None), (1u32..100).prop_map(Some)], prop::bool::weighted(0.2))
        .prop_map(|(seed, n, gap, reps, cap, chain, early, lazy, append)| PrefixCase { seed: seed as u32, n, gap, reps, cap, chain, early, lazy, append })
        .boxed()
}
fn run_prefix(c: &PrefixCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: None, trgt: Some((c.early, c.chain, c.cap)), seg: false, comp: Comp::None, segsize: u32::MAX, naive: true, lazy: c.lazy, level: None, builder: false };
    let src = build(&[Seg::Rand(c.seed, c.n as u32)]);
    let mut rest = build(&[Seg::Rand(c.seed ^ 0x515151, c.gap as u32)]);
    let mut fresh = rest.len();
    // by default the table reaches back as far as half of what follows, rounded up
    let reach = |left: usize| match c.cap {
        Some(b) => 1usize << b,
        None => left.next_power_of_two() >> 1,
    };
    let total: usize = c.gap as usize + c.reps.iter().map(|r| r.1 as usize + 8).sum::<usize>();
    let lo = if c.append { 0 } else { src.len().saturating_sub(reach(total) / 2) };
    let mut k = 0;
    let mut first = src.len();
    for (i, (a, n)) in c.reps.iter().enumerate() {
        let a = lo + *a as usize % (src.len() - lo);
        let e = (a + *n as usize).min(src.len());
        if e - a < 64 {
            continue;
        }
        k += 1;
        first = first.min(a);
        rest.extend_from_slice(&src[a..e]);
        let sep = build(&[Seg::Rand(c.seed ^ (0x1000000 * (i as u32 + 1)) ^ 0xF0, 8)]);
        fresh += 8;
        rest.extend_from_slice(&sep);
    }
    if rest.is_empty() || (!c.append && (first + reach(rest.len()) < src.len() || reach(rest.len()).min(src.len()) > rest.len())) {
        // the naive tests are for targets larger than the dictionary, what lies further back
        // than the table reaches is not indexed, and the table is sized for what follows
        cx.excluded += 1;
        return Ok(());
    }
    let t = if c.append { [&rest[..], &src[..]].concat() } else { [&src[..], &rest[..]].concat() };
    let load = (src.len() - first + rest.len()).min(reach(rest.len()) + rest.len()) as f64 / ((rest.len() + rest.len() / 2).next_power_of_two() / 2) as f64;
    let lost = (30.0 * load.min(3.0).exp()) as usize;
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    cx.label_if(c.append, "dictionary at the end");
    cx.label_if(!c.append && k > 0, "dictionary at the start, then repeated");
    cx.nontrivial_if(k > 0 && !c.append);
    let bound = if c.append { 16 + rest.len() + rest.len() / 16 + 3 * k + 16 } else { 16 + fresh + 10 + k * (7 + 3 + lost + 10) };
    ensure!(patch.len() <= bound, "dictionary of {} bytes {} the target and {k} repeated pieces of it ({} bytes follow or precede, {fresh} of them new): {} byte patch (bound {bound})", src.len(), if c.append { "ends" } else { "starts" }, rest.len(), patch.len());
    Ok(())
}

/// Low-entropy content: every short string occurs many times, so that the repetition is
/// only found by searching the chain of earlier positions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    pub seed: u32,
    pub k: u8,
    pub pre: u16,
    pub n: u16,
    pub gap: u16,
    pub lazy: Option<u32>,
    pub naive: bool,
}
fn s_chain() -> BoxedStrategy<ChainCase> {
    (any::<u16>(), 3u8..6, 300u16..900, 800u16..1600, 300u16..900, prop_oneof![Just(None), (50u32..100).prop_map(Some)], any::<bool>())
        .prop_map(|(seed, k, pre, n, gap, lazy, naive)| ChainCase { seed: seed as u32, k, pre, n, gap, lazy, naive })
        .boxed()
}
fn run_chain(c: &ChainCase, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: None, trgt: Some((200, 1200, Some(14))), seg: false, comp: Comp::None, segsize: u32::MAX, naive: c.naive, lazy: c.lazy, level: None, builder: false };
    let a = |s: u32, n: u16| Seg::Alpha(c.seed ^ s, c.k, n as u32);
    let mut t = build(&[a(1, c.pre), a(2, c.n), a(3, c.gap)]);
    let once = encode_cfg(None, &t, &cfg)?;
    let block = build(&[a(2, c.n)]);
    t.extend_from_slice(&block);
    let twice = encode_cfg(None, &t, &cfg)?;
    cx.nontrivial_if(true);
    cx.label("low-entropy repetition");
    // about one case in 10^6 costs more than 70
    let bound = once.len() + 130;
    ensure!(twice.len() <= bound, "repeating {} bytes of a {} byte target raises the patch from {} to {} bytes", c.n, t.len(), once.len(), twice.len());
    Ok(())
}

/// Many short runs between fresh bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShortRuns {
    pub seed: u32,
    pub runs: Vec<(u8, u16, u8)>,
    pub src: Option<u32>,
    pub trgt: bool,
    pub lazy: Option<u32>,
    pub level: Option<u8>,
}
fn s_short_runs() -> BoxedStrategy<ShortRuns> {
    (any::<u16>(), pvec((any::<u8>(), prop_oneof![3 => 20u16..70, 1 => 60u16..66, 1 => 70u16..400], 2u8..20), 1..30), prop::option::of(1u32..27), any::<bool>(), prop_oneof![Just(None), (1u32..100).prop_map(Some)], prop::option::weighted(0.3, 0u8..10))
        .prop_map(|(seed, runs, src, trgt, lazy, level)| ShortRuns { seed: seed as u32, runs, src: if trgt { src } else { Some(src.unwrap_or(3)) }, trgt, lazy, level })
        .boxed()
}
fn run_short_runs(c: &ShortRuns, cx: &mut Cx) -> Outcome {
    let cfg = Cfg { src: c.src.map(|s| (s, None)), trgt: if c.trgt { Some((30, 16, None)) } else { None }, seg: false, comp: Comp::None, segsize: u32::MAX, naive: false, lazy: c.lazy, level: c.level, builder: false };
    let src = build(&[Seg::Rand(c.seed ^ 0x4242, 700)]);
    let mut t = Vec::new();
    let mut pieces = 0;
    let mut fresh = 0;
    for (i, (b, n, gap)) in c.runs.iter().enumerate() {
        Seg::Rand(c.seed ^ (0x9000 + i as u32), *gap as u32).put(&mut t);
        fresh += *gap as usize;
        Seg::Run(*b, *n as u32).put(&mut t);
        pieces += 1 + *n as usize / 62;
    }
    let patch = encode_cfg(Some(&src), &t, &cfg)?;
    // per run: one add header; per piece a two byte run (or a short copy), and the bytes around it
    let bound = 32 + fresh + c.runs.len() * 3 + pieces * 12;
    cx.nontrivial_if(c.runs.len() > 2);
    cx.label("short runs");
    ensure!(patch.len() <= bound, "{} runs between {fresh} fresh bytes ({} bytes in all) cost a {} byte patch (bound {bound})", c.runs.len(), t.len(), patch.len());
    Ok(())
}

/// Secondary compression shrinks a compressible payload.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SecCase {
    pub seed: u32,
    pub k: u8,
    pub n: u32,
    pub comp: Comp,
    pub seg: bool,
    pub parts: u8,
}
fn s_sec() -> BoxedStrategy<SecCase> {
    (any::<u16>(), 1u8..5, 2000u32..20_000, prop_oneof![(1i32..=12).prop_map(Comp::Zstd), (2u8..=9, 16u8..=24, 0u8..3).prop_map(|(q, w, m)| Comp::Brotli(q, w, m, 0, false)), (2u32..80, 2u32..30).prop_map(|(early, chain)| Comp::Smdiff { early, chain, cap: None })], any::<bool>(), 1u8..4)
        .prop_map(|(seed, k, n, comp, seg, parts)| SecCase { seed: seed as u32, k, n, comp, seg, parts })
        .boxed()
}
fn run_sec(c: &SecCase, cx: &mut Cx) -> Outcome {
    let smd = matches!(c.comp, Comp::Smdiff { .. });
    // no matching: the payload is the target itself
    let mut cfg = Cfg { src: None, trgt: None, seg: c.seg, comp: Comp::None, segsize: 65_535, naive: false, lazy: None, level: None, builder: false };
    let t = if smd {
        // long repetitions, which is what this algorithm finds
        build(&[Seg::Per(c.seed, 200 + 100 * c.k as u32, c.n * c.parts as u32)])
    } else {
        build(&[Seg::Alpha(c.seed, 2, c.n * c.parts as u32)])
    };
    let plain = encode_cfg(None, &t, &cfg)?;
    cfg.comp = c.comp.clone();
    let small = encode_cfg(None, &t, &cfg)?;
    cx.nontrivial_if(true);
    cx.label("compressible payload");
    let bound = plain.len() / 2 + 600;
    ensure!(small.len() <= bound, "a patch of {} highly compressible bytes takes {} bytes with {:?}", plain.len(), small.len(), c.comp);
    Ok(())
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "the target has edits, moved blocks, repetitions or runs that the bound requires the encoder to find",
        assumptions: vec![
            "bounds are stated for incompressible base content, so that the cheapest description is known by construction",
            "edits are at least 64 index steps apart; blocks and repetitions are at least 64 bytes",
        ],
        families: vec![
            Box::new(Family { name: "edits", quick: 180_000, thorough: 2_500_000, strat: s_edit, run: run_edit }),
            Box::new(Family { name: "moves", quick: 90_000, thorough: 1_200_000, strat: s_move, run: run_move }),
            Box::new(Family { name: "separated", quick: 90_000, thorough: 1_200_000, strat: s_separated, run: run_separated }),
            Box::new(Family { name: "repeats", quick: 180_000, thorough: 2_500_000, strat: s_rep, run: run_rep }),
            Box::new(Family { name: "runs", quick: 120_000, thorough: 1_200_000, strat: s_run, run: run_run }),
            Box::new(Family { name: "bloat", quick: 450_000, thorough: 6_000_000, strat: s_small, run: run_bloat }),
            Box::new(Family { name: "window-edits", quick: 300, thorough: 10_000, strat: s_wedit, run: run_wedit }),
            Box::new(Family { name: "far-moves", quick: 360, thorough: 10_000, strat: s_far_move, run: run_far_move }),
            Box::new(Family { name: "many-pieces", quick: 3_000, thorough: 60_000, strat: s_many_pieces, run: run_many_pieces }),
            Box::new(Family { name: "prefix-repeats", quick: 300_000, thorough: 3_000_000, strat: s_prefix, run: run_prefix }),
            Box::new(Family { name: "chains", quick: 60_000, thorough: 600_000, strat: s_chain, run: run_chain }),
            Box::new(Family { name: "short-runs", quick: 300_000, thorough: 3_000_000, strat: s_short_runs, run: run_short_runs }),
            Box::new(Family { name: "secondary", quick: 30_000, thorough: 300_000, strat: s_sec, run: run_sec }),
        ],
        floors: vec![("identical files", 100), ("short runs between blocks", 5000), ("short repetitions between blocks", 5000), ("lazy search ends early", 5000), ("edited files", 5000), ("repeated content", 5000), ("long runs", 3000), ("moved by more than 512 kB", 40), ("moved by more than 2 MB", 8), ("short runs", 5000), ("many pieces", 1000), ("at most one piece in twenty may be missed", 500), ("compressible payload", 500), ("dictionary at the start, then repeated", 3000), ("low-entropy repetition", 1000), ("file larger than the window", 20)],
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PureCase {
    pub a: EncCase,
    pub b: Files,
    pub chunks: Vec<u32>,
}
fn s_pure() -> BoxedStrategy<PureCase> {
    (s_small(), files_small(), pvec(1u32..40, 1..6)).prop_map(|(a, b, chunks)| PureCase { a, b, chunks }).boxed()
}
fn s_pure_mid() -> BoxedStrategy<PureCase> {
    (s_mid(), files_small(), pvec(1u32..4000, 1..6)).prop_map(|(a, b, chunks)| PureCase { a, b, chunks }).boxed()
}
fn run_pure(c: &PureCase, cx: &mut Cx) -> Outcome {
    use super::io::Chunky;
    let (src, trgt) = c.a.files.expand();
    let cfg = c.a.cfg.build();
    let p1 = encode(src.as_deref(), &trgt, &cfg)?;
    // an unrelated call with the same configuration object in between
    let (s2, t2) = c.b.expand();
    let q1 = encode(s2.as_deref(), &t2, &cfg)?;
    let p2 = encode(src.as_deref(), &trgt, &cfg)?;
    ensure!(p1 == p2, "encoding the same files twice with one configuration gives different patches: {}", diff(&p1, &p2));
    let p3 = encode(src.as_deref(), &trgt, &c.a.cfg.build())?;
    ensure!(p1 == p3, "a fresh equal configuration gives a different patch: {}", diff(&p1, &p3));
    let mut flipped = c.a.cfg.clone();
    flipped.builder = !flipped.builder;
    let p5 = encode(src.as_deref(), &trgt, &flipped.build())?;
    ensure!(p1 == p5, "the same configuration, made by setting fields or by the builder methods, gives a different patch: {}", diff(&p1, &p5));
    let q2 = encode(s2.as_deref(), &t2, &c.a.cfg.build())?;
    ensure!(q1 == q2, "the second pair's patch depends on the call before it: {}", diff(&q1, &q2));
    if src.is_none() {
        let p4 = encode(Some(&[]), &trgt, &cfg)?;
        ensure!(p1 == p4, "no dictionary and an empty dictionary give different patches");
    }
    // stream shape
    let mut rs = src.as_ref().map(|s| Chunky::new(s.clone(), &c.chunks));
    let mut rt = Chunky::new(trgt.clone(), &c.chunks);
    let mut w = Chunky::new(Vec::new(), &c.chunks);
    let r = cut(|| smdiff_encoder::encode(rs.as_mut(), &mut rt, &mut w, &cfg)).map_err(|p| format!("encode over short reads: {p}"))?;
    ensure!(r.is_ok(), "encode over short reads and writes fails: {:?}", r.err());
    ensure!(w.data == p1, "short reads and writes change the patch: {}", diff(&p1, &w.data));
    if let Some(rs) = &rs {
        ensure!(Some(&rs.data) == src.as_ref(), "the dictionary stream was modified");
    }
    cx.nontrivial_if(p1.len() > 8 && !trgt.is_empty());
    cx.label_if(src.is_none(), "no dictionary");
    cx.label_if(c.a.cfg.comp != Comp::None, "compressed");
    Ok(())
}

/// What was encoded earlier in the process, by whichever thread.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    pub a: EncCase,
    pub before: Vec<EncCase>,
}
fn s_hist() -> BoxedStrategy<HistCase> {
    // low-entropy content and small files make every table size and limit visible
    let l = || prop_oneof![2 => 0u32..60, 3 => 200u32..3000, 1 => 3000u32..9000].boxed();
    let g = move || prop_oneof![3 => (any::<u16>(), 2u8..6, l()).prop_map(|(s, k, n)| Seg::Alpha(s as u32, k, n)), 1 => seg(l())].boxed();
    let t = move || prop_oneof![3 => g().prop_map(TSeg::New), 1 => tseg(l())].boxed();
    let f = move || (prop_oneof![1 => Just(None), 3 => pvec(g(), 0..3).prop_map(Some)], pvec(t(), 1..4)).prop_map(|(src, trgt)| Files { src, trgt }).boxed();
    let c = || {
        cfg()
            .prop_map(|mut c| {
                if let Some(t) = c.trgt.as_mut() {
                    if t.2.unwrap_or(0) < 6 {
                        t.2 = None;
                    }
                } else {
                    c.trgt = Some((40, 20, None));
                }
                if let Comp::Zstd(l) = &mut c.comp {
                    *l = (*l).min(9);
                }
                if let Comp::Brotli(q, ..) = &mut c.comp {
                    *q = (*q).min(6);
                }
                c
            })
            .boxed()
    };
    (case(f(), c()), pvec(case(f(), c()), 1..4)).prop_map(|(a, before)| HistCase { a, before }).boxed()
}
/// `vp enc-child seq|par`: encodes the cases on stdin, prints a hash of each patch.
pub fn enc_child(par: bool) -> i32 {
    let cases: Vec<EncCase> = serde_json::from_reader(std::io::stdin().lock()).expect("cases");
    let one = |c: &EncCase| {
        let (s, t) = c.files.expand();
        match encode_cfg(s.as_deref(), &t, &c.cfg) {
            Ok(p) => format!("{:016x}:{}", hash64(&[&p]), p.len()),
            Err(e) => format!("error {e}"),
        }
    };
    let out: Vec<String> = if par {
        std::thread::scope(|sc| {
            let hs: Vec<_> = cases.iter().map(|c| sc.spawn(move || one(c))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
        })
    } else {
        cases.iter().map(one).collect()
    };
    say_line(serde_json::to_string(&out).unwrap());
    0
}
fn in_child(mode: &str, cases: &[&EncCase]) -> Vec<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().unwrap()).args(["enc-child", mode]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    ch.stdin.take().unwrap().write_all(&serde_json::to_vec(cases).unwrap()).expect("write cases");
    let o = ch.wait_with_output().expect("child");
    serde_json::from_slice(&o.stdout).unwrap_or_else(|_| vec![format!("the encoder ends the process: {}", o.status); cases.len()])
}
fn run_hist(c: &HistCase, cx: &mut Cx) -> Outcome {
    let alone = in_child("seq", &[&c.a]).remove(0);
    ensure!(!alone.starts_with("error") && alone.contains(':'), "encode in a fresh process: {alone}");
    let mut v: Vec<&EncCase> = c.before.iter().collect();
    v.push(&c.a);
    let after = in_child("seq", &v).pop().unwrap();
    ensure!(after == alone, "the patch depends on what the process encoded before: {after} after {} other calls, {alone} in a fresh process (hash:length)", c.before.len());
    v.reverse();
    let par = in_child("par", &v).remove(0);
    ensure!(par == alone, "the patch depends on what other threads encode: {par} instead of {alone} (hash:length)");
    let (src, trgt) = c.a.files.expand();
    let here = encode_cfg(src.as_deref(), &trgt, &c.a.cfg)?;
    let here = format!("{:016x}:{}", hash64(&[&here]), here.len());
    ensure!(here == alone, "the patch depends on what the process encoded before: {here} instead of {alone} (hash:length)");
    cx.nontrivial_if(!trgt.is_empty());
    cx.label("fresh process");
    Ok(())
}
/// Encodings that take long: the effort spent must not depend on the clock or the load.
fn s_slow() -> BoxedStrategy<EncCase> {
    (any::<u16>(), 2u8..5, 60_000u32..120_000, prop::option::of(20_000u32..60_000), 150u32..500, 100u32..400, prop_oneof![Just(None), Just(Some(40u32))], prop_oneof![3 => Just(Comp::None), 1 => Just(Comp::Smdiff { early: 300, chain: 300, cap: None })])
        .prop_map(|(s, k, n, src, chain, early, lazy, comp)| EncCase {
            files: Files { src: src.map(|m| vec![Seg::Alpha(s as u32 ^ 1, k, m)]), trgt: vec![TSeg::New(Seg::Alpha(s as u32, k, n))] },
            cfg: Cfg { src: Some((1, None)), trgt: Some((early, chain, None)), seg: false, comp, segsize: u32::MAX, naive: false, lazy, level: None, builder: false },
        })
        .boxed()
}
fn run_slow(c: &EncCase, cx: &mut Cx) -> Outcome {
    let (src, trgt) = c.files.expand();
    let t0 = std::time::Instant::now();
    let a = encode_cfg(src.as_deref(), &trgt, &c.cfg)?;
    let dt = t0.elapsed();
    let rest = std::thread::scope(|s| {
        let h: Vec<_> = (0..3).map(|_| s.spawn(|| encode_cfg(src.as_deref(), &trgt, &c.cfg))).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect::<Vec<_>>()
    });
    for b in rest {
        let b = b?;
        ensure!(a == b, "a long encoding repeated, alongside others, gives a different patch: {}", diff(&a, &b));
    }
    cx.nontrivial_if(true);
    cx.label("long encoding");
    cx.label_if(dt.as_millis() > 100, "encoding of more than 100 ms");
    Ok(())
}
pub fn c16() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        rule: "the target is not empty and the patch has more than a header",
        assumptions: vec!["zstd and brotli (C libraries) are deterministic for equal calls"],
        families: vec![
            Box::new(Family { name: "small", quick: 120_000, thorough: 4_000_000, strat: s_pure, run: run_pure }),
            Box::new(Family { name: "mid", quick: 9_000, thorough: 300_000, strat: s_pure_mid, run: run_pure }),
            Box::new(Family { name: "history", quick: 12_000, thorough: 300_000, strat: s_hist, run: run_hist }),
            Box::new(Family { name: "slow", quick: 48, thorough: 2_000, strat: s_slow, run: run_slow }),
        ],
        floors: vec![("no dictionary", 200), ("compressed", 2000), ("fresh process", 1000), ("long encoding", 20)],
    }
}
