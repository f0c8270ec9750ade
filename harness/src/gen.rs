//! Generators. Cases are compact recipes (seeds, lengths, edit scripts) that expand
//! deterministically, so they shrink and serialise to something readable.
use crate::spec::{ROp, SizeForm, WComp};
use proptest::collection::vec as pvec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    /// incompressible bytes
    Rand(u32, u32),
    /// one byte repeated
    Run(u8, u32),
    /// a random block of period p repeated to n bytes: (seed, p, n)
    Per(u32, u32, u32),
    /// bytes from an alphabet of k symbols: (seed, k, n)
    Alpha(u32, u8, u32),
    Lit(Vec<u8>),
}
impl Seg {
    pub fn put(&self, out: &mut Vec<u8>) {
        match self {
            Seg::Rand(s, n) => {
                let mut r = Mix(*s as u64 ^ 0xABCD);
                let mut left = *n as usize;
                while left > 0 {
                    let b = r.next().to_le_bytes();
                    let k = left.min(8);
                    out.extend_from_slice(&b[..k]);
                    left -= k;
                }
            }
            Seg::Run(b, n) => out.extend(std::iter::repeat(*b).take(*n as usize)),
            Seg::Per(s, p, n) => {
                let p = (*p).max(1) as usize;
                let mut blk = Vec::new();
                Seg::Rand(*s, p as u32).put(&mut blk);
                let mut left = *n as usize;
                while left > 0 {
                    let k = left.min(p);
                    out.extend_from_slice(&blk[..k]);
                    left -= k;
                }
            }
            Seg::Alpha(s, k, n) => {
                let mut r = Mix(*s as u64 ^ 0x5151);
                let k = (*k).max(1) as u64;
                out.extend((0..*n).map(|_| b'a'.wrapping_add(r.below(k) as u8)))
            }
            Seg::Lit(v) => out.extend_from_slice(v),
        }
    }
}
pub fn build(segs: &[Seg]) -> Vec<u8> {
    let mut v = Vec::new();
    for s in segs {
        s.put(&mut v)
    }
    v
}

/// One piece of a target file.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TSeg {
    New(Seg),
    /// a slice of the source: (start mod len, length)
    Src(u32, u32),
    /// a slice of the target built so far
    Own(u32, u32),
    /// a slice of the source with one byte changed every k bytes
    Edit(u32, u32, u32),
    /// the whole source
    Whole,
    /// short slices of the source with one to three fresh bytes between them: (seed, count)
    Weave(u32, u32),
    /// the whole source with single bytes changed (0), inserted (1), removed (2) or swapped
    /// with the next (3): (position, kind, byte)
    Points(Vec<(u32, u8, u8)>),
    /// a slice of the source in which every k-th window of 9 bytes is replaced by another one
    /// with the same polynomial checksum: (start, length, k, which)
    Collide9(u32, u32, u32, u8),
    /// the same with windows of 4 bytes, from the target built so far, or from the source when
    /// that is empty
    Collide4(u32, u32, u32, u8),
}
/// Differences between windows of 9 bytes whose checksum (the polynomial with multiplier
/// 1181783497276652981, modulo 2^64) is the same: a reduced basis of that lattice.
const SAME9: [[i16; 9]; 9] = [
    [-18, 42, -20, -14, -27, 1, 66, -18, 48],
    [-36, -8, 20, 27, -37, -11, -20, -66, -77],
    [-27, -35, -83, 5, 18, 26, 19, -77, 22],
    [-6, 46, -57, 7, -95, -66, -55, 47, -69],
    [-21, 118, -39, 58, 37, 19, -67, 21, -6],
    [-69, -62, -3, -42, 30, 32, 83, 104, -41],
    [-56, 19, 2, -68, 1, 129, -74, 21, -42],
    [-44, 15, 43, 109, -40, -64, -40, 10, 115],
    [-107, -36, 52, -38, 81, -110, 7, 15, -12],
];
/// The same for windows of 4 bytes and the 32 bit checksum.
const SAME4: [[i16; 4]; 4] = [[160, -7, -43, -18], [191, 220, -25, -34], [31, 227, 18, -16], [129, -234, -61, -2]];
/// Replaces every k-th window by one with the same checksum, where one is at hand. Returns
/// how many were.
pub fn collide<const N: usize>(t: &mut [u8], vecs: &[[i16; N]], k: usize, which: u8) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i + N <= t.len() {
        for j in 0..2 * vecs.len() {
            let j = (j + which as usize) % (2 * vecs.len());
            let sign = if j % 2 == 0 { 1 } else { -1 };
            let w: Vec<i16> = (0..N).map(|b| t[i + b] as i16 + sign * vecs[j / 2][b]).collect();
            if w.iter().all(|b| (0..256).contains(b)) {
                for b in 0..N {
                    t[i + b] = w[b] as u8
                }
                n += 1;
                break;
            }
        }
        i += k.max(N);
    }
    n
}
pub fn build_target(src: &[u8], segs: &[TSeg]) -> Vec<u8> {
    let mut t: Vec<u8> = Vec::new();
    for s in segs {
        match s {
            TSeg::New(g) => g.put(&mut t),
            TSeg::Src(a, n) => {
                if !src.is_empty() {
                    let a = *a as usize % src.len();
                    let e = (a + *n as usize).min(src.len());
                    t.extend_from_slice(&src[a..e]);
                }
            }
            TSeg::Own(a, n) => {
                if !t.is_empty() {
                    let a = *a as usize % t.len();
                    let e = (a + *n as usize).min(t.len());
                    t.extend_from_within(a..e);
                }
            }
            TSeg::Edit(a, n, k) => {
                if !src.is_empty() {
                    let a = *a as usize % src.len();
                    let e = (a + *n as usize).min(src.len());
                    let k = (*k).max(1) as usize;
                    for (i, b) in src[a..e].iter().enumerate() {
                        t.push(if i % k == k - 1 { b ^ 0x55 } else { *b });
                    }
                }
            }
            TSeg::Whole => t.extend_from_slice(src),
            TSeg::Points(p) => {
                let mut v = src.to_vec();
                for (a, k, b) in p {
                    if v.is_empty() {
                        break;
                    }
                    let a = *a as usize % v.len();
                    match k % 4 {
                        0 => v[a] ^= (*b).max(1),
                        1 => v.insert(a, *b),
                        2 => {
                            v.remove(a);
                        }
                        _ => {
                            if a + 1 < v.len() {
                                v.swap(a, a + 1)
                            }
                        }
                    }
                }
                t.extend_from_slice(&v);
            }
            TSeg::Collide9(a, n, k, w) => {
                if !src.is_empty() {
                    let a = *a as usize % src.len();
                    let at = t.len();
                    t.extend_from_slice(&src[a..(a + *n as usize).min(src.len())]);
                    collide(&mut t[at..], &SAME9, *k as usize, *w);
                }
            }
            TSeg::Collide4(a, n, k, w) => {
                let at = t.len();
                let from = if at > 0 { &t[..] } else { src };
                if !from.is_empty() {
                    let a = *a as usize % from.len();
                    let piece = from[a..(a + *n as usize).min(from.len())].to_vec();
                    t.extend_from_slice(&piece);
                    collide(&mut t[at..], &SAME4, *k as usize, *w);
                }
            }
            TSeg::Weave(s, n) => {
                let mut r = Mix(*s as u64 ^ 0x77);
                for _ in 0..*n {
                    let x = r.next();
                    t.extend_from_slice(&x.to_le_bytes()[..1 + (x >> 60) as usize % 3]);
                    if src.len() > 40 {
                        let a = (x >> 8) as usize % (src.len() - 40);
                        t.extend_from_slice(&src[a..a + 12 + (x >> 56) as usize % 16]);
                    }
                }
            }
        }
    }
    t
}

/// Lengths with weight on the sizes the format and the encoder treat specially.
pub fn len_small() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..12,
        4 => 0u32..40,
        3 => 0u32..140,
        2 => prop::sample::select(vec![3u32, 4, 5, 8, 9, 10, 13, 14, 45, 61, 62, 63, 64, 65, 89, 90, 91, 124, 186, 187, 255, 256, 317, 318, 319, 371, 372, 373, 374, 414, 434, 435, 558, 600]),
        1 => 0u32..1500,
    ]
    .boxed()
}
pub fn seg(len: BoxedStrategy<u32>) -> BoxedStrategy<Seg> {
    let l = move || len.clone();
    prop_oneof![
        4 => (any::<u16>(), l()).prop_map(|(s, n)| Seg::Rand(s as u32, n)),
        3 => (prop::sample::select(vec![0u8, 1, 65, 255]), l()).prop_map(|(b, n)| Seg::Run(b, n)),
        2 => (0u32..6, 1u32..24, l()).prop_map(|(s, p, n)| Seg::Per(s, p, n)),
        2 => (any::<u16>(), 1u8..5, l()).prop_map(|(s, k, n)| Seg::Alpha(s as u32, k, n)),
        1 => pvec(any::<u8>(), 0..12).prop_map(Seg::Lit),
    ]
    .boxed()
}
pub fn tseg(len: BoxedStrategy<u32>) -> BoxedStrategy<TSeg> {
    let l = len.clone();
    let l2 = len.clone();
    let l3 = len.clone();
    prop_oneof![
        4 => seg(len).prop_map(TSeg::New),
        4 => (any::<u16>(), l).prop_map(|(a, n)| TSeg::Src(a as u32, n)),
        2 => (any::<u16>(), l2).prop_map(|(a, n)| TSeg::Own(a as u32, n)),
        1 => (any::<u16>(), l3, 5u32..80).prop_map(|(a, n, k)| TSeg::Edit(a as u32, n, k)),
        1 => Just(TSeg::Whole),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Files {
    /// None: no dictionary passed at all
    pub src: Option<Vec<Seg>>,
    pub trgt: Vec<TSeg>,
}
impl Files {
    pub fn expand(&self) -> (Option<Vec<u8>>, Vec<u8>) {
        let s = self.src.as_ref().map(|s| build(s));
        let t = build_target(s.as_deref().unwrap_or(&[]), &self.trgt);
        (s, t)
    }
}
pub fn files_small() -> BoxedStrategy<Files> {
    (
        prop_oneof![1 => Just(None), 12 => pvec(seg(len_small()), 0..6).prop_map(Some)],
        pvec(tseg(len_small()), 0..7),
    )
        .prop_map(|(src, trgt)| Files { src, trgt })
        .boxed()
}
/// Dominated by tiny files, where tails and minimum match lengths matter.
pub fn files_tiny() -> BoxedStrategy<Files> {
    let l = || prop_oneof![6 => 0u32..14, 3 => 0u32..30, 1 => 0u32..64].boxed();
    (pvec(seg(l()), 0..4).prop_map(Some), pvec(tseg(l()), 0..5)).prop_map(|(src, trgt)| Files { src, trgt }).boxed()
}
/// Prefix/suffix structures for the naive tests and the prefilled target matcher.
pub fn files_affix() -> BoxedStrategy<Files> {
    (pvec(seg(len_small()), 1..4), pvec(tseg(len_small()), 0..3), pvec(tseg(len_small()), 0..3))
        .prop_map(|(src, mut pre, post)| {
            pre.push(TSeg::Whole);
            pre.extend(post);
            Files { src: Some(src), trgt: pre }
        })
        .boxed()
}
pub fn len_mid() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..3000, 2 => 0u32..20000, 1 => len_small()].boxed()
}
pub fn files_mid() -> BoxedStrategy<Files> {
    (pvec(seg(len_mid()), 0..5).prop_map(Some), pvec(tseg(len_mid()), 0..8)).prop_map(|(src, trgt)| Files { src, trgt }).boxed()
}
/// Long enough for instruction-size splitting and several sections.
pub fn len_big() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 20_000u32..140_000,
        2 => prop::sample::select(vec![65_534u32, 65_535, 65_536, 65_537, 131_070, 131_071, 131_072, 65_535 - 62, 65_535 + 186]),
        2 => 0u32..5000,
        1 => len_small(),
    ]
    .boxed()
}
pub fn files_big() -> BoxedStrategy<Files> {
    (pvec(seg(len_big()), 0..4).prop_map(Some), pvec(tseg(len_big()), 1..5)).prop_map(|(src, trgt)| Files { src, trgt }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Comp {
    None,
    Smdiff { early: u32, chain: u32, cap: Option<u8> },
    Zstd(i32),
    /// quality, window bits, mode 0..3, block bits 0 = unset, disable literal context modeling
    Brotli(u8, u8, u8, u8, bool),
    /// the encoder's ready-made settings: SMDIFF, zstd, brotli, Default::default()
    Ready(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// Some(l_step, max_src_win_size)
    pub src: Option<(u32, Option<u32>)>,
    /// Some(compress_early_exit, chain_check, log2 of prev_table_capacity; 255 = 0)
    pub trgt: Option<(u32, u32, Option<u8>)>,
    pub seg: bool,
    pub comp: Comp,
    pub segsize: u32,
    pub naive: bool,
    pub lazy: Option<u32>,
    /// build through EncoderConfig::comp_level(level, ..)
    pub level: Option<u8>,
    /// set every option through the builder methods
    #[serde(default)]
    pub builder: bool,
}

pub fn trgt_cfg(t: &(u32, u32, Option<u8>)) -> smdiff_encoder::TrgtMatcherConfig {
    smdiff_encoder::TrgtMatcherConfig {
        compress_early_exit: t.0 as usize,
        chain_check: t.1 as usize,
        prev_table_capacity: t.2.map(|b| if b == 255 { 0 } else { 1usize << b }),
    }
}
impl Comp {
    pub fn to_sec(&self) -> Option<smdiff_encoder::SecondaryCompression> {
        use smdiff_encoder::{brotli, SecondaryCompression as S};
        Some(match self {
            Comp::None => return None,
            Comp::Smdiff { early, chain, cap } => S::Smdiff(trgt_cfg(&(*early, *chain, *cap))),
            Comp::Zstd(l) => S::Zstd { level: *l },
            Comp::Brotli(q, w, m, b, d) => {
                let mut o = brotli::BrotliEncoderOptions::new();
                o.quality(brotli::Quality::new((*q).min(11)).unwrap());
                o.window_size(brotli::WindowSize::new((*w).clamp(10, 24)).unwrap());
                o.mode(match m % 3 {
                    0 => brotli::CompressionMode::Generic,
                    1 => brotli::CompressionMode::Text,
                    _ => brotli::CompressionMode::Font,
                });
                if *b > 0 {
                    o.block_size(brotli::BlockSize::new((*b).clamp(16, 24)).unwrap());
                }
                if *d {
                    o.disable_context_modeling(true);
                }
                S::Brotli { options: o }
            }
            Comp::Ready(k) => match k % 4 {
                0 => S::new_smdiff_default(),
                1 => S::new_zstd_default(),
                2 => S::new_brotli_default(),
                _ => S::default(),
            },
        })
    }
    pub fn algo(&self) -> u8 {
        match self {
            Comp::None => 0,
            Comp::Smdiff { .. } => 1,
            Comp::Zstd(_) => 2,
            Comp::Brotli(..) => 3,
            Comp::Ready(k) => [1, 2, 3, 2][*k as usize % 4],
        }
    }
}
impl Cfg {
    pub fn build(&self) -> smdiff_encoder::EncoderConfig {
        use smdiff_encoder::*;
        let mut c = if let Some(l) = self.level {
            EncoderConfig::comp_level(l as usize % 10, self.trgt.is_some(), self.comp.to_sec())
        } else if self.builder {
            // later calls replace what earlier ones set
            let mut c = EncoderConfig::new().set_match_target(Default::default()).set_sec_comp(Default::default()).set_output_segment_size(70_000).set_lazy_escape_len(3);
            c = match self.src {
                Some((s, w)) => c.no_match_src().set_match_src(SrcMatcherConfig::new(s as usize, w.map(|x| x as usize))),
                None => c.no_match_src(),
            };
            c = match &self.trgt {
                Some(t) => {
                    let mut m = trgt_cfg(&(t.0, t.1, None));
                    if let Some(b) = t.2 {
                        m = m.with_table_capacity(if b == 255 { 0 } else { 1usize << b });
                    }
                    c.set_match_target(m)
                }
                None => c.no_match_target(),
            };
            c = match self.comp.to_sec() {
                Some(s) => c.no_sec_comp().set_sec_comp(s),
                None => c.no_sec_comp(),
            };
            c = if self.seg { c.format_interleaved().format_segregated() } else { c.format_segregated().format_interleaved() };
            c = c.set_output_segment_size(seg_usize(self.segsize));
            if let Some(l) = self.lazy {
                c = c.set_lazy_escape_len(l as usize);
            }
            c
        } else {
            let mut c = EncoderConfig::default();
            c.match_src = self.src.map(|(s, w)| SrcMatcherConfig::new(s as usize, w.map(|x| x as usize)));
            c.match_trgt = self.trgt.as_ref().map(trgt_cfg);
            c.sec_comp = self.comp.to_sec();
            if self.seg {
                c = c.format_segregated()
            } else {
                c = c.format_interleaved()
            }
            c
        };
        if !self.builder || self.level.is_some() {
            c.output_segment_size = seg_usize(self.segsize);
        }
        c.lazy_escape_len = self.lazy.map(|x| x as usize);
        if self.naive {
            c = c.set_naive_tests(Default::default());
        }
        c
    }
    pub fn is_segregated(&self) -> bool {
        if self.level.is_some() {
            self.comp != Comp::None
        } else {
            self.seg
        }
    }
    pub fn segsize_eff(&self) -> u64 {
        (seg_usize(self.segsize) as u64).clamp(65535, crate::spec::MAX_SECTION)
    }
}

pub fn comp() -> BoxedStrategy<Comp> {
    prop_oneof![
        12 => Just(Comp::None),
        3 => smd_comp(),
        3 => zstd_comp(),
        3 => brotli_comp(),
        1 => (0u8..4).prop_map(Comp::Ready),
    ]
    .boxed()
}
pub fn cap() -> BoxedStrategy<Option<u8>> {
    prop_oneof![3 => Just(None), 1 => Just(Some(255u8)), 3 => (0u8..12).prop_map(Some)].boxed()
}
pub fn smd_comp() -> BoxedStrategy<Comp> {
    (0u32..80, 0u32..34, cap()).prop_map(|(early, chain, cap)| Comp::Smdiff { early, chain, cap }).boxed()
}
pub fn zstd_comp() -> BoxedStrategy<Comp> {
    prop_oneof![4 => 1i32..=12, 1 => 13i32..=22, 1 => -5i32..=0].prop_map(Comp::Zstd).boxed()
}
pub fn brotli_comp() -> BoxedStrategy<Comp> {
    (prop_oneof![5 => 0u8..=6, 1 => 7u8..=11], 10u8..=24, 0u8..3, prop_oneof![2 => Just(0u8), 1 => 16u8..=24], any::<bool>())
        .prop_map(|(q, w, m, b, d)| Comp::Brotli(q, w, m, b, d))
        .boxed()
}
/// Requested section sizes are stored as 32 bits; these stand for larger ones.
pub const SEG_WIDE: u32 = 0xffff_ff00;
pub fn seg_usize(v: u32) -> usize {
    match v.wrapping_sub(SEG_WIDE) {
        0 => usize::MAX,
        1 => 1 << 32,
        2 => (1 << 32) + 70_000,
        3 => 1 << 63,
        _ => v as usize,
    }
}
pub fn segsize() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => Just((1u32 << 24) - 1),
        2 => prop::sample::select(vec![0u32, 1, 65_534, 65_535, 65_536, 65_537, 100_000, 131_070, 1 << 24, u32::MAX, SEG_WIDE, SEG_WIDE + 1, SEG_WIDE + 2, SEG_WIDE + 3]),
        1 => 65_535u32..400_000,
    ]
    .boxed()
}
pub fn cfg_with(comp: BoxedStrategy<Comp>) -> BoxedStrategy<Cfg> {
    (
        option::weighted(
            0.85,
            (prop_oneof![6 => 1u32..=30, 1 => Just(0u32), 1 => 30u32..300], prop_oneof![2 => Just(None), 1 => prop::sample::select(vec![0u32, 1, 1 << 20, 1 << 21]).prop_map(Some)]),
        ),
        option::weighted(0.6, (0u32..80, prop_oneof![4 => 1u32..34, 1 => Just(0u32), 1 => 34u32..200], cap())),
        any::<bool>(),
        comp,
        segsize(),
        prop::bool::weighted(0.3),
        prop_oneof![3 => Just(None), 1 => Just(Some(0u32)), 3 => (1u32..120).prop_map(Some)],
        (option::weighted(0.2, 0u8..10), prop::bool::weighted(0.3)),
    )
        .prop_map(|(src, trgt, seg, comp, segsize, naive, lazy, (level, builder))| Cfg { builder, src, trgt, seg, comp, segsize, naive, lazy, level })
        .boxed()
}
pub fn cfg() -> BoxedStrategy<Cfg> {
    cfg_with(comp())
}

// ---------------------------------------------------------------- op lists and patches

/// Abstract operation; resolved against the file sizes when a patch is built.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AOp {
    Add(u16, u16),
    AddLit(Vec<u8>),
    Run(u8, u8),
    /// (address, len): mapped into the dictionary
    D(u32, u16),
    /// (address, len): mapped into the output so far
    O(u32, u16),
    /// copy of exactly the last n bytes of the output / dictionary
    OEnd(u16),
    DEnd(u16),
    /// this many tiny operations: (seed, count)
    Many(u16, u32),
}
/// Turn abstract ops into valid ops for a dictionary of `src_len` bytes, with
/// `out_len` bytes of output before them. Impossible copies become adds.
pub fn resolve(ops: &[AOp], src_len: u64, out_len: &mut u64, max_total: u64) -> Vec<ROp> {
    let mut v = Vec::new();
    let mut total = 0u64;
    let mut full = Vec::new();
    let ops = if ops.iter().any(|o| matches!(o, AOp::Many(..))) {
        for o in ops {
            match o {
                AOp::Many(s, n) => {
                    let mut r = Mix(*s as u64 ^ 0x3A3A);
                    full.extend((0..*n).map(|_| {
                        let x = r.next();
                        let (a, n) = ((x >> 8) as u32, 1 + (x >> 48) as u16 % 3);
                        match x % 8 {
                            0 => AOp::AddLit(a.to_le_bytes()[..n as usize].to_vec()),
                            1 => AOp::Run(a as u8, n as u8),
                            2 | 3 => AOp::O(a, n),
                            _ => AOp::D(a, n),
                        }
                    }))
                }
                o => full.push(o.clone()),
            }
        }
        &full[..]
    } else {
        ops
    };
    for o in ops {
        let r = match o {
            AOp::Many(..) => unreachable!(),
            AOp::Add(s, n) => {
                let mut b = Vec::new();
                Seg::Rand(*s as u32, (*n).max(1) as u32).put(&mut b);
                ROp::Add(b)
            }
            AOp::AddLit(b) => {
                if b.is_empty() {
                    continue;
                }
                ROp::Add(b.clone())
            }
            AOp::Run(b, n) => ROp::Run { byte: *b, len: (*n).clamp(1, 62) },
            AOp::D(a, n) => {
                if src_len == 0 {
                    ROp::Run { byte: 7, len: (*n).clamp(1, 62) as u8 }
                } else {
                    let a = *a as u64 % src_len;
                    ROp::CopyD { addr: a, len: ((*n).max(1) as u64).min(src_len - a) as u16 }
                }
            }
            AOp::DEnd(n) => {
                if src_len == 0 {
                    ROp::Run { byte: 8, len: (*n).clamp(1, 62) as u8 }
                } else {
                    let n = ((*n).max(1) as u64).min(src_len);
                    ROp::CopyD { addr: src_len - n, len: n as u16 }
                }
            }
            AOp::O(a, n) => {
                let cur = *out_len + total;
                if cur == 0 {
                    ROp::Add(vec![*n as u8])
                } else {
                    let a = *a as u64 % cur;
                    ROp::CopyO { addr: a, len: ((*n).max(1) as u64).min(cur - a) as u16 }
                }
            }
            AOp::OEnd(n) => {
                let cur = *out_len + total;
                if cur == 0 {
                    ROp::Add(vec![*n as u8])
                } else {
                    let n = ((*n).max(1) as u64).min(cur);
                    ROp::CopyO { addr: cur - n, len: n as u16 }
                }
            }
        };
        if total + r.len() as u64 > max_total {
            break;
        }
        total += r.len() as u64;
        v.push(r);
    }
    *out_len += total;
    v
}
pub fn op_len() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => 1u16..20,
        4 => 1u16..100,
        2 => prop::sample::select(vec![1u16, 2, 61, 62, 63, 64, 65, 255, 256, 257, 316, 317, 318, 319, 320, 511, 512]),
        1 => 1u16..2000,
    ]
    .boxed()
}
pub fn op_len_wide() -> BoxedStrategy<u16> {
    prop_oneof![4 => op_len(), 1 => 2000u16..30000, 1 => prop::sample::select(vec![32767u16, 32768, 40000, 65534, 65535])].boxed()
}
pub fn aop(len: BoxedStrategy<u16>, dict: bool) -> BoxedStrategy<AOp> {
    let d = if dict { 3 } else { 0 };
    let l = move || len.clone();
    prop_oneof![
        2 => (any::<u16>(), l()).prop_map(|(s, n)| AOp::Add(s, n)),
        1 => pvec(any::<u8>(), 1..8).prop_map(AOp::AddLit),
        2 => (any::<u8>(), 1u8..63).prop_map(|(b, n)| AOp::Run(b, n)),
        d => (any::<u32>(), l()).prop_map(|(a, n)| AOp::D(a, n)),
        3 => (any::<u32>(), l()).prop_map(|(a, n)| AOp::O(a, n)),
        1 => l().prop_map(AOp::OEnd),
        if dict { 1 } else { 0 } => l().prop_map(AOp::DEnd),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ASec {
    pub ops: Vec<AOp>,
    pub seg: bool,
    pub comp: WComp,
    pub forms: Vec<SizeForm>,
}
pub fn forms() -> BoxedStrategy<Vec<SizeForm>> {
    prop_oneof![2 => Just(vec![]), 3 => pvec(prop_oneof![Just(SizeForm::Small), Just(SizeForm::U8), Just(SizeForm::U16)], 1..5)].boxed()
}
pub fn wcomp() -> BoxedStrategy<WComp> {
    prop_oneof![
        4 => Just(WComp::None),
        1 => (prop_oneof![1u32..20, 1u32..300], prop_oneof![Just(0u32), 1u32..6], any::<bool>()).prop_map(|(chunk, every, seg)| WComp::Smdiff { chunk, every, seg }),
        2 => (1i32..8, any::<bool>(), any::<bool>(), prop_oneof![3 => Just(0u32), 1 => 1u32..200]).prop_map(|(level, checksum, content_size, flush_every)| WComp::Zstd { level, checksum, content_size, flush_every }),
        2 => (0u8..8, 10u8..=24, prop_oneof![3 => Just(0u32), 1 => 1u32..200]).prop_map(|(quality, window, flush_every)| WComp::Brotli { quality, window, flush_every }),
    ]
    .boxed()
}
pub fn asec(len: BoxedStrategy<u16>, nops: std::ops::Range<usize>, dict: bool, comp: BoxedStrategy<WComp>) -> BoxedStrategy<ASec> {
    (pvec(aop(len, dict), nops), any::<bool>(), comp, forms()).prop_map(|(ops, seg, comp, forms)| ASec { ops, seg, comp, forms }).boxed()
}

/// Hundreds to tens of thousands of small sections.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManySecs {
    pub src: Vec<Seg>,
    pub seed: u32,
    pub count: u32,
    /// operations per section
    pub max_ops: u8,
    /// compress every k-th section
    pub comp_every: u8,
    /// interleaved, segregated, both
    pub seg: u8,
}
pub fn many_secs(max: u32) -> BoxedStrategy<ManySecs> {
    (pvec(seg(len_small()), 1..3), any::<u32>(), prop_oneof![3 => 200u32..600, 2 => 600u32..5000, 1 => 5000..=max], 0u8..4, prop_oneof![2 => Just(0u8), 1 => 5u8..200], 0u8..3)
        .prop_map(|(src, seed, count, max_ops, comp_every, seg)| ManySecs { src, seed, count, max_ops, comp_every, seg })
        .boxed()
}
impl ManySecs {
    pub fn expand(&self) -> Vec<ASec> {
        let mut r = Mix(self.seed as u64 ^ 0x5EC5);
        (0..self.count)
            .map(|i| {
                let n = r.below(self.max_ops as u64 + 1);
                let ops = (0..n)
                    .map(|_| {
                        let x = r.next();
                        let (a, n) = ((x >> 8) as u32, 1 + (x >> 48) as u16 % 9);
                        match x % 6 {
                            0 => AOp::AddLit(a.to_le_bytes()[..(n as usize).min(4)].to_vec()),
                            1 => AOp::Run(a as u8, n as u8),
                            2 => AOp::O(a, n),
                            3 => AOp::OEnd(n),
                            _ => AOp::D(a, n),
                        }
                    })
                    .collect();
                let comp = if self.comp_every > 0 && i % self.comp_every as u32 == 3 {
                    match r.below(3) {
                        0 => WComp::Zstd { level: 1, checksum: false, content_size: true, flush_every: 0 },
                        1 => WComp::Brotli { quality: 0, window: 16, flush_every: 0 },
                        _ => WComp::Smdiff { chunk: 100, every: 0, seg: false },
                    }
                } else {
                    WComp::None
                };
                let seg = match self.seg {
                    0 => false,
                    1 => true,
                    _ => r.below(2) == 1,
                };
                ASec { ops, seg, comp, forms: vec![] }
            })
            .collect()
    }
}
/// A resolved patch: op lists per section, its bytes and the output it must produce.
pub struct Built {
    pub secs: Vec<Vec<ROp>>,
    pub bytes: Vec<u8>,
    pub output: Vec<u8>,
}
pub fn build_patch(secs: &[ASec], src: &[u8], max_out: u64) -> Built {
    let mut out_len = 0u64;
    let mut bytes = Vec::new();
    let mut output = Vec::new();
    let mut lists = Vec::new();
    for (i, s) in secs.iter().enumerate() {
        let ops = resolve(&s.ops, src.len() as u64, &mut out_len, max_out.saturating_sub(output.len() as u64));
        crate::spec::interpret_ops(&ops, Some(src), &mut output).expect("generated ops are valid");
        crate::spec::ser_section(&mut bytes, &ops, s.seg, i + 1 < secs.len(), &s.comp, &s.forms);
        lists.push(ops);
    }
    Built { secs: lists, bytes, output }
}

pub fn hexs(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{x:02x}")).collect();
    if b.len() > 64 {
        s.push_str("..");
    }
    format!("[{} bytes: {s}]", b.len())
}
/// First difference between two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} vs {}, first difference at {}", a.len(), b.len(), i)
}
