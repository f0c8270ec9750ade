//! C10 merging a history, C11 when a merge is complete, C12 extraction and slicing, C13 transcoding.
use super::codec::{fmt, head};
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, ROp, WComp};
use proptest::collection::vec as pvec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use smdiff_merger::{Merger, SparseOp, SummaryPatch};

/// One version to the next.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Hand(Vec<ASec>),
    Enc(Vec<TSeg>, Cfg),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Write {
    pub max: Option<u32>,
    pub seg: Option<bool>,
    pub comp: Comp,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    pub v0: Vec<Seg>,
    pub steps: Vec<Step>,
    pub writes: Vec<Write>,
    pub split: u8,
}
fn wr(c: BoxedStrategy<Comp>) -> BoxedStrategy<Write> {
    (option::weighted(0.5, prop_oneof![3 => Just(0u32), 1 => segsize()]), option::of(any::<bool>()), c).prop_map(|(max, seg, comp)| Write { max, seg, comp }).boxed()
}
pub fn fast_cfg(c: BoxedStrategy<Comp>) -> BoxedStrategy<Cfg> {
    (cfg_with(c), 0u8..4)
        .prop_map(|(mut c, l)| {
            if c.level.is_some() {
                c.level = Some(l)
            }
            c
        })
        .boxed()
}
/// hand-built steps lean towards dictionary copies, so that histories stay connected
fn hand(len: BoxedStrategy<u16>, n: usize, comp: BoxedStrategy<WComp>) -> BoxedStrategy<Step> {
    let l = len.clone();
    let op = prop_oneof![
        3 => aop(len, true),
        3 => (any::<u32>(), l).prop_map(|(a, n)| AOp::D(a, n)),
    ]
    .boxed();
    pvec((pvec(op, 0..n), any::<bool>(), comp, forms()).prop_map(|(ops, seg, comp, forms)| ASec { ops, seg, comp, forms }), 1..4).prop_map(Step::Hand).boxed()
}
fn cheap_wcomp() -> BoxedStrategy<WComp> {
    prop_oneof![6 => Just(WComp::None), 1 => wcomp()].boxed()
}
fn s_hand() -> BoxedStrategy<HistCase> {
    (pvec(seg(len_small()), 0..4), pvec(hand(op_len(), 12, cheap_wcomp()), 2..6), pvec(wr(prop_oneof![5 => Just(Comp::None), 1 => comp()].boxed()), 1..3), any::<u8>())
        .prop_map(|(v0, steps, writes, split)| HistCase { v0, steps, writes, split })
        .boxed()
}
/// Long histories of small patches that mostly copy.
fn s_long() -> BoxedStrategy<HistCase> {
    let l = || prop_oneof![3 => 1u16..40, 1 => 1u16..200];
    let op = move || {
        prop_oneof![
            10 => (any::<u32>(), l()).prop_map(|(a, n)| AOp::D(a, n)),
            1 => (any::<u16>(), 1u16..9).prop_map(|(s, n)| AOp::Add(s, n)),
            1 => (any::<u8>(), 1u8..9).prop_map(|(b, n)| AOp::Run(b, n)),
            1 => (any::<u32>(), l()).prop_map(|(a, n)| AOp::O(a, n)),
        ]
    };
    let step = pvec((pvec(op(), 1..8), any::<bool>()).prop_map(|(ops, seg)| ASec { ops, seg, comp: WComp::None, forms: vec![] }), 1..3).prop_map(Step::Hand);
    (pvec(seg(len_small()), 1..4), prop_oneof![3 => pvec(step.clone(), 6..16), 1 => pvec(step, 16..70)], pvec(wr(Just(Comp::None).boxed()), 1..3), any::<u8>())
        .prop_map(|(v0, steps, writes, split)| HistCase { v0, steps, writes, split })
        .boxed()
}
/// Patches of very many sections.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SecHist {
    pub pred: ManySecs,
    pub term: ManySecs,
    pub write: Write,
}
fn s_sec_hist() -> BoxedStrategy<SecHist> {
    (many_secs(20_000), many_secs(20_000), wr(Just(Comp::None).boxed())).prop_map(|(pred, term, write)| SecHist { pred, term, write }).boxed()
}
fn run_sec_hist(c: &SecHist, cx: &mut Cx) -> Outcome {
    cx.label("patches of more than 200 sections");
    let h = HistCase { v0: c.pred.src.clone(), steps: vec![Step::Hand(c.pred.expand()), Step::Hand(c.term.expand())], writes: vec![c.write.clone()], split: 1 };
    run_c10(&h, cx)
}
fn s_sections() -> BoxedStrategy<(ManySecs, Vec<(u32, u32)>)> {
    (many_secs(70_000), pvec((any::<u32>(), prop_oneof![2 => 1u32..40, 1 => any::<u32>()]), 1..6)).boxed()
}
fn run_slice_sections(c: &(ManySecs, Vec<(u32, u32)>), cx: &mut Cx) -> Outcome {
    cx.label("patches of more than 200 sections");
    run_c12(&SliceCase { src: c.0.src.clone(), secs: c.0.expand(), cuts: c.1.clone(), base: 0 }, cx)
}
fn run_tc_sections(c: &(ManySecs, Vec<(u32, u32)>), cx: &mut Cx) -> Outcome {
    cx.label("patches of more than 200 sections");
    run_c13(&TcCase { src: c.0.src.clone(), patch: TIn::Hand(c.0.expand()), to: vec![(c.1[0].0 % 2 == 0, Comp::None, c.1[0].1)] }, cx)
}
fn s_enc() -> BoxedStrategy<HistCase> {
    let step = prop_oneof![
        3 => (pvec(tseg(len_small()), 1..6), fast_cfg(comp())).prop_map(|(t, c)| Step::Enc(t, c)),
        1 => hand(op_len(), 10, wcomp()),
    ];
    (pvec(seg(len_small()), 1..5), pvec(step, 2..5), pvec(wr(comp()), 1..3), any::<u8>()).prop_map(|(v0, steps, writes, split)| HistCase { v0, steps, writes, split }).boxed()
}
fn s_wide() -> BoxedStrategy<HistCase> {
    let step = prop_oneof![
        1 => (pvec(tseg(len_big()), 1..4), fast_cfg(Just(Comp::None).boxed())).prop_map(|(t, c)| Step::Enc(t, c)),
        1 => hand(op_len_wide(), 12, Just(WComp::None).boxed()),
    ];
    (pvec(seg(len_big()), 1..4), pvec(step, 2..4), pvec(wr(prop_oneof![3 => Just(Comp::None), 1 => Just(Comp::Zstd(1))].boxed()), 1..3), any::<u8>())
        .prop_map(|(v0, steps, writes, split)| HistCase { v0, steps, writes, split })
        .boxed()
}
/// Patches of more operations than 16 bits count.
fn s_many_ops() -> BoxedStrategy<HistCase> {
    use super::patch::{fast_wcomp, many_ops};
    let step = prop_oneof![3 => pvec(many_ops(fast_wcomp()), 1..2).prop_map(Step::Hand), 1 => hand(op_len(), 10, Just(WComp::None).boxed())];
    (pvec(seg(len_mid()), 1..3), pvec(step, 2..4), pvec(wr(prop_oneof![2 => Just(Comp::None), 1 => Just(Comp::Zstd(1))].boxed()), 1..3), any::<u8>())
        .prop_map(|(v0, steps, writes, split)| HistCase { v0, steps, writes, split })
        .boxed()
}

struct Hist {
    versions: Vec<Vec<u8>>,
    patches: Vec<Vec<u8>>,
    ops: Vec<Vec<ROp>>,
}
fn history(c: &HistCase, max_out: u64) -> Result<Hist, String> {
    let mut h = Hist { versions: vec![build(&c.v0)], patches: vec![], ops: vec![] };
    for (i, s) in c.steps.iter().enumerate() {
        let prev = h.versions.last().unwrap().clone();
        match s {
            Step::Hand(secs) => {
                let b = build_patch(secs, &prev, max_out);
                h.ops.push(b.secs.concat());
                h.versions.push(b.output);
                h.patches.push(b.bytes);
            }
            Step::Enc(t, cfg) => {
                let next = build_target(&prev, t);
                let p = encode_cfg(Some(&prev), &next, cfg).map_err(|e| format!("step {i}: {e}"))?;
                let (secs, _) = spec::parse_patch(&p, &Default::default()).map_err(|e| format!("step {i}: the encoder's patch is not valid SMDIFF: {e}"))?;
                let ops: Vec<ROp> = secs.into_iter().flat_map(|s| s.ops).collect();
                let mut out = Vec::new();
                spec::interpret_ops(&ops, Some(&prev), &mut out).map_err(|e| format!("step {i}: the encoder's patch does not apply: {e}"))?;
                ensure!(out == next, "step {i}: the encoder's patch gives the wrong output");
                h.ops.push(ops);
                h.versions.push(next);
                h.patches.push(p);
            }
        }
    }
    Ok(h)
}

enum M {
    Open(Merger),
    Done(SummaryPatch),
}
fn m_new(p: &[u8]) -> Result<M, String> {
    Ok(match cut(|| Merger::new(Cursor::new(p))).map_err(|p| format!("Merger::new: {p}"))?.map_err(|e| format!("Merger::new fails on a valid patch: {e}"))? {
        Ok(m) => M::Open(m),
        Err(s) => M::Done(s),
    })
}
fn m_merge(m: Merger, p: &[u8]) -> Result<M, String> {
    Ok(match cut(|| m.merge(Cursor::new(p))).map_err(|p| format!("merge: {p}"))?.map_err(|e| format!("merge fails on patches that fit: {e}"))? {
        Ok(m) => M::Open(m),
        Err(s) => M::Done(s),
    })
}
fn write_summary(s: SummaryPatch, w: &Write) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    cut(|| s.write(&mut out, w.max.map(seg_usize), w.seg.map(fmt), w.comp.to_sec())).map_err(|p| format!("write: {p}"))?.map_err(|e| format!("writing a summary patch fails: {e}"))?;
    Ok(out)
}
/// `bytes` must be a patch from `dict` to `want` that honours `w`.
fn check_written(what: &str, bytes: &[u8], w: &Write, dict: Option<&[u8]>, want: &[u8]) -> Result<Vec<ROp>, String> {
    let (secs, used) = spec::parse_patch(bytes, &Default::default()).map_err(|e| format!("{what}: not valid SMDIFF: {e}"))?;
    ensure!(used == bytes.len(), "{what}: {} bytes after the last section", bytes.len() - used);
    let lim = (w.max.map(|x| seg_usize(x) as u64).unwrap_or(spec::MAX_SECTION)).clamp(65_535, spec::MAX_SECTION);
    for s in &secs {
        ensure!(s.segregated == w.seg.unwrap_or(false), "{what}: section format segregated={} although {:?} was asked for", s.segregated, w.seg);
        ensure!(s.algo == w.comp.algo(), "{what}: compression algorithm {} instead of {}", s.algo, w.comp.algo());
        ensure!(s.output_size <= lim, "{what}: a section of {} bytes, above the requested {lim}", s.output_size);
    }
    let mut out = Vec::new();
    let ops: Vec<ROp> = secs.into_iter().flat_map(|s| s.ops).collect();
    spec::interpret_ops(&ops, dict, &mut out).map_err(|e| format!("{what}: does not apply: {e}"))?;
    ensure!(out == want, "{what}: gives the wrong output: {}", diff(want, &out));
    let a = apply(bytes, dict).map_err(|e| format!("{what}: {e}"))?;
    ensure!(a == want, "{what}: apply gives the wrong output: {}", diff(want, &a));
    Ok(ops)
}
/// Merge patches[hi-1], hi-2, ... down to lo; checks every intermediate summary and
/// returns the last one with the index of the version it applies to.
fn fold(h: &Hist, lo: usize, hi: usize, writes: &[Write], cx: &mut Cx) -> Result<(Vec<u8>, bool), String> {
    let want = &h.versions[hi];
    let mut m = m_new(&h.patches[hi - 1])?;
    let mut k = hi - 1;
    loop {
        let w = &writes[k % writes.len()];
        match m {
            M::Done(s) => {
                let what = format!("finished summary after merging {} patches", hi - k);
                let bytes = write_summary(s, w)?;
                // needs no dictionary any more
                check_written(&what, &bytes, w, None, want)?;
                cx.label("merge finished early");
                return Ok((bytes, true));
            }
            M::Open(mg) => {
                let what = format!("summary after merging {} patches", hi - k);
                let bytes = write_summary(cut(|| mg.clone().finish())?, w)?;
                let ops = check_written(&what, &bytes, w, Some(&h.versions[k]), want)?;
                let taken: Vec<ROp> = cut(|| mg.clone().finish().take_ops())?.iter().map(spec::from_reader_op).collect();
                ensure!(taken == ops, "{what}: the operations handed out differ from the ones written: {} and {}", head(&taken), head(&ops));
                cx.sub_evals += 1;
                if k == lo {
                    return Ok((bytes, false));
                }
                m = m_merge(mg, &h.patches[k - 1])?;
                k -= 1;
            }
        }
    }
}
fn size_guard(h: &Hist) -> bool {
    h.versions.iter().all(|v| v.len() < 3 << 20)
}
fn run_c10(c: &HistCase, cx: &mut Cx) -> Outcome {
    let h = history(c, 300_000)?;
    if !size_guard(&h) {
        cx.excluded += 1;
        return Ok(());
    }
    let n = h.patches.len();
    let (whole, done) = fold(&h, 0, n, &c.writes, cx)?;
    let _ = whole;
    // grouping does not matter: summarise two halves, then merge the summaries
    let m = 1 + c.split as usize % (n - 1).max(1);
    if m < n {
        let (late, late_done) = fold(&h, m, n, &c.writes, cx)?;
        if !late_done {
            let (early, _) = fold(&h, 0, m, &c.writes, cx)?;
            match m_new(&late)? {
                M::Done(_) => return Err("a written summary that still reads its dictionary is taken for finished".into()),
                M::Open(mg) => {
                    let w = &c.writes[0];
                    let (s, what, dict) = match m_merge(mg, &early)? {
                        M::Done(s) => (s, "merged summaries (finished)", None),
                        M::Open(mg) => (cut(|| mg.finish())?, "merged summaries", Some(&h.versions[0][..])),
                    };
                    check_written(what, &write_summary(s, w)?, w, dict, &h.versions[n])?;
                    cx.label("summaries merged again");
                }
            }
        }
    }
    let any_d = h.ops.iter().all(|o| o.iter().any(|o| matches!(o, ROp::CopyD { .. })));
    cx.nontrivial_if(any_d && n >= 2 && !h.versions[n].is_empty());
    cx.label_if(n >= 3, "three or more patches");
    cx.label_if(h.ops.iter().any(|o| o.len() > 65_535), "more than 65535 operations");
    cx.label_if(!done && n >= 10, "ten or more patches still open");
    cx.label_if(!done && n >= 3, "three or more patches still open");
    cx.label_if(h.ops.iter().any(|o| o.iter().any(|o| matches!(o, ROp::CopyO { .. }))), "output copies");
    cx.label_if(c.steps.iter().any(|s| matches!(s, Step::Enc(..))), "encoder-made");
    cx.label_if(h.versions.iter().any(|v| v.is_empty()), "an empty version");
    Ok(())
}
// ---- positions beyond 2^32, compared as ranges instead of bytes ----

/// A range of output bytes: literal bytes or a dictionary range.
#[derive(Clone, Debug, PartialEq)]
pub enum Rng {
    Lit(Vec<u8>),
    Dict(u64, u64),
}
impl Rng {
    pub fn len(&self) -> u64 {
        match self {
            Rng::Lit(b) => b.len() as u64,
            Rng::Dict(_, n) => *n,
        }
    }
}
pub fn push_rng(v: &mut Vec<Rng>, r: Rng) {
    if r.len() == 0 {
        return;
    }
    match (v.last_mut(), r) {
        (Some(Rng::Lit(a)), Rng::Lit(b)) => a.extend(b),
        (Some(Rng::Dict(a, n)), Rng::Dict(b, m)) if *a + *n == b => *n += m,
        (_, r) => v.push(r),
    }
}
pub fn sub_rng(v: &[(u64, Rng)], at: u64, n: u64, out: &mut Vec<Rng>) {
    let mut i = v.partition_point(|(p, r)| p + r.len() <= at);
    let (mut at, end) = (at, at + n);
    while at < end {
        let (p, r) = &v[i];
        let (o, k) = (at - p, (p + r.len()).min(end) - at);
        match r {
            Rng::Lit(b) => push_rng(out, Rng::Lit(b[o as usize..(o + k) as usize].to_vec())),
            Rng::Dict(a, _) => push_rng(out, Rng::Dict(a + o, k)),
        }
        at += k;
        i += 1;
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarMerge {
    /// address of the first patch's dictionary copies
    pub base: u64,
    pub step: u32,
    /// terminal operations: copies at 2^32 plus or minus (or anywhere), or literals
    pub term: Vec<(bool, i32, u32, u16)>,
    pub write: Write,
    pub marks: u16,
}
fn s_far() -> BoxedStrategy<FarMerge> {
    let t = (prop::bool::weighted(0.8), prop_oneof![2 => -2000i32..2000, 2 => -200_000i32..200_000, 1 => any::<i32>()], any::<u32>(), prop_oneof![2 => 1u16..50, 1 => 1u16..=65_535]);
    (prop_oneof![Just(0u64), 0u64..1 << 60], 0u32..200_000, pvec(t, 1..12), wr(prop_oneof![Just(Comp::None), Just(Comp::Zstd(1))].boxed()), 1u16..400)
        .prop_map(|(base, step, term, write, marks)| FarMerge { base, step, term, write, marks })
        .boxed()
}
/// Most terminal patches only copy from the literals around 2^32: those merges finish.
fn s_far_fin() -> BoxedStrategy<FarMerge> {
    let d = prop_oneof![12 => -1500i32..1500, 1 => -200_000i32..200_000, 1 => any::<i32>()];
    let t = (prop::bool::weighted(0.9), d, any::<u32>().prop_map(|a| if a % 16 == 0 { a } else { a | 1 }), prop_oneof![6 => 1u16..50, 2 => 1u16..500, 1 => 1u16..=65_535]);
    (prop_oneof![Just(0u64), 0u64..1 << 60], 0u32..200_000, pvec(t, 1..5), wr(Just(Comp::None).boxed()), 1u16..400)
        .prop_map(|(base, step, term, write, marks)| FarMerge { base, step, term, write, marks })
        .boxed()
}
fn far_sections(ops: &[ROp]) -> Vec<u8> {
    let mut groups: Vec<Vec<ROp>> = vec![vec![]];
    let mut acc = 0u64;
    for o in ops {
        if acc + o.len() as u64 > spec::MAX_SECTION {
            groups.push(vec![]);
            acc = 0;
        }
        acc += o.len() as u64;
        groups.last_mut().unwrap().push(o.clone());
    }
    let n = groups.len();
    let mut b = Vec::new();
    for (i, g) in groups.iter().enumerate() {
        spec::ser_section(&mut b, g, false, i + 1 < n, &WComp::None, &[]);
    }
    b
}
/// The first patch makes more than 4 GiB (from few operations per megabyte), the second
/// copies from around 2^32.
fn run_far(c: &FarMerge, cx: &mut Cx) -> Outcome {
    let edge = 1u64 << 32;
    let mut first: Vec<ROp> = Vec::new();
    let mut v1: Vec<(u64, Rng)> = Vec::new();
    let mut pos = 0u64;
    let mut i = 0u64;
    while pos < edge + 300_000 {
        let (o, r) = if i % c.marks as u64 == 7 || (pos + 66_000 > edge && pos < edge + 2000) {
            let b = build(&[Seg::Rand(i as u32, 97)]);
            (ROp::Add(b.clone()), Rng::Lit(b))
        } else {
            let a = c.base + i * c.step as u64;
            let n = 65_535 - (i % 3) as u16;
            (ROp::CopyD { addr: a, len: n }, Rng::Dict(a, n as u64))
        };
        let n = r.len();
        v1.push((pos, r));
        first.push(o);
        pos += n;
        i += 1;
    }
    let mut term: Vec<ROp> = Vec::new();
    let mut want: Vec<Rng> = Vec::new();
    for (copy, d, a, n) in &c.term {
        if *copy {
            let a = if *a % 4 == 0 { *a as u64 } else { (edge as i64 + *d as i64) as u64 }.min(pos - 1);
            let n = (*n as u64).min(pos - a);
            term.push(ROp::CopyD { addr: a, len: n as u16 });
            sub_rng(&v1, a, n, &mut want);
            cx.label_if(a > u32::MAX as u64, "copies from beyond 2^32");
            cx.nontrivial_if(a > u32::MAX as u64);
        } else {
            let b = build(&[Seg::Rand(*a, 1 + *n as u32 % 100)]);
            term.push(ROp::Add(b.clone()));
            push_rng(&mut want, Rng::Lit(b));
        }
    }
    let (p1, p2) = (far_sections(&first), far_sections(&term));
    let reads = want.iter().any(|r| matches!(r, Rng::Dict(..)));
    let s = match m_new(&p2)? {
        M::Done(s) => {
            ensure!(term.iter().all(|o| !matches!(o, ROp::CopyD { .. })), "a patch that reads its dictionary is reported as finished");
            s
        }
        M::Open(m) => {
            ensure!(term.iter().any(|o| matches!(o, ROp::CopyD { .. })), "a patch without dictionary copies is not reported as finished");
            match m_merge(m, &p1)? {
                M::Done(s) => {
                    ensure!(!reads, "the merge is reported as finished although it reads its dictionary");
                    cx.label("finishes with the merge");
                    s
                }
                M::Open(m) => {
                    ensure!(reads, "the merge stays open although it reads no dictionary byte");
                    cut(|| m.finish())?
                }
            }
        }
    };
    let bytes = write_summary(s, &c.write)?;
    let (secs, used) = spec::parse_patch(&bytes, &Default::default()).map_err(|e| format!("far summary: not valid SMDIFF: {e}"))?;
    ensure!(used == bytes.len(), "far summary: bytes after the last section");
    same_ranges("far summary", &ranges_of(secs.iter().flat_map(|s| &s.ops)), &want)
}
/// What a patch writes, as ranges.
pub fn ranges_of<'a>(ops: impl Iterator<Item = &'a ROp>) -> Vec<Rng> {
    let mut got: Vec<Rng> = Vec::new();
    let mut flat: Vec<(u64, Rng)> = Vec::new();
    let mut at = 0u64;
    for o in ops {
        let mut one = Vec::new();
        match o {
            ROp::Add(b) => one.push(Rng::Lit(b.clone())),
            ROp::Run { byte, len } => one.push(Rng::Lit(vec![*byte; *len as usize])),
            ROp::CopyD { addr, len } => one.push(Rng::Dict(*addr, *len as u64)),
            ROp::CopyO { addr, len } => sub_rng(&flat, *addr, *len as u64, &mut one),
        }
        for r in one {
            flat.push((at, r.clone()));
            at += r.len();
            push_rng(&mut got, r);
        }
    }
    got
}
pub fn same_ranges(what: &str, got: &[Rng], want: &[Rng]) -> Outcome {
    if let Some(i) = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)) {
        let show = |r: Option<&Rng>| match r {
            Some(Rng::Lit(b)) => format!("{} literal bytes", b.len()),
            Some(Rng::Dict(a, n)) => format!("{n} dictionary bytes from {a}"),
            None => "nothing".into(),
        };
        return Err(format!("{what}: piece {i} is {} instead of {}", show(got.get(i)), show(want.get(i))));
    }
    Ok(())
}
pub fn c10() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "at least two patches, each of which reads its predecessor's output, with a non-empty final version",
        assumptions: vec!["reference interpreter for what each patch and each summary means"],
        families: vec![
            Box::new(Family { name: "hand", quick: 400_000, thorough: 9_000_000, strat: s_hand, run: run_c10 }),
            Box::new(Family { name: "long", quick: 80_000, thorough: 2_000_000, strat: s_long, run: run_c10 }),
            Box::new(Family { name: "encoder", quick: 100_000, thorough: 2_000_000, strat: s_enc, run: run_c10 }),
            Box::new(Family { name: "wide", quick: 1_000, thorough: 40_000, strat: s_wide, run: run_c10 }),
            Box::new(Family { name: "many-ops", quick: 240, thorough: 8_000, strat: s_many_ops, run: run_c10 }),
            Box::new(Family { name: "far", quick: 2_000, thorough: 100_000, strat: s_far, run: run_far }),
            Box::new(Family { name: "many-sections", quick: 300, thorough: 15_000, strat: s_sec_hist, run: run_sec_hist }),
        ],
        floors: vec![("merge finished early", 1_000), ("summaries merged again", 10_000), ("three or more patches still open", 5_000), ("ten or more patches still open", 500), ("encoder-made", 3_000), ("copies from beyond 2^32", 30), ("more than 65535 operations", 100)],
    }
}

// ------------------------------------------------------------------ C11

/// Histories in which dictionary reads become rare, so that merges finish.
fn s_fin() -> BoxedStrategy<HistCase> {
    let l = move || prop_oneof![4 => 1u16..12, 1 => 1u16..80].boxed();
    let op = move |d: u32| {
        prop_oneof![
            2 => (any::<u16>(), l()).prop_map(|(s, n)| AOp::Add(s, n)),
            2 => (any::<u8>(), 1u8..63).prop_map(|(b, n)| AOp::Run(b, n)),
            3 => (any::<u32>(), l()).prop_map(|(a, n)| AOp::O(a, n)),
            1 => l().prop_map(AOp::OEnd),
            d => (any::<u32>(), l()).prop_map(|(a, n)| AOp::D(a, n)),
        ]
        .boxed()
    };
    let step = move |d: u32| pvec((pvec(op(d), 0..8), any::<bool>()).prop_map(|(ops, seg)| ASec { ops, seg, comp: WComp::None, forms: vec![] }), 1..3).prop_map(Step::Hand).boxed();
    (0u32..3, pvec(seg(len_small()), 0..3))
        .prop_flat_map(move |(d, v0)| (pvec(prop_oneof![2 => step(d), 1 => step(6)], 1..5), pvec(wr(Just(Comp::None).boxed()), 1..2), any::<u8>()).prop_map(move |(steps, writes, split)| HistCase { v0: v0.clone(), steps, writes, split }))
        .boxed()
}
fn compose(term: &[Prov], pred: &[Prov]) -> Vec<Prov> {
    term.iter()
        .map(|p| match p {
            Prov::Lit(b) => Prov::Lit(*b),
            Prov::Dict(a) => pred[*a as usize],
        })
        .collect()
}
fn run_c11(c: &HistCase, cx: &mut Cx) -> Outcome {
    let h = history(c, 200_000)?;
    if !size_guard(&h) {
        cx.excluded += 1;
        return Ok(());
    }
    let n = h.patches.len();
    let provs: Vec<Vec<Prov>> = h
        .ops
        .iter()
        .map(|o| {
            let mut v = Vec::new();
            prov_ops(o, &mut v);
            v
        })
        .collect();
    let mut want = provs[n - 1].clone();
    let mut m = m_new(&h.patches[n - 1])?;
    let mut k = n - 1;
    loop {
        let reads = want.iter().any(|p| matches!(p, Prov::Dict(_)));
        let (ops, done) = match m {
            M::Open(ref mg) => (cut(|| mg.clone().finish().take_ops())?, false),
            M::Done(s) => {
                let o = cut(|| s.take_ops())?;
                m = M::Done(match m_new(&h.patches[0])? {
                    M::Done(s) => s,
                    M::Open(mg) => mg.finish(),
                });
                (o, true)
            }
        };
        let ops: Vec<ROp> = ops.iter().map(spec::from_reader_op).collect();
        let what = format!("after {} patches", n - k);
        ensure!(done != reads, "{what}: the merge {} although the summary {}", if done { "reports that it is finished" } else { "stays open" }, if reads { "still reads its dictionary" } else { "reads no dictionary byte" });
        ensure!(ops.iter().all(|o| o.len() > 0), "{what}: an operation of length zero in the summary");
        let mut got = Vec::new();
        for o in &ops {
            if let ROp::CopyO { addr, len } = o {
                ensure!(addr + *len as u64 <= got.len() as u64, "{what}: the summary copies output it has not produced");
            }
            prov_ops(std::slice::from_ref(o), &mut got);
        }
        ensure!(got.len() == want.len(), "{what}: the summary makes {} bytes instead of {}", got.len(), want.len());
        if let Some(i) = got.iter().zip(&want).position(|(a, b)| a != b) {
            return Err(format!("{what}: output byte {i} comes from {:?} in the summary, but from {:?} in the history", got[i], want[i]));
        }
        cx.sub_evals += 1;
        cx.label_if(done && k < n - 1, "finishes after a merge");
        cx.label_if(done && k == n - 1 && !got.is_empty(), "finished from the start");
        cx.label_if(done && k == n - 1 && h.ops[k].iter().any(|o| matches!(o, ROp::CopyO { .. })), "only output copies");
        cx.label_if(!done && k == 0, "open to the end");
        cx.nontrivial_if(!got.is_empty() && k < n - 1);
        if done || k == 0 {
            return Ok(());
        }
        let M::Open(mg) = m else { unreachable!() };
        m = m_merge(mg, &h.patches[k - 1])?;
        want = compose(&want, &provs[k - 1]);
        k -= 1;
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoundCase {
    /// dictionary bytes of the terminal patch: this many times two to the power
    pub times: u8,
    pub pow: u8,
    /// lengths to build it from
    pub lens: Vec<u16>,
    /// literal and output-copy operations mixed in
    pub mix: Vec<(u16, u8, u16)>,
}
fn s_round() -> BoxedStrategy<RoundCase> {
    (1u8..4, prop_oneof![3 => Just(8u8), 4 => Just(16u8), 1 => 1u8..20, 1 => Just(24u8)], pvec(prop_oneof![1u16..300, 1u16..=65_535, Just(32_768u16), Just(65_535u16)], 1..5), pvec((any::<u16>(), any::<u8>(), 1u16..300), 0..6))
        .prop_map(|(times, pow, lens, mix)| RoundCase { times, pow, lens, mix })
        .boxed()
}
/// Dictionary copies (or output copies of them) that add up to a round number of bytes: a
/// merge that still reads its dictionary stays open.
fn run_round(c: &RoundCase, cx: &mut Cx) -> Outcome {
    let total = (c.times as u64) << c.pow;
    let mut ops: Vec<ROp> = Vec::new();
    let mut left = total;
    let mut i = 0u64;
    let mut out = 0u64;
    while left > 0 {
        // few operations for large totals
        let n = (c.lens[i as usize % c.lens.len()] as u64).max(total >> 8).min(left).min(65_535) as u16;
        ops.push(ROp::CopyD { addr: i * 1009 % 100_000, len: n });
        left -= n as u64;
        out += n as u64;
        i += 1;
    }
    for (at, k, n) in &c.mix {
        // before the copies, so that no address changes
        let o = if k % 2 == 0 { ROp::Add(build(&[Seg::Rand(*at as u32, *n as u32)])) } else { ROp::Run { byte: *k, len: (1 + n % 62) as u8 } };
        out += o.len() as u64;
        let i = *at as usize % (ops.len() + 1);
        ops.insert(i, o);
    }
    let _ = out;
    let p = far_sections(&ops);
    let m = m_new(&p)?;
    let M::Open(m) = m else { return Err(format!("the merge reports that it is finished although it reads {total} dictionary bytes")) };
    // the predecessor only has literals where the copies read: then it is finished
    let need = ops.iter().filter_map(|o| if let ROp::CopyD { addr, len } = o { Some(addr + *len as u64) } else { None }).max().unwrap();
    // the predecessor as one long dictionary copy of round size keeps it open, too
    let mut pred: Vec<ROp> = Vec::new();
    let mut k = 0;
    while k < need {
        pred.push(ROp::CopyD { addr: k, len: (need - k).min(65_535) as u16 });
        k += 65_535;
    }
    let M::Open(_) = m_merge(m.clone(), &far_sections(&pred))? else { return Err(format!("after a merge of identical versions: reported as finished although it reads {total} dictionary bytes")) };
    let mut lit: Vec<ROp> = Vec::new();
    let mut k = 0;
    while k < need {
        lit.push(ROp::Add(vec![3; (need - k).min(65_535) as usize]));
        k += 65_535;
    }
    let M::Done(s) = m_merge(m, &far_sections(&lit))? else { return Err("a merge stays open although no dictionary byte is left".into()) };
    ensure!(cut(|| s.take_ops())?.iter().all(|o| !matches!(o, smdiff_common::Op::Copy(c) if c.src == smdiff_common::CopySrc::Dict)), "a finished merge reads its dictionary");
    cx.label_if(c.pow == 16, "multiples of 65536 bytes");
    cx.label_if(c.pow == 8, "multiples of 256 bytes");
    cx.nontrivial_if(true);
    Ok(())
}
pub fn c11() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "a merge of at least two patches with a non-empty final version",
        assumptions: vec!["provenance model: each output byte is a literal or one dictionary byte"],
        families: vec![
            Box::new(Family { name: "finishing", quick: 960_000, thorough: 20_000_000, strat: s_fin, run: run_c11 }),
            Box::new(Family { name: "hand", quick: 480_000, thorough: 8_000_000, strat: s_hand, run: run_c11 }),
            Box::new(Family { name: "long", quick: 160_000, thorough: 3_000_000, strat: s_long, run: run_c11 }),
            Box::new(Family { name: "wide", quick: 1_200, thorough: 30_000, strat: s_wide, run: run_c11 }),
            Box::new(Family { name: "many-ops", quick: 160, thorough: 8_000, strat: s_many_ops, run: run_c11 }),
            Box::new(Family { name: "far", quick: 2_000, thorough: 80_000, strat: s_far_fin, run: run_far }),
            Box::new(Family { name: "round", quick: 18_000, thorough: 300_000, strat: s_round, run: run_round }),
        ],
        floors: vec![("finishes after a merge", 3_000), ("finished from the start", 3_000), ("only output copies", 1_500), ("open to the end", 5_000), ("finishes with the merge", 300), ("multiples of 65536 bytes", 300), ("multiples of 256 bytes", 300)],
    }
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SliceCase {
    pub src: Vec<Seg>,
    pub secs: Vec<ASec>,
    /// (start, length) of slices, reduced modulo the output
    pub cuts: Vec<(u32, u32)>,
    /// first output position of the list that is sliced
    pub base: u64,
}
fn s_slice() -> BoxedStrategy<SliceCase> {
    slice_with(op_len(), 14, pvec(seg(len_small()), 0..3).boxed(), prop_oneof![5 => Just(WComp::None), 1 => wcomp()].boxed())
}
fn s_slice_wide() -> BoxedStrategy<SliceCase> {
    slice_with(op_len_wide(), 10, pvec(seg(len_big()), 1..3).boxed(), Just(WComp::None).boxed())
}
fn s_slice_many() -> BoxedStrategy<SliceCase> {
    use super::patch::{fast_wcomp, many_ops};
    (pvec(seg(len_mid()), 1..3), pvec(many_ops(fast_wcomp()), 1..2), pvec((any::<u32>(), prop_oneof![2 => 1u32..40, 1 => any::<u32>()]), 1..6), prop_oneof![Just(0u64), 0u64..1 << 50])
        .prop_map(|(src, secs, cuts, base)| SliceCase { src, secs, cuts, base })
        .boxed()
}
fn slice_with(len: BoxedStrategy<u16>, n: usize, src: BoxedStrategy<Vec<Seg>>, c: BoxedStrategy<WComp>) -> BoxedStrategy<SliceCase> {
    (src, pvec(asec(len, 0..n, true, c), 1..4), pvec((any::<u32>(), prop_oneof![2 => 1u32..40, 1 => any::<u32>()]), 1..12), prop_oneof![2 => Just(0u64), 1 => 0u64..100_000, 1 => (1u64 << 32) - 40..(1u64 << 32) + 40, 1 => 0u64..1 << 50])
        .prop_map(|(src, secs, cuts, base)| SliceCase { src, secs, cuts, base })
        .boxed()
}
fn run_c12(c: &SliceCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let b = build_patch(&c.secs, &src, 1 << 20);
    let ops: Vec<ROp> = b.secs.concat();
    let total = b.output.len() as u64;
    let (ex, stats) = cut(|| smdiff_merger::extract_patch_instructions(Cursor::new(&b.bytes)))?.map_err(|e| format!("extraction fails on a valid patch: {e}"))?;
    // positions and operations
    let mut pos = 0u64;
    ensure!(ex.len() == ops.len(), "{} operations extracted, the patch has {}", ex.len(), ops.len());
    for (i, ((p, o), w)) in ex.iter().zip(&ops).enumerate() {
        ensure!(*p == pos, "operation {i} is said to write at {p}, it writes at {pos}");
        ensure!(spec::from_reader_op(o) == *w, "operation {i} extracted wrongly");
        pos += w.len() as u64;
    }
    // cutting operations: from the front, from the back, both
    if ops.len() < 10_000 {
        use smdiff_merger::MergeOp;
        for (i, (_, o)) in ex.iter().enumerate() {
            let n = ops[i].len() as u32;
            let x = c.cuts[i % c.cuts.len()].0;
            let front = x % n;
            let keep = 1 + (x >> 8) % (n - front);
            let mut a = o.clone();
            cut(|| a.skip(front))?;
            cut(|| a.trunc(n - front - keep))?;
            let mut b = o.clone();
            cut(|| b.trunc(n - front - keep))?;
            cut(|| b.skip(front))?;
            let (f, k) = (front as usize, keep as usize);
            let want = match &ops[i] {
                ROp::Add(b) => ROp::Add(b[f..f + k].to_vec()),
                ROp::Run { byte, .. } => ROp::Run { byte: *byte, len: keep as u8 },
                ROp::CopyD { addr, .. } => ROp::CopyD { addr: addr + front as u64, len: keep as u16 },
                ROp::CopyO { addr, .. } => ROp::CopyO { addr: addr + front as u64, len: keep as u16 },
            };
            ensure!(spec::from_reader_op(&a) == want && spec::from_reader_op(&b) == want, "bytes {front}+{keep} of operation {i} ({n} bytes) cut out wrongly");
        }
    }
    // statistics
    let mut st = smdiff_merger::Stats::new();
    for o in &ops {
        match o {
            ROp::Add(b) => {
                st.add_cnt += 1;
                st.add_bytes += b.len()
            }
            ROp::Run { len, .. } => {
                st.run_cnt += 1;
                st.run_bytes += *len as usize
            }
            ROp::CopyD { len, .. } => {
                st.copy_d_cnt += 1;
                st.copy_bytes += *len as usize
            }
            ROp::CopyO { len, .. } => {
                st.copy_o_cnt += 1;
                st.copy_bytes += *len as usize
            }
        }
    }
    st.output_size = total as usize;
    ensure!(stats == st, "statistics {stats:?} instead of {st:?}");
    ensure!(stats.has_copy() == ops.iter().any(|o| matches!(o, ROp::CopyD { .. } | ROp::CopyO { .. })), "has_copy is wrong");
    // resolving output copies
    let de = cut(|| smdiff_merger::deref_copy_o(ex.clone())).map_err(|p| format!("deref_copy_o: {p}"))?;
    let mut want = Vec::new();
    prov_ops(&ops, &mut want);
    let mut got = Vec::new();
    let mut pos = 0u64;
    for (p, o) in &de {
        let o = spec::from_reader_op(o);
        ensure!(!matches!(o, ROp::CopyO { .. }), "an output copy is left after resolving them");
        ensure!(*p == pos && o.len() > 0, "resolved operation at {p} of length {}, expected position {pos}", o.len());
        pos += o.len() as u64;
        prov_ops(&[o], &mut got);
    }
    ensure!(got == want, "resolving output copies changes where output bytes come from");
    // lookups and slices, on the resolved list and (shifted) on the original one
    let flat: Vec<SparseOp> = de.iter().map(|(p, o)| (p + c.base, o.clone())).collect();
    for (list, prov, base) in [(&flat, &got, c.base), (&ex, &want, 0)] {
        let bounds: Vec<u64> = list.iter().map(|(p, _)| *p).collect();
        for (a, n) in &c.cuts {
            let mut at = base + *a as u64 % (total + 3);
            if n % 3 == 0 && !bounds.is_empty() {
                // at or next to an operation's edge
                at = (bounds[*a as usize % bounds.len()] + (n / 3) as u64 % 3).saturating_sub(1);
            }
            let lin = list.iter().position(|(p, o)| (*p..*p + o.oal() as u64).contains(&at));
            let f = cut(|| smdiff_merger::find_controlling_op(list, at))?;
            ensure!(f == lin, "position {at} is written by operation {lin:?}, the lookup says {f:?}");
            let len = 1 + (*n as u64 / 3) % (total + 4);
            let s = cut(|| smdiff_merger::get_exact_slice(list, at, len as u32)).map_err(|p| format!("get_exact_slice({at}, {len}): {p}"))?;
            let inside = at >= base && at + len <= base + total;
            cx.sub_evals += 1;
            match s {
                None => ensure!(!inside, "no slice for {at}+{len}, which lies inside {base}+{total}"),
                Some(s) => {
                    ensure!(inside, "a slice for {at}+{len}, which lies outside {base}+{total}");
                    let mut pos = at;
                    let mut i = (at - base) as usize;
                    for (p, o) in &s {
                        let o = spec::from_reader_op(o);
                        ensure!(*p == pos && o.len() > 0, "slice piece at {p} of length {}, expected position {pos}", o.len());
                        pos += o.len() as u64;
                        // an output copy's bytes are where the copy points
                        let pv: Vec<Prov> = match &o {
                            ROp::CopyO { addr, len } => want[*addr as usize..*addr as usize + *len as usize].to_vec(),
                            _ => {
                                let mut v = Vec::new();
                                prov_ops(&[o.clone()], &mut v);
                                v
                            }
                        };
                        ensure!(i + pv.len() <= prov.len() && prov[i..i + pv.len()] == pv[..], "slice {at}+{len} holds the wrong bytes at {p}");
                        i += pv.len();
                    }
                    ensure!(pos == at + len, "slice {at}+{len} covers {} bytes", pos - at);
                    cx.label_if(s.len() > 2, "slice over several operations");
                    cx.label_if(s.len() == 1 && len > 1, "slice inside one operation");
                }
            }
        }
    }
    cx.label_if(ops.iter().any(|o| matches!(o, ROp::CopyO { .. })), "output copies");
    cx.label_if(c.base > u32::MAX as u64 && !ops.is_empty(), "positions above 2^32");
    cx.nontrivial_if(ops.len() > 1 && ops.iter().any(|o| matches!(o, ROp::CopyO { .. })));
    Ok(())
}
/// A patch whose output reaches beyond 2^32, for positions and totals.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarPatch {
    pub base: u64,
    pub step: u32,
    pub marks: u16,
    /// operations behind the first 4 GiB
    pub tail: Vec<FarOp>,
    pub cuts: Vec<(i32, u32)>,
    pub to: Vec<(bool, u32)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FarOp {
    Add(u16, u16),
    Run(u8, u8),
    D(u64, u16),
    /// address relative to 2^32
    Near(i32, u16),
    Any(u64, u16),
}
pub fn s_far_patch() -> BoxedStrategy<FarPatch> {
    let n = || prop_oneof![3 => 1u16..60, 1 => 1u16..=65_535];
    let op = prop_oneof![
        2 => (any::<u16>(), 1u16..300).prop_map(|(a, n)| FarOp::Add(a, n)),
        2 => (0u8..3, 1u8..=62).prop_map(|(a, n)| FarOp::Run(a, n)),
        1 => (0u64..1 << 62, n()).prop_map(|(a, n)| FarOp::D(a, n)),
        4 => (prop_oneof![-2000i32..2000, -100_000i32..100_000], n()).prop_map(|(a, n)| FarOp::Near(a, n)),
        1 => (any::<u64>(), n()).prop_map(|(a, n)| FarOp::Any(a, n)),
    ];
    (
        prop_oneof![Just(0u64), 0u64..1 << 60],
        0u32..200_000,
        1u16..400,
        pvec(op, 1..30),
        pvec((prop_oneof![-2000i32..2000, -200_000i32..200_000], 1u32..200_000), 1..8),
        pvec((any::<bool>(), segsize()), 1..3),
    )
        .prop_map(|(base, step, marks, tail, cuts, to)| FarPatch { base, step, marks, tail, cuts, to })
        .boxed()
}
pub fn far_patch_ops(c: &FarPatch) -> Vec<ROp> {
    let edge = 1u64 << 32;
    let mut ops: Vec<ROp> = Vec::new();
    let mut pos = 0u64;
    let mut i = 0u64;
    while pos < edge - 1000 {
        ops.push(if i % c.marks as u64 == 7 {
            ROp::Add(build(&[Seg::Rand(i as u32, 97)]))
        } else {
            ROp::CopyD { addr: c.base + i * c.step as u64, len: (65_535 - i % 3).min(edge - 1000 - pos) as u16 }
        });
        pos += ops.last().unwrap().len() as u64;
        i += 1;
    }
    for o in &c.tail {
        let o = match o {
            FarOp::Add(s, n) => ROp::Add(build(&[Seg::Rand(*s as u32, *n as u32)])),
            FarOp::Run(b, n) => ROp::Run { byte: *b, len: *n },
            FarOp::D(a, n) => ROp::CopyD { addr: *a, len: *n },
            FarOp::Near(a, n) => {
                let a = ((edge as i64 + *a as i64) as u64).min(pos - 1);
                ROp::CopyO { addr: a, len: (*n as u64).min(pos - a) as u16 }
            }
            FarOp::Any(a, n) => {
                let a = *a % pos;
                ROp::CopyO { addr: a, len: (*n as u64).min(pos - a) as u16 }
            }
        };
        pos += o.len() as u64;
        ops.push(o);
    }
    ops
}
fn run_far_extract(c: &FarPatch, cx: &mut Cx) -> Outcome {
    let ops = far_patch_ops(c);
    let p = far_sections(&ops);
    let (ex, stats) = cut(|| smdiff_merger::extract_patch_instructions(Cursor::new(&p)))?.map_err(|e| format!("extraction fails on a valid patch: {e}"))?;
    let mut st = smdiff_merger::Stats::new();
    let mut pos = 0u64;
    ensure!(ex.len() == ops.len(), "{} operations extracted, the patch has {}", ex.len(), ops.len());
    for (i, ((p, o), w)) in ex.iter().zip(&ops).enumerate() {
        ensure!(*p == pos, "operation {i} is said to write at {p}, it writes at {pos}");
        ensure!(spec::from_reader_op(o) == *w, "operation {i} extracted wrongly");
        let n = w.len() as usize;
        match w {
            ROp::Add(_) => {
                st.add_cnt += 1;
                st.add_bytes += n
            }
            ROp::Run { .. } => {
                st.run_cnt += 1;
                st.run_bytes += n
            }
            ROp::CopyD { .. } => {
                st.copy_d_cnt += 1;
                st.copy_bytes += n
            }
            ROp::CopyO { .. } => {
                st.copy_o_cnt += 1;
                st.copy_bytes += n
            }
        }
        pos += n as u64;
    }
    st.output_size = pos as usize;
    ensure!(stats == st, "statistics {stats:?} instead of {st:?}");
    let want = ranges_of(ops.iter());
    let de = cut(|| smdiff_merger::deref_copy_o(ex)).map_err(|p| format!("deref_copy_o: {p}"))?;
    let mut at = 0u64;
    let mut got = Vec::new();
    for (p, o) in &de {
        ensure!(*p == at && o.oal() > 0, "resolved operation at {p} of length {}, expected position {at}", o.oal());
        at += o.oal() as u64;
        push_rng(&mut got, match spec::from_reader_op(o) {
            ROp::Add(b) => Rng::Lit(b),
            ROp::Run { byte, len } => Rng::Lit(vec![byte; len as usize]),
            ROp::CopyD { addr, len } => Rng::Dict(addr, len as u64),
            ROp::CopyO { .. } => return Err("an output copy is left after resolving them".into()),
        });
    }
    same_ranges("resolving output copies", &got, &want)?;
    let mut flat = Vec::new();
    let mut at = 0;
    for r in &got {
        flat.push((at, r.clone()));
        at += r.len();
    }
    for (d, n) in &c.cuts {
        let a = ((1i64 << 32) + *d as i64) as u64;
        let i = cut(|| smdiff_merger::find_controlling_op(&de, a))?;
        let lin = de.partition_point(|(p, o)| p + o.oal() as u64 <= a);
        let lin = (lin < de.len()).then_some(lin);
        ensure!(i == lin, "position {a} is written by operation {lin:?}, the lookup says {i:?}");
        let s = cut(|| smdiff_merger::get_exact_slice(&de, a, *n)).map_err(|p| format!("get_exact_slice({a}, {n}): {p}"))?;
        ensure!(s.is_some() == (a + *n as u64 <= pos), "slice {a}+{n} of {pos} bytes: exists {}", s.is_some());
        if let Some(s) = s {
            let mut got = Vec::new();
            let mut q = a;
            for (p, o) in &s {
                ensure!(*p == q, "slice piece at {p}, expected position {q}");
                q += o.oal() as u64;
                push_rng(&mut got, match spec::from_reader_op(o) {
                    ROp::Add(b) => Rng::Lit(b),
                    ROp::Run { byte, len } => Rng::Lit(vec![byte; len as usize]),
                    ROp::CopyD { addr, len } => Rng::Dict(addr, len as u64),
                    ROp::CopyO { .. } => return Err("a slice of resolved operations holds an output copy".into()),
                });
            }
            let mut want = Vec::new();
            sub_rng(&flat, a, *n as u64, &mut want);
            same_ranges(&format!("slice {a}+{n}"), &got, &want)?;
            cx.label("slices around 2^32 of a real patch");
        }
    }
    cx.nontrivial_if(pos > 1 << 32);
    cx.label_if(pos > 1 << 32, "more than 4 GiB of output");
    Ok(())
}
fn run_far_transcode(c: &FarPatch, cx: &mut Cx) -> Outcome {
    let ops = far_patch_ops(c);
    let want = ranges_of(ops.iter());
    let mut p = far_sections(&ops);
    let mut n = ops.len();
    for (i, (seg, size)) in c.to.iter().enumerate() {
        let mut w = Vec::new();
        cut(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&p), &mut w, fmt(*seg), None, seg_usize(*size))).map_err(|p| format!("transcode {i}: {p}"))?.map_err(|e| format!("transcode {i} fails: {e}"))?;
        let (secs, used) = spec::parse_patch(&w, &Default::default()).map_err(|e| format!("transcoded patch {i}: not valid SMDIFF: {e}"))?;
        ensure!(used == w.len(), "transcoded patch {i}: bytes after the last section");
        let lim = (*size as u64).clamp(65_535, spec::MAX_SECTION);
        ensure!(secs.iter().all(|s| s.output_size <= lim && s.segregated == *seg), "transcoded patch {i}: a section above the requested size or of the wrong layout");
        let k: usize = secs.iter().map(|s| s.ops.len()).sum();
        ensure!(k <= n, "transcode {i} needs {k} operations for a patch of {n}");
        n = k;
        same_ranges(&format!("transcoded patch {i}"), &ranges_of(secs.iter().flat_map(|s| &s.ops)), &want)?;
        p = w;
    }
    cx.nontrivial_if(true);
    cx.label("more than 4 GiB of output");
    Ok(())
}
pub fn c12() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        rule: "a patch of at least two operations with an output copy",
        assumptions: vec!["slices of at least one byte"],
        families: vec![
            Box::new(Family { name: "small", quick: 1_600_000, thorough: 20_000_000, strat: s_slice, run: run_c12 }),
            Box::new(Family { name: "wide", quick: 30_000, thorough: 300_000, strat: s_slice_wide, run: run_c12 }),
            Box::new(Family { name: "many-ops", quick: 200, thorough: 8_000, strat: s_slice_many, run: run_c12 }),
            Box::new(Family { name: "far", quick: 1_500, thorough: 40_000, strat: s_far_patch, run: run_far_extract }),
            Box::new(Family { name: "many-sections", quick: 600, thorough: 30_000, strat: s_sections, run: run_slice_sections }),
        ],
        floors: vec![("slice over several operations", 10_000), ("slice inside one operation", 10_000), ("positions above 2^32", 3_000), ("slices around 2^32 of a real patch", 300)],
    }
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TIn {
    Hand(Vec<ASec>),
    Enc(Vec<TSeg>, Cfg),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TcCase {
    pub src: Vec<Seg>,
    pub patch: TIn,
    /// a chain of transcodings
    pub to: Vec<(bool, Comp, u32)>,
}
/// literals next to each other, which transcoding joins
fn lit_ops() -> BoxedStrategy<AOp> {
    prop_oneof![
        3 => (any::<u16>(), 1u16..6).prop_map(|(s, n)| AOp::Add(s, n)),
        4 => (0u8..2, 1u8..63).prop_map(|(b, n)| AOp::Run(b, n)),
        1 => (any::<u32>(), 1u16..70).prop_map(|(a, n)| AOp::O(a, n)),
        1 => (any::<u32>(), 1u16..70).prop_map(|(a, n)| AOp::D(a, n)),
    ]
    .boxed()
}
fn to() -> BoxedStrategy<Vec<(bool, Comp, u32)>> {
    pvec((any::<bool>(), comp(), segsize()), 1..4).boxed()
}
fn s_tc() -> BoxedStrategy<TcCase> {
    let p = prop_oneof![
        3 => pvec(asec(op_len(), 0..14, true, wcomp()), 1..4).prop_map(TIn::Hand),
        3 => pvec((pvec(lit_ops(), 0..25), any::<bool>(), wcomp(), forms()).prop_map(|(ops, seg, comp, forms)| ASec { ops, seg, comp, forms }), 1..4).prop_map(TIn::Hand),
        1 => (pvec(tseg(len_small()), 0..5), fast_cfg(comp())).prop_map(|(t, c)| TIn::Enc(t, c)),
    ];
    (pvec(seg(len_small()), 0..4), p, to()).prop_map(|(src, patch, to)| TcCase { src, patch, to }).boxed()
}
fn s_tc_wide() -> BoxedStrategy<TcCase> {
    let add = prop_oneof![prop::sample::select(vec![1u16, 2, 65_533, 65_534, 65_535, 32_767, 32_768]), 1u16..65_535];
    let p = pvec((pvec(prop_oneof![3 => (any::<u16>(), add).prop_map(|(s, n)| AOp::Add(s, n)), 2 => aop(op_len_wide(), true)], 0..8), any::<bool>(), prop_oneof![3 => Just(WComp::None), 1 => wcomp()], forms()).prop_map(|(ops, seg, comp, forms)| ASec { ops, seg, comp, forms }), 1..4).prop_map(TIn::Hand);
    (pvec(seg(len_big()), 0..3), p, to()).prop_map(|(src, patch, to)| TcCase { src, patch, to }).boxed()
}
fn s_tc_many() -> BoxedStrategy<TcCase> {
    use super::patch::{fast_wcomp, many_ops};
    (pvec(seg(len_mid()), 1..3), pvec(many_ops(fast_wcomp()), 1..3).prop_map(TIn::Hand), pvec((any::<bool>(), prop_oneof![3 => Just(Comp::None), 1 => Just(Comp::Zstd(1))], segsize()), 1..3)).prop_map(|(src, patch, to)| TcCase { src, patch, to }).boxed()
}
fn run_c13(c: &TcCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let (mut bytes, ops, output) = match &c.patch {
        TIn::Hand(s) => {
            let b = build_patch(s, &src, 4 << 20);
            (b.bytes, b.secs.concat(), b.output)
        }
        TIn::Enc(t, cfg) => {
            let out = build_target(&src, t);
            let p = encode_cfg(Some(&src), &out, cfg)?;
            let (s, _) = spec::parse_patch(&p, &Default::default()).map_err(|e| format!("the encoder's patch: {e}"))?;
            (p, s.into_iter().flat_map(|s| s.ops).collect(), out)
        }
    };
    if output.len() > 6 << 20 {
        cx.excluded += 1;
        return Ok(());
    }
    let mut want = Vec::new();
    prov_ops(&ops, &mut want);
    let mut n_ops = ops.len();
    for (i, (seg, comp, size)) in c.to.iter().enumerate() {
        let mut w = Vec::new();
        cut(|| smdiff_merger::transcoder::transcode(&mut Cursor::new(&bytes), &mut w, fmt(*seg), comp.to_sec(), seg_usize(*size))).map_err(|p| format!("transcode {i}: {p}"))?.map_err(|e| format!("transcode {i} fails: {e}"))?;
        let want_w = Write { max: Some(*size), seg: Some(*seg), comp: comp.clone() };
        let o = check_written(&format!("transcoded patch {i}"), &w, &want_w, Some(&src), &output)?;
        let mut got = Vec::new();
        prov_ops(&o, &mut got);
        ensure!(got == want, "transcode {i} changes which bytes come from the dictionary");
        ensure!(o.len() <= n_ops, "transcode {i} needs {} operations for a patch of {n_ops}", o.len());
        cx.label_if(o.len() < n_ops, "operations joined");
        n_ops = o.len();
        bytes = w;
        cx.sub_evals += 1;
    }
    cx.label_if(ops.is_empty(), "patch without operations");
    cx.label_if(ops.windows(2).any(|w| matches!(w, [ROp::Add(a), ROp::Add(b)] if a.len() + b.len() > 65_535)), "adjacent adds above the size limit");
    cx.label_if(ops.windows(2).any(|w| matches!(w, [ROp::Run{byte:a,len:x}, ROp::Run{byte:b,len:y}] if a == b && *x as u32 + *y as u32 > 62)), "adjacent runs above the size limit");
    cx.label_if(c.to.len() > 1, "several transcodings");
    cx.nontrivial_if(ops.len() > 1 && ops.iter().any(|o| matches!(o, ROp::CopyO { .. } | ROp::CopyD { .. })) && ops.iter().any(|o| matches!(o, ROp::Add(_) | ROp::Run { .. })));
    Ok(())
}
pub fn c13() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "a patch that mixes copies with literal operations",
        assumptions: vec!["reference parser and interpreter"],
        families: vec![
            Box::new(Family { name: "small", quick: 300_000, thorough: 4_000_000, strat: s_tc, run: run_c13 }),
            Box::new(Family { name: "wide", quick: 1_800, thorough: 50_000, strat: s_tc_wide, run: run_c13 }),
            Box::new(Family { name: "many-ops", quick: 160, thorough: 8_000, strat: s_tc_many, run: run_c13 }),
            Box::new(Family { name: "far", quick: 600, thorough: 20_000, strat: s_far_patch, run: run_far_transcode }),
            Box::new(Family { name: "many-sections", quick: 600, thorough: 30_000, strat: s_sections, run: run_tc_sections }),
        ],
        floors: vec![("operations joined", 5_000), ("patch without operations", 100), ("adjacent runs above the size limit", 1_000), ("adjacent adds above the size limit", 80)],
    }
}
