//! Encoding of files beyond the default source window (64 MB) and beyond 4 GiB.
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec::{self, ROp};
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom};
use std::sync::Mutex;

/// One of these at a time: each needs up to 9 GB.
static ONE: Mutex<()> = Mutex::new(());

/// Zeros with something else in a few places.
#[derive(Clone)]
pub struct Sparse {
    pos: u64,
    len: u64,
    marks: Vec<(u64, Vec<u8>)>,
}
impl Sparse {
    fn fill(&self, at: u64, b: &mut [u8]) {
        b.fill(0);
        let end = at + b.len() as u64;
        for (p, m) in &self.marks {
            let (lo, hi) = ((*p).max(at), (p + m.len() as u64).min(end));
            if lo < hi {
                b[(lo - at) as usize..(hi - at) as usize].copy_from_slice(&m[(lo - p) as usize..(hi - p) as usize]);
            }
        }
    }
    fn zero(&self, lo: u64, hi: u64) -> bool {
        self.marks.iter().all(|(p, m)| p + m.len() as u64 <= lo || *p >= hi)
    }
    fn get(&self, at: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(at, &mut v);
        v
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        self.fill(self.pos, &mut b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, f: SeekFrom) -> std::io::Result<u64> {
        self.pos = match f {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => self.len.saturating_add_signed(d),
            SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
        };
        Ok(self.pos)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarEnc {
    pub seed: u16,
    /// the mark starts this far in front of 2^32
    pub before: u32,
    pub seg: bool,
    /// pieces of the mark that come (again) behind it: (start, length)
    pub again: Vec<(u16, u16)>,
    pub step: u16,
}
fn s_far() -> BoxedStrategy<FarEnc> {
    (any::<u16>(), 500u32..8000, any::<bool>(), pvec((0u16..36_000, 2100u16..4000), 4..9), 256u16..2048)
        .prop_map(|(seed, before, seg, again, step)| FarEnc { seed, before, seg, again, step })
        .boxed()
}
const EDGE: u64 = 1 << 32;
/// What each operation of the patch makes must be what the target has there.
fn agree(patch: &[u8], dict: Option<&Sparse>, trgt: &Sparse, cx: &mut Cx) -> Outcome {
    let (secs, used) = spec::parse_patch(patch, &Default::default()).map_err(|e| format!("patch is not valid SMDIFF: {e}"))?;
    ensure!(used == patch.len(), "{} bytes follow the terminal section", patch.len() - used);
    let mut pos = 0u64;
    for o in secs.iter().flat_map(|s| &s.ops) {
        let n = o.len() as u64;
        ensure!(pos + n <= trgt.len, "the patch makes more than the target's {} bytes", trgt.len);
        match o {
            ROp::Add(b) => ensure!(*b == trgt.get(pos, b.len()), "wrong literal at {pos}"),
            ROp::Run { byte, .. } => ensure!(trgt.get(pos, n as usize).iter().all(|b| b == byte), "wrong run at {pos}"),
            ROp::CopyD { addr, .. } | ROp::CopyO { addr, .. } => {
                let own = matches!(o, ROp::CopyO { .. });
                let (from, len) = if own { (trgt, pos) } else { (dict.ok_or("dictionary copy without a dictionary")?, dict.unwrap().len) };
                ensure!(addr.checked_add(n).is_some_and(|e| e <= len), "a copy at {pos} from {addr} (+{n}), where {len} bytes exist");
                if !(from.zero(*addr, addr + n) && trgt.zero(pos, pos + n)) {
                    ensure!(from.get(*addr, n as usize) == trgt.get(pos, n as usize), "the copy at {pos} from {addr} (+{n}) makes other bytes than the target has");
                }
                cx.label_if(*addr >= EDGE && own, "encoded output copy from beyond 4 GiB");
                cx.label_if(*addr >= EDGE && !own, "encoded dictionary copy from beyond 4 GiB");
            }
        }
        pos += n;
    }
    ensure!(pos == trgt.len, "the patch makes {pos} of {} bytes", trgt.len);
    Ok(())
}
/// Whether this machine has the memory for files of 4 GiB.
fn room() -> bool {
    let num = |f: &str| std::fs::read_to_string(f).ok().and_then(|s| s.trim().parse::<u64>().ok());
    let free = std::fs::read_to_string("/proc/meminfo").ok().and_then(|s| s.lines().find(|l| l.starts_with("MemAvailable:")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok())).unwrap_or(0) << 10;
    let cg = match (num("/sys/fs/cgroup/memory.max"), num("/sys/fs/cgroup/memory.current")) {
        (Some(max), Some(cur)) => max.saturating_sub(cur),
        _ => u64::MAX,
    };
    free.min(cg) > 14 << 30
}
fn enc(dict: Option<&Sparse>, trgt: &Sparse, cfg: &smdiff_encoder::EncoderConfig) -> Result<Vec<u8>, String> {
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _cap = crate::alloc::Roomy::new(20 << 30);
    let mut out = Vec::new();
    let (mut d, mut t) = (dict.cloned(), trgt.clone());
    cut(|| smdiff_encoder::encode(d.as_mut(), &mut t, &mut out, cfg)).map_err(|p| format!("encode: {p}"))?.map_err(|e| format!("encode: {e}"))?;
    Ok(out)
}
fn decoy(c: &FarEnc) -> (u64, Vec<u8>) {
    // what an address loses of its upper bits leads to other bytes
    (0, build(&[Seg::Rand(c.seed as u32 ^ 0x7777, 50_000)]))
}
fn format_of(seg: bool) -> smdiff_common::Format {
    if seg {
        smdiff_common::Format::Segregated
    } else {
        smdiff_common::Format::Interleaved
    }
}
/// A dictionary of more than 4 GiB, of which the target repeats what lies around 2^32.
fn run_far_dict(c: &FarEnc, cx: &mut Cx) -> Outcome {
    if !room() {
        cx.excluded += 1;
        cx.label("not enough memory for files of 4 GiB");
        return Ok(());
    }
    let mark = build(&[Seg::Rand(c.seed as u32, 40_000)]);
    let at = EDGE - c.before as u64;
    let dict = Sparse { pos: 0, len: at + 90_000, marks: vec![decoy(c), (at, mark.clone())] };
    let mut t = mark.clone();
    for (a, n) in &c.again {
        t.extend_from_slice(&mark[*a as usize..*a as usize + *n as usize]);
    }
    let trgt = Sparse { pos: 0, len: t.len() as u64, marks: vec![(0, t)] };
    let mut cfg = smdiff_encoder::EncoderConfig::default().no_match_target().set_match_src(smdiff_encoder::SrcMatcherConfig::new(c.step as usize, Some(dict.len as usize)));
    cfg.format = format_of(c.seg);
    let patch = enc(Some(&dict), &trgt, &cfg)?;
    agree(&patch, Some(&dict), &trgt, cx)?;
    let mut d = dict;
    let mut sink = std::io::Cursor::new(Vec::new());
    cut(|| smdiff_decoder::apply_patch(&mut std::io::Cursor::new(&patch), Some(&mut d), &mut sink)).map_err(|p| format!("apply_patch: {p}"))?.map_err(|e| format!("apply_patch: {e}"))?;
    ensure!(sink.into_inner() == trgt.marks[0].1, "applying the encoded patch does not reproduce the target");
    cx.nontrivial_if(true);
    Ok(())
}
/// A target of more than 4 GiB, mostly a run, that repeats what lies around 2^32.
fn run_far_trgt(c: &FarEnc, cx: &mut Cx) -> Outcome {
    if !room() {
        cx.excluded += 1;
        cx.label("not enough memory for files of 4 GiB");
        return Ok(());
    }
    let mark = build(&[Seg::Rand(c.seed as u32, 40_000)]);
    let at = EDGE - c.before as u64;
    let mut t = mark.clone();
    t.extend(std::iter::repeat(7).take(3000));
    for (a, n) in &c.again {
        t.extend_from_slice(&mark[*a as usize..*a as usize + *n as usize]);
        t.push(*n as u8);
    }
    let len = at + t.len() as u64 + 2000;
    let trgt = Sparse { pos: 0, len, marks: vec![decoy(c), (at, t)] };
    let mut cfg = smdiff_encoder::EncoderConfig::default().no_match_src().set_match_target(smdiff_encoder::TrgtMatcherConfig::comp_level(1));
    cfg.format = format_of(c.seg);
    let patch = enc(None, &trgt, &cfg)?;
    agree(&patch, None, &trgt, cx)?;
    cx.nontrivial_if(true);
    Ok(())
}
pub fn far_dict() -> Box<dyn Fam> {
    Box::new(Family { name: "far-dictionary", quick: 1, thorough: 24, strat: s_far, run: run_far_dict })
}
pub fn far_trgt() -> Box<dyn Fam> {
    Box::new(Family { name: "far-target", quick: 1, thorough: 16, strat: s_far, run: run_far_trgt })
}
