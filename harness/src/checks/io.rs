//! C09: behaviour over awkward and failing streams; the stream doubles used elsewhere.
use super::*;
use crate::ensure;
use crate::runner::*;
use crate::spec;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};

/// An in-memory file whose reads and writes are cut into the given chunk sizes
/// (cycled); a size of 0 stands for an `Interrupted` error. With `fail_at = Some(k)`
/// the k-th call (reads, writes, seeks and flushes counted together) fails.
pub struct Chunky {
    pub data: Vec<u8>,
    pub pos: u64,
    chunks: Vec<u32>,
    i: usize,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub failed: bool,
    /// keep failing once failed
    sticky: bool,
    kind: u8,
    full: bool,
}
/// A sink that takes nothing any more.
const FULL: u8 = 36;
/// Failures of every kind.
const KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::WriteZero,
];
impl Chunky {
    pub fn new(data: Vec<u8>, chunks: &[u32]) -> Self {
        Chunky { data, pos: 0, chunks: chunks.to_vec(), i: 0, calls: 0, fail_at: None, failed: false, sticky: true, kind: 0, full: false }
    }
    fn tick(&mut self) -> io::Result<()> {
        self.calls += 1;
        if let Some(k) = self.fail_at {
            let now = self.calls == k || (self.sticky && self.calls > k);
            self.full = now && self.kind == FULL;
            if now && !self.full {
                self.failed = true;
                let k = KINDS[self.kind as usize % KINDS.len()];
                return Err(if self.kind as usize >= 2 * KINDS.len() { io::Error::from(k) } else if self.kind as usize >= KINDS.len() { io::Error::from_raw_os_error(5) } else { io::Error::new(k, "injected failure") });
            }
        }
        Ok(())
    }
    fn step(&mut self) -> io::Result<usize> {
        if self.chunks.is_empty() {
            return Ok(usize::MAX);
        }
        let c = self.chunks[self.i % self.chunks.len()];
        self.i += 1;
        if c == 0 {
            // never twice in a row
            if self.i >= 2 && self.chunks[(self.i - 2) % self.chunks.len()] == 0 {
                return Ok(1);
            }
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        Ok(c as usize)
    }
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        let c = self.step()?;
        let p = self.pos.min(self.data.len() as u64) as usize;
        let n = c.min(buf.len()).min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Chunky {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.tick()?;
        if self.full && !buf.is_empty() {
            self.failed = true;
            return Ok(0);
        }
        let c = self.step()?;
        let n = c.min(buf.len());
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick()
    }
}
impl Seek for Chunky {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let v = match s {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if v < 0 || v > u64::MAX as i128 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = v as u64;
        Ok(self.pos)
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IoCase {
    pub src: Vec<Seg>,
    pub secs: Vec<ASec>,
    /// encoder input, for the encode side
    pub files: Files,
    pub cfg: Cfg,
    pub chunks: Vec<u32>,
    /// which operation
    pub op: u8,
    /// which stream fails, and how far through its calls (per mille); None: none fails
    pub fail: Option<(u8, u16, bool)>,
    #[serde(default)]
    pub kind: u8,
}
fn chunks() -> BoxedStrategy<Vec<u32>> {
    pvec(prop_oneof![4 => 1u32..8, 2 => 1u32..200, 1 => Just(0u32), 1 => 200u32..9000], 1..6).boxed()
}
fn s_io() -> BoxedStrategy<IoCase> {
    (
        pvec(seg(len_small()), 0..4),
        pvec(asec(op_len(), 0..10, true, wcomp()), 1..4),
        files_small(),
        cfg(),
        chunks(),
        0u8..7,
    )
        .prop_map(|(src, secs, files, cfg, chunks, op)| IoCase { src, secs, files, cfg, chunks, op, fail: None, kind: 0 })
        .boxed()
}
/// The same with streams of hundreds of kilobytes and larger transfers.
fn s_io_big() -> BoxedStrategy<IoCase> {
    let chunks = pvec(prop_oneof![1 => 300u32..9000, 3 => 9000u32..70_000, 2 => prop::sample::select(vec![4096u32, 8192, 16_384, 32_768, 65_535, 65_536, 131_072]), 1 => 70_000u32..1_000_000, 1 => Just(u32::MAX), 2 => Just(0u32)], 1..6);
    (
        pvec(seg(len_big()), 1..4),
        pvec(asec(op_len_wide(), 0..14, true, super::patch::fast_wcomp()), 1..4),
        files_big(),
        super::merge::fast_cfg(prop_oneof![3 => Just(Comp::None), 1 => (1i32..4).prop_map(Comp::Zstd), 1 => (0u8..4, 16u8..=24).prop_map(|(q, w)| Comp::Brotli(q, w, 0, 0, false))].boxed()),
        chunks,
        0u8..7,
    )
        .prop_map(|(src, secs, files, cfg, mut chunks, op)| {
            if chunks.iter().all(|c| *c == 0) {
                chunks.push(50_000)
            }
            IoCase { src, secs, files, cfg, chunks, op, fail: None, kind: 0 }
        })
        .boxed()
}
fn failing(s: BoxedStrategy<IoCase>) -> BoxedStrategy<IoCase> {
    (s, 0u8..3, 0u16..1000, any::<bool>(), prop_oneof![2 => Just(0u8), 6 => 0u8..36, 1 => Just(FULL)])
        .prop_map(|(mut c, which, at, sticky, kind)| {
            c.kind = kind;
            c.fail = Some((which, at, sticky));
            c
        })
        .boxed()
}
fn s_fail_big() -> BoxedStrategy<IoCase> {
    failing(s_io_big())
}
fn s_fail() -> BoxedStrategy<IoCase> {
    failing(s_io())
}

/// The streams of one call: patch or target input, dictionary or second input, sink.
struct Streams {
    a: Chunky,
    b: Chunky,
    w: Chunky,
}
struct Inputs {
    src: Option<Vec<u8>>,
    patch: Vec<u8>,
    esrc: Option<Vec<u8>>,
    etrgt: Vec<u8>,
}
const OPS: [&str; 7] = ["apply", "encode", "transcode", "extract", "merge", "read sections", "write sections"];

fn exec(c: &IoCase, inp: &Inputs, st: &mut Streams) -> Result<io::Result<Vec<u8>>, String> {
    let cfg = c.cfg.build();
    match c.op {
        0 => cut(|| smdiff_decoder::apply_patch(&mut st.a, Some(&mut st.b), &mut st.w)).map(|r| r.map(|_| st.w.data.clone())),
        1 => {
            let has = inp.esrc.is_some();
            cut(|| smdiff_encoder::encode(if has { Some(&mut st.b) } else { None }, &mut st.a, &mut st.w, &cfg)).map(|r| r.map(|_| st.w.data.clone()))
        }
        2 => cut(|| {
            smdiff_merger::transcoder::transcode(
                &mut st.a,
                &mut st.w,
                if c.cfg.seg { smdiff_common::Format::Segregated } else { smdiff_common::Format::Interleaved },
                c.cfg.comp.to_sec(),
                seg_usize(c.cfg.segsize),
            )
        })
        .map(|r| r.map(|_| st.w.data.clone())),
        3 => cut(|| smdiff_merger::extract_patch_instructions(&mut st.a)).map(|r| r.map(|(v, s)| format!("{v:?} {s:?}").into_bytes())),
        4 => cut(|| -> io::Result<Vec<u8>> {
            match smdiff_merger::Merger::new(&mut st.a)? {
                Err(s) => s.write(&mut st.w, None, None, None)?,
                Ok(m) => match m.merge(&mut st.b)? {
                    Ok(m) => m.finish().write(&mut st.w, None, None, None)?,
                    Err(s) => s.write(&mut st.w, None, None, None)?,
                },
            }
            Ok(st.w.data.clone())
        }),
        5 => cut(|| -> io::Result<Vec<u8>> {
            let mut out = Vec::new();
            let it = smdiff_decoder::reader::SectionIterator::new(&mut st.a);
            for s in it {
                let (ops, h) = s?;
                out.extend_from_slice(format!("{h:?}{ops:?}").as_bytes());
            }
            Ok(out)
        }),
        _ => cut(|| -> io::Result<Vec<u8>> {
            let (secs, _) = spec::parse_patch(&inp.patch, &Default::default()).expect("generated patch");
            let mut buf = Vec::new();
            let n = secs.len();
            for (i, s) in secs.iter().enumerate() {
                let ops: Vec<_> = s.ops.iter().map(spec::to_reader_op).collect();
                let adds: usize = s.ops.iter().map(|o| if let spec::ROp::Add(b) = o { b.len() } else { 0 }).sum();
                let mut h = smdiff_common::SectionHeader::new(ops.len() as u32, adds as u32, s.output_size as u32).set_more_sections(i + 1 < n);
                if c.cfg.seg {
                    h = h.set_format(smdiff_common::Format::Segregated)
                }
                smdiff_encoder::writer::section_writer(&c.cfg.comp.to_sec(), h, &mut st.w, &ops, &mut buf)?;
            }
            Ok(st.w.data.clone())
        }),
    }
    .map_err(|p| format!("{}: {p}", OPS[c.op as usize]))
}

fn run_io(c: &IoCase, cx: &mut Cx) -> Outcome {
    let src = build(&c.src);
    let built = build_patch(&c.secs, &src, 1 << 20);
    let (esrc, etrgt) = c.files.expand();
    let mut inp = Inputs { src: Some(src.clone()), patch: built.bytes.clone(), esrc, etrgt };
    // for merge, the predecessor rebuilds the dictionary from nothing
    let pred = {
        let mut p = Vec::new();
        let mut ops = Vec::new();
        for ch in src.chunks(60_000) {
            ops.push(spec::ROp::Add(ch.to_vec()));
        }
        spec::ser_section(&mut p, &ops, c.cfg.seg, false, &spec::WComp::None, &[]);
        p
    };
    let mk = |inp: &Inputs, chunks: &[u32]| {
        let (a, b) = match c.op {
            1 => (inp.etrgt.clone(), inp.esrc.clone().unwrap_or_default()),
            4 => (inp.patch.clone(), pred.clone()),
            _ => (inp.patch.clone(), inp.src.clone().unwrap()),
        };
        Streams { a: Chunky::new(a, chunks), b: Chunky::new(b, chunks), w: Chunky::new(Vec::new(), chunks) }
    };
    // reference run over plain streams
    let mut st = mk(&inp, &[]);
    let want = exec(c, &inp, &mut st)?.map_err(|e| format!("{}: fails on plain streams: {e}", OPS[c.op as usize]))?;
    if c.op == 0 {
        ensure!(want == built.output, "apply: wrong output on plain streams: {}", diff(&built.output, &want));
    }
    cx.label(OPS[c.op as usize]);
    // short transfers and interruptions change nothing
    let mut st = mk(&inp, &c.chunks);
    let got = exec(c, &inp, &mut st)?;
    let name = OPS[c.op as usize];
    match got {
        Err(e) => return Err(format!("{name}: short reads/writes make it fail: {e}")),
        Ok(g) => ensure!(g == want, "{name}: short reads/writes change the result: {}", diff(&want, &g)),
    }
    if c.op == 0 {
        ensure!(st.b.data == src, "apply modified the dictionary");
    }
    let calls = [st.a.calls, st.b.calls, st.w.calls];
    cx.label_if(c.chunks.contains(&0), "interrupted calls");
    cx.label_if(st.a.data.len() > 65_536 && c.chunks.contains(&0), "interruptions in an input of more than 64 KiB");
    if let Some((which, at, sticky)) = c.fail {
        let which = which as usize % 3;
        if calls[which] > 0 {
            let k = 1 + at as u64 * calls[which] / 1000;
            let mut st = mk(&inp, &c.chunks);
            let t = match which {
                0 => &mut st.a,
                1 => &mut st.b,
                _ => &mut st.w,
            };
            t.fail_at = Some(k);
            t.sticky = sticky;
            t.kind = c.kind;
            let r = exec(c, &inp, &mut st)?;
            let failed = [st.a.failed, st.b.failed, st.w.failed][which];
            let stream = ["input", "second input", "sink"][which];
            cx.label_if(failed, "a stream failed");
            cx.label_if(failed && which == 2, "the sink failed");
            cx.label_if(failed && c.kind == FULL, "a sink that became full");
            cx.label_if(failed && c.kind > 0, "a failure of another kind");
            if let Ok(g) = r {
                ensure!(g == want, "{name}: call {k} on the {stream} failed, yet it reports success with a wrong result: {}", diff(&want, &g));
                ensure!(!(failed && sticky && which == 2), "{name}: the sink failed from call {k} on, yet it reports success");
            }
            cx.nontrivial_if(failed);
        }
    } else {
        cx.nontrivial_if(want.len() > 4);
    }
    inp.patch.clear();
    Ok(())
}
pub fn c09() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "the operation produced more than a trivial result over short transfers, or the injected failure was reached",
        assumptions: vec![
            "streams obey the Read/Write/Seek contracts apart from short transfers, Interrupted and injected errors",
            "a failure is reported as an error; a success after a transient failure is accepted only with the complete correct result",
        ],
        families: vec![
            Box::new(Family { name: "short", quick: 450_000, thorough: 6_000_000, strat: s_io, run: run_io }),
            Box::new(Family { name: "failing", quick: 600_000, thorough: 8_000_000, strat: s_fail, run: run_io }),
            Box::new(Family { name: "short-big", quick: 40_000, thorough: 900_000, strat: s_io_big, run: run_io }),
            Box::new(Family { name: "failing-big", quick: 40_000, thorough: 900_000, strat: s_fail_big, run: run_io }),
        ],
        floors: vec![("a stream failed", 10_000), ("the sink failed", 2_000), ("a failure of another kind", 5_000), ("a sink that became full", 1_000), ("interrupted calls", 5_000), ("interruptions in an input of more than 64 KiB", 500)],
    }
}
