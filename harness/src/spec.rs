//! An independent implementation of the SMDIFF format written from spec.md: parser,
//! interpreter and serializer. It shares no code with the smdiff crates; compressed
//! payloads go through zstd (C library) and brotlic's low-level decoder.
use brotlic::{decode::DecoderInfo, encode::BrotliOperation, BrotliDecoder, BrotliEncoderOptions};
use serde::{Deserialize, Serialize};

pub const MAX_SECTION: u64 = (1 << 24) - 1;
pub const MAX_OP: usize = 65535;
pub const MAX_RUN: usize = 62;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ROp {
    Add(Vec<u8>),
    Run { byte: u8, len: u8 },
    CopyD { addr: u64, len: u16 },
    CopyO { addr: u64, len: u16 },
}
impl ROp {
    pub fn len(&self) -> usize {
        match self {
            ROp::Add(b) => b.len(),
            ROp::Run { len, .. } => *len as usize,
            ROp::CopyD { len, .. } | ROp::CopyO { len, .. } => *len as usize,
        }
    }
}

/// How an operation size was written: 0 in the op byte, 1 via u8+62, 2 via u16.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SizeForm {
    Small,
    U8,
    U16,
}

#[derive(Clone, Debug)]
pub struct RSection {
    pub algo: u8,
    pub version: u8,
    pub segregated: bool,
    pub more: bool,
    pub num_ops: u64,
    pub num_add: u64,
    /// true output size (already including the add bytes for segregated sections)
    pub output_size: u64,
    pub ops: Vec<ROp>,
    pub size_forms: Vec<SizeForm>,
    /// header start / payload start / section end in the patch
    pub body: usize,
    pub end: usize,
    /// uncompressed payload
    pub payload: Vec<u8>,
    /// sections of the nested patch when algo == 1
    pub nested: Vec<RSection>,
    pub lenient: Vec<&'static str>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PErr {
    /// ran out of bytes
    Truncated(&'static str),
    /// an address difference that leaves the 64-bit range
    Address,
    /// payload bytes no operation uses
    Leftover(usize),
    Invalid(String),
}
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            PErr::Truncated(s) => write!(f, "truncated in {s}"),
            PErr::Address => write!(f, "copy address out of range"),
            PErr::Leftover(n) => write!(f, "{n} bytes left over in a compressed section"),
            PErr::Invalid(s) => write!(f, "{s}"),
        }
    }
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn u8(&mut self, w: &'static str) -> Result<u8, PErr> {
        let v = *self.b.get(self.p).ok_or(PErr::Truncated(w))?;
        self.p += 1;
        Ok(v)
    }
    pub fn take(&mut self, n: usize, w: &'static str) -> Result<&'a [u8], PErr> {
        if self.b.len() - self.p < n {
            return Err(PErr::Truncated(w));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    /// (value, minimal encoding?)
    pub fn uvar(&mut self, w: &'static str) -> Result<(u64, bool), PErr> {
        let mut v: u128 = 0;
        let mut n = 0u32;
        loop {
            let b = self.u8(w)?;
            if n >= 10 {
                return Err(PErr::Invalid("varint longer than 10 bytes".into()));
            }
            v |= ((b & 0x7f) as u128) << (7 * n);
            n += 1;
            if b & 0x80 == 0 {
                if v > u64::MAX as u128 {
                    return Err(PErr::Invalid("varint above 64 bits".into()));
                }
                return Ok((v as u64, !(n > 1 && b == 0)));
            }
        }
    }
}

pub fn unzig(z: u64) -> i128 {
    if z & 1 == 0 {
        (z / 2) as i128
    } else {
        -((z / 2) as i128) - 1
    }
}
pub fn zig(n: i128) -> u64 {
    if n >= 0 {
        (n as u128 * 2) as u64
    } else {
        (((-(n + 1)) as u128) * 2 + 1) as u64
    }
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub max_ops: u64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { max_ops: 20_000_000 }
    }
}

/// Decompress one complete zstd frame at the start of `b`: (content, bytes used).
pub fn unzstd(b: &[u8]) -> Result<(Vec<u8>, usize), PErr> {
    let n = zstd_safe::find_frame_compressed_size(b).map_err(|_| PErr::Invalid("bad zstd frame".into()))?;
    let mut out: Vec<u8> = Vec::new();
    let mut d = zstd_safe::DCtx::create();
    let mut inb = zstd_safe::InBuffer::around(&b[..n]);
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let mut ob = zstd_safe::OutBuffer::around(&mut buf[..]);
        let r = d.decompress_stream(&mut ob, &mut inb).map_err(|_| PErr::Invalid("bad zstd data".into()))?;
        let w = ob.pos();
        out.extend_from_slice(&buf[..w]);
        if out.len() > 1 << 28 {
            return Err(PErr::Invalid("zstd content too large".into()));
        }
        if r == 0 {
            break;
        }
        if w == 0 && inb.pos == n {
            return Err(PErr::Truncated("zstd frame"));
        }
    }
    Ok((out, n))
}
/// Decompress one complete brotli stream at the start of `b`: (content, bytes used).
pub fn unbrotli(b: &[u8]) -> Result<(Vec<u8>, usize), PErr> {
    let mut d = BrotliDecoder::new();
    let mut out = Vec::new();
    let mut p = 0;
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let r = d.decompress(&b[p..], &mut buf).map_err(|_| PErr::Invalid("bad brotli data".into()))?;
        p += r.bytes_read;
        out.extend_from_slice(&buf[..r.bytes_written]);
        if out.len() > 1 << 28 {
            return Err(PErr::Invalid("brotli content too large".into()));
        }
        match r.info {
            DecoderInfo::Finished => return Ok((out, p)),
            DecoderInfo::NeedsMoreOutput => {}
            DecoderInfo::NeedsMoreInput => return Err(PErr::Truncated("brotli stream")),
        }
    }
}

fn parse_header(c: &mut Cur) -> Result<RSection, PErr> {
    let ctl = c.u8("control byte")?;
    let mut lenient = Vec::new();
    let segregated = ctl & 0x40 != 0;
    let (num_ops, m) = c.uvar("number of operations")?;
    if !m {
        lenient.push("overlong varint")
    }
    let num_add = if segregated {
        let (v, m) = c.uvar("number of add bytes")?;
        if !m {
            lenient.push("overlong varint")
        }
        v
    } else {
        0
    };
    let (sz, m) = c.uvar("output size")?;
    if !m {
        lenient.push("overlong varint")
    }
    let output_size = sz.checked_add(num_add).ok_or_else(|| PErr::Invalid("output size overflows".into()))?;
    if ctl & 7 != 0 {
        lenient.push("version bits")
    }
    Ok(RSection {
        algo: (ctl >> 3) & 7,
        version: ctl & 7,
        segregated,
        more: ctl & 0x80 != 0,
        num_ops,
        num_add,
        output_size,
        ops: Vec::new(),
        size_forms: Vec::new(),
        body: c.p,
        end: c.p,
        payload: Vec::new(),
        nested: Vec::new(),
        lenient,
    })
}

fn parse_ops(c: &mut Cur, s: &mut RSection, lim: &Limits) -> Result<(), PErr> {
    if s.output_size > MAX_SECTION {
        return Err(PErr::Invalid(format!("section output size {} above the limit", s.output_size)));
    }
    let (mut da, mut oa) = (0u64, 0u64);
    let mut total = 0u64;
    let mut adds: Vec<(usize, usize)> = Vec::new();
    let mut add_total = 0u64;
    for _ in 0..s.num_ops {
        if s.ops.len() as u64 >= lim.max_ops {
            return Err(PErr::Invalid("too many operations".into()));
        }
        let b = c.u8("op byte")?;
        let ty = b >> 6;
        let sv = b & 63;
        let (size, form) = match sv {
            0 | 63 if ty == 3 => return Err(PErr::Invalid("run with a size indicator".into())),
            0 => {
                let t = c.take(2, "u16 size")?;
                (u16::from_le_bytes([t[0], t[1]]) as usize, SizeForm::U16)
            }
            63 => (c.u8("u8 size")? as usize + 62, SizeForm::U8),
            n => (n as usize, SizeForm::Small),
        };
        if size == 0 {
            return Err(PErr::Invalid("zero-length operation".into()));
        }
        total += size as u64;
        if total > s.output_size {
            return Err(PErr::Invalid(format!("operations produce more than the declared {} bytes", s.output_size)));
        }
        s.size_forms.push(form);
        match ty {
            3 => {
                let byte = c.u8("run byte")?;
                s.ops.push(ROp::Run { byte, len: size as u8 });
            }
            2 => {
                add_total += size as u64;
                if s.segregated {
                    adds.push((s.ops.len(), size));
                    s.ops.push(ROp::Add(Vec::new()));
                } else {
                    s.ops.push(ROp::Add(c.take(size, "add bytes")?.to_vec()));
                }
            }
            _ => {
                let (z, m) = c.uvar("copy address")?;
                if !m {
                    s.lenient.push("overlong varint")
                }
                let d = unzig(z);
                let base = if ty == 0 { &mut da } else { &mut oa };
                let a = *base as i128 + d;
                if a < 0 || a > u64::MAX as i128 {
                    return Err(PErr::Address);
                }
                *base = a as u64;
                s.ops.push(if ty == 0 { ROp::CopyD { addr: a as u64, len: size as u16 } } else { ROp::CopyO { addr: a as u64, len: size as u16 } });
            }
        }
    }
    if total != s.output_size {
        return Err(PErr::Invalid(format!("declared output size {} but operations produce {}", s.output_size, total)));
    }
    for (i, n) in adds {
        s.ops[i] = ROp::Add(c.take(n, "segregated add bytes")?.to_vec());
    }
    if s.segregated && add_total != s.num_add {
        s.lenient.push("num_add_bytes");
    }
    Ok(())
}

/// Parse a whole patch: sections and the number of bytes consumed.
pub fn parse_patch(b: &[u8], lim: &Limits) -> Result<(Vec<RSection>, usize), PErr> {
    let mut c = Cur::new(b);
    let mut out = Vec::new();
    loop {
        let s = parse_section(&mut c, lim)?;
        let more = s.more;
        out.push(s);
        if !more {
            return Ok((out, c.p));
        }
    }
}

/// As `parse_patch`, but also says what was read before an error.
pub struct Parsed {
    pub secs: Vec<RSection>,
    pub used: usize,
    pub err: Option<PErr>,
    /// a section with a compression algorithm was met (the failing one included)
    pub compressed: bool,
}
pub fn parse_all(b: &[u8], lim: &Limits) -> Parsed {
    let mut c = Cur::new(b);
    let mut out = Parsed { secs: Vec::new(), used: 0, err: None, compressed: false };
    loop {
        if let Some(ctl) = b.get(c.p) {
            out.compressed |= ctl & 0x38 != 0;
        }
        match parse_section(&mut c, lim) {
            Ok(s) => {
                let more = s.more;
                out.secs.push(s);
                if !more {
                    out.used = c.p;
                    return out;
                }
            }
            Err(e) => {
                out.used = c.p;
                out.err = Some(e);
                return out;
            }
        }
    }
}

pub fn parse_section(c: &mut Cur, lim: &Limits) -> Result<RSection, PErr> {
    let mut s = parse_header(c)?;
    match s.algo {
        0 => {
            parse_ops(c, &mut s, lim)?;
            s.payload = c.b[s.body..c.p].to_vec();
        }
        1..=3 => {
            let (payload, used) = match s.algo {
                1 => {
                    // a nested patch without a dictionary, whose own sections are uncompressed
                    let (n, used) = parse_nested(&c.b[c.p..], lim)?;
                    let out = interpret(&n, None)?;
                    s.nested = n;
                    (out, used)
                }
                2 => unzstd(&c.b[c.p..])?,
                _ => unbrotli(&c.b[c.p..])?,
            };
            let mut ic = Cur::new(&payload);
            parse_ops(&mut ic, &mut s, lim)?;
            if ic.p != payload.len() {
                return Err(PErr::Leftover(payload.len() - ic.p));
            }
            c.p += used;
            s.payload = payload;
        }
        a => return Err(PErr::Invalid(format!("unspecified compression algorithm {a}"))),
    }
    s.end = c.p;
    Ok(s)
}
fn parse_nested(b: &[u8], lim: &Limits) -> Result<(Vec<RSection>, usize), PErr> {
    let mut c = Cur::new(b);
    let mut out = Vec::new();
    loop {
        let mut s = parse_header(&mut c)?;
        if s.algo != 0 {
            return Err(PErr::Invalid("compressed section inside smdiff compression".into()));
        }
        parse_ops(&mut c, &mut s, lim)?;
        s.end = c.p;
        let more = s.more;
        out.push(s);
        if !more {
            return Ok((out, c.p));
        }
    }
}

/// Apply sections to a dictionary per the spec.
pub fn interpret(secs: &[RSection], src: Option<&[u8]>) -> Result<Vec<u8>, PErr> {
    let mut out = Vec::new();
    for s in secs {
        interpret_ops(&s.ops, src, &mut out)?;
    }
    Ok(out)
}
pub fn interpret_ops(ops: &[ROp], src: Option<&[u8]>, out: &mut Vec<u8>) -> Result<(), PErr> {
    for o in ops {
        match o {
            ROp::Add(b) => out.extend_from_slice(b),
            ROp::Run { byte, len } => out.extend(std::iter::repeat(*byte).take(*len as usize)),
            ROp::CopyD { addr, len } => {
                let s = src.ok_or_else(|| PErr::Invalid("dictionary copy without a dictionary".into()))?;
                let e = addr.checked_add(*len as u64).ok_or_else(|| PErr::Invalid("copy past the dictionary".into()))?;
                if e > s.len() as u64 {
                    return Err(PErr::Invalid("copy past the dictionary".into()));
                }
                out.extend_from_slice(&s[*addr as usize..e as usize]);
            }
            ROp::CopyO { addr, len } => {
                let e = addr.checked_add(*len as u64).ok_or_else(|| PErr::Invalid("copy past the output".into()))?;
                if e > out.len() as u64 {
                    return Err(PErr::Invalid("copy past the output produced so far".into()));
                }
                out.extend_from_within(*addr as usize..e as usize);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- serializer

pub fn put_uvar(out: &mut Vec<u8>, mut n: u64) {
    while n >= 0x80 {
        out.push((n as u8 & 0x7f) | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

/// Payload of a section. `forms[i]` picks a legal size form for op i (cycled); an
/// illegal choice falls back to a legal one.
pub fn ser_ops(ops: &[ROp], segregated: bool, forms: &[SizeForm]) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut da, mut oa) = (0u64, 0u64);
    let mut tail = Vec::new();
    for (i, o) in ops.iter().enumerate() {
        let n = o.len();
        let ty = match o {
            ROp::CopyD { .. } => 0u8,
            ROp::CopyO { .. } => 1,
            ROp::Add(_) => 2,
            ROp::Run { .. } => 3,
        } << 6;
        let want = if forms.is_empty() { SizeForm::Small } else { forms[i % forms.len()] };
        let form = if ty == 0xC0 {
            SizeForm::Small
        } else {
            match want {
                SizeForm::Small if (1..=62).contains(&n) => SizeForm::Small,
                SizeForm::U16 => SizeForm::U16,
                // u8 form covers 62..=317
                _ if (62..=317).contains(&n) => SizeForm::U8,
                _ if (1..=62).contains(&n) => SizeForm::Small,
                _ => SizeForm::U16,
            }
        };
        match form {
            SizeForm::Small => out.push(ty | n as u8),
            SizeForm::U8 => {
                out.push(ty | 63);
                out.push((n - 62) as u8)
            }
            SizeForm::U16 => {
                out.push(ty);
                out.extend_from_slice(&(n as u16).to_le_bytes())
            }
        }
        match o {
            ROp::Add(b) => {
                if segregated {
                    tail.extend_from_slice(b)
                } else {
                    out.extend_from_slice(b)
                }
            }
            ROp::Run { byte, .. } => out.push(*byte),
            ROp::CopyD { addr, .. } => {
                put_uvar(&mut out, zig(*addr as i128 - da as i128));
                da = *addr;
            }
            ROp::CopyO { addr, .. } => {
                put_uvar(&mut out, zig(*addr as i128 - oa as i128));
                oa = *addr;
            }
        }
    }
    out.extend_from_slice(&tail);
    out
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WComp {
    None,
    /// nested smdiff patch made of literal adds and copies of repeated chunks
    Smdiff {
        chunk: u32,
        /// start a new nested section after this many operations (0: only at the size limit)
        #[serde(default)]
        every: u32,
        #[serde(default)]
        seg: bool,
    },
    Zstd { level: i32, checksum: bool, content_size: bool, flush_every: u32 },
    Brotli { quality: u8, window: u8, flush_every: u32 },
}
impl WComp {
    pub fn algo(&self) -> u8 {
        match self {
            WComp::None => 0,
            WComp::Smdiff { .. } => 1,
            WComp::Zstd { .. } => 2,
            WComp::Brotli { .. } => 3,
        }
    }
}

pub fn compress(payload: &[u8], c: &WComp) -> Vec<u8> {
    match c {
        WComp::None => payload.to_vec(),
        WComp::Smdiff { chunk, every, seg } => {
            let chunk = (*chunk).clamp(1, MAX_OP as u32) as usize;
            let mut ops: Vec<ROp> = Vec::new();
            let mut seen: std::collections::HashMap<&[u8], u64> = Default::default();
            let mut p = 0;
            while p < payload.len() {
                let e = (p + chunk).min(payload.len());
                let s = &payload[p..e];
                if let Some(a) = seen.get(s) {
                    ops.push(ROp::CopyO { addr: *a, len: s.len() as u16 });
                } else {
                    seen.insert(s, p as u64);
                    if s.len() <= MAX_RUN && s.iter().all(|b| *b == s[0]) {
                        ops.push(ROp::Run { byte: s[0], len: s.len() as u8 });
                    } else {
                        ops.push(ROp::Add(s.to_vec()));
                    }
                }
                p = e;
            }
            let mut out = Vec::new();
            // split in sections of at most MAX_SECTION
            let mut groups: Vec<Vec<ROp>> = vec![Vec::new()];
            let mut acc = 0u64;
            for o in ops {
                if acc + o.len() as u64 > MAX_SECTION || (*every > 0 && groups.last().unwrap().len() >= *every as usize) {
                    groups.push(Vec::new());
                    acc = 0;
                }
                acc += o.len() as u64;
                groups.last_mut().unwrap().push(o);
            }
            let n = groups.len();
            for (i, g) in groups.iter().enumerate() {
                ser_section(&mut out, g, *seg, i + 1 < n, &WComp::None, &[]);
            }
            out
        }
        WComp::Zstd { level, checksum, content_size, flush_every } => {
            use zstd_safe::{CCtx, CParameter, InBuffer, OutBuffer};
            let mut cctx = CCtx::create();
            cctx.set_parameter(CParameter::CompressionLevel(*level)).unwrap();
            cctx.set_parameter(CParameter::ChecksumFlag(*checksum)).unwrap();
            cctx.set_parameter(CParameter::ContentSizeFlag(*content_size)).unwrap();
            if *content_size {
                cctx.set_pledged_src_size(Some(payload.len() as u64)).unwrap();
            }
            let mut out = Vec::new();
            let mut buf = vec![0u8; 1 << 17];
            let step = if *flush_every == 0 { usize::MAX } else { *flush_every as usize };
            let mut p = 0;
            while p < payload.len() {
                let e = p.saturating_add(step).min(payload.len());
                let mut ib = InBuffer::around(&payload[p..e]);
                while ib.pos < e - p {
                    let mut ob = OutBuffer::around(&mut buf[..]);
                    cctx.compress_stream(&mut ob, &mut ib).unwrap();
                    let w = ob.pos();
                    out.extend_from_slice(&buf[..w]);
                }
                if *flush_every != 0 {
                    loop {
                        let mut ob = OutBuffer::around(&mut buf[..]);
                        let r = cctx.flush_stream(&mut ob).unwrap();
                        let w = ob.pos();
                        out.extend_from_slice(&buf[..w]);
                        if r == 0 {
                            break;
                        }
                    }
                }
                p = e;
            }
            loop {
                let mut ob = OutBuffer::around(&mut buf[..]);
                let r = cctx.end_stream(&mut ob).unwrap();
                let w = ob.pos();
                out.extend_from_slice(&buf[..w]);
                if r == 0 {
                    break;
                }
            }
            out
        }
        WComp::Brotli { quality, window, flush_every } => {
            let mut enc = BrotliEncoderOptions::new()
                .quality(brotlic::Quality::new((*quality).min(11)).unwrap())
                .window_size(brotlic::WindowSize::new((*window).clamp(10, 24)).unwrap())
                .build()
                .unwrap();
            let mut out = Vec::new();
            let mut buf = vec![0u8; 1 << 17];
            let step = if *flush_every == 0 { usize::MAX } else { *flush_every as usize };
            let mut p = 0;
            let mut drain = |enc: &mut brotlic::BrotliEncoder, mut inp: &[u8], op: BrotliOperation, out: &mut Vec<u8>| loop {
                let r = enc.compress(inp, &mut buf, op).unwrap();
                inp = &inp[r.bytes_read..];
                out.extend_from_slice(&buf[..r.bytes_written]);
                if inp.is_empty() && !enc.has_output() {
                    break;
                }
            };
            while p < payload.len() {
                let e = p.saturating_add(step).min(payload.len());
                drain(&mut enc, &payload[p..e], if *flush_every == 0 { BrotliOperation::Process } else { BrotliOperation::Flush }, &mut out);
                p = e;
            }
            drain(&mut enc, &[], BrotliOperation::Finish, &mut out);
            assert!(enc.is_finished());
            out
        }
    }
}

pub fn ser_section(out: &mut Vec<u8>, ops: &[ROp], segregated: bool, more: bool, comp: &WComp, forms: &[SizeForm]) {
    let mut ctl = comp.algo() << 3;
    if segregated {
        ctl |= 0x40
    }
    if more {
        ctl |= 0x80
    }
    out.push(ctl);
    put_uvar(out, ops.len() as u64);
    let total: u64 = ops.iter().map(|o| o.len() as u64).sum();
    let adds: u64 = ops.iter().map(|o| if let ROp::Add(b) = o { b.len() as u64 } else { 0 }).sum();
    if segregated {
        put_uvar(out, adds);
        put_uvar(out, total - adds);
    } else {
        put_uvar(out, total);
    }
    let p = ser_ops(ops, segregated, forms);
    out.extend_from_slice(&compress(&p, comp));
}

/// Conversions from the crates' operation types (data only).
pub fn from_reader_op(o: &smdiff_reader::Op) -> ROp {
    match o {
        smdiff_common::Op::Add(a) => ROp::Add(a.bytes.clone()),
        smdiff_common::Op::Run(r) => ROp::Run { byte: r.byte, len: r.len },
        smdiff_common::Op::Copy(c) => match c.src {
            smdiff_common::CopySrc::Dict => ROp::CopyD { addr: c.addr, len: c.len },
            smdiff_common::CopySrc::Output => ROp::CopyO { addr: c.addr, len: c.len },
        },
    }
}
pub fn to_reader_op(o: &ROp) -> smdiff_reader::Op {
    match o {
        ROp::Add(b) => smdiff_common::Op::Add(smdiff_reader::Add::new(b.clone())),
        ROp::Run { byte, len } => smdiff_common::Op::Run(smdiff_common::Run { byte: *byte, len: *len }),
        ROp::CopyD { addr, len } => smdiff_common::Op::Copy(smdiff_common::Copy { src: smdiff_common::CopySrc::Dict, addr: *addr, len: *len }),
        ROp::CopyO { addr, len } => smdiff_common::Op::Copy(smdiff_common::Copy { src: smdiff_common::CopySrc::Output, addr: *addr, len: *len }),
    }
}
