pub mod codec;
pub mod enc;
pub mod giant;
pub mod io;
pub mod malformed;
pub mod mem;
pub mod merge;
pub mod patch;
pub mod vcd;

use crate::gen::*;
use crate::runner::{cut, Check};
use std::io::Cursor;

pub fn all() -> Vec<fn() -> Check> {
    vec![
        enc::c01, enc::c02, codec::c03, codec::c04, codec::c05, patch::c06, malformed::c07, patch::c08, io::c09,
        merge::c10, merge::c11, merge::c12, merge::c13, vcd::c14, enc::c15, enc::c16, codec::c17, patch::c18, mem::c19,
    ]
}

/// encode() on in-memory files; Err(msg) for a panic or an io::Error.
pub fn encode(src: Option<&[u8]>, trgt: &[u8], cfg: &smdiff_encoder::EncoderConfig) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut s = src.map(|s| Cursor::new(s.to_vec()));
    let mut t = Cursor::new(trgt.to_vec());
    let r = cut(|| smdiff_encoder::encode(s.as_mut(), &mut t, &mut out, cfg)).map_err(|p| format!("encode: {p}"))?;
    r.map_err(|e| format!("encode returned an error: {e}"))?;
    Ok(out)
}
pub fn encode_cfg(src: Option<&[u8]>, trgt: &[u8], cfg: &Cfg) -> Result<Vec<u8>, String> {
    encode(src, trgt, &cfg.build())
}
/// apply_patch on in-memory data: Err = panic, Ok(Err) = io::Error.
pub fn apply_raw(patch: &[u8], src: Option<&[u8]>) -> Result<std::io::Result<Vec<u8>>, String> {
    let mut p = Cursor::new(patch);
    let mut s = src.map(Cursor::new);
    let mut sink = Cursor::new(Vec::new());
    let r = cut(|| smdiff_decoder::apply_patch(&mut p, s.as_mut(), &mut sink)).map_err(|p| format!("apply_patch: {p}"))?;
    Ok(r.map(|_| sink.into_inner()))
}
pub fn apply(patch: &[u8], src: Option<&[u8]>) -> Result<Vec<u8>, String> {
    apply_raw(patch, src)?.map_err(|e| format!("apply_patch returned an error: {e}"))
}

/// Where each output byte comes from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prov {
    Lit(u8),
    Dict(u64),
}
pub fn prov_ops(ops: &[crate::spec::ROp], out: &mut Vec<Prov>) {
    use crate::spec::ROp;
    for o in ops {
        match o {
            ROp::Add(b) => out.extend(b.iter().map(|b| Prov::Lit(*b))),
            ROp::Run { byte, len } => out.extend(std::iter::repeat(Prov::Lit(*byte)).take(*len as usize)),
            ROp::CopyD { addr, len } => out.extend((0..*len as u64).map(|i| Prov::Dict(addr + i))),
            ROp::CopyO { addr, len } => out.extend_from_within(*addr as usize..*addr as usize + *len as usize),
        }
    }
}
