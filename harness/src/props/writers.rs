//! Every way of writing a stream, for properties about what is written.
use super::util::*;
use crate::engine::*;
use laz::{LasZipCompressor, LazCompressor, ParLasZipCompressor};
use std::io::{Seek, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Writer {
    Seq,
    SeqTrait,
    Buffer,
    Par,
    ParTrait,
    ParBuffer,
}

pub fn pick_writer(s: &mut Src, d: &Data) -> Writer {
    use Writer::*;
    if d.spec.variable() {
        *s.pick(&[Seq, SeqTrait, Par])
    } else {
        *s.pick(&[Seq, SeqTrait, Buffer, Par, ParTrait, ParBuffer])
    }
}

/// Writes `d` at the current position of `dst`; calls are split at random.
pub fn write_stream<W: Write + Seek + Send + Sync>(
    s: &mut Src,
    w: Writer,
    dst: &mut W,
    d: &Data,
) -> CaseResult {
    let rs = d.rs();
    let vlr = d.spec.vlr();
    let name = format!("{w:?}");
    match w {
        Writer::Buffer => e2f(&name, laz::compress_buffer(dst, &d.points, vlr)),
        Writer::ParBuffer => e2f(&name, laz::par_compress_buffer(dst, &d.points, &vlr)),
        Writer::Seq | Writer::SeqTrait => {
            let mut c = e2f(&name, LasZipCompressor::new(dst, vlr))?;
            if s.chance(1, 4) {
                e2f(&name, c.reserve_offset_to_chunk_table())?;
            }
            if d.spec.variable() {
                let ch = d.chunk_slices();
                for (i, x) in ch.iter().enumerate() {
                    if s.chance(1, 3) {
                        e2f(&name, c.compress_chunks([x]))?;
                        continue;
                    }
                    let mut at = 0;
                    for g in gen_groups(s, x.len() / rs, true) {
                        let b = &x[at * rs..(at + g) * rs];
                        at += g;
                        if w == Writer::Seq {
                            e2f(&name, c.compress_many(b))?;
                        } else {
                            e2f(&name, LazCompressor::compress_many(&mut c, b))?;
                        }
                    }
                    if i + 1 < ch.len() || s.chance(1, 3) {
                        e2f(&name, c.finish_current_chunk())?;
                    }
                }
            } else {
                let mut at = 0;
                for g in gen_groups(s, d.n, true) {
                    let b = &d.points[at * rs..(at + g) * rs];
                    at += g;
                    if w == Writer::Seq {
                        e2f(&name, c.compress_many(b))?;
                    } else {
                        for p in b.chunks(rs) {
                            e2f(&name, LazCompressor::compress_one(&mut c, p))?;
                        }
                    }
                }
            }
            if w == Writer::Seq {
                e2f(&name, c.done())
            } else {
                e2f(&name, LazCompressor::done(&mut c))
            }
        }
        Writer::Par | Writer::ParTrait => {
            let mut c = e2f(&name, ParLasZipCompressor::new(dst, vlr))?;
            if s.chance(1, 4) {
                e2f(&name, c.reserve_offset_to_chunk_table())?;
            }
            if d.spec.variable() {
                let ch = d.chunk_slices();
                let mut i = 0;
                while i < ch.len() {
                    let k = s.usize(1, ch.len() - i);
                    e2f(&name, c.compress_chunks(&ch[i..i + k]))?;
                    i += k;
                }
            } else {
                let mut at = 0;
                for g in gen_groups(s, d.n, true) {
                    let b = &d.points[at * rs..(at + g) * rs];
                    at += g;
                    if w == Writer::Par {
                        e2f(&name, c.compress_many(b))?;
                    } else {
                        for p in b.chunks(rs) {
                            e2f(&name, LazCompressor::compress_one(&mut c, p))?;
                        }
                    }
                }
            }
            if w == Writer::Par {
                e2f(&name, c.done())
            } else {
                e2f(&name, LazCompressor::done(&mut c))
            }
        }
    }
}
