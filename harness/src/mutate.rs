//! Damage done to bytes.
use crate::engine::Src;

pub const WEIRD32: &[u32] = &[
    0,
    1,
    0xFF,
    0x7FFF_FFFF,
    0x8000_0000,
    0xFFFF_FFFF,
    0x0100_0000,
    0x00FF_FFFF,
    0xFFFF_0000,
];

/// One random change; `spots` are offsets where something important is.
/// Returns what was done.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>, spots: &[usize], resize: bool) -> String {
    if b.is_empty() {
        b.push(s.draw(256) as u8);
        return "one byte".into();
    }
    let len = b.len();
    let at = if !spots.is_empty() && s.chance(2, 3) {
        (*s.pick(spots) + s.usize(0, 6)).min(len - 1)
    } else {
        s.usize(0, len - 1)
    };
    let op = s.draw(if resize { 9 } else { 5 });
    match op {
        0 => {
            b[at] ^= 1 << s.draw(8);
            format!("bit flip @{at}")
        }
        1 => {
            b[at] = *s.pick(&[0u8, 0xFF, 1, 0x7F, 0x80]);
            format!("byte @{at}={}", b[at])
        }
        2 => {
            let w = s.pick(WEIRD32).to_le_bytes();
            let e = (at + 4).min(len);
            b[at..e].copy_from_slice(&w[..e - at]);
            format!("weird32 @{at}")
        }
        3 => {
            let k = s.usize(1, 40);
            let e = (at + k).min(len);
            let v = *s.pick(&[0u8, 0xFF, 0x55]);
            b[at..e].fill(v);
            format!("fill @{at}..{e}={v}")
        }
        4 => {
            let k = s.usize(1, 60);
            let e = (at + k).min(len);
            let mut f = s.fork();
            for x in &mut b[at..e] {
                *x = f.draw(256) as u8;
            }
            format!("noise @{at}..{e}")
        }
        5 => {
            let k = s.usize(1, 20);
            let mut f = s.fork();
            let ins = f.bytes(k);
            b.splice(at..at, ins);
            format!("insert {k} @{at}")
        }
        6 => {
            let e = (at + s.usize(1, 20)).min(len);
            b.drain(at..e);
            format!("delete {at}..{e}")
        }
        7 => {
            let e = (at + s.usize(1, 200)).min(len);
            let part = b[at..e].to_vec();
            let to = s.usize(0, len);
            b.splice(to..to, part);
            format!("copy {at}..{e} to {to}")
        }
        _ => {
            b.truncate(at);
            format!("truncate at {at}")
        }
    }
}
