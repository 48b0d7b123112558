//! C11 Entropy coder and integer coder are exact inverses.
use super::Prop;
use crate::engine::*;
use crate::refc;
use laz::compressors::{IntegerCompressor, IntegerCompressorBuilder};
use laz::decoders::ArithmeticDecoder;
use laz::decompressors::{IntegerDecompressor, IntegerDecompressorBuilder};
use laz::encoders::ArithmeticEncoder;
use laz::models::{ArithmeticBitModel, ArithmeticModel, ArithmeticModelBuilder};
use std::io::{Cursor, Read, Write};

pub static PROP: Prop = Prop {
    id: "C11",
    name: "entropy coder and integer coder are exact inverses",
    f: case,
    quick: 400_000,
    thorough: 4_000_000,
    rule: "at least 20 coding operations of at least two kinds",
    assumptions: &[
        "range settings of the integer coder up to 2^30 (beyond, folding leaves 32 bits), at least 2",
        "integers with a range or less than 32 bits are within it, predictions within one fold of it",
        "initial symbol tables whose counts sum to at most the number of symbols",
    ],
};

#[derive(Clone, Debug)]
struct SymSpec {
    n: u32,
    table: Vec<u32>,
    enc_flag: bool,
    dec_flag: bool,
    builder: bool,
}
#[derive(Clone, Debug)]
struct IntSpec {
    bits: u32,
    ctx: u32,
    high: u32,
    range: u32,
    builder: bool,
}
impl IntSpec {
    /// number of values, or none for all of i32
    fn span(&self) -> Option<i64> {
        if self.range != 0 {
            Some(self.range as i64)
        } else if self.bits > 0 && self.bits < 32 {
            Some(1i64 << self.bits)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Sym(u8, u32),
    Bit(u8, u32),
    RawBit(u32),
    Bits(u32, u32),
    Byte(u8),
    Short(u16),
    Int(u32),
    Int64(u64),
    Pred(u8, i32, i32, u32), // coder, pred, real, context
}
impl Op {
    fn kind(&self) -> usize {
        match self {
            Op::Sym(..) => 0,
            Op::Bit(..) => 1,
            Op::RawBit(..) => 2,
            Op::Bits(..) => 3,
            Op::Byte(..) => 4,
            Op::Short(..) => 5,
            Op::Int(..) => 6,
            Op::Int64(..) => 7,
            Op::Pred(..) => 8,
        }
    }
    fn name(&self) -> &'static str {
        [
            "symbol", "bit", "raw bit", "raw bits", "byte", "short", "int", "int64", "predicted",
        ][self.kind()]
    }
}

#[derive(Clone, Debug, Default)]
struct Set {
    syms: Vec<SymSpec>,
    ints: Vec<IntSpec>,
    bits: usize,
}

fn gen_set(s: &mut Src) -> Set {
    let mut set = Set::default();
    for _ in 0..s.usize(1, 4) {
        let n = match s.weighted(&[3, 3, 2, 2, 2, 1]) {
            0 => s.range(2, 16),
            1 => s.range(16, 34),
            2 => *s.pick(&[64u64, 128, 256, 512]),
            3 => s.range(35, 700),
            4 => 256,
            _ => *s.pick(&[2048u64, 2047, 1024, 1025, 513, 2]),
        } as u32;
        let table = if s.chance(1, 6) {
            // counts (some 0) that sum to n, the last is not 0
            let mut t = vec![0u32; n as usize];
            t[n as usize - 1] = 1;
            let mut left = n - 1;
            while left > 0 {
                let k = s.usize(0, n as usize - 1);
                let x = s.range(1, left as u64) as u32;
                t[k] += x;
                left -= x;
            }
            t
        } else {
            vec![]
        };
        let builder = table.is_empty() && s.chance(1, 2);
        set.syms.push(SymSpec {
            n,
            table,
            enc_flag: s.chance(1, 2),
            dec_flag: s.chance(1, 3),
            builder,
        });
    }
    for _ in 0..s.usize(1, 3) {
        let range = match s.draw(8) {
            0 => s.range(2, 300),
            1 => 1 << s.range(1, 30),
            2 => s.range(2, 1 << 30),
            3 => (1 << s.range(2, 30)) - 1,
            _ => 0,
        } as u32;
        let bits = match s.draw(6) {
            0 => 32,
            1 => 16,
            2 => 8,
            3 => *s.pick(&[31u64, 30, 1, 2, 9, 33, 0]),
            _ => s.range(1, 32),
        } as u32;
        let builder = range == 0 && s.chance(1, 2);
        set.ints.push(IntSpec {
            bits,
            ctx: s.range(1, 5) as u32,
            high: if builder || s.chance(1, 2) { 8 } else { s.range(1, 11) as u32 },
            range,
            builder,
        });
    }
    set.bits = s.usize(1, 3);
    set
}

fn width(s: &mut Src) -> u32 {
    match s.draw(4) {
        0 => *s.pick(&[1u64, 8, 16, 19, 20, 21, 31, 32]) as u32,
        _ => s.range(1, 32) as u32,
    }
}

/// a value biased to extremes
fn val(s: &mut Src, max: u64) -> u64 {
    match s.draw(8) {
        0 => 0,
        1 => max,
        2 => s.range(0, max.min(3)),
        3 => max - s.range(0, max.min(3)),
        4 => {
            if max == 0 {
                0
            } else {
                let b = s.draw(64 - max.leading_zeros() as u64);
                (1u64 << b).min(max)
            }
        }
        _ => {
            if max == u64::MAX {
                s.u64()
            } else {
                s.range(0, max)
            }
        }
    }
}

fn free_op(s: &mut Src, set: &Set, kind: usize) -> Op {
    match kind {
        0 => {
            let i = s.usize(0, set.syms.len() - 1);
            let m = &set.syms[i];
            let mut v = val(s, m.n as u64 - 1) as u32;
            if !m.table.is_empty() {
                while m.table[v as usize] == 0 {
                    v += 1;
                }
            }
            Op::Sym(i as u8, v)
        }
        1 => {
            let p = *s.pick(&[1u64, 5, 50, 95, 99]);
            Op::Bit(s.usize(0, set.bits - 1) as u8, s.chance(p, 100) as u32)
        }
        2 => Op::RawBit(s.draw(2) as u32),
        3 => {
            let n = width(s);
            Op::Bits(n, val(s, (1u64 << n) - 1) as u32)
        }
        4 => Op::Byte(val(s, 255) as u8),
        5 => Op::Short(val(s, 65535) as u16),
        6 => Op::Int(val(s, u32::MAX as u64) as u32),
        7 => Op::Int64(val(s, u64::MAX)),
        _ => {
            let i = s.usize(0, set.ints.len() - 1);
            let c = &set.ints[i];
            let ctx = s.draw(c.ctx as u64) as u32;
            match c.span() {
                None => {
                    let real = val(s, u32::MAX as u64) as u32 as i32;
                    let pred = match s.draw(3) {
                        0 => val(s, u32::MAX as u64) as u32 as i32,
                        1 => real.wrapping_add(s.draw(600) as i32 - 300),
                        _ => {
                            let b = s.draw(32);
                            let d = (1u32 << b) as i32;
                            real.wrapping_add(if s.chance(1, 2) { d } else { d.wrapping_neg() })
                                .wrapping_add(s.draw(3) as i32 - 1)
                        }
                    };
                    Op::Pred(i as u8, pred, real, ctx)
                }
                Some(r) => {
                    let real = val(s, r as u64 - 1) as i64;
                    let (min, max) = (-(r / 2), -(r / 2) + r - 1);
                    // everything that folds back to the value
                    let lo = (real - max - r).max(i32::MIN as i64).max(real - i32::MAX as i64);
                    let hi = (real - min + r).min(i32::MAX as i64);
                    let pred = match s.draw(4) {
                        0 => lo + val(s, (hi - lo) as u64) as i64,
                        1 => (real + s.draw(20) as i64 - 10).clamp(lo, hi),
                        _ => val(s, r as u64 - 1) as i64,
                    };
                    Op::Pred(i as u8, pred as i32, real as i32, ctx)
                }
            }
        }
    }
}

struct Refs {
    syms: Vec<refc::Sym>,
    bits: Vec<refc::Bit>,
    ints: Vec<refc::Ic>,
}
impl Refs {
    fn new(set: &Set) -> Refs {
        Refs {
            syms: set
                .syms
                .iter()
                .map(|m| {
                    if m.table.is_empty() {
                        refc::Sym::new(m.n as usize)
                    } else {
                        refc::Sym::with_table(m.n as usize, &m.table)
                    }
                })
                .collect(),
            bits: vec![refc::Bit::new(); set.bits],
            ints: set
                .ints
                .iter()
                .map(|c| refc::Ic::full(c.bits, c.ctx as usize, c.high, c.range))
                .collect(),
        }
    }
}

/// operations that lead the coder along `target`
fn guided_ops(s: &mut Src, set: &Set, target: &[u8], kinds: &[u32], cap: usize) -> Vec<Op> {
    let mut refs = Refs::new(set);
    let mut d = refc::Dec::new(target);
    let mut ops = vec![];
    while d.consumed() < target.len() && ops.len() < cap {
        ops.push(match s.weighted(kinds) {
            0 => {
                let i = s.usize(0, set.syms.len() - 1);
                let v = d.sym(&mut refs.syms[i]);
                Op::Sym(i as u8, v)
            }
            1 => {
                let i = s.usize(0, set.bits - 1);
                Op::Bit(i as u8, d.bit(&mut refs.bits[i]))
            }
            2 => Op::RawBit(d.bits(1)),
            3 => {
                let n = width(s);
                Op::Bits(n, d.bits(n))
            }
            4 => Op::Byte(d.bits(8) as u8),
            5 => Op::Short(d.bits(16) as u16),
            6 => {
                let lo = d.bits(16);
                Op::Int(lo | d.bits(16) << 16)
            }
            _ => {
                let mut x = 0u64;
                for k in 0..4 {
                    x |= (d.bits(16) as u64) << (16 * k);
                }
                Op::Int64(x)
            }
        });
        // a value beyond what an encoder can reach
        if d.wrong() {
            ops.pop();
            break;
        }
    }
    ops
}

fn gen_ops(s: &mut Src, set: &Set, tier: Tier, info: &mut Info) -> Vec<Op> {
    let big = tier == Tier::Thorough;
    let mut kinds: Vec<u32> = (0..9).map(|_| *s.pick(&[0u32, 1, 1, 3, 8])).collect();
    if kinds.iter().all(|k| *k == 0) {
        kinds[s.usize(0, 8)] = 1;
    }
    if s.chance(1, 4) {
        info.label("guided along a byte pattern");
        // carries: a byte followed by a long run of 0 (reached from below) or 0xFF
        let mut t = vec![s.range(1, 254) as u8];
        for _ in 0..s.usize(0, 6) {
            t.push(s.draw(256) as u8);
        }
        for _ in 0..s.usize(1, 4) {
            let n = match s.weighted(&[5, 4, 3, 3]) {
                0 => s.usize(1, 20),
                1 => s.usize(20, 1500),
                2 => 4096 - 40 + s.usize(0, 80),
                _ => s.usize(3000, if big { 30_000 } else { 13_000 }),
            };
            let b = *s.pick(&[0u8, 0, 0, 255, 255, 128]);
            t.extend(std::iter::repeat(b).take(n));
            let m = match s.draw(3) {
                0 => s.usize(1, 8),
                1 => s.usize(1, 200),
                _ => s.usize(3900, 4300),
            };
            let mut f = s.fork();
            t.extend(f.bytes(m));
        }
        let mut g: Vec<u32> = kinds[..8].to_vec();
        if g.iter().all(|k| *k == 0) {
            g[3] = 1;
        }
        let mut f = s.fork();
        return guided_ops(&mut f, set, &t, &g, if big { 200_000 } else { 40_000 });
    }
    let n = match s.weighted(&[4, 6, 4, 1]) {
        0 => s.usize(0, 12),
        1 => s.usize(5, 200),
        2 => s.usize(200, 4000),
        _ => s.usize(4000, if big { 150_000 } else { 25_000 }),
    };
    let mut own = s.clone_small(n);
    let f = own.as_mut().unwrap_or(s);
    let mut ops = Vec::with_capacity(n);
    while ops.len() < n {
        let k = f.weighted(&kinds);
        let op = free_op(f, set, k);
        // runs make the models lopsided
        let run = if f.chance(1, 12) { f.usize(1, 300) } else { 1 };
        for _ in 0..run.min(n - ops.len()) {
            ops.push(op);
        }
    }
    ops
}

impl Src {
    /// many draws come from one seed, few are drawn singly (and shrink)
    fn clone_small(&mut self, n: usize) -> Option<Src> {
        if n > 60 {
            Some(self.fork())
        } else {
            None
        }
    }
}

struct EncSide {
    syms: Vec<ArithmeticModel>,
    bits: Vec<ArithmeticBitModel>,
    ints: Vec<IntegerCompressor>,
}
impl EncSide {
    fn new(set: &Set) -> Self {
        EncSide {
            syms: set.syms.iter().map(|m| sym_model(m, m.enc_flag)).collect(),
            bits: (0..set.bits)
                .map(|k| if k == 0 { ArithmeticBitModel::new() } else { Default::default() })
                .collect(),
            ints: set
                .ints
                .iter()
                .map(|c| {
                    if c.builder {
                        IntegerCompressorBuilder::new().bits(c.bits).contexts(c.ctx).build_initialized()
                    } else {
                        let mut i = IntegerCompressor::new(c.bits, c.ctx, c.high, c.range);
                        i.init();
                        i
                    }
                })
                .collect(),
        }
    }
    fn put<W: Write>(&mut self, e: &mut ArithmeticEncoder<W>, op: &Op) -> std::io::Result<()> {
        match *op {
            Op::Sym(i, v) => e.encode_symbol(&mut self.syms[i as usize], v),
            Op::Bit(i, v) => e.encode_bit(&mut self.bits[i as usize], v),
            Op::RawBit(v) => e.write_bit(v),
            Op::Bits(n, v) => e.write_bits(n, v),
            Op::Byte(v) => e.write_byte(v),
            Op::Short(v) => e.write_short(v),
            Op::Int(v) => e.write_int(v),
            Op::Int64(v) => e.write_int64(v),
            Op::Pred(i, p, r, c) => self.ints[i as usize].compress(e, p, r, c),
        }
    }
}
fn sym_model(m: &SymSpec, flag: bool) -> ArithmeticModel {
    if m.builder {
        let mut b = ArithmeticModelBuilder::new(m.n);
        if flag {
            b.with_compression(true).build()
        } else {
            b.build()
        }
    } else {
        ArithmeticModel::new(m.n, flag, &m.table)
    }
}

struct DecSide {
    syms: Vec<ArithmeticModel>,
    bits: Vec<ArithmeticBitModel>,
    ints: Vec<IntegerDecompressor>,
}
impl DecSide {
    fn new(set: &Set) -> Self {
        DecSide {
            syms: set.syms.iter().map(|m| sym_model(m, m.dec_flag)).collect(),
            bits: vec![ArithmeticBitModel::new(); set.bits],
            ints: set
                .ints
                .iter()
                .map(|c| {
                    if c.builder {
                        IntegerDecompressorBuilder::new().bits(c.bits).contexts(c.ctx).build_initialized()
                    } else {
                        let mut i = IntegerDecompressor::new(c.bits, c.ctx, c.high, c.range);
                        i.init();
                        i
                    }
                })
                .collect(),
        }
    }
    fn get<R: Read>(&mut self, d: &mut ArithmeticDecoder<R>, op: &Op) -> std::io::Result<Op> {
        Ok(match *op {
            Op::Sym(i, _) => Op::Sym(i, d.decode_symbol(&mut self.syms[i as usize])?),
            Op::Bit(i, _) => Op::Bit(i, d.decode_bit(&mut self.bits[i as usize])?),
            Op::RawBit(_) => Op::RawBit(d.read_bit()?),
            Op::Bits(n, _) => Op::Bits(n, d.read_bits(n)?),
            Op::Byte(_) => Op::Byte(d.read_bits(8)? as u8),
            Op::Short(_) => Op::Short(d.read_bits(16)? as u16),
            Op::Int(_) => Op::Int(d.read_int()?),
            Op::Int64(_) => Op::Int64(d.read_int_64()?),
            Op::Pred(i, p, _, c) => Op::Pred(i, p, self.ints[i as usize].decompress(d, p, c)?, c),
        })
    }
}

/// reference bytes, and k of every predicted integer
fn reference(set: &Set, ops: &[Op]) -> (Vec<u8>, Vec<u32>) {
    let mut r = Refs::new(set);
    let mut e = refc::Enc::new();
    let mut ks = vec![];
    for op in ops {
        match *op {
            Op::Sym(i, v) => e.sym(&mut r.syms[i as usize], v),
            Op::Bit(i, v) => e.bit(&mut r.bits[i as usize], v),
            Op::RawBit(v) => e.raw_bit(v),
            Op::Bits(n, v) => e.bits(n, v),
            Op::Byte(v) => e.byte(v),
            Op::Short(v) => e.short(v),
            Op::Int(v) => e.int(v),
            Op::Int64(v) => e.int64(v),
            Op::Pred(i, p, x, c) => {
                r.ints[i as usize].put(&mut e, p, x, c as usize);
                ks.push(r.ints[i as usize].k());
            }
        }
    }
    (e.done(), ks)
}

/// bytes that no encoder wrote, or only the start of what one did: an operation
/// either gives what the reference gives or fails, and then all fail
pub(super) fn hostile(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let set = gen_set(s);
    let ops = gen_ops(s, &set, tier, info);
    let mut f = s.fork();
    let (bytes, how) = match s.weighted(&[3, 3, 3, 2, 1]) {
        0 => {
            let (mut b, _) = reference(&set, &ops);
            let n = f.usize(0, b.len());
            b.truncate(n);
            (b, "truncated")
        }
        1 => {
            let (mut b, _) = reference(&set, &ops);
            for _ in 0..f.usize(1, 4) {
                if !b.is_empty() {
                    let i = f.usize(0, b.len() - 1);
                    b[i] ^= 1 << f.draw(8);
                }
            }
            (b, "damaged")
        }
        2 => {
            let n = f.usize(0, ops.len() + 8);
            (f.bytes(n), "arbitrary")
        }
        3 => {
            // the largest values
            let mut b = vec![255u8; f.usize(3, 40)];
            let i = f.usize(0, b.len().min(4) - 1);
            b[i] = 255 - f.draw(3) as u8;
            let n = f.usize(0, ops.len());
            b.extend(f.bytes(n));
            (b, "highest")
        }
        _ => {
            let n = f.usize(0, ops.len() + 8);
            (vec![*f.pick(&[0u8, 255, 254, 1]); n], "constant")
        }
    };
    info.desc = format!("{} coder operations on {} {how} bytes", ops.len(), bytes.len());
    info.digest = hash64(&[hash_bytes(&bytes), ops.len() as u64]);
    let mut refs = Refs::new(&set);
    let mut r = refc::Dec::new(&bytes);
    let mut d = ArithmeticDecoder::new(Cursor::new(bytes.clone()));
    let mut side = DecSide::new(&set);
    let init = d.read_init_bytes();
    if init.is_ok() == r.wrong() {
        fail!("coder init", "{:?} for {:?}", init, &bytes[..bytes.len().min(8)]);
    }
    let mut failed = init.is_err();
    if bytes.len() < 4 {
        // nothing was taken in: the decoder is as new
        return Ok(());
    }
    for (j, op) in ops.iter().enumerate() {
        info.checks += 1;
        let got = side.get(&mut d, op);
        if failed {
            if let Ok(x) = got {
                fail!(
                    format!("coder goes on after an error|{}|{how}", op.name()),
                    "operation {j} gave {x:?} after one that failed; {} bytes",
                    bytes.len()
                );
            }
            continue;
        }
        let want = match *op {
            Op::Sym(i, _) => Op::Sym(i, r.sym(&mut refs.syms[i as usize])),
            Op::Bit(i, _) => Op::Bit(i, r.bit(&mut refs.bits[i as usize])),
            Op::RawBit(_) => Op::RawBit(r.bits(1)),
            Op::Bits(n, _) => Op::Bits(n, r.bits(n)),
            Op::Byte(_) => Op::Byte(r.bits(8) as u8),
            Op::Short(_) => Op::Short(r.bits(16) as u16),
            Op::Int(_) => {
                let lo = r.bits(16);
                Op::Int(lo | r.bits(16) << 16)
            }
            Op::Int64(_) => {
                let mut x = 0u64;
                for k in 0..4 {
                    x |= (r.bits(16) as u64) << (16 * k);
                }
                Op::Int64(x)
            }
            Op::Pred(i, p, _, c) => Op::Pred(i, p, refs.ints[i as usize].get(&mut r, p, c as usize), c),
        };
        match got {
            Ok(_) if r.wrong() => fail!(
                format!("coder invents values|{}|{how}", op.name()),
                "operation {j} of {}: {got:?} from {} bytes that ended or hold no value",
                ops.len(),
                bytes.len()
            ),
            Ok(x) if x != want => fail!(
                format!("coder value|{}|{how}", op.name()),
                "operation {j} of {}: {x:?}, the reference {want:?}; {} bytes; {set:?}",
                ops.len(),
                bytes.len()
            ),
            Ok(_) => {}
            Err(e) if !r.wrong() => fail!(
                format!("coder refuses|{}|{how}", op.name()),
                "operation {j} of {}: {e} but the reference gives {want:?}; {} bytes",
                ops.len(),
                bytes.len()
            ),
            Err(_) => {
                failed = true;
                info.label("coder error");
            }
        }
    }
    Ok(())
}

/// bytes the reference decoder takes
fn reference_consumption(set: &Set, ops: &[Op], bytes: &[u8]) -> usize {
    let mut r = Refs::new(set);
    let mut d = refc::Dec::new(bytes);
    for op in ops {
        match *op {
            Op::Sym(i, _) => {
                d.sym(&mut r.syms[i as usize]);
            }
            Op::Bit(i, _) => {
                d.bit(&mut r.bits[i as usize]);
            }
            Op::RawBit(_) => {
                d.bits(1);
            }
            Op::Bits(n, _) => {
                d.bits(n);
            }
            Op::Byte(_) => {
                d.bits(8);
            }
            Op::Short(_) => {
                d.bits(16);
            }
            Op::Int(_) => {
                for _ in 0..2 {
                    d.bits(16);
                }
            }
            Op::Int64(_) => {
                for _ in 0..4 {
                    d.bits(16);
                }
            }
            Op::Pred(i, p, _, c) => {
                r.ints[i as usize].get(&mut d, p, c as usize);
            }
        }
    }
    d.consumed()
}

fn longest_ff(b: &[u8]) -> usize {
    let (mut best, mut cur) = (0, 0);
    for x in b {
        cur = if *x == 0 { cur + 1 } else { 0 };
        best = best.max(cur);
    }
    best
}

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let streams = *s.pick(&[1usize, 1, 1, 2, 3]);
    let mut enc = ArithmeticEncoder::new(vec![]);
    let mut dec: Option<ArithmeticDecoder<Cursor<Vec<u8>>>> = None;
    let mut digest = vec![];
    let mut total = 0;
    let mut kinds = [false; 9];
    let mut desc = String::new();
    for k in 0..streams {
        let set = gen_set(s);
        let ops = gen_ops(s, &set, tier, info);
        total += ops.len();
        for o in &ops {
            kinds[o.kind()] = true;
        }
        if desc.len() < 200 {
            desc += &format!(
                "[{} ops, e.g. {:?}; {} symbol models, ints {:?}] ",
                ops.len(),
                &ops[..ops.len().min(3)],
                set.syms.len(),
                set.ints.iter().map(|c| (c.bits, c.range)).collect::<Vec<_>>()
            );
        }
        let (want, ks) = reference(&set, &ops);
        digest.push(hash_bytes(&want));
        info.checks += ops.len() as u64 + 2;
        if want.len() > 8192 {
            info.label("longer than the encoder's buffer");
        }
        if longest_ff(&want) >= 100 {
            info.label("a run of 100 0 bytes (carry chain)");
        }
        if longest_ff(&want) >= 4096 {
            info.label("a run of 4096 0 bytes or more");
        }
        let how = if k == 0 { "new" } else { "reused" };
        // an encoding given up half-way
        if s.chance(1, 6) {
            let mut side = EncSide::new(&set);
            let n = s.usize(0, ops.len());
            for op in &ops[..n] {
                side.put(&mut enc, op).unwrap();
            }
            enc.reset();
            enc.get_mut().clear();
            info.label("encoding given up");
        }
        let mut side = EncSide::new(&set);
        let mut ki = 0;
        for (j, op) in ops.iter().enumerate() {
            if let Err(e) = side.put(&mut enc, op) {
                fail!("encode error", "operation {j} {op:?}: {e}");
            }
            if let Op::Pred(i, ..) = op {
                if side.ints[*i as usize].k() != ks[ki] {
                    fail!(
                        "compressor k",
                        "operation {j} {op:?} with {:?}: k {} expected {}",
                        set.ints[*i as usize],
                        side.ints[*i as usize].k(),
                        ks[ki]
                    );
                }
                ki += 1;
            }
        }
        if let Err(e) = enc.done() {
            fail!("done error", "{e}");
        }
        let got = std::mem::take(enc.get_mut());
        enc.reset();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            fail!(
                format!("bytes|{how}|{}", if got.len() != want.len() { "length" } else { "content" }),
                "the encoder ({how}) wrote {} bytes, the reference {}; the first difference is at {at}; {} operations; {:?}",
                got.len(),
                want.len(),
                ops.len(),
                set
            );
        }

        // decoding, possibly with something behind it
        let mut src = want.clone();
        let tail = if s.chance(1, 2) { s.usize(1, 20) } else { 0 };
        for _ in 0..tail {
            src.push(s.draw(256) as u8);
        }
        let mut d = match dec.take() {
            None => ArithmeticDecoder::new(Cursor::new(src)),
            Some(mut d) => {
                d.reset();
                *d.get_mut() = Cursor::new(src);
                d
            }
        };
        if let Err(e) = d.read_init_bytes() {
            fail!(format!("init error|{how}"), "{e}");
        }
        let mut side = DecSide::new(&set);
        let mut ki = 0;
        for (j, op) in ops.iter().enumerate() {
            let got = match side.get(&mut d, op) {
                Ok(x) => x,
                Err(e) => fail!(
                    format!("decode error|{}|{how}", op.name()),
                    "operation {j} of {} {op:?}: {e}; {:?}",
                    ops.len(),
                    set
                ),
            };
            if got != *op {
                fail!(
                    format!("decoded value|{}|{how}", op.name()),
                    "operation {j} of {}: encoded {op:?}, decoded {got:?}; {:?}",
                    ops.len(),
                    set
                );
            }
            if let Op::Pred(i, ..) = op {
                if side.ints[*i as usize].k() != ks[ki] {
                    fail!("decompressor k", "operation {j} {op:?}: k {} expected {}", side.ints[*i as usize].k(), ks[ki]);
                }
                ki += 1;
            }
        }
        let used = d.get_ref().position() as usize;
        let expect = reference_consumption(&set, &ops, &want);
        if used != expect {
            fail!(
                "consumption",
                "the decoder took {used} bytes for {} operations, the reference {expect} of {}",
                ops.len(),
                want.len()
            );
        }
        // leave the decoder in some other state before it is reused
        match s.draw(3) {
            0 => {}
            1 => {
                // runs into the end
                let mut side = DecSide::new(&set);
                for op in ops.iter().take(50) {
                    if side.get(&mut d, op).is_err() {
                        break;
                    }
                }
            }
            _ => {
                d.reset();
                let n = s.usize(0, want.len());
                *d.get_mut() = Cursor::new(want[..n].to_vec());
                if d.read_init_bytes().is_ok() {
                    let mut side = DecSide::new(&set);
                    for (j, op) in ops.iter().enumerate() {
                        match side.get(&mut d, op) {
                            Ok(x) if x == *op => {}
                            Ok(x) => fail!(
                                "truncated value",
                                "{n} of {} bytes: operation {j} decoded {x:?}, encoded {op:?}",
                                want.len()
                            ),
                            Err(_) => break,
                        }
                    }
                }
            }
        }
        dec = Some(d);
    }
    info.label(format!("{streams} streams with one coder"));
    for (k, used) in kinds.iter().enumerate() {
        if *used {
            info.label(
                ["symbol", "bit", "raw bit", "raw bits", "byte", "short", "int", "int64", "predicted"][k],
            );
        }
    }
    info.digest = hash64(&digest);
    info.nontrivial = total >= 20 && kinds.iter().filter(|k| **k).count() >= 2;
    info.desc = desc;
    Ok(())
}
