//! C16 Typed points and raw records agree.
use super::util::*;
use super::Prop;
use crate::engine::*;
use crate::gen::Gen;
use crate::spec::*;
use laz::las::extra_bytes::{ExtraBytes, LasExtraBytes};
use laz::las::gps::{GpsTime, LasGpsTime};
use laz::las::nir::{LasNIR, Nir};
use laz::las::point0::LasPoint0;
use laz::las::point6::LasPoint6;
use laz::las::rgb::{LasRGB, RGB};
use laz::las::wavepacket::LasWavepacket;
use laz::las::{Point0, Point1, Point10, Point2, Point3, Point4, Point5, Point6, Point7, Point8, Point9};
use laz::packers::Packable;
use laz::{LasZipCompressor, LasZipDecompressor, LazItem, LazItemRecordBuilder, LazVlrBuilder};
use std::io::Cursor;

pub static PROP: Prop = Prop {
    id: "C16",
    name: "typed points and raw records agree",
    f: case,
    quick: 1_000_000,
    thorough: 60_000_000,
    rule: "a value that is not all zero is packed, or at least 2 setters are applied, or at least 2 typed records go through compression",
    assumptions: &[
        "unpacking from (packing to) a slice shorter than the value is refused by a panic: the functions are documented to expect the bytes",
        "floating point fields are compared by their bits, NaN included",
    ],
};

fn case(s: &mut Src, info: &mut Info, _tier: Tier) -> CaseResult {
    match s.weighted(&[4, 6, 6, 6, 2, 1]) {
        0 => primitives(s, info),
        1 => point0(s, info),
        2 => point6(s, info),
        3 => wrappers(s, info),
        4 => small_types(s, info),
        _ => typed_compression(s, info),
    }
}

/// Bytes with the shapes that matter: all zero or one, single bits, anything.
fn raw(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[1, 1, 2, 2, 6]) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = s.usize(0, n * 8 - 1);
                v[i / 8] = 1 << (i % 8);
            }
            v
        }
        3 => (0..n).map(|_| *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect(),
        _ => s.bytes(n),
    }
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

// ------------------------------------------------------------------ packers

/// `size` bytes at any offset of a larger buffer: what is read, what is
/// written, what is left alone.
fn packing<T: Packable>(
    s: &mut Src,
    info: &mut Info,
    what: &str,
    size: usize,
    value: impl Fn(&T) -> Vec<u8>,
) -> CaseResult {
    let before = s.usize(0, 9);
    let after = s.usize(0, 9);
    let rec = raw(s, size);
    let mut buf = raw(s, before);
    buf.extend(&rec);
    buf.extend(raw(s, after));
    info.digest = hash64(&[hash_bytes(&buf), hash_bytes(what.as_bytes()), before as u64]);
    info.nontrivial = rec.iter().any(|b| *b != 0);
    info.label(format!("pack {what}"));
    info.desc = format!("{what} from {} at {before} of {} bytes", hex(&rec), buf.len());
    let v = T::unpack_from(&buf[before..]);
    if value(&v) != rec {
        fail!(
            format!("unpack|{what}"),
            "{what}::unpack_from({}) is the value with the bytes {}",
            hex(&rec),
            hex(&value(&v))
        );
    }
    // SAFETY: the slice has at least the size of the type
    let u = unsafe { T::unpack_from_unchecked(&buf[before..]) };
    if value(&u) != rec {
        fail!(
            format!("unpack unchecked|{what}"),
            "{what}::unpack_from_unchecked({}) is the value with the bytes {}",
            hex(&rec),
            hex(&value(&u))
        );
    }
    for unchecked in [false, true] {
        let fill = if s.chance(1, 2) { 0 } else { 0xff };
        let mut out = vec![fill; buf.len()];
        if unchecked {
            // SAFETY: as above
            unsafe { v.pack_into_unchecked(&mut out[before..]) };
        } else {
            v.pack_into(&mut out[before..]);
        }
        let w = if unchecked { "pack_into_unchecked" } else { "pack_into" };
        if out[before..before + size] != rec[..] {
            fail!(
                format!("{w}|{what}"),
                "{what}: unpacking {} then {w} gives {}",
                hex(&rec),
                hex(&out[before..before + size])
            );
        }
        if out[..before].iter().chain(&out[before + size..]).any(|b| *b != fill) {
            fail!(
                format!("{w} outside|{what}"),
                "{what}: {w} wrote outside the {size} bytes of the value"
            );
        }
        info.checks += 2;
    }
    if s.chance(1, 8) {
        let k = s.usize(0, size - 1);
        info.label("short slice");
        // the bytes are there, but outside the slice
        if catch(|| T::unpack_from(&buf[before..before + k])).is_ok() {
            fail!(
                format!("short unpack|{what}"),
                "{what}::unpack_from reads {size} bytes from a slice of {k}"
            );
        }
        let mut out = buf.clone();
        if catch(|| v.pack_into(&mut out[before..before + k])).is_ok() {
            fail!(
                format!("short pack|{what}"),
                "{what}::pack_into packs {size} bytes in a slice of {k}"
            );
        }
        if out[before + k..] != buf[before + k..] {
            fail!(
                format!("short pack outside|{what}"),
                "{what}::pack_into wrote outside a slice of {k} bytes"
            );
        }
        info.checks += 3;
    }
    info.checks += 2;
    Ok(())
}

fn primitives(s: &mut Src, info: &mut Info) -> CaseResult {
    match s.draw(13) {
        0 => packing::<u64>(s, info, "u64", 8, |v| (0..8).map(|i| (*v >> (8 * i)) as u8).collect()),
        1 => packing::<u32>(s, info, "u32", 4, |v| (0..4).map(|i| (*v >> (8 * i)) as u8).collect()),
        2 => packing::<u16>(s, info, "u16", 2, |v| (0..2).map(|i| (*v >> (8 * i)) as u8).collect()),
        3 => packing::<u8>(s, info, "u8", 1, |v| vec![*v]),
        4 => packing::<i32>(s, info, "i32", 4, |v| (0..4).map(|i| (*v >> (8 * i)) as u8).collect()),
        5 => packing::<i16>(s, info, "i16", 2, |v| (0..2).map(|i| (*v >> (8 * i)) as u8).collect()),
        6 => packing::<i8>(s, info, "i8", 1, |v| vec![*v as u8]),
        7 => packing::<f32>(s, info, "f32", 4, |v| v.to_bits().to_le_bytes().to_vec()),
        8 => packing::<GpsTime>(s, info, "GpsTime", 8, |v| v.value.to_le_bytes().to_vec()),
        9 => packing::<RGB>(s, info, "RGB", 6, |v| {
            [v.red, v.green, v.blue].iter().flat_map(|c| c.to_le_bytes()).collect()
        }),
        10 => packing::<LasWavepacket>(s, info, "LasWavepacket", 29, |v| {
            let mut o = vec![0; 29];
            v.pack_into(&mut o);
            o
        }),
        11 => packing::<Point0>(s, info, "Point0", 20, bytes0),
        _ => packing::<Point6>(s, info, "Point6", 30, bytes6),
    }
}

// ----------------------------------------- accessors against the record bytes

/// The record a point stands for, by its accessors only.
fn bytes0<P: LasPoint0>(p: &P) -> Vec<u8> {
    let mut o = vec![];
    o.extend(p.x().to_le_bytes());
    o.extend(p.y().to_le_bytes());
    o.extend(p.z().to_le_bytes());
    o.extend(p.intensity().to_le_bytes());
    o.push(
        p.return_number()
            | p.number_of_returns_of_given_pulse() << 3
            | (p.scan_direction_flag() as u8) << 6
            | (p.edge_of_flight_line() as u8) << 7,
    );
    o.push(p.classification());
    o.push(p.scan_angle_rank() as u8);
    o.push(p.user_data());
    o.extend(p.point_source_id().to_le_bytes());
    o
}

fn bytes6<P: LasPoint6>(p: &P) -> Vec<u8> {
    let mut o = vec![];
    o.extend(p.x().to_le_bytes());
    o.extend(p.y().to_le_bytes());
    o.extend(p.z().to_le_bytes());
    o.extend(p.intensity().to_le_bytes());
    o.push(p.return_number() | p.number_of_returns_of_given_pulse() << 4);
    o.push(
        p.classification_flags()
            | p.scanner_channel() << 4
            | (p.scan_direction_flag() as u8) << 6
            | (p.edge_of_flight_line() as u8) << 7,
    );
    o.push(p.classification());
    o.push(p.user_data());
    o.extend(p.scan_angle_rank().to_le_bytes());
    o.extend(p.point_source_id().to_le_bytes());
    o.extend(p.gps_time().to_bits().to_le_bytes());
    o
}

const NAMES0: [(usize, usize, &str); 9] = [
    (0, 4, "x"),
    (4, 8, "y"),
    (8, 12, "z"),
    (12, 14, "intensity"),
    (14, 15, "bit fields"),
    (15, 16, "classification"),
    (16, 17, "scan angle rank"),
    (17, 18, "user data"),
    (18, 20, "point source id"),
];

const NAMES6: [(usize, usize, &str); 11] = [
    (0, 4, "x"),
    (4, 8, "y"),
    (8, 12, "z"),
    (12, 14, "intensity"),
    (14, 15, "bit fields"),
    (15, 16, "flags"),
    (16, 17, "classification"),
    (17, 18, "user data"),
    (18, 20, "scan angle"),
    (20, 22, "point source id"),
    (22, 30, "gps time"),
];

fn compare(what: &str, names: &[(usize, usize, &str)], want: &[u8], got: &[u8]) -> CaseResult {
    for (a, b, n) in names {
        if want[*a..*b] != got[*a..*b] {
            fail!(
                format!("{what}|{n}"),
                "{what}: {n} should hold the bytes {} and holds {}",
                hex(&want[*a..*b]),
                hex(&got[*a..*b])
            );
        }
    }
    Ok(())
}

fn check0<P: LasPoint0>(what: &str, p: &P, m: &[u8]) -> CaseResult {
    // the parts of the bit fields must fit: nothing hidden by the or
    if p.return_number() > 7 || p.number_of_returns_of_given_pulse() > 7 {
        fail!(
            format!("{what}|range of the returns"),
            "{what}: return {} of {}",
            p.return_number(),
            p.number_of_returns_of_given_pulse()
        );
    }
    if p.bit_fields() != m[14] {
        fail!(
            format!("{what}|bit_fields()"),
            "{what}: bit_fields() is {:#04x}, the record has {:#04x}",
            p.bit_fields(),
            m[14]
        );
    }
    compare(what, &NAMES0, m, &bytes0(p))
}

fn check6<P: LasPoint6>(what: &str, p: &P, m: &[u8]) -> CaseResult {
    if p.return_number() > 15 || p.number_of_returns_of_given_pulse() > 15 {
        fail!(
            format!("{what}|range of the returns"),
            "{what}: return {} of {}",
            p.return_number(),
            p.number_of_returns_of_given_pulse()
        );
    }
    if p.classification_flags() > 15 || p.scanner_channel() > 3 {
        fail!(
            format!("{what}|range of the flags"),
            "{what}: class flags {} scanner channel {}",
            p.classification_flags(),
            p.scanner_channel()
        );
    }
    if p.bit_fields() != m[14] || p.flags() != m[15] {
        fail!(
            format!("{what}|bit_fields() or flags()"),
            "{what}: bit_fields() {:#04x} flags() {:#04x}, the record has {:#04x} {:#04x}",
            p.bit_fields(),
            p.flags(),
            m[14],
            m[15]
        );
    }
    compare(what, &NAMES6, m, &bytes6(p))
}

/// One setter on the point, the same change on the model record.
fn set0<P: LasPoint0>(s: &mut Src, p: &mut P, m: &mut [u8]) -> &'static str {
    let v = raw(s, 4);
    let (w, at, n) = match s.draw(9) {
        0 => {
            p.set_x(le(&v) as i32);
            ("set_x", 0, 4)
        }
        1 => {
            p.set_y(le(&v) as i32);
            ("set_y", 4, 4)
        }
        2 => {
            p.set_z(le(&v) as i32);
            ("set_z", 8, 4)
        }
        3 => {
            p.set_intensity(le(&v[..2]) as u16);
            ("set_intensity", 12, 2)
        }
        4 => {
            p.set_bit_fields(v[0]);
            ("set_bit_fields", 14, 1)
        }
        5 => {
            p.set_classification(v[0]);
            ("set_classification", 15, 1)
        }
        6 => {
            p.set_scan_angle_rank(v[0] as i8);
            ("set_scan_angle_rank", 16, 1)
        }
        7 => {
            p.set_user_data(v[0]);
            ("set_user_data", 17, 1)
        }
        _ => {
            p.set_point_source_id(le(&v[..2]) as u16);
            ("set_point_source_id", 18, 2)
        }
    };
    m[at..at + n].copy_from_slice(&v[..n]);
    w
}

fn set6<P: LasPoint6>(s: &mut Src, p: &mut P, m: &mut [u8]) -> &'static str {
    let v = raw(s, 8);
    let (w, at, n) = match s.draw(14) {
        0 => {
            p.set_x(le(&v[..4]) as i32);
            ("set_x", 0, 4)
        }
        1 => {
            p.set_y(le(&v[..4]) as i32);
            ("set_y", 4, 4)
        }
        2 => {
            p.set_z(le(&v[..4]) as i32);
            ("set_z", 8, 4)
        }
        3 => {
            p.set_intensity(le(&v[..2]) as u16);
            ("set_intensity", 12, 2)
        }
        4 => {
            p.set_bit_fields(v[0]);
            ("set_bit_fields", 14, 1)
        }
        5 => {
            p.set_flags(v[0]);
            ("set_flags", 15, 1)
        }
        6 => {
            p.set_number_of_returns(v[0]);
            m[14] = m[14] & 0x0f | (v[0] & 0x0f) << 4;
            return "set_number_of_returns";
        }
        7 => {
            p.set_return_number(v[0]);
            m[14] = m[14] & 0xf0 | v[0] & 0x0f;
            return "set_return_number";
        }
        8 => {
            p.set_scanner_channel(v[0]);
            m[15] = m[15] & 0xcf | (v[0] & 3) << 4;
            return "set_scanner_channel";
        }
        9 => {
            p.set_classification(v[0]);
            ("set_classification", 16, 1)
        }
        10 => {
            p.set_user_data(v[0]);
            ("set_user_data", 17, 1)
        }
        11 => {
            p.set_scan_angle_rank(le(&v[..2]) as i16);
            ("set_scan_angle_rank", 18, 2)
        }
        12 => {
            p.set_point_source_id(le(&v[..2]) as u16);
            ("set_point_source_id", 20, 2)
        }
        _ => {
            p.set_gps_time(f64::from_bits(le(&v)));
            ("set_gps_time", 22, 8)
        }
    };
    m[at..at + n].copy_from_slice(&v[..n]);
    w
}

fn packed<P: Packable>(p: &P, n: usize) -> Vec<u8> {
    let mut o = vec![0xa5; n];
    p.pack_into(&mut o);
    o
}

fn point0(s: &mut Src, info: &mut Info) -> CaseResult {
    let mut m = raw(s, 20);
    info.label("Point0 history");
    let mut h = hash_bytes(&m);
    let mut p = if s.chance(1, 10) {
        m = vec![0; 20];
        Point0::default()
    } else {
        Point0::unpack_from(&m)
    };
    check0("Point0", &p, &m)?;
    let steps = s.usize(0, 12);
    let mut names = vec![];
    for _ in 0..steps {
        let w = match s.weighted(&[8, 1, 1]) {
            0 => set0(s, &mut p, &mut m),
            1 => {
                let b = s.draw(256) as u8;
                p.populate_bit_fields_from(b);
                m[14] = b;
                "populate_bit_fields_from"
            }
            // the fields are public: they may hold more than fits the record
            _ => {
                let b = s.draw(256) as u8;
                let mut q = p;
                let bits = match s.draw(4) {
                    0 => {
                        q.return_number = b;
                        m[14] & !7 | b & 7
                    }
                    1 => {
                        q.number_of_returns_of_given_pulse = b;
                        m[14] & !0x38 | (b & 7) << 3
                    }
                    2 => {
                        q.scan_direction_flag = b & 1 == 1;
                        m[14] & !0x40 | (b & 1) << 6
                    }
                    _ => {
                        q.edge_of_flight_line = b & 1 == 1;
                        m[14] & !0x80 | (b & 1) << 7
                    }
                };
                let mut n = m.clone();
                n[14] = bits;
                if packed(&q, 20) != n || q.bit_fields() != bits || q.bit_fields_to_byte() != bits {
                    fail!(
                        "Point0|public bit field spills",
                        "Point0 {} with a bit field set to {b:#04x} should pack as {} and packs as {}",
                        hex(&m),
                        hex(&n),
                        hex(&packed(&q, 20))
                    );
                }
                "public field"
            }
        };
        names.push(w);
        h = hash64(&[h, hash_bytes(&m)]);
        check0(&format!("Point0 after {w}"), &p, &m)?;
        let o = packed(&p, 20);
        if o != m {
            compare(&format!("Point0 packed after {w}"), &NAMES0, &m, &o)?;
        }
        if Point0::unpack_from(&o) != p {
            fail!(
                "Point0|unpack of pack",
                "the point packed as {} does not unpack as itself",
                hex(&o)
            );
        }
        info.checks += 3;
    }
    info.digest = h;
    info.nontrivial = steps >= 2;
    info.desc = format!("Point0 {:?}", &names[..names.len().min(6)]);
    Ok(())
}

fn point6(s: &mut Src, info: &mut Info) -> CaseResult {
    let mut m = raw(s, 30);
    info.label("Point6 history");
    let mut h = hash_bytes(&m);
    let mut p = if s.chance(1, 10) {
        m = vec![0; 30];
        Point6::default()
    } else {
        Point6::unpack_from(&m)
    };
    check6("Point6", &p, &m)?;
    let steps = s.usize(0, 12);
    let mut names = vec![];
    for _ in 0..steps {
        let w = set6(s, &mut p, &mut m);
        names.push(w);
        h = hash64(&[h, hash_bytes(&m)]);
        check6(&format!("Point6 after {w}"), &p, &m)?;
        let o = packed(&p, 30);
        if o != m {
            compare(&format!("Point6 packed after {w}"), &NAMES6, &m, &o)?;
        }
        if !f64::from_bits(le(&m[22..])).is_nan() && Point6::unpack_from(&o) != p {
            fail!(
                "Point6|unpack of pack",
                "the point packed as {} does not unpack as itself",
                hex(&o)
            );
        }
        info.checks += 3;
    }
    info.digest = h;
    info.nontrivial = steps >= 2;
    info.desc = format!("Point6 {:?}", &names[..names.len().min(6)]);
    Ok(())
}

// ------------------------------------------------------------- point formats

fn check_gps<P: LasGpsTime>(what: &str, p: &P, m: &[u8]) -> CaseResult {
    if p.gps_time().to_bits() != le(m) {
        fail!(
            format!("{what}|gps_time"),
            "{what}: gps time {:#x}, expected {:#x}",
            p.gps_time().to_bits(),
            le(m)
        );
    }
    Ok(())
}

fn set_gps<P: LasGpsTime>(s: &mut Src, p: &mut P, m: &mut [u8]) -> Result<&'static str, Fail> {
    let v = raw(s, 8);
    m.copy_from_slice(&v);
    if s.chance(1, 2) {
        p.set_gps_time(f64::from_bits(le(&v)));
        return Ok("set_gps_time");
    }
    if s.chance(1, 6) {
        // too few bytes: an error, which changes nothing
        let keep = p.gps_time().to_bits();
        let k = s.usize(0, 7);
        if p.read_from(&mut &v[..k]).is_ok() {
            fail!("gps read_from|short", "read_from reads a gps time from {k} bytes");
        }
        m.copy_from_slice(&keep.to_le_bytes());
        return Ok("read_from, short");
    }
    let mut src = v.clone();
    src.push(7);
    let mut r = &src[..];
    e2f("LasGpsTime::read_from", p.read_from(&mut r))?;
    if r.len() != 1 {
        fail!("gps read_from|size", "read_from took {} bytes", 9 - r.len());
    }
    Ok("read_from")
}

fn check_rgb<P: LasRGB>(what: &str, p: &P, m: &[u8]) -> CaseResult {
    let got = [p.red(), p.green(), p.blue()];
    let want = [le(&m[..2]) as u16, le(&m[2..4]) as u16, le(&m[4..6]) as u16];
    if got != want {
        let n = (0..3).find(|i| got[*i] != want[*i]).unwrap();
        fail!(
            format!("{what}|{}", ["red", "green", "blue"][n]),
            "{what}: rgb {got:?}, expected {want:?}"
        );
    }
    Ok(())
}

fn set_rgb<P: LasRGB>(s: &mut Src, p: &mut P, m: &mut [u8]) -> &'static str {
    let v = raw(s, 2);
    let x = le(&v) as u16;
    let (w, at) = match s.draw(3) {
        0 => {
            p.set_red(x);
            ("set_red", 0)
        }
        1 => {
            p.set_green(x);
            ("set_green", 2)
        }
        _ => {
            p.set_blue(x);
            ("set_blue", 4)
        }
    };
    m[at..at + 2].copy_from_slice(&v);
    w
}

/// A history of setters on a typed point made of several parts; after each,
/// all parts are those of the model.
fn history<P: Default + Clone>(
    s: &mut Src,
    info: &mut Info,
    name: &str,
    size: usize,
    parts: &[&dyn Fn(&mut Src, &mut P, &mut [u8]) -> Result<&'static str, Fail>],
    check: &dyn Fn(&str, &P, &[u8]) -> CaseResult,
) -> CaseResult {
    info.label(format!("{name} history"));
    let mut p = P::default();
    let mut m = vec![0u8; size];
    check(&format!("{name} default"), &p, &m)?;
    let steps = s.usize(0, 14);
    let mut h = hash_bytes(name.as_bytes());
    let mut names = vec![];
    for _ in 0..steps {
        let i = s.draw(parts.len() as u64) as usize;
        let w = parts[i](s, &mut p, &mut m)?;
        names.push(w);
        h = hash64(&[h, hash_bytes(&m)]);
        check(&format!("{name} after {w}"), &p, &m)?;
        info.checks += 1;
    }
    check(&format!("{name} cloned"), &p.clone(), &m)?;
    info.digest = h;
    info.nontrivial = steps >= 2;
    info.desc = format!("{name} {:?}", &names[..names.len().min(6)]);
    Ok(())
}

fn wrappers(s: &mut Src, info: &mut Info) -> CaseResult {
    match s.draw(8) {
        0 => history::<Point1>(
            s,
            info,
            "Point1",
            28,
            &[&|s, p, m| Ok(set0(s, p, &mut m[..20])), &|s, p, m| {
                set_gps(s, p, &mut m[20..28])
            }],
            &|w, p, m| {
                check0(w, p, &m[..20])?;
                check_gps(w, p, &m[20..28])
            },
        ),
        1 => history::<Point2>(
            s,
            info,
            "Point2",
            26,
            &[&|s, p, m| Ok(set0(s, p, &mut m[..20])), &|s, p, m| {
                Ok(set_rgb(s, p, &mut m[20..26]))
            }],
            &|w, p, m| {
                check0(w, p, &m[..20])?;
                check_rgb(w, p, &m[20..26])
            },
        ),
        2 => history::<Point3>(
            s,
            info,
            "Point3",
            34,
            &[
                &|s, p, m| Ok(set0(s, p, &mut m[..20])),
                &|s, p, m| set_gps(s, p, &mut m[20..28]),
                &|s, p, m| Ok(set_rgb(s, p, &mut m[28..34])),
            ],
            &|w, p, m| {
                check0(w, p, &m[..20])?;
                check_gps(w, p, &m[20..28])?;
                check_rgb(w, p, &m[28..34])
            },
        ),
        3 => history::<Point4>(
            s,
            info,
            "Point4",
            28,
            &[&|s, p, m| Ok(set0(s, p, &mut m[..20])), &|s, p, m| {
                set_gps(s, p, &mut m[20..28])
            }],
            &|w, p, m| {
                check0(w, p, &m[..20])?;
                check_gps(w, p, &m[20..28])
            },
        ),
        4 => history::<Point5>(
            s,
            info,
            "Point5",
            28,
            &[&|s, p, m| Ok(set0(s, p, &mut m[..20])), &|s, p, m| {
                set_gps(s, p, &mut m[20..28])
            }],
            &|w, p, m| {
                check0(w, p, &m[..20])?;
                check_gps(w, p, &m[20..28])
            },
        ),
        5 => history::<Point7>(
            s,
            info,
            "Point7",
            36,
            &[&|s, p, m| Ok(set6(s, p, &mut m[..30])), &|s, p, m| {
                Ok(set_rgb(s, p, &mut m[30..36]))
            }],
            &|w, p, m| {
                check6(w, p, &m[..30])?;
                check_rgb(w, p, &m[30..36])
            },
        ),
        6 => history::<Point9>(
            s,
            info,
            "Point9",
            30,
            &[&|s, p, m| Ok(set6(s, p, m))],
            &|w, p, m| check6(w, p, m),
        ),
        _ => history::<Point10>(
            s,
            info,
            "Point10",
            30,
            &[&|s, p, m| Ok(set6(s, p, m))],
            &|w, p, m| check6(w, p, m),
        ),
    }
}

// --------------------------------------------------------------- small types

fn small_types(s: &mut Src, info: &mut Info) -> CaseResult {
    match s.draw(4) {
        0 => history::<RGB>(
            s,
            info,
            "RGB",
            6,
            &[&|s, p, m| Ok(set_rgb(s, p, m))],
            &|w, p, m| {
                check_rgb(w, p, m)?;
                if packed(p, 6) != m || RGB::unpack_from(m) != *p {
                    fail!("RGB|pack", "{w}: {p:?} packs as {}", hex(&packed(p, 6)));
                }
                Ok(())
            },
        ),
        1 => history::<Nir>(
            s,
            info,
            "Nir",
            2,
            &[&|s, p, m| {
                let v = raw(s, 2);
                p.set_nir(le(&v) as u16);
                m.copy_from_slice(&v);
                Ok("set_nir")
            }],
            &|w, p, m| {
                if p.nir() as u64 != le(m) {
                    fail!("Nir|nir", "{w}: nir {} expected {}", p.nir(), le(m));
                }
                Ok(())
            },
        ),
        2 => {
            // time as an integer and as a float are the same bits
            history::<GpsTime>(
                s,
                info,
                "GpsTime",
                8,
                &[&|s, p, m| set_gps(s, p, m), &|s, p, m| {
                    let v = raw(s, 8);
                    let k = le(&v);
                    let (w, new) = match s.draw(6) {
                        0 => {
                            *p = GpsTime::from(k as i64);
                            ("from i64", k)
                        }
                        1 => {
                            *p = GpsTime::from(f64::from_bits(k));
                            ("from f64", k)
                        }
                        2 => {
                            *p = *p + k as i64;
                            ("add i64", le(m).wrapping_add(k))
                        }
                        3 => {
                            *p = *p + f64::from_bits(k);
                            ("add f64", le(m).wrapping_add(k))
                        }
                        4 => {
                            *p += k as i64;
                            ("add assign i64", le(m).wrapping_add(k))
                        }
                        _ => {
                            *p += f64::from_bits(k);
                            ("add assign f64", le(m).wrapping_add(k))
                        }
                    };
                    m.copy_from_slice(&new.to_le_bytes());
                    Ok(w)
                }],
                &|w, p, m| {
                    check_gps(w, p, m)?;
                    let (i, f): (i64, f64) = ((*p).into(), (*p).into());
                    if i as u64 != le(m) || f.to_bits() != le(m) || p.value as u64 != le(m) {
                        fail!("GpsTime|conversion", "{w}: {i:#x} {:#x}, expected {:#x}", f.to_bits(), le(m));
                    }
                    if packed(p, 8) != m || GpsTime::unpack_from(m) != *p {
                        fail!("GpsTime|pack", "{w}: {i:#x} packs as {}", hex(&packed(p, 8)));
                    }
                    Ok(())
                },
            )
        }
        _ => {
            info.label("ExtraBytes history");
            let n = s.usize(0, 12);
            let mut m = raw(s, n);
            let mut p = if s.chance(1, 2) {
                ExtraBytes::from(m.clone())
            } else {
                m = vec![0; n];
                ExtraBytes::new(n)
            };
            let steps = s.usize(0, 4);
            let mut h = hash_bytes(&m);
            for i in 0..=steps {
                if p.extra_bytes() != m {
                    fail!(
                        "ExtraBytes|content",
                        "extra bytes {}, expected {}",
                        hex(p.extra_bytes()),
                        hex(&m)
                    );
                }
                if i < steps {
                    m = raw(s, n);
                    p.set_extra_bytes(&m);
                    h = hash64(&[h, hash_bytes(&m)]);
                }
                info.checks += 1;
            }
            info.digest = h;
            info.nontrivial = n > 0 && steps >= 2;
            info.desc = format!("ExtraBytes {n} bytes, {steps} steps");
            Ok(())
        }
    }
}

// --------------------------------------------------------- typed compression

fn items_of(id: u8, version: u16, extra: u16) -> Vec<LazItem> {
    type B = LazItemRecordBuilder;
    macro_rules! old {
        ($p:ty) => {
            match version {
                0 => B::default_version_of::<$p>(extra),
                1 => B::version_1_of::<$p>(extra),
                _ => B::version_2_of::<$p>(extra),
            }
        };
    }
    macro_rules! new {
        ($p:ty) => {
            match version {
                0 => B::default_version_of::<$p>(extra),
                3 => B::version_3_of::<$p>(extra),
                _ => B::version_4_of::<$p>(extra),
            }
        };
    }
    match id {
        0 => old!(Point0),
        1 => old!(Point1),
        2 => old!(Point2),
        3 => old!(Point3),
        4 => old!(Point4),
        5 => old!(Point5),
        6 => new!(Point6),
        7 => new!(Point7),
        8 => new!(Point8),
        9 => new!(Point9),
        _ => new!(Point10),
    }
}

/// Typed points packed in records, compressed with the items of their type,
/// decompressed and unpacked.
fn typed_compression(s: &mut Src, info: &mut Info) -> CaseResult {
    let id = s.draw(11) as u8;
    let extra = if s.chance(1, 2) { 0 } else { s.range(1, 12) as u16 };
    let version = *s.pick(if id < 6 { &[0u16, 1, 2] } else { &[0u16, 3, 4] });
    let items = items_of(id, version, extra);
    let want = [20u64, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][id as usize] + extra as u64;
    let size: u64 = items.iter().map(|i| i.size() as u64).sum();
    let what = format!("Point{id} version {version}");
    info.label(format!("typed compression Point{id}"));
    if size != want {
        fail!(
            format!("items size|{what}"),
            "the items of {what} with {extra} extra bytes have {size} bytes instead of {want}"
        );
    }
    let vlr = LazVlrBuilder::new(items).with_fixed_chunk_size(s.range(1, 60) as u32).build();
    if vlr.items_size() != want {
        fail!(
            format!("vlr items size|{what}"),
            "the VLR of {what} with {extra} extra bytes has records of {} bytes instead of {want}",
            vlr.items_size()
        );
    }
    // the values come from the generator of the format, through typed parts
    let v = if version == 0 { if id < 6 { 2 } else { 3 } } else { version };
    let spec = Spec {
        compressor: if id < 6 { 2 } else { 3 },
        chunk_size: 50,
        items: format_items(id, v, extra),
    };
    let n = s.usize(0, 80);
    let points = Gen::new(&spec).points(s, n);
    let size = want as usize;
    let repack = |r: &[u8]| -> Vec<u8> {
        let mut o = vec![0u8; r.len()];
        let mut at = 0;
        for it in &spec.items {
            let k = it.kind.size() as usize;
            let (r, o) = (&r[at..at + k], &mut o[at..at + k]);
            match it.kind {
                Kind::Point10 => Point0::unpack_from(r).pack_into(o),
                Kind::Point14 => Point6::unpack_from(r).pack_into(o),
                Kind::Gps => GpsTime::unpack_from(r).pack_into(o),
                Kind::Rgb12 | Kind::Rgb14 => RGB::unpack_from(r).pack_into(o),
                Kind::RgbNir14 => {
                    RGB::unpack_from(r).pack_into(o);
                    let mut nir = Nir::default();
                    nir.set_nir(u16::unpack_from(&r[6..]));
                    nir.nir().pack_into(&mut o[6..]);
                }
                Kind::Wave13 | Kind::Wave14 => LasWavepacket::unpack_from(r).pack_into(o),
                Kind::Byte(_) | Kind::Byte14(_) => {
                    let e = ExtraBytes::from(r.to_vec());
                    o.copy_from_slice(e.extra_bytes());
                }
            }
            at += k;
        }
        o
    };
    let typed: Vec<u8> = points.chunks_exact(size).flat_map(repack).collect();
    expect_points("records of typed points", &spec, &points, &typed)?;
    let mut out = Cursor::new(vec![]);
    {
        let mut c = e2f("LasZipCompressor::new", LasZipCompressor::new(&mut out, vlr.clone()))?;
        for p in typed.chunks_exact(size) {
            e2f("compress_one", c.compress_one(p))?;
        }
        e2f("done", c.done())?;
    }
    out.set_position(0);
    let mut r = e2f("LasZipDecompressor::new", LasZipDecompressor::new(out, vlr))?;
    let mut back = vec![];
    let mut one = vec![0u8; size];
    for _ in 0..n {
        e2f("decompress_one", r.decompress_one(&mut one))?;
        back.extend(repack(&one));
    }
    expect_points("typed points decompressed", &spec, &points, &back)?;
    info.checks += 4;
    info.digest = hash64(&[hash_bytes(&points), id as u64, version as u64]);
    info.nontrivial = n >= 2;
    info.desc = format!("{what}, {extra} extra bytes, {n} typed points");
    Ok(())
}
