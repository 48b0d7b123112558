//! LAS/LAZ files built from their specification.
use super::util::*;
use crate::engine::*;
use crate::spec::*;

pub struct LasFile {
    pub bytes: Vec<u8>,
    pub minor: u8,
    pub format: u8,
    pub point_size: u16,
    pub header_size: u16,
    pub offset_to_points: u32,
    pub num_vlrs: u32,
    pub n: u64,
    pub compressed: bool,
    /// where each VLR starts
    pub vlrs: Vec<usize>,
    pub has_laszip_vlr: bool,
}

pub fn put_vlr(out: &mut Vec<u8>, user: &[u8], id: u16, data: &[u8], desc: &[u8]) {
    out.extend([0, 0]);
    let mut u = [0u8; 16];
    u[..user.len()].copy_from_slice(user);
    out.extend(u);
    out.extend(id.to_le_bytes());
    out.extend((data.len() as u16).to_le_bytes());
    let mut d = [0u8; 32];
    d[..desc.len()].copy_from_slice(desc);
    out.extend(d);
    out.extend(data);
}

/// LAS point format of a layout and its number of extra bytes.
pub fn format_of(spec: &Spec) -> Option<(u8, u16)> {
    if spec.record_size() > 65_535 {
        // the header has 16 bits for it
        return None;
    }
    for id in 0..=10u8 {
        for (last, extra) in [
            (None, 0),
            (
                spec.items.last(),
                match spec.items.last().map(|i| i.kind) {
                    Some(Kind::Byte(n)) | Some(Kind::Byte14(n)) => n,
                    _ => 0,
                },
            ),
        ] {
            if last.is_some() && extra == 0 {
                continue;
            }
            let want: Vec<Kind> = format_items(id, 0, extra).iter().map(|i| i.kind).collect();
            let got: Vec<Kind> = spec.items.iter().map(|i| i.kind).collect();
            if want == got {
                return Some((id, extra));
            }
        }
    }
    None
}

/// A LAS (uncompressed) or LAZ file holding the points of `d`, whose layout
/// must be that of a point format. `stream` makes the compressed points, given
/// the position they start at.
pub fn build(
    s: &mut Src,
    d: &Data,
    compressed: bool,
    laszip_vlr: bool,
    stream: impl FnOnce(&mut Src, u64) -> Result<Vec<u8>, Fail>,
) -> Result<LasFile, Fail> {
    let (format, _) = format_of(&d.spec).expect("layout of a point format");
    let minor = if format >= 6 {
        4
    } else {
        let lo = match format {
            0 | 1 => 0,
            2 | 3 => 2,
            _ => 3,
        };
        s.range(lo, 4) as u8
    };
    let mut header_size: u16 = match minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    };
    if s.chance(1, 6) {
        // user data may follow the defined header
        header_size += if s.chance(1, 8) {
            s.range(40, 65_535 - 375) as u16
        } else {
            s.range(1, 40) as u16
        };
    }
    let mut f = s.fork();
    let mut h = f.bytes(header_size as usize);
    h[..4].copy_from_slice(b"LASF");
    h[24] = 1;
    h[25] = minor;
    h[94..96].copy_from_slice(&header_size.to_le_bytes());
    let mut body = vec![];
    let mut vlrs = vec![];
    let others = |s: &mut Src, body: &mut Vec<u8>, vlrs: &mut Vec<usize>| {
        let (k, small) = match s.weighted(&[4, 2, 1, 1, 1]) {
            4 if s.chance(1, 100) => (s.usize(65_530, 65_560), true),
            4 => (s.usize(4, 300), true),
            k => (k, false),
        };
        for _ in 0..k {
            vlrs.push(body.len() + header_size as usize);
            if small && k > 300 {
                put_vlr(body, b"any", 1, &[], b"");
                continue;
            }
            let mut f = s.fork();
            let n = if small {
                f.usize(0, 9)
            } else {
                *s.pick(&[0usize, 1, 54, 200, 3000, 65535])
            };
            let data = f.bytes(n);
            match s.draw(6) {
                4 => put_vlr(body, b"laszip encoded2", 22204, &data, b"laszip encoded"),
                5 => put_vlr(body, b"LASF_Spec", 22204, &data, b"laszip encoded"),
                0 => put_vlr(body, b"LASF_Projection", 34735, &data, b"GeoKeys"),
                1 => {
                    // the user id alone does not make it the LASzip VLR
                    let id = *f.pick(&[22203u16, 22205, 22206, 0, 1, 65535, 0xBC56, 0x5600]);
                    put_vlr(body, b"laszip encoded", id, &data, b"")
                }
                2 => put_vlr(body, b"laszip", 22204, &data, &[0x41; 32]),
                _ => {
                    let mut u = f.bytes(16);
                    u[0] = b'x';
                    put_vlr(body, &u, 22204, &data, b"not laszip")
                }
            }
        }
    };
    others(s, &mut body, &mut vlrs);
    if laszip_vlr {
        vlrs.push(body.len() + header_size as usize);
        put_vlr(
            &mut body,
            b"laszip encoded",
            22204,
            &d.spec.vlr_bytes(),
            b"by laszip",
        );
        others(s, &mut body, &mut vlrs);
    }
    let num_vlrs = vlrs.len() as u32;
    if s.chance(1, 3) {
        let k = s.usize(1, 100);
        let mut f = s.fork();
        body.extend(f.bytes(k));
    }
    let offset_to_points = header_size as u32 + body.len() as u32;
    h[96..100].copy_from_slice(&offset_to_points.to_le_bytes());
    h[100..104].copy_from_slice(&num_vlrs.to_le_bytes());
    h[104] = format | if compressed { 0x80 } else { 0 };
    let rs = d.rs() as u16;
    h[105..107].copy_from_slice(&rs.to_le_bytes());
    let legacy: u32 = if minor >= 4 && (format >= 6 || s.chance(1, 2)) {
        // the legacy field is zero or garbage for new files
        *s.pick(&[0u32, 7])
    } else {
        d.n as u32
    };
    h[107..111].copy_from_slice(&legacy.to_le_bytes());
    if minor >= 4 {
        h[247..255].copy_from_slice(&(d.n as u64).to_le_bytes());
    }
    let mut bytes = h;
    bytes.extend(body);
    if compressed {
        bytes.extend(stream(s, offset_to_points as u64)?);
    } else {
        bytes.extend(&d.points);
    }
    if s.chance(1, 3) {
        // extended VLRs or other data
        let k = s.usize(1, 100);
        let mut f = s.fork();
        bytes.extend(f.bytes(k));
    }
    Ok(LasFile {
        bytes,
        minor,
        format,
        point_size: rs,
        header_size,
        offset_to_points,
        num_vlrs,
        n: d.n as u64,
        compressed,
        vlrs,
        has_laszip_vlr: laszip_vlr,
    })
}
