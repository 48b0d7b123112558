//! Independent description of LAZ record layouts and of the laszip VLR, used
//! to build inputs without going through the code under test.

use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Byte(u16),
    Point10,
    Gps,
    Rgb12,
    Wave13,
    Point14,
    Rgb14,
    RgbNir14,
    Wave14,
    Byte14(u16),
}

impl Kind {
    pub fn code(self) -> u16 {
        match self {
            Kind::Byte(_) => 0,
            Kind::Point10 => 6,
            Kind::Gps => 7,
            Kind::Rgb12 => 8,
            Kind::Wave13 => 9,
            Kind::Point14 => 10,
            Kind::Rgb14 => 11,
            Kind::RgbNir14 => 12,
            Kind::Wave14 => 13,
            Kind::Byte14(_) => 14,
        }
    }
    pub fn size(self) -> u16 {
        match self {
            Kind::Byte(n) | Kind::Byte14(n) => n,
            Kind::Point10 => 20,
            Kind::Gps => 8,
            Kind::Rgb12 | Kind::Rgb14 => 6,
            Kind::Wave13 | Kind::Wave14 => 29,
            Kind::Point14 => 30,
            Kind::RgbNir14 => 8,
        }
    }
    pub fn layered(self) -> bool {
        matches!(
            self,
            Kind::Point14 | Kind::Rgb14 | Kind::RgbNir14 | Kind::Wave14 | Kind::Byte14(_)
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Item {
    pub kind: Kind,
    pub version: u16,
}

pub const VARIABLE: u32 = u32::MAX;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Spec {
    /// 1 = point wise, 2 = point wise chunked, 3 = layered chunked
    pub compressor: u16,
    pub chunk_size: u32,
    pub items: Vec<Item>,
}

impl Spec {
    pub fn record_size(&self) -> usize {
        self.items.iter().map(|i| i.kind.size() as usize).sum()
    }
    pub fn layered(&self) -> bool {
        self.compressor == 3
    }
    pub fn variable(&self) -> bool {
        self.chunk_size == VARIABLE
    }
    /// The laszip VLR record data, as the LASzip specification lays it out.
    pub fn vlr_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend(self.compressor.to_le_bytes());
        v.extend(0u16.to_le_bytes()); // coder
        v.push(2); // version major
        v.push(2);
        v.extend(0u16.to_le_bytes()); // revision
        v.extend(0u32.to_le_bytes()); // options
        v.extend(self.chunk_size.to_le_bytes());
        v.extend((-1i64).to_le_bytes());
        v.extend((-1i64).to_le_bytes());
        v.extend((self.items.len() as u16).to_le_bytes());
        for i in &self.items {
            v.extend(i.kind.code().to_le_bytes());
            v.extend(i.kind.size().to_le_bytes());
            v.extend(i.version.to_le_bytes());
        }
        v
    }
    pub fn vlr(&self) -> laz::LazVlr {
        laz::LazVlr::from_buffer(self.vlr_bytes()).expect("valid laszip VLR rejected")
    }
    pub fn desc(&self) -> String {
        let items: Vec<String> = self
            .items
            .iter()
            .map(|i| format!("{:?}v{}", i.kind, i.version))
            .collect();
        let c = if self.variable() {
            "var".to_string()
        } else {
            self.chunk_size.to_string()
        };
        format!("[{}] compressor {} chunk {}", items.join(","), self.compressor, c)
    }
}

/// Items of a LAS point format in the given compression version.
pub fn format_items(id: u8, version: u16, extra: u16) -> Vec<Item> {
    let mut k = match id {
        0 => vec![Kind::Point10],
        1 => vec![Kind::Point10, Kind::Gps],
        2 => vec![Kind::Point10, Kind::Rgb12],
        3 => vec![Kind::Point10, Kind::Gps, Kind::Rgb12],
        4 => vec![Kind::Point10, Kind::Gps, Kind::Wave13],
        5 => vec![Kind::Point10, Kind::Gps, Kind::Rgb12, Kind::Wave13],
        6 => vec![Kind::Point14],
        7 => vec![Kind::Point14, Kind::Rgb14],
        8 => vec![Kind::Point14, Kind::RgbNir14],
        9 => vec![Kind::Point14, Kind::Wave14],
        _ => vec![Kind::Point14, Kind::RgbNir14, Kind::Wave14],
    };
    if extra > 0 {
        k.push(if id < 6 {
            Kind::Byte(extra)
        } else {
            Kind::Byte14(extra)
        });
    }
    k.into_iter().map(|kind| Item { kind, version }).collect()
}

/// What the generator of layouts may produce.
#[derive(Clone, Copy)]
pub struct SpecOpts {
    pub allow_pointwise: bool,
    pub only_layered: bool,
    pub only_sequential: bool,
    pub max_chunk: u32,
    pub allow_variable: bool,
    pub allow_fixed: bool,
    /// arbitrary combinations of items, not only those of a LAS point format
    pub free_items: bool,
    pub max_extra: u16,
    /// some layouts have many extra bytes, up to about this many (0: none)
    pub wide: u16,
    /// the record size must fit 16 bits, as in a LAS header
    pub las_size: bool,
}

impl Default for SpecOpts {
    fn default() -> Self {
        SpecOpts {
            allow_pointwise: false,
            only_layered: false,
            only_sequential: false,
            max_chunk: 64,
            allow_variable: true,
            allow_fixed: true,
            free_items: true,
            max_extra: 12,
            wide: 20_000,
            las_size: false,
        }
    }
}

pub fn gen_spec(s: &mut Src, o: SpecOpts) -> Spec {
    let layered = if o.only_layered {
        true
    } else if o.only_sequential {
        false
    } else {
        s.chance(1, 2)
    };
    let version = (if layered { 3 } else { 1 }) + s.draw(2) as u16;
    let extra = match s.weighted(&[5, 3, 1]) {
        0 => 0,
        1 => 1 + s.draw(4.min(o.max_extra as u64).max(1)) as u16,
        _ => 1 + s.draw(o.max_extra.max(1) as u64) as u16,
    };
    let mut extra = extra.min(o.max_extra);
    if o.wide > 0 && s.chance(1, 40) {
        // as wide as other tools make them
        extra = match s.weighted(&[20, 10, (o.wide > 1000) as u32]) {
            0 => *s.pick(&[16u16, 17, 31, 32, 33, 63, 64, 65, 100]),
            1 => *s.pick(&[127u16, 128, 129, 192, 255, 256, 257, 300]),
            // a size that needs all 16 bits
            _ if o.wide >= 20_000 && s.chance(1, 5) => {
                if layered {
                    *s.pick(&[32_767u16, 32_768, 33_000])
                } else {
                    *s.pick(&[32_767u16, 32_768, 33_000, 50_000, if o.las_size { 65_400 } else { 65_535 }])
                }
            }
            _ => s.range(1000, o.wide as u64) as u16,
        };
    }
    let mut items = if o.free_items && s.chance(1, 6) {
        // any set of items in any order
        let n = s.usize(1, 4);
        (0..n)
            .map(|i| {
                let kind = if layered {
                    if i == 0 {
                        // the point item carries the scanner channel used by
                        // all the others
                        Kind::Point14
                    } else {
                        match s.draw(4) {
                            0 => Kind::Byte14(1 + s.draw(4) as u16),
                            1 => Kind::Rgb14,
                            2 => Kind::RgbNir14,
                            _ => Kind::Wave14,
                        }
                    }
                } else {
                    match s.draw(5) {
                        0 => Kind::Byte(1 + s.draw(4) as u16),
                        1 => Kind::Gps,
                        2 => Kind::Rgb12,
                        3 => Kind::Wave13,
                        _ => Kind::Point10,
                    }
                };
                Item { kind, version }
            })
            .collect()
    } else {
        let id = if layered { 6 + s.draw(5) } else { s.draw(6) } as u8;
        format_items(id, version, extra)
    };
    if o.free_items && s.chance(1, 10) {
        // LASzip writes e.g. version 1 wavepackets next to version 2 points
        for it in items.iter_mut().skip(1) {
            if s.chance(1, 2) {
                it.version = (if layered { 3 } else { 1 }) + s.draw(2) as u16;
            }
        }
    }
    let variable = if !o.allow_fixed {
        true
    } else if !o.allow_variable {
        false
    } else {
        s.chance(1, 3)
    };
    let chunk_size = if variable {
        VARIABLE
    } else {
        let c = match s.weighted(&[3, 6, 2]) {
            0 => s.range(1, 6.min(o.max_chunk as u64)),
            1 => s.range(1, (o.max_chunk as u64).min(60)),
            _ => s.range(1, o.max_chunk as u64),
        };
        c as u32
    };
    let mut compressor = if layered { 3 } else { 2 };
    let mut chunk_size = chunk_size;
    if !layered && o.allow_pointwise && s.chance(1, 4) {
        compressor = 1;
        // the chunk size means nothing here, writers put various values
        chunk_size = *s.pick(&[0xFFFF_FFFE, 0, VARIABLE, 50_000, 5]);
    }
    Spec {
        compressor,
        chunk_size,
        items,
    }
}
