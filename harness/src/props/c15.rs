//! C15 Unfinished streams and missing chunk tables.
use super::c06::{append_par, append_seq};
use super::lasfile;
use super::util::*;
use super::writers::*;
use super::Prop;
use crate::engine::*;
use crate::io::{rebuild, Disk, Plan};
use crate::refc::{self, Over};
use laz::las::file::SimpleReader;
use laz::laszip::ChunkTable;
use laz::{LasZipAppender, LasZipDecompressor, LasZipError, LazDecompressor, ParLasZipAppender, ParLasZipDecompressor};

pub static PROP: Prop = Prop {
    id: "C15",
    name: "unfinished streams and missing chunk tables",
    f: case,
    quick: 12_000,
    thorough: 500_000,
    rule: "at least 2 complete points to be read from a stream of which the table is missing, torn or cannot be reached",
    assumptions: &[
        "the bytes left at the end of an unfinished stream do not happen to look like the offset of a place in the file (the format keeps an offset there)",
        "sources that cannot seek fail all seeks, including the question for the position",
    ],
};

fn case(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let threads = gen_threads(s);
    let mut r = Ok(());
    pool(threads).install(|| r = inner(s, info, tier));
    r
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Table {
    /// no offset to it
    Absent,
    /// an offset to something that is not (all of) the table
    Torn,
    /// complete
    There,
}

/// Where a reader looks for the table: the place, if any.
fn place(file: &[u8], start: usize) -> Option<i64> {
    let st = file.get(start..start + 8)?;
    let a = i64::from_le_bytes(st.try_into().unwrap());
    if a > start as i64 {
        return Some(a);
    }
    let b = i64::from_le_bytes(file[file.len() - 8..].try_into().unwrap());
    if b > start as i64 {
        return Some(b);
    }
    None
}

fn entries(d: &Data, file: &[u8], start: usize) -> Result<Vec<(u64, u64)>, LasZipError> {
    let mut c = std::io::Cursor::new(file);
    c.set_position(start as u64);
    let t = ChunkTable::read_from(&mut c, &d.spec.vlr())?;
    Ok(t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect())
}

struct File<'a> {
    d: &'a Data,
    bytes: &'a [u8],
    start: usize,
    /// points of the complete chunks
    ok: usize,
    table: Table,
    desc: &'a str,
}

impl File<'_> {
    fn disk(&self, s: &mut Src, no_seek: bool) -> Disk {
        let mut x = Disk::with(
            self.bytes.to_vec(),
            Plan {
                no_seek,
                max_io: *s.pick(&[0usize, 0, 1, 7, 100]),
                ..Default::default()
            },
        );
        x.pos = self.start as u64;
        x
    }
    fn same(&self, what: &str, at: usize, got: &[u8]) -> CaseResult {
        let rs = self.d.rs();
        expect_points(what, &self.d.spec, &self.d.points[at * rs..at * rs + got.len()], got)
            .map_err(|e| Fail::new(e.sig, format!("{} ({})", e.msg, self.desc)))
    }
    fn e<T, E: std::fmt::Display>(&self, what: &str, r: Result<T, E>) -> Result<T, Fail> {
        e2f(what, r).map_err(|e| Fail::new(format!("{}|{:?}", e.sig, self.table), format!("{} ({})", e.msg, self.desc)))
    }
    /// the table is indispensable here
    fn refused<T>(&self, what: &str, r: Result<T, LasZipError>, can_seek: bool) -> CaseResult {
        match r {
            Ok(_) => {
                fail!(
                    format!("{what} without the table|{:?}", self.table),
                    "{what}: succeeded without a chunk table ({})",
                    self.desc
                )
            }
            Err(LasZipError::MissingChunkTable) => Ok(()),
            Err(e) if self.table == Table::Absent && can_seek => {
                fail!(
                    format!("{what}: other error"),
                    "{what}: {e}, the chunk table is missing ({})",
                    self.desc
                )
            }
            Err(_) => Ok(()),
        }
    }

    /// Reads the complete chunks in order.
    fn sequential(&self, s: &mut Src, no_seek: bool) -> CaseResult {
        let rs = self.d.rs();
        let what = if no_seek { "sequential, no seeking" } else { "sequential" };
        let vlr = self.d.spec.vlr();
        if !no_seek && self.start == 0 && s.chance(1, 6) {
            let mut b = vec![0x5Au8; self.ok * rs];
            self.e("decompress_buffer", laz::decompress_buffer(self.bytes, &mut b, vlr))?;
            return self.same("decompress_buffer", 0, &b);
        }
        let mut x = self.e(what, LasZipDecompressor::new(self.disk(s, no_seek), vlr))?;
        let mut at = 0;
        for g in gen_groups(s, self.ok, true) {
            let mut b = vec![0x5Au8; g * rs];
            match s.draw(3) {
                0 => {
                    for p in b.chunks_mut(rs) {
                        self.e(what, x.decompress_one(p))?;
                    }
                }
                1 => self.e(what, x.decompress_many(&mut b))?,
                _ => self.e(what, LazDecompressor::decompress_many(&mut x, &mut b))?,
            }
            self.same(what, at, &b)?;
            at += g;
            if (self.table != Table::There || no_seek) && s.chance(1, 10) {
                // refused, and does no harm
                let p = s.draw(self.ok as u64 + 2);
                self.refused("LasZipDecompressor::seek", x.seek(p), !no_seek)?;
            }
        }
        Ok(())
    }

    fn check(&self, s: &mut Src, info: &mut Info) -> CaseResult {
        let d = self.d;
        let rs = d.rs();
        let n = self.ok;
        let vlr = d.spec.vlr();
        let needs_table = d.spec.compressor == 2 && d.spec.variable();
        let pointwise = d.spec.compressor == 1;
        info.checks += 2;
        // sources that cannot seek
        if needs_table {
            self.refused(
                "LasZipDecompressor::new, no seeking",
                LasZipDecompressor::new(self.disk(s, true), vlr.clone()).map(|_| ()),
                false,
            )?;
        } else if n > 0 || self.table == Table::There {
            self.sequential(s, true)?;
        }
        if s.chance(1, 2) {
            self.refused(
                "ParLasZipDecompressor::new, no seeking",
                ParLasZipDecompressor::new(self.disk(s, true), vlr.clone()).map(|_| ()),
                false,
            )?;
        }
        // others
        if self.table == Table::There && !pointwise {
            self.sequential(s, false)?;
            let mut b = vec![0x5Au8; n * rs];
            if n > 0 {
                let p = s.usize(0, n - 1);
                let k = (n - p).min(20);
                let mut x = self.e("LasZipDecompressor::new", LasZipDecompressor::new(self.disk(s, false), vlr.clone()))?;
                self.e("seek", x.seek(p as u64))?;
                self.e("decompress_many", x.decompress_many(&mut b[..k * rs]))?;
                self.same("after seek", p, &b[..k * rs])?;
            }
            let mut x = self.e("ParLasZipDecompressor::new", ParLasZipDecompressor::new(self.disk(s, false), vlr))?;
            self.e("par decompress_many", x.decompress_many(&mut b))?;
            return self.same("parallel", 0, &b);
        }
        if needs_table {
            self.refused(
                "LasZipDecompressor::new",
                LasZipDecompressor::new(self.disk(s, false), vlr.clone()).map(|_| ()),
                true,
            )?;
        } else if n > 0 {
            self.sequential(s, false)?;
        }
        if pointwise {
            let mut x = self.e("LasZipDecompressor::new", LasZipDecompressor::new(self.disk(s, false), vlr))?;
            return self.refused("LasZipDecompressor::seek", x.seek(s.draw(n as u64 + 1)), true);
        }
        self.refused(
            "ParLasZipDecompressor::new",
            ParLasZipDecompressor::new(self.disk(s, false), vlr.clone()).map(|_| ()),
            true,
        )?;
        self.refused("ChunkTable::read_from", ChunkTable::read_from(self.disk(s, false), &vlr).map(|_| ()), true)?;
        if self.start == 0 {
            let mut b = vec![0u8; n * rs];
            self.refused("par_decompress_buffer", laz::par_decompress_buffer(self.bytes, &mut b, &vlr), true)?;
        }
        if s.chance(1, 2) {
            self.refused(
                "LasZipAppender::new",
                LasZipAppender::new(self.disk(s, false), vlr, n as u64).map(|_| ()),
                true,
            )?;
        } else {
            self.refused(
                "ParLasZipAppender::new",
                ParLasZipAppender::new(self.disk(s, false), vlr, n as u64).map(|_| ()),
                true,
            )?;
        }
        Ok(())
    }
}

fn inner(s: &mut Src, info: &mut Info, tier: Tier) -> CaseResult {
    let mut o = DataOpts {
        small: 60,
        medium: 200,
        large: if tier == Tier::Quick { 600 } else { 4000 },
        ..Default::default()
    };
    let kind = s.weighted(&[6, 3, 4, 1]);
    o.spec.allow_pointwise = kind == 2;
    o.spec.max_chunk = *s.pick(&[5u32, 40, 200]);
    let d = gen_data(s, &o);
    let rs = d.rs();
    d.label(info);
    let start = *s.pick(&[0usize, 0, 1, 100, 5000]);
    info.digest = hash64(&[d.digest(), kind as u64, start as u64]);
    let sizes = |d: &Data| -> Vec<usize> {
        d.chunk_slices()
            .iter()
            .map(|c| refc::chunk(&d.spec, c, &mut Over(None)).len())
            .collect()
    };
    match kind {
        0 | 1 => {
            // the writer stops
            let mut base = vec![0xA5u8; start];
            let what;
            let mut old: Option<Data> = None;
            let final_file;
            let log;
            if kind == 0 {
                let stale = s.chance(1, 5);
                if stale {
                    let mut f = s.fork();
                    let k = s.usize(1, 3000);
                    base.extend(f.bytes(k));
                    info.label("over an older file");
                }
                let w = pick_writer(s, &d);
                what = format!("{w:?}");
                let mut disk = Disk::with(base.clone(), Plan::default()).logging();
                disk.pos = start as u64;
                write_stream(s, w, &mut disk, &d)?;
                log = disk.log.take().unwrap();
                final_file = disk.data;
            } else {
                let from = if d.spec.variable() {
                    let k = s.usize(0, d.chunks.len());
                    d.chunks[..k].iter().sum()
                } else {
                    s.usize(0, d.n)
                };
                let chunks = if d.spec.variable() {
                    let mut left = from;
                    d.chunks
                        .iter()
                        .copied()
                        .take_while(|c| {
                            let more = left > 0;
                            left = left.saturating_sub(*c);
                            more
                        })
                        .collect()
                } else {
                    fixed_chunks(from, d.spec.chunk_size as usize)
                };
                let first = Data {
                    spec: d.spec.clone(),
                    points: d.points[..from * rs].to_vec(),
                    n: from,
                    chunks,
                };
                base.extend(refc::stream(&d.spec, &first.chunk_slices(), start as u64, &mut Over(None)));
                if s.chance(1, 5) {
                    // e.g. extended VLRs
                    let mut f = s.fork();
                    let k = s.usize(1, 500);
                    base.extend(f.bytes(k));
                }
                let par = s.chance(1, 2);
                what = if par { "append par" } else { "append seq" }.to_string();
                let added = d.n - from;
                let new = if d.spec.variable() {
                    d.chunks[first.chunks.len()..].to_vec()
                } else {
                    vec![added]
                };
                let mut disk = Disk::with(base.clone(), Plan::default()).logging();
                disk.pos = start as u64;
                if par {
                    append_par(s, &mut disk, &d, from, &new, from as u64)?;
                } else {
                    append_seq(s, &mut disk, &d, from, &new, from as u64)?;
                }
                log = disk.log.take().unwrap();
                final_file = disk.data;
                old = Some(first);
            }
            info.label(format!("writer stops: {what}"));
            let last = entries(&d, &final_file, start).map_err(|e| Fail::new("final table", format!("{what}: {e}")))?;
            let first = match &old {
                Some(_) => Some(e2f("original table", entries(&d, &base, start))?),
                None => None,
            };
            let final_sizes = sizes(&d);
            let old_sizes = old.as_ref().map(&sizes);
            let table_place = place(&final_file, start);
            let times = s.usize(1, 4);
            let mut most = 0;
            for _ in 0..times {
                // mostly among the last events, where the table is written
                let n = log.len();
                let at = match s.draw(4) {
                    0 => n - s.usize(0, n.min(6)),
                    _ => s.usize(0, n),
                };
                let torn = if at < n && s.chance(1, 3) {
                    let crate::io::Ev::Write { data, .. } = &log[at];
                    Some(s.usize(0, data.len()))
                } else {
                    None
                };
                let now = rebuild(&base, &log, at, torn);
                let desc = format!("{what} stopped after write {at} of {n}, {torn:?} bytes of the next, at {start}: {}", d.desc());
                info.desc = desc.clone();
                if now.len() < start + 8 || (log.is_empty() && now.is_empty()) {
                    continue;
                }
                // complete chunks
                let complete = |sizes: &[usize], chunks: &[usize], of: &[u8]| {
                    let mut p = start + 8;
                    let mut k = 0;
                    for (len, c) in sizes.iter().zip(chunks) {
                        if now.len() < p + len || now[p..p + len] != of[p..p + len] {
                            break;
                        }
                        p += len;
                        k += c;
                    }
                    k
                };
                let mut ok = complete(&final_sizes, &d.chunks, &final_file);
                if let (Some(f), Some(sz)) = (&old, &old_sizes) {
                    ok = ok.max(complete(sz, &f.chunks, &base));
                }
                let p = place(&now, start);
                let table = match entries(&d, &now, start) {
                    Ok(t) if t == last && p == table_place => Table::There,
                    Ok(t) if Some(&t) == first.as_ref() && p == place(&base, start) => Table::There,
                    Ok(t) => {
                        if let Some(off) = p {
                            if Some(off) != table_place && Some(off) != place(&base, start) {
                                info.label("the bytes look like an offset");
                                continue;
                            }
                        }
                        fail!(
                            format!("wrong table|{what}"),
                            "the chunk table read is {t:?}, the one being written is {last:?}{} ({desc})",
                            match &first {
                                Some(f) => format!(", the original one {f:?}"),
                                None => String::new(),
                            }
                        );
                    }
                    Err(_) if p.is_some() => Table::Torn,
                    Err(_) => Table::Absent,
                };
                if table == Table::There {
                    let want = if entries(&d, &now, start).ok().as_ref() == Some(&last) {
                        d.n
                    } else {
                        old.as_ref().map_or(0, |o| o.n)
                    };
                    if ok < want {
                        fail!(
                            format!("table before the chunks|{what}"),
                            "the chunk table is there, but only {ok} of {want} points are ({desc})"
                        );
                    }
                    ok = want;
                }
                let f = File {
                    d: &d,
                    bytes: &now,
                    start,
                    ok,
                    table,
                    desc: &desc,
                };
                info.label(format!("table {table:?}"));
                f.check(s, info)?;
                if table != Table::There {
                    most = most.max(ok);
                }
            }
            info.nontrivial = most >= 2;
        }
        2 => {
            // a finished stream without (its offset to) the table
            let mut st = refc::stream(&d.spec, &d.chunk_slices(), start as u64, &mut Over(None));
            let mut table = Table::Absent;
            let mut how = "pointwise".to_string();
            if d.spec.compressor != 1 {
                let off = i64::from_le_bytes(st[..8].try_into().unwrap());
                if s.chance(1, 2) {
                    st.truncate(off as usize - start);
                    how = "no table".to_string();
                } else {
                    how = "no offset to the table".to_string();
                }
                let v = *s.pick(&[-1i64, 0, start as i64, i64::MIN, -2]);
                how += &format!(", offset {v}");
                st[..8].copy_from_slice(&v.to_le_bytes());
                if how.starts_with("no offset") && s.chance(1, 3) {
                    // LASzip puts it at the end when it cannot go back
                    st.extend(off.to_le_bytes());
                    how += ", offset at the end";
                    table = Table::There;
                } else {
                    let k = st.len();
                    if i64::from_le_bytes(st[k - 8..].try_into().unwrap()) > start as i64 {
                        st.push(0x80);
                    }
                }
            }
            info.label(how.split(", offset -").next().unwrap_or("").to_string());
            let mut bytes = vec![0x5Bu8; start];
            bytes.extend(st);
            let desc = format!("{how} at {start}: {}", d.desc());
            info.desc = desc.clone();
            let f = File {
                d: &d,
                bytes: &bytes,
                start,
                ok: d.n,
                table,
                desc: &desc,
            };
            f.check(s, info)?;
            info.nontrivial = d.n >= 2;
        }
        _ => {
            // in a LAZ file
            if lasfile::format_of(&d.spec).is_none() {
                return Ok(());
            }
            let mut stopped = (0, 0, String::new());
            let w = pick_writer(s, &d);
            let f = lasfile::build(s, &d, true, true, |s, at| {
                let mut disk = Disk::with(vec![0u8; at as usize], Plan::default()).logging();
                disk.pos = at;
                write_stream(s, w, &mut disk, &d)?;
                let log = disk.log.take().unwrap();
                let k = s.usize(0, log.len());
                let mut now = rebuild(&vec![0u8; at as usize], &log, k, None);
                let mut p = at as usize + 8;
                let mut n = 0;
                for (len, c) in sizes(&d).iter().zip(&d.chunks) {
                    if now.len() < p + len || now[p..p + len] != disk.data[p..p + len] {
                        break;
                    }
                    p += len;
                    n += c;
                }
                stopped = (n, at as usize, format!("{w:?} stopped after write {k} of {}", log.len()));
                // also keeps what comes next from being taken for an offset
                if place(&now, at as usize).is_none() || now.len() < at as usize + 8 {
                    now.extend([0x80; 16]);
                }
                Ok(now[at as usize..].to_vec())
            })?;
            let (n, at, how) = stopped;
            info.label("LAZ file");
            info.desc = format!("LAZ file, {how}: {}", d.desc());
            let mut bytes = f.bytes;
            // what `build` puts at the end is not an offset
            let k = bytes.len();
            if i64::from_le_bytes(bytes[k - 8..].try_into().unwrap()) > at as i64 {
                bytes.push(0x80);
            }
            let needs_table = d.spec.compressor == 2 && d.spec.variable();
            let got = SimpleReader::new(std::io::Cursor::new(&bytes[..]));
            if needs_table {
                if entries(&d, &bytes, at).is_err() {
                    if got.is_ok() {
                        fail!("SimpleReader without the table", "SimpleReader::new succeeded ({})", info.desc);
                    }
                }
                return Ok(());
            }
            if n == 0 {
                return Ok(());
            }
            let mut r = e2f("SimpleReader::new", got).map_err(|e| Fail::new(e.sig, format!("{} ({})", e.msg, info.desc)))?;
            for i in 0..n {
                let Some(p) = r.read_next() else {
                    fail!("SimpleReader stops", "SimpleReader stops after {i} points of {n} ({})", info.desc);
                };
                let p = e2f("SimpleReader::read_next", p).map_err(|e| Fail::new(e.sig, format!("{} ({})", e.msg, info.desc)))?;
                expect_points("SimpleReader", &d.spec, &d.points[i * rs..(i + 1) * rs], p)?;
                info.checks += 1;
            }
            info.nontrivial = n >= 2;
        }
    }
    Ok(())
}
