//! In-memory file doubles: short and interrupted transfers, injected errors,
//! sources that cannot seek, full devices, and a log of all writes from which
//! the file can be rebuilt as it was at any moment.
use crate::engine::Rng;
use std::cell::RefCell;
use std::sync::{Arc, Mutex, MutexGuard};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

pub const INJECTED: &str = "injected fault";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone)]
pub enum Ev {
    Write { pos: u64, data: Vec<u8> },
}

/// What goes wrong, and when.
#[derive(Clone, Default)]
pub struct Plan {
    /// random transfer lengths and interruptions
    pub jitter: Option<Rng>,
    /// at most this many bytes per transfer (0: no limit)
    pub max_io: usize,
    /// percent of transfers answered with `Interrupted`
    pub interrupt: u64,
    /// the operation with this index fails
    pub fail_at: Option<u64>,
    pub fail_kind: Option<ErrorKind>,
    /// ... and all later ones too
    pub sticky: bool,
    pub no_seek: bool,
    /// writes past this size fail or transfer nothing
    pub full_at: Option<u64>,
    pub full_is_zero: bool,
    /// panics when more operations than this are made (0: no limit)
    pub max_ops: u64,
}

#[derive(Clone, Default)]
pub struct Disk {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub ops: u64,
    /// indices of the operations that are not transfers
    pub others: Vec<u64>,
    pub bytes_read: u64,
    /// kinds of the failed operations
    pub failed: Vec<Kind>,
    pub log: Option<Vec<Ev>>,
    /// smallest offset written
    pub lowest_write: u64,
}

impl Disk {
    pub fn new(data: Vec<u8>) -> Disk {
        Disk {
            data,
            lowest_write: u64::MAX,
            ..Default::default()
        }
    }
    pub fn with(data: Vec<u8>, plan: Plan) -> Disk {
        Disk {
            data,
            plan,
            lowest_write: u64::MAX,
            ..Default::default()
        }
    }
    pub fn logging(mut self) -> Disk {
        self.log = Some(vec![]);
        self
    }
    fn op(&mut self, k: Kind) -> Result<()> {
        let i = self.ops;
        self.ops += 1;
        if !matches!(k, Kind::Read | Kind::Write) && self.others.len() < 10_000 {
            self.others.push(i);
        }
        if self.plan.max_ops > 0 && self.ops > self.plan.max_ops {
            panic!("endless loop: more than {} I/O operations", self.plan.max_ops);
        }
        if let Some(f) = self.plan.fail_at {
            if i == f || (self.plan.sticky && i > f) {
                self.failed.push(k);
                return Err(Error::new(
                    self.plan.fail_kind.unwrap_or(ErrorKind::PermissionDenied),
                    format!("{INJECTED} at operation {i}"),
                ));
            }
        }
        Ok(())
    }
    fn len(&mut self, n: usize) -> Result<usize> {
        let p = &mut self.plan;
        let mut n = n;
        if p.max_io > 0 {
            n = n.min(p.max_io);
        }
        if let Some(r) = &mut p.jitter {
            if p.interrupt > 0 && r.next() % 100 < p.interrupt {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            if n > 1 {
                n = 1 + (r.next() % n as u64) as usize;
            }
        }
        Ok(n)
    }
}

impl Read for Disk {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.op(Kind::Read)?;
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.len(b.len())?;
        let at = (self.pos.min(self.data.len() as u64)) as usize;
        let n = n.min(self.data.len() - at);
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        self.bytes_read += n as u64;
        Ok(n)
    }
}

impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.op(Kind::Write)?;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = self.len(b.len())?;
        if let Some(full) = self.plan.full_at {
            let room = full.saturating_sub(self.pos) as usize;
            if room == 0 {
                self.failed.push(Kind::Write);
                if self.plan.full_is_zero {
                    return Ok(0);
                }
                return Err(Error::new(ErrorKind::Other, format!("{INJECTED}: device full")));
            }
            n = n.min(room);
        }
        let at = self.pos as usize;
        if self.data.len() < at + n {
            self.data.resize(at + n, 0);
        }
        self.data[at..at + n].copy_from_slice(&b[..n]);
        self.lowest_write = self.lowest_write.min(self.pos);
        if let Some(l) = &mut self.log {
            l.push(Ev::Write {
                pos: self.pos,
                data: b[..n].to_vec(),
            });
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.op(Kind::Flush)
    }
}

impl Seek for Disk {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op(Kind::Seek)?;
        if self.plan.no_seek {
            return Err(Error::new(ErrorKind::Other, "this source cannot seek"));
        }
        let p = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// The file after the first `n` events of `log`, starting from `base`; `torn`
/// keeps only that many bytes of event `n`.
pub fn rebuild(base: &[u8], log: &[Ev], n: usize, torn: Option<usize>) -> Vec<u8> {
    let mut d = base.to_vec();
    let mut put = |pos: u64, b: &[u8]| {
        let at = pos as usize;
        if d.len() < at + b.len() {
            d.resize(at + b.len(), 0);
        }
        d[at..at + b.len()].copy_from_slice(b);
    };
    for e in &log[..n] {
        let Ev::Write { pos, data } = e;
        put(*pos, data);
    }
    if let (Some(k), Some(Ev::Write { pos, data })) = (torn, log.get(n)) {
        put(*pos, &data[..k.min(data.len())]);
    }
    d
}

/// A file of which only the part from `base` on is held: everything before is
/// `PREFIX` and must not be written.
pub struct Far {
    pub base: u64,
    pub data: Vec<u8>,
    pub pos: u64,
    /// a write touched the part before `base`
    pub touched: Option<u64>,
}

impl Far {
    pub const PREFIX: u8 = 0xA7;
    /// positioned at `base`
    pub fn new(base: u64, data: Vec<u8>) -> Far {
        Far {
            base,
            data,
            pos: base,
            touched: None,
        }
    }
}

impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.pos < self.base {
            let n = (b.len() as u64).min(self.base - self.pos) as usize;
            b[..n].fill(Far::PREFIX);
            self.pos += n as u64;
            return Ok(n);
        }
        let at = (self.pos - self.base).min(self.data.len() as u64) as usize;
        let n = b.len().min(self.data.len() - at);
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Far {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if self.pos < self.base {
            self.touched = Some(self.pos);
            self.pos += b.len() as u64;
            return Ok(b.len());
        }
        let at = self.pos - self.base;
        if at > self.data.len() as u64 + (1 << 26) {
            return Err(Error::new(ErrorKind::Other, format!("write far beyond the end, {at} bytes after the start")));
        }
        let at = at as usize;
        if self.data.len() < at + b.len() {
            self.data.resize(at + b.len(), 0);
        }
        self.data[at..at + b.len()].copy_from_slice(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Far {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.base as i128 + self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A file with holes (which read as zeros), for sizes beyond what is held.
#[derive(Clone, Default)]
pub struct Sparse {
    pages: std::collections::HashMap<u64, Box<[u8]>>,
    pub len: u64,
    pub pos: u64,
}

impl Sparse {
    const PAGE: u64 = 4096;
    pub fn put(&mut self, mut at: u64, mut b: &[u8]) {
        while !b.is_empty() {
            let o = (at % Self::PAGE) as usize;
            let n = b.len().min(Self::PAGE as usize - o);
            let page = self
                .pages
                .entry(at / Self::PAGE)
                .or_insert_with(|| vec![0; Self::PAGE as usize].into_boxed_slice());
            page[o..o + n].copy_from_slice(&b[..n]);
            at += n as u64;
            b = &b[n..];
        }
        self.len = self.len.max(at);
    }
    pub fn get(&self, at: u64, n: usize) -> Vec<u8> {
        let mut out = vec![0; n];
        let mut k = 0;
        while k < n {
            let p = at + k as u64;
            let o = (p % Self::PAGE) as usize;
            let m = (n - k).min(Self::PAGE as usize - o);
            if let Some(page) = self.pages.get(&(p / Self::PAGE)) {
                out[k..k + m].copy_from_slice(&page[o..o + m]);
            }
            k += m;
        }
        out
    }
}

impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        let x = self.get(self.pos, n);
        b[..n].copy_from_slice(&x);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.put(self.pos, b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A `Disk` that can be looked at while something else uses it.
#[derive(Clone)]
pub struct Shared(pub Arc<Mutex<Disk>>);
impl Shared {
    pub fn new(d: Disk) -> Shared {
        Shared(Arc::new(Mutex::new(d)))
    }
    pub fn disk(&self) -> MutexGuard<'_, Disk> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.disk().read(b)
    }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.disk().write(b)
    }
    fn flush(&mut self) -> Result<()> {
        self.disk().flush()
    }
}
impl Seek for Shared {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.disk().seek(to)
    }
}

/// What `e2f` looks at after each call into laz: an I/O operation that failed
/// during a call that succeeded.
pub struct Watch {
    pub disk: Shared,
    /// calls that may succeed all the same
    pub may_ignore: fn(&str, Kind) -> bool,
    pub ignored: bool,
    pub swallowed: Option<String>,
}
thread_local! {
    pub static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
}
pub fn after_call(what: &str, ok: bool) {
    WATCH.with(|w| {
        let mut w = w.borrow_mut();
        let Some(w) = w.as_mut() else { return };
        if !ok {
            return;
        }
        let failed = std::mem::take(&mut w.disk.disk().failed);
        for k in failed {
            if (w.may_ignore)(what, k) {
                w.ignored = true;
            } else if w.swallowed.is_none() {
                w.swallowed = Some(format!("{what} although a {k:?} failed"));
            }
        }
    })
}
