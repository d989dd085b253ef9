//! The monitored stream: an in-memory file that records every call the
//! library makes on it and can inject short transfers, interruptions and
//! failures. The backing bytes stay reachable after the library has taken
//! ownership of the handle.

use crate::rng::{Rng, mix};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Read { pos: u64, len: usize, got: usize },
    Write { pos: u64, len: usize, put: usize },
    Seek { to: u64 },
    Flush,
    Fault,
}

/// Panic payload used when the library exceeds the I/O step budget of a call.
pub struct StepBudgetExceeded(pub u64);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone, Default)]
pub struct Faults {
    /// Random short transfers.
    pub short: Option<Rng>,
    /// Random `Interrupted` results on reads and writes.
    pub eintr: Option<Rng>,
    /// Fail the n-th (0-based) operation of this kind counted from arming.
    pub fail: Option<(OpKind, u64, io::ErrorKind)>,
    /// After the first hard failure, keep failing operations of that kind.
    pub sticky: bool,
    /// Bytes accepted before writes start failing with StorageFull.
    pub write_budget: Option<u64>,
}

pub enum Store {
    Flat(Vec<u8>),
    /// Explicit extents over a background whose byte at `p` is `pattern(p)`.
    Sparse { len: u64, ext: Vec<(u64, Vec<u8>)> },
    /// Explicit extents over zeros; zeros written past the end are not kept.
    Kept { len: u64, ext: Vec<(u64, Vec<u8>)> },
}

pub fn pattern(p: u64) -> u8 {
    (mix(p >> 3) >> ((p & 7) * 8)) as u8
}

impl Store {
    pub fn len(&self) -> u64 {
        match self {
            Store::Flat(v) => v.len() as u64,
            Store::Sparse { len, .. } | Store::Kept { len, .. } => *len,
        }
    }
    fn read(&self, pos: u64, buf: &mut [u8]) {
        match self {
            Store::Flat(v) => buf.copy_from_slice(&v[pos as usize..pos as usize + buf.len()]),
            Store::Sparse { ext, .. } | Store::Kept { ext, .. } => {
                if matches!(self, Store::Kept { .. }) {
                    buf.fill(0);
                } else {
                    for (i, b) in buf.iter_mut().enumerate() {
                        *b = pattern(pos + i as u64);
                    }
                }
                let end = pos + buf.len() as u64;
                for (s, v) in ext {
                    let e = s + v.len() as u64;
                    let lo = pos.max(*s);
                    let hi = end.min(e);
                    if lo < hi {
                        buf[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&v[(lo - s) as usize..(hi - s) as usize]);
                    }
                }
            }
        }
    }
    fn write(&mut self, pos: u64, data: &[u8]) {
        match self {
            Store::Flat(v) => {
                let pos = pos as usize;
                if v.len() < pos {
                    v.resize(pos, 0);
                }
                let overlap = (v.len() - pos).min(data.len());
                v[pos..pos + overlap].copy_from_slice(&data[..overlap]);
                v.extend_from_slice(&data[overlap..]);
            }
            Store::Kept { len, .. } if pos >= *len && data.iter().all(|b| *b == 0) => {
                *len = pos + data.len() as u64;
            }
            Store::Sparse { len, ext } | Store::Kept { len, ext } => {
                // later extents win; appends extend the last extent in place
                if let Some((s, v)) = ext.last_mut()
                    && *s + v.len() as u64 == pos
                {
                    v.extend_from_slice(data);
                } else {
                    ext.push((pos, data.to_vec()));
                }
                *len = (*len).max(pos + data.len() as u64);
            }
        }
    }
}

pub struct State {
    pub store: Store,
    pub log: Vec<Ev>,
    pub log_on: bool,
    pub faults: Faults,
    /// Operation counters since the last `arm`.
    pub n_read: u64,
    pub n_write: u64,
    pub n_seek: u64,
    pub n_flush: u64,
    /// Totals over the lifetime (monitor evidence).
    pub total_ops: u64,
    pub total_faults: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    /// Lowest position written since last reset (append-only monitor).
    pub min_write_pos: Option<u64>,
    /// Steps allowed before the call is declared runaway.
    pub budget: u64,
    tripped: bool,
}

#[derive(Clone)]
pub struct Shared(pub Rc<RefCell<State>>);

/// The handle given to the library.
pub struct Disk {
    pub st: Shared,
    pos: u64,
    /// Look at the destination buffer before filling it (legal for safe
    /// `Read` implementations; exposes uninitialised memory under Miri).
    pub peek: bool,
    pub peeked: u64,
}

impl std::fmt::Debug for Disk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Disk")
    }
}

impl Shared {
    pub fn new(data: Vec<u8>) -> Self {
        Self::with_store(Store::Flat(data))
    }
    pub fn with_store(store: Store) -> Self {
        Shared(Rc::new(RefCell::new(State {
            store,
            log: vec![],
            log_on: false,
            faults: Faults::default(),
            n_read: 0,
            n_write: 0,
            n_seek: 0,
            n_flush: 0,
            total_ops: 0,
            total_faults: 0,
            bytes_read: 0,
            bytes_written: 0,
            min_write_pos: None,
            budget: u64::MAX,
            tripped: false,
        })))
    }
    pub fn open(&self) -> Disk {
        Disk { st: self.clone(), pos: 0, peek: false, peeked: 0 }
    }
    pub fn open_at(&self, pos: u64) -> Disk {
        Disk { st: self.clone(), pos, peek: false, peeked: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match &self.0.borrow().store {
            Store::Flat(v) => v.clone(),
            _ => panic!("harness: bytes() on sparse store"),
        }
    }
    pub fn with_bytes<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
        match &self.0.borrow().store {
            Store::Flat(v) => f(v),
            _ => panic!("harness: with_bytes() on sparse store"),
        }
    }
    pub fn len(&self) -> u64 {
        self.0.borrow().store.len()
    }
    pub fn arm(&self, faults: Faults) {
        let mut s = self.0.borrow_mut();
        s.faults = faults;
        s.tripped = false;
        s.n_read = 0;
        s.n_write = 0;
        s.n_seek = 0;
        s.n_flush = 0;
    }
    pub fn disarm(&self) {
        self.arm(Faults::default());
    }
    pub fn tripped(&self) -> bool {
        self.0.borrow().tripped
    }
    pub fn set_budget(&self, n: u64) {
        self.0.borrow_mut().budget = n;
    }
    pub fn start_log(&self) {
        let mut s = self.0.borrow_mut();
        s.log.clear();
        s.log_on = true;
    }
    pub fn take_log(&self) -> Vec<Ev> {
        let mut s = self.0.borrow_mut();
        s.log_on = false;
        std::mem::take(&mut s.log)
    }
    pub fn counters(&self) -> (u64, u64, u64, u64) {
        let s = self.0.borrow();
        (s.n_read, s.n_write, s.n_seek, s.n_flush)
    }
    pub fn bytes_written(&self) -> u64 {
        self.0.borrow().bytes_written
    }
    pub fn total_ops(&self) -> u64 {
        self.0.borrow().total_ops
    }
    pub fn take_min_write(&self) -> Option<u64> {
        self.0.borrow_mut().min_write_pos.take()
    }
}

impl State {
    fn step(&mut self) {
        self.total_ops += 1;
        if self.budget != u64::MAX {
            if self.budget == 0 {
                self.budget = u64::MAX;
                std::panic::panic_any(StepBudgetExceeded(self.total_ops));
            }
            self.budget -= 1;
        }
    }
    fn log(&mut self, e: Ev) {
        if self.log_on {
            self.log.push(e);
        }
    }
    fn hard_fault(&mut self, kind: OpKind, n: u64) -> Option<io::Error> {
        if let Some((k, at, err)) = self.faults.fail
            && k == kind
            && (n == at || (self.tripped && self.faults.sticky && n > at))
        {
            self.tripped = true;
            self.total_faults += 1;
            self.log(Ev::Fault);
            return Some(io::Error::new(err, "injected fault"));
        }
        None
    }
    fn interrupted(&mut self) -> bool {
        let hit = self.faults.eintr.as_mut().is_some_and(|r| r.chance(1, 4));
        if hit {
            self.total_faults += 1;
        }
        hit
    }
    fn shorten(&mut self, n: usize) -> usize {
        match self.faults.short.as_mut() {
            Some(r) if n > 1 => {
                let m = match r.below(4) {
                    0 => 1,
                    1 => r.range(1, n),
                    2 => r.range(1, n.min(16)),
                    _ => n,
                };
                if m < n {
                    self.total_faults += 1;
                }
                m
            }
            _ => n,
        }
    }
}

impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.peek {
            // A safe reader may legitimately look at what it is given.
            let look = |a: u64, b: &u8| a.wrapping_mul(31).wrapping_add(*b as u64);
            self.peeked = if cfg!(miri) && buf.len() > 48 {
                // interpreted: both ends and a sample of the middle
                let n = buf.len();
                let ends = buf[..16].iter().chain(&buf[n - 16..]).fold(self.peeked, look);
                buf[16..].iter().step_by(n / 24).fold(ends, look)
            } else {
                buf.iter().fold(self.peeked, look)
            };
            // and decide on it, which is what valgrind watches for
            if std::hint::black_box(self.peeked) & 0xFFFF == 0x1234 {
                self.peeked ^= 1;
            }
        }
        let mut s = self.st.0.borrow_mut();
        s.step();
        let n = s.n_read;
        s.n_read += 1;
        if let Some(e) = s.hard_fault(OpKind::Read, n) {
            return Err(e);
        }
        if !buf.is_empty() && s.interrupted() {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let avail = s.store.len().saturating_sub(self.pos);
        let mut m = (buf.len() as u64).min(avail) as usize;
        m = s.shorten(m);
        if m > 0 {
            s.store.read(self.pos, &mut buf[..m]);
        }
        s.bytes_read += m as u64;
        let pos = self.pos;
        s.log(Ev::Read { pos, len: buf.len(), got: m });
        self.pos += m as u64;
        Ok(m)
    }
}

impl Write for Disk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st.0.borrow_mut();
        s.step();
        let n = s.n_write;
        s.n_write += 1;
        if let Some(e) = s.hard_fault(OpKind::Write, n) {
            return Err(e);
        }
        if !buf.is_empty() && s.interrupted() {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut m = s.shorten(buf.len());
        if let Some(b) = s.faults.write_budget {
            m = (m as u64).min(b) as usize;
            if m == 0 && !buf.is_empty() {
                s.tripped = true;
                s.total_faults += 1;
                s.log(Ev::Fault);
                return Err(io::Error::new(io::ErrorKind::StorageFull, "injected: no space"));
            }
            s.faults.write_budget = Some(b - m as u64);
        }
        if m > 0 {
            let pos = self.pos;
            s.store.write(pos, &buf[..m]);
            s.min_write_pos = Some(s.min_write_pos.map_or(pos, |p| p.min(pos)));
        }
        s.bytes_written += m as u64;
        let pos = self.pos;
        s.log(Ev::Write { pos, len: buf.len(), put: m });
        self.pos += m as u64;
        Ok(m)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.st.0.borrow_mut();
        s.step();
        let n = s.n_flush;
        s.n_flush += 1;
        if let Some(e) = s.hard_fault(OpKind::Flush, n) {
            return Err(e);
        }
        s.log(Ev::Flush);
        Ok(())
    }
}

impl Seek for Disk {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let mut s = self.st.0.borrow_mut();
        s.step();
        let n = s.n_seek;
        s.n_seek += 1;
        if let Some(e) = s.hard_fault(OpKind::Seek, n) {
            return Err(e);
        }
        let target = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(o) => s.store.len() as i128 + o as i128,
            SeekFrom::Current(o) => self.pos as i128 + o as i128,
        };
        // Like a real file: offsets must fit a non-negative signed 64-bit value.
        if target < 0 || target > i64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = target as u64;
        let p = self.pos;
        s.log(Ev::Seek { to: p });
        Ok(p)
    }
}
