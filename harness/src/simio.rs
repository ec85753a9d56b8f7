//! The simulated storage device: a `Read + Write + Seek` stream whose every answer is decided by
//! the simulator (chunking, interruptions, errors, end of file, disk full, crashes), with a
//! volatile write-back cache in front of the durable contents.

use crate::tape::{Digest, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Panic payload thrown when a run exceeds its step budget (an endless loop over the stream).
pub struct BudgetExceeded;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Call fails with EINTR once.
    Eintr,
    /// Call fails once with a real error.
    Err(io::ErrorKind),
    /// Call and all following calls fail.
    ErrSticky(io::ErrorKind),
    /// Transfers at most n bytes.
    Short(usize),
    /// Reads return end of file from here on / writes accept nothing from here on.
    Zero,
    /// The process dies after n bytes of this write were accepted.
    Crash(usize),
}

pub const ERR_KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
];

#[derive(Clone, Debug)]
pub enum Chunk {
    Full,
    Fixed(usize),
    Rand(Rng, usize),
}
impl Chunk {
    fn limit(&mut self, want: usize) -> usize {
        if want == 0 {
            return 0;
        }
        match self {
            Chunk::Full => want,
            Chunk::Fixed(n) => want.min((*n).max(1)),
            Chunk::Rand(r, max) => want.min(1 + r.below(*max as u64) as usize),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}

pub struct SimDisk {
    pub cache: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<(u64, Vec<u8>)>,
    pub pos: u64,
    pub ops: u64,
    pub kinds: Vec<Op>,
    pub n_read: u64,
    pub n_write: u64,
    pub n_seek: u64,
    pub n_flush: u64,
    pub bytes_written: u64,
    pub plan: BTreeMap<u64, Fault>,
    pub chunk_r: Chunk,
    pub chunk_w: Chunk,
    pub eintr: Option<(Rng, u64)>,
    eintr_run: u32,
    sticky: Option<io::ErrorKind>,
    zero: bool,
    pub crashed: bool,
    pub capacity: Option<u64>,
    pub budget: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub errors: u64,
    pub shorts: u64,
    pub digest: Digest,
    pub log: Option<Vec<String>>,
    pub record_kinds: bool,
    /// Every byte range ever accepted, when recording is on.
    pub wlog: Option<Vec<(u64, Vec<u8>)>>,
}

#[derive(Clone)]
pub struct Sim(pub Rc<RefCell<SimDisk>>);

impl std::fmt::Debug for Sim {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sim")
    }
}

impl Sim {
    pub fn new(content: Vec<u8>) -> Self {
        Sim(Rc::new(RefCell::new(SimDisk {
            durable: content.clone(),
            cache: content,
            pending: vec![],
            pos: 0,
            ops: 0,
            kinds: vec![],
            n_read: 0,
            n_write: 0,
            n_seek: 0,
            n_flush: 0,
            bytes_written: 0,
            plan: BTreeMap::new(),
            chunk_r: Chunk::Full,
            chunk_w: Chunk::Full,
            eintr: None,
            eintr_run: 0,
            sticky: None,
            zero: false,
            crashed: false,
            capacity: None,
            budget: 15_000_000,
            fired: BTreeMap::new(),
            errors: 0,
            shorts: 0,
            digest: Digest::default(),
            log: None,
            record_kinds: false,
            wlog: None,
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut SimDisk) -> T) -> T {
        f(&mut self.0.borrow_mut())
    }
    pub fn ops(&self) -> u64 {
        self.0.borrow().ops
    }
    pub fn content(&self) -> Vec<u8> {
        self.0.borrow().cache.clone()
    }
    /// The machine is fine again: no pending faults.
    pub fn heal(&self) {
        self.with(|d| {
            d.plan.clear();
            d.sticky = None;
            d.zero = false;
            d.crashed = false;
            d.capacity = None;
            d.eintr = None;
            d.chunk_r = Chunk::Full;
            d.chunk_w = Chunk::Full;
        });
    }
}

/// What a crash leaves on the medium.
#[derive(Clone, Copy, Debug)]
pub enum CrashMode {
    /// The process died; everything accepted by the stream is there.
    Process,
    /// Power loss: only what was flushed.
    LoseAll,
    /// Power loss: each 512-byte sector holds one of its versions since the last flush.
    Sectors,
}

impl SimDisk {
    fn note(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
    fn step(&mut self, op: Op, info: u64) -> io::Result<Option<Fault>> {
        let n = self.ops;
        self.ops += 1;
        if self.record_kinds {
            self.kinds.push(op);
        }
        if self.ops > self.budget {
            std::panic::panic_any(BudgetExceeded);
        }
        self.digest.add(((op as u64) << 56) ^ info);
        if self.crashed {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "simulated: process is dead",
            ));
        }
        if let Some(k) = self.sticky {
            self.errors += 1;
            self.note("error_repeat");
            return Err(io::Error::new(k, "simulated: device gone"));
        }
        let f = self.plan.get(&n).copied();
        if let Some(f) = f {
            self.digest.add(0xfa00 + n);
            self.logf(|| format!("#{n} {op:?}: fault {f:?}"));
            match f {
                Fault::Eintr => {
                    if matches!(op, Op::Read | Op::Write) {
                        self.note(if op == Op::Read {
                            "eintr_read"
                        } else {
                            "eintr_write"
                        });
                        return Err(io::Error::from(io::ErrorKind::Interrupted));
                    }
                    return Ok(None);
                }
                Fault::Err(k) => {
                    self.errors += 1;
                    self.note(match op {
                        Op::Read => "read_error_once",
                        Op::Write => "write_error_once",
                        Op::Seek => "seek_error_once",
                        Op::Flush => "flush_error_once",
                    });
                    return Err(io::Error::new(k, "simulated: I/O error"));
                }
                Fault::ErrSticky(k) => {
                    self.errors += 1;
                    self.sticky = Some(k);
                    self.note(match op {
                        Op::Read => "read_error_permanent",
                        Op::Write => "write_error_permanent",
                        Op::Seek => "seek_error_permanent",
                        Op::Flush => "flush_error_permanent",
                    });
                    return Err(io::Error::new(k, "simulated: device gone"));
                }
                other => return Ok(Some(other)),
            }
        }
        if matches!(op, Op::Read | Op::Write) {
            if let Some((r, rate)) = &mut self.eintr {
                if self.eintr_run < 3 && r.below(*rate) == 0 {
                    self.eintr_run += 1;
                    self.note(if op == Op::Read {
                        "eintr_read"
                    } else {
                        "eintr_write"
                    });
                    self.digest.add(0xe1);
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                self.eintr_run = 0;
            }
        }
        Ok(None)
    }
    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                l.push(f());
            }
        }
    }

    pub fn crash_image(&self, mode: CrashMode, rng: &mut Rng) -> Vec<u8> {
        match mode {
            CrashMode::Process => self.cache.clone(),
            CrashMode::LoseAll => self.durable.clone(),
            CrashMode::Sectors => {
                let mut img = self.durable.clone();
                let n = self.pending.len() as u64;
                let mut cut: BTreeMap<u64, u64> = BTreeMap::new();
                for (i, (off, data)) in self.pending.iter().enumerate() {
                    for (j, b) in data.iter().enumerate() {
                        let o = off + j as u64;
                        let sector = o / 512;
                        let c = *cut.entry(sector).or_insert_with(|| match rng.below(3) {
                            0 => 0,
                            1 => n,
                            _ => rng.below(n + 1),
                        });
                        if (i as u64) < c {
                            let o = o as usize;
                            if img.len() <= o {
                                img.resize(o + 1, 0);
                            }
                            img[o] = *b;
                        }
                    }
                }
                img
            }
        }
    }
}

impl Read for Sim {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let d = &mut *self.0.borrow_mut();
        d.n_read += 1;
        let f = d.step(Op::Read, (d.pos << 20) ^ buf.len() as u64)?;
        let avail = (d.cache.len() as u64).saturating_sub(d.pos) as usize;
        let want = buf.len().min(avail);
        if d.zero {
            d.note("eof_early");
            return Ok(0);
        }
        let n = match f {
            Some(Fault::Short(n)) => {
                if want > n.max(1) {
                    d.note("short_read");
                    d.shorts += 1;
                }
                want.min(n.max(1))
            }
            Some(Fault::Zero) => {
                d.zero = true;
                d.note("eof_early");
                0
            }
            _ => {
                let n = d.chunk_r.limit(want);
                if n < want {
                    d.note("short_read");
                    d.shorts += 1;
                }
                n
            }
        };
        let p = d.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&d.cache[p..p + n]);
        }
        d.pos += n as u64;
        d.digest.add(n as u64);
        Ok(n)
    }
}

impl Write for Sim {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let d = &mut *self.0.borrow_mut();
        d.n_write += 1;
        let f = d.step(Op::Write, (d.pos << 20) ^ buf.len() as u64)?;
        if buf.is_empty() {
            return Ok(0);
        }
        if d.zero {
            d.errors += 1;
            d.note("write_zero");
            return Ok(0);
        }
        let mut n = match f {
            Some(Fault::Short(n)) => {
                let m = buf.len().min(n.max(1));
                if m < buf.len() {
                    d.note("short_write");
                    d.shorts += 1;
                }
                m
            }
            Some(Fault::Zero) => {
                d.zero = true;
                d.errors += 1;
                d.note("write_zero");
                return Ok(0);
            }
            Some(Fault::Crash(n)) => {
                d.crashed = true;
                d.note("crash_in_write");
                n.min(buf.len())
            }
            _ => {
                let n = d.chunk_w.limit(buf.len());
                if n < buf.len() {
                    d.note("short_write");
                    d.shorts += 1;
                }
                n
            }
        };
        if let Some(cap) = d.capacity {
            let room = cap.saturating_sub(d.pos) as usize;
            if room == 0 {
                d.errors += 1;
                d.note("disk_full");
                return Err(io::Error::new(
                    io::ErrorKind::StorageFull,
                    "simulated: disk full",
                ));
            }
            n = n.min(room);
        }
        let p = d.pos as usize;
        if d.cache.len() < p + n {
            d.cache.resize(p + n, 0);
        }
        d.cache[p..p + n].copy_from_slice(&buf[..n]);
        if n > 0 {
            let pos = d.pos;
            d.pending.push((pos, buf[..n].to_vec()));
            if let Some(w) = &mut d.wlog {
                w.push((pos, buf[..n].to_vec()));
            }
        }
        d.pos += n as u64;
        d.bytes_written += n as u64;
        d.digest.add_bytes(&buf[..n]);
        if d.crashed {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "simulated: process is dead",
            ));
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        let d = &mut *self.0.borrow_mut();
        d.n_flush += 1;
        if let Some(Fault::Crash(_)) = d.step(Op::Flush, 0)? {
            d.crashed = true;
            d.note("crash_in_flush");
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "simulated: process is dead",
            ));
        }
        d.durable = d.cache.clone();
        d.pending.clear();
        Ok(())
    }
}

impl Seek for Sim {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let d = &mut *self.0.borrow_mut();
        d.n_seek += 1;
        d.step(Op::Seek, d.pos)?;
        let base = match to {
            SeekFrom::Start(p) => {
                d.pos = p;
                d.digest.add(p);
                return Ok(p);
            }
            SeekFrom::Current(o) => (d.pos as i64).checked_add(o),
            SeekFrom::End(o) => (d.cache.len() as i64).checked_add(o),
        };
        match base {
            Some(p) if p >= 0 => {
                d.pos = p as u64;
                d.digest.add(p as u64);
                Ok(p as u64)
            }
            _ => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
