//! Readers whose every answer is decided by the harness.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

/// every kind of failure of a source that can be made
pub const ALL_KINDS: [ErrorKind; 33] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
];

/// What the source does at one call (read or seek), counted from 0.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// read at most n bytes
    Short(usize),
    /// fail with this kind
    Fail(ErrorKind),
    /// a seek moves and fails nevertheless; a read fails
    FailMoved(ErrorKind),
    /// a read reports the end, whatever is left (a seek is not affected)
    Eof,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    /// a read never returns more than this many bytes (0: unlimited)
    pub max: usize,
    /// a read never crosses one of these positions
    pub splits: Vec<u64>,
    /// deviations at given call indices
    pub acts: Vec<(usize, Act)>,
    /// from this call index on every call fails with this kind
    pub dead_from: Option<(usize, ErrorKind)>,
}

#[derive(Default, Debug)]
pub struct Log {
    pub calls: usize,
    pub reads: usize,
    pub seeks: usize,
    pub bytes: u64,
    pub failed: usize,
    /// where an injected end was reported
    pub ended_at: Option<u64>,
}

/// In-memory source with scripted behaviour. The log outlives the reader.
#[derive(Clone, Debug)]
pub struct Src {
    data: Arc<Vec<u8>>,
    pos: u64,
    script: Script,
    pub log: Arc<Mutex<Log>>,
}

impl Src {
    pub fn new(data: Arc<Vec<u8>>, script: Script) -> Src {
        Src { data, pos: 0, script, log: Default::default() }
    }
    pub fn plain(data: &Arc<Vec<u8>>) -> Src {
        Src::new(data.clone(), Script::default())
    }
    fn act(&mut self) -> (usize, Option<Act>) {
        let mut l = self.log.lock().unwrap();
        let i = l.calls;
        l.calls += 1;
        if let Some((k, e)) = self.script.dead_from {
            if i >= k {
                l.failed += 1;
                return (i, Some(Act::Fail(e)));
            }
        }
        let a = self.script.acts.iter().find(|x| x.0 == i).map(|x| x.1);
        if matches!(a, Some(Act::Fail(_) | Act::FailMoved(_))) {
            l.failed += 1;
        }
        (i, a)
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let (_, a) = self.act();
        let mut lim = buf.len();
        if self.script.max > 0 {
            lim = lim.min(self.script.max);
        }
        match a {
            Some(Act::Fail(k) | Act::FailMoved(k)) => return Err(Error::new(k, "injected")),
            Some(Act::Eof) => {
                self.log.lock().unwrap().ended_at.get_or_insert(self.pos);
                return Ok(0);
            }
            Some(Act::Short(n)) => lim = lim.min(n.max(1)),
            None => {}
        }
        let end = self.data.len() as u64;
        let mut to = end.min(self.pos.saturating_add(lim as u64));
        for s in &self.script.splits {
            if *s > self.pos && *s < to {
                to = *s;
            }
        }
        let n = to.saturating_sub(self.pos) as usize;
        if n > 0 {
            let p = self.pos as usize;
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        let mut l = self.log.lock().unwrap();
        l.reads += 1;
        l.bytes += n as u64;
        Ok(n)
    }
}

fn seek_to(cur: u64, end: u64, p: SeekFrom) -> Result<u64> {
    let t = match p {
        SeekFrom::Start(x) => Some(x),
        SeekFrom::End(d) => end.checked_add_signed(d),
        SeekFrom::Current(d) => cur.checked_add_signed(d),
    };
    t.ok_or_else(|| Error::new(ErrorKind::InvalidInput, "seek to a negative or overflowing position"))
}

impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let (_, a) = self.act();
        if let Some(Act::Fail(k)) = a {
            return Err(Error::new(k, "injected"));
        }
        self.pos = seek_to(self.pos, self.data.len() as u64, p)?;
        if let Some(Act::FailMoved(k)) = a {
            return Err(Error::new(k, "injected"));
        }
        self.log.lock().unwrap().seeks += 1;
        Ok(self.pos)
    }
}

/// A huge, mostly zero file: only the given extents hold data.
#[derive(Clone, Debug)]
pub struct Sparse {
    pub extents: Arc<Vec<(u64, Vec<u8>)>>,
    pub len: u64,
    pub pos: u64,
    pub bytes_read: Arc<Mutex<u64>>,
}
impl Sparse {
    pub fn new(extents: Vec<(u64, Vec<u8>)>, len: u64) -> Sparse {
        Sparse { extents: Arc::new(extents), len, pos: 0, bytes_read: Default::default() }
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        buf[..n].fill(0);
        let (a, b) = (self.pos, self.pos + n as u64);
        for (o, d) in self.extents.iter() {
            let (s, e) = (*o, *o + d.len() as u64);
            let (lo, hi) = (s.max(a), e.min(b));
            if lo < hi {
                buf[(lo - a) as usize..(hi - a) as usize]
                    .copy_from_slice(&d[(lo - s) as usize..(hi - s) as usize]);
            }
        }
        self.pos += n as u64;
        *self.bytes_read.lock().unwrap() += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.len, p)?;
        Ok(self.pos)
    }
}

/// A long file made of the same few segments again and again, without holding it in memory.
#[derive(Clone, Debug)]
pub struct Tiles {
    tiles: Arc<Vec<Vec<u8>>>,
    /// length of one round
    round: u64,
    len: u64,
    pos: u64,
    max: usize,
    pub read: Arc<std::sync::atomic::AtomicU64>,
}
impl Tiles {
    /// `n` segments; reads return at most `max` bytes (0: unlimited)
    pub fn new(tiles: &Arc<Vec<Vec<u8>>>, n: usize, max: usize) -> Tiles {
        let len = (0..n).map(|i| tiles[i % tiles.len()].len() as u64).sum();
        let round = tiles.iter().map(|t| t.len() as u64).sum();
        Tiles { tiles: tiles.clone(), round, len, pos: 0, max, read: Default::default() }
    }
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn taken(&self) -> u64 {
        self.read.load(std::sync::atomic::Ordering::SeqCst)
    }
}
impl Read for Tiles {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut lim = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        if self.max > 0 {
            lim = lim.min(self.max);
        }
        let mut done = 0;
        while done < lim {
            let mut p = ((self.pos + done as u64) % self.round) as usize;
            for t in self.tiles.iter() {
                if p < t.len() {
                    let n = (t.len() - p).min(lim - done);
                    buf[done..done + n].copy_from_slice(&t[p..p + n]);
                    done += n;
                    break;
                }
                p -= t.len();
            }
        }
        self.pos += lim as u64;
        self.read.fetch_add(lim as u64, std::sync::atomic::Ordering::SeqCst);
        Ok(lim)
    }
}
impl Seek for Tiles {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = seek_to(self.pos, self.len, p)?;
        Ok(self.pos)
    }
}

/// Counts calls across threads.
#[derive(Default, Debug)]
pub struct Tally(std::sync::atomic::AtomicUsize);
impl Tally {
    /// the number of earlier calls
    #[inline(never)]
    pub fn bump(&self) -> usize {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    }
    #[inline(never)]
    pub fn get(&self) -> usize {
        self.0.load(std::sync::atomic::Ordering::SeqCst)
    }
}
