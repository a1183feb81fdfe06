//! Fault injection that stays inside this process.

use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

use crate::gen::Rng;

pub fn init() {
    // writes past the limit then fail with EFBIG instead of killing us
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); }
}

/// Limit the size of files this process may write.
pub fn limit_file_size(n: Option<u64>) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = n.map(|n| n as libc::rlim_t).unwrap_or(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

/// A byte source with chosen chunking, interruptions and failure.
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    /// fail with this kind on reaching this position
    pub fail_at: Option<(usize, io::ErrorKind)>,
    pub failed: bool,
    pub chunk: usize,
    pub interrupts: u64,
    pub rng: Rng,
    pub calls: u64,
    /// a zero read was delivered
    pub ended: bool,
}

impl Source {
    pub fn new(rng: &mut Rng, data: Vec<u8>) -> Source {
        let chunk = match rng.below(4) { 0 => 1, 1 => 1 + rng.below(16) as usize,
                                         2 => 1 + rng.below(4096) as usize, _ => usize::MAX };
        let interrupts = if rng.chance(1, 2) { rng.below(4) } else { 0 };
        Source { data, pos: 0, fail_at: None, failed: false, chunk, interrupts,
                 rng: Rng::new(rng.next()), calls: 0, ended: false }
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts > 0 && self.rng.chance(self.interrupts, 8) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut lim = self.data.len();
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                self.failed = true;
                return Err(io::Error::new(kind, "injected"));
            }
            lim = at;
        }
        let mut n = buf.len().min(lim - self.pos);
        if n > 0 && self.chunk < n { n = 1 + self.rng.below(self.chunk as u64) as usize; }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 && !buf.is_empty() { self.ended = true; }
        Ok(n)
    }
}

/// A writer accepting part of what it is given, with interruptions and an
/// optional failure after some bytes.
pub struct Drain {
    pub got: Vec<u8>,
    pub chunk: usize,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    pub rng: Rng,
}

impl Drain {
    pub fn new(rng: &mut Rng) -> Drain {
        let chunk = *rng.pick(&[1, 7, 1000, usize::MAX, usize::MAX]);
        Drain { got: vec![], chunk, interrupts: rng.chance(1, 3), fail_at: None, rng: Rng::new(rng.next()) }
    }
}

impl Write for Drain {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.interrupts && self.rng.chance(1, 5) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.chunk);
        if let Some(at) = self.fail_at {
            if self.got.len() >= at { return Err(io::Error::new(io::ErrorKind::Other, "injected")); }
            n = n.min(at - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Disturbance of the system calls on regular files of this process.
pub struct Disturb {
    pub rng: Rng,
    /// interrupted, cut short: of 8 calls
    pub interrupts: u64,
    pub shorts: u64,
    /// reads fail (EIO) after this many
    pub reads: Option<u64>,
}

static DISTURB: Mutex<Option<Disturb>> = Mutex::new(None);
static DISTURBED: AtomicBool = AtomicBool::new(false);

pub fn disturb(d: Option<Disturb>) {
    DISTURBED.store(d.is_some(), Ordering::SeqCst);
    *DISTURB.lock().unwrap_or_else(|e| e.into_inner()) = d;
}

/// Interrupted and short calls only: what nobody should notice.
pub fn mild(rng: &mut Rng, interrupts: bool) -> Disturb {
    Disturb { rng: Rng::new(rng.next()), interrupts: if interrupts { rng.below(4) } else { 0 }, shorts: rng.below(8), reads: None }
}

/// Reads fail for good after some.
pub fn failing(rng: &mut Rng) -> Disturb {
    Disturb { reads: Some(rng.below(6)), ..mild(rng, true) }
}

/// Length to use for a call of `n` bytes on `fd`, or the error to report.
unsafe fn disturbed(fd: libc::c_int, n: usize, read: bool) -> Result<usize, libc::c_int> {
    if !DISTURBED.load(Ordering::SeqCst) { return Ok(n); }
    let mut st: libc::stat = std::mem::zeroed();
    if libc::fstat(fd, &mut st) != 0 || st.st_mode & libc::S_IFMT != libc::S_IFREG { return Ok(n); }
    let mut d = DISTURB.lock().unwrap_or_else(|e| e.into_inner());
    let d = match *d { Some(ref mut d) => d, None => return Ok(n) };
    if d.interrupts > 0 && d.rng.chance(d.interrupts, 8) { return Err(libc::EINTR); }
    if read {
        if let Some(ref mut k) = d.reads {
            if *k == 0 { return Err(libc::EIO); }
            *k -= 1;
        }
    }
    if n > 1 && d.shorts > 0 && d.rng.chance(d.shorts, 8) { return Ok(1 + d.rng.below(n as u64) as usize); }
    Ok(n)
}

unsafe fn refused(e: libc::c_int) -> libc::ssize_t {
    *libc::__errno_location() = e;
    -1
}

// These take the place of the C library's functions in this executable.

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: usize) -> libc::ssize_t {
    match disturbed(fd, n, true) {
        Ok(n) => libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t,
        Err(e) => refused(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: usize, at: i64) -> libc::ssize_t {
    match disturbed(fd, n, true) {
        Ok(n) => libc::syscall(libc::SYS_pread64, fd, buf, n, at) as libc::ssize_t,
        Err(e) => refused(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: usize) -> libc::ssize_t {
    match disturbed(fd, n, false) {
        Ok(n) => libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t,
        Err(e) => refused(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: usize, at: i64) -> libc::ssize_t {
    match disturbed(fd, n, false) {
        Ok(n) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, at) as libc::ssize_t,
        Err(e) => refused(e),
    }
}
