// Stand-ins used by the body-image crate only.

impl Write for File {
    type Tag = FTag;
    open spec fn tag(&self) -> FTag { self.ftag() }
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn asked(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures r matches Ok(n) ==> final(self).contents() == write_at(old(self).contents(), old(self).pos(), buf@.take(n as int))
            && final(self).pos() == old(self).pos() + n
    { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).contents() == write_at(old(self).contents(), old(self).pos(), buf@)
            && final(self).pos() == old(self).pos() + buf@.len(),
            r matches Err(e) ==> e.spec_kind() != ErrorKind::Interrupted // std retries
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).contents() == old(self).contents(), final(self).pos() == old(self).pos(),
            forall|s: Seq<u8>| #[trigger] final(self).had(s) == old(self).had(s)
    { unimplemented!() }
}
impl File {
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, IoError>)
        ensures final(self).contents() == old(self).contents(),
            forall|s: Seq<u8>| #[trigger] final(self).had(s) == old(self).had(s),
            match (r, p) {
                (Ok(n), SeekFrom::Start(m)) => n == m && final(self).pos() == m,
                (Ok(n), SeekFrom::End(0)) => n == old(self).contents().len() && final(self).pos() == n,
                (Ok(n), SeekFrom::Current(0)) => n == old(self).pos() && final(self).pos() == n,
                _ => true,
            },
            r is Ok ==> final(self).out() == Seq::<u8>::empty() && final(self).asked().len() == 0
                && final(self).ftag().base == old(self).contents() && final(self).ftag().at == final(self).pos()
                && forall|s: Seq<u8>| #[trigger] (final(self).ftag().had0)(s) == old(self).had(s),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: Result<(), IoError>)
        ensures
            r is Err ==> final(self).contents() == old(self).contents()
                && forall|s: Seq<u8>| #[trigger] final(self).had(s) == old(self).had(s),
            r is Ok ==> final(self).contents() == resized(old(self).contents(), n as nat) && final(self).pos() == old(self).pos()
                && (forall|s: Seq<u8>| #[trigger] final(self).had(s) == (old(self).had(s) || s == final(self).contents()))
                && final(self).out() == Seq::<u8>::empty() && final(self).asked().len() == 0
                && final(self).ftag().base == final(self).contents() && final(self).ftag().at == final(self).pos()
                && forall|s: Seq<u8>| #[trigger] (final(self).ftag().had0)(s) == final(self).had(s),
    { unimplemented!() }
}
pub open spec fn resized(c: Seq<u8>, n: nat) -> Seq<u8> {
    if n <= c.len() { c.take(n as int) } else { c + Seq::new((n - c.len()) as nat, |i: int| 0u8) }
}
#[verifier::external_body]
pub fn tempfile_in<P: VpAsRef<Path>>(dir: P) -> (r: Result<File, IoError>)
    ensures match r { Ok(f) => f.contents() == Seq::<u8>::empty() && f.pos() == 0, Err(_) => true }
{ unimplemented!() }
impl VpAsRef<Path> for Path {
    open spec fn as_ref_spec(&self) -> &Path { self }
    fn as_ref(&self) -> (r: &Path) { self }
}

/// `Arc`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { x: std::sync::Arc<T> }
impl<T> View for Arc<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> Arc<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Arc<T>) ensures r@ == t { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Arc<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> std::ops::Deref for Arc<T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
/// `Arc<Path>`
#[verifier::external_body]
pub struct ArcPath { x: u8 }
impl ArcPath {
    pub uninterp spec fn path(&self) -> &Path;
}
impl Clone for ArcPath {
    #[verifier::external_body]
    fn clone(&self) -> (r: ArcPath) ensures r == self { unimplemented!() }
}
impl std::ops::Deref for ArcPath {
    type Target = Path;
    #[verifier::external_body]
    fn deref(&self) -> (r: &Path) ensures r == self.path() { unimplemented!() }
}
impl VpAsRef<Path> for ArcPath {
    open spec fn as_ref_spec(&self) -> &Path { self.path() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Path) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub uninterp spec fn spec_temp_dir() -> PathBuf;
#[verifier::external_body]
pub fn env_temp_dir() -> (r: PathBuf) ensures r == spec_temp_dir() { unimplemented!() }
impl VpInto<ArcPath> for PathBuf {
    uninterp spec fn into_spec(self) -> ArcPath;
    #[verifier::external_body]
    fn vp_into(self) -> (r: ArcPath) { unimplemented!() }
}
impl VpInto<ArcPath> for &Path {
    uninterp spec fn into_spec(self) -> ArcPath;
    #[verifier::external_body]
    fn vp_into(self) -> (r: ArcPath) { unimplemented!() }
}
pub broadcast axiom fn ax_path_into(p: &Path)
    ensures (#[trigger] <&Path as VpInto<ArcPath>>::into_spec(p)).path() == p;

/// the bytes of a range that are present in a file
pub open spec fn present(f: Seq<u8>, start: nat, end: nat) -> Seq<u8> {
    let e = if end <= f.len() { end } else { f.len() };
    let s = if start <= e { start } else { e };
    f.subrange(s as int, e as int)
}
/// olio `ReadSlice`: a range of a file with its own cursor, starting at the
/// front; a clone starts at the front again.
#[verifier::external_body]
pub struct ReadSlice { x: u8 }
impl ReadSlice {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    pub uninterp spec fn start(&self) -> nat;
    pub uninterp spec fn end(&self) -> nat;
    /// cursor relative to start
    pub uninterp spec fn at(&self) -> nat;
    pub open spec fn wf(&self) -> bool {
        self.start() <= self.end() && self.end() <= self.file().len()
    }
    /// the bytes of the range that are present in the file
    pub open spec fn all(&self) -> Seq<u8> { present(self.file(), self.start(), self.end()) }
    #[verifier::external_body]
    pub fn new(f: Arc<File>, start: u64, end: u64) -> (r: ReadSlice)
        requires start <= end
        ensures r.file() == f@.contents(), r.start() == start, r.end() == end, r.at() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.end() - self.start() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.end() == self.start()) { unimplemented!() }
    #[verifier::external_body]
    pub fn tell(&self) -> (r: u64) ensures r == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn mem_map(&self) -> (r: Result<Mmap, IoError>)
        requires self.start() < self.end(), self.end() <= self.file().len()
        ensures match r { Ok(m) => m@ == self.all(), Err(_) => true }
    { unimplemented!() }
}
pub broadcast axiom fn ax_read_slice(r: ReadSlice)
    ensures #![trigger r.start()] #![trigger r.end()] r.start() <= r.end() <= u64::MAX as nat;
impl Clone for ReadSlice {
    #[verifier::external_body]
    fn clone(&self) -> (r: ReadSlice)
        ensures r.file() == self.file(), r.start() == self.start(), r.end() == self.end(), r.at() == 0
    { unimplemented!() }
}
impl Read for ReadSlice {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn taken(&self) -> nat;
    open spec fn rest(&self) -> Seq<u8> {
        if self.at() == 0 { self.all() } else if self.at() <= self.all().len() { self.all().skip(self.at() as int) } else { Seq::empty() }
    }
    uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures final(self).file() == old(self).file(), final(self).start() == old(self).start(),
            final(self).end() == old(self).end()
    { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}

/// memmap `Mmap`, `MmapOptions` and olio `MemHandle`
#[verifier::external_body]
pub struct Mmap { x: u8 }
impl View for Mmap { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct MmapOptions { x: u8 }
impl MmapOptions {
    pub uninterp spec fn off(&self) -> nat;
    pub uninterp spec fn maplen(&self) -> Option<nat>;
    #[verifier::external_body]
    pub fn new() -> (r: MmapOptions) ensures r.off() == 0, r.maplen() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&mut self, n: usize) -> (r: &mut MmapOptions)
        ensures r.off() == old(self).off(), r.maplen() == Some(n as nat), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(&mut self, n: u64) -> (r: &mut MmapOptions)
        ensures r.off() == n, r.maplen() == old(self).maplen(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map(&self, f: &File) -> (r: Result<Mmap, IoError>)
        requires
            match self.maplen() {
                Some(n) => self.off() + n <= f.contents().len(),
                None => self.off() <= f.contents().len(),
            }
        ensures
            match r {
                Ok(m) => m@ == f.contents().subrange(self.off() as int, match self.maplen() {
                    Some(n) => self.off() as int + n as int,
                    None => f.contents().len() as int,
                }),
                Err(_) => true,
            }
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MemHandle<T> { x: Vec<T> }
impl<T> View for MemHandle<T> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub enum MemAdvice { Normal, Random, Sequential }
#[verifier::external_body]
pub struct MemAdviseError { x: u8 }
impl vstd::std_specs::convert::FromSpecImpl<MemAdviseError> for IoError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(k: MemAdviseError) -> IoError;
}
impl From<MemAdviseError> for IoError {
    #[verifier::external_body]
    fn from(e: MemAdviseError) -> (r: IoError) ensures r.spec_kind() == ErrorKind::Other { unimplemented!() }
}
impl VpInto<IoError> for MemAdviseError {
    uninterp spec fn into_spec(self) -> IoError;
    #[verifier::external_body]
    fn vp_into(self) -> (r: IoError) { unimplemented!() }
}
impl MemHandle<Mmap> {
    #[verifier::external_body]
    pub fn new(m: Mmap) -> (r: MemHandle<Mmap>) ensures r@ == m@ { unimplemented!() }
    #[verifier::external_body]
    pub fn advise(&self, a: MemAdvice) -> (r: Result<MemAdvice, MemAdviseError>) { unimplemented!() }
}
impl<T> Clone for MemHandle<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: MemHandle<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T> std::ops::Deref for MemHandle<T> {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}

/// `std::io::Cursor` over a slice
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cursor<T> { x: Vec<T> }
impl<'a> Cursor<&'a [u8]> {
    pub uninterp spec fn inner(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn new(b: &'a [u8]) -> (r: Cursor<&'a [u8]>) ensures r.inner() == b@, r.at() == 0 { unimplemented!() }
}
impl<'a> Read for Cursor<&'a [u8]> {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    open spec fn rest(&self) -> Seq<u8> {
        if self.at() == 0 { self.inner() } else if self.at() <= self.inner().len() { self.inner().skip(self.at() as int) } else { Seq::empty() }
    }
    uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
/// olio `GatheringReader`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct GatheringReader<'a, T> { x: &'a [T] }
impl<'a> GatheringReader<'a, Bytes> {
    #[verifier::external_body]
    pub fn new(b: &'a [Bytes]) -> (r: GatheringReader<'a, Bytes>) ensures r.rest() == flat(b@) { unimplemented!() }
}
impl<'a> Read for GatheringReader<'a, Bytes> {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}

#[verifier::external_body]
pub fn io_copy<R: Read + ?Sized, W: Write + ?Sized>(r: &mut R, w: &mut W) -> (x: Result<u64, IoError>)
    ensures
        match x {
            Ok(n) => n == old(r).rest().len() && final(w).out() == old(w).out() + old(r).rest()
                && final(r).rest().len() == 0,
            Err(_) => true,
        },
        old(w).out().is_prefix_of(final(w).out()),
        final(w).tag() == old(w).tag(),
{ unimplemented!() }

pub broadcast proof fn lem_skip0(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s
{
    assert(s.skip(0) =~= s);
}
pub broadcast group vp_body_fs { lem_skip0, ax_read_slice, ax_path_into, lem_write_at_end }
