// Stand-ins for the standard library, bytes, tempfile, olio and memmap items
// used by the extracted code. Everything marked external_body, uninterp,
// axiom or assume_specification in these prelude files is trusted.

pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub assume_specification<T: Default> [std::mem::take] (a: &mut T) -> (r: T)
    ensures r == *old(a), call_ensures(T::default, (), *final(a));

// -- assertions ------------------------------------------------------------

pub fn vp_assert(b: bool) requires b {}

#[verifier::external_body]
pub fn vp_panic() -> ! requires false { panic!() }

/// Assertions of functions whose contract only covers normal return.
#[verifier::external_body]
pub fn vp_check(b: bool) ensures b { assert!(b) }

#[verifier::external_body]
pub fn vp_abort() -> ! { panic!() }

#[verifier::external_body]
pub fn vp_drop<T>(t: T) {}

/// `unwrap`/`expect`
pub trait VpUnwrap<T>: Sized {
    spec fn good(self) -> bool;
    spec fn val(self) -> T;
    fn vp_unwrap(self) -> (r: T) requires self.good() ensures self.good(), r == self.val();
}
impl<T> VpUnwrap<T> for Option<T> {
    open spec fn good(self) -> bool { self is Some }
    open spec fn val(self) -> T { self->Some_0 }
    fn vp_unwrap(self) -> (r: T) { match self { Some(t) => t, None => vp_panic() } }
}
impl<T, E> VpUnwrap<T> for Result<T, E> {
    open spec fn good(self) -> bool { self is Ok }
    open spec fn val(self) -> T { self->Ok_0 }
    fn vp_unwrap(self) -> (r: T) { match self { Ok(t) => t, Err(_) => vp_panic() } }
}

// -- errors ----------------------------------------------------------------

#[derive(Clone, Copy)]
pub enum ErrorKind {
    NotFound, PermissionDenied, Interrupted, UnexpectedEof, InvalidData,
    InvalidInput, WriteZero, WouldBlock, BrokenPipe, TimedOut, Other,
}
impl PartialEq for ErrorKind {
    #[verifier::external_body]
    fn eq(&self, o: &ErrorKind) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
}

#[verifier::external_body]
pub struct IoError { x: u8 }

impl IoError {
    pub uninterp spec fn spec_kind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { unimplemented!() }
    #[verifier::external_body]
    pub fn new<E>(k: ErrorKind, e: E) -> (r: IoError) ensures r.spec_kind() == k { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for IoError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(k: ErrorKind) -> IoError;
}
impl From<ErrorKind> for IoError {
    #[verifier::external_body]
    fn from(k: ErrorKind) -> (r: IoError) ensures r.spec_kind() == k { unimplemented!() }
}

// -- conversions -----------------------------------------------------------

/// `Into`
pub trait VpInto<T>: Sized {
    spec fn into_spec(self) -> T;
    fn vp_into(self) -> (r: T) ensures r == self.into_spec();
}

/// `AsRef`
pub trait VpAsRef<U: ?Sized> {
    spec fn as_ref_spec(&self) -> &U;
    fn as_ref(&self) -> (r: &U) ensures r == self.as_ref_spec();
}
impl<T: ?Sized + VpAsRef<U>, U: ?Sized> VpAsRef<U> for &T {
    open spec fn as_ref_spec(&self) -> &U { (**self).as_ref_spec() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &U) { unimplemented!() }
}
impl VpAsRef<[u8]> for [u8] {
    open spec fn as_ref_spec(&self) -> &[u8] { self }
    fn as_ref(&self) -> (r: &[u8]) { self }
}

/// A conversion of bytes to `Bytes` keeps what `as_ref` shows.
pub axiom fn ax_into_as_ref<T: VpInto<Bytes> + VpAsRef<[u8]>>(t: T)
    ensures t.into_spec()@ == t.as_ref_spec()@;

// -- bytes -----------------------------------------------------------------

#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub broadcast axiom fn ax_bytes_len(b: Bytes)
    ensures #[trigger] b@.len() <= isize::MAX as nat;
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(b: &'static [u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) // panics past the end
        ensures n <= old(self)@.len(), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len()
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len()
        ensures r@ == old(self)@.skip(n as int), final(self)@ == old(self)@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl VpAsRef<[u8]> for Bytes {
    uninterp spec fn as_ref_spec(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub broadcast axiom fn ax_bytes_as_ref(b: Bytes)
    ensures (#[trigger] <Bytes as VpAsRef<[u8]>>::as_ref_spec(&b))@ == b@;
impl VpInto<Bytes> for Bytes {
    open spec fn into_spec(self) -> Bytes { self }
    fn vp_into(self) -> (r: Bytes) { self }
}
impl VpInto<Bytes> for BytesMut {
    uninterp spec fn into_spec(self) -> Bytes;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Bytes) { unimplemented!() }
}
impl VpInto<Bytes> for Vec<u8> {
    uninterp spec fn into_spec(self) -> Bytes;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Bytes) { unimplemented!() }
}
pub broadcast axiom fn ax_vec_into(b: Vec<u8>)
    ensures (#[trigger] <Vec<u8> as VpInto<Bytes>>::into_spec(b))@ == b@;
impl VpAsRef<[u8]> for Vec<u8> {
    uninterp spec fn as_ref_spec(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub broadcast axiom fn ax_vec_as_ref(b: Vec<u8>)
    ensures (#[trigger] <Vec<u8> as VpAsRef<[u8]>>::as_ref_spec(&b))@ == b@;

#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub broadcast axiom fn ax_bytes_mut_len(b: BytesMut)
    ensures #[trigger] b@.len() <= b.cap(), b.cap() <= isize::MAX as nat;
impl BytesMut {
    /// allocated capacity
    pub uninterp spec fn cap(&self) -> nat;
    /// content of the part of the allocation beyond the length
    pub uninterp spec fn spare(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty(), r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty(), r.cap() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    /// Unlimited for BytesMut.
    #[verifier::external_body]
    pub fn remaining_mut(&self) -> (r: usize) ensures r == usize::MAX - self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk_mut(&mut self) -> (r: &mut [u8])
        ensures
            final(self)@ == old(self)@,
            final(self).spare() == final(r)@,
            old(self)@.len() < old(self).cap() ==> final(self).cap() == old(self).cap(),
            old(self)@.len() == old(self).cap() ==> final(self).cap() > old(self).cap(),
            r@.len() == final(self).cap() - final(self)@.len(),
            r@.len() > 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn advance_mut(&mut self, n: usize)
        requires n <= old(self).spare().len()
        ensures final(self)@ == old(self)@ + old(self).spare().take(n as int),
            final(self).cap() == old(self).cap(),
            final(self).spare() == old(self).spare().skip(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Seq::<u8>::empty(), final(self).cap() == old(self).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@, final(self).cap() >= old(self)@.len() + n,
            final(self).cap() >= old(self).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, b: &[u8])
        ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, b: &[u8])
        ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut)
        ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
            final(self).cap() == old(self).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: u8)
        ensures final(self)@.len() == n { unimplemented!() }
}
impl std::ops::Deref for BytesMut {
    type Target = [u8];
    #[verifier::external_body]
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl VpAsRef<[u8]> for BytesMut {
    uninterp spec fn as_ref_spec(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub broadcast axiom fn ax_bytes_mut_as_ref(b: BytesMut)
    ensures (#[trigger] <BytesMut as VpAsRef<[u8]>>::as_ref_spec(&b))@ == b@;

/// Concatenation of buffers.
pub open spec fn flat(v: Seq<Bytes>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ }
}
pub broadcast proof fn lem_flat_push(v: Seq<Bytes>, b: Bytes)
    ensures #[trigger] flat(v.push(b)) == flat(v) + b@
{
    assert(v.push(b).drop_last() =~= v);
}
pub broadcast proof fn lem_flat_empty()
    ensures #[trigger] flat(Seq::<Bytes>::empty()) == Seq::<u8>::empty()
{
}
pub broadcast proof fn lem_flat_len0(v: Seq<Bytes>)
    requires v.len() == 0
    ensures #[trigger] flat(v) == Seq::<u8>::empty()
{
}
pub broadcast proof fn lem_flat_one(v: Seq<Bytes>)
    requires v.len() == 1
    ensures #[trigger] flat(v) == v[0]@
{
    reveal_with_fuel(flat, 2);
    assert(v.drop_last().len() == 0);
    assert(flat(v) =~= v[0]@);
}
pub broadcast proof fn lem_add_empty(s: Seq<u8>, t: Seq<u8>)
    requires t.len() == 0
    ensures #[trigger] (s + t) == s
{
    assert(s + t =~= s);
}
pub broadcast proof fn lem_empty_add(s: Seq<u8>, t: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] (s + t) == t
{
    assert(s + t =~= t);
}
pub broadcast proof fn lem_take_skip_len(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures #![trigger s.take(n)] #![trigger s.skip(n)] s.take(n) + s.skip(n) == s
{
    assert(s.take(n) + s.skip(n) =~= s);
}
pub broadcast proof fn lem_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
/// `?` converts the error with `From::from`.
pub broadcast axiom fn ax_question_mark<S: From<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r)
        ==> (<S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec()
            ==> r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(v));
pub broadcast group vp_bytes {
    ax_question_mark,
    ax_bytes_len, ax_bytes_as_ref, ax_vec_as_ref, ax_vec_into,
    ax_bytes_mut_len, ax_bytes_mut_as_ref,
    lem_flat_push, lem_flat_empty, lem_flat_len0, lem_flat_one,
    lem_add_empty, lem_empty_add,
}

#[verifier::external_body]
pub fn vp_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// -- iteration -------------------------------------------------------------

/// By-value iteration; `rest` is what is still to come, `seen` what was
/// yielded of the `whole`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpIter<T> { x: Vec<T> }
impl<T> VpIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub uninterp spec fn seen(&self) -> Seq<T>;
    pub uninterp spec fn whole(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).whole() == old(self).whole(),
            match r {
                Some(t) => old(self).rest().len() > 0 && t == old(self).rest()[0]
                    && t == old(self).whole()[old(self).seen().len() as int]
                    && old(self).seen().len() < old(self).whole().len()
                    && final(self).rest() == old(self).rest().skip(1)
                    && final(self).seen() == old(self).seen().push(t),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest()
                    && old(self).seen() == old(self).whole()
                    && final(self).seen() == old(self).seen(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
}
/// By-reference iteration.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpRefIter<'a, T> { x: &'a Vec<T> }
impl<'a, T> VpRefIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    pub uninterp spec fn seen(&self) -> Seq<T>;
    pub uninterp spec fn whole(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).whole() == old(self).whole(),
            match r {
                Some(t) => old(self).rest().len() > 0 && *t == old(self).rest()[0]
                    && *t == old(self).whole()[old(self).seen().len() as int]
                    && old(self).seen().len() < old(self).whole().len()
                    && old(self).seen() == old(self).whole().take(old(self).seen().len() as int)
                    && final(self).rest() == old(self).rest().skip(1)
                    && final(self).seen() == old(self).seen().push(*t),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest()
                    && old(self).seen() == old(self).whole()
                    && final(self).seen() == old(self).seen(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
}
pub trait VpIntoIter: Sized {
    type It;
    spec fn iter_ok(self, it: Self::It) -> bool;
    fn vp_into_iter(self) -> (r: Self::It) ensures self.iter_ok(r);
}
impl<T> VpIntoIter for Vec<T> {
    type It = VpIter<T>;
    open spec fn iter_ok(self, it: VpIter<T>) -> bool {
        it.rest() == self@ && it.whole() == self@ && it.seen() == Seq::<T>::empty()
    }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: VpIter<T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter for &'a Vec<T> {
    type It = VpRefIter<'a, T>;
    open spec fn iter_ok(self, it: VpRefIter<'a, T>) -> bool {
        it.rest() == self@ && it.whole() == self@ && it.seen() == Seq::<T>::empty()
    }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: VpRefIter<'a, T>) { unimplemented!() }
}
impl<'a, T> VpIntoIter for &'a [T] {
    type It = VpRefIter<'a, T>;
    open spec fn iter_ok(self, it: VpRefIter<'a, T>) -> bool {
        it.rest() == self@ && it.whole() == self@ && it.seen() == Seq::<T>::empty()
    }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: VpRefIter<'a, T>) { unimplemented!() }
}
pub trait VpIterable<T> {
    spec fn items(&self) -> Seq<T>;
    fn vp_iter<'a>(&'a self) -> (r: VpRefIter<'a, T>)
        ensures r.rest() == self.items(), r.whole() == self.items(), r.seen() == Seq::<T>::empty();
}
impl<T> VpIterable<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpRefIter<'a, T>) { unimplemented!() }
}
impl<T> VpIterable<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpRefIter<'a, T>) { unimplemented!() }
}
#[verifier::external_body]
pub struct VpRange { x: usize }
impl VpRange {
    pub uninterp spec fn cur(&self) -> int;
    pub uninterp spec fn end(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            final(self).end() == old(self).end(),
            match r {
                Some(t) => old(self).cur() < old(self).end() && t == old(self).cur()
                    && final(self).cur() == old(self).cur() + 1,
                None => old(self).cur() >= old(self).end() && final(self).cur() == old(self).cur(),
            }
    { unimplemented!() }
}
impl VpIntoIter for std::ops::Range<usize> {
    type It = VpRange;
    open spec fn iter_ok(self, it: VpRange) -> bool { it.cur() == self.start && it.end() == self.end }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: VpRange) { unimplemented!() }
}

#[verifier::external_body]
pub fn vp_vec_fill<T>(t: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n { unimplemented!() }
pub trait VpToVec {
    spec fn tv(&self) -> Seq<u8>;
    fn vp_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv();
}
impl VpToVec for [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vp_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub fn vp_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] {
    let mut v = Vec::new();
    v.push(a);
    assert(v@ =~= seq![a]);
    v
}
pub fn vp_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] {
    let mut v = Vec::new();
    v.push(a);
    v.push(b);
    assert(v@ =~= seq![a, b]);
    v
}

// -- readers and writers -----------------------------------------------------

/// `Read`: `rest` is the (prophesied) sequence of bytes delivered until end of
/// file; `failed` is set once an error other than an interrupt was returned;
/// `taken` counts the bytes delivered; `rtag` is what reading does not change.
/// End of file is assumed to be permanent, and a failed read to consume
/// nothing.
pub trait Read {
    type RTag;
    spec fn rtag(&self) -> Self::RTag;
    spec fn rest(&self) -> Seq<u8>;
    spec fn failed(&self) -> bool;
    spec fn taken(&self) -> nat;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(self).rtag() == old(self).rtag(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).rest().len()
                    && final(self).rest() == old(self).rest().skip(n as int)
                    && final(self).taken() == old(self).taken() + n
                    && final(buf)@.take(n as int) == old(self).rest().take(n as int)
                    && (forall|k: int| 0 <= k < n ==> #[trigger] final(buf)@[k] == old(self).rest()[k])
                    && (n == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0)
                    && final(self).failed() == old(self).failed(),
                Err(e) => final(self).rest() == old(self).rest() && final(self).taken() == old(self).taken()
                    && final(self).failed() == (old(self).failed() || e.spec_kind() != ErrorKind::Interrupted),
            };
    /// the provided method, on top of `read`
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>)
        ensures
            final(self).rtag() == old(self).rtag(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(_) => old(buf)@.len() <= old(self).rest().len()
                    && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int)
                    && final(self).taken() == old(self).taken() + old(buf)@.len()
                    && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                    && final(self).failed() == old(self).failed(),
                Err(e) => (final(self).failed() || old(self).rest().len() < old(buf)@.len())
                    && (old(self).failed() ==> final(self).failed()),
            };
}

/// `Write`: `out` is what was written, `asked` what was given to each write
/// call, `tag` is what writing does not change.
pub trait Write {
    type Tag;
    #[verifier::prophetic]
    spec fn tag(&self) -> Self::Tag;
    spec fn out(&self) -> Seq<u8>;
    spec fn asked(&self) -> Seq<Seq<u8>>;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures
            final(self).tag() == old(self).tag(),
            final(self).asked() == old(self).asked().push(buf@),
            old(self).out().is_prefix_of(final(self).out()),
            r matches Ok(n) ==> n <= buf@.len() && final(self).out() == old(self).out() + buf@.take(n as int);
    /// the provided method, on top of `write`
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures
            final(self).tag() == old(self).tag(),
            final(self).asked() == old(self).asked().push(buf@),
            r is Ok ==> final(self).out() == old(self).out() + buf@,
            r is Err ==> vp_part(old(self).out(), final(self).out(), buf@),
            old(self).out().is_prefix_of(final(self).out());
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures
            final(self).tag() == old(self).tag(),
            final(self).asked() == old(self).asked(),
            final(self).out() == old(self).out();
}

/// a prefix of `b` was appended
pub open spec fn vp_part(o: Seq<u8>, n: Seq<u8>, b: Seq<u8>) -> bool {
    &&& o.len() <= n.len() <= o.len() + b.len()
    &&& n == o + b.take(n.len() - o.len())
}

// -- slices ------------------------------------------------------------------

/// Range indexing; panics outside the slice.
pub trait VpSlice {
    spec fn sl(&self) -> Seq<u8>;
    fn vp_range(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.sl().len() ensures r@ == self.sl().subrange(a as int, b as int);
    fn vp_range_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.sl().len() ensures r@ == self.sl().skip(a as int);
    fn vp_range_to(&self, b: usize) -> (r: &[u8])
        requires b <= self.sl().len() ensures r@ == self.sl().take(b as int);
    fn vp_range_full(&self) -> (r: &[u8]) ensures r@ == self.sl();
    fn vp_starts_with(&self, b: &[u8]) -> (r: bool)
        ensures r == (b@.len() <= self.sl().len() && self.sl().take(b@.len() as int) == b@);
    fn vp_ends_with(&self, b: &[u8]) -> (r: bool)
        ensures r == (b@.len() <= self.sl().len() && self.sl().skip(self.sl().len() - b@.len()) == b@);
    fn vp_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).sl().len()
        ensures r@ == old(self).sl().subrange(a as int, b as int),
            final(r)@.len() == r@.len(),
            final(self).sl() == old(self).sl().take(a as int) + final(r)@ + old(self).sl().skip(b as int);
    fn vp_range_from_mut(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).sl().len()
        ensures r@ == old(self).sl().skip(a as int),
            final(r)@.len() == r@.len(),
            final(self).sl() == old(self).sl().take(a as int) + final(r)@;
    fn vp_range_to_mut(&mut self, b: usize) -> (r: &mut [u8])
        requires b <= old(self).sl().len()
        ensures r@ == old(self).sl().take(b as int),
            final(r)@.len() == r@.len(),
            forall|k: int| 0 <= k <= b ==> #[trigger] final(self).sl().take(k) == final(r)@.take(k),
            final(self).sl() == final(r)@ + old(self).sl().skip(b as int);
    fn vp_range_full_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).sl(), final(self).sl() == final(r)@;
}
impl VpSlice for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vp_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_full(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_starts_with(&self, b: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_ends_with(&self, b: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_from_mut(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_to_mut(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vp_range_full_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
}

// -- files -------------------------------------------------------------------

pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

#[verifier::external_body]
pub struct Path { x: u8 }
#[verifier::external_body]
pub struct Metadata { x: u8 }
impl Metadata {
    pub uninterp spec fn spec_len(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.spec_len() { unimplemented!() }
}

/// `File`: content and cursor; `had` are the contents it had at some time.
#[verifier::external_body]
pub struct File { x: u8 }
/// State at the last seek: content, position, contents had until then.
pub struct FTag { pub base: Seq<u8>, pub at: nat, pub had0: spec_fn(Seq<u8>) -> bool }
impl File {
    pub uninterp spec fn contents(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn had(&self, s: Seq<u8>) -> bool;
    pub uninterp spec fn ftag(&self) -> FTag;
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, IoError>)
        ensures match r { Ok(m) => m.spec_len() == self.contents().len(), Err(_) => true } { unimplemented!() }
}
pub broadcast axiom fn ax_file_len(f: File)
    ensures #[trigger] f.contents().len() <= i64::MAX as nat;
pub broadcast group vp_io { ax_file_len }

/// A file's content after writing `b` at `p` (a gap reads as zero bytes).
pub open spec fn write_at(c: Seq<u8>, p: nat, b: Seq<u8>) -> Seq<u8> {
    let n = if p + b.len() > c.len() { (p + b.len()) as nat } else { c.len() };
    if b.len() == 0 { c } else {
        Seq::new(n, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < c.len() { c[i] } else { 0u8 })
    }
}
pub broadcast proof fn lem_write_at_end(c: Seq<u8>, p: nat, b: Seq<u8>)
    requires p == c.len()
    ensures #[trigger] write_at(c, p, b) == c + b
{
    assert(write_at(c, p, b) =~= c + b);
}

pub fn vp_min<T: VpOrd>(a: T, b: T) -> (r: T) ensures r.ov() == (if a.ov() <= b.ov() { a.ov() } else { b.ov() }) { a.vp_lesser(b) }
pub fn vp_max<T: VpOrd>(a: T, b: T) -> (r: T) ensures r.ov() == (if a.ov() >= b.ov() { a.ov() } else { b.ov() }) { a.vp_greater(b) }
pub trait VpOrd: Sized {
    spec fn ov(self) -> int;
    fn vp_lesser(self, o: Self) -> (r: Self) ensures r.ov() == (if self.ov() <= o.ov() { self.ov() } else { o.ov() });
    fn vp_greater(self, o: Self) -> (r: Self) ensures r.ov() == (if self.ov() >= o.ov() { self.ov() } else { o.ov() });
}
impl VpOrd for u64 {
    open spec fn ov(self) -> int { self as int }
    fn vp_lesser(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn vp_greater(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
}
impl VpOrd for usize {
    open spec fn ov(self) -> int { self as int }
    fn vp_lesser(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
    fn vp_greater(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
}
