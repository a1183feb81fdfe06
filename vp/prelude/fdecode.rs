// Stand-ins for the hyperx header types, and the decoders over a body reader.

/// values of the entries of that name, in order
pub open spec fn hm_all(es: Seq<Hdr>, n: Seq<u8>) -> Seq<Seq<u8>> decreases es.len() {
    if es.len() == 0 { Seq::empty() }
    else if es.last().0 == n { hm_all(es.drop_last(), n).push(es.last().1) }
    else { hm_all(es.drop_last(), n) }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct GetAll<'a, T> { x: &'a Vec<T> }
impl<'a, T> GetAll<'a, T> {
    pub uninterp spec fn vals(&self) -> Seq<Seq<u8>>;
}
impl HeaderMap {
    #[verifier::external_body]
    pub fn get_all<'a, N: VpName>(&'a self, n: N) -> (r: GetAll<'a, HeaderValue>)
        ensures r.vals() == hm_all(self@, n.nm()) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode<T: HyHeader>(&self) -> (r: Result<T, HyError>)
        ensures match hy_parse(hm_all(self@, T::hy_name())) {
            Some(l) => r matches Ok(t) && t.encs() == l,
            None => r is Err,
        } { unimplemented!() }
}
pub open spec fn n_te() -> Seq<u8> {
    seq![116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103]
}
pub open spec fn n_ce() -> Seq<u8> {
    seq![99u8, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103]
}
#[verifier::external_body]
pub fn vp_transfer_encoding() -> (r: HeaderName) ensures r@ == n_te() { unimplemented!() }
#[verifier::external_body]
pub fn vp_content_encoding() -> (r: HeaderName) ensures r@ == n_ce() { unimplemented!() }

pub enum HyEncoding { Chunked, Brotli, Gzip, Deflate, Compress, Identity, Trailers, EncodingExt(VpString) }
#[verifier::external_body]
pub struct HyError { x: u8 }
/// comma delimited words of all values: absent when a value is not UTF-8
pub uninterp spec fn hy_parse(vals: Seq<Seq<u8>>) -> Option<Seq<HyEncoding>>;
pub trait HyHeader: Sized {
    spec fn hy_name() -> Seq<u8>;
    spec fn encs(&self) -> Seq<HyEncoding>;
    fn parse_header<'a>(raw: &GetAll<'a, HeaderValue>) -> (r: Result<Self, HyError>)
        ensures match hy_parse(raw.vals()) {
            Some(l) => r matches Ok(t) && t.encs() == l,
            None => r is Err,
        };
}
pub struct ContentEncoding(pub Vec<HyEncoding>);
pub struct TransferEncoding(pub Vec<HyEncoding>);
impl HyHeader for ContentEncoding {
    open spec fn hy_name() -> Seq<u8> { n_ce() }
    open spec fn encs(&self) -> Seq<HyEncoding> { self.0@ }
    #[verifier::external_body]
    fn parse_header<'a>(raw: &GetAll<'a, HeaderValue>) -> (r: Result<Self, HyError>) { unimplemented!() }
}
impl HyHeader for TransferEncoding {
    open spec fn hy_name() -> Seq<u8> { n_te() }
    open spec fn encs(&self) -> Seq<HyEncoding> { self.0@ }
    #[verifier::external_body]
    fn parse_header<'a>(raw: &GetAll<'a, HeaderValue>) -> (r: Result<Self, HyError>) { unimplemented!() }
}
impl VpIterable<HyEncoding> for ContentEncoding {
    open spec fn items(&self) -> Seq<HyEncoding> { self.0@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpRefIter<'a, HyEncoding>) { unimplemented!() }
}
impl VpIterable<HyEncoding> for TransferEncoding {
    open spec fn items(&self) -> Seq<HyEncoding> { self.0@ }
    #[verifier::external_body]
    fn vp_iter<'a>(&'a self) -> (r: VpRefIter<'a, HyEncoding>) { unimplemented!() }
}
impl ContentEncoding {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { unimplemented!() }
}
impl TransferEncoding {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { unimplemented!() }
}
impl<'a, T> VpRefIter<'a, T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: VpRefIter<'a, T>)
        ensures r.rest() == self.rest().reverse(), r.whole() == self.rest().reverse(),
            r.seen() == Seq::<T>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct DeflateDecoder<R> { x: Vec<R> }
impl<R: Read> DeflateDecoder<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (d: DeflateDecoder<R>) ensures d.rest() == dec_of(3, r.rest()) { unimplemented!() }
}
impl<R: Read> Read for DeflateDecoder<R> {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn failed(&self) -> bool;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { x: u8 }
#[verifier::external_body]
pub struct Canceled { x: u8 }
#[verifier::external_body]
pub struct HttpError { x: u8 }
