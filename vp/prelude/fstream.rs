// Stand-ins for streams.

impl Buf for Bytes {
    open spec fn win(&self) -> Seq<u8> { self@ }
    open spec fn bwf(&self) -> bool { true }
    #[verifier::external_body]
    fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, n: usize) { unimplemented!() }
}
/// `Into` with the result given by a relation
pub trait VpConv<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;
    fn vp_conv(self) -> (r: T) ensures self.conv_ok(r);
}
impl VpConv<IoError> for Canceled {
    open spec fn conv_ok(self, r: IoError) -> bool { r.spec_kind() == ErrorKind::Other }
    #[verifier::external_body]
    fn vp_conv(self) -> (r: IoError) { unimplemented!() }
}
#[verifier::external_body]
pub struct SizeHint { x: u8 }
impl SizeHint {
    pub uninterp spec fn low(&self) -> u64;
    pub uninterp spec fn up(&self) -> Option<u64>;
    #[verifier::external_body]
    pub fn new() -> (r: SizeHint) ensures r.low() == 0, r.up() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn with_exact(n: u64) -> (r: SizeHint) ensures r.low() == n, r.up() == Some(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_exact(&mut self, n: u64) ensures final(self).low() == n, final(self).up() == Some(n) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(St)]
pub struct Cleaver<B, E, St> { x: Vec<(B, E, St)> }
impl<B, E, St> Cleaver<B, E, St> {
    pub uninterp spec fn inner(&self) -> St;
    pub uninterp spec fn max(&self) -> usize;
    /// panics for zero
    #[verifier::external_body]
    pub fn new(s: St, max: usize) -> (r: Self) requires max > 0 ensures r.inner() == s, r.max() == max { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(St)]
#[verifier::accept_recursive_types(I)]
pub struct YieldStream<St, I> { x: Vec<(St, I)> }
impl<St, I> YieldStream<St, I> {
    pub uninterp spec fn inner(&self) -> St;
    #[verifier::external_body]
    pub fn new(s: St) -> (r: Self) ensures r.inner() == s { unimplemented!() }
}

pub broadcast proof fn lem_flat_next(v: Seq<Bytes>)
    requires v.len() > 0
    ensures #![trigger flat(v), v.skip(1)] flat(v) == v[0]@ + flat(v.skip(1))
    decreases v.len()
{
    if v.len() == 1 {
        assert(v.drop_last() =~= Seq::<Bytes>::empty());
        assert(v.skip(1) =~= Seq::<Bytes>::empty());
        assert(v[0]@ + flat(v.skip(1)) =~= v[0]@);
        assert(flat(v.drop_last()) + v.last()@ =~= v[0]@);
    } else {
        lem_flat_next(v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
        assert(flat(v) =~= v[0]@ + flat(v.skip(1)));
    }
}
pub broadcast proof fn lem_take_skip(a: Seq<u8>, n: int)
    requires 0 <= n <= a.len()
    ensures #![trigger a.take(n), a.skip(n)] a.take(n) + a.skip(n) == a
{
    assert(a.take(n) + a.skip(n) =~= a);
}
pub broadcast group vp_stream { lem_flat_next, lem_take_skip }
