// Stand-ins for the futio crate.

/// `std::time::Duration`
#[verifier::external_body]
pub struct Duration { x: u64 }
pub uninterp spec fn nanos(d: Duration) -> nat;
pub axiom fn ax_nanos(a: Duration, b: Duration) ensures nanos(a) == nanos(b) ==> a == b;
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { nanos(*self) == nanos(*o) }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> (r: Option<std::cmp::Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<std::cmp::Ordering> {
        if nanos(*self) < nanos(*o) { Some(std::cmp::Ordering::Less) }
        else if nanos(*self) == nanos(*o) { Some(std::cmp::Ordering::Equal) }
        else { Some(std::cmp::Ordering::Greater) }
    }
}
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> (r: Duration) ensures nanos(r) == n * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Duration) ensures nanos(r) == n * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == nanos(*self) / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == nanos(*self) / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_micros(&self) -> (r: u128) ensures r == nanos(*self) / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == nanos(*self) { unimplemented!() }
}

#[verifier::external_body]
pub struct Semaphore { x: u8 }

pub trait VpDefault: Sized {
    spec fn is_default(r: &Self) -> bool;
    fn default() -> (r: Self) ensures Self::is_default(&r);
}
pub trait Buf {
    spec fn win(&self) -> Seq<u8>;
    spec fn bwf(&self) -> bool;
    fn remaining(&self) -> (r: usize)
        requires self.bwf()
        ensures r == self.win().len();
    fn chunk(&self) -> (r: &[u8])
        requires self.bwf()
        ensures r@ == self.win();
    /// a panic past the end is a rejection
    fn advance(&mut self, n: usize)
        requires old(self).bwf()
        ensures final(self).bwf(), n <= old(self).win().len(), final(self).win() == old(self).win().skip(n as int);
}
