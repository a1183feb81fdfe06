// Stand-ins for polling and for blocking permits.

#[verifier::external_body]
pub struct Flaw { x: u8 }
#[verifier::external_body]
pub struct HttpError { x: u8 }
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    pub fn is_pending(&self) -> (r: bool) ensures r == (*self is Pending) { match self { Poll::Pending => true, _ => false } }
    pub fn is_ready(&self) -> (r: bool) ensures r == (*self is Ready) { match self { Poll::Pending => false, _ => true } }
}

/// `granted` counts the permits obtained and dispatched calls completed with
/// this context, `waiting` tells that a wake-up is arranged.
#[verifier::external_body]
pub struct Context { x: u8 }
impl Context {
    pub uninterp spec fn granted(&self) -> nat;
    pub uninterp spec fn waiting(&self) -> bool;
}
#[verifier::external_body]
pub struct Canceled { x: u8 }
#[verifier::external_body]
pub struct BlockingPermit { x: u8 }
impl BlockingPermit {
    /// the closure given is run in place
    #[verifier::external_body]
    pub fn vp_run(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct BlockingPermitFuture { x: u8 }
#[verifier::external_body]
pub struct SyncBlockingPermitFuture { x: u8 }
#[verifier::external_body]
pub fn blocking_permit_future(s: &'static Semaphore) -> (r: BlockingPermitFuture) { unimplemented!() }
impl BlockingPermitFuture {
    #[verifier::external_body]
    pub fn make_sync(self) -> (r: SyncBlockingPermitFuture) { unimplemented!() }
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<BlockingPermit, Canceled>>)
        ensures final(cx).granted() == old(cx).granted() + (if r matches Poll::Ready(Ok(_)) { 1nat } else { 0 }),
            r is Pending ==> final(cx).waiting()
    { unimplemented!() }
}
impl SyncBlockingPermitFuture {
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<BlockingPermit, Canceled>>)
        ensures final(cx).granted() == old(cx).granted() + (if r matches Poll::Ready(Ok(_)) { 1nat } else { 0 }),
            r is Pending ==> final(cx).waiting()
    { unimplemented!() }
}
/// `dispatch_rx`: the closure given owns what it works on, its result is
/// handed over by `poll`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DispatchRx<T> { x: Vec<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Dispatched<T> { x: Vec<T> }
impl<T> Dispatched<T> {
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context) -> (r: Poll<Result<T, Canceled>>)
        ensures final(cx).granted() == old(cx).granted() + (if r matches Poll::Ready(Ok(_)) { 1nat } else { 0 }),
            r matches Poll::Ready(Ok(v)) ==> v == old(self).val(),
            !(r matches Poll::Ready(Ok(_))) ==> final(self).val() == old(self).val(),
            r is Pending ==> final(cx).waiting()
    { unimplemented!() }
}
impl<T> DispatchRx<T> {
    pub uninterp spec fn val(&self) -> T;
    /// panics without a registered pool
    #[verifier::external_body]
    pub fn vp_unwrap(self) -> (r: Dispatched<T>) ensures r.val() == self.val() { unimplemented!() }
}
#[verifier::external_body]
pub fn dispatch_rx<T>(t: T) -> (r: DispatchRx<T>) ensures r.val() == t { unimplemented!() }
