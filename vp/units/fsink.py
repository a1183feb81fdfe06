"""The asynchronous sinks."""

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS
from . import body, fbuf

P = dict(fbuf.P)
P.update({
    "std::task::Poll": "Poll",
    "std::task::Poll::Ready": "Poll::Ready",
    "std::task::Poll::Pending": "Poll::Pending",
    "std::task::Context": "Context",
    "std::pin::Pin": "Pin",
    "std::pin::Pin::new": "Pin::new",
    "futures_sink::Sink": "Sink",
    "blocking_permit::blocking_permit_future": "blocking_permit_future",
    "blocking_permit::BlockingPermitFuture": "BlockingPermitFuture",
    "blocking_permit::SyncBlockingPermitFuture": "SyncBlockingPermitFuture",
    "blocking_permit::dispatch_rx": "dispatch_rx",
    "blocking_permit::Dispatched": "Dispatched",
    "http::Error": "HttpError",
})

ERR_SPEC = r'''
impl vstd::std_specs::convert::FromSpecImpl<BodyError> for FutioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BodyError) -> FutioError { FutioError::Body(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for FutioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> FutioError { FutioError::Body(BodyError::Io(e)) }
}
impl VpInto<FutioError> for BodyError {
    open spec fn into_spec(self) -> FutioError { FutioError::Body(self) }
    fn vp_into(self) -> (r: FutioError) { FutioError::from(self) }
}
impl VpInto<FutioError> for IoError {
    open spec fn into_spec(self) -> FutioError { FutioError::Body(BodyError::Io(self)) }
    fn vp_into(self) -> (r: FutioError) { FutioError::from(self) }
}
'''
LENIENT = r'''
/// `derive(Default)` of the unit struct
impl VpDefault for LenientArbiter {
    open spec fn is_default(r: &LenientArbiter) -> bool { true }
    fn default() -> (r: LenientArbiter) { LenientArbiter }
}
'''
SPEC = body.SPEC + fbuf.TUNE_SPEC + fbuf.ARB_SPEC + fbuf.DEF_SPEC + ERR_SPEC + LENIENT + r'''
/// what is assumed of buffers given: the slice view is the window
pub trait InputBuf: Buf + VpAsRef<[u8]> + VpInto<Bytes> {}
pub axiom fn ax_input_buf<B: InputBuf>(b: B)
    ensures b.as_ref_spec()@ == b.win(), b.bwf();

pub open spec fn too_long(body: BodySink, n: nat, t: FutioTunables) -> bool { n > 0 && body@.len() + n > t.image.max_body }
/// more than RAM takes: a file is to be created or written
pub open spec fn needs(body: BodySink, n: nat, t: FutioTunables) -> bool {
    &&& n > 0
    &&& body@.len() + n <= t.image.max_body
    &&& !(body.ram() && body@.len() + n <= t.image.max_body_ram)
}
/// nothing but RAM was touched
pub open spec fn ram_only(a: BodySink, b: BodySink) -> bool { a == b || (a.ram() && b.ram()) }

impl<B: InputBuf, BA: BlockingArbiter + VpDefault> AsyncBodySink<B, BA> {
    pub open spec fn pend(&self) -> Seq<u8> { match self.buf { Some(b) => b.win(), None => Seq::empty() } }
    pub open spec fn all(&self) -> Seq<u8> { self.body@ + self.pend() }
    pub open spec fn wf(&self) -> bool { self.body.wf() && self.all().len() <= u64::MAX }
    pub open spec fn needs(&self) -> bool { needs(self.body, self.pend().len(), self.tune) }
    pub open spec fn too_long(&self) -> bool { too_long(self.body, self.pend().len(), self.tune) }
    /// all accepted is stored
    pub open spec fn done(&self, o: &Self) -> bool {
        self.wf() && self.buf is None && self.body@ == o.all() && self.tune == o.tune
            && (o.pend().len() > 0 ==> self.body@.len() <= o.tune.image.max_body)
    }
    /// nothing happened but for the arbiter
    pub open spec fn kept(&self, o: &Self) -> bool { self.body == o.body && self.buf == o.buf && self.tune == o.tune }
}
pub open spec fn idle(b: Blocking) -> bool { b is Void || b is Pending }
impl<B: InputBuf> PermitBodySink<B> {
    pub open spec fn wf(&self) -> bool {
        &&& self.sink.wf()
        &&& idle(self.sink.arbiter.state)
        &&& self.sink.tune.blocking_policy is Permit
        &&& self.permit is Some ==> self.sink.needs()
    }
}
pub type Disp<B> = (Poll<Result<(), FutioError>>, AsyncBodySink<B, StatefulArbiter>);
impl<B: InputBuf> DispatchBodySink<B> {
    pub open spec fn here(&self) -> bool { self.state matches DispatchState::Sink(Some(_)) }
    pub open spec fn sink(&self) -> AsyncBodySink<B, StatefulArbiter> {
        match self.state { DispatchState::Sink(o) => o->0, DispatchState::Dispatch(d) => d.val().1 }
    }
    pub open spec fn wf(&self) -> bool {
        match self.state {
            DispatchState::Sink(Some(s)) => s.wf() && idle(s.arbiter.state),
            DispatchState::Sink(None) => false,
            DispatchState::Dispatch(d) => {
                &&& d.val().1.arbiter.state is Void
                &&& match d.val().0 {
                    Poll::Ready(Ok(_)) => d.val().1.wf() && d.val().1.buf is None,
                    Poll::Ready(Err(e)) => !(e matches FutioError::Body(BodyError::BodyTooLong(_))),
                    Poll::Pending => false,
                }
            },
        }
    }
    /// the dispatched work ends with an error
    pub open spec fn failing(&self) -> bool { self.state matches DispatchState::Dispatch(d) && d.val().0 matches Poll::Ready(Err(_)) }
    pub open spec fn all(&self) -> Seq<u8> { self.sink().all() }
}
pub trait SinkWrapper<T>: Sized {
    spec fn holds(&self) -> bool;
    spec fn inner(&self) -> BodySink;
    spec fn fresh(&self, t: FutioTunables) -> bool;
    fn new(body: BodySink, tune: FutioTunables) -> (r: Self)
        ensures r.holds(), r.inner() == body, r.fresh(tune);
    fn into_inner(self) -> (r: BodySink)
        requires self.holds()
        ensures r == self.inner();
}
'''

C = {}


def fn(key, props, **kw):
    C["futio::" + key] = Contract("futio::" + key, props, **kw)


C.update(fbuf.ext(["<From<IoError> for BodyError>::from", "<From<MemAdviseError> for BodyError>::from",
                   "BodySink::is_ram", "BodySink::is_empty", "BodySink::len", "BodySink::push", "BodySink::save",
                   "BodySink::write_all", "BodySink::write_back",
                   "Tunables::max_body", "Tunables::max_body_ram", "Tunables::temp_dir", "Tunables::temp_dir_rc"],
                  body.C))
C.update(fbuf.ext(["<BlockingArbiter for %s>::%s" % (t, m) for t in ("LenientArbiter", "StatefulArbiter")
                   for m in ("can_block", "state")]
                  + ["<VpDefault for StatefulArbiter>::default", "StatefulArbiter::set", "FutioTunables::image",
                     "FutioTunables::blocking_semaphore"], fbuf.C, "futio::"))
fn("<From<BodyError> for FutioError>::from", ["C03"], safety=[])
fn("<From<IoError> for FutioError>::from", ["C03"], safety=[])

fn("AsyncBodySink::new", ["C13"],
   ensures=["$r.body == $1", "$r.tune == $2", "$r.buf is None", "<$G2 as VpDefault>::is_default(&$r.arbiter)"])
fn("AsyncBodySink::into_inner", ["C13"], ensures=["$r == self.body"])
fn("AsyncBodySink::poll_send", ["C13"],
   requires=["old(self).body.wf()", "old(self).body@.len() + $1.win().len() <= u64::MAX"],
   ensures=["final(self).tune == old(self).tune", "final(self).buf == old(self).buf",
            "$r matches Ok(None) ==> final(self).body.wf() && final(self).body@ == old(self).body@ + $1.win()",
            "$r matches Ok(Some(b)) ==> b == $1 && final(self).body == old(self).body",
            (["C03"], "$r is Ok ==> !too_long(old(self).body, $1.win().len(), old(self).tune)"),
            (["C03"], "$r matches Err(FutioError::Body(BodyError::BodyTooLong(_))) ==> "
                      "too_long(old(self).body, $1.win().len(), old(self).tune)"),
            (["C14"], "$r matches Ok(Some(_)) ==> !grants(old(self).arbiter.blk())"),
            (["C14"], "!needs(old(self).body, $1.win().len(), old(self).tune) ==> "
                      "final(self).arbiter == old(self).arbiter && !($r matches Ok(Some(_)))"),
            (["C14"], "needs(old(self).body, $1.win().len(), old(self).tune) ==> "
                      "final(self).arbiter.blk() == asked(old(self).arbiter.blk())"),
            (["C14"], "!grants(old(self).arbiter.blk()) ==> ram_only(old(self).body, final(self).body)"),
            (["C14"], "!grants(old(self).arbiter.blk()) && needs(old(self).body, $1.win().len(), old(self).tune) "
                      "==> $r matches Ok(Some(_))"),
            ],
   start="ax_input_buf($1);")
fn("AsyncBodySink::poll_flush_impl", ["C13"],
   requires=["old(self).wf()"],
   ensures=["final(self).tune == old(self).tune",
            "$r matches Poll::Ready(Ok(_)) ==> final(self).done(old(self))",
            "$r is Pending ==> final(self).kept(old(self)) && old(self).buf is Some",
            "$r matches Poll::Ready(Err(_)) ==> old(self).buf is Some",
            (["C03"], "old(self).too_long() ==> ($r matches Poll::Ready(Err(_)))"),
            (["C03"], "$r matches Poll::Ready(Err(FutioError::Body(BodyError::BodyTooLong(_)))) ==> old(self).too_long()"),
            (["C14"], "$r is Pending ==> !grants(old(self).arbiter.blk()) && old(self).needs()"),
            (["C14"], "!old(self).needs() ==> final(self).arbiter == old(self).arbiter"),
            (["C14"], "old(self).needs() ==> final(self).arbiter.blk() == asked(old(self).arbiter.blk())"),
            (["C14"], "!grants(old(self).arbiter.blk()) ==> ram_only(old(self).body, final(self).body)"),
            (["C14"], "!grants(old(self).arbiter.blk()) && old(self).needs() ==> $r is Pending"),
            ])
SEND_REQ = ["%s.wf()", "%s.buf is None", "%s.body@.len() + $1.win().len() <= u64::MAX"]
fn("AsyncBodySink::send", ["C13"], start="ax_input_buf($1);",
   requires=[r % "old(self)" for r in SEND_REQ],
   ensures=["$r is Ok ==> final(self).wf()", "$r is Ok ==> final(self).all() == old(self).body@ + $1.win()",
            "!too_long(old(self).body, $1.win().len(), old(self).tune) && !needs(old(self).body, $1.win().len(), old(self).tune) ==> $r is Ok",
            "final(self).tune == old(self).tune",
            (["C14"], "!grants(old(self).arbiter.blk()) ==> ram_only(old(self).body, final(self).body)"),
            (["C14"], "idle(old(self).arbiter.blk()) ==> idle(final(self).arbiter.blk())")])
for t in ("AsyncBodySink", "PermitBodySink", "DispatchBodySink"):
    fn("<SinkWrapper<B> for %s>::new" % t, ["C13"])
    fn("<SinkWrapper<B> for %s>::into_inner" % t, ["C13"])
REPL = [("Context < '_ >", "Context")]
A = "<Sink<B> for AsyncBodySink>::"
FL = ["final(self).tune == old(self).tune",
      "$r matches Poll::Ready(Ok(_)) ==> final(self).done(old(self))",
      "$r is Pending ==> final(self).kept(old(self)) && old(self).buf is Some",
      "$r matches Poll::Ready(Err(_)) ==> old(self).buf is Some",
      (["C03"], "old(self).too_long() ==> ($r matches Poll::Ready(Err(_)))"),
      (["C03"], "$r matches Poll::Ready(Err(FutioError::Body(BodyError::BodyTooLong(_)))) ==> old(self).too_long()"),
      "$r is Pending ==> !grants(old(self).arbiter.blk())"]
for m in ("poll_ready", "poll_flush", "poll_close"):
    fn(A + m, ["C13"], requires=["old(self).wf()"], ensures=FL, repl=REPL)
fn(A + "start_send", ["C13"], start="ax_input_buf($1);",
   requires=[r % "old(self)" for r in SEND_REQ],
   ensures=["$r is Ok ==> final(self).wf()", "$r is Ok ==> final(self).all() == old(self).body@ + $1.win()",
            "!too_long(old(self).body, $1.win().len(), old(self).tune) && !needs(old(self).body, $1.win().len(), old(self).tune) ==> $r is Ok",
            "final(self).tune == old(self).tune",
            (["C14"], "!grants(old(self).arbiter.blk()) ==> ram_only(old(self).body, final(self).body)"),
            (["C14"], "idle(old(self).arbiter.blk()) ==> idle(final(self).arbiter.blk())")])
PM = "<Sink<B> for PermitBodySink>::"
PF = ["$r matches Poll::Ready(Ok(_)) ==> final(self).wf() && final(self).permit is None && final(self).sink.done(&old(self).sink)",
      "$r is Pending ==> final(self).wf() && final(self).sink.kept(&old(self).sink) && old(self).sink.buf is Some "
      "&& final($1).waiting()",
      "$r matches Poll::Ready(Err(_)) ==> old(self).sink.buf is Some",
      (["C03"], "$r matches Poll::Ready(Err(FutioError::Body(BodyError::BodyTooLong(_)))) ==> old(self).sink.too_long()"),
      (["C03"], "old(self).sink.too_long() ==> ($r matches Poll::Ready(Err(_)))"),
      (["C14"], "final($1).granted() == old($1).granted() ==> ram_only(old(self).sink.body, final(self).sink.body)"),
      (["C14"], "final($1).granted() <= old($1).granted() + 1"),
      (["C14"], "!old(self).sink.needs() ==> !($r is Pending) && final($1).granted() == old($1).granted()"),
      (["C14"], "idle(final(self).sink.arbiter.state)")]
for m in ("poll_ready", "poll_flush", "poll_close"):
    fn(PM + m, ["C13"], requires=["old(self).wf()"], ensures=PF, repl=REPL)
fn(PM + "start_send", ["C13"], start="ax_input_buf($1);",
   requires=["old(self).wf()", "old(self).sink.buf is None", "old(self).sink.body@.len() + $1.win().len() <= u64::MAX"],
   ensures=["$r is Ok ==> final(self).wf()", "$r is Ok ==> final(self).sink.all() == old(self).sink.body@ + $1.win()",
            "!too_long(old(self).sink.body, $1.win().len(), old(self).sink.tune) && !needs(old(self).sink.body, $1.win().len(), old(self).sink.tune) ==> $r is Ok",
            "final(self).sink.tune == old(self).sink.tune",
            (["C14"], "!grants(old(self).sink.arbiter.blk()) ==> ram_only(old(self).sink.body, final(self).sink.body)"),
            (["C14"], "idle(old(self).sink.arbiter.blk()) ==> idle(final(self).sink.arbiter.blk())")])
DM = "<Sink<B> for DispatchBodySink>::"
DF = ["$r matches Poll::Ready(Ok(_)) ==> final(self).wf() && final(self).here() && final(self).sink().buf is None "
      "&& final(self).all() == old(self).all() && !old(self).failing()",
      "$r is Pending ==> final(self).wf() && final($1).waiting()",
      "$r is Pending && !final(self).failing() ==> final(self).all() == old(self).all()",
      "$r is Pending && old(self).failing() ==> final(self).failing()",
      "$r matches Poll::Ready(Err(_)) && old(self).here() ==> old(self).sink().buf is Some",
      (["C03"], "$r matches Poll::Ready(Err(FutioError::Body(BodyError::BodyTooLong(_)))) ==> old(self).here() && old(self).sink().too_long()"),
      (["C03"], "old(self).here() && old(self).sink().too_long() ==> ($r matches Poll::Ready(Err(_)))"),
      (["C14"], "final($1).granted() == old($1).granted() && old(self).here() && final(self).here() ==> "
                "ram_only(old(self).sink().body, final(self).sink().body)"),
      (["C14"], "!old(self).here() && final(self).here() ==> final($1).granted() == old($1).granted() + 1"),
      (["C14"], "final($1).granted() <= old($1).granted() + 1"),
      (["C14"], "old(self).here() && !old(self).sink().needs() ==> !($r is Pending) && final($1).granted() == old($1).granted()"),
      (["C14"], "final(self).here() ==> idle(final(self).sink().arbiter.state)")]
for m in ("poll_ready", "poll_flush", "poll_close"):
    fn(DM + m, ["C13"], requires=["old(self).wf()"], ensures=DF, repl=REPL)
fn(DM + "start_send", ["C13"], start="ax_input_buf($1);",
   requires=["old(self).wf()", "old(self).here()", "old(self).sink().buf is None",
             "old(self).sink().body@.len() + $1.win().len() <= u64::MAX"],
   ensures=["$r is Ok ==> final(self).wf()", "$r is Ok ==> final(self).sink().all() == old(self).sink().body@ + $1.win()",
            "!too_long(old(self).sink().body, $1.win().len(), old(self).sink().tune) && !needs(old(self).sink().body, $1.win().len(), old(self).sink().tune) ==> $r is Ok",
            "final(self).sink().tune == old(self).sink().tune",
            (["C14"], "!grants(old(self).sink().arbiter.blk()) ==> ram_only(old(self).sink().body, final(self).sink().body)"),
            (["C14"], "idle(old(self).sink().arbiter.blk()) ==> idle(final(self).sink().arbiter.blk())"),
            "final(self).here()"])

IMPL_SPECS = dict(fbuf.IMPL_SPECS)
IMPL_SPECS.update(body.UNIT.impl_specs)
IMPL_SPECS.update({
    r"^impl.* SinkWrapper < B > for AsyncBodySink":
    "open spec fn holds(&self) -> bool { true }\nopen spec fn inner(&self) -> BodySink { self.body }\n"
    "open spec fn fresh(&self, t: FutioTunables) -> bool { self.tune == t && self.buf is None }\n",
    r"^impl.* SinkWrapper < B > for PermitBodySink":
    "open spec fn holds(&self) -> bool { true }\nopen spec fn inner(&self) -> BodySink { self.sink.body }\n"
    "open spec fn fresh(&self, t: FutioTunables) -> bool { self.sink.tune == t && self.sink.buf is None "
    "&& self.permit is None && self.sink.arbiter.state is Void }\n",
    r"^impl.* SinkWrapper < B > for DispatchBodySink":
    "open spec fn holds(&self) -> bool { self.here() }\nopen spec fn inner(&self) -> BodySink { self.sink().body }\n"
    "open spec fn fresh(&self, t: FutioTunables) -> bool { self.sink().tune == t && self.sink().buf is None "
    "&& self.sink().arbiter.state is Void }\n",
})
TYPE_REPL = body.UNIT.type_repl + [(" + Unpin", ""), ("BlockingPermitFuture < 'static >", "BlockingPermitFuture")]
UNIT = Unit(
    "fsink",
    files=fbuf.FILES + [["futio", "body-image-futio/src/sink.rs"]] + fbuf.BODY_FILES,
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": METHODS, "inline": ["tmp_advise"], "pin_erase": True,
             "run_methods": ["run"], "eager_fns": ["dispatch_rx"]},
    preludes=["core.rs", "body.rs", "futio.rs", "fasync.rs"],
    types=body.UNIT.types + ["body_image::Encoding"] + ["futio::" + t for t in (
        "Blocking", "LenientArbiter", "StatefulArbiter", "FutioTunables", "BlockingPolicy",
        "FutioError", "AsyncBodySink", "PermitBodySink", "DispatchBodySink", "DispatchState")],
    spec=SPEC,
    impl_specs=IMPL_SPECS,
    groups=["vp_bytes", "vp_io", "vp_body_fs"],
    type_repl=TYPE_REPL,
    devirtual={"Sink < B >": []},
    contracts=C,
    known=sorted(set(list(body.UNIT.known) + [k.split("::")[-1] for k in list(body.C) + list(fbuf.C)] + ["fmt", "source"])),
)
