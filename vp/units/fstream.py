"""The asynchronous streams."""

import re

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS
from . import body, fbuf, fsink

P = dict(fsink.P)
P.update({
    "futures_core::stream::Stream": "Stream",
    "blocking_permit::Cleaver": "Cleaver",
    "blocking_permit::Cleaver::new": "Cleaver::new",
    "blocking_permit::YieldStream": "YieldStream",
    "blocking_permit::YieldStream::new": "YieldStream::new",
    "std::marker::PhantomData": "std::marker::PhantomData",
    "std::vec::IntoIter": "VpIter",
    "std::mem::MaybeUninit": "MaybeUninit",
    "bytes::BufMut": "BufMut",
    "http_body::Body": "HBody",
    "http_body::SizeHint": "SizeHint",
    "http_body::SizeHint::with_exact": "SizeHint::with_exact",
    "http_body::SizeHint::new": "SizeHint::new",
    "http_body::Body::size_hint": "AsyncBodyImage::size_hint",
    "http_body::Body::is_end_stream": "AsyncBodyImage::is_end_stream",
})

SPEC = body.SPEC + fbuf.TUNE_SPEC + fbuf.ARB_SPEC + fbuf.DEF_SPEC + fbuf.WIN_SPEC + fsink.LENIENT + r'''
impl<B: OutputBuf> VpConv<B> for Bytes {
    open spec fn conv_ok(self, r: B) -> bool { r.win() == self@ && r.bwf() }
    #[verifier::external_body]
    fn vp_conv(self) -> (r: B) { unimplemented!() }
}
pub trait OutputBuf: Buf + Sized {
    fn from_mmap(m: MemHandle<Mmap>) -> (r: Result<Self, IoError>)
        requires m@.len() > 0
        ensures r matches Ok(b) ==> b.win() == m@ && b.bwf();
}
impl AsyncBodyState {
    pub open spec fn left(&self) -> Seq<u8> {
        match *self {
            AsyncBodyState::Ram(it) => flat(it.rest()),
            AsyncBodyState::File(rs) => rs.rest(),
            AsyncBodyState::MemMap(Some(m)) => m@,
            AsyncBodyState::MemMap(None) => Seq::empty(),
        }
    }
}
pub type Item<B> = Poll<Option<Result<B, IoError>>>;
pub open spec fn idle(b: Blocking) -> bool { b is Void || b is Pending }
impl<B: OutputBuf, BA: BlockingArbiter + VpDefault> AsyncBodyImage<B, BA> {
    pub open spec fn left(&self) -> Seq<u8> { self.state.left() }
    pub open spec fn wf(&self) -> bool {
        &&& self.consumed <= self.len
        &&& self.left().len() <= self.len - self.consumed
        &&& self.state matches AsyncBodyState::MemMap(Some(m)) ==> m@.len() == self.len - self.consumed
        &&& self.tune.image.buffer_size_fs > 0
    }
    /// a file or map is to be read
    pub open spec fn needs(&self) -> bool { self.consumed < self.len && !(self.state is Ram) }
    /// made of the image
    pub open spec fn made(&self, body: BodyImage, t: FutioTunables) -> bool {
        self.wf() && self.left() == body@ && self.len == body.len && self.consumed == 0 && self.tune == t
            && (self.state is Ram <==> body.ram()) && BA::is_default(&self.arbiter)
    }
}
impl<B: OutputBuf> PermitBodyImage<B> {
    pub open spec fn wf(&self) -> bool {
        &&& self.image.wf()
        &&& idle(self.image.arbiter.state)
        &&& self.image.tune.blocking_policy is Permit
        &&& self.permit is Some ==> self.image.needs()
    }
}
impl<B: OutputBuf> DispatchBodyImage<B> {
    pub open spec fn here(&self) -> bool { self.state matches DispatchState::Image(Some(_)) }
    pub open spec fn image(&self) -> AsyncBodyImage<B, StatefulArbiter> {
        match self.state { DispatchState::Image(o) => o->0, DispatchState::Dispatch(d) => d.val().1 }
    }
    /// what dispatched work has to hand over
    pub open spec fn inbox(&self) -> Item<B> {
        match self.state { DispatchState::Image(o) => Poll::Pending, DispatchState::Dispatch(d) => d.val().0 }
    }
    pub open spec fn item(&self) -> Seq<u8> {
        match self.inbox() { Poll::Ready(Some(Ok(b))) => b.win(), _ => Seq::empty() }
    }
    pub open spec fn left(&self) -> Seq<u8> {
        match self.inbox() { Poll::Ready(Some(Ok(b))) => b.win() + self.image().left(), _ => self.image().left() }
    }
    pub open spec fn yielded(&self) -> int { self.image().consumed - self.item().len() }
    pub open spec fn failing(&self) -> bool { self.inbox() matches Poll::Ready(Some(Err(_))) }
    pub open spec fn wf(&self) -> bool {
        &&& self.image().wf()
        &&& self.image().len == self.len
        &&& self.yielded() >= 0
        &&& match self.state {
            DispatchState::Image(Some(s)) => idle(s.arbiter.state),
            DispatchState::Image(None) => false,
            DispatchState::Dispatch(d) => d.val().1.arbiter.state is Void && !(d.val().1.state is Ram) && !(d.val().0 is Pending)
                && (d.val().0 matches Poll::Ready(Some(Ok(b))) ==> b.bwf())
                && (d.val().0 matches Poll::Ready(None) ==> d.val().1.left().len() == 0),
        }
    }
    pub open spec fn needs(&self) -> bool { !self.here() || self.image().needs() }
}
pub trait StreamWrapper: Sized {
    spec fn made_of(&self, body: BodyImage, t: FutioTunables) -> bool;
    fn new(body: BodyImage, tune: FutioTunables) -> (r: Self)
        requires body.wf0(), tune.image.buffer_size_fs > 0, tune.stream_item_size > 0
        ensures r.made_of(body, tune);
}
'''

C = {}


def step(x):
    """One result of polling: what is left, accounted."""
    return [re.sub(r"\bF\b", "final(self)" + x, re.sub(r"\bO\b", "old(self)" + x, e)) for e in (
        "F.wf()", "F.len == O.len", "F.tune == O.tune", "(F.state is Ram) == (O.state is Ram)",
        "$r matches Poll::Ready(Some(Ok(b))) ==> b.bwf() && b.win() + F.left() == O.left() && F.consumed == O.consumed + b.win().len()",
        "!($r matches Poll::Ready(Some(Ok(_)))) ==> F.consumed == O.consumed",
        "$r matches Poll::Ready(Some(Err(_))) ==> F.left() == O.left() || F.left().len() == 0",
        "$r matches Poll::Ready(None) ==> O.left().len() == 0 && F.left() == O.left()",
        "$r is Pending ==> F.left() == O.left()")]


def fn(key, props, **kw):
    C["futio::" + key] = Contract("futio::" + key, props, **kw)


C.update(fbuf.ext(["<From<IoError> for BodyError>::from", "<From<MemAdviseError> for BodyError>::from",
                   "BodyImage::is_ram", "BodyImage::is_empty", "BodyImage::len", "BodyImage::explode",
                   "Tunables::buffer_size_fs", "Tunables::buffer_size_ram", "Tunables::max_body_ram"],
                  body.C))
C.update(fbuf.ext(["<BlockingArbiter for %s>::%s" % (t, m) for t in ("LenientArbiter", "StatefulArbiter")
                   for m in ("can_block", "state")]
                  + ["<VpDefault for StatefulArbiter>::default", "StatefulArbiter::set", "FutioTunables::image",
                     "FutioTunables::stream_item_size", "FutioTunables::blocking_semaphore",
                     "MemMapBuf::new", "MemMapBuf::advise_sequential", "<Deref for MemMapBuf>::deref",
                     "<Buf for MemMapBuf>::remaining", "<Buf for MemMapBuf>::chunk", "<Buf for MemMapBuf>::advance",
                     "UniBodyBuf::from_mmap", "<Deref for UniBodyBuf>::deref",
                     "<Buf for UniBodyBuf>::remaining", "<Buf for UniBodyBuf>::chunk", "<Buf for UniBodyBuf>::advance",
                     ], fbuf.C, "futio::"))
fn("<OutputBuf for Bytes>::from_mmap", ["C15"])
fn("<OutputBuf for UniBodyBuf>::from_mmap", ["C15"])
REPL = [("Context < '_ >", "Context"), ("< Self as Stream > :: Item", "Result<B, IoError>"),
        ("Self :: Item", "Result<B, IoError>"), ("Self :: Data", "B"), ("Self :: Error", "IoError")]
fn("AsyncBodyImage::new", ["C15"],
   requires=["$1.wf0()", "$2.image.buffer_size_fs > 0"],
   ensures=["$r.made($1, $2)"])
fn("AsyncBodyImage::poll_impl", ["C15"],
   requires=["old(self).wf()"],
   ensures=step("") + [
            (["C14"], "$r is Pending ==> old(self).needs() && !grants(old(self).arbiter.blk())"),
            (["C14"], "!old(self).needs() ==> final(self).arbiter == old(self).arbiter"),
            (["C14"], "old(self).needs() ==> final(self).arbiter.blk() == asked(old(self).arbiter.blk())"),
            (["C14"], "old(self).needs() && !grants(old(self).arbiter.blk()) ==> $r is Pending && final(self).state == old(self).state")],
   hints=["?v.rest() == old(self).left()", "self.consumed == old(self).consumed", "?b:BytesMut@.len() == 0",
          "?b:BytesMut.cap() == ?n:int as nat"],
   repl=REPL)
A = "<Stream for AsyncBodyImage>::"
ASYNC = step("") + [
         (["C14"], "old(self).needs() && !grants(old(self).arbiter.blk()) ==> $r is Pending && final(self).state == old(self).state"),
         (["C14"], "!old(self).needs() ==> final(self).arbiter == old(self).arbiter && !($r is Pending)"),
         (["C14"], "old(self).needs() ==> final(self).arbiter.blk() == asked(old(self).arbiter.blk())"),
         (["C14"], "final($1).granted() == old($1).granted()"),
         "grants(old(self).arbiter.blk()) ==> !($r is Pending)"]
fn("<Stream for AsyncBodyImage>::poll_next", ["C15"], requires=["old(self).wf()"], ensures=ASYNC, repl=REPL)
fn("<HBody for AsyncBodyImage>::poll_data", ["C15"], requires=["old(self).wf()"], ensures=ASYNC, repl=REPL)
fn("<HBody for AsyncBodyImage>::size_hint", ["C15"], requires=["self.wf()"],
   ensures=["$r.low() == self.len", "$r.up() == Some(self.len)"])
fn("<HBody for AsyncBodyImage>::is_end_stream", ["C15"], requires=["self.wf()"],
   ensures=["$r ==> self.consumed == self.len && self.left().len() == 0"])
PF = step(".image") + ["final(self).wf()",
      "$r is Pending ==> final($1).waiting()",
      (["C14"], "final($1).granted() == old($1).granted() && old(self).image.needs() ==> final(self).image.state == old(self).image.state"),
      (["C14"], "final($1).granted() <= old($1).granted() + 1"),
      (["C14"], "!old(self).image.needs() ==> !($r is Pending) && final($1).granted() == old($1).granted()")]
fn("<Stream for PermitBodyImage>::poll_next", ["C15"], requires=["old(self).wf()"], ensures=PF, repl=REPL)
fn("<HBody for PermitBodyImage>::poll_data", ["C15"], requires=["old(self).wf()"], ensures=PF, repl=REPL)
fn("<HBody for PermitBodyImage>::size_hint", ["C15"], requires=["self.wf()"],
   ensures=["$r.low() == self.image.len", "$r.up() == Some(self.image.len)"])
fn("<HBody for PermitBodyImage>::is_end_stream", ["C15"], requires=["self.wf()"],
   ensures=["$r ==> self.image.consumed == self.image.len && self.image.left().len() == 0"])
DF = ["final(self).wf()", "final(self).len == old(self).len",
      "$r matches Poll::Ready(Some(Ok(b))) ==> b.bwf() && b.win() + final(self).left() == old(self).left() "
      "&& final(self).yielded() == old(self).yielded() + b.win().len() && final(self).here()",
      "$r matches Poll::Ready(None) ==> old(self).left().len() == 0 && final(self).left().len() == 0 && !old(self).failing()",
      "$r matches Poll::Ready(Some(Err(_))) ==> final(self).left() == old(self).left() || final(self).left().len() == 0",
      "$r is Pending ==> final($1).waiting() && final(self).yielded() == old(self).yielded()",
      "old(self).failing() ==> ($r is Pending && final(self).failing()) || ($r matches Poll::Ready(Some(Err(_))))",
      "$r is Pending && !final(self).failing() ==> final(self).left() == old(self).left()",
      "$r is Pending && final(self).failing() ==> final(self).left() == old(self).left() || final(self).left().len() == 0",
      (["C14"], "final($1).granted() == old($1).granted() && old(self).needs() ==> !($r matches Poll::Ready(Some(Ok(_)))) && !($r matches Poll::Ready(None))"),
      (["C14"], "final($1).granted() == old($1).granted() && old(self).here() && final(self).here() && old(self).needs() ==> "
                "final(self).image().state == old(self).image().state"),
      (["C14"], "!old(self).here() && final(self).here() ==> final($1).granted() == old($1).granted() + 1"),
      (["C14"], "final($1).granted() <= old($1).granted() + 1"),
      (["C14"], "!old(self).needs() ==> !($r is Pending) && final($1).granted() == old($1).granted()")]
fn("<Stream for DispatchBodyImage>::poll_next", ["C15"], requires=["old(self).wf()"], ensures=DF, repl=REPL)
fn("<HBody for DispatchBodyImage>::poll_data", ["C15"], requires=["old(self).wf()"], ensures=DF, repl=REPL)
fn("<HBody for DispatchBodyImage>::size_hint", ["C15"], requires=["self.wf()"],
   ensures=["$r.low() == self.len", "$r.up() == Some(self.len)"])
fn("<HBody for DispatchBodyImage>::is_end_stream", ["C15"], requires=["self.wf()"],
   ensures=["$r ==> self.yielded() == self.len && self.left().len() == 0"])
for t in ("AsyncBodyImage", "SplitBodyImage", "YieldBodyImage", "PermitBodyImage", "DispatchBodyImage"):
    fn("<StreamWrapper for %s>::new" % t, ["C15"])

IMPL_SPECS = dict(fbuf.IMPL_SPECS)
IMPL_SPECS.update(body.UNIT.impl_specs)
for t, e in (("AsyncBodyImage", "self.made(body, t)"),
             ("SplitBodyImage", "self.inner().inner().made(body, t) && self.inner().max() == t.stream_item_size"),
             ("YieldBodyImage", "self.inner().made(body, t)"),
             ("PermitBodyImage", "self.image.made(body, t) && self.permit is None"),
             ("DispatchBodyImage", "self.here() && self.image().made(body, t) && self.len == body.len")):
    IMPL_SPECS[r"^impl.* StreamWrapper for %s" % t] = \
        "open spec fn made_of(&self, body: BodyImage, t: FutioTunables) -> bool { %s }\n" % e
TYPE_REPL = fsink.TYPE_REPL + [("fn () -> B", "B"), (" + Splittable", "")]
M = dict(METHODS)
M["into"] = "vp_conv"
UNIT = Unit(
    "fstream",
    files=fbuf.FILES + [["futio", "body-image-futio/src/stream.rs"]] + fbuf.BODY_FILES,
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": M, "inline": ["tmp_advise"], "pin_erase": True,
             "run_methods": ["run"], "eager_fns": ["dispatch_rx"]},
    preludes=["core.rs", "body.rs", "futio.rs", "fasync.rs", "fstream.rs"],
    types=body.UNIT.types + ["futio::" + t for t in (
        "Blocking", "LenientArbiter", "StatefulArbiter", "FutioTunables", "BlockingPolicy", "MemMapBuf",
        "UniBodyBuf", "BufState", "AsyncBodyImage", "AsyncBodyState", "PermitBodyImage", "DispatchBodyImage", "DispatchState")],
    spec=SPEC,
    impl_specs=IMPL_SPECS,
    groups=["vp_bytes", "vp_io", "vp_body_fs", "vp_stream"],
    type_repl=TYPE_REPL,
    devirtual=dict(fbuf.DEVIRTUAL, **{"Stream": [], "HBody": []}),
    contracts=C,
    known=sorted(set(list(body.UNIT.known) + [k.split("::")[-1] for k in list(body.C) + list(fbuf.C)] + ["fmt", "source"])),
)
