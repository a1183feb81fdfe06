"""Recording of requests."""

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS
from . import body, fbuf

P = dict(fbuf.P)
P.update({
    "http::Method": "Method",
    "http::Method::default": "Method::default",
    "http::Uri": "Uri",
    "http::Uri::default": "Uri::default",
    "http::HeaderMap": "HeaderMap",
    "http::HeaderMap::new": "HeaderMap::new",
    "http::HeaderMap::default": "HeaderMap::default",
    "http::Request": "Request",
    "http::request::Builder": "Builder",
    "http::Error": "HttpError",
    "http_body::Body": "HBody",
})

SPEC = body.SPEC + fbuf.TUNE_SPEC + fbuf.DEF_SPEC + r'''
/// discharged for every wrapper in the unit of the streams (made_of)
pub trait StreamWrapper: Sized {
    spec fn sends(&self) -> Seq<u8>;
    fn new(body: BodyImage, tune: FutioTunables) -> (r: Self)
        requires body.wf0(), tune.image.buffer_size_fs > 0, tune.stream_item_size > 0
        ensures r.sends() == body@;
}
impl<B> RequestRecord<B> {
    pub open spec fn agrees(&self) -> bool {
        self.prolog.method == self.request.head().method && self.prolog.url == self.request.head().uri
            && self.prolog.req_headers == self.request.head().headers
    }
}
/// request and record agree with each other and with what was asked for
pub open spec fn recorded<B: StreamWrapper>(h: Option<Head>, body: Seq<u8>, r: Result<RequestRecord<B>, HttpError>) -> bool {
    match h {
        Some(h) => r matches Ok(q) && q.request.head() == h && q.prolog.method == h.method
            && q.prolog.url == h.uri && q.prolog.req_headers == h.headers
            && q.request.load().sends() =~= body && q.prolog.req_body@ =~= body,
        None => r is Err,
    }
}
pub trait RequestRecorder<B: StreamWrapper>: Sized {
    spec fn asked_head(&self) -> Option<Head>;
    fn record(self) -> (r: Result<RequestRecord<B>, HttpError>)
        ensures recorded(self.asked_head(), Seq::empty(), r);
    fn record_body<BB: VpInto<Bytes>>(self, body: BB) -> (r: Result<RequestRecord<B>, HttpError>)
        ensures recorded(self.asked_head(), body.into_spec()@, r);
    fn record_body_image(self, body: BodyImage, tune: FutioTunables) -> (r: Result<RequestRecord<B>, HttpError>)
        requires body.wf(), tune.image.buffer_size_fs > 0, tune.stream_item_size > 0
        ensures recorded(self.asked_head(), body@, r),
            r matches Ok(q) ==> q.prolog.req_body.wf();
}
'''

C = {}


def fn(key, props, **kw):
    C["futio::" + key] = Contract("futio::" + key, props, **kw)


for k in ("<From<IoError> for BodyError>::from", "<From<MemAdviseError> for BodyError>::from"):
    C["body_image::" + k] = Contract("body_image::" + k, [], safety=[])
C.update(fbuf.ext(["BodyImage::empty", "BodyImage::from_slice", "BodyImage::is_empty", "BodyImage::len",
                   "BodyImage::is_ram"], body.C))
C.update(fbuf.ext(["FutioTunables::new", "<VpDefault for FutioTunables>::default"], fbuf.C, "futio::"))

for m in ("record", "record_body", "record_body_image"):
    fn("<RequestRecorder<SW> for Builder>::" + m, ["C20"])
for m, e in (("method", "prolog.method"), ("url", "prolog.url"), ("request", "request")):
    fn("RequestRecord::" + m, ["C20"], requires=["self.agrees()"], ensures=["*$r == self." + e])
for m in ("req_headers", "req_body"):
    fn("<RequestRecorded for RequestRecord>::" + m, ["C20"], requires=["self.agrees()"], ensures=["*$r == self.prolog." + m])

IMPL_SPECS = dict(body.UNIT.impl_specs)
IMPL_SPECS.update(fbuf.IMPL_SPECS)
IMPL_SPECS[r"^impl.* RequestRecorder ?<.*> for Builder"] = \
    "open spec fn asked_head(&self) -> Option<Head> { self.head() }\n"
UNIT = Unit(
    "frec",
    files=[["futio", "body-image-futio/src/lib.rs"], ["futio", "body-image-futio/src/tune.rs"],
           ["futio", "body-image-futio/src/wrappers.rs"]] + fbuf.BODY_FILES,
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": METHODS, "inline": ["tmp_advise"]},
    preludes=["core.rs", "body.rs", "futio.rs", "frec.rs"],
    types=body.UNIT.types + ["body_image::Prolog", "futio::FutioTunables", "futio::BlockingPolicy",
                             "futio::RequestRecord"],
    spec=SPEC,
    impl_specs=IMPL_SPECS,
    groups=["vp_bytes", "vp_io", "vp_body_fs"],
    type_repl=body.UNIT.type_repl + [(" + HBody + Send", ""), (" + HBody", ""), (" + Send", "")],
    devirtual={"RequestRecorded": []},
    contracts=C,
    known=sorted(set(list(body.UNIT.known) + [k.split("::")[-1] for k in list(body.C) + list(fbuf.C)] + ["fmt", "source"])),
)
