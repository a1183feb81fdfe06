"""The barc crate: heads, header blocks, bodies, compression, writing and
reading of records."""

from ..unit import Unit, Contract
from .common import PATHS, EXTERN_ROOTS, METHODS
from . import body

# names of the mime crate and what they say
TEXTS = {"mime::" + n: t for n, t in (
    ("TEXT", "text"), ("APPLICATION", "application"), ("IMAGE", "image"), ("FONT", "font"), ("AUDIO", "audio"),
    ("VIDEO", "video"), ("MULTIPART", "multipart"), ("MESSAGE", "message"), ("MODEL", "model"), ("STAR", "*"),
    ("PLAIN", "plain"), ("HTML", "html"), ("XML", "xml"), ("JAVASCRIPT", "javascript"), ("JSON", "json"),
    ("CSS", "css"), ("CSV", "csv"), ("EVENT_STREAM", "event-stream"), ("MSGPACK", "msgpack"),
    ("OCTET_STREAM", "octet-stream"), ("WWW_FORM_URLENCODED", "x-www-form-urlencoded"), ("BMP", "bmp"),
    ("GIF", "gif"), ("JPEG", "jpeg"), ("PNG", "png"), ("SVG", "svg"), ("WOFF", "woff"), ("WOFF2", "woff2"))}

P = dict(PATHS)
P.update({
    "std::cmp::min": "vp_min",
    "std::cmp::max": "vp_max",
    "std::sync::MutexGuard": "VpGuard",
    "std::sync::Mutex": "Mutex",
    "std::fs::OpenOptions": "OpenOptions",
    "http::HeaderMap": "HeaderMap",
    "http::header::HeaderMap": "HeaderMap",
    "http::header::HeaderName": "HeaderName",
    "http::header::HeaderValue": "HeaderValue",
    "http::header::CONTENT_TYPE": "vp_content_type()",
    "mime::Mime": "Mime",
    "httparse::EMPTY_HEADER": "vp_empty_header()",
    "httparse::parse_headers": "httparse_parse_headers",
    "httparse::Status": "HpStatus",
    "httparse::Error": "HpError",
    "olio::fs::rc::ReadPos": "ReadPos",
    "flate2::write::GzEncoder": "GzEncoder",
    "flate2::read::GzDecoder": "GzDecoder",
    "flate2::Compression": "GzCompression",
    "brotli::CompressorWriter": "BrEncoder",
    "brotli::Decompressor": "BrDecoder",
    "Box::new": "vp_box",
})

SPEC = body.SPEC + r'''
impl PartialEq for Compression {
    #[verifier::external_body]
    fn eq(&self, o: &Compression) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Compression {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Compression) -> bool { *self == *o }
}
impl PartialEq for RecordType {
    #[verifier::external_body]
    fn eq(&self, o: &RecordType) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for RecordType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RecordType) -> bool { *self == *o }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for BarcError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> BarcError { BarcError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<BodyError> for BarcError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BodyError) -> BarcError { BarcError::Body(e) }
}
impl VpInto<BarcError> for IoError {
    open spec fn into_spec(self) -> BarcError { BarcError::Io(self) }
    fn vp_into(self) -> (r: BarcError) { BarcError::from(self) }
}
impl VpInto<BarcError> for BodyError {
    open spec fn into_spec(self) -> BarcError { BarcError::Body(self) }
    fn vp_into(self) -> (r: BarcError) { BarcError::from(self) }
}

#[verifier::external_body]
pub struct DialogConvertError { x: u8 }

// -- record heads
pub open spec fn tflag(t: RecordType) -> u8 { match t { RecordType::Reserved => 82, RecordType::Dialog => 68 } }
pub open spec fn cflag(c: Compression) -> u8 {
    match c { Compression::Plain => 80, Compression::Gzip => 90, Compression::Brotli => 66 }
}
pub open spec fn head_limits(h: RecordHead) -> bool {
    h.len <= 0xffff_ffff_ffff && h.meta <= 0xf_ffff && h.req_h <= 0xf_ffff && h.req_b <= 0xff_ffff_ffff
        && h.res_h <= 0xf_ffff
}
pub open spec fn magic() -> Seq<u8> { seq![66u8, 65u8, 82u8, 67u8, 50u8, 32u8] }
pub open spec fn sp() -> Seq<u8> { seq![32u8] }
/// the 54 bytes of a head
pub open spec fn head_bytes(h: RecordHead) -> Seq<u8> {
    magic() + hexw(h.len as nat, 12) + sp() + seq![tflag(h.rec_type)] + seq![cflag(h.compress)] + sp()
        + hexw(h.meta as nat, 5) + sp() + hexw(h.req_h as nat, 5) + sp() + hexw(h.req_b as nat, 10) + sp()
        + hexw(h.res_h as nat, 5) + seq![13u8, 10u8, 13u8, 10u8]
}
pub broadcast proof fn lem_take_next(s: Seq<u8>, i: int, j: int)
    requires 0 <= i < s.len(), j == i + 1
    ensures #![trigger s.take(i), s.take(j)] s.take(j) == s.take(i).push(s[i])
{
    assert(s.take(j) =~= s.take(i).push(s[i]));
}
pub open spec fn hex_is(s: Seq<u8>, v: int) -> bool { hex_ok(s) && hexval(s) == v }
/// the head that 54 bytes stand for
pub open spec fn head_is(b: Seq<u8>, h: RecordHead) -> bool {
    &&& b.len() == 54
    &&& b.subrange(0, 6) == magic()
    &&& hex_is(b.subrange(6, 18), h.len as int)
    &&& b[19] == tflag(h.rec_type)
    &&& b[20] == cflag(h.compress)
    &&& hex_is(b.subrange(22, 27), h.meta as int)
    &&& hex_is(b.subrange(28, 33), h.req_h as int)
    &&& hex_is(b.subrange(34, 44), h.req_b as int)
    &&& hex_is(b.subrange(45, 50), h.res_h as int)
}
/// the head which bytes stand for
pub open spec fn the_head(b: Seq<u8>) -> RecordHead { choose|h: RecordHead| head_is(b, h) }
pub broadcast proof fn lem_the_head(b: Seq<u8>, h: RecordHead)
    requires #[trigger] head_is(b, h)
    ensures the_head(b) == h
{
    let g = the_head(b);
    assert(head_is(b, g));
    assert(g.len == h.len && g.rec_type == h.rec_type && g.compress == h.compress && g.meta == h.meta);
}
pub open spec fn head_valid(b: Seq<u8>) -> bool {
    &&& b.len() == 54
    &&& b.subrange(0, 6) == magic()
    &&& hex_ok(b.subrange(6, 18))
    &&& (b[19] == 82 || b[19] == 68)
    &&& (b[20] == 80 || b[20] == 90 || b[20] == 66)
    &&& hex_ok(b.subrange(22, 27)) && hex_ok(b.subrange(28, 33)) && hex_ok(b.subrange(34, 44))
    &&& hex_ok(b.subrange(45, 50))
}
/// what is written for a head within the limits stands for that head and no other
pub proof fn lem_head_round(h: RecordHead)
    requires head_limits(h)
    ensures head_bytes(h).len() == 54, head_is(head_bytes(h), h), head_valid(head_bytes(h)),
        forall|g: RecordHead| #[trigger] head_is(head_bytes(h), g) ==> g == h
{
    let b = head_bytes(h);
    lem_pow16();
    lem_hex_round(h.len as nat, 12);
    lem_hex_round(h.meta as nat, 5);
    lem_hex_round(h.req_h as nat, 5);
    lem_hex_round(h.req_b as nat, 10);
    lem_hex_round(h.res_h as nat, 5);
    assert(b.subrange(0, 6) =~= magic());
    assert(b.subrange(6, 18) =~= hexw(h.len as nat, 12));
    assert(b.subrange(22, 27) =~= hexw(h.meta as nat, 5));
    assert(b.subrange(28, 33) =~= hexw(h.req_h as nat, 5));
    assert(b.subrange(34, 44) =~= hexw(h.req_b as nat, 10));
    assert(b.subrange(45, 50) =~= hexw(h.res_h as nat, 5));
}

// -- records
#[verifier::external_body]
pub struct Rec { x: u8 }
/// A `MetaRecorded`: its getters always return the same values.
impl Rec {
    pub uninterp spec fn s_type(&self) -> RecordType;
    pub uninterp spec fn s_meta(&self) -> HeaderMap;
    pub uninterp spec fn s_reqh(&self) -> HeaderMap;
    pub uninterp spec fn s_resh(&self) -> HeaderMap;
    pub uninterp spec fn s_reqb(&self) -> BodyImage;
    pub uninterp spec fn s_resb(&self) -> BodyImage;
    #[verifier::external_body]
    pub fn rec_type(&self) -> (r: RecordType) ensures r == self.s_type() { unimplemented!() }
    #[verifier::external_body]
    pub fn meta(&self) -> (r: &HeaderMap) ensures *r == self.s_meta() { unimplemented!() }
    #[verifier::external_body]
    pub fn req_headers(&self) -> (r: &HeaderMap) ensures *r == self.s_reqh() { unimplemented!() }
    #[verifier::external_body]
    pub fn res_headers(&self) -> (r: &HeaderMap) ensures *r == self.s_resh() { unimplemented!() }
    #[verifier::external_body]
    pub fn req_body(&self) -> (r: &BodyImage) ensures *r == self.s_reqb() { unimplemented!() }
    #[verifier::external_body]
    pub fn res_body(&self) -> (r: &BodyImage) ensures *r == self.s_resb() { unimplemented!() }
    /// within the format limits
    pub open spec fn limits(&self) -> bool {
        &&& self.s_reqb().wf() && self.s_resb().wf()
        &&& hdr_block(self.s_meta()@, true).len() <= 0xf_ffff
        &&& hdr_block(self.s_reqh()@, true).len() <= 0xf_ffff
        &&& hdr_block(self.s_resh()@, true).len() <= 0xf_ffff
        &&& self.s_reqb()@.len() + 2 <= 0xff_ffff_ffff
        &&& hdr_block(self.s_meta()@, true).len() + hdr_block(self.s_reqh()@, true).len()
            + hdr_block(self.s_resh()@, true).len() + self.s_reqb()@.len() + 2
            + self.s_resb()@.len() + 2 <= 0xffff_ffff_ffff
    }
}
/// a body with its padding
pub open spec fn body_block(b: Seq<u8>, pad: bool) -> Seq<u8> { if pad && b.len() > 0 { b + crlf() } else { b } }
/// the uncompressed payload of a record
pub open spec fn payload(r: Rec, pad: bool) -> Seq<u8> {
    hdr_block(r.s_meta()@, pad) + hdr_block(r.s_reqh()@, pad) + body_block(r.s_reqb()@, pad)
        + hdr_block(r.s_resh()@, pad) + body_block(r.s_resb()@, pad)
}
pub open spec fn cmode(c: Compression) -> u8 {
    match c { Compression::Plain => 0, Compression::Gzip => 1, Compression::Brotli => 2 }
}
/// `e` holds `s` in the given compression
pub open spec fn is_enc(c: Compression, s: Seq<u8>, e: Seq<u8>) -> bool {
    if c == Compression::Plain { s == e } else { enc_of(cmode(c), s, e) }
}
/// the head describing a record
pub open spec fn head_for(r: Rec, c: Compression, len: nat, h: RecordHead) -> bool {
    let pad = c == Compression::Plain;
    &&& h.rec_type == r.s_type() && h.compress == c && h.len == len
    &&& h.meta == hdr_block(r.s_meta()@, pad).len()
    &&& h.req_h == hdr_block(r.s_reqh()@, pad).len()
    &&& h.req_b == body_block(r.s_reqb()@, pad).len()
    &&& h.res_h == hdr_block(r.s_resh()@, pad).len()
}
/// `t` is the complete record
pub open spec fn rec_with(t: Seq<u8>, r: Rec, h: RecordHead) -> bool {
    &&& t.len() >= 54
    &&& head_for(r, h.compress, (t.len() - 54) as nat, h)
    &&& t.take(54) == head_bytes(h)
    &&& is_enc(h.compress, payload(r, h.compress == Compression::Plain), t.skip(54))
}
pub open spec fn rec_bytes(t: Seq<u8>, r: Rec) -> bool { exists|h: RecordHead| #[trigger] rec_with(t, r, h) }
pub open spec fn reserved() -> Seq<u8> {
    head_bytes(RecordHead { len: 0, rec_type: RecordType::Reserved, compress: Compression::Plain,
        meta: 0, req_h: 0, req_b: 0, res_h: 0 })
}
/// nothing, an incomplete place-holder head, or a place-holder head
pub open spec fn reserved_at(t: Seq<u8>) -> bool {
    t.is_prefix_of(reserved()) || reserved().is_prefix_of(t)
}
/// the record is found behind `c`
pub open spec fn appended(c: Seq<u8>, s: Seq<u8>, r: Rec) -> bool {
    c.is_prefix_of(s) && rec_bytes(s.skip(c.len() as int), r)
}
pub proof fn lem_payload_len(r: Rec)
    ensures forall|pad: bool| #![trigger payload(r, pad)] payload(r, pad).len() ==
        hdr_block(r.s_meta()@, pad).len() + hdr_block(r.s_reqh()@, pad).len() + body_block(r.s_reqb()@, pad).len()
        + hdr_block(r.s_resh()@, pad).len() + body_block(r.s_resb()@, pad).len()
{
}
/// an archive content possible while the record is appended to `c`
pub open spec fn append_state(c: Seq<u8>, s: Seq<u8>, r: Rec) -> bool {
    (c.is_prefix_of(s) && reserved_at(s.skip(c.len() as int))) || appended(c, s, r)
}
pub broadcast proof fn lem_res_take(o: Seq<u8>, k: int)
    requires 0 <= k <= o.len(), reserved_at(o)
    ensures #[trigger] reserved_at(o.take(k))
{
    let r = reserved();
    if o.is_prefix_of(r) {
        assert(o.take(k).is_prefix_of(r));
    } else if k <= r.len() {
        assert forall|i: int| 0 <= i < k implies o[i] == r[i] by { assert(o.take(r.len() as int)[i] == r[i]); }
        assert(o.take(k) =~= r.take(k));
    } else {
        assert(o.take(k).take(r.len() as int) =~= o.take(r.len() as int));
    }
}
pub broadcast proof fn lem_append_left(c: Seq<u8>, s: Seq<u8>, r: Rec, n: nat, b: Seq<u8>)
    requires n == c.len(), s == #[trigger] write_at(c, n, b), reserved_at(b)
    ensures #[trigger] append_state(c, s, r)
{
    lem_write_at_end(c, n, b);
    assert(s.skip(c.len() as int) =~= b);
}
pub proof fn lem_append_done(c: Seq<u8>, o: Seq<u8>, s: Seq<u8>, r: Rec, n: nat, h: RecordHead)
    requires n == c.len(), s == write_at(c + o, n, head_bytes(h)), o.len() >= 54, head_limits(h),
        head_for(r, h.compress, (o.len() - 54) as nat, h),
        is_enc(h.compress, payload(r, h.compress == Compression::Plain), o.skip(54)),
    ensures appended(c, s, r), append_state(c, s, r),
{
    lem_head_round(h);
    let t = s.skip(c.len() as int);
    assert(t.take(54) =~= head_bytes(h));
    assert(t.skip(54) =~= o.skip(54));
    assert(rec_with(t, r, h));
}
pub broadcast proof fn lem_append_done_b(c: Seq<u8>, o: Seq<u8>, s: Seq<u8>, r: Rec, n: nat, h: RecordHead)
    requires n == c.len(), s == #[trigger] write_at(c + o, n, head_bytes(h)), o.len() >= 54, head_limits(h),
        head_for(r, h.compress, (o.len() - 54) as nat, h),
        is_enc(h.compress, payload(r, h.compress == Compression::Plain), o.skip(54)),
    ensures #[trigger] append_state(c, s, r)
{
    lem_append_done(c, o, s, r, n, h);
}
pub broadcast proof fn lem_append_done_c(c: Seq<u8>, o: Seq<u8>, s: Seq<u8>, r: Rec, n: nat, h: RecordHead)
    requires n == c.len(), s == #[trigger] write_at(c + o, n, head_bytes(h)), o.len() >= 54, head_limits(h),
        head_for(r, h.compress, (o.len() - 54) as nat, h),
        is_enc(h.compress, payload(r, h.compress == Compression::Plain), o.skip(54)),
    ensures #[trigger] appended(c, s, r)
{
    lem_append_done(c, o, s, r, n, h);
}
pub broadcast group vp_append { lem_res_take, lem_append_left, lem_append_done_b, lem_append_done_c }

// -- encoders
impl EncTag {
    /// an encoder only appends, whatever happens
    pub open spec fn promise(self) -> bool {
        self.mode != 0 ==> self.fin.ftag() == self.ftag && self.base.is_prefix_of(self.fin.out())
    }
}
impl<'a> Encoder<'a> {
    #[verifier::prophetic]
    pub open spec fn etag(&self) -> EncTag {
        match *self {
            Encoder::Plain(f) => EncTag { mode: 0, fin: *final(f), ftag: f.ftag(), base: Seq::empty() },
            Encoder::Gzip(g) => EncTag { mode: 1, fin: g.fin(), ftag: g.init().ftag(), base: g.init().out() },
            Encoder::Brotli(g) => EncTag { mode: 2, fin: g.fin(), ftag: g.init().ftag(), base: g.init().out() },
        }
    }
    pub open spec fn eout(&self) -> Seq<u8> {
        match *self {
            Encoder::Plain(f) => f.out(),
            Encoder::Gzip(g) => g.out(),
            Encoder::Brotli(g) => g.out(),
        }
    }
    pub open spec fn easked(&self) -> Seq<Seq<u8>> {
        match *self {
            Encoder::Plain(f) => f.asked(),
            Encoder::Gzip(g) => g.asked(),
            Encoder::Brotli(g) => g.asked(),
        }
    }
}
/// state of the file after finishing
pub open spec fn enc_done(t: EncTag, out: Seq<u8>) -> bool {
    if t.mode == 0 { t.fin.out() == out }
    else { enc_of(t.mode, out, t.fin.out().skip(t.base.len() as int)) }
}
pub open spec fn enc_kept(t: EncTag, out: Seq<u8>) -> bool {
    &&& t.fin.ftag() == t.ftag
    &&& if t.mode == 0 { out.is_prefix_of(t.fin.out()) } else { t.base.is_prefix_of(t.fin.out()) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct BrEncoder<W> { x: Vec<W> }
impl<'a> BrEncoder<ErrorLatch<'a>> {
    pub uninterp spec fn init(&self) -> File;
    #[verifier::prophetic]
    pub uninterp spec fn fin(&self) -> File;
    #[verifier::external_body]
    pub fn new(w: ErrorLatch<'a>, n: usize, q: u32, l: u32) -> (r: BrEncoder<ErrorLatch<'a>>)
        ensures r.init() == *old(w.file), r.fin() == *final(w.file), r.out() == Seq::<u8>::empty(),
            only_appends(*old(w.file), *final(w.file)) { unimplemented!() }
    /// the stream is complete if the writer never saw an error
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: ErrorLatch<'a>)
        ensures *final(r.file) == self.fin(), r.file.ftag() == self.init().ftag(),
            self.init().out().is_prefix_of(r.file.out()),
            r.error is None ==> enc_of(2, self.out(), r.file.out().skip(self.init().out().len() as int)) { unimplemented!() }
}
impl<'a> Write for BrEncoder<ErrorLatch<'a>> {
    type Tag = (File, File);
    #[verifier::prophetic]
    open spec fn tag(&self) -> (File, File) { (self.init(), self.fin()) }
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn asked(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl<'a> VpBox for BrEncoder<ErrorLatch<'a>> {
    type Out = BrEncoder<ErrorLatch<'a>>;
    open spec fn boxed(self, o: Self::Out) -> bool { o == self }
    fn into_box(self) -> (r: Self::Out) { self }
}
/// what a strategy returns
#[verifier::prophetic]
pub open spec fn wrapped<'a>(f0: File, f1: File, r: Result<EncodeWrapper<'a>, BarcError>) -> bool {
    match r {
        Ok(w) => {
            let t = w.tag();
            &&& t.fin == f1 && t.ftag == f0.ftag() && t.promise()
            &&& if t.mode == 0 { w.out() == f0.out() } else { t.base == f0.out() && w.out() == Seq::<u8>::empty() }
        }
        Err(_) => only_appends(f0, f1),
    }
}
#[verifier::external_body]
pub struct Strat { x: u8 }
impl Strat {
    #[verifier::external_body]
    pub fn wrap_encoder<'a>(&self, rec: &Rec, file: &'a mut File) -> (r: Result<EncodeWrapper<'a>, BarcError>)
        ensures wrapped(*old(file), *final(file), r) { unimplemented!() }
}
impl<'a> BarcWriter<'a> {
    pub open spec fn file(&self) -> File { (*self.guard)->Some_0 }
}

// -- the rule of compression
/// the content types taken as compressible, by lower case type and subtype
pub open spec fn type_ok(t: Seq<u8>, s: Seq<u8>) -> bool {
    ||| t == seq![116u8, 101u8, 120u8, 116u8]
    ||| t == seq![97u8, 112u8, 112u8, 108u8, 105u8, 99u8, 97u8, 116u8, 105u8, 111u8, 110u8] && (s == seq![104u8, 116u8, 109u8, 108u8]
        || s == seq![106u8, 97u8, 118u8, 97u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8]
        || s == seq![106u8, 115u8, 111u8, 110u8]
        || s == seq![120u8, 109u8, 108u8]
        || s == seq![97u8, 116u8, 111u8, 109u8]
        || s == seq![114u8, 115u8, 115u8]
        || s == seq![120u8, 45u8, 102u8, 111u8, 110u8, 116u8, 45u8, 111u8, 112u8, 101u8, 110u8, 116u8, 121u8, 112u8, 101u8]
        || s == seq![120u8, 45u8, 102u8, 111u8, 110u8, 116u8, 45u8, 116u8, 114u8, 117u8, 101u8, 116u8, 121u8, 112u8, 101u8]
        || s == seq![120u8, 45u8, 102u8, 111u8, 110u8, 116u8, 45u8, 116u8, 116u8, 102u8]
        || s == seq![120u8, 104u8, 116u8, 109u8, 108u8])
    ||| t == seq![105u8, 109u8, 97u8, 103u8, 101u8] && s == seq![115u8, 118u8, 103u8]
    ||| t == seq![102u8, 111u8, 110u8, 116u8] && (s == seq![111u8, 112u8, 101u8, 110u8, 116u8, 121u8, 112u8, 101u8] || s == seq![111u8, 116u8, 102u8] || s == seq![116u8, 116u8, 102u8])
}
pub open spec fn ctype_ok(s: Seq<u8>) -> bool {
    match mime_parse(ws_trimmed(s)) { Some(m) => type_ok(m.0, m.1), None => false }
}
pub open spec fn val_compressible(v: Option<Seq<u8>>) -> bool {
    match v { Some(b) => visible(b) && ctype_ok(b), None => false }
}
pub open spec fn s_identity() -> Seq<u8> { seq![105u8, 100u8, 101u8, 110u8, 116u8, 105u8, 116u8, 121u8] }
pub open spec fn ends_identity(v: Option<Seq<u8>>) -> bool {
    match v { Some(b) => b.len() >= 8 && b.skip(b.len() - 8) == s_identity(), None => false }
}
pub open spec fn opt_view(o: Option<&HeaderValue>) -> Option<Seq<u8>> {
    match o { Some(v) => Some(v@), None => None }
}
pub open spec fn s_decoded() -> Seq<u8> {
    seq![114u8, 101u8, 115u8, 112u8, 111u8, 110u8, 115u8, 101u8, 45u8, 100u8, 101u8, 99u8, 111u8, 100u8, 101u8, 100u8]
}
pub open spec fn res_counts(r: Rec, check: bool) -> bool {
    (!check || ends_identity(hm_get(r.s_meta()@, s_decoded())))
        && val_compressible(hm_get(r.s_resh()@, content_type()))
}
pub open spec fn req_counts(r: Rec) -> bool { val_compressible(hm_get(r.s_reqh()@, content_type())) }
pub open spec fn sat(n: int) -> int { if n > u64::MAX { u64::MAX as int } else { n } }
/// compressible length against the minimum
pub open spec fn rule(r: Rec, min: u64, check: bool) -> bool {
    let resl = r.s_resb()@.len() as int;
    let reql = r.s_reqb()@.len() as int;
    let clen = (if res_counts(r, check) { resl } else { 0 }) + (if req_counts(r) { reql } else { 0 });
    let need = sat(min + (if res_counts(r, check) { 0 } else { resl / 2 }) + (if req_counts(r) { 0 } else { reql / 2 }));
    clen + hdr_lines(r.s_resh()@).len() + hdr_lines(r.s_reqh()@).len() + hdr_lines(r.s_meta()@).len() >= need
}

// -- reading
/// the headers a block stands for
pub open spec fn blk_data(b: Seq<u8>, pad: bool) -> Seq<u8> { if pad { b } else { b + crlf() } }
pub open spec fn blk_ok(b: Seq<u8>, pad: bool) -> bool {
    b.len() == 0 || (b.len() > 2 && (hp_parse(blk_data(b, pad)) matches Some((n, es))
        && n == blk_data(b, pad).len() && hdrs_valid(es) && hm_fits(es)))
}
pub open spec fn blk_is(b: Seq<u8>, pad: bool, m: Seq<Hdr>) -> bool {
    if b.len() == 0 { m == Seq::<Hdr>::empty() } else {
        b.len() > 2 && (hp_parse(blk_data(b, pad)) matches Some((n, es))
            && n == blk_data(b, pad).len() && m == hm_from(es))
    }
}
pub open spec fn body_ok(b: Seq<u8>, pad: bool) -> bool { pad ==> b.len() == 0 || b.len() > 2 }
pub open spec fn body_of(b: Seq<u8>, pad: bool) -> Seq<u8> { if pad && b.len() > 0 { b.take(b.len() - 2) } else { b } }
pub open spec fn body_is(b: Seq<u8>, pad: bool, d: Seq<u8>) -> bool { body_ok(b, pad) && d == body_of(b, pad) }
pub open spec fn off4(h: RecordHead) -> int { h.meta + h.req_h + h.req_b + h.res_h }
/// the parts of a record are the declared ranges of the payload, which starts
/// at the front of `d` and has the length `n`
pub open spec fn parts_is(d: Seq<u8>, n: int, pad: bool, h: RecordHead, r: Record) -> bool {
    let d1 = d.skip(h.meta as int);
    let d2 = d1.skip(h.req_h as int);
    let d3 = d2.skip(h.req_b as int);
    let d4 = d3.skip(h.res_h as int);
    &&& off4(h) <= n <= d.len()
    &&& r.rec_type == h.rec_type
    &&& blk_is(d.take(h.meta as int), pad, r.meta@)
    &&& blk_is(d1.take(h.req_h as int), pad, r.req_headers@)
    &&& r.req_body.wf() && body_is(d2.take(h.req_b as int), pad, r.req_body@)
    &&& blk_is(d3.take(h.res_h as int), pad, r.res_headers@)
    &&& r.res_body.wf() && body_is(d4.take(n - off4(h)), pad, r.res_body@)
}
pub open spec fn parts_ok(d: Seq<u8>, n: int, pad: bool, h: RecordHead) -> bool {
    let d1 = d.skip(h.meta as int);
    let d2 = d1.skip(h.req_h as int);
    let d3 = d2.skip(h.req_b as int);
    let d4 = d3.skip(h.res_h as int);
    &&& off4(h) <= n <= d.len()
    &&& blk_ok(d.take(h.meta as int), pad)
    &&& blk_ok(d1.take(h.req_h as int), pad)
    &&& body_ok(d2.take(h.req_b as int), pad)
    &&& blk_ok(d3.take(h.res_h as int), pad)
    &&& body_ok(d4.take(n - off4(h)), pad)
}
/// file content `w` starts with a record of that head
pub open spec fn rec_at(w: Seq<u8>, h: RecordHead) -> bool {
    54 + h.len <= w.len() && head_is(w.take(54), h)
}
pub open spec fn unpacked(w: Seq<u8>, h: RecordHead) -> Seq<u8> {
    dec_of(cmode(h.compress), w.skip(54).take(h.len as int))
}
pub open spec fn rec_read(w: Seq<u8>, h: RecordHead, r: Record) -> bool {
    &&& rec_at(w, h)
    &&& if h.compress == Compression::Plain { parts_is(w.skip(54), h.len as int, true, h, r) }
        else { parts_is(unpacked(w, h), unpacked(w, h).len() as int, false, h, r) }
}
/// nothing wrong with the record there
pub open spec fn rec_good(w: Seq<u8>, h: RecordHead) -> bool {
    &&& rec_at(w, h)
    &&& if h.compress == Compression::Plain { parts_ok(w.skip(54), h.len as int, true, h) }
        else { parts_ok(unpacked(w, h), unpacked(w, h).len() as int, false, h) }
}

// -- what is written is what is read: follows from the contracts
pub open spec fn lowered(es: Seq<Hdr>) -> bool { forall|i: int| 0 <= i < es.len() ==> lower((#[trigger] es[i]).0) == es[i].0 }
pub proof fn lem_hm_id(es: Seq<Hdr>)
    requires hm_grouped(es), lowered(es)
    ensures hm_from(es) == es
    decreases es.len()
{
    if es.len() > 0 {
        let p = es.drop_last();
        assert forall|i: int| 0 < i < p.len() implies (p[i].0 == p[i - 1].0 || !hm_has(p.take(i), (#[trigger] p[i]).0)) by {
            assert(p.take(i) =~= es.take(i));
            assert(es[i].0 == es[i - 1].0 || !hm_has(es.take(i), es[i].0));
        }
        assert forall|i: int| 0 <= i < p.len() implies lower((#[trigger] p[i]).0) == p[i].0 by { assert(lower(es[i].0) == es[i].0); }
        lem_hm_id(p);
        let k = es.len() - 1;
        assert(es.take(k) =~= p);
        assert(lower(es[k].0) == es[k].0);
        if k > 0 { assert(es[k].0 == es[k - 1].0 || !hm_has(es.take(k), es[k].0)); }
        assert(es =~= p.push(es[k]));
    }
}
pub proof fn lem_keys_mono(es: Seq<Hdr>, i: int)
    requires 0 <= i <= es.len()
    ensures hm_keys(es.take(i)) <= hm_keys(es)
    decreases es.len()
{
    if i < es.len() {
        lem_keys_mono(es.drop_last(), i);
        assert(es.drop_last().take(i) =~= es.take(i));
    } else {
        assert(es.take(i) =~= es);
    }
}
pub proof fn lem_hm_fits(es: Seq<Hdr>)
    requires hm_grouped(es), lowered(es), hm_keys(es) <= HM_MAX
    ensures hm_fits(es)
{
    assert forall|i: int| 0 <= i < es.len() implies
        hm_keys(hm_from(es.take(i))) < HM_MAX || hm_has(hm_from(es.take(i)), lower((#[trigger] es[i]).0)) by {
        let p = es.take(i);
        assert forall|j: int| 0 < j < p.len() implies (p[j].0 == p[j - 1].0 || !hm_has(p.take(j), (#[trigger] p[j]).0)) by {
            assert(p.take(j) =~= es.take(j));
            assert(es[j].0 == es[j - 1].0 || !hm_has(es.take(j), es[j].0));
        }
        assert forall|j: int| 0 <= j < p.len() implies lower((#[trigger] p[j]).0) == p[j].0 by { assert(lower(es[j].0) == es[j].0); }
        lem_hm_id(p);
        let q = es.take(i + 1);
        lem_keys_mono(es, i + 1);
        assert(q.drop_last() =~= p);
        assert(q.last() == es[i]);
        assert(lower(es[i].0) == es[i].0);
    }
}
/// a written header block is read as the same map
pub proof fn lem_block_round(m: HeaderMap, pad: bool)
    requires hdrs_trimmed(m@)
    ensures blk_ok(hdr_block(m@, pad), pad), forall|x: Seq<Hdr>| blk_is(hdr_block(m@, pad), pad, x) ==> x == m@
{
    let es = m@;
    let b = hdr_block(es, pad);
    lem_lines_some(es);
    if es.len() > 0 {
        ax_hp_round(es);
        assert(blk_data(b, pad) =~= hdr_lines(es) + crlf());
        lem_hm_id(es);
        lem_hm_fits(es);
    } else {
        assert(es =~= Seq::<Hdr>::empty());
        assert(b.len() == 0);
    }
}
pub proof fn lem_body_round(b: Seq<u8>, pad: bool)
    ensures body_ok(body_block(b, pad), pad), body_of(body_block(b, pad), pad) == b
{
    assert(body_of(body_block(b, pad), pad) =~= b);
}
pub open spec fn same_rec(r: Record, rec: Rec) -> bool {
    r.rec_type == rec.s_type() && r.meta@ == rec.s_meta()@ && r.req_headers@ == rec.s_reqh()@
        && r.req_body@ == rec.s_reqb()@ && r.res_headers@ == rec.s_resh()@ && r.res_body@ == rec.s_resb()@
}
pub open spec fn rec_trimmed(rec: Rec) -> bool {
    hdrs_trimmed(rec.s_meta()@) && hdrs_trimmed(rec.s_reqh()@) && hdrs_trimmed(rec.s_resh()@)
}
pub proof fn lem_parts_round(d: Seq<u8>, rec: Rec, h: RecordHead, pad: bool, n: nat)
    requires rec_trimmed(rec), n == payload(rec, pad).len(), payload(rec, pad).is_prefix_of(d),
        h.rec_type == rec.s_type(), h.meta == hdr_block(rec.s_meta()@, pad).len(), h.req_h == hdr_block(rec.s_reqh()@, pad).len(),
        h.req_b == body_block(rec.s_reqb()@, pad).len(), h.res_h == hdr_block(rec.s_resh()@, pad).len(),
    ensures parts_ok(d, n as int, pad, h),
        forall|r: Record| parts_is(d, n as int, pad, h, r) ==> same_rec(r, rec)
{
    let a = hdr_block(rec.s_meta()@, pad);
    let b = hdr_block(rec.s_reqh()@, pad);
    let c = body_block(rec.s_reqb()@, pad);
    let e = hdr_block(rec.s_resh()@, pad);
    let g = body_block(rec.s_resb()@, pad);
    let p = payload(rec, pad);
    assert forall|i: int| 0 <= i < p.len() implies p[i] == d[i] by { assert(d.take(p.len() as int)[i] == d[i]); }
    let d1 = d.skip(h.meta as int);
    let d2 = d1.skip(h.req_h as int);
    let d3 = d2.skip(h.req_b as int);
    let d4 = d3.skip(h.res_h as int);
    assert(d.take(h.meta as int) =~= a) by {
        assert forall|i: int| 0 <= i < a.len() implies d[i] == a[i] by { assert(p[i] == a[i]); }
    }
    assert(d1.take(h.req_h as int) =~= b) by {
        assert forall|i: int| 0 <= i < b.len() implies d[a.len() + i] == b[i] by { assert(p[a.len() + i] == b[i]); }
    }
    assert(d2.take(h.req_b as int) =~= c) by {
        assert forall|i: int| 0 <= i < c.len() implies d[a.len() + b.len() + i] == c[i] by { assert(p[a.len() + b.len() + i] == c[i]); }
    }
    assert(d3.take(h.res_h as int) =~= e) by {
        assert forall|i: int| 0 <= i < e.len() implies d[a.len() + b.len() + c.len() + i] == e[i] by {
            assert(p[a.len() + b.len() + c.len() + i] == e[i]);
        }
    }
    assert(d4.take(n - off4(h)) =~= g) by {
        assert forall|i: int| 0 <= i < g.len() implies d[a.len() + b.len() + c.len() + e.len() + i] == g[i] by {
            assert(p[a.len() + b.len() + c.len() + e.len() + i] == g[i]);
        }
    }
    lem_block_round(rec.s_meta(), pad);
    lem_block_round(rec.s_reqh(), pad);
    lem_block_round(rec.s_resh(), pad);
    lem_body_round(rec.s_reqb()@, pad);
    lem_body_round(rec.s_resb()@, pad);
}
/// a record appended to an archive, within the limits and with header values
/// that have no blanks at their ends, is found there and read as written
pub proof fn thm_record_round(w: Seq<u8>, t: Seq<u8>, rec: Rec)
    requires rec.limits(), rec_trimmed(rec), rec_bytes(t, rec), t.is_prefix_of(w),
    ensures rec_good(w, the_head(w.take(54))), the_head(w.take(54)).len + 54 == t.len(),
        the_head(w.take(54)).rec_type == rec.s_type(),
        forall|r: Record| rec_read(w, the_head(w.take(54)), r) ==> same_rec(r, rec)
{
    let h = choose|h: RecordHead| rec_with(t, rec, h);
    let pad = h.compress == Compression::Plain;
    let p = payload(rec, pad);
    let e = t.skip(54);
    lem_payload_len(rec);
    if !pad { ax_enc_dec(cmode(h.compress), p, e); ax_enc_len(cmode(h.compress), p, e); }
    assert(head_limits(h));
    lem_head_round(h);
    assert forall|i: int| 0 <= i < t.len() implies t[i] == w[i] by { assert(w.take(t.len() as int)[i] == w[i]); }
    assert(w.take(54) =~= t.take(54));
    lem_the_head(w.take(54), h);
    assert(w.skip(54).take(h.len as int) =~= e);
    if pad {
        assert(e.is_prefix_of(w.skip(54)));
        lem_parts_round(w.skip(54), rec, h, true, p.len());
    } else {
        lem_parts_round(p, rec, h, false, p.len());
    }
}
'''

C = {}


def fn(key, props, **kw):
    C["barc::" + key] = Contract("barc::" + key, props, **kw)


for k, c in body.C.items():
    e = Contract(c.key, c.props, attrs=c.attrs, external=True)
    e.requires, e.ensures = c.requires, c.ensures
    C[k] = e

fn("<From<IoError> for BarcError>::from", ["C10"], safety=[])
fn("<From<BodyError> for BarcError>::from", ["C10"], safety=[])

# -- heads ------------------------------------------------------------------------
fn("RecordType::flag", ["C05"], ensures=["$r as u32 == tflag(self)"])
fn("RecordType::from_byte", ["C05"],
   ensures=["$r matches Ok(t) ==> tflag(t) == $1",
            "$r is Ok == ($1 == 82 || $1 == 68)",
            "$r matches Err(e) ==> e == BarcError::UnknownRecordType($1)"])
fn("Compression::flag", ["C05"], ensures=["$r as u32 == cflag(self)"])
fn("Compression::from_byte", ["C05"],
   ensures=["$r matches Ok(t) ==> cflag(t) == $1",
            "$r is Ok == ($1 == 80 || $1 == 90 || $1 == 66)",
            "$r matches Err(e) ==> e == BarcError::UnknownCompression($1)"])
fn("write_all_len", ["C05", "C06"],
   ensures=["$r matches Ok(n) ==> n == $2@.len()",
            "$r is Ok ==> final($1).out() == old($1).out() + $2@",
            "$r is Err ==> vp_part(old($1).out(), final($1).out(), $2@)",
            "old($1).out().is_prefix_of(final($1).out())",
            "$r matches Err(e) ==> e is Io",
            (["C08"], "final($1).asked() == old($1).asked().push($2@)"),
            "final($1).tag() == old($1).tag()"])
fn("write_record_head", ["C05"],
   requires=["head_limits(*$2)"],
   ensures=["$r is Ok ==> final($1).out() == old($1).out() + head_bytes(*$2)",
            "$r matches Err(e) ==> e is Io",
            (["C08"], "$r is Err ==> vp_part(old($1).out(), final($1).out(), head_bytes(*$2))"),
            (["C08"], "final($1).asked() == old($1).asked().push(head_bytes(*$2))"),
            (["C08"], "final($1).tag() == old($1).tag()")],
   start="lem_pow16(); lem_head_round(*$2);")
fn("parse_hex", ["C05"],
   requires=["$1@.len() <= 15"],
   ensures=["$r matches Ok(v) ==> hex_is($1@, v.nv())",
            "$r is Err ==> !hex_ok($1@)",
            "$r matches Err(e) ==> e is ReadInvalidRecHeadHex"],
   safety=["C05", "C10"],
   hints=["?v.nv() == hexval(?i:Iter.seen())", "hex_ok(?i:Iter.seen())",
          "?i:Iter.whole() == $1@", ("ens", "?i:Iter.seen() == $1@"),
          "?n:int <= $1@.len()", "hex_ok($1@.take(?n:int as int))", "?v.nv() == hexval($1@.take(?n:int as int))"],
   start="broadcast use lem_take_next;")
fn("read_record_head_buf", ["C05"],
   requires=["old($2)@.len() == 54"],
   ensures=["final($1).rtag() == old($1).rtag()",
            "final($2)@.len() == 54",
            "$r matches Ok(n) ==> n <= 54 && n <= old($1).rest().len()",
            "$r matches Ok(n) ==> (n < 54 ==> n == old($1).rest().len())",
            "$r matches Ok(n) ==> final($2)@.take(n as int) == old($1).rest().take(n as int)",
            "$r matches Ok(n) ==> final($1).rest() == old($1).rest().skip(n as int)",
            "$r matches Ok(n) ==> final($1).taken() == old($1).taken() + n",
            "$r matches Err(e) ==> e is Io && final($1).failed()",
            "$r is Ok ==> final($1).failed() == old($1).failed()"],
   safety=["C05", "C10"],
   hints=["$1.rtag() == old($1).rtag()", "$1.failed() == old($1).failed()",
          "?n:int <= 54", "?n:int < 54", "?n:int <= old($1).rest().len()",
          "$1.rest() == old($1).rest().skip(?n:int as int)",
          "$1.taken() == old($1).taken() + ?n:int",
          "$2@.len() == 54 - ?n:int", "$2@.len() == 54",
          "final($$2)@ == old($1).rest().take(?n:int as int) + final($2)@",
          "$2@.take(?n:int as int) == old($1).rest().take(?n:int as int)",
          "forall|k: int| 0 <= k < ?n:int ==> #[trigger] $2@[k] == old($1).rest()[k]",
          ("ens", "?n:int < 54 ==> $1.rest().len() == 0"),
          ])
fn("read_record_head", ["C05"],
   ensures=["final($1).rtag() == old($1).rtag()",
            "$r matches Ok(Some(h)) ==> head_is(old($1).rest().take(54), h) && head_limits(h) && old($1).rest().len() >= 54",
            "$r matches Ok(Some(h)) ==> final($1).rest() == old($1).rest().skip(54)",
            "$r matches Ok(Some(h)) ==> final($1).taken() == old($1).taken() + 54",
            "$r matches Ok(None) ==> old($1).rest().len() == 0 && final($1).taken() == old($1).taken()",
            "$r matches Err(BarcError::ReadIncompleteRecHead(n)) ==> n == old($1).rest().len() && 0 < n < 54",
            "$r matches Err(e) ==> e is Io || (old($1).rest().len() > 0 && (old($1).rest().len() < 54 || !head_valid(old($1).rest().take(54))))",
            "$r matches Err(e) ==> (e is Io ==> final($1).failed())",
            "$r is Ok ==> final($1).failed() == old($1).failed()",
            "$r matches Err(e) ==> (old($1).rest().len() < 54 ==> e is Io || e is ReadIncompleteRecHead)"],
   safety=["C05", "C10"])

for f in ("req_headers", "req_body", "res_headers", "res_body", "rec_type", "meta"):
    t = "MetaRecorded" if f in ("rec_type", "meta") else "Recorded" if f.startswith("res") else "RequestRecorded"
    fn("<%s for Record>::%s" % (t, f), ["C06"], ensures=["%s$r == self.%s" % ("" if f == "rec_type" else "*", f)])

# -- writing ------------------------------------------------------------------------
OUT = ["final($1).tag() == old($1).tag()", "old($1).out().is_prefix_of(final($1).out())"]
fn("write_headers", ["C06", "C07", "C19"],
   requires=["hdr_block($3@, $2).len() <= 0xf_ffff"],
   ensures=["$r matches Ok(n) ==> n == hdr_block($3@, $2).len()",
            "$r is Ok ==> final($1).out() == old($1).out() + hdr_block($3@, $2)",
            "$r matches Err(e) ==> e is Io"] + OUT,
   hints=["?n:int == hdr_lines(?i:Iter.seen()).len()",
          "$1.out() == old($1).out() + hdr_lines(?i:Iter.seen())",
          "old($1).out().is_prefix_of($1.out())",
          "$1.tag() == old($1).tag()",
          "?i:Iter.whole() == $3@", ("ens", "?i:Iter.seen() == $3@")])
fn("write_body", ["C06", "C07", "C19"],
   requires=["$3.wf()", "$3@.len() + 2 <= u64::MAX"],
   ensures=["$r matches Ok(n) ==> n == body_block($3@, $2).len()",
            "$r is Ok ==> final($1).out() == old($1).out() + body_block($3@, $2)"] + OUT)
fn("write_record", ["C06", "C07"],
   requires=["$2.limits()"],
   ensures=["$r matches Ok(h) ==> head_for(*$2, h.compress, payload(*$2, h.compress == Compression::Plain).len(), h)",
            "$r matches Ok(h) ==> (h.compress == Compression::Plain ==> "
            "final($1).out().skip(old($1).out().len() as int) == payload(*$2, true))",
            "$r matches Ok(h) ==> (h.compress != Compression::Plain ==> "
            "enc_of(cmode(h.compress), payload(*$2, false), final($1).out().skip(old($1).out().len() as int)))",
            (["C08"], "final($1).ftag() == old($1).ftag()"),
            (["C08"], "old($1).out().is_prefix_of(final($1).out())")])
fn("BarcWriter::write", ["C08"],
   requires=["*old(self).guard is Some", "$1.limits()"],
   ensures=["*final(self).guard is Some",
            (["C06", "C07"], "$r matches Ok(n) ==> n == old(self).file().contents().len()"),
            (["C06", "C07"], "$r is Ok ==> appended(old(self).file().contents(), final(self).file().contents(), *$1)"),
            "forall|s: Seq<u8>| #[trigger] final(self).file().had(s) ==> old(self).file().had(s) "
            "|| append_state(old(self).file().contents(), s, *$1)"],
   start="broadcast use vp_append; lem_head_round(V2_RESERVE_HEAD); lem_payload_len(*$1);")
fn("BarcFile::new", ["C08"], ensures=[
    "forall|t: Option<File>| #[trigger] $r.write_lock.ok(t) ==> t is None",
    "$r.path == *($1.as_ref_spec())"])
fn("BarcFile::writer", ["C08"],
   requires=["forall|t: Option<File>| #[trigger] self.write_lock.ok(t) ==> (t matches Some(f) ==> f.contents() == disk(&self.path))"],
   ensures=["$r matches Ok(w) ==> *w.guard is Some && w.file().contents() == disk(&self.path)"])
fn("BarcFile::reader", ["C09"],
   ensures=["$r matches Ok(x) ==> x.file.file() == disk(&self.path) && x.file.at() == 0"])
fn("EncodeWrapper::plain", ["C11"],
   ensures=["wrapped(*old($1), *final($1), Ok($r))", "$r.tag().mode == 0"])
fn("EncodeWrapper::gzip", ["C11"],
   ensures=["wrapped(*old($1), *final($1), Ok($r))", "$r.tag().mode == 1"])
fn("EncodeWrapper::brotli", ["C11"],
   ensures=["wrapped(*old($1), *final($1), Ok($r))", "$r.tag().mode == 2"])
fn("EncodeWrapper::mode", ["C07", "C11"], ensures=["cmode($r) == self.tag().mode"])
fn("EncodeWrapper::finish", ["C07"],
   requires=["self.tag().promise()"],
   ensures=["$r is Ok ==> enc_done(self.tag(), self.out())",
            (["C08"], "enc_kept(self.tag(), self.out())")])
fn("<Write for EncodeWrapper>::write", ["C06", "C07"])
fn("<Write for EncodeWrapper>::flush", ["C06", "C07"])
fn("<Write for ErrorLatch>::write", ["C07", "C08"],
   ensures=["$r matches Err(e) ==> e.spec_kind() == ErrorKind::Interrupted || final(self).error is Some",
            "old(self).error is Some ==> final(self).error is Some",
            "$r is Ok ==> final(self).error == old(self).error"])
fn("<Write for ErrorLatch>::flush", ["C07", "C08"],
   ensures=["final(self).error == old(self).error"])

# -- the rule of compression -------------------------------------------------------
fn("hname_meta_res_decoded", ["C11"], ensures=["$r@ == s_decoded()"])
fn("is_compressible_type_str", ["C11"], requires=["visible($1@)"], ensures=["$r == ctype_ok($1@)"])
fn("is_compressible_type", ["C11"], ensures=["$r == val_compressible(opt_view($1))"])
fn("is_identity", ["C11"], ensures=["$r == ends_identity(opt_view($1))"])
fn("len_of_headers", ["C11"],
   requires=["hdr_lines($1@).len() <= 0xf_ffff"],
   ensures=["$r == hdr_lines($1@).len()"],
   hints=["?n:int == hdr_lines(?i:Iter.seen()).len()",
          "?i:Iter.whole() == $1@", ("ens", "?i:Iter.seen() == $1@")])
for t, m in (("NoCompressStrategy", 0), ("GzipCompressStrategy", 1), ("BrotliCompressStrategy", 2)):
    k = "<CompressStrategy for %s>::" % t
    mi, ck = ("0", "false") if m == 0 else ("self.min_len", "self.check_identity")
    fn(k + "min_len", ["C11"], ensures=["$r == %s" % mi])
    fn(k + "check_identity", ["C11"], ensures=["$r == %s" % ck])
    fn(k + "non_compressible_coef", ["C11"], ensures=["f64_half($r)"])
    if m:
        fn(k + "is_compressible", ["C11"], requires=["$1.limits()"], ensures=["$r == rule(*$1, %s, %s)" % (mi, ck)])
        fn(t + "::set_min_len", ["C11"], ensures=["$r == (%s { min_len: $1, ..self })" % t])
        fn(t + "::set_check_identity", ["C11"], ensures=["$r == (%s { check_identity: $1, ..self })" % t])
        fn(t + "::set_compression_level", ["C11"], ensures=["$r == (%s { compression_level: $1, ..self })" % t])
        fn("<Default for %s>::default" % t, ["C11"], ensures=["$r.min_len == %d" % (4096 if m == 1 else 1024),
                                                             "$r.check_identity"])
    fn(k + "wrap_encoder", ["C11"], requires=["$1.limits()"],
       ensures=["wrapped(*old($2), *final($2), $r)",
                "$r matches Ok(w) ==> w.tag().mode == (%s)" % (
                    "0int" if m == 0 else "if rule(*$1, %s, %s) { %dint } else { 0int }" % (mi, ck, m))])

# -- reading -------------------------------------------------------------------------
IN = ["final($1).rtag() == old($1).rtag()", "old($1).failed() ==> final($1).failed()"]
TOOK = ["$r is Ok ==> final($1).rest() == old($1).rest().skip($n as int)",
        "$r is Ok ==> $n <= old($1).rest().len() && final($1).taken() == old($1).taken() + $n",
        "$r is Ok ==> final($1).failed() == old($1).failed()"]


def took(n):
    return [x.replace("$n", n) for x in TOOK]


fn("parse_headers", ["C06", "C07"],
   requires=["$1@.len() <= 0x10_0001"],
   ensures=["$r matches Ok(m) ==> (hp_parse($1@) matches Some((n, es)) && n == $1@.len() && m@ == hm_from(es))",
            "$r matches Err(e) ==> !(hp_parse($1@) matches Some((n, es)) && n == $1@.len() && hdrs_valid(es) && hm_fits(es))",
            "$r matches Err(e) ==> e is InvalidHeader"],
   safety=["C10"],
   hints=["?n:int == newlines(?i:Iter.seen())", "?i:Iter.whole() == $1@", ("ens", "?i:Iter.seen() == $1@"),
          "?m:HeaderMap@ == hm_from(hp_hdrs(?i:Iter.seen()))",
          "?i:Iter.whole() == ?h:HpHeads.hs()", ("ens", "?i:Iter.seen() == ?h:HpHeads.hs()"),
          "hm_keys(?m:HeaderMap@) <= HM_MAX"])
fn("read_headers", ["C06", "C07"],
   requires=["$3 <= 0xf_ffff"],
   ensures=["$r matches Ok(m) ==> blk_is(old($1).rest().take($3 as int), $2, m@)",
            "$r matches Err(e) ==> e is Io || old($1).rest().len() < $3 || !blk_ok(old($1).rest().take($3 as int), $2)",
            "$r matches Err(e) ==> (e is Io ==> final($1).failed() || old($1).rest().len() < $3)"] + took("$3") + IN,
   safety=["C10"])
fn("read_body_ram", ["C06", "C07"],
   ensures=["$r matches Ok(b) ==> b.wf() && body_ok(old($1).rest().take($3 as int), $2)",
            "$r matches Ok(b) ==> b@ == body_of(old($1).rest().take($3 as int), $2)",
            "$r matches Err(e) ==> e is Io || old($1).rest().len() < $3 || !body_ok(old($1).rest().take($3 as int), $2)",
            "$r matches Err(e) ==> (e is Io ==> final($1).failed() || old($1).rest().len() < $3)"] + took("$3") + IN,
   safety=["C10"])
fn("read_body_fs", ["C07"],
   requires=["$3.wf()"],
   ensures=["$r matches Ok(b) ==> b.wf() && b@ == old($1).rest().take($2 as int)",
            "$r matches Err(e) ==> e is Io || e is Body"] + took("$2") + IN,
   safety=["C10"],
   hints=["?s:BodySink.wf()", "!?s:BodySink.ram()",
          "?s:BodySink@ + $1.rest() == old($1).rest()",
          "$1.rest() == old($1).rest().skip(?s:BodySink@.len() as int)",
          "?s:BodySink@.len() <= old($1).rest().len()",
          "?s:BodySink@.len() < $2", "?s:BodySink.len < $2", "?s:BodySink.len <= $2",
          "$1.taken() == old($1).taken() + ?s:BodySink@.len()",
          "$1.rtag() == old($1).rtag()", "$1.failed() == old($1).failed()",
          "?b:BytesMut@.len() == 0", ("ens", "?s:BodySink@.len() == $2"),
          "?n:int <= $2", "?s:BodySink.len + ?n:int == $2", "?s:BodySink@.len() <= $2",
          "?b:Vec@.len() > 0"])
fn("slice_body", ["C06"],
   requires=["$2 <= 0xffff_ffff_ffff", "old($1).at() <= old($1).file().len()"],
   ensures=["$r matches Ok(b) ==> b.wf() && body_ok(old($1).rest().take($2 as int), true) && $2 > 0",
            "$r matches Ok(b) ==> b@ == body_of(old($1).rest().take($2 as int), true)",
            "$r matches Err(e) ==> final($1).failed() || old($1).rest().len() < $2 || $2 <= 2"]
   + took("$2") + IN,
   safety=["C10"])
fn("DecodeWrapper::new", ["C07"],
   ensures=["$r matches Ok(d) ==> d.rest() == dec_of(cmode($1), $2.rest())",
            "$r is Ok == ($1 != Compression::Plain)"],
   safety=["C10"])
fn("<Read for DecodeWrapper>::read", ["C07", "C10"])
fn("read_compressed", ["C07"],
   requires=["$3.wf()", "head_limits(*$2)", "$1.at() == 0"],
   ensures=["$r matches Ok(r) ==> parts_is(dec_of(cmode($2.compress), $1.all()), "
            "dec_of(cmode($2.compress), $1.all()).len() as int, false, *$2, r)",
            "$2.compress == Compression::Plain ==> $r is Err",
            "$r matches Err(e) ==> e is Io || e is Body || $2.compress == Compression::Plain "
            "|| !parts_ok(dec_of(cmode($2.compress), $1.all()), dec_of(cmode($2.compress), $1.all()).len() as int, false, *$2)"],
   safety=["C10"])
fn("BarcReader::offset", ["C09"], ensures=["$r == self.file.at()"])
fn("BarcReader::seek", ["C09"],
   ensures=["$r is Ok && final(self).file.at() == $1 && final(self).file.file() == old(self).file.file()"])
fn("BarcReader::read", ["C09"],
   requires=["$1.wf()"],
   ensures=[
       "final(self).file.file() == old(self).file.file()",
       (["C06", "C07", "C10"],
        "$r matches Ok(Some(r)) ==> rec_read(old(self).file.rest(), the_head(old(self).file.rest().take(54)), r)"),
       "$r matches Ok(Some(r)) ==> final(self).file.at() == old(self).file.at() + 54 "
       "+ the_head(old(self).file.rest().take(54)).len",
       "$r matches Ok(Some(r)) ==> the_head(old(self).file.rest().take(54)).rec_type != RecordType::Reserved",
       "$r matches Ok(None) ==> final(self).file.at() == old(self).file.at()",
       "$r matches Ok(None) ==> old(self).file.rest().len() == 0 || (old(self).file.rest().len() >= 54 "
       "&& old(self).file.rest()[19] == 82)",
       (["C06", "C07", "C09"],
        "$r matches Err(e) ==> final(self).file.failed() || e is Io || e is Body "
        "|| !rec_good(old(self).file.rest(), the_head(old(self).file.rest().take(54)))"),
       (["C06", "C09"],
        "$r matches Err(e) ==> final(self).file.failed() "
        "|| the_head(old(self).file.rest().take(54)).compress != Compression::Plain "
        "|| !rec_good(old(self).file.rest(), the_head(old(self).file.rest().take(54)))"),
   ],
   start="broadcast use lem_the_head;",
   safety=["C10"])

UNIT = Unit(
    "barc",
    files=[["barc", "barc/src/lib.rs"], ["barc", "barc/src/compress.rs"],
           ["body_image", "body-image/src/lib.rs"],
           ["body_image", "body-image/src/_mem_handle_ext.rs"]],
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": METHODS, "inline": ["tmp_advise"],
             "emit": ["vp_str"], "text_consts": TEXTS},
    preludes=["core.rs", "body.rs", "barc.rs"],
    types=body.UNIT.types + ["barc::" + t for t in (
        "BarcError", "RecordType", "Compression", "RecordHead", "Record", "BarcFile", "BarcWriter",
        "BarcReader", "EncodeWrapper", "Encoder", "ErrorLatch", "DecodeWrapper",
        "NoCompressStrategy", "GzipCompressStrategy", "BrotliCompressStrategy")],
    consts=["barc::" + c for c in (
        "V2_HEAD_SIZE", "V2_MAX_RECORD", "V2_MAX_HBLOCK", "V2_MAX_REQ_BODY", "CRLF",
        "MAX_HEADER_NAMES", "WITH_CRLF", "NO_CRLF", "V2_RESERVE_HEAD")],
    derive={"Compression": "#[derive(Clone, Copy)]", "RecordType": "#[derive(Clone, Copy)]",
            "NoCompressStrategy": "#[derive(Clone, Copy)]"},
    spec=SPEC,
    impl_specs=dict(body.UNIT.impl_specs, **{
        r"^impl ?(<.*>)? Write for ErrorLatch":
        "type Tag = (File, FTag);\n"
        "#[verifier::prophetic]\n"
        "open spec fn tag(&self) -> (File, FTag) { (*final(self.file), self.file.ftag()) }\n"
        "open spec fn out(&self) -> Seq<u8> { self.file.out() }\n"
        "open spec fn asked(&self) -> Seq<Seq<u8>> { self.file.asked() }\n"
        "#[verifier::external_body]\n"
        "fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }\n",
        r"^impl ?(<.*>)? Write for EncodeWrapper":
        "type Tag = EncTag;\n"
        "#[verifier::prophetic]\n"
        "open spec fn tag(&self) -> EncTag { self.0.etag() }\n"
        "open spec fn out(&self) -> Seq<u8> { self.0.eout() }\n"
        "open spec fn asked(&self) -> Seq<Seq<u8>> { self.0.easked() }\n"
        "#[verifier::external_body]\n"
        "fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }\n",
        r"^impl ?(<.*>)? Read for DecodeWrapper":
        "type RTag = (int, int);\n"
        "open spec fn rtag(&self) -> (int, int) { match *self {\n"
        "    DecodeWrapper::Gzip(c) => (1, c.rtag()), DecodeWrapper::Brotli(g) => (2, g.rtag()) } }\n"
        "open spec fn rest(&self) -> Seq<u8> { match *self {\n"
        "    DecodeWrapper::Gzip(c) => c.rest(), DecodeWrapper::Brotli(g) => g.rest() } }\n"
        "open spec fn failed(&self) -> bool { match *self {\n"
        "    DecodeWrapper::Gzip(c) => c.failed(), DecodeWrapper::Brotli(g) => g.failed() } }\n"
        "open spec fn taken(&self) -> nat { match *self {\n"
        "    DecodeWrapper::Gzip(c) => c.taken(), DecodeWrapper::Brotli(g) => g.taken() } }\n"
        "#[verifier::external_body]\n"
        "fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }\n",
    }),
    groups=["vp_bytes", "vp_io", "vp_body_fs", "vp_barc", "vp_barc_file"],
    type_repl=body.UNIT.type_repl + [
        ("& 'a File", "& 'a mut File"), ("& File", "& mut File"),
        ("& str", "& HpStr"), ("& 'static str", "& 'static HpStr"),
        ("& dyn MetaRecorded", "& Rec"), ("& dyn CompressStrategy", "& Strat"),
    ],
    devirtual={"CompressStrategy": ["NoCompressStrategy", "GzipCompressStrategy", "BrotliCompressStrategy"],
               "RequestRecorded": ["Record"], "Recorded": ["Record"], "MetaRecorded": ["Record"]},
    contracts=C,
    known=list(body.UNIT.known) + ["fmt", "source", "try_from", "seek", "flush", "read", "write", "new", "len"],
)
