"""Decoding of response bodies."""

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS
from . import barc, body, dialog, fbuf

P = dict(dialog.P)
P.update({
    "http::header::GetAll": "GetAll",
    "http::header::TRANSFER_ENCODING": "vp_transfer_encoding()",
    "http::header::CONTENT_ENCODING": "vp_content_encoding()",
    "hyperx::header::ContentEncoding": "ContentEncoding",
    "hyperx::header::ContentEncoding::parse_header": "ContentEncoding::parse_header",
    "hyperx::header::TransferEncoding": "TransferEncoding",
    "hyperx::header::TransferEncoding::parse_header": "TransferEncoding::parse_header",
    "hyperx::header::Encoding": "HyEncoding",
    "flate2::read::DeflateDecoder": "DeflateDecoder",
    "flate2::read::DeflateDecoder::new": "DeflateDecoder::new",
    "std::time::Duration": "Duration",
    "blocking_permit::Canceled": "Canceled",
    "http::Error": "HttpError",
})
for v in ("Chunked", "Brotli", "Gzip", "Deflate", "Compress", "Identity", "Trailers", "EncodingExt"):
    P["hyperx::header::Encoding::" + v] = "HyEncoding::" + v

SPEC = body.SPEC + r'''
impl vstd::std_specs::convert::FromSpecImpl<BodyError> for FutioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BodyError) -> FutioError { FutioError::Body(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for FutioError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> FutioError { FutioError::Body(BodyError::Io(e)) }
}
impl PartialEq for Encoding {
    #[verifier::external_body]
    fn eq(&self, o: &Encoding) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Encoding {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Encoding) -> bool { *self == *o }
}
impl VpInto<FutioError> for BodyError {
    open spec fn into_spec(self) -> FutioError { FutioError::Body(self) }
    fn vp_into(self) -> (r: FutioError) { FutioError::from(self) }
}
impl PartialEq for HyEncoding {
    #[verifier::external_body]
    fn eq(&self, o: &HyEncoding) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HyEncoding {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HyEncoding) -> bool { hy_same(*self, *o) }
}
pub open spec fn hy_same(a: HyEncoding, b: HyEncoding) -> bool {
    match (a, b) {
        (HyEncoding::EncodingExt(s), HyEncoding::EncodingExt(t)) => s@ == t@,
        _ => a == b,
    }
}
pub open spec fn x_gzip() -> Seq<u8> { ''' + dialog.lit("x-gzip") + r''' }
/// the compression of a declared word
pub open spec fn comp_of(h: HyEncoding) -> Seq<Encoding> {
    match h {
        HyEncoding::Deflate => seq![Encoding::Deflate],
        HyEncoding::Gzip => seq![Encoding::Gzip],
        HyEncoding::Brotli => seq![Encoding::Brotli],
        HyEncoding::Compress => seq![Encoding::Compress],
        HyEncoding::EncodingExt(s) => if s@ == x_gzip() { seq![Encoding::Gzip] } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn comps(l: Seq<HyEncoding>) -> Seq<Encoding> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { comps(l.drop_last()) + comp_of(l.last()) }
}
pub broadcast proof fn lem_comps_push(l: Seq<HyEncoding>, h: HyEncoding)
    ensures #[trigger] comps(l.push(h)) == comps(l) + comp_of(h)
{
    assert(l.push(h).drop_last() =~= l);
}
pub open spec fn some_chunked(l: Seq<HyEncoding>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Chunked }
pub broadcast proof fn lem_chunked_push(l: Seq<HyEncoding>, h: HyEncoding)
    ensures #[trigger] some_chunked(l.push(h)) == (some_chunked(l) || h is Chunked)
{
    assert(l.push(h)[l.len() as int] == h);
    assert(forall|i: int| 0 <= i < l.len() ==> l.push(h)[i] == l[i]);
    if some_chunked(l) {
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Chunked;
        assert(l.push(h)[i] is Chunked);
    }
}
pub broadcast proof fn lem_chunked_rev(l: Seq<HyEncoding>)
    ensures #[trigger] some_chunked(l.reverse()) == some_chunked(l)
{
    let r = l.reverse();
    assert(forall|i: int| 0 <= i < l.len() ==> r[i] == l[l.len() - 1 - i]);
    if some_chunked(l) {
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Chunked;
        assert(r[l.len() - 1 - i] is Chunked);
    }
    if some_chunked(r) {
        let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Chunked;
        assert(l[l.len() - 1 - i] is Chunked);
    }
}
/// the words of all values, the last applied first
pub open spec fn declared(vals: Seq<Seq<u8>>) -> Seq<HyEncoding> {
    match hy_parse(vals) { Some(l) => l.reverse(), None => Seq::empty() }
}
/// compressions declared, the last applied first
pub open spec fn all_comps(m: Seq<Hdr>) -> Seq<Encoding> {
    comps(declared(hm_all(m, n_te()))) + comps(declared(hm_all(m, n_ce())))
}
/// the compression to undo
pub open spec fn last_comp(m: Seq<Hdr>) -> Option<Encoding> {
    if all_comps(m).len() > 0 { Some(all_comps(m)[0]) } else { None }
}
/// encodings found: chunked, then the last applied compression
pub open spec fn found(m: Seq<Hdr>) -> Seq<Encoding> {
    (if some_chunked(declared(hm_all(m, n_te()))) { seq![Encoding::Chunked] } else { Seq::empty() })
        + (match last_comp(m) { Some(c) => seq![c], None => Seq::empty() })
}
pub open spec fn comp_mode(e: Encoding) -> u8 {
    match e { Encoding::Gzip => 1, Encoding::Brotli => 2, Encoding::Deflate => 3, _ => 0 }
}
pub proof fn lem_comps_kind(l: Seq<HyEncoding>)
    ensures forall|i: int| 0 <= i < comps(l).len() ==> !((#[trigger] comps(l)[i]) is Chunked) && !(comps(l)[i] is Identity)
    decreases l.len()
{
    if l.len() > 0 { lem_comps_kind(l.drop_last()); }
}
pub proof fn lem_estimate()
    ensures forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000 && 0 <= b < 0x1_0000 ==> 0 <= #[trigger] (a * b) < 0x1_0000_0000_0000_0000
{
    assert forall|a: int, b: int| 0 <= a < 0x1_0000_0000_0000 && 0 <= b < 0x1_0000 implies 0 <= #[trigger] (a * b) < 0x1_0000_0000_0000_0000 by {
        assert(0 <= a * b < 0x1_0000_0000_0000_0000) by (nonlinear_arith)
            requires 0 <= a < 0x1_0000_0000_0000, 0 <= b < 0x1_0000;
    }
}
pub proof fn lem_found(m: Seq<Hdr>)
    ensures last_comp(m) matches Some(c) ==> !(c is Chunked) && !(c is Identity)
{
    lem_comps_kind(declared(hm_all(m, n_te())));
    lem_comps_kind(declared(hm_all(m, n_ce())));
}
'''

C = {}


def fn(key, props, **kw):
    crate = kw.pop("crate", "futio")
    k = crate + "::" + key
    C[k] = Contract(k, props, **kw)


fn("<From<BodyError> for FutioError>::from", [], safety=[], crate="futio")
fn("<From<IoError> for FutioError>::from", [], safety=[], crate="futio")
for k in ("<From<IoError> for BodyError>::from", "<From<MemAdviseError> for BodyError>::from"):
    fn(k, [], safety=[], crate="body_image")
C.update(fbuf.ext(["BodyImage::reader", "BodyImage::len", "BodyImage::read_from", "<Read for BodyReader>::read", "Tunables::size_estimate_gzip",
                   "Tunables::size_estimate_deflate", "Tunables::size_estimate_brotli",
                   "Tunables::buffer_size_ram"], body.C))
C.update(fbuf.ext(["Dialog::set_res_decoded", "Dialog::set_res_body_decoded", "Dialog::res_decoded",
                   "<Recorded for Dialog>::res_headers", "<Recorded for Dialog>::res_body"], dialog.C))

fn("parse_encodings", ["C17"],
   ensures=["final($2)@ == old($2)@ + comps(declared($1.vals()))",
            "$r == some_chunked(declared($1.vals()))"],
   start="broadcast use {lem_comps_push, lem_chunked_push};",
   hints=["$2@ == old($2)@ + comps(?i:Iter.seen())", "?c:bool == some_chunked(?i:Iter.seen())",
          "?i:Iter.whole() == declared($1.vals())"])
fn("find_encodings", ["C17"], ensures=["$r@ == found($1@)"])
fn("find_chunked", ["C17"],
   ensures=["$r == some_chunked(declared(hm_all($1@, n_te())))"],
   start="broadcast use {lem_comps_push, lem_chunked_push, lem_chunked_rev};",
   hints=["!some_chunked(?i:Iter.seen())", "?c:bool == some_chunked(?i:Iter.seen())", "?i:Iter.whole() == ?v.encs()"])
fn("decompress", ["C17"],
   requires=["$1.wf0()", "$1.len < 0x1_0000_0000_0000", "$3.wf()"],
   ensures=["$r matches Ok(b) ==> comp_mode($2) != 0 && b@ == dec_of(comp_mode($2), $1@)",
            "comp_mode($2) == 0 ==> $r == Err::<BodyImage, FutioError>(FutioError::UnsupportedEncoding($2))",
            "$r matches Err(e) ==> (comp_mode($2) != 0 ==> e is Body)"],
   start="lem_estimate();")
fn("decode_res_body", ["C17"],
   requires=["old($1).epi.res_body.wf0()", "old($1).epi.res_body.len < 0x1_0000_0000_0000", "$2.wf()"],
   ensures=["$r is Err ==> *final($1) == *old($1)",
            "final($1).pro == old($1).pro",
            "final($1).epi == (Epilog { res_decoded: final($1).epi.res_decoded, res_body: final($1).epi.res_body, ..old($1).epi })",
            "$r is Ok ==> final($1).epi.res_decoded@ == found(old($1).epi.res_headers@).push(Encoding::Identity)",
            "$r matches Ok(b) ==> b == last_comp(old($1).epi.res_headers@) is Some",
            "$r == Ok::<bool, FutioError>(false) ==> final($1).epi.res_body == old($1).epi.res_body",
            "$r == Ok::<bool, FutioError>(true) ==> (last_comp(old($1).epi.res_headers@) matches Some(c) && comp_mode(c) != 0 "
            "&& final($1).epi.res_body@ == dec_of(comp_mode(c), old($1).epi.res_body@))",
            "$r matches Err(e) ==> (last_comp(old($1).epi.res_headers@) matches Some(c) "
            "&& (if comp_mode(c) == 0 { e == FutioError::UnsupportedEncoding(c) } else { e is Body }))"],
   start="lem_found($1.epi.res_headers@);")

UNIT = Unit(
    "fdecode",
    files=[["futio", "body-image-futio/src/lib.rs"], ["futio", "body-image-futio/src/decode.rs"]] + fbuf.BODY_FILES,
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": dict(METHODS, to_vec="vp_to_vec"), "inline": ["tmp_advise"],
             "emit": ["vp_str"]},
    preludes=["core.rs", "body.rs", "barc.rs", "dialog.rs", "fdecode.rs"],
    types=body.UNIT.types + ["body_image::" + t for t in ("Encoding", "Dialog", "Prolog", "Epilog")]
    + ["futio::FutioError"],
    derive={"Encoding": "#[derive(Clone, Copy)]"},
    spec=SPEC,
    impl_specs=body.UNIT.impl_specs,
    groups=["vp_bytes", "vp_io", "vp_body_fs", "vp_barc"],
    type_repl=dialog.UNIT.type_repl,
    devirtual=dialog.UNIT.devirtual,
    contracts=C,
    known=list(body.UNIT.known) + ["source", "try_from", "seek", "flush", "read", "write", "new", "len", "fmt",
                                   "decode", "rev", "get_all", "parse_header"]
    + sorted({k.split("::")[-1] for k in list(body.C) + list(dialog.C)} - {k.split("::")[-1] for k in C}),
)
