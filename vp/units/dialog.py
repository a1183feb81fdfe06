"""Dialogs and their conversion to records and back."""

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS
from . import barc, body

P = dict(barc.P)
P.update({
    "http::Uri": "Uri",
    "http::Uri::try_from": "vp_uri_try_from",
    "http::uri::InvalidUri": "InvalidUri",
    "http::Method": "Method",
    "http::Method::from_bytes": "Method::from_bytes",
    "http::method::InvalidMethod": "InvalidMethod",
    "http::StatusCode": "StatusCode",
    "http::StatusCode::from_bytes": "StatusCode::from_bytes",
    "http::status::InvalidStatusCode": "InvalidStatusCode",
    "http::Version": "Version",
    "std::convert::TryFrom": "TryFrom",
    "std::fmt::Formatter": "Formatter",
    "std::fmt::Display": "Display",
    "std::fmt::Result": "FmtResult",
})
for v in ("HTTP_09", "HTTP_10", "HTTP_11", "HTTP_2", "HTTP_3"):
    P["http::Version::" + v] = "Version::" + v


def lit(s):
    return "seq![%s]" % ", ".join("%du8" % b for b in s.encode())


def name_fn(n, s):
    return "pub open spec fn %s() -> Seq<u8> { %s }\n" % (n, lit(s))


SPEC = body.SPEC + "".join(name_fn(n, s) for n, s in (
    ("n_url", "url"), ("n_method", "method"), ("n_version", "response-version"),
    ("n_status", "response-status"), ("n_decoded", "response-decoded"))) + r'''
pub open spec fn enc_str(e: Encoding) -> Seq<u8> {
    match e {
''' + "".join("        Encoding::%s => %s,\n" % (n, lit(s)) for n, s in (
    ("Chunked", "chunked"), ("Deflate", "deflate"), ("Gzip", "gzip"), ("Brotli", "br"),
    ("Compress", "compress"), ("Identity", "identity"))) + r'''    }
}
pub open spec fn enc_of(s: Seq<u8>) -> Option<Encoding> {
    if s == enc_str(Encoding::Chunked) { Some(Encoding::Chunked) }
    else if s == enc_str(Encoding::Deflate) { Some(Encoding::Deflate) }
    else if s == enc_str(Encoding::Gzip) { Some(Encoding::Gzip) }
    else if s == enc_str(Encoding::Brotli) { Some(Encoding::Brotli) }
    else if s == enc_str(Encoding::Compress) { Some(Encoding::Compress) }
    else if s == enc_str(Encoding::Identity) { Some(Encoding::Identity) }
    else { None }
}
/// comma and blank separated
pub open spec fn enc_join(es: Seq<Encoding>) -> Seq<u8> decreases es.len() {
    if es.len() == 0 { Seq::empty() }
    else if es.len() == 1 { enc_str(es[0]) }
    else { enc_join(es.drop_last()) + seq![44u8, 32u8] + enc_str(es.last()) }
}
/// the encodings named by a list of words, None if any is unknown
pub open spec fn enc_words(ps: Seq<Seq<u8>>) -> Option<Seq<Encoding>> decreases ps.len() {
    if ps.len() == 0 { Some(Seq::empty()) } else {
        match (enc_words(ps.drop_last()), enc_of(ws_trimmed(ps.last()))) {
            (Some(es), Some(e)) => Some(es.push(e)),
            _ => None,
        }
    }
}
pub open spec fn enc_list(v: Seq<u8>) -> Option<Seq<Encoding>> {
    if visible(v) { enc_words(pieces(v, 44)) } else { None }
}
pub open spec fn ver_of(b: Seq<u8>) -> Option<Version> {
    if b == ver_str(Version::HTTP_09) { Some(Version::HTTP_09) }
    else if b == ver_str(Version::HTTP_10) { Some(Version::HTTP_10) }
    else if b == ver_str(Version::HTTP_11) { Some(Version::HTTP_11) }
    else if b == ver_str(Version::HTTP_2) { Some(Version::HTTP_2) }
    else if b == ver_str(Version::HTTP_3) { Some(Version::HTTP_3) }
    else { None }
}
/// the meta headers of a dialog
pub open spec fn meta_of(d: Dialog) -> Seq<Hdr> {
    let m = seq![
        (n_url(), uri_str(d.pro.url)), (n_method(), method_str(d.pro.method)),
        (n_version(), ver_str(d.epi.version)), (n_status(), status_str(d.epi.status)),
    ];
    if d.epi.res_decoded@.len() == 0 { m } else { m.push((n_decoded(), enc_join(d.epi.res_decoded@))) }
}
/// the dialog that meta headers stand for
pub open spec fn meta_is(m: Seq<Hdr>, d: Dialog) -> bool {
    &&& hm_get(m, n_url()) matches Some(v) && uri_parse(v) == Some(d.pro.url)
    &&& hm_get(m, n_method()) matches Some(v) && method_parse(v) == Some(d.pro.method)
    &&& hm_get(m, n_version()) matches Some(v) && ver_of(v) == Some(d.epi.version)
    &&& hm_get(m, n_status()) matches Some(v) && v.len() >= 3 && status_parse(v.subrange(0, 3)) == Some(d.epi.status)
    &&& match hm_get(m, n_decoded()) {
            Some(v) => enc_list(v) == Some(d.epi.res_decoded@),
            None => d.epi.res_decoded@.len() == 0,
        }
}
/// the error names what is wrong
pub open spec fn meta_bad(m: Seq<Hdr>, e: DialogConvertError) -> bool {
    match e {
        DialogConvertError::NoMetaUrl => hm_get(m, n_url()) is None,
        DialogConvertError::InvalidUrl(_) => hm_get(m, n_url()) matches Some(v) && uri_parse(v) is None,
        DialogConvertError::NoMetaMethod => hm_get(m, n_method()) is None,
        DialogConvertError::InvalidMethod(_) => hm_get(m, n_method()) matches Some(v) && method_parse(v) is None,
        DialogConvertError::NoMetaResVersion => hm_get(m, n_version()) is None,
        DialogConvertError::InvalidVersion(b) => hm_get(m, n_version()) matches Some(v) && ver_of(v) is None && b@ == v,
        DialogConvertError::NoMetaResStatus => hm_get(m, n_status()) is None,
        DialogConvertError::MalformedMetaResStatus => hm_get(m, n_status()) matches Some(v) && v.len() < 3,
        DialogConvertError::InvalidStatusCode(_) => hm_get(m, n_status()) matches Some(v) && v.len() >= 3
            && status_parse(v.subrange(0, 3)) is None,
        DialogConvertError::InvalidResDecoded(_) => hm_get(m, n_decoded()) matches Some(v) && enc_list(v) is None,
        DialogConvertError::_FutureProof => false,
    }
}
pub broadcast proof fn lem_words_push(ps: Seq<Seq<u8>>, p: Seq<u8>)
    ensures #[trigger] enc_words(ps.push(p)) == (match (enc_words(ps), enc_of(ws_trimmed(p))) {
            (Some(es), Some(e)) => Some(es.push(e)),
            _ => None,
        })
{
    assert(ps.push(p).drop_last() =~= ps);
}
pub broadcast proof fn lem_words_empty(ps: Seq<Seq<u8>>)
    requires ps.len() == 0
    ensures #[trigger] enc_words(ps) == Some(Seq::<Encoding>::empty())
{
}
/// once a word is unknown the list is
pub broadcast proof fn lem_words_bad(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires #[trigger] a.is_prefix_of(b)
    ensures enc_words(a) is None ==> enc_words(b) is None
    decreases b.len()
{
    if a.len() == b.len() { assert(a =~= b); } else {
        assert(a.is_prefix_of(b.drop_last()));
        lem_words_bad(a, b.drop_last());
    }
}
pub broadcast proof fn lem_join_push(es: Seq<Encoding>, e: Encoding)
    ensures #[trigger] enc_join(es.push(e)) == (if es.len() == 0 { enc_str(e) } else { enc_join(es) + seq![44u8, 32u8] + enc_str(e) })
{
    assert(es.push(e).drop_last() =~= es);
}
pub broadcast proof fn lem_join_some(es: Seq<Encoding>)
    ensures (#[trigger] enc_join(es)).len() == 0 <==> es.len() == 0
    decreases es.len()
{
    if es.len() > 1 { lem_join_some(es.drop_last()); }
}
pub proof fn lem_enc(e: Encoding)
    ensures enc_of(enc_str(e)) == Some(e), !has_byte(enc_str(e), 44), !has_byte(seq![32u8] + enc_str(e), 44),
        ws_trimmed(enc_str(e)) == enc_str(e), ws_trimmed(seq![32u8] + enc_str(e)) == enc_str(e),
        forall|i: int| 0 <= i < enc_str(e).len() ==> 32 < #[trigger] enc_str(e)[i] < 127,
{
    lem_trim_none(enc_str(e));
    let a = enc_str(Encoding::Chunked); let b = enc_str(Encoding::Deflate); let c = enc_str(Encoding::Gzip);
    let d = enc_str(Encoding::Brotli); let f = enc_str(Encoding::Compress); let g = enc_str(Encoding::Identity);
    assert(a[0] == 99 && a[1] == 104 && b[0] == 100 && c[0] == 103 && d[0] == 98 && f[0] == 99 && f[1] == 111 && g[0] == 105);
}
pub proof fn lem_join_words(es: Seq<Encoding>)
    requires es.len() > 0
    ensures enc_words(pieces(enc_join(es), 44)) == Some(es),
        forall|i: int| 0 <= i < enc_join(es).len() ==> 32 <= #[trigger] enc_join(es)[i] < 127,
    decreases es.len()
{
    let e = es.last();
    lem_enc(e);
    let p = es.drop_last();
    assert(p.push(e) =~= es);
    if es.len() == 1 {
        assert(es[0] == e);
        lem_pieces_one(enc_str(e), 44);
        let ps = seq![enc_str(e)];
        assert(ps =~= Seq::<Seq<u8>>::empty().push(enc_str(e)));
        lem_words_push(Seq::empty(), enc_str(e));
        assert(es =~= Seq::<Encoding>::empty().push(e));
    } else {
        lem_join_words(p);
        let j = enc_join(p);
        let w = seq![32u8] + enc_str(e);
        assert(enc_join(es) =~= j.push(44u8) + w);
        lem_pieces_add(j, 44, w);
        lem_words_push(pieces(j, 44), w);
    }
}
/// a record made from a dialog stands for that dialog and no other
pub proof fn thm_dialog_round(d: Dialog)
    ensures meta_is(meta_of(d), d),
        forall|o: Dialog| meta_is(meta_of(d), o) ==> o.pro.url == d.pro.url && o.pro.method == d.pro.method
            && o.epi.version == d.epi.version && o.epi.status == d.epi.status && o.epi.res_decoded@ == d.epi.res_decoded@
{
    ax_uri(d.pro.url);
    ax_method(d.pro.method);
    ax_status(d.epi.status);
    lem_names();
    let m = meta_of(d);
    let es = d.epi.res_decoded@;
    lem_get_all(m);
    let v = d.epi.version;
    let s = ver_str(v);
    assert(ver_str(Version::HTTP_09)[5] == 48 && ver_str(Version::HTTP_10)[5] == 49 && ver_str(Version::HTTP_10)[7] == 48
        && ver_str(Version::HTTP_11)[5] == 49 && ver_str(Version::HTTP_11)[7] == 49
        && ver_str(Version::HTTP_2)[5] == 50 && ver_str(Version::HTTP_3)[5] == 51);
    assert(ver_of(s) == Some(v));
    if es.len() > 0 {
        lem_join_words(es);
        ax_visible(enc_join(es));
    }
}
pub proof fn lem_names()
    ensures n_url().len() == 3, n_method().len() == 6, n_version().len() == 16, n_status().len() == 15,
        n_decoded().len() == 16, n_version() != n_decoded()
{
    assert(n_version()[9] == 118 && n_decoded()[9] == 100);
}
pub proof fn lem_get_all(m: Seq<Hdr>)
    requires 4 <= m.len() <= 5, m[0].0 == n_url(), m[1].0 == n_method(), m[2].0 == n_version(), m[3].0 == n_status(),
        m.len() == 5 ==> m[4].0 == n_decoded()
    ensures hm_get(m, n_url()) == Some(m[0].1), hm_get(m, n_method()) == Some(m[1].1), hm_get(m, n_version()) == Some(m[2].1),
        hm_get(m, n_status()) == Some(m[3].1),
        hm_get(m, n_decoded()) == (if m.len() == 5 { Some(m[4].1) } else { None })
{
    lem_names();
    reveal_with_fuel(hm_get, 7);
    let a = m.skip(1); let b = a.skip(1); let c = b.skip(1); let d = c.skip(1);
    assert(a[0] == m[1] && b[0] == m[2] && c[0] == m[3]);
    if m.len() == 5 { assert(d[0] == m[4]); } else { assert(d.len() == 0); }
}
pub open spec fn has_none(m: Seq<Hdr>, n: Seq<u8>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 != n }
pub broadcast proof fn lem_append_new(m: Seq<Hdr>, n: Seq<u8>, v: Seq<u8>)
    requires has_none(m, n)
    ensures #[trigger] hm_append(m, n, v) == m.push((n, v))
{
}
pub broadcast proof fn lem_keys_len(m: Seq<Hdr>)
    ensures #[trigger] hm_keys(m) <= m.len()
    decreases m.len()
{
    if m.len() > 0 { lem_keys_len(m.drop_last()); }
}
impl Encoding {
    /// std's `ToString`, by `Display`
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpString) ensures r@ == enc_str(*self) { unimplemented!() }
}
'''

C = {}


def fn(key, props, **kw):
    crate = kw.pop("crate", "barc")
    k = crate + "::" + key
    C[k] = Contract(k, props, **kw)


D = dict(crate="body_image")
for k in ("<From<IoError> for BodyError>::from", "<From<MemAdviseError> for BodyError>::from"):
    fn(k, [], safety=[], **D)
for n, s in (("url", "n_url"), ("method", "n_method"), ("res_version", "n_version"),
             ("res_status", "n_status"), ("res_decoded", "n_decoded")):
    fn("hname_meta_" + n, ["C12"], ensures=["$r@ == %s()" % s])
fn("<Display for Encoding>::fmt", ["C12"], ensures=["$r is Ok ==> final($1).out() == old($1).out() + enc_str(*self)"], **D)
fn("Dialog::new", ["C12"], ensures=["$r == (Dialog { pro: $1, epi: $2 })"], **D)
fn("Dialog::explode", ["C12"], ensures=["$r == (self.pro, self.epi)"], **D)
fn("Dialog::method", ["C12"], ensures=["*$r == self.pro.method"], **D)
fn("Dialog::url", ["C12"], ensures=["*$r == self.pro.url"], **D)
fn("Dialog::res_status", ["C12"], ensures=["$r == self.epi.status"], **D)
fn("Dialog::res_version", ["C12"], ensures=["$r == self.epi.version"], **D)
fn("Dialog::res_decoded", ["C12", "C17"], ensures=["*$r == self.epi.res_decoded"], **D)
fn("Dialog::set_res_decoded", ["C12", "C17"],
   ensures=["*final(self) == (Dialog { pro: old(self).pro, epi: Epilog { res_decoded: $1, ..old(self).epi } })"], **D)
fn("Dialog::set_res_body_decoded", ["C12", "C17"],
   ensures=["*final(self) == (Dialog { pro: old(self).pro, epi: Epilog { res_decoded: $2, res_body: $1, ..old(self).epi } })"], **D)
fn("<RequestRecorded for Dialog>::req_headers", ["C12"], ensures=["*$r == self.pro.req_headers"], **D)
fn("<RequestRecorded for Dialog>::req_body", ["C12"], ensures=["*$r == self.pro.req_body"], **D)
fn("<Recorded for Dialog>::res_headers", ["C12", "C17"], ensures=["*$r == self.epi.res_headers"], **D)
fn("<Recorded for Dialog>::res_body", ["C12", "C17"], ensures=["*$r == self.epi.res_body"], **D)

fn("<TryFrom<Dialog> for Record>::try_from", ["C12"],
   ensures=["$r is Ok",
            "$r matches Ok(r) ==> r.meta@ == meta_of($1)",
            "$r matches Ok(r) ==> r.rec_type == RecordType::Dialog && r.req_headers == $1.pro.req_headers "
            "&& r.req_body == $1.pro.req_body && r.res_headers == $1.epi.res_headers && r.res_body == $1.epi.res_body"],
   repl=[("Self :: Error", "BarcError")],
   start="broadcast use {lem_join_push, lem_join_some, lem_append_new, lem_keys_len}; "
         "lem_names(); ax_uri($1.pro.url); ax_method($1.pro.method); ax_status($1.epi.status); "
         "ax_visible(ver_str($1.epi.version)); ax_visible(enc_join($1.epi.res_decoded@)); "
         "if $1.epi.res_decoded@.len() > 0 { lem_join_words($1.epi.res_decoded@); }",
   hints=["?s:String@ == enc_join(?i:Iter.seen())", "?i:Iter.whole() == $1.epi.res_decoded@",
          "?n:int == ?i:Iter.seen().len()",
          "?s:String@ == enc_join($1.epi.res_decoded@.take(?n:int as int))", "0 < ?n:int <= $1.epi.res_decoded@.len()",
          ("ens", "?i:Iter.seen() == $1.epi.res_decoded@")])
fn("<TryFrom<Record> for Dialog>::try_from", ["C12"],
   ensures=["$r matches Ok(d) ==> meta_is($1.meta@, d)",
            "$r matches Ok(d) ==> d.pro.req_headers == $1.req_headers && d.pro.req_body == $1.req_body "
            "&& d.epi.res_headers == $1.res_headers && d.epi.res_body == $1.res_body",
            "$r matches Err(e) ==> meta_bad($1.meta@, e)"],
   repl=[("Self :: Error", "DialogConvertError")],
   start="broadcast use {lem_words_push, lem_words_empty, lem_words_bad}; lem_names();",
   hints=["enc_words(?i:Iter.seen()) == Some(?v:Vec@)", "?i:Iter.vis()",
          "?i:Iter.whole() == pieces(?d@, 44)", ("ens", "?i:Iter.seen() == pieces(?d@, 44)")])

UNIT = Unit(
    "dialog",
    files=[["barc", "barc/src/lib.rs"], ["barc", "barc/src/compress.rs"],
           ["body_image", "body-image/src/lib.rs"],
           ["body_image", "body-image/src/_mem_handle_ext.rs"]],
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": dict(METHODS, to_vec="vp_to_vec"), "inline": ["tmp_advise"],
             "emit": ["vp_str"]},
    preludes=["core.rs", "body.rs", "barc.rs", "dialog.rs"],
    types=body.UNIT.types + ["body_image::" + t for t in ("Encoding", "Dialog", "Prolog", "Epilog")]
    + ["barc::" + t for t in ("BarcError", "DialogConvertError", "RecordType", "Compression", "Record")],
    derive={"Compression": "#[derive(Clone, Copy)]", "RecordType": "#[derive(Clone, Copy)]",
            "Encoding": "#[derive(Clone, Copy)]"},
    spec=SPEC,
    impl_specs=body.UNIT.impl_specs,
    groups=["vp_bytes", "vp_io", "vp_body_fs", "vp_barc"],
    type_repl=body.UNIT.type_repl + [
        ("& str", "& HpStr"), ("& 'static str", "& 'static HpStr"), ("fmt :: Result", "Result<(), FmtError>"),
        ("fmt :: Formatter < '_ >", "Formatter"), ("Formatter < '_ >", "Formatter"),
    ],
    devirtual={"TryFrom < Dialog >": [], "TryFrom < Record >": [], "Display": [], "fmt :: Display": [],
               "RequestRecorded": ["Dialog"], "Recorded": ["Dialog"]},
    contracts=C,
    known=list(body.UNIT.known) + ["source", "try_from", "seek", "flush", "read", "write", "new", "len", "fmt"]
    + sorted({k.split("::")[-1] for k in list(body.C) + list(barc.C)} - {k.split("::")[-1] for k in C}),
)
