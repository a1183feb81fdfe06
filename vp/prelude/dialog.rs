// Stand-ins for the http types and strings used in converting dialogs.

pub type String = VpString;

pub enum Version { HTTP_09, HTTP_10, HTTP_11, HTTP_2, HTTP_3 }
impl Clone for Version { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Version {}
/// text of the debug format
pub open spec fn ver_str(v: Version) -> Seq<u8> {
    match v {
        Version::HTTP_09 => seq![72u8, 84, 84, 80, 47, 48, 46, 57],
        Version::HTTP_10 => seq![72u8, 84, 84, 80, 47, 49, 46, 48],
        Version::HTTP_11 => seq![72u8, 84, 84, 80, 47, 49, 46, 49],
        Version::HTTP_2 => seq![72u8, 84, 84, 80, 47, 50, 46, 48],
        Version::HTTP_3 => seq![72u8, 84, 84, 80, 47, 51, 46, 48],
    }
}
pub trait VpDebug { spec fn debugged(&self) -> Seq<u8>; }
impl VpDebug for Version { open spec fn debugged(&self) -> Seq<u8> { ver_str(*self) } }

#[verifier::external_body]
pub struct Uri { x: u8 }
#[verifier::external_body]
pub struct InvalidUri { x: u8 }
pub uninterp spec fn uri_str(u: Uri) -> Seq<u8>;
pub uninterp spec fn uri_parse(b: Seq<u8>) -> Option<Uri>;
pub axiom fn ax_uri(u: Uri) ensures uri_parse(uri_str(u)) == Some(u), valid_value(uri_str(u));
impl Uri {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpString) ensures r@ == uri_str(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_uri_try_from(b: &[u8]) -> (r: Result<Uri, InvalidUri>)
    ensures r is Ok == uri_parse(b@) is Some, r matches Ok(u) ==> uri_parse(b@) == Some(u) { unimplemented!() }

#[verifier::external_body]
pub struct Method { x: u8 }
#[verifier::external_body]
pub struct InvalidMethod { x: u8 }
pub uninterp spec fn method_str(m: Method) -> Seq<u8>;
pub uninterp spec fn method_parse(b: Seq<u8>) -> Option<Method>;
pub axiom fn ax_method(m: Method) ensures method_parse(method_str(m)) == Some(m), valid_value(method_str(m));
impl Method {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &HpStr) ensures r@ == method_str(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpString) ensures r@ == method_str(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<Method, InvalidMethod>)
        ensures r is Ok == method_parse(b@) is Some, r matches Ok(u) ==> method_parse(b@) == Some(u) { unimplemented!() }
}

#[verifier::external_body]
pub struct StatusCode { x: u8 }
impl Clone for StatusCode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for StatusCode {}
#[verifier::external_body]
pub struct InvalidStatusCode { x: u8 }
/// number, blank, reason
pub uninterp spec fn status_str(s: StatusCode) -> Seq<u8>;
pub uninterp spec fn status_parse(b: Seq<u8>) -> Option<StatusCode>;
pub axiom fn ax_status(s: StatusCode)
    ensures status_str(s).len() >= 3, status_parse(status_str(s).subrange(0, 3)) == Some(s), valid_value(status_str(s));
impl StatusCode {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpString) ensures r@ == status_str(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<StatusCode, InvalidStatusCode>)
        ensures r is Ok == status_parse(b@) is Some, r matches Ok(u) ==> status_parse(b@) == Some(u) { unimplemented!() }
}

impl VpString {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: VpString) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str<S: VpText + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &HpStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_debug<T: VpDebug>(&mut self, v: &T) ensures final(self)@ == old(self)@ + v.debugged() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_spec_783f<T: ?Sized>(&mut self, v: &T) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: VpParse>(&self) -> (r: Result<T, T::PErr>) ensures T::parsed(self@, r) { unimplemented!() }
}
/// what coerces to `&str`
pub trait VpText { spec fn txt(&self) -> Seq<u8>; }
impl VpText for HpStr { open spec fn txt(&self) -> Seq<u8> { self@ } }
impl VpText for VpString { open spec fn txt(&self) -> Seq<u8> { self@ } }
impl VpParse for HeaderValue {
    type PErr = InvalidHeaderValue;
    open spec fn parsed(s: Seq<u8>, r: Result<HeaderValue, InvalidHeaderValue>) -> bool {
        &&& r is Ok == valid_value(s)
        &&& r matches Ok(n) ==> n@ == s
    }
    #[verifier::external_body]
    fn vp_parse(s: &HpStr) -> (r: Result<HeaderValue, InvalidHeaderValue>) { unimplemented!() }
}
impl From<InvalidHeaderValue> for Flaw {
    #[verifier::external_body]
    fn from(e: InvalidHeaderValue) -> Flaw { unimplemented!() }
}
/// printable ASCII is what `to_str` and header values take
pub axiom fn ax_visible(b: Seq<u8>)
    ensures (forall|i: int| 0 <= i < b.len() ==> 32 <= #[trigger] b[i] < 127) ==> visible(b) && valid_value(b);

/// pieces between occurrences of a byte
pub open spec fn pieces(s: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<u8>::empty()] } else {
        let p = pieces(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn has_byte(s: Seq<u8>, c: u8) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == c }
pub proof fn lem_pieces_some(s: Seq<u8>, c: u8)
    ensures pieces(s, c).len() >= 1
    decreases s.len()
{
    if s.len() > 0 { lem_pieces_some(s.drop_last(), c); }
}
pub proof fn lem_pieces_one(s: Seq<u8>, c: u8)
    requires !has_byte(s, c)
    ensures pieces(s, c) == seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(!has_byte(d, c)) by {
            if has_byte(d, c) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == c;
                assert(s[i] == c);
            }
        }
        assert(s[s.len() - 1] != c);
        lem_pieces_one(d, c);
        assert(d.push(s.last()) =~= s);
        assert(pieces(s, c) =~= seq![s]);
    } else {
        assert(s =~= Seq::<u8>::empty());
    }
}
pub proof fn lem_pieces_add(a: Seq<u8>, c: u8, b: Seq<u8>)
    requires !has_byte(b, c)
    ensures pieces(a.push(c) + b, c) == pieces(a, c).push(b)
    decreases b.len()
{
    let s = a.push(c) + b;
    if b.len() == 0 {
        assert(b =~= Seq::<u8>::empty());
        assert(s =~= a.push(c));
        assert(s.drop_last() =~= a);
    } else {
        let d = b.drop_last();
        assert(!has_byte(d, c)) by {
            if has_byte(d, c) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == c;
                assert(b[i] == c);
            }
        }
        assert(b[b.len() - 1] != c);
        lem_pieces_add(a, c, d);
        assert(s.drop_last() =~= a.push(c) + d);
        assert(s.last() == b.last());
        let p = pieces(a, c).push(d);
        assert(p.drop_last() =~= pieces(a, c));
        assert(d.push(b.last()) =~= b);
        assert(pieces(s, c) =~= pieces(a, c).push(b));
    }
}
pub proof fn lem_trim_none(s: Seq<u8>)
    requires s.len() > 0, !is_blank(s[0]), !is_blank(s.last())
    ensures ws_trimmed(s) == s, ws_trimmed(seq![32u8] + s) == s
{
    let t = seq![32u8] + s;
    assert(t.skip(1) =~= s);
    assert(trim_l(t) == trim_l(s));
}
impl HpStr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VpString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: StrPieces<'_>)
        requires (c as u32) < 128
        ensures r.whole() == pieces(self@, c as u8), r.seen() == Seq::<Seq<u8>>::empty(), visible(self@) ==> r.vis()
        { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
pub struct StrPieces<'a> { x: &'a u8 }
impl<'a> StrPieces<'a> {
    pub uninterp spec fn seen(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn whole(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn vis(&self) -> bool;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a HpStr>)
        ensures
            final(self).whole() == old(self).whole(),
            final(self).vis() == old(self).vis(),
            match r {
                Some(s) => final(self).seen() == old(self).seen().push(s@)
                    && final(self).seen().is_prefix_of(old(self).whole()) && (old(self).vis() ==> visible(s@)),
                None => old(self).seen() == old(self).whole() && final(self).seen() == old(self).seen(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
}

/// `fmt::Formatter`
#[verifier::external_body]
pub struct Formatter { x: u8 }
#[verifier::external_body]
pub struct FmtError { x: u8 }
pub type FmtResult = Result<(), FmtError>;
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &HpStr) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
}
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_str(s: &HpStr) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures r is Ok == valid_value(s@), r matches Ok(n) ==> n@ == s@ { unimplemented!() }
}
