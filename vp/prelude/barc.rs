// Stand-ins used by the barc crate: http, httparse, flate2, brotli, olio.

/// Unsigned integer types of at least 64 bits.
pub trait VpNum: Sized {
    spec fn nv(self) -> int;
    fn vp_num(x: u8) -> (r: Self) ensures r.nv() == x;
    /// shifted out bits are lost silently
    fn vp_shl(self, n: u8) -> (r: Self) requires n < 64
        ensures n == 4 && self.nv() * 16 <= u64::MAX ==> r.nv() == self.nv() * 16;
    fn vp_add(self, o: Self) -> (r: Self) requires self.nv() + o.nv() <= u64::MAX ensures r.nv() == self.nv() + o.nv();
    fn vp_mul(self, o: Self) -> (r: Self) requires self.nv() * o.nv() <= u64::MAX ensures r.nv() == self.nv() * o.nv();
    fn vp_or(self, o: Self) -> (r: Self) ensures self.nv() % 16 == 0 && 0 <= o.nv() < 16 ==> r.nv() == self.nv() + o.nv();
}
impl VpNum for u64 {
    open spec fn nv(self) -> int { self as int }
    #[verifier::external_body]
    fn vp_num(x: u8) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_shl(self, n: u8) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_or(self, o: Self) -> (r: Self) { unimplemented!() }
}
impl VpNum for usize {
    open spec fn nv(self) -> int { self as int }
    #[verifier::external_body]
    fn vp_num(x: u8) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_shl(self, n: u8) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn vp_or(self, o: Self) -> (r: Self) { unimplemented!() }
}

/// `Box`: no indirection; boxing an error makes it a `Flaw`.
pub type Box<T> = T;
pub trait VpBox: Sized {
    type Out;
    spec fn boxed(self, o: Self::Out) -> bool;
    fn into_box(self) -> (r: Self::Out) ensures self.boxed(r);
}
pub fn vp_box<T: VpBox>(t: T) -> (r: T::Out) ensures t.boxed(r) { t.into_box() }

#[verifier::external_body]
pub struct Flaw { x: u8 }

// -- hexadecimal -----------------------------------------------------------------

pub open spec fn hexdig(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
pub open spec fn hexw(v: nat, w: nat) -> Seq<u8> decreases w {
    if w == 0 { Seq::empty() } else { hexw(v / 16, (w - 1) as nat).push(hexdig((v % 16) as int)) }
}
pub open spec fn is_hex(b: u8) -> bool { (48 <= b <= 57) || (97 <= b <= 102) }
pub open spec fn digval(b: u8) -> int { if b <= 57 { b - 48 } else { b - 87 } }
pub open spec fn hex_ok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn hexval(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + digval(s.last()) }
}
pub open spec fn pow16(w: nat) -> int decreases w { if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) } }
pub broadcast proof fn lem_hexw_len(v: nat, w: nat)
    ensures #[trigger] hexw(v, w).len() == w
    decreases w
{
    if w > 0 { lem_hexw_len(v / 16, (w - 1) as nat); }
}
pub proof fn lem_pow16()
    ensures pow16(0) == 1, pow16(5) == 0x10_0000, pow16(10) == 0x100_0000_0000, pow16(12) == 0x1_0000_0000_0000,
        pow16(15) == 0x1000_0000_0000_0000
{
    reveal_with_fuel(pow16, 16);
}
pub proof fn lem_pow16_mono(a: nat, b: nat)
    requires a <= b
    ensures 0 < pow16(a) <= pow16(b)
    decreases b
{
    if a < b { lem_pow16_mono(a, (b - 1) as nat); }
    else if b > 0 { lem_pow16_mono((a - 1) as nat, (b - 1) as nat); }
}
pub proof fn lem_hexval_bound(s: Seq<u8>)
    requires hex_ok(s)
    ensures 0 <= hexval(s) < pow16(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] is_hex(s.drop_last()[i]) by {
            assert(is_hex(s[i]));
        }
        lem_hexval_bound(s.drop_last());
        assert(is_hex(s[s.len() - 1]));
    }
}
/// values of up to 15 digits fit
pub broadcast proof fn lem_hexval_small(s: Seq<u8>)
    requires hex_ok(s), s.len() <= 15
    ensures 0 <= #[trigger] hexval(s) < 0x1000_0000_0000_0000,
        s.len() <= 5 ==> hexval(s) < 0x10_0000,
        s.len() <= 10 ==> hexval(s) < 0x100_0000_0000,
        s.len() <= 12 ==> hexval(s) < 0x1_0000_0000_0000,
{
    lem_hexval_bound(s);
    lem_pow16();
    lem_pow16_mono(s.len(), 15);
    if s.len() <= 5 { lem_pow16_mono(s.len(), 5); }
    if s.len() <= 10 { lem_pow16_mono(s.len(), 10); }
    if s.len() <= 12 { lem_pow16_mono(s.len(), 12); }
}
pub broadcast proof fn lem_hexval_push(s: Seq<u8>, b: u8)
    ensures #[trigger] hexval(s.push(b)) == hexval(s) * 16 + digval(b)
{
    assert(s.push(b).drop_last() =~= s);
}
pub broadcast proof fn lem_hex_ok_push(s: Seq<u8>, b: u8)
    ensures #[trigger] hex_ok(s.push(b)) == (hex_ok(s) && is_hex(b))
{
    assert(s.push(b)[s.len() as int] == b);
    if hex_ok(s.push(b)) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] is_hex(s[i]) by {
            assert(is_hex(s.push(b)[i]));
        }
        assert(is_hex(s.push(b)[s.len() as int]));
    }
    if hex_ok(s) && is_hex(b) {
        assert forall|i: int| 0 <= i < s.push(b).len() implies #[trigger] is_hex(s.push(b)[i]) by {
            if i < s.len() { assert(is_hex(s[i])); }
        }
    }
}
pub broadcast proof fn lem_hexval_empty(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] hexval(s) == 0
{
}
/// what is written is read back
pub proof fn lem_hex_round(v: nat, w: nat)
    requires v < pow16(w)
    ensures hexw(v, w).len() == w, hex_ok(hexw(v, w)), hexval(hexw(v, w)) == v
    decreases w
{
    if w > 0 {
        let w1 = (w - 1) as nat;
        lem_hex_round(v / 16, w1);
        let s = hexw(v / 16, w1);
        let d = (v % 16) as int;
        lem_hexval_push(s, hexdig(d));
        lem_hex_ok_push(s, hexdig(d));
    }
}

/// Formatted strings
#[verifier::external_body]
pub struct VpString { x: u8 }
impl View for VpString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait VpDisplay { spec fn shown(&self) -> Seq<u8>; }
impl VpDisplay for char {
    open spec fn shown(&self) -> Seq<u8> { if *self as u32 <= 127 { seq![*self as u8] } else { char_utf8(*self) } }
}
pub uninterp spec fn char_utf8(c: char) -> Seq<u8>;
pub trait VpHex { spec fn hv(&self) -> nat; }
impl VpHex for u64 { open spec fn hv(&self) -> nat { *self as nat } }
impl VpHex for usize { open spec fn hv(&self) -> nat { *self as nat } }
impl VpString {
    #[verifier::external_body]
    pub fn new() -> (r: VpString) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_lit(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_hex<T: VpHex>(&mut self, v: T, w: usize)
        ensures v.hv() < pow16(w as nat) ==> final(self)@ == old(self)@ + hexw(v.hv(), w as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_display<T: VpDisplay>(&mut self, v: &T) ensures final(self)@ == old(self)@ + v.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

// -- headers -----------------------------------------------------------------------

pub type Hdr = (Seq<u8>, Seq<u8>);
pub uninterp spec fn valid_name(b: Seq<u8>) -> bool;
pub uninterp spec fn valid_value(b: Seq<u8>) -> bool;
pub uninterp spec fn lower(b: Seq<u8>) -> Seq<u8>;

#[verifier::external_body]
pub struct HeaderName { x: u8 }
impl View for HeaderName { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct HeaderValue { x: u8 }
impl View for HeaderValue { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub broadcast axiom fn ax_header_name(n: HeaderName)
    ensures valid_name(#[trigger] n@), lower(n@) == n@, n@.len() > 0;
pub broadcast axiom fn ax_header_value(v: HeaderValue)
    ensures valid_value(#[trigger] v@);
impl VpAsRef<[u8]> for HeaderName {
    uninterp spec fn as_ref_spec(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub broadcast axiom fn ax_header_name_as_ref(b: HeaderName)
    ensures (#[trigger] <HeaderName as VpAsRef<[u8]>>::as_ref_spec(&b))@ == b@;
impl HeaderName {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &HpStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(s: &'static HpStr) -> (r: HeaderName) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body]
pub struct InvalidHeaderName { x: u8 }
#[verifier::external_body]
pub struct InvalidHeaderValue { x: u8 }
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_bytes(b: &[u8]) -> (r: Result<HeaderValue, InvalidHeaderValue>)
        ensures r is Ok == valid_value(b@), r matches Ok(v) ==> v@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&HpStr, ToStrError>)
        ensures r is Ok == visible(self@), r matches Ok(s) ==> s@ == self@ { unimplemented!() }
}
pub uninterp spec fn visible(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct ToStrError { x: u8 }

/// `str`
#[verifier::external_body]
pub struct HpStr { x: u8 }
impl View for HpStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait VpParse: Sized {
    type PErr;
    spec fn parsed(s: Seq<u8>, r: Result<Self, Self::PErr>) -> bool;
    fn vp_parse(s: &HpStr) -> (r: Result<Self, Self::PErr>) ensures Self::parsed(s@, r);
}
impl HpStr {
    pub fn parse<T: VpParse>(&self) -> (r: Result<T, T::PErr>) ensures T::parsed(self@, r) { T::vp_parse(self) }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &HpStr)
        ensures visible(self@) ==> r@ == ws_trimmed(self@) && visible(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub open spec fn is_blank(b: u8) -> bool { b == 32 || (9 <= b <= 13) }
pub open spec fn trim_l(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && is_blank(s[0]) { trim_l(s.skip(1)) } else { s }
}
pub open spec fn trim_r(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && is_blank(s.last()) { trim_r(s.drop_last()) } else { s }
}
pub open spec fn ws_trimmed(s: Seq<u8>) -> Seq<u8> { trim_r(trim_l(s)) }
#[verifier::external_body]
pub fn vp_str_eq<A: View<V = Seq<u8>> + ?Sized, B: View<V = Seq<u8>> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// -- mime types: what parses, and the lower case type and subtype it has
pub uninterp spec fn mime_parse(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)>;
#[verifier::external_body]
pub struct Mime { x: u8 }
#[verifier::external_body]
pub struct MimeError { x: u8 }
impl Mime {
    pub uninterp spec fn t(&self) -> Seq<u8>;
    pub uninterp spec fn st(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn type_(&self) -> (r: &HpStr) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn subtype(&self) -> (r: &HpStr) ensures r@ == self.st() { unimplemented!() }
}
impl VpParse for Mime {
    type PErr = MimeError;
    open spec fn parsed(s: Seq<u8>, r: Result<Mime, MimeError>) -> bool {
        &&& r is Ok == mime_parse(s) is Some
        &&& r matches Ok(m) ==> (m.t(), m.st()) == mime_parse(s)->Some_0
    }
    #[verifier::external_body]
    fn vp_parse(s: &HpStr) -> (r: Result<Mime, MimeError>) { unimplemented!() }
}
impl VpParse for HeaderName {
    type PErr = InvalidHeaderName;
    open spec fn parsed(s: Seq<u8>, r: Result<HeaderName, InvalidHeaderName>) -> bool {
        &&& r is Ok == valid_name(s)
        &&& r matches Ok(n) ==> n@ == lower(s)
    }
    #[verifier::external_body]
    fn vp_parse(s: &HpStr) -> (r: Result<HeaderName, InvalidHeaderName>) { unimplemented!() }
}
impl VpInto<Flaw> for InvalidHeaderName {
    uninterp spec fn into_spec(self) -> Flaw;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Flaw) { unimplemented!() }
}
impl VpInto<Flaw> for InvalidHeaderValue {
    uninterp spec fn into_spec(self) -> Flaw;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Flaw) { unimplemented!() }
}
impl VpInto<Flaw> for &HpStr {
    uninterp spec fn into_spec(self) -> Flaw;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Flaw) { unimplemented!() }
}

/// `HeaderMap`: entries in iteration order, same names adjacent.
#[verifier::external_body]
pub struct HeaderMap { x: u8 }
impl View for HeaderMap { type V = Seq<Hdr>; uninterp spec fn view(&self) -> Seq<Hdr>; }
pub open spec fn hm_has(es: Seq<Hdr>, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == n }
/// value of the first entry of that name
pub open spec fn hm_get(es: Seq<Hdr>, n: Seq<u8>) -> Option<Seq<u8>> decreases es.len() {
    if es.len() == 0 { None } else if es[0].0 == n { Some(es[0].1) } else { hm_get(es.skip(1), n) }
}
/// after the last entry of the same name, else at the end
pub open spec fn hm_append(es: Seq<Hdr>, n: Seq<u8>, v: Seq<u8>) -> Seq<Hdr> decreases es.len() {
    if !hm_has(es, n) || es.last().0 == n { es.push((n, v)) }
    else { hm_append(es.drop_last(), n, v).push(es.last()) }
}
/// names of an entry list, counted once each
pub open spec fn hm_keys(es: Seq<Hdr>) -> nat decreases es.len() {
    if es.len() == 0 { 0 } else {
        hm_keys(es.drop_last()) + (if hm_has(es.drop_last(), es.last().0) { 0nat } else { 1nat })
    }
}
pub open spec fn hm_grouped(es: Seq<Hdr>) -> bool {
    forall|i: int| 0 < i < es.len() ==> (es[i].0 == es[i - 1].0 || !hm_has(es.take(i), (#[trigger] es[i]).0))
}
pub open spec fn hdrs_valid(es: Seq<Hdr>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> valid_name((#[trigger] es[i]).0) && valid_value(es[i].1)
}
pub const HM_MAX: usize = 24_576;
pub broadcast axiom fn ax_header_map(m: HeaderMap)
    ensures #![trigger m@]
        hm_grouped(m@), hdrs_valid(m@), hm_keys(m@) <= HM_MAX,
        m@.len() <= 0xffff_ffff_ffff,
        forall|i: int| 0 <= i < m@.len() ==> lower((#[trigger] m@[i]).0) == m@[i].0 && m@[i].0.len() > 0;
impl HeaderMap {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: HeaderMap) requires n <= HM_MAX ensures r@ == Seq::<Hdr>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: HeaderMap) ensures r@ == Seq::<Hdr>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_len(&self) -> (r: usize) ensures r == hm_keys(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, n: &HeaderName) -> (r: bool) ensures r == hm_has(self@, n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, n: HeaderName, v: HeaderValue) -> (r: bool)
        requires hm_keys(old(self)@) < HM_MAX || hm_has(old(self)@, n@)
        ensures final(self)@ == hm_append(old(self)@, n@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<N: VpName>(&self, n: N) -> (r: Option<&HeaderValue>)
        ensures (match r { Some(v) => Some(v@), None => None::<Seq<u8>> }) == hm_get(self@, n.nm()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: HmIter<'_>)
        ensures r.whole() == self@, r.seen() == Seq::<Hdr>::empty() { unimplemented!() }
}
pub trait VpName { spec fn nm(&self) -> Seq<u8>; }
impl VpName for HeaderName { open spec fn nm(&self) -> Seq<u8> { self@ } }
impl VpName for &HeaderName { open spec fn nm(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct HmIter<'a> { x: &'a u8 }
impl<'a> HmIter<'a> {
    pub uninterp spec fn seen(&self) -> Seq<Hdr>;
    pub uninterp spec fn whole(&self) -> Seq<Hdr>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a HeaderName, &'a HeaderValue)>)
        ensures
            final(self).whole() == old(self).whole(),
            match r {
                Some((n, v)) => final(self).seen() == old(self).seen().push((n@, v@))
                    && final(self).seen().is_prefix_of(old(self).whole()),
                None => old(self).seen() == old(self).whole() && final(self).seen() == old(self).seen(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
}
impl<'a> VpIntoIter for &'a HeaderMap {
    type It = HmIter<'a>;
    open spec fn iter_ok(self, it: HmIter<'a>) -> bool { it.whole() == self@ && it.seen() == Seq::<Hdr>::empty() }
    #[verifier::external_body]
    fn vp_into_iter(self) -> (r: HmIter<'a>) { unimplemented!() }
}

// -- header blocks -------------------------------------------------------------------

pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
/// name, colon, space, value, line end
pub open spec fn hdr_line(e: Hdr) -> Seq<u8> { e.0 + seq![58u8, 32u8] + e.1 + crlf() }
pub open spec fn hdr_lines(es: Seq<Hdr>) -> Seq<u8> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { hdr_lines(es.drop_last()) + hdr_line(es.last()) }
}
pub open spec fn hdr_block(es: Seq<Hdr>, pad: bool) -> Seq<u8> {
    if pad && es.len() > 0 { hdr_lines(es) + crlf() } else { hdr_lines(es) }
}
pub broadcast proof fn lem_lines_push(es: Seq<Hdr>, e: Hdr)
    ensures #[trigger] hdr_lines(es.push(e)) == hdr_lines(es) + hdr_line(e)
{
    assert(es.push(e).drop_last() =~= es);
}
pub broadcast proof fn lem_lines_empty(es: Seq<Hdr>)
    requires es.len() == 0
    ensures #[trigger] hdr_lines(es) == Seq::<u8>::empty()
{
}
pub broadcast proof fn lem_lines_some(es: Seq<Hdr>)
    ensures (#[trigger] hdr_lines(es)).len() >= 4 * es.len()
    decreases es.len()
{
    if es.len() > 0 { lem_lines_some(es.drop_last()); }
}
pub proof fn lem_lines_prefix(a: Seq<Hdr>, b: Seq<Hdr>)
    requires a.is_prefix_of(b)
    ensures hdr_lines(a).len() <= hdr_lines(b).len()
    decreases b.len()
{
    if a.len() == b.len() {
        assert(a =~= b);
    } else {
        assert(a.is_prefix_of(b.drop_last()));
        lem_lines_prefix(a, b.drop_last());
    }
}
pub broadcast proof fn lem_lines_prefix_b(a: Seq<Hdr>, b: Seq<Hdr>)
    requires #[trigger] a.is_prefix_of(b)
    ensures hdr_lines(a).len() <= hdr_lines(b).len()
{
    lem_lines_prefix(a, b);
}

pub uninterp spec fn content_type() -> Seq<u8>;
#[verifier::external_body]
pub fn vp_content_type() -> (r: HeaderName) ensures r@ == content_type() { unimplemented!() }

/// httparse
pub enum HpStatus<T> { Complete(T), Partial }
pub enum HpError { HeaderName, HeaderValue, NewLine, Status, Token, TooManyHeaders, Version }
impl VpInto<Flaw> for HpError {
    uninterp spec fn into_spec(self) -> Flaw;
    #[verifier::external_body]
    fn vp_into(self) -> (r: Flaw) { unimplemented!() }
}
impl VpBox for HpError {
    type Out = Flaw;
    open spec fn boxed(self, o: Flaw) -> bool { true }
    #[verifier::external_body]
    fn into_box(self) -> (r: Flaw) { unimplemented!() }
}
pub struct HpHeader<'a> { pub name: &'a HpStr, pub value: &'a [u8] }
#[verifier::external_body]
pub fn vp_empty_header<'a>() -> (r: HpHeader<'a>) { unimplemented!() }
/// what httparse finds in a buffer given room for all of it: the length
/// consumed and the headers
pub uninterp spec fn hp_parse(b: Seq<u8>) -> Option<(nat, Seq<Hdr>)>;
pub open spec fn newlines(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { newlines(b.drop_last()) + (if b.last() == 10u8 { 1nat } else { 0nat }) }
}
pub broadcast proof fn lem_newlines_push(s: Seq<u8>, b: u8)
    ensures #[trigger] newlines(s.push(b)) == newlines(s) + (if b == 10u8 { 1nat } else { 0nat })
{
    assert(s.push(b).drop_last() =~= s);
}
pub broadcast proof fn lem_newlines_empty(s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] newlines(s) == 0
{
}
pub broadcast proof fn lem_newlines_len(s: Seq<u8>)
    ensures #[trigger] newlines(s) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { lem_newlines_len(s.drop_last()); }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HpHeads<'a, T> { x: &'a Vec<T> }
impl<'a> HpHeads<'a, HpHeader<'a>> {
    pub uninterp spec fn hs(&self) -> Seq<HpHeader<'a>>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.hs().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_iter(&self) -> (r: VpRefIter<'a, HpHeader<'a>>)
        ensures r.whole() == self.hs(), r.rest() == self.hs(), r.seen() == Seq::<HpHeader>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: VpRefIter<'a, HpHeader<'a>>)
        ensures r.whole() == self.hs(), r.rest() == self.hs(), r.seen() == Seq::<HpHeader>::empty() { unimplemented!() }
}
pub open spec fn hp_hdrs(hs: Seq<HpHeader>) -> Seq<Hdr> decreases hs.len() {
    if hs.len() == 0 { Seq::empty() } else { hp_hdrs(hs.drop_last()).push((hs.last().name@, hs.last().value@)) }
}
pub broadcast proof fn lem_hp_hdrs_push(hs: Seq<HpHeader>, h: HpHeader)
    ensures #[trigger] hp_hdrs(hs.push(h)) == hp_hdrs(hs).push((h.name@, h.value@))
{
    assert(hs.push(h).drop_last() =~= hs);
}
pub broadcast proof fn lem_hp_hdrs_empty(hs: Seq<HpHeader>)
    requires hs.len() == 0
    ensures #[trigger] hp_hdrs(hs) == Seq::<Hdr>::empty()
{
}
pub broadcast proof fn lem_hp_hdrs_len(hs: Seq<HpHeader>)
    ensures (#[trigger] hp_hdrs(hs)).len() == hs.len()
    decreases hs.len()
{
    if hs.len() > 0 { lem_hp_hdrs_len(hs.drop_last()); }
}
pub broadcast proof fn lem_hp_hdrs_take(hs: Seq<HpHeader>, n: int)
    requires 0 <= n <= hs.len()
    ensures #[trigger] hp_hdrs(hs.take(n)) == hp_hdrs(hs).take(n),
        n < hs.len() ==> hp_hdrs(hs)[n] == (hs[n].name@, hs[n].value@)
    decreases hs.len()
{
    lem_hp_hdrs_len(hs);
    if n == hs.len() {
        assert(hs.take(n) =~= hs);
        assert(hp_hdrs(hs).take(n) =~= hp_hdrs(hs));
    } else {
        lem_hp_hdrs_len(hs.drop_last());
        lem_hp_hdrs_take(hs.drop_last(), n);
        assert(hs.drop_last().take(n) =~= hs.take(n));
        assert(hp_hdrs(hs).take(n) =~= hp_hdrs(hs.drop_last()).take(n));
    }
}
pub broadcast proof fn lem_hp_ext(a: Seq<u8>, b: Seq<u8>)
    requires a =~= b
    ensures #![trigger hp_parse(a), hp_parse(b)] hp_parse(a) == hp_parse(b)
{
}
#[verifier::external_body]
pub fn httparse_parse_headers<'a>(buf: &'a [u8], hs: &'a mut Vec<HpHeader<'a>>)
    -> (r: Result<HpStatus<(usize, HpHeads<'a, HpHeader<'a>>)>, HpError>)
    ensures
        old(hs)@.len() >= newlines(buf@) ==> match r {
            Ok(HpStatus::Complete((n, h))) => n <= buf@.len() && hp_parse(buf@) == Some((n as nat, hp_hdrs(h.hs()))),
            _ => hp_parse(buf@) is None,
        }
{ unimplemented!() }
/// the header map holding the given entries, added one by one
pub open spec fn hm_from(es: Seq<Hdr>) -> Seq<Hdr> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { hm_append(hm_from(es.drop_last()), lower(es.last().0), es.last().1) }
}
pub broadcast proof fn lem_hm_from_push(es: Seq<Hdr>, e: Hdr)
    ensures #[trigger] hm_from(es.push(e)) == hm_append(hm_from(es), lower(e.0), e.1)
{
    assert(es.push(e).drop_last() =~= es);
}
pub broadcast proof fn lem_hm_from_empty(es: Seq<Hdr>)
    requires es.len() == 0
    ensures #[trigger] hm_from(es) == Seq::<Hdr>::empty()
{
}
/// values which keep their bytes when read back by httparse
pub open spec fn trimmed(v: Seq<u8>) -> bool {
    v.len() == 0 || (v[0] != 32 && v[0] != 9 && v.last() != 32 && v.last() != 9)
}
pub open spec fn hdrs_trimmed(es: Seq<Hdr>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> trimmed((#[trigger] es[i]).1)
}
/// httparse reads a well formed block back
pub axiom fn ax_hp_round(es: Seq<Hdr>)
    requires hdrs_valid(es), hdrs_trimmed(es), es.len() > 0
    ensures hp_parse(hdr_lines(es) + crlf()) == Some(((hdr_lines(es) + crlf()).len(), es));

/// all names fit the map at any point of adding the entries
pub open spec fn hm_fits(es: Seq<Hdr>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> hm_keys(hm_from(es.take(i))) < HM_MAX || hm_has(hm_from(es.take(i)), lower((#[trigger] es[i]).0))
}

// -- files of the archive ----------------------------------------------------------

pub broadcast axiom fn ax_file_log(f: File)
    ensures #![trigger f.contents()] #![trigger f.out()]
        f.contents() == write_at(f.ftag().base, f.ftag().at, f.out()),
        f.pos() == f.ftag().at + f.out().len();
/// the contents had since the last seek result from what was written since
pub broadcast axiom fn ax_file_had(f: File, s: Seq<u8>)
    ensures #[trigger] f.had(s) ==> ((f.ftag().had0)(s)
        || exists|k: int| 0 <= k <= f.out().len() && s == write_at(f.ftag().base, f.ftag().at, #[trigger] f.out().take(k)));
/// one small write inside of the existing content happens at once
pub open spec fn small_write(f: File) -> bool {
    f.asked().len() == 1 && f.asked()[0].len() <= 64 && f.ftag().at + f.asked()[0].len() <= f.ftag().base.len()
}
pub broadcast axiom fn ax_file_atomic(f: File, s: Seq<u8>)
    requires small_write(f)
    ensures #[trigger] f.had(s) ==> ((f.ftag().had0)(s) || s == f.ftag().base
            || s == write_at(f.ftag().base, f.ftag().at, f.asked()[0]));
pub broadcast axiom fn ax_file_none(f: File, s: Seq<u8>)
    requires f.out().len() == 0
    ensures #[trigger] f.had(s) ==> ((f.ftag().had0)(s) || s == f.ftag().base);

/// `MutexGuard`
pub type VpGuard<'a, T> = &'a mut T;

/// olio `ReadPos`: a file with its own cursor
#[verifier::external_body]
pub struct ReadPos { x: u8 }
pub open spec fn from(f: Seq<u8>, at: nat) -> Seq<u8> { if at <= f.len() { f.skip(at as int) } else { Seq::empty() } }
impl ReadPos {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn new(f: Arc<File>, len: u64) -> (r: ReadPos) ensures r.file() == f@.contents(), r.at() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn tell(&self) -> (r: u64) ensures r == self.at() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, IoError>)
        ensures final(self).file() == old(self).file(), final(self).failed() == old(self).failed(),
            match (r, p) {
                (Ok(n), SeekFrom::Start(m)) => n == m && final(self).at() == m,
                (Ok(n), SeekFrom::Current(d)) => n == old(self).at() + d && final(self).at() == n,
                (Ok(n), _) => final(self).at() == n,
                (Err(_), SeekFrom::Start(m)) => false,
                (Err(_), SeekFrom::Current(d)) => final(self).at() == old(self).at()
                    && (old(self).at() + d > u64::MAX || old(self).at() + d < 0),
                (Err(_), _) => final(self).at() == old(self).at(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn subslice(&self, start: u64, end: u64) -> (r: ReadSlice)
        requires start <= end
        ensures r.file() == self.file(), r.start() == start, r.end() == end, r.at() == 0 { unimplemented!() }
}
pub broadcast axiom fn ax_read_pos(r: ReadPos)
    ensures #![trigger r.at()] #![trigger r.file()] r.at() <= u64::MAX, r.file().len() <= i64::MAX as nat;
impl Read for ReadPos {
    type RTag = Seq<u8>;
    open spec fn rtag(&self) -> Seq<u8> { self.file() }
    open spec fn rest(&self) -> Seq<u8> { from(self.file(), self.at()) }
    uninterp spec fn failed(&self) -> bool;
    open spec fn taken(&self) -> nat { self.at() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
pub broadcast axiom fn ax_file_now(f: File)
    ensures #![trigger f.contents()] f.had(f.contents());
/// opening
#[verifier::external_body]
pub struct OpenOptions { x: u8 }
pub struct OpenFlags { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool }
/// content of the file at a path
pub uninterp spec fn disk(p: &Path) -> Seq<u8>;
impl OpenOptions {
    pub uninterp spec fn fl(&self) -> OpenFlags;
    #[verifier::external_body]
    pub fn new() -> (r: OpenOptions)
        ensures r.fl() == (OpenFlags { read: false, write: false, append: false, truncate: false, create: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r.fl() == (OpenFlags { read: b, ..self.fl() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.fl() == (OpenFlags { write: b, ..self.fl() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r.fl() == (OpenFlags { append: b, ..self.fl() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.fl() == (OpenFlags { truncate: b, ..self.fl() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.fl() == (OpenFlags { create: b, ..self.fl() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn open(self, p: &Path) -> (r: Result<File, IoError>)
        ensures r matches Ok(f) ==> (!self.fl().append ==>
                f.contents() == (if self.fl().truncate { Seq::<u8>::empty() } else { disk(p) }))
    { unimplemented!() }
}
impl VpInto<Path> for &Path {
    open spec fn into_spec(self) -> Path { *self }
    #[verifier::external_body]
    fn vp_into(self) -> (r: Path) { unimplemented!() }
}
impl VpInto<IoError> for ErrorKind {
    uninterp spec fn into_spec(self) -> IoError;
    #[verifier::external_body]
    fn vp_into(self) -> (r: IoError) { unimplemented!() }
}
/// `Mutex`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: Vec<T> }
#[verifier::external_body]
pub struct PoisonError { x: u8 }
impl<T> Mutex<T> {
    /// the value behind the lock when taken
    pub uninterp spec fn ok(&self, t: T) -> bool;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Mutex<T>) ensures forall|x: T| #[trigger] r.ok(x) == (x == t) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<&mut T, PoisonError>)
        ensures r is Ok, r matches Ok(t) ==> self.ok(*t) { unimplemented!() }
}

// -- encoders ------------------------------------------------------------------------

pub struct EncTag { pub mode: u8, pub fin: File, pub ftag: FTag, pub base: Seq<u8> }
/// `e` is a complete gzip (1) or brotli (2) stream encoding `s`
pub uninterp spec fn enc_of(mode: u8, s: Seq<u8>, e: Seq<u8>) -> bool;
/// what a decoder delivers for a stream; one that is cut or corrupt never ends
pub uninterp spec fn dec_of(mode: u8, e: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_enc_dec(mode: u8, s: Seq<u8>, e: Seq<u8>)
    requires #[trigger] enc_of(mode, s, e)
    ensures dec_of(mode, e) == s;
/// a compressed payload stays within the record limit
pub broadcast axiom fn ax_enc_len(mode: u8, s: Seq<u8>, e: Seq<u8>)
    requires #[trigger] enc_of(mode, s, e), s.len() <= 0xffff_ffff_ffff
    ensures e.len() <= 0xffff_ffff_ffff;
pub broadcast proof fn lem_dec_ext(mode: u8, a: Seq<u8>, b: Seq<u8>)
    requires a =~= b
    ensures #![trigger dec_of(mode, a), dec_of(mode, b)] dec_of(mode, a) == dec_of(mode, b)
{
}
pub broadcast proof fn lem_take_full(s: Seq<u8>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{
    assert(s.take(n) =~= s);
}
#[verifier::external_body]
pub struct GzCompression { x: u8 }
impl GzCompression {
    #[verifier::external_body]
    pub fn new(l: u32) -> (r: GzCompression) { unimplemented!() }
}
/// an encoder only ever appends to its file, also when dropped
pub open spec fn only_appends(a: File, z: File) -> bool {
    a.ftag() == z.ftag() && a.out().is_prefix_of(z.out())
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct GzEncoder<W> { x: Vec<W> }
impl<'a> GzEncoder<&'a mut File> {
    pub uninterp spec fn init(&self) -> File;
    #[verifier::prophetic]
    pub uninterp spec fn fin(&self) -> File;
    #[verifier::external_body]
    pub fn new(f: &'a mut File, c: GzCompression) -> (r: GzEncoder<&'a mut File>)
        ensures r.init() == *old(f), r.fin() == *final(f), r.out() == Seq::<u8>::empty(),
            only_appends(*old(f), *final(f)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: Result<&'a mut File, IoError>)
        ensures match r {
            Ok(f) => *final(f) == self.fin() && f.ftag() == self.init().ftag()
                && self.init().out().is_prefix_of(f.out())
                && enc_of(1, self.out(), f.out().skip(self.init().out().len() as int)),
            Err(_) => true,
        } { unimplemented!() }
}
impl<'a> Write for GzEncoder<&'a mut File> {
    type Tag = (File, File);
    #[verifier::prophetic]
    open spec fn tag(&self) -> (File, File) { (self.init(), self.fin()) }
    uninterp spec fn out(&self) -> Seq<u8>;
    uninterp spec fn asked(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl<'a> VpBox for GzEncoder<&'a mut File> {
    type Out = GzEncoder<&'a mut File>;
    open spec fn boxed(self, o: Self::Out) -> bool { o == self }
    fn into_box(self) -> (r: Self::Out) { self }
}

// -- decoders ------------------------------------------------------------------------

#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct GzDecoder<R> { x: Vec<R> }
impl<R: Read> GzDecoder<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (d: GzDecoder<R>) ensures d.rest() == dec_of(1, r.rest()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BrDecoder<R> { x: Vec<R> }
impl<R: Read> BrDecoder<R> {
    #[verifier::external_body]
    pub fn new(r: R, n: usize) -> (d: BrDecoder<R>) ensures d.rest() == dec_of(2, r.rest()) { unimplemented!() }
}
impl<R: Read> Read for GzDecoder<R> {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn failed(&self) -> bool;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl<R: Read> Read for BrDecoder<R> {
    type RTag = int;
    uninterp spec fn rtag(&self) -> int;
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn failed(&self) -> bool;
    uninterp spec fn taken(&self) -> nat;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl VpBox for GzDecoder<ReadSlice> {
    type Out = GzDecoder<ReadSlice>;
    open spec fn boxed(self, o: Self::Out) -> bool { o == self }
    fn into_box(self) -> (r: Self::Out) { self }
}
impl VpBox for BrDecoder<ReadSlice> {
    type Out = BrDecoder<ReadSlice>;
    open spec fn boxed(self, o: Self::Out) -> bool { o == self }
    fn into_box(self) -> (r: Self::Out) { self }
}
/// decoded streams are shorter than 2^63 bytes
pub broadcast axiom fn ax_dec_len(mode: u8, e: Seq<u8>)
    ensures (#[trigger] dec_of(mode, e)).len() <= i64::MAX as nat;

// -- compressible length -----------------------------------------------------------

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: u8 }
#[allow(non_camel_case_types)]
pub type f64 = F64;
/// half of a length, the only fraction used
pub uninterp spec fn f64_len(f: F64) -> nat;
pub uninterp spec fn f64_half(f: F64) -> bool;
impl std::ops::Mul for F64 {
    type Output = F64;
    #[verifier::external_body]
    fn mul(self, o: F64) -> (r: F64)
        ensures f64_half(o) ==> f64_prod(r) == Some(f64_len(self) / 2),
            f64_half(self) ==> f64_prod(r) == Some(f64_len(o) / 2) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl for F64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: F64) -> bool { true }
    uninterp spec fn mul_spec(self, o: F64) -> F64;
}
pub uninterp spec fn f64_prod(f: F64) -> Option<nat>;
#[verifier::external_body]
pub fn vp_as_f64(x: u64) -> (r: F64) ensures x < 0x20_0000_0000_0000 ==> f64_len(r) == x { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_0_5() -> (r: F64) ensures f64_half(r) { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_as_u64(f: F64) -> (r: u64) ensures f64_prod(f) matches Some(n) ==> r == n { unimplemented!() }

pub broadcast group vp_barc {
    lem_hexw_len, lem_hexval_small, lem_hexval_push, lem_hex_ok_push, lem_hexval_empty,
    ax_header_name, ax_header_value, ax_header_name_as_ref, ax_header_map,
    lem_lines_push, lem_lines_empty, lem_lines_some, lem_lines_prefix_b,
    lem_newlines_push, lem_newlines_empty, lem_newlines_len,
    lem_hp_hdrs_push, lem_hp_hdrs_empty, lem_hp_hdrs_len, lem_hp_hdrs_take, lem_hp_ext, lem_hm_from_push, lem_hm_from_empty,
    ax_read_pos, ax_dec_len, ax_enc_dec, ax_enc_len, lem_dec_ext, lem_take_full,
}
pub broadcast group vp_barc_file { ax_file_log, ax_file_had, ax_file_atomic, ax_file_none, ax_file_now }
