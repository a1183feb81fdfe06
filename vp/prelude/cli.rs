// Stand-ins for clap and for the interface of the barc crate (its functions
// are under contract in the unit of that crate) as used by the command line
// tool.

#[verifier::external_body]
pub struct HpStr { x: u8 }
impl View for HpStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl PartialEq for HpStr {
    #[verifier::external_body]
    fn eq(&self, o: &HpStr) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HpStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HpStr) -> bool { self@ == o@ }
}
#[verifier::external_body]
pub fn vp_str_eq(a: &HpStr, b: &HpStr) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

pub open spec fn starts(t: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= t.len() && t.take(p.len() as int) == p }
impl HpStr {
    #[verifier::external_body]
    pub fn vp_starts_with(&self, p: &HpStr) -> (r: bool) ensures r == starts(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_range_from(&self, n: usize) -> (r: &HpStr) requires n <= self@.len() ensures r@ == self@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, p: &HpStr) -> (r: Option<&HpStr>)
        ensures match r { Some(t) => starts(self@, p@) && t@ == self@.skip(p@.len() as int), None => !starts(self@, p@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: VpParse>(&self) -> (r: Result<T, ParseIntError>)
        ensures match T::parsed(self@) { Some(v) => r == Ok::<T, ParseIntError>(v), None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}

/// the number written in a radix
pub uninterp spec fn number(t: Seq<u8>, radix: int) -> Option<nat>;
pub trait VpParse: Sized { spec fn parsed(t: Seq<u8>) -> Option<Self>; }
pub open spec fn as_usize(t: Seq<u8>) -> Option<usize> {
    match number(t, 10) { Some(n) => if n <= usize::MAX { Some(n as usize) } else { None }, None => None }
}
pub open spec fn as_u64(t: Seq<u8>, radix: int) -> Option<u64> {
    match number(t, radix) { Some(n) => if n <= u64::MAX { Some(n as u64) } else { None }, None => None }
}
impl VpParse for usize { open spec fn parsed(t: Seq<u8>) -> Option<usize> { as_usize(t) } }
impl VpParse for u64 { open spec fn parsed(t: Seq<u8>) -> Option<u64> { as_u64(t, 10) } }
#[verifier::external_body]
pub fn u64_from_str_radix(t: &HpStr, radix: u32) -> (r: Result<u64, ParseIntError>)
    ensures match as_u64(t@, radix as int) { Some(v) => r == Ok::<u64, ParseIntError>(v), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn usize_max_value() -> (r: usize) ensures r == usize::MAX { unimplemented!() }

// -- errors ----------------------------------------------------------------

#[verifier::external_body]
pub struct ParseIntError { x: u8 }
#[verifier::external_body]
pub struct BarcError { x: u8 }
#[verifier::external_body]
pub struct Flaw { x: u8 }
impl From<ParseIntError> for Flaw { #[verifier::external_body] fn from(e: ParseIntError) -> Flaw { unimplemented!() } }
impl From<BarcError> for Flaw { #[verifier::external_body] fn from(e: BarcError) -> Flaw { unimplemented!() } }
impl From<IoError> for Flaw { #[verifier::external_body] fn from(e: IoError) -> Flaw { unimplemented!() } }
#[verifier::external_body]
pub fn vp_flaw() -> Flaw { unimplemented!() }

// -- clap ------------------------------------------------------------------

#[verifier::external_body]
pub struct ArgMatches { x: u8 }
#[verifier::external_body]
pub struct ArgValues { x: u8 }
impl View for ArgValues { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl ArgValues {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&HpStr>)
        ensures match r {
            Some(t) => old(self)@.len() > 0 && t@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
}
impl ArgMatches {
    pub uninterp spec fn present(&self, name: Seq<u8>) -> bool;
    pub uninterp spec fn value(&self, name: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn values(&self, name: Seq<u8>) -> Option<Seq<Seq<u8>>>;
    pub uninterp spec fn sub(&self) -> Option<(Seq<u8>, ArgMatches)>;
    #[verifier::external_body]
    pub fn is_present(&self, name: &HpStr) -> (r: bool) ensures r == self.present(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_of(&self, name: &HpStr) -> (r: Option<&HpStr>)
        ensures match self.value(name@) { Some(t) => r matches Some(v) && v@ == t, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn values_of(&self, name: &HpStr) -> (r: Option<ArgValues>)
        ensures match self.values(name@) { Some(t) => r matches Some(v) && v@ == t, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn occurrences_of(&self, name: &HpStr) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_name(&self) -> (r: Option<&HpStr>)
        ensures match self.sub() { Some(s) => r matches Some(v) && v@ == s.0, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_matches(&self, name: &HpStr) -> (r: Option<&ArgMatches>)
        ensures self.sub() is Some && self.sub()->Some_0.0 == name@ ==> r is Some && *r->Some_0 == self.sub()->Some_0.1 { unimplemented!() }
}
#[verifier::external_body]
pub struct App { x: u8 }
/// the command line given
pub uninterp spec fn cmdline() -> ArgMatches;
impl App {
    #[verifier::external_body]
    pub fn get_matches(self) -> (r: ArgMatches) ensures r == cmdline() { unimplemented!() }
}
/// the help texts and the declaration of the arguments
#[verifier::external_body]
pub struct VarHelp { x: u8 }
impl VarHelp {
    #[verifier::external_body]
    pub fn default() -> VarHelp { unimplemented!() }
}
#[verifier::external_body]
pub fn setup_cli(h: &VarHelp) -> App { unimplemented!() }
pub uninterp spec fn log_fails() -> bool;
#[verifier::external_body]
pub fn setup_logger(n: u32) -> (r: Result<(), Flaw>) ensures r is Err ==> log_fails() { unimplemented!() }

// -- archives --------------------------------------------------------------

#[verifier::external_body]
pub struct HeaderMap { x: u8 }
#[verifier::external_body]
pub struct BodyImage { x: u8 }
#[verifier::external_body]
pub struct Tunables { x: u8 }
impl Tunables {
    #[verifier::external_body]
    pub fn new() -> Tunables { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> Tunables { unimplemented!() }
}
pub ghost struct RecV { pub meta: HeaderMap, pub reqh: HeaderMap, pub reqb: BodyImage, pub resh: HeaderMap, pub resb: BodyImage }
#[verifier::external_body]
pub struct Record { x: u8 }
impl View for Record { type V = RecV; uninterp spec fn view(&self) -> RecV; }
impl Record {
    #[verifier::external_body]
    pub fn meta(&self) -> (r: &HeaderMap) ensures *r == self@.meta { unimplemented!() }
    #[verifier::external_body]
    pub fn req_headers(&self) -> (r: &HeaderMap) ensures *r == self@.reqh { unimplemented!() }
    #[verifier::external_body]
    pub fn req_body(&self) -> (r: &BodyImage) ensures *r == self@.reqb { unimplemented!() }
    #[verifier::external_body]
    pub fn res_headers(&self) -> (r: &HeaderMap) ensures *r == self@.resh { unimplemented!() }
    #[verifier::external_body]
    pub fn res_body(&self) -> (r: &BodyImage) ensures *r == self@.resb { unimplemented!() }
}

/// an archive's content
pub ghost struct ArV { pub n: int }
pub enum Rd { Rec(RecV, int), End, Bad }
/// what reading at an offset gives, and the offset after it (C09)
pub uninterp spec fn rd(f: ArV, off: int) -> Rd;
pub uninterp spec fn file_of(path: Seq<u8>) -> ArV;
pub uninterp spec fn opens(path: Seq<u8>) -> bool;
pub uninterp spec fn seek_fails(f: ArV, off: int) -> bool;

#[verifier::external_body]
pub struct BarcFile { x: u8 }
impl BarcFile {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(p: &HpStr) -> (r: BarcFile) ensures r.path() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn reader(&self) -> (r: Result<BarcReader, BarcError>)
        ensures match r {
            Ok(r) => opens(self.path()) && r.file() == file_of(self.path()) && r.pos() == 0,
            Err(e) => !opens(self.path()),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn writer(&self, ar: &mut Archives) -> (r: Result<BarcWriter, BarcError>)
        ensures final(ar)@ == old(ar)@,
            r matches Ok(w) ==> w.path() == self.path(),
            r is Err ==> final(ar).broken() { unimplemented!() }
}
#[verifier::external_body]
pub struct BarcReader { x: u8 }
impl BarcReader {
    pub uninterp spec fn file(&self) -> ArV;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn offset(&self) -> (r: u64) ensures r == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, off: u64) -> (r: Result<(), BarcError>)
        ensures final(self).file() == old(self).file(),
            r is Ok ==> final(self).pos() == off,
            r is Err ==> seek_fails(old(self).file(), off as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, t: &Tunables) -> (r: Result<Option<Record>, BarcError>)
        ensures final(self).file() == old(self).file(),
            match rd(old(self).file(), old(self).pos()) {
                Rd::Rec(v, n) => r matches Ok(o) && o matches Some(c) && c@ == v && final(self).pos() == n,
                Rd::End => r matches Ok(o) && o is None && final(self).pos() == old(self).pos(),
                Rd::Bad => r is Err,
            } { unimplemented!() }
}

#[derive(Clone, Copy)]
pub enum SKind { Plain, Gzip, Brotli }
#[verifier::external_body]
pub struct Strat { x: u8 }
impl Strat {
    pub uninterp spec fn kind(&self) -> SKind;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Strat) ensures r == self { unimplemented!() }
}
pub trait VpStrat { spec fn strat_kind(&self) -> SKind; }
#[verifier::external_body]
pub fn vp_strat<T: VpStrat>(t: T) -> (r: Strat) ensures r.kind() == t.strat_kind() { unimplemented!() }
#[verifier::external_body]
pub struct NoCompressStrategy { x: u8 }
#[verifier::external_body]
pub struct GzipCompressStrategy { x: u8 }
#[verifier::external_body]
pub struct BrotliCompressStrategy { x: u8 }
impl VpStrat for NoCompressStrategy { open spec fn strat_kind(&self) -> SKind { SKind::Plain } }
impl VpStrat for GzipCompressStrategy { open spec fn strat_kind(&self) -> SKind { SKind::Gzip } }
impl VpStrat for BrotliCompressStrategy { open spec fn strat_kind(&self) -> SKind { SKind::Brotli } }
impl NoCompressStrategy {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
}
impl GzipCompressStrategy {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn set_check_identity(self, b: bool) -> Self { unimplemented!() }
}
impl BrotliCompressStrategy {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn set_check_identity(self, b: bool) -> Self { unimplemented!() }
}

/// all archives written to: where, what, how
pub ghost struct Put { pub path: Seq<u8>, pub rec: RecV, pub how: SKind }
#[verifier::external_body]
pub struct Archives { x: u8 }
impl View for Archives { type V = Seq<Put>; uninterp spec fn view(&self) -> Seq<Put>; }
impl Archives { pub uninterp spec fn broken(&self) -> bool; }
#[verifier::external_body]
pub struct BarcWriter { x: u8 }
impl BarcWriter {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write(&mut self, rec: &Record, s: &Strat, ar: &mut Archives) -> (r: Result<u64, BarcError>)
        ensures final(self).path() == old(self).path(),
            r is Ok ==> final(ar)@ == old(ar)@.push(Put { path: old(self).path(), rec: rec@, how: s.kind() }),
            r is Err ==> final(ar).broken() { unimplemented!() }
}

// -- standard output -------------------------------------------------------

pub ghost enum Val { Num(int), Text }
pub trait VpShow { spec fn shown(&self) -> Val; }
impl VpShow for u64 { open spec fn shown(&self) -> Val { Val::Num(*self as int) } }
impl VpShow for usize { open spec fn shown(&self) -> Val { Val::Num(*self as int) } }
impl VpShow for HpStr { open spec fn shown(&self) -> Val { Val::Text } }
impl<T: VpShow + ?Sized> VpShow for &T { open spec fn shown(&self) -> Val { (**self).shown() } }
#[verifier::external_body]
pub struct VpLine { x: u8 }
impl VpLine {
    pub uninterp spec fn vals(&self) -> Set<Val>;
    #[verifier::external_body]
    pub fn new() -> (r: VpLine) ensures r.vals() == Set::<Val>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: VpShow + ?Sized>(&mut self, t: &T) ensures final(self).vals() == old(self).vals().insert(t.shown()) { unimplemented!() }
}
pub ghost enum Block { Head(HeaderMap, bool), Body(BodyImage, bool) }
/// a line and the blocks following it
pub ghost struct Out { pub line: Set<Val>, pub blocks: Seq<Block> }
#[verifier::external_body]
pub struct Stdout { x: u8 }
impl View for Stdout { type V = Seq<Out>; uninterp spec fn view(&self) -> Seq<Out>; }
pub open spec fn put_block(s: Seq<Out>, b: Block) -> Seq<Out> {
    if s.len() == 0 { s.push(Out { line: Set::empty(), blocks: seq![b] }) }
    else { s.drop_last().push(Out { line: s.last().line, blocks: s.last().blocks.push(b) }) }
}
impl Stdout {
    pub uninterp spec fn broken(&self) -> bool;
    /// panics when it cannot print
    #[verifier::external_body]
    pub fn line(&mut self, l: VpLine, nl: bool)
        ensures final(self)@ == old(self)@.push(Out { line: l.vals(), blocks: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_line(&mut self, l: VpLine, nl: bool) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(Out { line: l.vals(), blocks: Seq::empty() }),
            r is Err ==> final(self).broken() { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self)@ == old(self)@, r is Err ==> final(self).broken() { unimplemented!() }
}
#[verifier::external_body]
pub fn write_headers(out: &mut Stdout, nl: bool, h: &HeaderMap) -> (r: Result<usize, BarcError>)
    ensures r is Ok ==> final(out)@ == put_block(old(out)@, Block::Head(*h, nl)),
        r is Err ==> final(out).broken() { unimplemented!() }
#[verifier::external_body]
pub fn write_body(out: &mut Stdout, nl: bool, b: &BodyImage) -> (r: Result<u64, BarcError>)
    ensures r is Ok ==> final(out)@ == put_block(old(out)@, Block::Body(*b, nl)),
        r is Err ==> final(out).broken() { unimplemented!() }

// -- selection -------------------------------------------------------------

pub ghost struct PartsV { pub meta: bool, pub req_head: bool, pub req_body: bool, pub res_head: bool, pub res_body: bool }
/// the records selected: starting at `off`, after `skip` of them, at most `n`
pub open spec fn sel(f: ArV, off: int, skip: nat, n: nat) -> Seq<(int, RecV)>
    decreases n + skip
{
    if n == 0 { Seq::empty() } else {
        match rd(f, off) {
            Rd::Rec(v, o) => if skip > 0 { sel(f, o, (skip - 1) as nat, n) }
                             else { seq![(off, v)] + sel(f, o, 0, (n - 1) as nat) },
            _ => Seq::empty(),
        }
    }
}
/// reading them fails
pub open spec fn fails(f: ArV, off: int, skip: nat, n: nat) -> bool
    decreases n + skip
{
    if n == 0 { false } else {
        match rd(f, off) {
            Rd::Rec(v, o) => if skip > 0 { fails(f, o, (skip - 1) as nat, n) } else { fails(f, o, 0, (n - 1) as nat) },
            Rd::End => false,
            Rd::Bad => true,
        }
    }
}
pub open spec fn opt(b: bool, x: Block) -> Seq<Block> { if b { seq![x] } else { Seq::empty() } }
pub open spec fn blocks(r: RecV, p: PartsV) -> Seq<Block> {
    opt(p.meta, Block::Head(r.meta, true)) + opt(p.req_head, Block::Head(r.reqh, true))
        + opt(p.req_body, Block::Body(r.reqb, true)) + opt(p.res_head, Block::Head(r.resh, true))
        + opt(p.res_body, Block::Body(r.resb, true))
}
pub open spec fn shows(o: Out, x: (int, RecV), p: PartsV) -> bool {
    o.line.contains(Val::Num(x.0)) && o.blocks =~= blocks(x.1, p)
}
/// the first of `e` were printed, `rest` is still to come
pub open spec fn printing(was: Seq<Out>, now: Seq<Out>, e: Seq<(int, RecV)>, rest: Seq<(int, RecV)>, p: PartsV) -> bool {
    now.len() + rest.len() == was.len() + e.len() && was.len() <= now.len()
        && now.take(was.len() as int) =~= was && rest =~= e.skip(now.len() - was.len())
        && forall|j: int| was.len() <= j < now.len() ==> shows(#[trigger] now[j], e[j - was.len()], p)
}
pub broadcast proof fn lem_put_block(s: Seq<Out>, o: Out, b: Block)
    ensures #[trigger] put_block(s.push(o), b) == s.push(Out { line: o.line, blocks: o.blocks.push(b) })
{
    assert(s.push(o).drop_last() =~= s);
}
pub broadcast proof fn lem_printing(was: Seq<Out>, now: Seq<Out>, e: Seq<(int, RecV)>, rest: Seq<(int, RecV)>,
                                    rest2: Seq<(int, RecV)>, o: Out, p: PartsV)
    requires #[trigger] printing(was, now, e, rest, p), rest.len() > 0, rest == seq![rest[0]] + rest2, shows(o, rest[0], p)
    ensures #[trigger] printing(was, now.push(o), e, rest2, p)
{
    let k = now.len() - was.len();
    let x = rest[0];
    assert(rest2 =~= (seq![x] + rest2).skip(1));
    assert(rest2 =~= e.skip(k).skip(1));
    assert(rest2 =~= e.skip(k + 1));
    assert(e[k] == rest[0]);
    assert(now.push(o).take(was.len() as int) =~= was);
}
pub open spec fn puts(path: Seq<u8>, how: SKind, e: Seq<(int, RecV)>) -> Seq<Put> {
    e.map_values(|x: (int, RecV)| Put { path, rec: x.1, how })
}
pub open spec fn copying(was: Seq<Put>, now: Seq<Put>, path: Seq<u8>, how: SKind, e: Seq<(int, RecV)>, rest: Seq<(int, RecV)>) -> bool {
    now + puts(path, how, rest) =~= was + puts(path, how, e)
}

// -- the command line ------------------------------------------------------

// names of the arguments
pub open spec fn n_offset() -> Seq<u8> { seq![111u8, 102u8, 102u8, 115u8, 101u8, 116u8] }
pub open spec fn n_index() -> Seq<u8> { seq![105u8, 110u8, 100u8, 101u8, 120u8] }
pub open spec fn n_count() -> Seq<u8> { seq![99u8, 111u8, 117u8, 110u8, 116u8] }
pub open spec fn n_file() -> Seq<u8> { seq![102u8, 105u8, 108u8, 101u8] }
pub open spec fn n_out_file() -> Seq<u8> { seq![111u8, 117u8, 116u8, 45u8, 102u8, 105u8, 108u8, 101u8] }
pub open spec fn n_meta() -> Seq<u8> { seq![109u8, 101u8, 116u8, 97u8] }
pub open spec fn n_req_head() -> Seq<u8> { seq![114u8, 101u8, 113u8, 95u8, 104u8, 101u8, 97u8, 100u8] }
pub open spec fn n_req_body() -> Seq<u8> { seq![114u8, 101u8, 113u8, 95u8, 98u8, 111u8, 100u8, 121u8] }
pub open spec fn n_res_head() -> Seq<u8> { seq![114u8, 101u8, 115u8, 95u8, 104u8, 101u8, 97u8, 100u8] }
pub open spec fn n_res_body() -> Seq<u8> { seq![114u8, 101u8, 115u8, 95u8, 98u8, 111u8, 100u8, 121u8] }
pub open spec fn n_gzip() -> Seq<u8> { seq![103u8, 122u8, 105u8, 112u8] }
pub open spec fn n_brotli() -> Seq<u8> { seq![98u8, 114u8, 111u8, 116u8, 108u8, 105u8] }
pub open spec fn n_cat() -> Seq<u8> { seq![99u8, 97u8, 116u8] }
pub open spec fn n_cp() -> Seq<u8> { seq![99u8, 112u8] }
pub open spec fn n_hex() -> Seq<u8> { seq![48u8, 120u8] }

impl ArgMatches {
    pub open spec fn off(&self) -> Option<u64> {
        match self.value(n_offset()) {
            Some(t) => if starts(t, n_hex()) { as_u64(t.skip(2), 16) } else { as_u64(t, 10) },
            None => Some(0u64),
        }
    }
    pub open spec fn idx(&self) -> Option<usize> {
        match self.value(n_index()) { Some(t) => as_usize(t), None => Some(0usize) }
    }
    pub open spec fn cnt(&self) -> Option<usize> {
        match self.value(n_count()) { Some(t) => as_usize(t), None => Some(usize::MAX) }
    }
    /// a selection is given for more than one file
    pub open spec fn many(&self) -> bool {
        self.values(n_file())->Some_0.len() > 1
            && (self.value(n_offset()) is Some || self.value(n_index()) is Some || self.value(n_count()) is Some)
    }
    pub open spec fn parts(&self) -> PartsV {
        let all = !self.present(n_meta()) && !self.present(n_req_head()) && !self.present(n_req_body())
            && !self.present(n_res_head()) && !self.present(n_res_body());
        PartsV { meta: all || self.present(n_meta()), req_head: all || self.present(n_req_head()),
                 req_body: all || self.present(n_req_body()), res_head: all || self.present(n_res_head()),
                 res_body: all || self.present(n_res_body()) }
    }
    pub open spec fn how(&self) -> SKind {
        if self.present(n_gzip()) { SKind::Gzip } else if self.present(n_brotli()) { SKind::Brotli } else { SKind::Plain }
    }
    /// what the declarations (setup_cli) make sure of
    pub open spec fn select_ok(&self) -> bool {
        self.values(n_file()) is Some && !(self.value(n_index()) is Some && self.value(n_offset()) is Some)
    }
    pub open spec fn compress_ok(&self) -> bool { !(self.present(n_gzip()) && self.present(n_brotli())) }
    pub open spec fn declared(&self) -> bool {
        self.sub() matches Some(s) && (s.0 == n_cat() ==> s.1.select_ok())
            && (s.0 == n_cp() ==> s.1.select_ok() && s.1.compress_ok() && s.1.value(n_out_file()) is Some)
    }
    pub open spec fn flags_bad(&self) -> bool {
        self.many() || self.off() is None || self.idx() is None || self.cnt() is None
    }
    pub open spec fn sels(&self, files: Seq<Seq<u8>>) -> Seq<(int, RecV)> {
        sels(files, self.off()->Some_0 as int, self.idx()->Some_0 as nat, self.cnt()->Some_0 as nat)
    }
    pub open spec fn bad(&self, files: Seq<Seq<u8>>) -> bool {
        bad(files, self.off()->Some_0 as int, self.idx()->Some_0 as nat, self.cnt()->Some_0 as nat)
    }
    pub open spec fn errs(&self, files: Seq<Seq<u8>>, out: Option<Seq<u8>>) -> bool {
        errs(files, out, self.off()->Some_0 as int, self.idx()->Some_0 as nat, self.cnt()->Some_0 as nat)
    }
}
/// the selections of the files, in order
pub open spec fn sels(files: Seq<Seq<u8>>, off: int, skip: nat, n: nat) -> Seq<(int, RecV)>
    decreases files.len()
{
    if files.len() == 0 { Seq::empty() }
    else { sel(file_of(files[0]), off, skip, n) + sels(files.skip(1), off, skip, n) }
}
pub open spec fn bad(files: Seq<Seq<u8>>, off: int, skip: nat, n: nat) -> bool
    decreases files.len()
{
    files.len() > 0 && (!opens(files[0]) || fails(file_of(files[0]), off, skip, n) || bad(files.skip(1), off, skip, n))
}
/// reasons for an error
pub open spec fn errs(files: Seq<Seq<u8>>, out: Option<Seq<u8>>, off: int, skip: nat, n: nat) -> bool
    decreases files.len()
{
    files.len() > 0 && (!opens(files[0]) || fails(file_of(files[0]), off, skip, n) || out == Some(files[0])
        || seek_fails(file_of(files[0]), off) || errs(files.skip(1), out, off, skip, n))
}
pub broadcast proof fn lem_printing_all(was: Seq<Out>, mid: Seq<Out>, now: Seq<Out>, e: Seq<(int, RecV)>, a: Seq<(int, RecV)>,
                                        b: Seq<(int, RecV)>, none: Seq<(int, RecV)>, p: PartsV)
    requires #[trigger] printing(was, mid, e, a + b, p), #[trigger] printing(mid, now, a, none, p), none.len() == 0
    ensures printing(was, now, e, b, p)
{
    let k = mid.len() - was.len();
    assert(b =~= (a + b).skip(a.len() as int));
    assert(b =~= e.skip(k).skip(a.len() as int));
    assert(b =~= e.skip(now.len() - was.len()));
    assert(now.take(was.len() as int) =~= now.take(mid.len() as int).take(was.len() as int));
    assert forall|j: int| was.len() <= j < now.len() implies shows(#[trigger] now[j], e[j - was.len()], p) by {
        if j < mid.len() {
            assert(now[j] == now.take(mid.len() as int)[j]);
            assert(shows(mid[j], e[j - was.len()], p));
        } else {
            assert(e[j - was.len()] == e.skip(k)[j - mid.len()]);
            assert((a + b)[j - mid.len()] == a[j - mid.len()]);
        }
    }
}
pub broadcast proof fn lem_copying_all(was: Seq<Put>, mid: Seq<Put>, now: Seq<Put>, path: Seq<u8>, how: SKind, e: Seq<(int, RecV)>,
                                       a: Seq<(int, RecV)>, b: Seq<(int, RecV)>, none: Seq<(int, RecV)>)
    requires #[trigger] copying(was, mid, path, how, e, a + b), #[trigger] copying(mid, now, path, how, a, none), none.len() == 0
    ensures copying(was, now, path, how, e, b)
{
    assert(puts(path, how, a + b) =~= puts(path, how, a) + puts(path, how, b));
    assert(now =~= mid + puts(path, how, a)) by { assert(puts(path, how, none) =~= Seq::<Put>::empty()); }
    assert(now + puts(path, how, b) =~= mid + (puts(path, how, a) + puts(path, how, b)));
}
pub broadcast group vp_cli { lem_put_block, lem_printing, lem_printing_all, lem_copying_all }
