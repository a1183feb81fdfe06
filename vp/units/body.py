"""The body-image crate."""

from ..unit import Unit, Contract
from .common import PATHS, EXTERN_ROOTS, METHODS

SPEC = r'''
impl View for BodySink {
    type V = Seq<u8>;
    /// content: concatenated buffers, or the file's content
    open spec fn view(&self) -> Seq<u8> {
        match self.state {
            SinkState::Ram(v) => flat(v@),
            SinkState::FsWrite(f) => f.contents(),
        }
    }
}
impl BodySink {
    /// the length field is the content's length, a file is written at its end
    pub open spec fn wf(&self) -> bool {
        &&& self.len == self@.len()
        &&& match self.state {
            SinkState::Ram(_) => true,
            SinkState::FsWrite(f) => f.pos() == f.contents().len(),
        }
    }
    pub open spec fn ram(&self) -> bool { self.state is Ram }
}
impl View for BodyImage {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> {
        match self.state {
            ImageState::Ram(v) => flat(v@),
            ImageState::FsRead(f) => present(f@.contents(), 0, self.len as nat),
            ImageState::FsReadSlice(r) => r.all(),
            ImageState::MemMap(m) => m@,
        }
    }
}
impl BodyImage {
    /// well formed but for a file that may be shorter than the length given
    pub open spec fn wf0(&self) -> bool {
        match self.state {
            ImageState::Ram(v) => self.len == self@.len(),
            ImageState::FsRead(f) => self.len > 0,
            ImageState::FsReadSlice(r) => r.wf() && self.len == self@.len() && self.len > 0,
            ImageState::MemMap(m) => self.len == self@.len(),
        }
    }
    pub open spec fn wf(&self) -> bool {
        self.wf0() && self.len == self@.len()
    }
    pub open spec fn ram(&self) -> bool { self.state is Ram }
}
impl Clone for BodyImage {
    #[verifier::external_body]
    fn clone(&self) -> (r: BodyImage)
        ensures r@ == self@, r.len == self.len, self.wf() ==> r.wf(), r.ram() == self.ram()
    { unimplemented!() }
}
impl<'a> BodyReader<'a> {
    pub open spec fn rest(&self) -> Seq<u8> {
        match *self {
            BodyReader::Contiguous(c) => c.rest(),
            BodyReader::Scattered(g) => g.rest(),
            BodyReader::FileSlice(r) => r.rest(),
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for BodyError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IoError) -> BodyError { BodyError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<MemAdviseError> for BodyError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: MemAdviseError) -> BodyError { BodyError::Io(e.into_spec()) }
}
impl VpInto<BodyError> for IoError {
    open spec fn into_spec(self) -> BodyError { BodyError::Io(self) }
    fn vp_into(self) -> (r: BodyError) { BodyError::from(self) }
}
impl Tunables {
    /// what the setters guarantee
    pub open spec fn wf(&self) -> bool {
        self.buffer_size_ram > 0 && self.buffer_size_fs > 0
    }
}
impl Clone for Tunables {
    #[verifier::external_body]
    fn clone(&self) -> (r: Tunables) ensures r == *self { unimplemented!() }
}
pub open spec fn max_buf(t: &Tunables) -> int {
    if t.buffer_size_ram >= t.buffer_size_fs { t.buffer_size_ram as int } else { t.buffer_size_fs as int }
}
'''

C = {}


def fn(key, props, **kw):
    C["body_image::" + key] = Contract("body_image::" + key, props, **kw)


SAME_REF = "*final($r) == *final(self)"

fn("<From<IoError> for BodyError>::from", ["C01", "C03"], safety=[])
fn("<From<MemAdviseError> for BodyError>::from", ["C04"], safety=[])

# -- sink ---------------------------------------------------------------------
fn("SinkState::cut", ["C01"],
   ensures=["$r == *old(self)", "(*final(self)) is Ram", "(*final(self))->Ram_0@.len() == 0"])
fn("BodySink::with_ram_buffers", ["C01"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.ram()"])
fn("BodySink::empty", ["C01"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.ram()"])
fn("<Default for BodySink>::default", ["C01"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.ram()"])
fn("BodySink::with_ram", ["C01"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.ram()"])
fn("BodySink::with_fs", ["C01"],
   ensures=["$r matches Ok(s) ==> s.wf() && s@ == Seq::<u8>::empty() && !s.ram()",
            (["C03"], "$r matches Err(e) ==> e is Io")])
fn("BodySink::is_ram", ["C01"], ensures=["$r == self.ram()"])
fn("BodySink::is_empty", ["C01"], ensures=["$r == (self.len == 0)"])
fn("BodySink::len", ["C01"], ensures=["$r == self.len"])
fn("BodySink::save", ["C01"],
   requires=["old(self).wf()", "old(self)@.len() + $1.into_spec()@.len() <= u64::MAX"],
   ensures=["$r is Ok ==> final(self).wf() && final(self)@ == old(self)@ + $1.into_spec()@ "
            "&& final(self).ram() == old(self).ram()",
            "old(self).ram() ==> $r is Ok"])
fn("BodySink::push", ["C01"],
   requires=["old(self).wf()", "old(self)@.len() + $1.as_ref_spec()@.len() <= u64::MAX"],
   ensures=["$r is Ok ==> final(self).wf()",
            "$r is Ok ==> final(self)@ == old(self)@ + $1.as_ref_spec()@",
            "$r is Ok ==> final(self).ram() == old(self).ram()",
            "old(self).ram() ==> $r is Ok"],
   start="ax_into_as_ref($1);")
fn("BodySink::write_all", ["C01"],
   requires=["old(self).wf()", "old(self)@.len() + $1.as_ref_spec()@.len() <= u64::MAX"],
   ensures=["$r is Ok ==> final(self).wf()",
            "$r is Ok ==> final(self)@ == old(self)@ + $1.as_ref_spec()@",
            "$r is Ok ==> final(self).ram() == old(self).ram()",
            "old(self).ram() ==> $r is Ok",
            (["C13"], "$r matches Err(e) ==> e.spec_kind() != ErrorKind::Interrupted")])
fn("BodySink::write_back", ["C01"],
   requires=["old(self).wf()"],
   ensures=["$r matches Ok(m) ==> m.wf() && m@ == old(self)@ && !m.ram() && *final(m) == *final(self)",
            "$r matches Err(e) ==> final(self).wf() && final(self).ram() && final(self).len == 0 "
            "&& final(self)@ == Seq::<u8>::empty()",
            (["C03"], "$r matches Err(e) ==> e is Io")],
   hints=["?f:File.contents() == flat(?i:Iter.seen())",
          "?f:File.pos() == ?f:File.contents().len()",
          "?i:Iter.whole() == ?v@",
          ("ens", "?i:Iter.seen() == ?v@"),
          ])
fn("BodySink::prepare", ["C01"],
   requires=["self.wf()"],
   ensures=["$r matches Ok(i) ==> i.wf() && i@ == self@ && i.len == self.len",
            "$r matches Ok(i) ==> (self.ram() || self.len == 0) == i.ram()",
            "self.ram() ==> $r is Ok",
            "self.len == 0 ==> ($r matches Ok(i) && i.ram() && i.len == 0)",
            (["C03"], "$r matches Err(e) ==> e is Io")])

# -- image ----------------------------------------------------------------------
fn("ImageState::empty", ["C04"], ensures=["$r is Ram", "$r->Ram_0@.len() == 0"])
fn("ImageState::cut", ["C04"],
   ensures=["$r == *old(self)", "(*final(self)) is Ram", "(*final(self))->Ram_0@.len() == 0"])
fn("BodyImage::empty", ["C01", "C04"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.len == 0", "$r.ram()"])
fn("<Default for BodyImage>::default", ["C04"],
   ensures=["$r.wf()", "$r@ == Seq::<u8>::empty()", "$r.len == 0", "$r.ram()"])
FROM_FILE = ["$2 == 0 ==> $r.wf() && $r.len == 0 && $r.ram()",
             "$2 <= $1.contents().len() ==> $r.wf() && $r@ == $1.contents().take($2 as int)",
             "$r.wf0()", "$r.len == $2"]
fn("BodyImage::from_file", ["C04"], ensures=FROM_FILE)
fn("image_from_file", ["C04"], ensures=FROM_FILE)
FROM_SLICE = ["$r.wf()", "$r@ == $1.all()", "$r.len == $1.end() - $1.start()",
              "$r.len == 0 ==> $r.ram()"]
fn("BodyImage::from_read_slice", ["C04"], requires=["$1.wf()"], ensures=FROM_SLICE)
fn("image_from_read_slice", ["C04"], requires=["$1.wf()"], ensures=FROM_SLICE)
fn("BodyImage::from_slice", ["C04"],
   ensures=["$r.wf()", "$r@ == $1.into_spec()@", "$r.ram()"])
fn("BodyImage::is_ram", ["C04"], ensures=["$r == self.ram()"])
fn("BodyImage::is_mem_map", ["C04"], ensures=["$r == (self.state is MemMap)"])
fn("BodyImage::len", ["C04"], ensures=["$r == self.len"])
fn("BodyImage::is_empty", ["C04"], ensures=["$r == (self.len == 0)"])
fn("BodyImage::mem_map", ["C04"],
   requires=["old(self).wf0()"],
   ensures=["$r matches Ok(m) ==> m.wf() && m@ == old(self)@ && m.len == old(self).len "
            "&& m.ram() == old(self).ram() && *final(m) == *final(self)",
            "$r is Err ==> final(self)@ == old(self)@ && final(self).len == old(self).len && final(self).wf0()"])
fn("BodyImage::gather", ["C04"],
   requires=["old(self).wf()"],
   ensures=["$r.wf() && $r@ == old(self)@ && $r.len == old(self).len && $r.ram() == old(self).ram()",
            "$r.state matches ImageState::Ram(v) ==> v@.len() <= 1",
            "!old(self).ram() ==> *$r == *old(self)",
            "*final($r) == *final(self)"],
   hints=["?b:BytesMut@ == flat(?i:Iter.seen())",
          "?i:Iter.whole() == ?v@",
          ("ens", "?i:Iter.seen() == ?v@"),
          ])
fn("BodyImage::reader", ["C04"], ensures=["self.wf0() ==> $r.rest() == self@"])
fn("<Read for BodyReader>::read", ["C04"])
fn("BodyImage::explode", ["C04"],
   requires=["self.wf0()"],
   ensures=["$r matches ExplodedImage::Ram(v) ==> flat(v@) == self@ && self.ram()",
            "$r matches ExplodedImage::FsRead(s) ==> s.all() == self@ && s.end() - s.start() == self.len "
            "&& s.at() == 0 && !self.ram()",
            "$r matches ExplodedImage::MemMap(m) ==> m@ == self@ && self.state is MemMap",
            "self.state is MemMap ==> $r is MemMap"])
fn("BodyImage::write_to", ["C04"],
   requires=["self.wf()"],
   ensures=["$r matches Ok(n) ==> n == self.len",
            "$r is Ok ==> final($1).out() == old($1).out() + self@",
            "old($1).out().is_prefix_of(final($1).out())",
            "final($1).tag() == old($1).tag()"],
   hints=["$1.out() == old($1).out() + flat(?i:Iter.seen())",
          "$1.tag() == old($1).tag()",
          "?i:Iter.whole() == ?v@",
          ("ens", "?i:Iter.seen() == ?v@"),
          ])

# -- reading from a source ---------------------------------------------------------
READ_HINTS = [
    "?s:BodySink.wf()", "?s:BodySink.ram()", "!?s:BodySink.ram()",
    "?s:BodySink@ + $1.rest() == old($1).rest()",
    "?s:BodySink@ + $1.rest() == pre(?s:BodySink)@ + old($1).rest()",
    "?s:BodySink@ + (?b:BytesMut@ + $1.rest()) == old($1).rest()",
    "?s:BodySink@ + (?b:BytesMut@ + $1.rest()) == pre(?s:BodySink)@ + old($1).rest()",
    "$1.failed() == old($1).failed()",
    "?b:BytesMut@.len() == 0",
    "?b:BytesMut.cap() == $3.buffer_size_ram as nat",
    "?b:BytesMut.cap() == $3.buffer_size_fs as nat",
    "?b:BytesMut@.len() < ?b:BytesMut.cap()",
    "?n:int as nat == ?s:BodySink@.len()",
    "?n:int <= $3.max_body",
    "?n:int <= $3.max_body_ram",
    "?s:BodySink@.len() <= $3.max_body",
    "?s:BodySink@.len() <= $3.max_body_ram",
    ("ens", "$1.rest().len() == 0"),
    ("ens", "?b:BytesMut@.len() == 0 ==> $1.rest().len() == 0"),
    "?b:BytesMut@ + $1.rest() == pre(?b:BytesMut)@ + old($1).rest()",
]
fn("BodyImage::read_from", ["C02"],
   requires=["$3.wf()", "old($1).rest().len() <= i64::MAX"],
   ensures=[(["C02"], "$r matches Ok(i) ==> i.wf() && i@ == old($1).rest()"),
            (["C02"], "$r is Ok ==> final($1).failed() == old($1).failed()"),
            (["C03"], "$r matches Ok(i) ==> i.len <= $3.max_body"),
            (["C03"], "$r matches Ok(i) ==> (i.ram() ==> i.len <= $3.max_body_ram)"),
            (["C03"], "$r matches Err(BodyError::BodyTooLong(n)) ==> old($1).rest().len() > $3.max_body"),
            (["C03"], "old($1).rest().len() - final($1).rest().len() <= $3.max_body + max_buf($3)"),
            ],
   safety=["C02", "C03"],
   hints=READ_HINTS)
fn("read_to_body_fs", ["C02"],
   requires=["$3.wf()", "$2.wf()", "!$2.ram()",
             "$2@.len() + old($1).rest().len() <= i64::MAX",
             "$2@.len() <= $3.max_body"],
   ensures=[(["C02"], "$r matches Ok(i) ==> i.wf() && i@ == $2@ + old($1).rest()"),
            (["C02"], "$r is Ok ==> final($1).failed() == old($1).failed()"),
            (["C03"], "$r matches Ok(i) ==> i.len <= $3.max_body"),
            (["C03"], "$r matches Ok(i) ==> (i.ram() ==> i.len == 0)"),
            (["C03"], "$r matches Err(BodyError::BodyTooLong(n)) ==> $2@.len() + old($1).rest().len() > $3.max_body"),
            (["C03"], "$2@.len() + old($1).rest().len() - final($1).rest().len() <= $3.max_body + max_buf($3)"),
            ],
   safety=["C02", "C03"],
   hints=READ_HINTS)

# -- tunables ------------------------------------------------------------------------
FIELDS = [("max_body_ram", "u64"), ("max_body", "u64"), ("buffer_size_ram", "usize"),
          ("buffer_size_fs", "usize"), ("size_estimate_deflate", "u16"),
          ("size_estimate_gzip", "u16"), ("size_estimate_brotli", "u16")]
DEFAULTS = {"max_body_ram": 196608, "max_body": 1073741824, "buffer_size_ram": 8192,
            "buffer_size_fs": 65536, "size_estimate_deflate": 4,
            "size_estimate_gzip": 5, "size_estimate_brotli": 6}
for f, t in FIELDS:
    fn("Tunables::" + f, ["C18"], ensures=["$r == self." + f])
    ens = ["$r.template == (Tunables { %s: $1, ..old(self).template })" % f,
           "*final($r) == *final(self)"]
    pan = not f.startswith("max_")
    if pan:
        ens.append("$1 > 0")
    fn("Tuner::set_" + f, ["C18"], ensures=ens, attrs="//@panics" if pan else "")
fn("Tunables::temp_dir", ["C18"], ensures=["$r == self.temp_dir.path()"])
fn("Tunables::temp_dir_rc", ["C18"], ensures=["$r == self.temp_dir"])
fn("Tuner::set_temp_dir", ["C18"],
   ensures=["$r.template == (Tunables { temp_dir: $r.template.temp_dir, ..old(self).template })",
            "$r.template.temp_dir.path() == $1.as_ref_spec()",
            "*final($r) == *final(self)"])
DEF = ["$r%s." + f + " == " + str(v) for f, v in DEFAULTS.items()]
TD = "$r%s.temp_dir == <PathBuf as VpInto<ArcPath>>::into_spec(spec_temp_dir())"
fn("Tunables::new", ["C18"], ensures=[d % "" for d in DEF] + [TD % ""])
fn("<Default for Tunables>::default", ["C18"], ensures=[d % "" for d in DEF] + [TD % ""])
fn("Tuner::new", ["C18"], ensures=[d % ".template" for d in DEF] + [TD % ".template"])
fn("<Default for Tuner>::default", ["C18"], ensures=[d % ".template" for d in DEF] + [TD % ".template"])
fn("Tuner::finish", ["C18"], attrs="//@panics",
   ensures=["$r == self.template", "$r.max_body_ram <= $r.max_body"])

UNIT = Unit(
    "body",
    files=[["body_image", "body-image/src/lib.rs"],
           ["body_image", "body-image/src/_mem_handle_ext.rs"]],
    paths=PATHS,
    options={"extern_roots": EXTERN_ROOTS, "methods": METHODS, "inline": ["tmp_advise"]},
    preludes=["core.rs", "body.rs"],
    types=["body_image::" + t for t in (
        "BodyError", "SinkState", "BodySink", "ImageState", "BodyImage",
        "ExplodedImage", "BodyReader", "Tunables", "Tuner")],
    spec=SPEC,
    impl_specs={
        r"^impl ?(<.*>)? Read for BodyReader":
        "type RTag = (int, int);\n"
        "open spec fn rtag(&self) -> (int, int) { match *self {\n"
        "    BodyReader::Contiguous(c) => (0, c.rtag()),\n"
        "    BodyReader::Scattered(g) => (1, g.rtag()),\n"
        "    BodyReader::FileSlice(r) => (2, r.rtag()),\n"
        "} }\n"
        "open spec fn taken(&self) -> nat { match *self {\n"
        "    BodyReader::Contiguous(c) => c.taken(),\n"
        "    BodyReader::Scattered(g) => g.taken(),\n"
        "    BodyReader::FileSlice(r) => r.taken(),\n"
        "} }\n"
        "#[verifier::external_body]\n"
        "fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>) { unimplemented!() }\n"
        "open spec fn rest(&self) -> Seq<u8> { BodyReader::rest(self) }\n"
        "open spec fn failed(&self) -> bool { match *self {\n"
        "    BodyReader::Contiguous(c) => c.failed(),\n"
        "    BodyReader::Scattered(g) => g.failed(),\n"
        "    BodyReader::FileSlice(r) => r.failed(),\n"
        "} }\n",
    },
    groups=["vp_bytes", "vp_io", "vp_body_fs"],
    type_repl=[("Arc < Path >", "ArcPath")],
    contracts=C,
    known=["fmt", "source", "method", "url", "req_body_mut", "res_status", "res_version",
           "res_decoded", "set_res_decoded", "res_body_mut", "set_res_body_decoded",
           "explode", "req_headers", "req_body", "res_headers", "res_body", "new",
           "from", "tmp_advise"],
)
