"""Futio buffers, arbiters and tuning."""

from ..unit import Unit, Contract
from .common import PATHS, EXTERN_ROOTS, METHODS
from . import body

P = dict(PATHS)
P.update({
    "std::time::Duration": "Duration",
    "std::time::Duration::from_secs": "Duration::from_secs",
    "std::time::Duration::from_millis": "Duration::from_millis",
    "blocking_permit::Semaphore": "Semaphore",
    "blocking_permit::Splittable": "Splittable",
    "blocking_permit::Canceled": "Canceled",
    "bytes::Buf": "Buf",
    "Default": "VpDefault",
})

FILES = [["futio", "body-image-futio/src/lib.rs"], ["futio", "body-image-futio/src/blocking.rs"],
         ["futio", "body-image-futio/src/tune.rs"], ["futio", "body-image-futio/src/mem_map_buf.rs"],
         ["futio", "body-image-futio/src/uni_body_buf.rs"]]
BODY_FILES = [["body_image", "body-image/src/lib.rs"], ["body_image", "body-image/src/_mem_handle_ext.rs"]]

TUNE_SPEC = r'''
impl Clone for FutioTunables {
    #[verifier::external_body]
    fn clone(&self) -> (r: FutioTunables) ensures r == *self { unimplemented!() }
}
impl Clone for BlockingPolicy {
    #[verifier::external_body]
    fn clone(&self) -> (r: BlockingPolicy) ensures r == *self { unimplemented!() }
}
impl Copy for BlockingPolicy {}
'''
ARB_SPEC = r'''
impl Clone for Blocking {
    #[verifier::external_body]
    fn clone(&self) -> (r: Blocking) ensures r == *self { unimplemented!() }
}
impl Copy for Blocking {}
impl PartialEq for Blocking {
    #[verifier::external_body]
    fn eq(&self, o: &Blocking) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Blocking {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Blocking) -> bool { *self == *o }
}
/// whether a request to block is granted
pub open spec fn grants(b: Blocking) -> bool { b is Once || b is Always }
/// the state after a request: a single grant is used up, a refusal is pending
pub open spec fn asked(b: Blocking) -> Blocking {
    match b {
        Blocking::Void => Blocking::Pending,
        Blocking::Pending => Blocking::Pending,
        Blocking::Once => Blocking::Void,
        Blocking::Always => Blocking::Always,
    }
}
pub trait BlockingArbiter {
    spec fn blk(&self) -> Blocking;
    fn can_block(&mut self) -> (r: bool)
        ensures r == grants(old(self).blk()), final(self).blk() == asked(old(self).blk());
    fn state(&self) -> (r: Blocking)
        ensures r == self.blk();
}
'''
WIN_SPEC = r'''
impl MemMapBuf {
    pub open spec fn wf(&self) -> bool { self.pos <= self.len <= self.mm@.len() }
    pub open spec fn view_win(&self) -> Seq<u8> { self.mm@.subrange(self.pos as int, self.len as int) }
}
impl UniBodyBuf {
    pub open spec fn wf(&self) -> bool {
        match self.buf { BufState::Bytes(b) => true, BufState::MemMap(m) => m.wf() }
    }
    pub open spec fn view_win(&self) -> Seq<u8> {
        match self.buf { BufState::Bytes(b) => b@, BufState::MemMap(m) => m.view_win() }
    }
}
''' + "".join(r'''
/// slice methods, by `deref`
impl %(t)s {
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.view_win().len() { self.deref().len() }
    pub fn is_empty(&self) -> (r: bool) requires self.wf() ensures r == (self.view_win().len() == 0) { self.deref().len() == 0 }
    pub fn vp_range_full(&self) -> (r: &[u8]) requires self.wf() ensures r@ == self.view_win() { self.deref() }
    pub fn vp_range(&self, a: usize, b: usize) -> (r: &[u8])
        requires self.wf(), a <= b <= self.view_win().len()
        ensures r@ == self.view_win().subrange(a as int, b as int) { self.deref().vp_range(a, b) }
    pub fn vp_range_to(&self, b: usize) -> (r: &[u8])
        requires self.wf(), b <= self.view_win().len()
        ensures r@ == self.view_win().take(b as int) { self.deref().vp_range_to(b) }
    pub fn vp_range_from(&self, a: usize) -> (r: &[u8])
        requires self.wf(), a <= self.view_win().len()
        ensures r@ == self.view_win().skip(a as int) { self.deref().vp_range_from(a) }
}
''' % {"t": t} for t in ("MemMapBuf", "UniBodyBuf"))

BUF_IMPL = ("open spec fn win(&self) -> Seq<u8> { self.view_win() }\n"
            "open spec fn bwf(&self) -> bool { self.wf() }\n")
DEF_TUNE = ("%(s)s.res_timeout is None && (%(s)s.body_timeout matches Some(d) && nanos(d) == 60_000_000_000) "
            "&& %(s)s.blocking_policy is Direct && %(s)s.stream_item_size == 524288 && tun_default(%(s)s.image)")
IMPL_SPECS = {
    r"^impl ?(<.*>)? Buf for (MemMapBuf|UniBodyBuf)": BUF_IMPL,
    r"^impl ?(<.*>)? BlockingArbiter for LenientArbiter": "open spec fn blk(&self) -> Blocking { Blocking::Always }\n",
    r"^impl ?(<.*>)? BlockingArbiter for StatefulArbiter": "open spec fn blk(&self) -> Blocking { self.state }\n",
    r"^impl ?(<.*>)? VpDefault for StatefulArbiter":
    "open spec fn is_default(r: &StatefulArbiter) -> bool { r.state is Void }\n",
    r"^impl ?(<.*>)? VpDefault for FutioTunables":
    "open spec fn is_default(r: &FutioTunables) -> bool { futun_default(*r) }\n",
    r"^impl ?(<.*>)? VpDefault for FutioTuner":
    "open spec fn is_default(r: &FutioTuner) -> bool { futun_default(r.template) }\n",
}
DEF_SPEC = "pub open spec fn tun_default(t: Tunables) -> bool {\n%s\n}\n" % "\n".join(
    "    &&& t.%s == %d" % kv for kv in body.DEFAULTS.items()) + \
    "pub open spec fn futun_default(t: FutioTunables) -> bool {\n    %s\n}\n" % (DEF_TUNE % {"s": "t"})

C = {}


def fn(key, props, **kw):
    C["futio::" + key] = Contract("futio::" + key, props, **kw)


def ext(keys, contracts, pre="body_image::", **kw):
    """Contracts discharged in another unit, used here."""
    out = {}
    for k in keys:
        c = contracts[pre + k]
        e = Contract(c.key, c.props, external=True, repl=c.repl, **kw)
        e.requires, e.ensures, e.safety = c.requires, c.ensures, c.safety
        out[c.key] = e
    return out


C.update(ext(["Tunables::new"], body.C))

# -- arbiters ---------------------------------------------------------------------
for t in ("LenientArbiter", "StatefulArbiter"):
    fn("<BlockingArbiter for %s>::can_block" % t, ["C14"])
    fn("<BlockingArbiter for %s>::state" % t, ["C14"])
fn("<VpDefault for StatefulArbiter>::default", ["C14"])
fn("StatefulArbiter::set", ["C14"], ensures=["final(self).state == $1"])

# -- tuning -----------------------------------------------------------------------
fn("FutioTunables::new", ["C18"], ensures=["futun_default($r)"])
fn("<VpDefault for FutioTunables>::default", ["C18"])
fn("FutioTunables::image", ["C18"], ensures=["*$r == self.image"])
for f in ("stream_item_size", "res_timeout", "body_timeout", "blocking_policy"):
    fn("FutioTunables::" + f, ["C18"], ensures=["$r == self." + f])
fn("FutioTunables::blocking_semaphore", ["C18", "C14"],
   ensures=["$r == (match self.blocking_policy { BlockingPolicy::Permit(s) => Some(s), _ => None })"])
fn("<VpAsRef<Tunables> for FutioTunables>::as_ref", ["C18"], ensures=["*$r == self.image"])
fn("FutioTuner::new", ["C18"], ensures=["futun_default($r.template)"])
fn("<VpDefault for FutioTuner>::default", ["C18"])
SAME = "*final($r) == *final(self)"
for n, f, v in (("set_image", "image", "$1"), ("set_res_timeout", "res_timeout", "Some($1)"),
                ("unset_res_timeout", "res_timeout", "None"), ("set_body_timeout", "body_timeout", "Some($1)"),
                ("unset_body_timeout", "body_timeout", "None"), ("set_blocking_policy", "blocking_policy", "$1"),
                ("set_stream_item_size", "stream_item_size", "$1")):
    ens = ["$r.template == (FutioTunables { %s: %s, ..old(self).template })" % (f, v), SAME]
    pan = n == "set_stream_item_size"
    if pan:
        ens.append("$1 > 0")
    fn("FutioTuner::" + n, ["C18"], ensures=ens, attrs="//@panics" if pan else "")
fn("FutioTuner::finish", ["C18"], attrs="//@panics",
   ensures=["$r == self.template",
            "$r.res_timeout matches Some(a) ==> ($r.body_timeout matches Some(b) ==> nanos(a) <= nanos(b))"])

# -- buffers ----------------------------------------------------------------------
fn("MemMapBuf::new", ["C16"], ensures=["$r.wf()", "$r.view_win() == $1@"])
fn("MemMapBuf::split_to", ["C16"],
   requires=["old(self).wf()", "0 < $1 < old(self).view_win().len()"],
   ensures=["$r.wf()", "final(self).wf()", "$r.view_win() == old(self).view_win().take($1 as int)",
            "final(self).view_win() == old(self).view_win().skip($1 as int)"])
fn("MemMapBuf::advise_sequential", ["C16"], ensures=["$r is Ok"])
for t in ("MemMapBuf", "UniBodyBuf"):
    fn("<Buf for %s>::remaining" % t, ["C16"])
    fn("<Buf for %s>::chunk" % t, ["C16"])
    fn("<Buf for %s>::advance" % t, ["C16"], attrs="//@panics")
    for m in ("<Deref for %s>::deref", "<VpAsRef<[u8]> for %s>::as_ref"):
        fn(m % t, ["C16"], requires=["self.wf()"], ensures=["$r@ == self.view_win()"])
fn("UniBodyBuf::from_mmap", ["C16"], requires=["$1.wf()"],
   ensures=["$r.wf()", "$r.view_win() == $1.view_win()"])
fn("<Splittable for UniBodyBuf>::split_if", ["C16"],
   requires=["old(self).wf()", "$1 > 0"],
   ensures=["final(self).wf()",
            "$r is Some == (old(self).view_win().len() > $1)",
            "$r matches Some(h) ==> h.wf() && h.view_win() == old(self).view_win().take($1 as int)",
            "$r is Some ==> final(self).view_win() == old(self).view_win().skip($1 as int)",
            "$r is None ==> final(self).view_win() == old(self).view_win()"])
fn("<From<Bytes> for UniBodyBuf>::from", ["C16"], ensures=["$r.wf()", "$r.view_win() == $1@"])
fn("<VpInto<Bytes> for UniBodyBuf>::into", ["C16"], requires=["self.wf()"], ensures=["$r@ == self.view_win()"])

DEVIRTUAL = {"Deref": ["MemMapBuf", "UniBodyBuf"], "VpAsRef < [u8 ] >": [], "VpAsRef < Tunables >": [],
             "Splittable": [], "From < Bytes >": [], "VpInto < Bytes >": []}
UNIT = Unit(
    "fbuf",
    files=FILES + BODY_FILES,
    paths=P,
    options={"extern_roots": EXTERN_ROOTS, "methods": METHODS, "inline": ["tmp_advise"], "pin_erase": True},
    preludes=["core.rs", "body.rs", "futio.rs"],
    types=["body_image::Tunables"] + ["futio::" + t for t in (
        "Blocking", "LenientArbiter", "StatefulArbiter", "FutioTunables", "BlockingPolicy", "FutioTuner",
        "MemMapBuf", "UniBodyBuf", "BufState")],
    spec=TUNE_SPEC + ARB_SPEC + WIN_SPEC + DEF_SPEC,
    impl_specs=IMPL_SPECS,
    groups=["vp_bytes"],
    type_repl=body.UNIT.type_repl,
    devirtual=DEVIRTUAL,
    contracts=C,
    known=sorted(set(list(body.UNIT.known) + [k.split("::")[-1] for k in body.C] + ["len", "fmt", "source", "new"])),
)
