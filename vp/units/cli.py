"""The command line tool."""

from ..unit import Unit, Contract
from .common import EXTERN_ROOTS, METHODS, PATHS

P = dict(PATHS)
P.update({
    "clap::ArgMatches": "ArgMatches",
    "clap::App": "App",
    "body_image::Tunables": "Tunables",
    "Box::new": "vp_strat",
    "Default": "VpDefault",
    "u64::from_str_radix": "u64_from_str_radix",
    "usize::max_value": "usize_max_value",
    "piccolog::setup_logger": "setup_logger",
})
for n in ("BarcFile", "CompressStrategy", "GzipCompressStrategy", "NoCompressStrategy",
          "BrotliCompressStrategy", "write_body", "write_headers"):
    P["barc::" + n] = n


SPEC = r'''
impl StartPos {
    pub open spec fn off(self) -> int { match self { StartPos::Offset(o) => o as int, StartPos::Index(i) => 0 } }
    pub open spec fn idx(self) -> nat { match self { StartPos::Offset(o) => 0, StartPos::Index(i) => i as nat } }
}

impl Parts {
    pub open spec fn v(self) -> PartsV {
        PartsV { meta: self.meta, req_head: self.req_head, req_body: self.req_body,
                 res_head: self.res_head, res_body: self.res_body }
    }
}
'''

C = {}


def fn(key, **kw):
    C["cli::" + key] = Contract("cli::" + key, ["C19"], **kw)


PARTS = ("meta", "req_head", "req_body", "res_head", "res_body")

fn("StartPos::index", ensures=["$r as nat == self.idx()"])
fn("<VpDefault for StartPos>::default", ensures=["$r.off() == 0", "$r.idx() == 0"])
fn("Parts::falsie", ensures=["!$r." + n for n in PARTS])
fn("<VpDefault for Parts>::default", ensures=["$r." + n for n in PARTS])
fn("part_flags", ensures=["$r.%s == $1.parts().%s" % (n, n) for n in PARTS])
fn("compress_flags", requires=["$1.compress_ok()"], ensures=["$r matches Ok(c) && c.kind() == $1.how()"])
fn("filter_flags",
   requires=["$1.select_ok()"],
   ensures=[
       "$r is Ok ==> !$1.many()",
       "$r matches Ok(v) ==> $1.off() is Some && v.0.off() == $1.off()->Some_0",
       "$r matches Ok(v) ==> $1.idx() is Some && v.0.idx() == $1.idx()->Some_0",
       "$r matches Ok(v) ==> $1.cnt() == Some(v.1)",
       "$r is Err ==> $1.flags_bad()",
   ])

SEL = "file_of($1@), ($2.off()), ($2.idx()), $3 as nat"
NOSEEK = "($2 is Offset && seek_fails(file_of($1@), $2.off()))"
CHINTS = [
    "?r:BarcReader.file() == file_of($$1@)",
    "?n:int <= $$3",
    "fails(?r:BarcReader.file(), ?r:BarcReader.pos(), ?k:int as nat, ($$3 - ?n:int) as nat) == fails(SEL)",
    "fails(?r:BarcReader.file(), ?r:BarcReader.pos(), ?k:int as nat, ?n:int as nat) == fails(SEL)",
]
SELH = "file_of($$1@), ($$2.off()), ($$2.idx()), $$3 as nat"
RESTS = ["sel(?r:BarcReader.file(), ?r:BarcReader.pos(), ?k:int as nat, ($$3 - ?n:int) as nat)",
         "sel(?r:BarcReader.file(), ?r:BarcReader.pos(), ?k:int as nat, ?n:int as nat)"]
fn("cat",
   ensures=[
       "$r is Ok ==> opens($1@) && !fails(%s)" % SEL,
       "$r is Ok ==> printing(old($5)@, final($5)@, sel(%s), Seq::empty(), $4.v())" % SEL,
       "$r is Err ==> !opens($1@) || %s || fails(%s) || final($5).broken()" % (NOSEEK, SEL),
   ],
   hints=[h.replace("SEL", SELH) for h in CHINTS]
   + ["printing(old($$5)@, $$5@, sel(%s), %s, $$4.v())" % (SELH, r) for r in RESTS])
fn("cp",
   ensures=[
       "$r is Ok ==> $1@ != $2@ && opens($1@) && !fails(%s)" % SEL.replace("$3", "$4").replace("$2", "$3"),
       "$r is Ok ==> copying(old($6)@, final($6)@, $2@, $5.kind(), sel(%s), Seq::empty())" % SEL.replace("$3", "$4").replace("$2", "$3"),
       "$r is Err ==> $1@ == $2@ || !opens($1@) || %s || fails(%s) || final($6).broken()" % (
           NOSEEK.replace("$2", "$3"), SEL.replace("$3", "$4").replace("$2", "$3")),
   ],
   hints=[h.replace("SEL", SELH).replace("$$3", "$$4").replace("$$2", "$$3") for h in CHINTS]
   + ["?w:BarcWriter.path() == $$2@"]
   + ["copying(old($$6)@, $$6@, $$2@, $$5.kind(), sel(%s), %s)" % (
       SELH.replace("$$3", "$$4").replace("$$2", "$$3"), r.replace("$$3", "$$4")) for r in RESTS])

SUB = "cmdline().sub()->Some_0"
CAT = SUB + ".0 == n_cat()"
CP = SUB + ".0 == n_cp()"
SM = SUB + ".1"
FILES = SM + ".values(n_file())->Some_0"
OUT = SM + ".value(n_out_file())->Some_0"
fn("run",
   requires=["cmdline().declared()"],
   ensures=[
       "$r is Ok ==> %s || %s" % (CAT, CP),
       "$r is Ok ==> !%s.flags_bad() && !%s.bad(%s)" % (SM, SM, FILES),
       "$r is Ok && %s ==> printing(old($1)@, final($1)@, %s.sels(%s), Seq::empty(), %s.parts())" % (CAT, SM, FILES, SM),
       "$r is Ok && %s ==> final($2)@ == old($2)@" % CAT,
       "$r is Ok && %s ==> copying(old($2)@, final($2)@, %s, %s.how(), %s.sels(%s), Seq::empty())" % (CP, OUT, SM, SM, FILES),
       "$r is Ok && %s ==> final($1)@ == old($1)@" % CP,
       "$r is Err ==> log_fails() || !(%s || %s) || %s.flags_bad() || final($1).broken() || final($2).broken()"
       " || (%s && %s.errs(%s, None)) || (%s && %s.errs(%s, Some(%s)))" % (CAT, CP, SM, CAT, SM, FILES, CP, SM, FILES, OUT),
   ],
   hints=[
       "printing(old($$1)@, $$1@, %s.sels(%s), %s.sels(?i:Iter@), %s.parts())" % (SM, FILES, SM, SM),
       "copying(old($$2)@, $$2@, %s, %s.how(), %s.sels(%s), %s.sels(?i:Iter@))" % (OUT, SM, SM, FILES, SM),
       "%s.bad(%s) == %s.bad(?i:Iter@)" % (SM, FILES, SM),
       "%s.errs(?i:Iter@, None) ==> %s.errs(%s, None)" % (SM, SM, FILES),
       "%s.errs(?i:Iter@, Some(%s)) ==> %s.errs(%s, Some(%s))" % (SM, OUT, SM, FILES, OUT),
       "$$1@ == old($$1)@", "$$2@ == old($$2)@",
       "?i:Iter@.len() == 0",
   ])

UNIT = Unit(
    "cli",
    files=[["cli", "barc-cli/src/main.rs"]],
    paths=P,
    options={"extern_roots": EXTERN_ROOTS + ["barc", "body_image", "piccolog", "tao_log"], "methods": METHODS,
             "emit": ["vp_str"], "macros": {"quit": "return Err(vp_flaw())"},
             "worlds": {"cat": [["vp_so", "&mut Stdout"]], "cp": [["vp_ar", "&mut Archives"]],
                        "run": [["vp_so", "&mut Stdout"], ["vp_ar", "&mut Archives"]]},
             "world_methods": {"writer": "vp_ar", "write": "vp_ar"}},
    preludes=["core.rs", "cli.rs"],
    types=["cli::StartPos", "cli::Parts"],
    spec=SPEC,
    groups=["vp_cli"],
    type_repl=[("& str", "& HpStr"), ("& 'static str", "& 'static HpStr"), ("ArgMatches < '_ >", "ArgMatches"),
               ("& dyn CompressStrategy", "& Strat"), ("Box < dyn CompressStrategy >", "Strat")],
    contracts=C,
    devirtual={"VpDefault": []},
    known=["fmt", "main", "setup_cli", "fn:setup_cli"],
)
