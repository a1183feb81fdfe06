"""Assembly of one verification unit: extracted code + contracts + stand-ins,
verification with Verus, and inference of loop invariants from candidates."""

import itertools
import json
import os
import re
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
VERUS = os.environ.get("VP_VERUS", "verus")


class LostAnchor(Exception):
    pass


class ToolError(Exception):
    pass


def top_split(t, sep):
    """Split at a separator outside of any brackets."""
    out, depth, cur, i = [], 0, 0, 0
    while i < len(t):
        c = t[i]
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif depth == 0 and t.startswith(sep, i):
            out.append(t[cur:i].strip())
            i += len(sep)
            cur = i
            continue
        i += 1
    out.append(t[cur:].strip())
    return out


def split_clause(props, t):
    """One clause per conjunct, which names and proves more precisely."""
    if "|" in t.replace("||", "") or "match " in t or len(top_split(t, "||")) > 1 \
            or len(top_split(t, "<==>")) > 1:
        return [(props, t)]
    parts = top_split(t, "==>")
    if len(parts) > 2:
        return [(props, t)]
    cj = top_split(parts[-1], "&&")
    if any(" matches " in c for c in cj):
        return [(props, t)]
    if len(parts) == 2:
        return [(props, "%s ==> %s" % (parts[0], c)) for c in cj]
    return [(props, c) for c in cj]


class Contract:
    def __init__(self, key, props, requires=(), ensures=(), start="", end="",
                 hints=(), params=None, attrs="", external=False, safety=None,
                 sig=None, note=None, repl=()):
        self.key = key
        self.props = list(props)
        self.requires = [self._clause(c) for c in requires]
        self.ensures = [x for c in ensures for x in split_clause(*self._clause(c))]
        self.start = start
        self.end = end
        self.hints = list(hints)
        self.params = params
        self.attrs = attrs
        # external: contract assumed here, discharged in another unit
        self.external = external
        # properties to blame for panics/overflow/precondition failures
        self.safety = list(safety) if safety is not None else list(props)
        self.sig = sig
        self.note = note
        # text replacements in the signature
        self.repl = list(repl)

    def _clause(self, c):
        if isinstance(c, tuple):
            return (list(c[0]), c[1])
        return (None, c)


class Unit:
    """Description of a unit; see units/*.py"""

    def __init__(self, name, **kw):
        self.name = name
        self.features = kw.get("features", ["mmap", "brotli"])
        self.files = kw["files"]
        self.paths = kw["paths"]
        self.options = kw.get("options", {})
        self.preludes = kw["preludes"]
        self.types = kw.get("types", [])
        self.consts = kw.get("consts", [])
        self.spec = kw.get("spec", "")
        self.impl_specs = kw.get("impl_specs", {})
        self.contracts = kw["contracts"]
        self.known = set(kw.get("known", []))
        self.groups = kw.get("groups", [])
        self.skip_derive = kw.get("skip_derive", [])
        self.derive = kw.get("derive", {})
        self.hints = kw.get("hints", [])
        self.rlimit = kw.get("rlimit", 60)
        self.type_repl = kw.get("type_repl", [])
        # traits whose impls become inherent impls, with the implementing
        # types that get copies of the provided methods
        self.devirtual = kw.get("devirtual", {})


def run_extract(unit, repo, work, inline):
    conf = dict(unit.options)
    conf.update({"features": unit.features, "files": unit.files,
                 "paths": unit.paths, "inline": sorted(inline)})
    cpath = os.path.join(work, unit.name + ".conf.json")
    with open(cpath, "w") as f:
        json.dump(conf, f)
    exe = os.path.join(ROOT, "work", "extract-target", "release", "extract")
    p = subprocess.run([exe, cpath, repo], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise ToolError("extract: " + p.stderr.decode()[-2000:])
    return json.loads(p.stdout)


INT_TYPES = ("u8", "u16", "u32", "u64", "usize", "i32", "i64")


def guess_type(v):
    """A rough type for a visible variable, or None."""
    ty = v.get("ty")
    if ty:
        t = ty.replace("& mut ", "").replace("& ", "").strip()
        if t in INT_TYPES:
            return "int"
        return re.split(r"[ <]", t)[0] if t else None
    init = v.get("init") or ""
    if init.startswith("PAT "):
        return None
    if re.search(r"\. (vp_(into_)?iter|split|chunks) \([^()]*\)$", init.strip()) or v["name"].startswith("vp_it"):
        return "Iter"
    m = re.match(r"^(\w+) :: \w+ \(", init)
    if m and m.group(1)[0].isupper():
        return m.group(1)
    if re.match(r"^\d+$", init) or re.search(r"as (u64|usize|u16|u32)$", init):
        return "int"
    if re.match(r"^(true|false)$", init):
        return "bool"
    return None


class Candidate:
    __slots__ = ("fn", "loop", "text", "kind", "pre")

    def __init__(self, fn, loop, text, kind, pre):
        self.fn, self.loop, self.text, self.kind, self.pre = fn, loop, text, kind, pre


class Result:
    def __init__(self):
        self.functions = []        # verified functions with contract
        self.assumed = []          # external (verified elsewhere)
        self.failures = []         # dicts fn, props, kind, text, loops
        self.undecided = []        # dicts fn, reason
        self.obligations = 0
        self.discharged = 0
        self.solver_ms = 0
        self.total_ms = 0
        self.trusted = []
        self.rewrites = {}
        self.log = ""
        self.iterations = 0
        self.invariants = []
        self.vacuity = None
        self.file = None


class Assembler:
    def __init__(self, unit, repo, work):
        self.unit = unit
        self.repo = repo
        self.work = work
        self.lines = []
        self.linemap = {}

    # -- extraction ---------------------------------------------------------

    def load(self):
        u = self.unit
        inline = set(u.options.get("inline", []))
        first = True
        while True:
            data = run_extract(u, self.repo, self.work, inline)
            self.errors = data["errors"]
            self.items = data["items"]
            self.fns = {}
            for i in self.items:
                if i["kind"] == "fn":
                    self.fns[i["key"]] = i
            self.devirtualise()
            known = set(u.known)
            modules = set(f[0] for f in u.files)
            new = set()
            contract_names = set(k.split("::")[-1] for k in u.contracts)
            for k, i in self.fns.items():
                if k in u.contracts:
                    continue
                n = i["name"]
                if n in known or n in contract_names or n in inline:
                    # a function outside of impls, named as a method
                    if not i["impl"] and not i.get("trait_default") and "fn:" + n not in known and not any(
                            c.split("::")[-1] == n and "::".join(c.split("::")[:-1]) in modules for c in u.contracts):
                        new.add("fn:" + n)
                    continue
                new.add(n)
            called = set()
            for k in u.contracts:
                i = self.fns.get(k)
                if i:
                    for c in i["calls"]:
                        called.add(c.split("::")[-1])
                        if "::" not in c:
                            called.add("fn:" + c)
                    called.update(i["method_calls"])
            more = (new & called) - inline
            if not more:
                break
            inline |= more
        self.inlined = inline
        return self

    def devirtualise(self):
        """Give each implementor its copy of the provided trait methods."""
        for tr, types in self.unit.devirtual.items():
            dfl = [i for i in self.items if i["kind"] == "fn" and i.get("trait_default") == tr]
            for ty in types:
                own = [i for i in self.items if i["kind"] == "fn" and i["impl"]
                       and (i["impl"]["trait"] or "") == tr
                       and re.split(r"[ <]", i["impl"]["self_ty"])[0] == ty]
                for d in dfl:
                    if not own or any(o["name"] == d["name"] for o in own):
                        continue
                    c = dict(d)
                    c["impl"] = dict(own[0]["impl"])
                    c["key"] = own[0]["key"].rsplit("::", 1)[0] + "::" + d["name"]
                    self.fns[c["key"]] = c

    # -- emission -----------------------------------------------------------

    def emit(self, text, tag=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if tag is not None:
                self.linemap[len(self.lines)] = tag

    def sub(self, text, item, local=False):
        """Substitute positional parameter placeholders: in contracts the
        parameter; in hints the local of that name, `$$n` being the
        parameter."""
        names = [p["name"] for p in item["inputs"] if not p["self"]]
        pars = [self.pname(p) for p in item["inputs"] if not p["self"]]
        text = re.sub(r"\$\$(\d+)", lambda m: pars[int(m.group(1)) - 1], text)
        if not local:
            names = pars

        def rep(m):
            n = int(m.group(1))
            if n == 0 or n > len(names):
                raise LostAnchor("%s: parameter $%d" % (item["key"], n))
            return names[n - 1]
        gens = [g["name"] for g in item["generics"] if g["kind"] == "type"]

        def repg(m):
            n = int(m.group(1))
            if n > len(gens):
                raise LostAnchor("%s: type parameter $T%d" % (item["key"], n))
            return gens[n - 1]
        text = re.sub(r"\$T(\d+)", repg, text)
        if "$G" in text:
            # type parameters of the impl
            ig = [g.strip().split(" ")[0] for g in (item["impl"] or {}).get("generics", "").split(",")]
            ig = [g for g in ig if not g.startswith("'")]
            text = re.sub(r"\$G(\d+)", lambda m: ig[int(m.group(1)) - 1], text)
        text = text.replace("$r", "vp_r")
        return re.sub(r"\$(\d+)", rep, text)

    @staticmethod
    def pname(p):
        """A reassigned reference parameter gets a name of its own."""
        if p["mut"] and p["ty"].startswith("& mut"):
            return "vp_p_" + p["name"]
        return p["name"]

    def type_item(self, i, types):
        u = self.unit
        g = "<%s>" % i["generics"] if i["generics"] else ""
        w = " where %s" % i["where"] if i["where"] else ""
        der = u.derive.get(i["name"], "")
        name = i["name"]

        def ty(t):
            for a, b in u.type_repl:
                t = t.replace(a, b)
            return t
        g, w = ty(g), ty(w)
        if i["kind"] == "struct":
            if i["unit"]:
                body = ";"
            elif i["tuple"]:
                body = "(%s);" % ", ".join("pub " + ty(f["ty"]) for f in i["fields"])
            else:
                body = " {\n%s\n}" % "\n".join(
                    "    pub %s: %s," % (f["name"], ty(f["ty"])) for f in i["fields"])
            self.emit("%s\npub struct %s%s%s%s" % (der, name, g, w, body), ("type", name, None))
        else:
            vs = []
            for v in i["variants"]:
                if not v["fields"]:
                    vs.append("    %s," % v["name"])
                elif v["fields"][0]["name"] is None:
                    vs.append("    %s(%s)," % (v["name"], ", ".join(ty(f["ty"]) for f in v["fields"])))
                else:
                    vs.append("    %s { %s }," % (v["name"], ", ".join(
                        "%s: %s" % (f["name"], ty(f["ty"])) for f in v["fields"])))
            self.emit("%s\npub enum %s%s%s {\n%s\n}" % (der, name, g, w, "\n".join(vs)), ("type", name, None))

    def candidates(self, item, c):
        """Instantiate the invariant candidates for all loops of a function."""
        out = []
        for lp in item["loops"]:
            vars_ = lp["vars"]
            hints = list(c.hints) + list(self.unit.hints)
            seen = set()
            for h in hints:
                kind = "both"
                if isinstance(h, tuple):
                    kind, h = h
                h = self.sub(h, item, True)
                holes = sorted(set(re.findall(r"\?(\w+)(?::(\w+))?", h)))
                names = {}
                for n, t in holes:
                    if n not in names or t:
                        names[n] = t
                opts = []
                for n, t in sorted(names.items()):
                    o = []
                    for v in vars_:
                        gt = guess_type(v)
                        if v["name"] == "self" and t != "Self":
                            continue
                        if v["name"].startswith("vp_brk"):
                            continue
                        if t and gt and gt != t:
                            continue
                        if t and not gt and t in ("Iter", "int"):
                            if t == "Iter":
                                continue
                        o.append(v)
                    opts.append(o)
                for combo in itertools.product(*opts):
                    if len(set(v["name"] for v in combo)) != len(combo):
                        continue
                    text = h
                    pre = []
                    ok = True
                    for (n, t), v in zip(sorted(names.items()), combo):
                        if "pre(?" + n in text:
                            if v["from"] == "param" and not v["mut"]:
                                rep = "old(%s)" % v["name"] if (v["ty"] or "").startswith("& mut") else v["name"]
                            else:
                                rep = "vp_pre%d_%s" % (lp["id"], v["name"])
                                pre.append(v["name"])
                            text = re.sub(r"pre\(\?%s(:\w+)?\)" % n, rep, text)
                        text = re.sub(r"\?%s(:\w+)?\b" % n, v["name"], text)
                    if not ok or (kind, text) in seen:
                        continue
                    seen.add((kind, text))
                    for k in (("inv", "ens") if kind == "both" else (kind,)):
                        out.append(Candidate(item["key"], lp["id"], text, k, tuple(pre)))
        return out

    def restate(self, key, cands):
        """Turn assumed extensional equalities into equalities."""
        for cd in cands:
            if " == " in cd.text and "==>" not in cd.text and ".len() ==" not in cd.text:
                self.emit("proof { assert(%s); }" % cd.text, ("cand", key, cd))

    def fn_text(self, item, c, cands, stub=False, vac=False):
        """Emit one function with its contract."""
        key = item["key"]
        name = item["name"]
        gens = ", ".join(g["text"] for g in item["generics"])
        ins = []
        shadows = []
        for p in item["inputs"]:
            if p["self"]:
                t = p["text"]
                if t.replace(" ", "") == "mutself":
                    t = "self"
                    shadows.append("let ghost vp_old_self = self; let mut vp_self = self;")
                ins.append(t)
            else:
                nm = p["name"]
                if not re.match(r"^\w+$", nm):
                    raise LostAnchor("%s: parameter pattern" % key)
                ins.append("%s: %s" % (self.pname(p), p["ty"]))
                if p["mut"]:
                    shadows.append("let mut %s = %s;" % (nm, self.pname(p)))
        out = item["output"]
        where = item["where"]
        is_trait = item["impl"] and item["impl"]["trait"] and item["impl"]["trait"] not in self.unit.devirtual
        vis = "" if is_trait else "pub "
        if c.attrs and not c.attrs.startswith("//@"):
            self.emit(c.attrs, ("attr", key, None))
        if stub or c.external:
            self.emit("#[verifier::external_body]", ("attr", key, None))
        else:
            self.emit("#[verifier::spinoff_prover]\n#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::auto_ext_equal(assert, assert_by, ensures, invariant)]",
                      ("attr", key, None))
        head = "%sfn %s%s(%s)%s%s" % (
            vis, name, "<%s>" % gens if gens else "", ", ".join(ins),
            " -> (vp_r: %s)" % out if out else "",
            "\n    where %s" % where if where else "")
        for a, b in c.repl + self.unit.type_repl:
            head = head.replace(a, b)
        self.emit(head, ("sig", key, None))
        if c.requires and not is_trait:
            self.emit("    requires", ("sig", key, None))
            for n, (ps, t) in enumerate(c.requires):
                self.emit("        %s," % self.sub(t, item), ("requires", key, n))
        if c.ensures:
            self.emit("    ensures", ("sig", key, None))
            for n, (ps, t) in enumerate(c.ensures):
                self.emit("        %s," % self.sub(t, item), ("ensures", key, n))
        if stub or c.external:
            self.emit("{ unimplemented!() }", ("body", key, None))
            return
        self.emit("{", ("body", key, None))
        for s in shadows:
            self.emit("    " + s, ("body", key, None))
        if c.start:
            self.emit("    proof { %s }" % self.sub(c.start, item), ("proof", key, None))
        if vac:
            self.emit("    proof { assert(false); }", ("vac", key, None))
        body = item["body"].strip()
        for a, b in self.unit.type_repl:
            body = body.replace(a, b)
        assert body.startswith("{") and body.endswith("}")
        body = body[1:-1]
        if any(p["self"] and p["text"].replace(" ", "") == "mutself" for p in item["inputs"]):
            body = re.sub(r"\bself\b", "vp_self", body)
        for n, e in self.byte_consts.items():
            body = re.sub(r"(?<![\w.])%s\b(?! ::)" % n, lambda m: e, body)
        if "//@panics" in c.attrs:
            # the contract is about normal return: a panic is a rejection
            body = body.replace("vp_assert (", "vp_check (").replace("vp_panic (", "vp_abort (")
        by_loop = {}
        for cd in cands:
            if cd.fn == key:
                by_loop.setdefault(cd.loop, []).append(cd)
        toks = re.split(r"(__vp_pre ! \(\d+ ?\) ;|__vp_post ! \(\d+ ?\) ;|\{\s*__vp_loop ! \(\d+ ?\) ;)", body)
        for t in toks:
            m = re.match(r"__vp_pre ! \((\d+) ?\) ;", t)
            if m:
                lid = int(m.group(1))
                pres = sorted(set(p for cd in by_loop.get(lid, []) for p in cd.pre))
                if key in self.cut:
                    self.emit("proof { assume(false); }", ("body", key, None))
                for p in pres:
                    self.emit("let ghost vp_pre%d_%s = %s;" % (lid, p, p), ("pre", key, (lid, p)))
                continue
            m = re.match(r"\{\s*__vp_loop ! \((\d+) ?\) ;", t)
            if m:
                lid = int(m.group(1))
                cs = by_loop.get(lid, [])
                inv = [cd for cd in cs if cd.kind == "inv"]
                ens = [cd for cd in cs if cd.kind == "ens"]
                if inv:
                    self.emit("    invariant_except_break", ("body", key, None))
                    for cd in inv:
                        self.emit("        %s," % cd.text, ("cand", key, cd))
                if ens:
                    self.emit("    ensures", ("body", key, None))
                    for cd in ens:
                        self.emit("        %s," % cd.text, ("cand", key, cd))
                self.emit("{", ("body", key, None))
                self.restate(key, inv)
                continue
            m = re.match(r"__vp_post ! \((\d+) ?\) ;", t)
            if m:
                self.restate(key, [cd for cd in by_loop.get(int(m.group(1)), []) if cd.kind == "ens"])
                continue
            self.emit(t, ("body", key, None))
        self.emit("}", ("body", key, None))

    def build(self, cands, stubs, vac=None, cut=()):
        u = self.unit
        self.cut = cut
        self.lines = []
        self.linemap = {}
        self.emit("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_braces,\n"
                  "    unused_parens, unused_assignments, non_snake_case, unreachable_code, unused_must_use)]\n"
                  "use vstd::prelude::*;\nverus! {\npub mod std_in {\nuse vstd::prelude::*;\nuse vstd::seq::*;\nglobal size_of usize == 8;\n",
                  ("prelude", None, None))
        for p in u.preludes:
            with open(os.path.join(HERE, "prelude", p)) as f:
                self.emit(f.read(), ("prelude", p, None))
        self.emit("} // std_in\npub mod code {\nuse vstd::prelude::*;\nuse vstd::seq::*;\n"
                  "use super::std_in::*;\n", ("prelude", None, None))
        by = {}
        for i in self.items:
            if i["kind"] in ("struct", "enum"):
                by.setdefault(i["key"], i)
        for t in u.types:
            if t not in by:
                raise LostAnchor("type " + t)
            self.type_item(by[t], u.types)
        # aliases used by them or by the functions
        given = "\n".join(self.lines) + u.spec
        used = json.dumps([by[t] for t in u.types] + [i for i in self.items if i["key"] in u.contracts])
        for i in self.items:
            n = i.get("name")
            if (i["kind"] == "alias" and re.search(r"\b%s\b" % n, used)
                    and not re.search(r"\b(struct|enum|type|trait) %s\b" % n, given)):
                t = i["ty"]
                for a, b in u.type_repl:
                    t = t.replace(a, b)
                g = "<%s>" % re.sub(r" ?:[^,]*", "", i["generics"]) if i["generics"] else ""
                self.emit("pub type %s%s = %s;" % (n, g, t), ("type", n, None))
        lits = {}
        self.byte_consts = {}
        consts = {i["key"]: i for i in self.items if i["kind"] == "const"}
        for k in u.consts:
            if k not in consts:
                raise LostAnchor("const " + k)
            i = consts[k]
            for n, b in i["literals"]:
                lits[n] = b
            if i["ty"].replace(" ", "") in ("&[u8]", "&'static[u8]", "&str", "&'staticstr"):
                self.byte_consts[i["name"]] = i["expr"]
                continue
            self.emit("pub const %s: %s = %s;" % (i["name"], i["ty"], i["expr"]), ("const", k, None))
        for k, c in u.contracts.items():
            i = self.fns.get(k)
            if i and not (c.external or k in stubs):
                for n, b in i["literals"]:
                    lits[n] = b
        for n, b in sorted(lits.items()):
            if n.startswith("vp_lit_"):
                sq = "seq![%s]" % ", ".join("%du8" % x for x in b) if b else "Seq::<u8>::empty()"
                self.emit("#[verifier::external_body]\npub fn %s() -> (r: &'static [u8]) ensures r@ == %s "
                          "{ unimplemented!() }" % (n, sq), ("prelude", "literals", None))
            elif n.startswith("vp_str_") and "vp_str" in u.options.get("emit", []):
                sq = "seq![%s]" % ", ".join("%du8" % x for x in b) if b else "Seq::<u8>::empty()"
                self.emit("#[verifier::external_body]\npub fn %s() -> (r: &'static HpStr) ensures r@ == %s "
                          "{ unimplemented!() }" % (n, sq), ("prelude", "literals", None))
            elif n.startswith("vp_str_"):
                self.emit("#[verifier::external_body]\npub fn %s() -> (r: &'static str) "
                          "{ unimplemented!() }" % n, ("prelude", "literals", None))
        self.emit(u.spec, ("prelude", "spec", None))
        if u.groups:
            self.emit("broadcast use {%s};" % ", ".join(u.groups), ("prelude", "groups", None))
        # group functions by impl header
        order = []
        groups = {}
        for k, c in u.contracts.items():
            i = self.fns.get(k)
            if i is None:
                continue
            if i["impl"]:
                im = i["impl"]
                h = "impl%s %s%s%s" % (
                    "<%s>" % im["generics"] if im["generics"] else "",
                    im["trait"] + " for " if im["trait"] and im["trait"] not in u.devirtual else "", im["self_ty"],
                    " where %s" % im["where"] if im["where"] else "")
                for a, b in u.type_repl:
                    h = h.replace(a, b)
            else:
                h = None
            if h not in groups:
                groups[h] = []
                order.append(h)
            groups[h].append((i, c))
        for h in order:
            if h:
                self.emit(h + " {", ("impl", h, None))
                for pat, text in u.impl_specs.items():
                    if re.search(pat, h):
                        self.emit(text, ("prelude", "impl spec", None))
            for i, c in groups[h]:
                self.fn_text(i, c, cands, stub=i["key"] in stubs,
                             vac=(vac is not None and i["key"] in vac))
            if h:
                self.emit("}", ("impl", h, None))
        self.emit("} // code\n} // verus!", ("prelude", None, None))
        return "\n".join(self.lines) + "\n"


# std functions with a full specification in vstd
STD_OK = set("""if match while for loop return in as let move else matches
    as_mut as_ref is_none is_some is_ok is_err ok err ok_or unwrap unwrap_or expect take replace swap
    checked_sub checked_add checked_mul saturating_add saturating_sub wrapping_add wrapping_sub
    len push pop clear with_capacity is_empty new clone""".split())


def unspecified_calls(asm, fn):
    """Names called in the translated body that have neither a contract nor a
    stand-in: the verifier knows little or nothing about their results, so that
    a failing proof says nothing about the code."""
    if not hasattr(asm, "defs"):
        asm.defs = set(re.findall(r"\bfn\s+(\w+)", "\n".join(asm.lines)))
    got = set()
    for ln, t in asm.linemap.items():
        if t[0] == "body" and t[1] == fn:
            got |= set(re.findall(r"\b([a-z_]\w*)\s*(?:::\s*<[^()]*>\s*)?\(", asm.lines[ln - 1]))
    return sorted(got - asm.defs - STD_OK)


def run_verus(path, rlimit, work, jobs=8, extra=()):
    cmd = [VERUS, path, "--crate-type", "lib", "--output-json", "--time",
           "--multiple-errors", "40", "--rlimit", str(rlimit),
           "--num-threads", str(jobs)] + list(extra) + ["--error-format=json"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=180, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("verus timeout")
    diags = []
    raw = p.stderr.decode(errors="replace")
    for l in raw.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            diags.append(d)
    out = {}
    try:
        out = json.loads(p.stdout.decode(errors="replace"))
    except ValueError:
        pass
    return p.returncode, out, diags, raw, time.time() - t0


def spans(d):
    s = list(d.get("spans", []))
    for ch in d.get("children", []):
        s.extend(ch.get("spans", []))
    return s


def verify(unit, repo, work, only=None, log=None):
    """Verify a unit. Returns a Result."""
    os.makedirs(work, exist_ok=True)
    res = Result()
    asm = Assembler(unit, repo, work).load()
    if asm.errors:
        raise ToolError("; ".join(asm.errors))
    stubs = {}
    cands = []
    for k, c in unit.contracts.items():
        i = asm.fns.get(k)
        if i is None:
            res.undecided.append({"fn": k, "reason": "not found in the sources"})
            continue
        if c.external:
            continue
        if i["unsupported"]:
            stubs[k] = "outside the extractable subset: " + ", ".join(i["unsupported"][:6])
            continue
        try:
            cands.extend(asm.candidates(i, c))
            for _, t in c.requires + c.ensures:
                asm.sub(t, i)
        except LostAnchor as e:
            stubs[k] = "lost anchor: " + str(e)
    if unit.contracts and all(asm.fns.get(k) is None for k in unit.contracts):
        raise LostAnchor("no function of the unit found")
    path = os.path.join(work, unit.name + ".rs")
    last = None
    for it in range(60):
        res.iterations = it + 1
        for k in list(unit.contracts):
            i = asm.fns.get(k)
            if i is None or k in stubs:
                continue
        text = asm.build(cands, stubs)
        with open(path, "w") as f:
            f.write(text)
        rc, out, diags, raw, dt = run_verus(path, unit.rlimit, work)
        res.total_ms += int(dt * 1000)
        errs = [d for d in diags if d.get("level") == "error"]
        vr = (out.get("verification-results") or {})
        compiled = (bool(vr) and not vr.get("encountered-vir-error", False)
                    and vr.get("verified", 0) + vr.get("errors", 0) > 0
                    and not any((d.get("code") or {}).get("code") for d in errs))
        if log:
            log("  %s: round %d, %d candidates, %d errors, %.1fs" % (
                unit.name, it, len(cands), len(errs), dt))
        drop = set()
        new_stub = {}
        other = []
        for d in errs:
            msg = d.get("message", "")
            if msg.startswith("aborting due to"):
                continue
            hit = False
            sp = spans(d)
            tags = []
            for s in sp:
                for ln in range(s["line_start"], s["line_end"] + 1):
                    t = asm.linemap.get(ln)
                    if t:
                        tags.append((t, s))
            for t, s in tags:
                if t[0] == "cand" and (s.get("is_primary") or "invariant" in msg or "ensures" in msg):
                    drop.add(id(t[2]))
                    hit = True
            if not hit:
                for t, s in tags:
                    if t[0] == "pre" and s.get("is_primary"):
                        lid, var = t[2]
                        for cd in cands:
                            if cd.fn == t[1] and cd.loop == lid and var in cd.pre:
                                drop.add(id(cd))
                        hit = True
            if hit:
                continue
            other.append((d, tags))
        if drop:
            cands = [c for c in cands if id(c) not in drop]
            last = None
            continue
        if not compiled:
            # translation failure: stub the functions concerned
            for d, tags in other:
                ks = [t[1] for t, s in tags if t[0] in ("body", "sig", "attr", "ensures", "requires")
                      and s.get("is_primary") and t[1] in unit.contracts]
                if not ks:
                    ks = [t[1] for t, s in tags if t[1] in unit.contracts]
                if ks:
                    k = ks[0]
                    if k in stubs or unit.contracts[k].external:
                        raise ToolError("%s: contract does not compile: %s" % (k, d.get("rendered", "")[:1500]))
                    new_stub[k] = "does not translate: " + d.get("message", "")[:300]
                else:
                    raise ToolError("unit %s: %s" % (unit.name, (d.get("rendered") or d.get("message"))[:2000]))
            if not new_stub:
                raise ToolError("unit %s: verifier failed: %s" % (unit.name, raw[-2000:]))
            stubs.update(new_stub)
            if log:
                for k, w in new_stub.items():
                    log("    stub %s: %s" % (k, w))
            cands = [c for c in cands if c.fn not in new_stub]
            continue
        # an obligation counts as failed only if no solver seed discharges it
        for seed in (1, 2, 3):
            if not other:
                break
            rc2, out2, diags2, raw2, dt2 = run_verus(
                path, unit.rlimit, work, extra=["--smt-option", "smt.random_seed=%d" % seed])
            res.total_ms += int(dt2 * 1000)
            if log:
                log("  %s: seed %d, %.1fs" % (unit.name, seed, dt2))
            vr2 = (out2.get("verification-results") or {})
            if not vr2 or vr2.get("encountered-vir-error"):
                break
            bad2 = set()
            for d in diags2:
                if d.get("level") == "error":
                    for s in spans(d):
                        for ln in range(s["line_start"], s["line_end"] + 1):
                            t = asm.linemap.get(ln)
                            if t and t[0] in ("body", "proof", "cand", "ensures") and t[1] in unit.contracts:
                                bad2.add(t[1])
            keep = []
            for d, tags in other:
                fns = set(t[1] for t, s in tags if t[1] in unit.contracts)
                if not fns or fns & bad2:
                    keep.append((d, tags))
            if len(keep) < len(other) and vr2.get("verified", 0) > vr.get("verified", 0):
                out, raw = out2, raw2
                vr = vr2
            other = keep
        last = (out, other, raw)
        break
    if last is None:
        raise ToolError("invariant inference did not converge")
    out, other, raw = last
    vr = out["verification-results"]
    res.obligations = vr["verified"] + vr["errors"]
    try:
        res.solver_ms = out["times-ms"]["smt"]["smt-run"]
    except (KeyError, TypeError):
        res.solver_ms = 0
    failed = set()
    for d, tags in other:
        msg = d.get("message", "")
        fn = None
        clause = None
        where = None
        for t, s in tags:
            if t[0] in ("body", "proof") and t[1] in unit.contracts:
                fn = t[1]
                if s.get("is_primary") or where is None:
                    where = s["line_start"]
        for t, s in tags:
            if t[0] == "ensures":
                clause = (t[1], t[2])
                if fn is None:
                    fn = t[1]
        if fn is None:
            for t, s in tags:
                if t[1] in unit.contracts:
                    fn = t[1]
        if fn is None:
            raise ToolError("unit %s: proof of the specification library failed: %s" % (
                unit.name, d.get("rendered", msg)[:2000]))
        c = unit.contracts[fn]
        if "rlimit" in msg or "Resource limit" in msg or "resource limit" in msg:
            res.undecided.append({"fn": fn, "reason": "resource limit"})
            failed.add(fn)
            continue
        props = c.safety
        text = msg
        if "postcondition" in msg and clause and clause[0] == fn:
            ps, ct = c.ensures[clause[1]]
            props = ps if ps is not None else c.props
            text = "postcondition: " + ct
        elif "postcondition" in msg:
            props = c.props
        lp = asm.fns[fn]["loops"]
        weak = unspecified_calls(asm, fn)
        if "fn vp_unwrap" in d.get("rendered", "") and "C10" not in (props or []):
            # a panic; whether it can happen in use is left to the search
            weak = weak + ["unwrap"]
        res.failures.append({
            "weak": weak,
            "fn": fn, "props": props, "message": msg, "text": text,
            "loops": len(lp), "rendered": d.get("rendered", msg)[:3000],
            "file": asm.fns[fn]["file"], "lines": asm.fns[fn]["lines"],
        })
        failed.add(fn)
    loop_free(unit, asm, cands, stubs, res, work)
    res.discharged = res.obligations - len(failed)
    for k, why in stubs.items():
        res.undecided.append({"fn": k, "reason": why})
        failed.add(k)
    for k, c in unit.contracts.items():
        i = asm.fns.get(k)
        if i is None:
            continue
        if c.external:
            res.assumed.append(k)
            continue
        if k not in failed:
            res.functions.append(k)
        for r, n in i["rewrites"].items():
            res.rewrites[r] = res.rewrites.get(r, 0) + n
    res.invariants = sorted(set((c.fn, c.loop, c.kind, c.text) for c in cands))
    res.cands = cands
    res.stubs = stubs
    res.file = path
    res.asm = asm
    res.inlined = sorted(asm.inlined)
    text = "\n".join(asm.lines)
    for m in re.finditer(r"(external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:fn|struct) \w+|"
                         r"(?:broadcast )?axiom fn \w+|uninterp spec fn \w+|assume_specification[^\n]*|"
                         r"admit\(\)|assume\([^)]*\))", text):
        res.trusted.append(re.sub(r"\s+", " ", m.group(1).replace("external_body]", "").strip()))
    return res


def loop_free(unit, asm, cands, stubs, res, work):
    """Failures that stay when no path through a loop is looked at do not
    hinge on a loop invariant."""
    cut = set(f["fn"] for f in res.failures if f["loops"])
    if not cut:
        return
    path = os.path.join(work, unit.name + "_cut.rs")
    lines, linemap = asm.lines, asm.linemap
    asm.build(cands, stubs, cut=cut)
    with open(path, "w") as f:
        f.write("\n".join(asm.lines))
    rc, out, diags, raw, dt = run_verus(path, unit.rlimit, work)
    res.total_ms += int(dt * 1000)
    left = set()
    vr = out.get("verification-results") or {}
    if vr and not vr.get("encountered-vir-error"):
        for d in diags:
            msg = d.get("message", "")
            if d.get("level") != "error" or "imit" in msg:
                continue
            fn = clause = None
            for s in spans(d):
                for ln in range(s["line_start"], s["line_end"] + 1):
                    t = asm.linemap.get(ln)
                    if t and t[0] in ("body", "proof") and t[1] in cut:
                        fn = t[1]
                    elif t and t[0] == "ensures":
                        clause = (t[1], t[2])
            if fn is None and clause:
                fn = clause[0]
            if fn in cut:
                text = msg
                if "postcondition" in msg and clause and clause[0] == fn:
                    text = "postcondition: " + unit.contracts[fn].ensures[clause[1]][1]
                left.add((fn, text))
    asm.lines, asm.linemap = lines, linemap
    for f in res.failures:
        if (f["fn"], f["text"]) in left:
            f["loops"] = 0


def vacuity(unit, res, work):
    """Each verified function, with `assert(false)` added at its start, must
    fail: otherwise its precondition or the stand-ins are contradictory."""
    asm = res.asm
    names = [k for k in res.functions]
    text = asm.build(res.cands, res.stubs, vac=set(names))
    path = os.path.join(work, unit.name + "_vac.rs")
    with open(path, "w") as f:
        f.write(text)
    rc, out, diags, raw, dt = run_verus(path, unit.rlimit, work)
    hit = set()
    for d in diags:
        if d.get("level") != "error":
            continue
        for s in spans(d):
            t = asm.linemap.get(s["line_start"])
            if t and t[0] == "vac":
                hit.add(t[1])
    missing = [k for k in names if k not in hit]
    return missing, dt
