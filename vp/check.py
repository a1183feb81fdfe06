"""Decide one property on /repo's working tree: `python3 -m vp.check C01`.

1. The units named for the property are extracted from the current sources
   and every obligation of theirs is handed to the verifier.
2. The same property is searched for failing inputs on the real code, to give
   failing obligations a concrete input and to stand in, labelled bounded,
   for functions the verifier could not decide on this tree.

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer."""

import concurrent.futures
import hashlib
import importlib
import json
import os
import resource
import shutil
import subprocess
import sys
import threading
import time
import traceback

from . import unit as U
from .props import PROPS

ROOT = U.ROOT
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.path.join(ROOT, "work")
EVID = os.path.join(ROOT, "evidence")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
SECS = {"quick": 15, "thorough": 300}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo(args, cwd, target, timeout=1500):
    env = dict(os.environ)
    env.update({"CARGO_TARGET_DIR": target, "RUSTUP_TOOLCHAIN": TOOLCHAIN,
                "CARGO_NET_OFFLINE": "true"})
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def build_extract():
    rc, out = cargo(["build", "--release", "--offline", "--locked"], os.path.join(ROOT, "extract"),
                    os.path.join(WORK, "extract-target"))
    if rc:
        raise U.ToolError("extractor does not build: " + out[-1500:])


def repo_hash():
    h = hashlib.sha256()
    p = subprocess.run(["git", "-C", REPO, "ls-files", "-z"], stdout=subprocess.PIPE)
    names = [n for n in p.stdout.decode().split("\0") if n]
    if not names:
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "target")]
            names += [os.path.relpath(os.path.join(d, f), REPO) for f in fs]
    for n in sorted(names):
        if not n.endswith((".rs", ".toml", ".lock")):
            continue
        h.update(n.encode() + b"\0")
        try:
            with open(os.path.join(REPO, n), "rb") as f:
                h.update(f.read())
        except OSError:
            pass
        h.update(b"\1")
    return h.hexdigest()


def fresh(target, manifest_dir, pkgs):
    """Drop build results of /repo's crates made from other sources: file
    times alone do not tell, when the tree was put in place by a copy."""
    stamp = os.path.join(target, "vp-stamp")
    cur = repo_hash()
    try:
        with open(stamp) as f:
            old = f.read()
    except OSError:
        old = None
    if old != cur and os.path.isdir(target):
        args = ["clean", "--offline"]
        for p in pkgs:
            args += ["-p", p]
        cargo(args, manifest_dir, target)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(cur)


def build_witness():
    t = os.path.join(WORK, "witness-target")
    d = os.path.join(ROOT, "witness")
    fresh(t, d, ["body-image", "barc", "body-image-futio"])
    rc, out = cargo(["build", "--offline", "--locked"], d, t)
    if rc:
        return None, out[-3000:]
    return os.path.join(t, "debug", "witness"), ""


def build_barc():
    t = os.path.join(WORK, "repo-target")
    fresh(t, REPO, ["body-image", "barc", "barc-cli"])
    rc, out = cargo(["build", "--offline", "--locked", "-p", "barc-cli", "--no-default-features",
                     "--features", "mmap,brotli"], REPO, t)
    if rc:
        return None, out[-3000:]
    return os.path.join(t, "debug", "barc"), ""


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Search:
    """Search for failing inputs on the real code."""

    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed
        self.exe = self.barc = None
        self.error = None
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.failure = None
        self.unconfirmed = []
        self.secs = 0.0
        self.dir = os.path.join(WORK, "search-" + prop)

    def prepare(self):
        self.exe, err = build_witness()
        if self.exe is None:
            self.error = "search harness does not build: " + err
            return
        self.barc = ""
        if PROPS[self.prop].get("barc"):
            self.barc, err = build_barc()
            if self.barc is None:
                self.error = "barc does not build: " + err

    def cmd(self, *a):
        return [self.exe] + list(a) + ["--dir", self.dir, "--barc", self.barc or ""]

    def confirm(self, case):
        """The failing case once more on its own."""
        try:
            p = subprocess.run(self.cmd("case", self.prop, str(case)), timeout=60, preexec_fn=limits,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return "did not finish within 60 s"
        if p.returncode == 1:
            return p.stdout.decode(errors="replace").strip().split("\n")[-1]
        if p.returncode < 0:
            return "killed by signal %d" % -p.returncode
        return None

    def run(self, secs):
        end = time.time() + secs
        n = 0
        while self.error is None and self.failure is None and (n == 0 or end - time.time() > 1):
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            state = os.path.join(self.dir, "state")
            seed = self.seed + 1000003 * (n + len(self.unconfirmed))
            left = max(1.0, end - time.time())
            t0 = time.time()
            n += 1
            try:
                p = subprocess.run(
                    self.cmd("run", self.prop, "--seed", str(seed), "--secs", "%.1f" % left,
                             "--state", state),
                    timeout=left + 120, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
            except subprocess.TimeoutExpired:
                self.error = "search did not end"
                break
            self.secs += time.time() - t0
            out = p.stdout.decode(errors="replace").strip()
            if p.returncode == 0:
                d = json.loads(out)
                self.evals += d["evaluations"]
                self.distinct += d["distinct_nontrivial"]
                self.samples = self.samples or d["samples"]
                break
            fail = None
            if p.returncode == 1:
                try:
                    fail = json.loads(out.split("\n")[-1])
                    self.evals += fail["evaluations"]
                except (ValueError, KeyError):
                    pass
            elif p.returncode < 0:
                try:
                    with open(state) as f:
                        fail = {"property": self.prop, "case": int(f.read()),
                                "failed": "the process was killed by signal %d" % -p.returncode,
                                "input": "", "evaluations": 0}
                except (OSError, ValueError):
                    pass
            if fail is None:
                self.error = "search failed: rc %d %s" % (
                    p.returncode, p.stderr.decode(errors="replace")[-1000:])
                break
            again = self.confirm(fail["case"])
            if again is None:
                self.unconfirmed.append(fail)
                log("  case %s failed once but not again: %s" % (fail["case"], fail["failed"]))
                if len(self.unconfirmed) > 5:
                    break
                continue
            fail["confirmed"] = again
            self.failure = fail
        shutil.rmtree(self.dir, ignore_errors=True)


def prove_one(n, work):
    u = importlib.import_module("vp.units." + n).UNIT
    try:
        r = U.verify(u, REPO, work, log=log)
        r.vacuity = U.vacuity(u, r, work)[0] if r.functions else []
        return n, r, None
    except (U.ToolError, U.LostAnchor) as e:
        return n, None, str(e)
    except Exception:
        return n, None, traceback.format_exc()[-1500:]


def prove(names, work):
    """Verify the units. Returns [(name, Result or None, error)]."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        return list(ex.map(lambda n: prove_one(n, work), names))


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    out.append(l[len("known: "):])
    except OSError:
        pass
    return out


def verus_version():
    try:
        p = subprocess.run([U.VERUS, "--version"], stdout=subprocess.PIPE, timeout=30)
        for l in p.stdout.decode().split("\n"):
            if "Version" in l:
                return l.split(":")[1].strip()
    except Exception:
        pass
    return "?"


def main():
    prop = sys.argv[1]
    info = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SECS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "replay-%s.json" % prop)
    for p in (replay, os.path.join(EVID, prop + ".json")):
        if os.path.exists(p):
            os.remove(p)
    work = os.path.join(WORK, "check-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    s = Search(prop, seed)

    def searcher():
        try:
            s.prepare()
            s.run(SECS[tier])
        except Exception:
            s.error = traceback.format_exc()[-1500:]

    th = threading.Thread(target=searcher)
    th.start()
    results = []
    tool = None
    try:
        if info["units"]:
            build_extract()
        results = prove(info["units"], work)
    except U.ToolError as e:
        tool = str(e)
    th.join()

    mine = lambda f: prop in f
    failures, undecided, fns, assumed, trusted = [], [], [], [], []
    obligations = discharged = solver = total = 0
    rewrites, inlined, invariants = {}, [], 0
    vacuous = []
    if tool:
        undecided.append({"fn": "*", "reason": tool})
    for n, r, err in results:
        if r is None:
            undecided.append({"fn": "unit " + n, "reason": err})
            continue
        obligations += r.obligations
        discharged += r.discharged
        solver += r.solver_ms
        total += r.total_ms
        fns += r.functions
        assumed += r.assumed
        trusted += r.trusted
        inlined += r.inlined
        invariants += len(r.invariants)
        for k, v in r.rewrites.items():
            rewrites[k] = rewrites.get(k, 0) + v
        vacuous += r.vacuity
        undecided += r.undecided
        failures += r.failures
    if vacuous:
        undecided += [{"fn": k, "reason": "contract or stand-ins contradictory (vacuity guard)"} for k in vacuous]
        fns = [k for k in fns if k not in vacuous]
    unit_mods = {n: importlib.import_module("vp.units." + n).UNIT for n in info["units"]}
    tagged = set()
    for u in unit_mods.values():
        for k, c in u.contracts.items():
            if not c.external and (prop in c.props or prop in c.safety
                                   or any(ps and prop in ps for ps, _ in c.ensures)):
                tagged.add(k)
    direct = [f for f in failures if mine(f["props"])]
    definite = [f for f in direct if f["loops"] == 0 and not f["weak"]]
    soft = [f for f in failures if f not in definite]

    open_mine = [f for f in direct if f in soft] or [u_ for u_ in undecided if u_["fn"] in tagged]
    if (definite or open_mine) and s.failure is None and s.error is None:
        # look harder for an input showing the failed obligation
        s.seed += 77
        s.run(60 if tier == "quick" else 300)

    status = 0
    line = None
    if s.failure is not None or definite:
        status = 1
        doc = {"property": prop, "how_to_replay": None,
               "failed_obligations": [{"function": f["fn"], "file": f["file"], "lines": f["lines"],
                                       "obligation": f["text"], "verifier_output": f["rendered"]}
                                      for f in direct]}
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
        if s.failure is not None:
            doc["failing_case"] = s.failure
            doc["how_to_replay"] = ("cd /verif && python3 -m vp.replay %s" % replay)
        else:
            line += " no-failing-input-found"
        with open(replay, "w") as f:
            json.dump(doc, f, indent=1)
    elif s.error is not None:
        if undecided or soft or not tagged:
            status = 2
        log(s.error)

    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)

    open_fns = sorted(set(u_["fn"] for u_ in undecided) | set(f["fn"] for f in failures))
    proved = bool(tagged) and not undecided and not failures and obligations > 0
    search = {"bounded": True, "evaluations": s.evals, "distinct_nontrivial": s.distinct,
              "rule": "cases drawn by a generator seeded with the case number; non-trivial when the case got "
                      "past its set-up to a comparison; distinct by the written-out input",
              "samples": s.samples, "seconds": round(s.secs, 1), "seed": seed, "error": s.error,
              "unreproducible": s.unconfirmed}
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "verus %s --crate-type lib (Verus %s, Z3)" % (
            ", ".join(os.path.basename(r.file) for n, r, e in results if r), verus_version()),
        "trusted_base": sorted(set(trusted)),
        "functions_under_contract": sorted(k for k in fns if k in tagged),
        "supporting_functions_verified": sorted(k for k in fns if k not in tagged),
        "contracts_assumed_here_discharged_in_other_unit": sorted(set(assumed)),
        "undecided": undecided,
        "failed": [{"function": f["fn"], "obligation": f["text"], "properties": f["props"]} for f in failures],
        "solver_ms": solver, "verifier_ms": total,
        "inferred_loop_invariants": invariants,
        "extraction_rewrites": rewrites, "functions_inlined": sorted(set(inlined)),
        "vacuity_guard": {"functions": len(fns), "failing_as_required": len(fns) - len(vacuous)},
        "bounded_search": search,
    }
    level = "proof" if proved else "other"
    if not proved:
        cov["evaluations"] = s.evals
        cov["distinct_nontrivial"] = s.distinct
        cov["explanation"] = (
            ("Not proved on this tree: %s. " % ", ".join(open_fns) if open_fns else
             "No obligation of this property is discharged deductively. ")
            + "A bounded search on the real code (%d cases, %.0f s) stands in; it found %s." % (
                s.evals, s.secs, "a failing case" if s.failure else "no failing case"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": info["assumptions"] + sorted(set(trusted)),
          "violations": 1 if status == 1 else 0, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log("%s: %s; %d/%d obligations, %d cases, %.1f s" % (
        prop, {0: "held", 1: "violated", 2: "no answer"}[status], discharged, obligations, s.evals,
        time.time() - t0))
    for u_ in undecided:
        log("  undecided: %s: %s" % (u_["fn"], u_["reason"][:300]))
    for f in failures:
        log("  failed: %s: %s %s" % (f["fn"], f["text"], f["props"]))
    if s.failure:
        log("  failing case: %s" % s.failure["failed"][:600])
    if line:
        print(line)
    sys.stdout.flush()
    sys.exit(status)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
