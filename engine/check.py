"""Decides one property on /repo's current working tree.

1. Contracts: the C sources are compiled to LLVM IR, obligations are generated for every
   function whose contract carries the property, and each is discharged by an SMT solver.
2. Bounded stand-ins: the executable form of the contracts runs natively (address
   sanitizer) over enumerated and pseudo-random cases; it covers the functions outside the
   verifier's reach and looks for a concrete failing input when an obligation fails.

exit 0: holds on everything covered; exit 1: VIOLATION line printed."""
import sys, os, time, json, subprocess, tempfile, shutil, threading, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "specs"))
REPO = "/repo"
CC = "clang-18" if shutil.which("clang-18") else "clang"
CFLAGS = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-DHAVE_CONFIG_H", "-D__axl_disable_broken_bool_def__",
          "-I" + VERIF + "/include", "-I" + REPO + "/src", "-I" + REPO + "/ns", "-I" + REPO + "/babel", "-I" + VERIF + "/harness",
          '-DVERSION="0"', '-DPACKAGE_DTD_DIR="."', '-DPACKAGE_TOP_DIR="."', "-D_GNU_SOURCE"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Harness:
    """builds the library from /repo's sources and runs the bounded cases"""

    def __init__(self, prop, names, tier, seed, work):
        self.prop, self.names, self.tier, self.seed, self.work = prop, names, tier, seed, work
        self.groups, self.fail, self.error, self.cases = [], None, None, 0
        self.wall = 0.0

    def build(self):
        srcs = sorted(glob.glob(REPO + "/src/axl*.c") + glob.glob(REPO + "/ns/axl*.c") + glob.glob(REPO + "/babel/axl*.c"))
        # other translation units of the same directories that the build files list
        for d in ("src", "ns", "babel"):
            try:
                txt = open("%s/%s/Makefile.am" % (REPO, d)).read()
            except OSError:
                continue
            for f in re.findall(r"[\w\-]+\.c\b", txt):
                p = "%s/%s/%s" % (REPO, d, f)
                if os.path.exists(p) and p not in srcs and f not in ("gen-codes.c", "gen-table.c", "read-codes.c"):
                    srcs.append(p)
        jobs = [(s, "%s/%s.o" % (self.work, re.sub(r"\W", "_", s))) for s in srcs + [VERIF + "/harness/hx.c"]]
        live = []
        for s, o in jobs:
            live.append((s, subprocess.Popen([CC] + CFLAGS + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            if len(live) >= 6:
                self._wait(live.pop(0))
        for x in live:
            self._wait(x)
        if self.error:
            return
        objs = [o for _, o in jobs]
        for h in self.names:
            r = run([CC] + CFLAGS + ["%s/harness/%s.c" % (VERIF, h)] + objs + ["-o", "%s/%s" % (self.work, h), "-Wl,--wrap=read", "-lm"])
            if r.returncode != 0:
                self.error = "harness %s does not build: %s" % (h, r.stdout[-1500:])
                return

    def _wait(self, x):
        out, _ = x[1].communicate()
        if x[1].returncode != 0 and not self.error:
            self.error = "%s does not compile: %s" % (x[0], out[-1500:])

    def go(self):
        t0 = time.time()
        try:
            self.build()
            if not self.error:
                for h in self.names:
                    self.one(h)
                    if self.fail:
                        break
        except Exception as e:
            self.error = repr(e)
        self.wall = time.time() - t0

    def one(self, h):
        budget = 60 if self.tier == "quick" else 400
        budget = max(10, budget // len(self.names))
        scratch = tempfile.mkdtemp(prefix="hx", dir=self.work)
        cmd = ["%s/%s" % (self.work, h), "--property", self.prop, "--seed", str(self.seed), "--budget", str(budget), "--scratch", scratch]
        if self.tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16", LC_ALL="C")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=budget * 2 + 60, cwd=scratch, env=env)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            self.error = "harness %s exceeded its time" % h
            return
        for l in out.split("\n"):
            m = re.match(r"GROUP property=(\S+) name=(\S+) cases=(\d+) of=(\d+) s=(\S+)", l)
            if m:
                self.groups.append({"harness": h, "name": m.group(2), "cases": int(m.group(3)), "of": int(m.group(4)), "s": float(m.group(5))})
                self.cases += int(m.group(3))
        if rc == 0 and re.search(r"^OK cases=", out, re.M):
            return
        m = re.search(r"^FAIL property=(\S+) case=(\S+) seed=(\d+)\n", out, re.M)
        case = m.group(2) if m else "?"
        i = m.start() if m else 0
        self.fail = {"harness": h, "case": case, "report": out[i:i + 20000], "stderr": err[:12000], "rc": rc}


def relevant(prop, con, o):
    """does this obligation bear on the property?"""
    labs = o.get("badlabels") or [o["label"]]
    for l in labs:
        m = re.match(r"(?:\w+: )?(C\d\d):", l)
        if m is None or m.group(1) == prop:
            return True
    return False


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    cfg = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix="axlcheck-")
    try:
        rc = decide(prop, tier, seed, cfg, work, t0, props)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, cfg, work, t0, props):
    h = Harness(prop, cfg.get("harness", []), tier, seed, work)
    th = threading.Thread(target=h.go)
    th.start()
    results, eng_error, cs = {}, None, {}
    fns = []
    if cfg.get("specs"):
        try:
            import ir, prove
            mod = ir.load()
            cs = prove.load_specs(cfg["specs"])
            fns = [f for f, c in cs.items() if prop in c.tags and not c.trusted]
            if tier == "thorough":
                import solve
                solve.QUICK = [("z3-ematch", 10)]
                solve.FULL = [("cvc5", 5), ("z3-ematch", 10), ("cvc5", 40), ("z3-seed", 30), ("z3", 30)]
            th.join()      # a failing input found by now shortens the search of the solvers
            if h.fail:
                import solve
                solve.FULL = [("cvc5", 3)]
            results = prove.prove_many(mod, cs, fns, jobs=8, budget=200 if tier == "quick" else 900, verbose=False)
        except Exception as e:
            import traceback
            eng_error = repr(e)
            sys.stderr.write(traceback.format_exc())
    th.join()

    failed, undecided, total, disch = [], [], 0, 0
    by, stime, queries, assum, inl, percon = {}, 0.0, 0, set(), set(), []
    kinds = {}
    for f in fns:
        r = results.get(f, {"fn": f, "unsupported": eng_error or "not run"})
        if "obls" not in r:
            undecided.append("%s: %s" % (f, r["unsupported"]))
            continue
        rel = [o for o in r["obls"] if relevant(prop, cs[f], o)]
        bad = [o for o in rel if o["status"] != "unsat"]
        total += len(rel)
        disch += len(rel) - len(bad)
        for o in rel:
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        for o in bad:
            failed.append((f, o))
        if r["vacuous"]:
            failed.append((f, {"label": "contract is vacuous", "name": f + "/vacuity", "why": "precondition or all returns refutable", "path": [], "text": None, "line": 0, "kind": "vacuity"}))
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
        stime += r["solver_time"]
        queries += r["queries"]
        assum |= set(r["assumptions"])
        inl |= set(r["inlined"])
        percon.append({"function": f, "obligations": len(rel), "discharged": len(rel) - len(bad), "paths": r["paths"], "loops": len(r["loops"]), "s": round(r["time"], 2)})

    for u in undecided:
        print("UNDECIDED by contracts (bounded cases only): " + u)
    for f, o in failed:
        print("obligation not discharged: %s (%s) %s" % (o["name"], o["kind"], o["why"]))
    if h.error:
        print("bounded harness: " + h.error)
    findings = known(prop)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    violation = None
    rdir = os.path.join(VERIF, "replays")
    if h.fail:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.txt" % (prop, re.sub(r"\W", "_", h.fail["case"])))
        with open(path, "w") as f:
            f.write("property %s violated: concrete failing input found by running the contracts against the code\n" % prop)
            f.write("re-run: %s/bin/replay %s %s %s %d\n\n" % (VERIF, h.fail["harness"], prop, h.fail["case"], seed))
            for fn, o in failed:
                f.write("obligation not discharged: %s (%s) path lines %s\n" % (o["name"], o["why"], o["path"]))
            f.write("\n" + h.fail["report"] + "\n\n" + h.fail["stderr"])
        print(h.fail["report"][:1500])
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
    elif failed:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-obligations.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s: obligations generated from /repo that the verifier does not discharge\n\n" % prop)
            for fn, o in failed:
                f.write("%s\n  kind %s, line %s, path through lines %s\n  solver: %s\n" % (o["name"], o["kind"], o["line"], o["path"], o["why"]))
                if o.get("text"):
                    f.write("  SMT-LIB query (unsat expected):\n" + o["text"][:200000] + "\n")
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)

    proved = bool(fns) and not cfg.get("level")
    cov = {"obligations": total, "discharged": disch,
           "checker_cmd": "bin/check %s %s" % (prop, tier),
           "trusted_base": ["clang-18 -O0 + mem2reg (C to LLVM IR)", "engine/vc.py (obligation generator)", "z3, cvc5", "assumed contracts of libc functions in engine/lib.py"] +
                           ["assumed contract: " + c for c in sorted(cs) if cs[c].trusted and prop in cs[c].tags] +
                           sorted(set("abstract contract of %s (what its callers assume; DESIGN.md says which check decides it for the real code)" % k for f in fns for k in cs[f].view)),
           "functions_under_contract": percon, "functions_inlined": sorted(inl), "functions_undecided": undecided,
           "obligations_by_kind": kinds, "discharged_by_backend": by, "solver_queries": queries, "solver_s": round(stime, 2),
           "bounded": {"what": "native execution of the contracts, address sanitizer; labelled bounded, not counted as proved", "functions": cfg.get("bounded", []), "cases": h.cases, "groups": h.groups},
           "evaluations": h.cases,
           "rule": "cases of the native harness: enumerated operation sequences/inputs by index, then pseudo-random ones from the seed; distinct by (group, index)",
           "samples": [{"group": g["name"], "cases": g["cases"]} for g in h.groups[:10]]}
    if cfg.get("level") == "exploration":
        cov["explanation"] = "bounded stand-in only"
        cov["distinct_nontrivial"] = sum(min(g["cases"], g["of"]) for g in h.groups)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
          "assumptions": sorted(assum) + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations in %d functions, %d bounded cases, %.1fs" % (prop, tier, disch, total, len(percon), h.cases, time.time() - t0))
    if violation:
        print(violation)
        return 1
    return 0


def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


main()
