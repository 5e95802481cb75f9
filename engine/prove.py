"""Drives the VC generator: Houdini over loop candidates, then the full set of obligations."""
import sys, os, time, hashlib, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "specs"))
import z3
import vc, ir, lib, solve
from vc import Unsupported


class Result:
    hint_used = False


def group_texts(eng, obls):
    """o.text for every obligation, building the text of shared facts once"""
    groups = {}
    for o in obls:
        groups.setdefault(tuple(f.get_id() for f in o.facts), []).append(o)
    for os_ in groups.values():
        for o, t in zip(os_, solve.smt2_many(eng.background, os_[0].facts, [o.goal for o in os_])):
            o.text = t


def lk(key):
    return "%s|%s" % ("/".join(key[0]), key[1])


def prove_function(mod, contracts, fname, pool, verbose=False, budget=300, full=None, hints=None):
    """returns a Result; hints only order the search, every obligation is discharged anew"""
    h = (hints or {}).get(fname)
    if h and h.get("removed"):
        r = prove_once(mod, contracts, fname, pool, verbose, budget, full, h)
        if not r.failed or r.iterations == 1 and not r.hint_used:
            return r
        t = r.time
        r = prove_once(mod, contracts, fname, pool, verbose, budget, full, {"wit": h.get("wit", {})})
        r.time += t
        return r
    return prove_once(mod, contracts, fname, pool, verbose, budget, full, h)


def prove_once(mod, contracts, fname, pool, verbose, budget, full, h):
    full = full or solve.FULL
    contracts = dict(contracts, **contracts[fname].view)      # what this module knows of other ones abstractly
    h = h or {}
    t0 = time.time()
    eng = vc.Engine(mod, contracts, lib.TRUSTED)
    hint_rm = {k: set(v) for k, v in h.get("removed", {}).items()}

    class Removed(dict):
        def setdefault(self, key, d=None):
            if key not in self:
                self[key] = set(hint_rm.get(lk(key), ()))
            return self[key]
    removed = Removed()
    res = Result()
    res.fn, res.eng = fname, eng
    res.iterations = 0
    res.hint_used = bool(hint_rm)
    while True:
        res.iterations += 1
        # without loops (or with hints that settle them) one pass yields everything
        eng.inv_only = res.iterations > 1 or not (hint_rm or h.get("loops", 1) == 0)
        eng.verify(fname, removed)
        cands = [o for o in eng.obls if o.kind == "inv"]
        group_texts(eng, cands)
        changed = False
        pool.many([o.text for o in cands if o.cand[1] not in removed.setdefault(o.cand[0])], solve.QUICK)
        for o in cands:
            key, lab = o.cand
            if lab in removed.setdefault(key):
                continue
            o.status, o.solver, o.time, o.why = pool.one(o.text, solve.QUICK)
            if o.status != "unsat":
                removed[key].add(lab)
                changed = True
        if verbose:
            print("  houdini", fname, res.iterations, "cands", len(cands), "removed", sum(len(x) for x in removed.values()), "paths", eng.npaths, "%.1fs" % (time.time() - t0), flush=True)
        if not changed:
            break
        if time.time() - t0 > budget:
            raise Unsupported("time budget exhausted in invariant inference of " + fname)
    if eng.inv_only:
        eng.inv_only = False
        eng.verify(fname, removed)
    # final obligations
    obls = eng.obls
    simple = [o for o in obls if o.kind != "variant" and o.alts is None]
    group_texts(eng, simple)
    pool.many([o.text for o in simple], solve.FIRST)
    for o in simple:
        if o.kind == "inv" and pool.cache.get((o.text, "ok")):
            o.status, o.solver, o.time, o.why = pool.cache[(o.text, "ok")]
            continue
        o.status, o.solver, o.time, o.why = pool.one(o.text, solve.FIRST)
    nbad = 0
    for o in [o for o in simple if o.status != "unsat"]:
        if nbad >= 2 or time.time() - t0 > budget:
            break      # the function does not verify; the rest stays undecided
        o.status, o.solver, o.time, o.why = pool.one(o.text, full)
        nbad += o.status != "unsat"
    # witnessed obligations: some alternative whose goals all hold
    wit = h.get("wit", {})
    res.wit = {}
    for n, o in enumerate([o for o in obls if o.alts is not None and o.kind != "variant"]):
        solve_alts(eng, o, pool, full if nbad < 2 and time.time() - t0 < budget else [], wit.get(str(n)))
        res.wit[str(n)] = o.witness
        nbad += o.status != "unsat"
    # termination: one variant per loop that works on all back edges
    byloop = {}
    for o in obls:
        if o.kind == "variant":
            byloop.setdefault(o.cand[0], []).append(o)
    res.variants = {}
    for key, os_ in byloop.items():
        labs = [l for l, _ in os_[0].alts]
        alive = [l for l in labs if all(any(l == l2 for l2, _ in o.alts) for o in os_)]
        pref = h.get("variants", {}).get(lk(key))
        if pref in alive:
            alive.remove(pref)
            alive.insert(0, pref)
        good = None
        for l in alive:
            ok = True
            for o in os_:
                g = dict(o.alts)[l][0][1]
                if pool.one(solve.smt2(eng.background, o.facts, g), [("z3-ematch", 2)])[0] != "unsat":
                    ok = False
                    break
            if ok:
                good = l
                break
        res.variants[lk(key)] = good
        for o in os_:
            o.status = "unsat" if good else "unknown"
            o.solver = "z3-ematch"
            o.label = "loop-variant[%s]" % (good or "none found")
    # lemmas of the specification, proved from definitions alone
    for lab, facts, goal in contracts[fname].lemmas():
        o = vc.Obl(fname, "lemma " + lab, 0, facts, goal, "lemma")
        o.text = solve.smt2([], facts, goal)
        o.status, o.solver, o.time, o.why = pool.one(o.text, full)
        obls.append(o)
    res.obls = obls
    res.failed = [o for o in obls if o.status != "unsat"]
    # vacuity: the precondition and at least one return must not be refutable
    res.covers = {}
    pre_ok = pool.one(solve.smt2(eng.background, eng.covers[0][2], z3.BoolVal(False)), [("z3-ematch", 2)])[0] != "unsat"
    ret_ok = False
    for _, l, f in eng.covers[1:]:
        res.covers[l] = pool.one(solve.smt2(eng.background, f, z3.BoolVal(False)), [("z3-ematch", 2)])[0] != "unsat"
        ret_ok = ret_ok or res.covers[l]
    res.vacuous = not pre_ok or (not ret_ok and getattr(contracts[fname], "returns", True))
    res.loops = {lk(k): sorted(v - removed.get(k, set())) for k, v in eng.loopcands.items()}
    res.removed = {lk(k): sorted(v) for k, v in removed.items() if v}
    res.time = time.time() - t0
    return res


def solve_alts(eng, o, pool, full, hint=None):
    labs = [l for l, _ in o.alts]
    parts = {}

    def get(i):
        if i not in parts:
            goals = o.alts[i][1]()
            parts[i] = (goals, solve.smt2_many(eng.background, o.facts, [g for _, g in goals]))
        return parts[i]
    order = list(range(len(labs)))
    o.witness = None
    best = None
    if hint in labs:
        i = labs.index(hint)
        order.remove(i)
        order.insert(0, i)

    def attempt(i, quick=True):
        goals, texts = get(i)
        bad = []
        if labs[i] == hint or len(labs) == 1:
            pool.many(texts, [("z3-ematch", 3)])
        for k, t in enumerate(texts):
            if pool.one(t, [("z3-ematch", 3)])[0] != "unsat":
                bad.append(k)
                if quick and len(bad) > 2:
                    break
        return bad

    def rescue(i, bad):
        if not full or len(bad) > 2:
            return bad
        goals, texts = get(i)
        for n, k in enumerate(bad):
            if pool.one(texts[k], full)[0] != "unsat":
                return bad[n:]
        return []
    first = []
    for i in order:
        if i == order[0] and hint in labs:
            bad = attempt(i)
        else:
            goals, texts = get(i)
            if pool.one(texts[0], [("z3-ematch", 1)])[0] != "unsat":
                first.append(i)
                continue
            bad = attempt(i)
        if best is None or len(bad) < len(best[1]):
            best = (i, bad)
        if not bad:
            break
    if best is None or best[1]:
        if best is None:
            best = (order[0], attempt(order[0]))
        i, bad = best
        best = (i, rescue(i, bad))
        if best[1] and full:
            for i in first[:6]:
                bad = attempt(i)
                if len(bad) <= 1:
                    bad = rescue(i, bad)
                if len(bad) < len(best[1]):
                    best = (i, bad)
                if not bad:
                    break
    i, bad = best
    goals, texts = get(i)
    if not bad:
        o.status, o.solver, o.why = "unsat", "z3-ematch", ""
        o.witness = labs[i]
        o.label = "postcondition[%d parts, witness %s]" % (len(texts), labs[i])
        return
    o.status, o.solver = "unknown", "z3+cvc5"
    o.why = "no witness; closest: " + ", ".join(goals[k][0] for k in bad)
    o.label = "postcondition: " + ", ".join(goals[k][0] for k in bad)
    o.badlabels = [goals[k][0] for k in bad]


# ---------------------------------------------------------------------------- many functions
HINTS = os.path.join(os.path.dirname(HERE), "specs", "hints.json")


def load_hints():
    try:
        return json.load(open(HINTS))
    except Exception:
        return {}


def summary(r, pool):
    """picklable account of one function"""
    return {"fn": r.fn, "time": r.time, "paths": r.eng.npaths, "vacuous": r.vacuous, "dead": sorted(set(r.eng.dead)), "iterations": r.iterations,
            "obls": [{"label": o.label, "line": o.line, "kind": o.kind, "status": o.status, "solver": o.solver, "time": o.time, "why": o.why,
                      "path": list(o.path), "name": o.name(), "badlabels": getattr(o, "badlabels", None), "text": str.__str__(o.text) + "" if o.status != "unsat" and o.text else None} for o in r.obls],
            "trivial": r.eng.trivial, "inlined": sorted(r.eng.inlined), "assumptions": sorted(r.eng.assumptions), "loops": r.loops,
            "removed": r.removed, "wit": r.wit, "variants": r.variants, "queries": pool.queries, "solver_time": pool.time, "by": pool.by, "covers": r.covers}


def _child(conn, mod, cs, fn, hints, budget, verbose):
    pool = solve.Pool()
    solve.TOKENS.acquire()
    try:
        out = summary(prove_function(mod, cs, fn, pool, hints=hints, budget=budget, verbose=verbose), pool)
    except Unsupported as e:
        out = {"fn": fn, "unsupported": str(e)}
    except Exception as e:
        import traceback
        out = {"fn": fn, "unsupported": "engine: " + repr(e), "trace": traceback.format_exc()}
    solve.TOKENS.release()
    conn.send(out)
    conn.close()


def prove_many(mod, cs, fns, jobs=8, budget=300, hints=None, on=None, verbose=False):
    """one process per function"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    hints = load_hints() if hints is None else hints
    solve.TOKENS = ctx.Semaphore(jobs)
    todo = sorted(fns, key=lambda f: hints.get(f, {}).get("time", 5))
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            fn = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, mod, cs, fn, hints, budget, verbose))
            p.start()
            b.close()
            live[fn] = (p, a, time.time())
        ready = mp.connection.wait([x[1] for x in live.values()], timeout=1.0)
        for fn, (p, a, t) in list(live.items()):
            r = None
            if a in ready:
                try:
                    r = a.recv()
                except EOFError:
                    r = {"fn": fn, "unsupported": "prover process died"}
            elif time.time() - t > budget * 1.5 + 30:
                p.kill()
                r = {"fn": fn, "timeout": True, "unsupported": "prover time budget exhausted"}
            if r is not None:
                p.join()
                a.close()
                del live[fn]
                out[fn] = r
                if on:
                    on(r)
    return out


def load_specs(names):
    import importlib
    out = {}
    for n in names:
        m = importlib.import_module(n)
        for c in m.CONTRACTS.values():
            c.view = getattr(m, "ABSTRACT", {})
            c.module = n
        out.update(m.CONTRACTS)
    return out


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("fn", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-n", action="store_true", help="ignore hints")
    ap.add_argument("-w", action="store_true", help="write hints of functions that verify")
    a = ap.parse_args()
    mod = ir.load()
    cs = load_specs(a.spec.split(","))
    fns = a.fn or [f for f in cs if not cs[f].trusted]
    t0 = time.time()

    def show(r):
        if "unsupported" in r:
            print("%-36s UNSUPPORTED %s" % (r["fn"], r["unsupported"]), flush=True)
            if "trace" in r and a.v:
                print(r["trace"])
            return
        bad = [o for o in r["obls"] if o["status"] != "unsat"]
        print("%-36s %3d/%3d obligations, %d paths, %.1fs (%d queries, solver %.1fs)%s" % (r["fn"], len(r["obls"]) - len(bad), len(r["obls"]), r["paths"], r["time"], r["queries"], r["solver_time"], ("  VACUOUS" if r["vacuous"] else "") + ("  DEAD %s" % r["dead"] if r["dead"] else "")), flush=True)
        if a.v:
            for k, v in r["loops"].items():
                print("   loop", k, v)
        for o in bad:
            print("     FAILED %s [%s] %s path=%s" % (o["name"], o["kind"], o["why"], o["path"]), flush=True)
    out = prove_many(mod, cs, fns, hints={} if a.n else None, on=show, verbose=a.v)
    good = [r for r in out.values() if "obls" in r]
    print("total %d/%d, %.1fs wall, functions fully verified %d/%d" % (sum(o["status"] == "unsat" for r in good for o in r["obls"]), sum(len(r["obls"]) for r in good), time.time() - t0,
                                                                sum(all(o["status"] == "unsat" for o in r["obls"]) for r in good), len(fns)))
    if a.w:
        h = load_hints()
        for r in good:
            if all(o["status"] == "unsat" for o in r["obls"]):
                h[r["fn"]] = {"removed": r["removed"], "wit": {k: v for k, v in r["wit"].items() if v}, "variants": r["variants"], "time": round(r["time"], 1), "loops": len(r["loops"])}
        with open(HINTS, "w") as f:
            json.dump(h, f, indent=0, sort_keys=True)
            f.write("\n")
