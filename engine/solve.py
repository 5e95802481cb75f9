"""Discharges obligations with z3 (e-matching first, then default) and cvc5.

Limits are z3 resource units first and wall time second, so that a verdict does
not depend on how loaded the machine is."""
import os, time, subprocess, tempfile
import z3

CVC5 = "/usr/bin/cvc5" if os.path.exists("/usr/bin/cvc5") else "cvc5"
RPS = 3000000        # z3 resource units that correspond to about one second


def split_top(text):
    """top-level s-expressions of an SMT-LIB text"""
    out, depth, start, i, n = [], 0, 0, 0, len(text)
    while i < n:
        c = text[i]
        if c == "|":
            i = text.index("|", i + 1)
        elif c == '"':
            i = text.index('"', i + 1)
        elif c == ";" and depth == 0:
            i = text.find("\n", i)
            if i < 0:
                break
        elif c == "(":
            if depth == 0:
                start = i
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                out.append(text[start:i + 1])
        i += 1
    return out


def smt2(background, facts, goal):
    s = z3.Solver()
    s.add(*background)
    s.add(*facts)
    s.add(z3.Not(goal))
    return s.to_smt2()


def smt2_many(background, facts, goals):
    """one text per goal, sharing the facts"""
    if len(goals) == 1:
        return [smt2(background, facts, goals[0])]
    s = z3.Solver()
    s.add(*background)
    s.add(*facts)
    n0 = len(s.assertions())
    for g in goals:
        s.add(z3.Not(g))
    if len(s.assertions()) != n0 + len(goals):
        return [smt2(background, facts, g) for g in goals]
    parts = split_top(s.to_smt2())
    head = [p for p in parts if not p.startswith("(assert") and not p.startswith("(check-sat")]
    asserts = [p for p in parts if p.startswith("(assert")]
    if len(asserts) != n0 + len(goals):
        return [smt2(background, facts, g) for g in goals]
    pre = "\n".join(head + asserts[:n0]) + "\n"
    return [Text(pre, a + "\n(check-sat)\n") for a in asserts[n0:]]


class Text(str):
    def __reduce__(self):
        return (Text, (self.pre, self.rest))

    """a query that remembers which part it shares with others"""
    def __new__(cls, pre, rest):
        t = str.__new__(cls, pre + rest)
        t.pre, t.rest = pre, rest
        return t


def _z3(text, timeout, mbqi, seed=0):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", int(timeout * 4000))
    s.set("rlimit", int(timeout * RPS))
    if not mbqi:
        s.set("auto_config", False)
        s.set("mbqi", False)
    s.set("random_seed", seed)
    s.from_string(text)
    r = s.check()
    why = ""
    if r == z3.unknown:
        why = s.reason_unknown()
    return str(r), why


def _cvc5(text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
        n = f.name
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % int(timeout * 1000), "--full-saturate-quant", n], capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
        return o, p.stderr[:200]
    except Exception as e:
        return "unknown", str(e)
    finally:
        os.unlink(n)


def run_plan(text, plan):
    t0 = time.time()
    last = ("unknown", "")
    for tool, tmo in plan:
        try:
            if tool == "z3-ematch":
                r, why = _z3(text, tmo, False)
            elif tool == "z3":
                r, why = _z3(text, tmo, True)
            elif tool == "z3-seed":
                r, why = _z3(text, tmo, False, 7)
            else:
                r, why = _cvc5(text, tmo)
        except Exception as e:
            r, why = "unknown", repr(e)[:200]
        if r == "unsat":
            return "unsat", tool, time.time() - t0, ""
        last = (r, why)
        if r == "sat":
            return "sat", tool, time.time() - t0, why
    return last[0], plan[-1][0], time.time() - t0, last[1]


QUICK = [("z3-ematch", 4)]
FIRST = [("z3-ematch", 0.7)]
FULL = [("cvc5", 5), ("z3-ematch", 5), ("cvc5", 15), ("z3-seed", 10), ("z3", 10)]


def quick_shared(texts, secs):
    """the e-matching solver on queries that share their facts: the facts are read once"""
    out, s, decl = [], None, None
    for t in texts:
        pre = getattr(t, "pre", None)
        if pre is None:
            out.append(None)
            continue
        t0 = time.time()
        try:
            if s is None or decl is not pre:
                s = z3.Solver(ctx=z3.Context())
                s.set("auto_config", False)
                s.set("mbqi", False)
                s.set("timeout", int(secs * 4000))
                s.set("rlimit", int(secs * RPS))
                s.from_string(pre)
                decl = pre
            s.push()
            s.from_string(t.rest)
            r = str(s.check())
            s.pop()
        except Exception as e:
            r, s = repr(e), None
        out.append(("unsat", "z3-ematch", time.time() - t0, "") if r == "unsat" else None)
    return out


TOKENS = None        # how many more processes may run; shared by all provers


def _worker(conn, texts, plan):
    conn.send(_seq(texts, plan))
    conn.close()


def _seq(texts, plan):
    sh = quick_shared(texts, plan[0][1]) if plan and plan[0][0] == "z3-ematch" else [None] * len(texts)
    return [a or run_plan(t, plan) for a, t in zip(sh, texts)]


class Pool:
    """in-process solver with a memo; functions are distributed over processes by the caller"""

    def __init__(self):
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def one(self, text, plan):
        pk = tuple(plan)
        c = self.cache.get((text, pk)) or self.cache.get((text, "ok"))
        if c is not None:
            return c
        res = run_plan(text, plan)
        self.queries += 1
        self.time += res[2]
        self.cache[(text, pk)] = res
        if res[0] == "unsat":
            self.cache[(text, "ok")] = res
            self.by[res[1]] = self.by.get(res[1], 0) + 1
        return res

    def many(self, texts, plan):
        """decides all of them, with the processors that are free; results go to the memo"""
        pk = tuple(plan)
        todo, seen = [], set()
        for t in texts:
            if t not in seen and (t, pk) not in self.cache and (t, "ok") not in self.cache:
                seen.add(t)
                todo.append(t)
        extra = 0
        while TOKENS is not None and (extra + 2) * 12 <= len(todo) and TOKENS.acquire(False):
            extra += 1
        n = extra + 1
        size = (len(todo) + n - 1) // n if todo else 0
        chunks = [todo[i * size:(i + 1) * size] for i in range(n)]
        live = []
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        for c in chunks[1:]:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, c, plan))
            p.start()
            b.close()
            live.append((p, a, c))
        res = list(zip(chunks[0], _seq(chunks[0], plan)))
        for p, a, c in live:
            try:
                rs = a.recv()
            except EOFError:
                rs = [run_plan(t, plan) for t in c]
            p.join()
            a.close()
            TOKENS.release()
            res += zip(c, rs)
        for t, r in res:
            self.queries += 1
            self.time += r[2]
            self.cache[(t, pk)] = r
            if r[0] == "unsat":
                self.cache[(t, "ok")] = r
                self.by[r[1]] = self.by.get(r[1], 0) + 1
