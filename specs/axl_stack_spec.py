"""Contracts of src/axl_stack.c (the stack of references).

The elements of stack s are arr(s)[0..items-1], the last one on top."""
from z3 import *
from vc import *

CONTRACTS = {}


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def items(v, s): return v.f("axlStack.items", s)
def arr(v, s): return v.f("axlStack.stack", s)
def elem(v, s, i): return Select(v.aptr(arr(v, s)), i)


def wf_parts(v, s):
    n, z, a = items(v, s), v.f("axlStack.size", s), arr(v, s)
    return [("stack-live", And(s != 0, v.alloc(s))),
            ("C04:capacity", And(0 <= n, n <= z, (z == 0) == (a == 0))),
            ("C04:storage", Implies(a != 0, And(v.alloc(a), a != s, blk(a) == a, off(a) == 0, bsize(a) == 8 * z)))]


def wf(v, s): return And(*[f for _, f in wf_parts(v, s)])


def same_elems(pre, post, s, n, lab="C04:others-keep-order"):
    return (lab, q1(lambda i: Implies(And(0 <= i, i < n), elem(post, s, i) == elem(pre, s, i)), lambda i: elem(post, s, i), "i"))


class StackC(Contract):
    tags = ("C04",)

    def requires(self, pre, a):
        return [(l, Implies(a[0] != 0, f)) for l, f in wf_parts(pre, a[0])]

    def extra_ints(self, pre, a):
        return [items(pre, a[0])]


class Query(StackC):
    modifies = []

    def ensures(self, pre, post, a, ret, w):
        return self.result(pre, a, ret)


@contract
class Size(Query):
    name = "axl_stack_size"
    def result(self, v, a, ret): return [("C04:size", ret == If(a[0] == 0, IntVal(-1), items(v, a[0])))]


@contract
class IsEmpty(Query):
    name = "axl_stack_is_empty"
    def result(self, v, a, ret): return [("C04:empty", (ret != 0) == And(a[0] != 0, items(v, a[0]) == 0))]


@contract
class Peek(Query):
    name = "axl_stack_peek"
    def result(self, v, a, ret):
        s = a[0]
        return [("C04:top-element", ret == If(And(s != 0, items(v, s) > 0), elem(v, s, items(v, s) - 1), 0))]


@contract
class New(Contract):
    name = "axl_stack_new"
    tags = ("C04",)
    modifies = ["alloc", "F:axlStack.stack", "F:axlStack.size", "F:axlStack.items", "F:axlStack.destroy"]
    def ensures(self, pre, post, a, ret, w):
        return wf_parts(post, ret) + [("C04:empty-stack", And(items(post, ret) == 0, post.f("axlStack.destroy", ret) == a[0])), ("fresh", Not(pre.alloc(ret))), ("no-storage", arr(post, ret) == 0),
                                      ("C04:allocates-one", post.m("alloc") == Store(pre.m("alloc"), ret, True))]


@contract
class Push(StackC):
    name = "axl_stack_push"
    modifies = ["alloc", "A:ptr", "B", "F:axlStack.stack", "F:axlStack.size", "F:axlStack.items"]

    def frame(self, pre, a):
        d = {m: (lambda x: x == a[0]) for m in ("F:axlStack.stack", "F:axlStack.size", "F:axlStack.items")}
        d["A:ptr"] = d["B"] = lambda x: And(a[0] != 0, x == arr(pre, a[0]))
        return d

    def ensures(self, pre, post, a, ret, w):
        s, p = a
        g = And(s != 0, p != 0)
        n = items(pre, s)
        al, al2 = pre.m("alloc"), post.m("alloc")
        a0, a1 = arr(pre, s), arr(post, s)
        return [(l, Implies(s != 0, f)) for l, f in wf_parts(post, s)] + [
            ("C04:one-more", Implies(g, And(items(post, s) == n + 1, elem(post, s, n) == p))),
            ("C04:refused", Implies(And(s != 0, p == 0), And(items(post, s) == n, a1 == a0))),
            ("C04:others-keep-order", Implies(s != 0, same_elems(pre, post, s, n)[1])),
            ("C04:memory", If(Or(Not(g), a1 == a0), al2 == al, And(Not(Select(al, a1)), a1 != 0, al2 == Store(If(a0 != 0, Store(al, a0, False), al), a1, True)))),
        ]


@contract
class Pop(StackC):
    name = "axl_stack_pop"
    modifies = ["F:axlStack.items"]
    def frame(self, pre, a): return {"F:axlStack.items": lambda x: x == a[0]}
    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        n = items(pre, s)
        g = And(s != 0, n > 0)
        return [(l, Implies(s != 0, f)) for l, f in wf_parts(post, s)] + [
            ("C04:last-in-first-out", ret == If(g, elem(pre, s, n - 1), 0)),
            ("C04:one-less", Implies(s != 0, items(post, s) == If(n > 0, n - 1, 0)))]


@contract
class Free(StackC):
    name = "axl_stack_free"
    modifies = ["alloc", "F:axlStack.items", "G:evn", "G:evf", "G:eva"]
    def frame(self, pre, a): return {"F:axlStack.items": lambda x: x == a[0]}

    def events(self, pre, v, s, cnt):
        """the events after cnt pops"""
        e0, e1, n = pre.m("G:evn"), v.m("G:evn"), items(pre, s)
        d = pre.f("axlStack.destroy", s)
        return [("C04:destroyed-so-many", e1 == e0 + cnt),
                ("C04:destroyed-top-first", q1(lambda t: Implies(And(e0 <= t, t < e1), And(Select(v.m("G:evf"), t) == d, Select(v.m("G:eva"), t) == elem(pre, s, n - 1 - (t - e0)))), lambda t: [Select(v.m("G:eva"), t), Select(v.m("G:evf"), t)], "t")),
                ("C04:earlier-calls", q1(lambda t: Implies(t < e0, And(Select(v.m("G:evf"), t) == Select(pre.m("G:evf"), t), Select(v.m("G:eva"), t) == Select(pre.m("G:eva"), t))), lambda t: [Select(v.m("G:eva"), t), Select(v.m("G:evf"), t)], "t"))]

    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        d = pre.f("axlStack.destroy", s)
        al, al2 = pre.m("alloc"), post.m("alloc")
        a0 = arr(pre, s)
        return self.events(pre, post, s, If(And(s != 0, d != 0), items(pre, s), 0)) + [
            ("C04:all-memory-released-nothing-else", al2 == If(s == 0, al, Store(If(a0 != 0, Store(al, a0, False), al), s, False)))]

    def loops(self, lc):
        s = lc.args[0]
        n = items(lc.pre, s)
        out = [("left", And(0 <= items(lc.post, s), items(lc.post, s) <= n))]
        out += self.events(lc.pre, lc.post, s, n - items(lc.post, s))
        return out

    def variants(self, lc):
        return [("items-left", items(lc.post, lc.args[0]))]


# visits: the visitor is a function of its arguments; the traversal must show it the top first,
# and stop at the first element for which it returns true
class Foreach(Query):
    def stop(self, a, x): raise NotImplementedError

    def result(self, v, a, ret):
        s = a[0]
        n = items(v, s)
        x = v.aptr(arr(v, s))
        return [("C04:complete-iff-no-stop", Implies(s != 0, If(ret != 0, q1(lambda i: Implies(And(0 <= i, i < n), Not(self.stop(a, Select(x, i)))), lambda i: Select(x, i), "i"),
                                                             Exists_(lambda i: And(0 <= i, i < n, self.stop(a, Select(x, i))))))),
                ("C04:null-stack", Implies(s == 0, ret == 0))]

    def loops(self, lc):
        s = lc.args[0]
        n = items(lc.pre, s)
        x = lc.pre.aptr(arr(lc.pre, s))
        out = []
        for k, (t, p, e) in enumerate(lc.phis):
            if t in ("i32", "i64"):
                out.append(("seen%d" % k, q1(lambda i: Implies(And(n - 1 - p < i, i < n), Not(self.stop(lc.args, Select(x, i)))), lambda i: Select(x, i), "i")))
                out.append(("rseen%d" % k, q1(lambda i: Implies(And(p < i, i < n), Not(self.stop(lc.args, Select(x, i)))), lambda i: Select(x, i), "i")))
        return out


def Exists_(f):
    i = FreshInt("ex")
    return Exists([i], f(i))


@contract
class Foreach2(Foreach):
    name = "axl_stack_foreach"
    def stop(self, a, x): return And(a[1] != 0, cbfun(3)(a[1], x, a[2], a[3]) != 0)


@contract
class Foreach3(Foreach):
    name = "axl_stack_foreach3"
    def stop(self, a, x): return And(a[1] != 0, cbfun(4)(a[1], x, a[2], a[3], a[4]) != 0)


# ------------------------------------------------------------------ binary stack
# A stack of states kept as runs: node i of the inner stack stands for the states
# start[i] .. start[i+1]-1.  Ghost per binary stack b: bseq[b] the states pushed,
# brun[b][j] the run that holds state j, bstart[b]; bidx[x] the position of node x.
GHOST_SORTS.update({"G:bseq": AAI, "G:brun": AAI, "G:bstart": AAI, "G:bidx": AI})
BG = ["G:bseq", "G:brun", "G:bstart", "G:bidx"]


def inner(v, b): return v.f("axlBinaryStack.stack", b)
def cnt(v, b): return v.f("axlBinaryStack.count", b)
def seq(v, b, j): return Select(v.g("bseq", b), j)


def bwf_parts(v, b):
    s, n = inner(v, b), cnt(v, b)
    m = items(v, s)
    st, run, ix = v.g("bstart", b), v.g("brun", b), v.m("G:bidx")
    nc, ns = v.m("F:axlBinaryStackNode.count"), v.m("F:axlBinaryStackNode.state")
    x = v.aptr(arr(v, s))
    return [("binary-stack-live", And(b != 0, v.alloc(b), b != s, b != arr(v, s)))] + wf_parts(v, s) + [
        ("C04:last-run", v.f("axlBinaryStack.last", b) == If(m > 0, Select(x, m - 1), 0)),
        ("C04:runs", q1(lambda i: Implies(And(0 <= i, i < m), And(Select(x, i) != 0, v.alloc(Select(x, i)), Select(x, i) != b, Select(x, i) != s, Select(x, i) != arr(v, s), Select(ix, Select(x, i)) == i,
                                                                Select(nc, Select(x, i)) >= 1, Select(st, i + 1) == Select(st, i) + Select(nc, Select(x, i)))), lambda i: Select(x, i), "i")),
        ("C04:run-ends", And(Select(st, 0) == 0, Select(st, m) == n, n >= 0)),
        ("C04:run-order", q2(lambda i, j: Implies(And(0 <= i, i < j, j <= m), Select(st, i) < Select(st, j)), lambda i, j: MultiPattern(Select(st, i), Select(st, j)))),
        ("C04:states", q1(lambda j: Implies(And(0 <= j, j < n), And(0 <= Select(run, j), Select(run, j) < m, Select(st, Select(run, j)) <= j, j < Select(st, Select(run, j) + 1),
                                                                  Select(v.g("bseq", b), j) == Select(ns, Select(x, Select(run, j))))), lambda j: [Select(v.g("bseq", b), j), Select(run, j)], "j")),
    ]


class BinC(Contract):
    tags = ("C04",)

    def requires(self, pre, a):
        return [(l, Implies(a[0] != 0, f)) for l, f in bwf_parts(pre, a[0])]


def mk_bq(fname, res):
    class C(BinC):
        name = fname
        modifies = []
        def ensures(self, pre, post, a, ret, w):
            return res(pre, a[0], cnt(pre, a[0]), ret)
    contract(C)


mk_bq("axl_binary_stack_size", lambda v, b, n, r: [("C04:size", r == If(b == 0, IntVal(-1), n))])
mk_bq("axl_binary_stack_is_empty", lambda v, b, n, r: [("C04:empty", (r != 0) == And(b != 0, n == 0))])
mk_bq("axl_binary_stack_peek", lambda v, b, n, r: [("C04:top-state", (r != 0) == And(b != 0, n > 0, seq(v, b, n - 1) != 0))])


@contract
class BNew(Contract):
    name = "axl_binary_stack_new"
    tags = ("C04",)
    modifies = ["alloc", "F:axlStack.stack", "F:axlStack.size", "F:axlStack.items", "F:axlStack.destroy", "F:axlBinaryStack.last", "F:axlBinaryStack.stack", "F:axlBinaryStack.count", "F:axlBinaryStack.factory"] + BG
    def ghost(self, pre, post, a, ret, w):
        d = {g: pre.m(g) for g in BG}
        d["G:bstart"] = Store(pre.m("G:bstart"), ret, K(INT, IntVal(0)))
        return d, []
    def ensures(self, pre, post, a, ret, w):
        s = inner(post, ret)
        return bwf_parts(post, ret) + [("C04:empty-stack", cnt(post, ret) == 0), ("fresh", Not(pre.alloc(ret))),
                                       ("C04:memory", And(Not(pre.alloc(s)), post.m("alloc") == Store(Store(pre.m("alloc"), ret, True), s, True)))]


BMOD = ["F:axlBinaryStack.last", "F:axlBinaryStack.count", "F:axlBinaryStackNode.count", "F:axlBinaryStackNode.state"]


@contract
class BPush(BinC):
    name = "axl_binary_stack_push"
    modifies = Push.modifies + BMOD + BG

    def frame(self, pre, a):
        b = a[0]
        s = inner(pre, b)
        d = {m: (lambda x: And(b != 0, x == s)) for m in ("F:axlStack.stack", "F:axlStack.size", "F:axlStack.items")}
        d["A:ptr"] = d["B"] = lambda x: And(b != 0, x == arr(pre, s))
        d["F:axlBinaryStack.last"] = d["F:axlBinaryStack.count"] = lambda x: x == b
        d["F:axlBinaryStackNode.count"] = lambda x: And(b != 0, x == pre.f("axlBinaryStack.last", b))
        d["F:axlBinaryStackNode.state"] = lambda x: BoolVal(False)
        return d

    def ghost(self, pre, post, a, ret, w):
        b, st = a
        s, n = inner(pre, b), cnt(pre, b)
        m = items(pre, s)
        grow = items(post, s) == m + 1
        start, run, sq = pre.g("bstart", b), pre.g("brun", b), pre.g("bseq", b)
        d = {"G:bstart": Store(pre.m("G:bstart"), b, If(grow, Store(start, m + 1, n + 1), Store(start, m, n + 1))),
             "G:brun": Store(pre.m("G:brun"), b, Store(run, n, If(grow, m, m - 1))),
             "G:bseq": Store(pre.m("G:bseq"), b, Store(sq, n, st)),
             "G:bidx": If(grow, Store(pre.m("G:bidx"), post.f("axlBinaryStack.last", b), m), pre.m("G:bidx"))}
        return {k: If(b != 0, t, pre.m(k)) for k, t in d.items()}, []

    def ensures(self, pre, post, a, ret, w):
        b, st = a
        n = cnt(pre, b)
        return [(l, Implies(b != 0, f)) for l, f in bwf_parts(post, b)] + [
            ("C04:one-more", Implies(b != 0, And(cnt(post, b) == n + 1, seq(post, b, n) == st))),
            ("C04:others-keep-order", Implies(b != 0, q1(lambda j: Implies(And(0 <= j, j < n), seq(post, b, j) == seq(pre, b, j)), lambda j: seq(post, b, j), "j"))),
            ("same-inner-stack", Implies(b != 0, inner(post, b) == inner(pre, b)))]


@contract
class BPop(BinC):
    name = "axl_binary_stack_pop"
    modifies = ["alloc", "F:axlStack.items", "F:axlBinaryStack.last", "F:axlBinaryStack.count", "F:axlBinaryStackNode.count"] + BG

    def frame(self, pre, a):
        b = a[0]
        s = inner(pre, b)
        d = {"F:axlStack.items": lambda x: And(b != 0, x == s)}
        d["F:axlBinaryStack.last"] = d["F:axlBinaryStack.count"] = lambda x: x == b
        d["F:axlBinaryStackNode.count"] = lambda x: And(b != 0, x == pre.f("axlBinaryStack.last", b))
        return d

    def ghost(self, pre, post, a, ret, w):
        b = a[0]
        s, n = inner(pre, b), cnt(pre, b)
        m = items(pre, s)
        same = And(b != 0, items(post, s) == m, n > 0)
        d = {g: pre.m(g) for g in BG}
        d["G:bstart"] = If(same, Store(pre.m("G:bstart"), b, Store(pre.g("bstart", b), m, n - 1)), pre.m("G:bstart"))
        return d, []

    def ensures(self, pre, post, a, ret, w):
        b = a[0]
        n = cnt(pre, b)
        al, al2 = pre.m("alloc"), post.m("alloc")
        s = inner(pre, b)
        rel = And(b != 0, items(post, s) < items(pre, s))
        return [(l, Implies(b != 0, f)) for l, f in bwf_parts(post, b)] + [
            ("C04:last-in-first-out", ret == If(And(b != 0, n > 0), seq(pre, b, n - 1), 0)),
            ("C04:one-less", Implies(b != 0, cnt(post, b) == If(n > 0, n - 1, 0))),
            ("C04:others-keep-order", Implies(b != 0, q1(lambda j: Implies(And(0 <= j, j < n - 1), seq(post, b, j) == seq(pre, b, j)), lambda j: seq(post, b, j), "j"))),
            ("C04:memory", al2 == If(rel, Store(al, pre.f("axlBinaryStack.last", b), False), al))]
