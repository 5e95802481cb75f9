"""Contracts of src/axl_hash.c.

Ghost state per hash h (n = items): hR[h][i] the i-th node (enumeration, i < n) and hI[x] its index;
hC[h][k][r] the node of rank r (counted from the end of the chain) in bucket k, hL[h][k] the length of
that chain, hB[x], hK[x] bucket and rank of node x; aown[x] the factory that handed object x out
(0 when it is not in use).  The factory is seen abstractly: an object handed out is a new object (what
the contracts of axl_factory_spec establish for the real one)."""
from z3 import *
from vc import *
import vc

A3 = ArraySort(INT, AAI)
GHOST_SORTS.update({"G:hR": AAI, "G:hI": AI, "G:hC": A3, "G:hL": AAI, "G:hB": AI, "G:hK": AI, "G:aown": AI,
                    "G:lR": AI, "G:lI": AI, "G:ln": INT, "G:vE": AI, "G:vN": AI})
CONTRACTS = {}
ABSTRACT = {}
urem = Function("urem_i32", INT, INT, INT)
_x, _y = Ints("ux uy")
BACKGROUND.append(ForAll([_x, _y], Implies(_y > 0, And(urem(_x, _y) >= 0, urem(_x, _y) < _y)), patterns=[urem(_x, _y)]))


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def abstract(cls):
    c = cls()
    ABSTRACT[c.name] = c
    return cls


# ---- the factory as an allocator of objects
@abstract
class AGet(Contract):
    name, trusted = "axl_factory_get", True
    modifies = ["alloc", "G:aown"]
    def ghost(self, pre, post, a, ret, w):
        return {"G:aown": Store(pre.m("G:aown"), ret, a[0])}, []
    def requires(self, pre, a): return [("factory-live", pre.alloc(a[0]))]
    def ensures(self, pre, post, a, ret, w):
        return [("new-object", And(ret != 0, Not(pre.alloc(ret)), post.m("alloc") == Store(pre.m("alloc"), ret, True)))]


@abstract
class ARelease(Contract):
    name, trusted = "axl_factory_release_spare", True
    modifies = ["alloc", "G:aown"]
    def ghost(self, pre, post, a, ret, w): return {"G:aown": Store(pre.m("G:aown"), a[1], IntVal(0))}, []
    def requires(self, pre, a): return [("factory-live", pre.alloc(a[0])), ("object-live", And(pre.alloc(a[1]), pre.g("aown", a[1]) == a[0]))]
    def ensures(self, pre, post, a, ret, w): return [("released", post.m("alloc") == Store(pre.m("alloc"), a[1], False))]


@abstract
class ACreate(Contract):
    name, trusted = "axl_factory_create", True
    modifies = ["alloc"]
    def ensures(self, pre, post, a, ret, w):
        x = FreshInt("x")
        return [("new-factory", And(ret != 0, Not(pre.alloc(ret)), post.m("alloc") == Store(pre.m("alloc"), ret, True))),
                ("no-object-yet", ForAll([x], post.g("aown", x) != ret, patterns=[post.g("aown", x)]))]


@abstract
class AFree(Contract):
    name, trusted = "axl_factory_free", True
    modifies = ["alloc", "G:aown"]
    def requires(self, pre, a): return [("factory-live", Or(a[0] == 0, pre.alloc(a[0])))]
    def ensures(self, pre, post, a, ret, w):
        x = FreshInt("x")
        return [("released", ForAll([x], Select(post.m("alloc"), x) == And(pre.alloc(x), Or(a[0] == 0, And(x != a[0], pre.g("aown", x) != a[0]))), patterns=[Select(post.m("alloc"), x)])),
                ("handed-back", ForAll([x], post.g("aown", x) == If(And(a[0] != 0, pre.g("aown", x) == a[0]), 0, pre.g("aown", x)), patterns=[post.g("aown", x)]))]


# ---- view
def n_(v, h): return v.f("axlHash.items", h)
def R(v, h): return v.g("hR", h)
def size(v, h): return v.f("axlHash.hash_size", h)
def tab(v, h): return v.f("axlHash.table", h)
def eq(v, h, a, b): return cbfun(2)(v.f("axlHash.equal", h), a, b) == 0
def keyof(v, x): return v.f("axlHashNode.key", x)
def pos(v, h, q): return urem(uns("i32", cbfun(1)(v.f("axlHash.hash", h), q)), uns("i32", size(v, h)))


def member(v, h, x):
    return And(x != 0, 0 <= v.g("hI", x), v.g("hI", x) < n_(v, h), Select(R(v, h), v.g("hI", x)) == x)


def wf_parts(v, h, table=True):
    n, r, z, t, fa = n_(v, h), R(v, h), size(v, h), tab(v, h), v.f("axlHash.factory", h)
    hI, hB, hK, aown = (v.m("G:" + g) for g in ("hI", "hB", "hK", "aown"))
    C, L = v.g("hC", h), v.g("hL", h)
    nx, ky = v.m("F:axlHashNode.next"), v.m("F:axlHashNode.key")
    T = v.aptr(t)
    at = lambda i: Select(r, i)
    out = [("hash-live", And(h != 0, v.alloc(h), v.f("axlHash.hash", h) != 0, v.f("axlHash.equal", h) != 0, v.f("axlHash.step", h) > 0, fa != 0, v.alloc(fa), fa != h)),
           ("C05:table", And(z >= 0, n >= 0, (z == 0) == (t == 0), Implies(z == 0, n == 0), Implies(t != 0, And(v.alloc(t), t != h, t != fa, blk(t) == t, off(t) == 0, bsize(t) == 8 * z)))),
           ("C05:nodes", q1(lambda i: Implies(And(0 <= i, i < n), And(at(i) != 0, v.alloc(at(i)), Select(hI, at(i)) == i, Select(aown, at(i)) == fa, at(i) != h, at(i) != t, at(i) != fa)), at, "i")),
           ("C05:nodes-in-their-bucket", q1(lambda i: Implies(And(0 <= i, i < n), And(Select(hB, at(i)) == pos(v, h, Select(ky, at(i))), 0 <= Select(hK, at(i)), Select(hK, at(i)) < Select(L, Select(hB, at(i))),
                                                                                    Select(Select(C, Select(hB, at(i))), Select(hK, at(i))) == at(i))), at, "i")),
           ("C05:chains", q2(lambda k, i: Implies(And(0 <= k, k < z, 0 <= i, i < Select(L, k)), And(member(v, h, Select(Select(C, k), i)), Select(hB, Select(Select(C, k), i)) == k, Select(hK, Select(Select(C, k), i)) == i)), lambda k, i: Select(Select(C, k), i))),
           ("C05:chain-links", q2(lambda k, i: Implies(And(0 <= k, k < z, 0 <= i, i < Select(L, k)), Select(nx, Select(Select(C, k), i)) == If(i > 0, Select(Select(C, k), i - 1), 0)), lambda k, i: Select(nx, Select(Select(C, k), i)))),
           ("C05:heads", q1(lambda k: Implies(And(0 <= k, k < z), And(Select(L, k) >= 0, Select(T, k) == If(Select(L, k) > 0, Select(Select(C, k), Select(L, k) - 1), 0))), lambda k: [Select(T, k), Select(L, k)], "k")),
           ("C05:one-node-per-key", q2(lambda i, j: Implies(And(0 <= i, i < j, j < n), Not(eq(v, h, Select(ky, at(i)), Select(ky, at(j))))), lambda i, j: MultiPattern(at(i), at(j)))),
           ("C06:no-node-leaked", q1(lambda x: Implies(Select(aown, x) == fa, And(v.alloc(x), member(v, h, x))), lambda x: [Select(aown, x)], "x"))]
    return out


def wf(v, h): return And(*[f for _, f in wf_parts(v, h)])


def functions_ok(v, h):
    """the functions given by the user: equal is an equivalence, equal keys have the same hash"""
    e, f = v.f("axlHash.equal", h), v.f("axlHash.hash", h)
    E = lambda a, b: cbfun(2)(e, a, b) == 0
    a, b, c = Ints("ka kb kc")
    return [("user-equal-reflexive", ForAll([a], E(a, a), patterns=[cbfun(1)(f, a)])),
            ("user-equal-symmetric", ForAll([a, b], E(a, b) == E(b, a), patterns=[cbfun(2)(e, a, b)])),
            ("user-equal-transitive", ForAll([a, b, c], Implies(And(E(a, b), E(b, c)), E(a, c)), patterns=[MultiPattern(cbfun(2)(e, a, b), cbfun(2)(e, b, c))])),
            ("user-hash-agrees", ForAll([a, b], Implies(E(a, b), cbfun(1)(f, a) == cbfun(1)(f, b)), patterns=[cbfun(2)(e, a, b)]))]


class HashC(Contract):
    tags = ("C05",)
    fns = True

    def requires(self, pre, a):
        h = a[0]
        return [(l, Implies(h != 0, f)) for l, f in wf_parts(pre, h) + (functions_ok(pre, h) if self.fns else [])]

    def extra_ints(self, pre, a): return [size(pre, a[0])]

    def chain_loops(self, lc, q):
        """walking the chain of the bucket of q"""
        out = []
        h, v = lc.args[0], lc.post
        z = size(v, h)
        k = pos(v, h, q)
        C, L, hK, hB = v.g("hC", h), v.g("hL", h), v.m("G:hK"), v.m("G:hB")
        c = Select(C, k)
        for j, (t, p, e) in enumerate(lc.phis):
            if t != "ptr":
                continue
            rk = Select(hK, p)
            out.append(("in-chain%d" % j, Or(p == 0, And(member(v, h, p), Select(hB, p) == k, 0 <= rk, rk < Select(L, k), Select(c, rk) == p))))
            r, n, ky = R(v, h), n_(v, h), v.m("F:axlHashNode.key")
            inb = lambda x: Select(hB, x) == k
            out.append(("miss-incl%d" % j, q1(lambda i: Implies(And(0 <= i, i < n, inb(Select(r, i)), Or(p == 0, rk <= Select(hK, Select(r, i)))), Not(eq(v, h, Select(ky, Select(r, i)), q))), lambda i: Select(r, i), "i")))
            out.append(("miss-excl%d" % j, q1(lambda i: Implies(And(0 <= i, i < n, inb(Select(r, i)), Or(p == 0, rk < Select(hK, Select(r, i)))), Not(eq(v, h, Select(ky, Select(r, i)), q))), lambda i: Select(r, i), "i")))
            for j2, (t2, p2, e2) in enumerate(lc.phis):
                if t2 == "ptr" and j2 != j:
                    out.append(("follows%d.%d" % (j, j2), And(p != 0, v.f("axlHashNode.next", p) == p2)))
        return out

    def variants(self, lc):
        hK = lc.post.m("G:hK")
        return [("rank%d" % j, If(p == 0, 0, Select(hK, p) + 1)) for j, (t, p, e) in enumerate(lc.phis) if t == "ptr"]


def found(v, h, q, x): return And(member(v, h, x), eq(v, h, keyof(v, x), q))
def missing(v, h, q): return q1(lambda i: Implies(And(0 <= i, i < n_(v, h)), Not(eq(v, h, keyof(v, Select(R(v, h), i)), q))), lambda i: Select(R(v, h), i), "i")


@contract
class Lookup(HashC):
    name = "__axl_hash_internal_lookup"
    modifies = []
    def ensures(self, pre, post, a, ret, w):
        h, q = a
        return [("C05:finds-the-key", Implies(h != 0, If(ret != 0, found(pre, h, q, ret), missing(pre, h, q)))), ("null-hash", Implies(h == 0, ret == 0))]
    def loops(self, lc): return self.chain_loops(lc, lc.args[1])


@contract
class Get(HashC):
    name = "axl_hash_get"
    modifies = []
    witness = ("x",)
    def candidates(self, rc): return [{"x": IntVal(0)}] + [{"x": p} for p in rc.ptrs]
    def ensures(self, pre, post, a, ret, w):
        h, q = a
        x = w["x"]
        return [("C05:value-of-the-key", If(And(h != 0, x != 0), And(found(pre, h, q, x), ret == pre.f("axlHashNode.data", x)), And(ret == 0, Implies(h != 0, missing(pre, h, q)))))]


@contract
class Exists_(HashC):
    name = "axl_hash_exists"
    modifies = []
    witness = ("x",)
    candidates = Get.candidates
    def ensures(self, pre, post, a, ret, w):
        h, q = a
        x = w["x"]
        return [("C05:present-iff-stored", If(And(h != 0, ret != 0), found(pre, h, q, x), Implies(h != 0, missing(pre, h, q)))), ("null-hash", Implies(h == 0, ret == 0))]


@contract
class Items(HashC):
    name = "axl_hash_items"
    modifies = []
    def ensures(self, pre, post, a, ret, w): return [("C05:count", ret == If(a[0] == 0, IntVal(-1), n_(pre, a[0])))]


NF = ["F:axlHashNode." + f for f in ("key", "key_destroy", "data", "data_destroy", "next")]
HF = ["F:axlHash." + f for f in ("table", "items", "hash_size")]
HG = ["G:hR", "G:hI", "G:hC", "G:hL", "G:hB", "G:hK", "G:aown"]
EV = ["G:evn", "G:evf", "G:eva"]


def hframe(pre, h):
    d = {m: (lambda x: And(h != 0, pre.g("aown", x) == pre.f("axlHash.factory", h))) for m in NF}
    d.update({m: (lambda x: x == h) for m in HF})
    d["A:ptr"] = d["B"] = lambda x: And(h != 0, x == tab(pre, h))
    for g in ("G:hR", "G:hC", "G:hL"):
        d[g] = lambda x: x == h
    for g in ("G:hI", "G:hB", "G:hK", "G:aown"):
        d[g] = lambda x: And(h != 0, pre.g("aown", x) == pre.f("axlHash.factory", h))
    return d


def node_is(v, x, key, kd, data, dd):
    return And(v.f("axlHashNode.key", x) == key, v.f("axlHashNode.key_destroy", x) == kd, v.f("axlHashNode.data", x) == data, v.f("axlHashNode.data_destroy", x) == dd)


def node_same(pre, post, x): return node_is(post, x, *[pre.f("axlHashNode." + f, x) for f in ("key", "key_destroy", "data", "data_destroy")])


def events(pre, post, cond, x):
    """the destroy functions of node x, key first"""
    kd, dd = pre.f("axlHashNode.key_destroy", x), pre.f("axlHashNode.data_destroy", x)
    n, f, a = pre.m("G:evn"), pre.m("G:evf"), pre.m("G:eva")
    k, d = pre.f("axlHashNode.key", x), pre.f("axlHashNode.data", x)
    f1, a1, n1 = If(kd != 0, Store(f, n, kd), f), If(kd != 0, Store(a, n, k), a), If(kd != 0, n + 1, n)
    f2, a2, n2 = If(dd != 0, Store(f1, n1, dd), f1), If(dd != 0, Store(a1, n1, d), a1), If(dd != 0, n1 + 1, n1)
    return And(post.m("G:evn") == If(cond, n2, n), post.m("G:evf") == If(cond, f2, f), post.m("G:eva") == If(cond, a2, a))


@contract
class Insert(HashC):
    name = "axl_hash_insert_full"
    tags = ("C05", "C06")
    modifies = ["alloc", "A:ptr", "B"] + NF + HF + HG + EV
    witness = ("x",)          # the node that already had the key, 0 when there is none

    def proved_case(self, pre, a):
        return [("the table has room for one more item, or is created by the call, or the hash is NULL (no rehash)", Implies(a[0] != 0, Or(size(pre, a[0]) == 0, size(pre, a[0]) != n_(pre, a[0]))))]

    def frame(self, pre, a): return hframe(pre, a[0])

    def candidates(self, rc): return [{"x": IntVal(0)}] + [{"x": p} for p in rc.ptrs]

    def ghost_ret(self, pre, cur, a, ret, w):
        h, q = a[0], a[1]
        n = n_(pre, h)
        k = pos(cur, h, q)
        x = Select(cur.aptr(tab(cur, h)), k)
        C, L = cur.g("hC", h), cur.g("hL", h)
        d = {"G:hR": Store(cur.m("G:hR"), h, Store(R(cur, h), n, x)), "G:hI": Store(cur.m("G:hI"), x, n), "G:hB": Store(cur.m("G:hB"), x, k), "G:hK": Store(cur.m("G:hK"), x, Select(L, k)),
             "G:hC": Store(cur.m("G:hC"), h, Store(C, k, Store(Select(C, k), Select(L, k), x))), "G:hL": Store(cur.m("G:hL"), h, Store(L, k, Select(L, k) + 1))}
        new = And(h != 0, n_(cur, h) == n + 1)
        # the chains of a table just created are empty
        first = size(pre, h) == 0
        L0 = K(INT, IntVal(0))
        d["G:hL"] = If(first, Store(cur.m("G:hL"), h, Store(L0, k, IntVal(1))), d["G:hL"])
        d["G:hK"] = If(first, Store(cur.m("G:hK"), x, IntVal(0)), d["G:hK"])
        d["G:hC"] = If(first, Store(cur.m("G:hC"), h, Store(C, k, Store(Select(C, k), 0, x))), d["G:hC"])
        return {g: If(new, t, cur.m(g)) for g, t in d.items()}, []

    def ensures(self, pre, post, a, ret, w):
        h, q, kd, dt, dd = a
        x = w["x"]
        n = n_(pre, h)
        g = h != 0
        r0, r1 = R(pre, h), R(post, h)
        return [("C05:replaces-or-adds", Implies(g, If(x != 0, And(found(pre, h, q, x), n_(post, h) == n, node_is(post, x, q, kd, dt, dd)),
                                                        And(missing(pre, h, q), n_(post, h) == n + 1, node_is(post, Select(r1, n), q, kd, dt, dd)))))] + \
            [(l, Implies(g, f)) for l, f in wf_parts(post, h)] + \
            [("C05:other-entries-unchanged", Implies(g, q1(lambda i: Implies(And(0 <= i, i < n), And(Select(r1, i) == Select(r0, i), Implies(Select(r0, i) != x, node_same(pre, post, Select(r0, i))))), lambda i: Select(r1, i), "i"))),
             ("C06:destroys-exactly-the-replaced", events(pre, post, And(g, x != 0), x)),
             ("C06:other-memory-kept", alloc_other(pre, post, h)),
             ("settings-kept", Implies(g, And(*[post.f("axlHash." + f, h) == pre.f("axlHash." + f, h) for f in ("hash", "equal", "step", "factory")])))]

    def loop_ghost_maps(self, mods):
        if "A:ptr" in mods:
            return ["G:hC", "G:hL", "G:hB", "G:hK"]
        if "F:axlHashNode.next" in mods:
            return ["G:lR", "G:lI", "G:ln"]
        return []

    def kind(self, lc):
        if "A:ptr" in lc.mods: return "spread"
        if "F:axlHashNode.next" in lc.mods: return "collect"
        return "walk"

    def loop_ghost(self, lc, lc0):
        h, pre, v = lc.args[0], lc.pre, lc.post
        kind = self.kind(lc)
        if kind == "collect":
            # the list collected so far: lR[0..ln-1], lI the position in it
            if lc0 is None:
                return {"G:ln": IntVal(0), "G:lR": v.m("G:lR"), "G:lI": v.m("G:lI")}, []
            it = [p for t, p, e in lc0.phis if t == "i32"]
            if len(it) != 1:
                return {}, []
            k = it[0]
            C, L, hB, hK = pre.g("hC", h), pre.g("hL", h), pre.m("G:hB"), pre.m("G:hK")
            c, l = lc0.post.m("G:ln"), Select(L, k)
            r2, i2 = fresh_row("lR"), fresh_row("lI")
            i, x = FreshInt("i"), FreshInt("x")
            ax = [ForAll([i], Select(r2, i) == If(i < c, Select(lc0.post.m("G:lR"), i), Select(Select(C, k), l - 1 - (i - c))), patterns=[Select(r2, i)]),
                  ForAll([x], Select(i2, x) == If(And(Select(hB, x) == k, member(pre, h, x)), c + l - 1 - Select(hK, x), Select(lc0.post.m("G:lI"), x)), patterns=[Select(i2, x)])]
            return {"G:ln": c + l, "G:lR": r2, "G:lI": i2}, ax
        if kind == "spread":
            if lc0 is None:
                return {"G:hL": Store(v.m("G:hL"), h, K(INT, IntVal(0))), "G:hC": v.m("G:hC"), "G:hB": v.m("G:hB"), "G:hK": v.m("G:hK")}, []
            # the node moved: the one the walk was at
            ps = [p for t, p, e in lc0.phis if t == "ptr"]
            x = self.cursor(lc0, ps)
            k = pos(v, h, keyof(v, x))
            C, L = lc0.post.g("hC", h), lc0.post.g("hL", h)
            return {"G:hL": Store(lc0.post.m("G:hL"), h, Store(L, k, Select(L, k) + 1)), "G:hC": Store(lc0.post.m("G:hC"), h, Store(C, k, Store(Select(C, k), Select(L, k), x))),
                    "G:hB": Store(lc0.post.m("G:hB"), x, k), "G:hK": Store(lc0.post.m("G:hK"), x, Select(L, k))}, []
        return {}, []

    def cursor(self, lc, ps):
        # the walk starts at the head of the list collected
        for t, p, e in lc.phis:
            if t == "ptr" and e.eq(self.head):
                return p
        return ps[0]

    def loops(self, lc):
        h, pre, v = lc.args[0], lc.pre, lc.post
        kind = self.kind(lc)
        n, r0 = n_(pre, h), R(pre, h)
        hI, hB0, hK0, C0, L0 = pre.m("G:hI"), pre.m("G:hB"), pre.m("G:hK"), pre.g("hC", h), pre.g("hL", h)
        nx, nx0 = v.m("F:axlHashNode.next"), pre.m("F:axlHashNode.next")
        ptrs = [(j, p) for j, (t, p, e) in enumerate(lc.phis) if t == "ptr"]
        ints = [(j, p) for j, (t, p, e) in enumerate(lc.phis) if t == "i32"]
        out = []
        mem = lambda x: And(x != 0, 0 <= Select(hI, x), Select(hI, x) < n, Select(r0, Select(hI, x)) == x)
        if kind == "collect":
            lR, lI, c = v.m("G:lR"), v.m("G:lI"), v.m("G:ln")
            for j, it in ints:
                out.append(("it%d" % j, And(0 <= it, it <= size(pre, h))))
                out.append(("collected%d" % j, q1(lambda i: Implies(And(0 <= i, i < c), And(mem(Select(lR, i)), Select(lI, Select(lR, i)) == i, Select(hB0, Select(lR, i)) < it)), lambda i: Select(lR, i), "i")))
                out.append(("all-collected%d" % j, q1(lambda i: Implies(And(0 <= i, i < n, Select(hB0, Select(r0, i)) < it), And(0 <= Select(lI, Select(r0, i)), Select(lI, Select(r0, i)) < c, Select(lR, Select(lI, Select(r0, i))) == Select(r0, i))), lambda i: Select(r0, i), "i")))
                out.append(("rest-intact%d" % j, q1(lambda i: Implies(And(0 <= i, i < n, Select(hB0, Select(r0, i)) >= it), Select(nx, Select(r0, i)) == Select(nx0, Select(r0, i))), lambda i: [Select(r0, i), ], "i")))
            out.append(("linked", q1(lambda i: Implies(And(0 <= i, i < c), Select(nx, Select(lR, i)) == If(i < c - 1, Select(lR, i + 1), 0)), lambda i: Select(lR, i), "i")))
            out.append(("count", c >= 0))
            for j, p in ptrs:
                out.append(("head%d" % j, p == If(c > 0, Select(lR, 0), 0)))
                out.append(("tail%d" % j, Implies(c > 0, p == Select(lR, c - 1))))
        elif kind == "spread":
            lR, lI, c = lc.entry.m("G:lR"), lc.entry.m("G:lI"), lc.entry.m("G:ln")
            hB, hK, C, L = v.m("G:hB"), v.m("G:hK"), v.g("hC", h), v.g("hL", h)
            z, T = size(v, h), v.aptr(tab(v, h))
            for j, (t, p, e) in enumerate(lc.phis):
                if t != "ptr":
                    continue
                at = If(p == 0, c, Select(lI, p))
                out.append(("walk%d" % j, Or(p == 0, And(0 <= Select(lI, p), Select(lI, p) < c, Select(lR, Select(lI, p)) == p))))
                out.append(("rest-linked%d" % j, q1(lambda i: Implies(And(at <= i, i < c), Select(nx, Select(lR, i)) == If(i < c - 1, Select(lR, i + 1), 0)), lambda i: Select(lR, i), "i")))
                out.append(("moved%d" % j, q1(lambda i: Implies(And(0 <= i, i < at), And(Select(hB, Select(lR, i)) == pos(v, h, keyof(v, Select(lR, i))), 0 <= Select(hK, Select(lR, i)), Select(hK, Select(lR, i)) < Select(L, Select(hB, Select(lR, i))),
                                                                                   Select(Select(C, Select(hB, Select(lR, i))), Select(hK, Select(lR, i))) == Select(lR, i))), lambda i: Select(lR, i), "i")))
                out.append(("chains%d" % j, q2(lambda k, i: Implies(And(0 <= k, k < z, 0 <= i, i < Select(L, k)), And(Select(Select(C, k), i) != 0, 0 <= Select(lI, Select(Select(C, k), i)), Select(lI, Select(Select(C, k), i)) < at,
                                                Select(lR, Select(lI, Select(Select(C, k), i))) == Select(Select(C, k), i), Select(hB, Select(Select(C, k), i)) == k, Select(hK, Select(Select(C, k), i)) == i,
                                                Select(nx, Select(Select(C, k), i)) == If(i > 0, Select(Select(C, k), i - 1), 0))), lambda k, i: Select(Select(C, k), i))))
            out.append(("heads", q1(lambda k: Implies(And(0 <= k, k < z), And(Select(L, k) >= 0, Select(T, k) == If(Select(L, k) > 0, Select(Select(C, k), Select(L, k) - 1), 0))), lambda k: [Select(T, k), Select(L, k)], "k")))
            out.append(("others-C", q1(lambda x: Implies(x != h, And(Select(v.m("G:hC"), x) == Select(pre.m("G:hC"), x), Select(v.m("G:hL"), x) == Select(pre.m("G:hL"), x))), lambda x: [Select(v.m("G:hC"), x), Select(v.m("G:hL"), x)], "x")))
            out.append(("others-B", q1(lambda x: Implies(And(pre.alloc(x), pre.g("aown", x) != pre.f("axlHash.factory", h)), And(Select(v.m("G:hB"), x) == Select(pre.m("G:hB"), x), Select(v.m("G:hK"), x) == Select(pre.m("G:hK"), x))), lambda x: [Select(v.m("G:hB"), x), Select(v.m("G:hK"), x)], "x")))
            out.append(("table-only", q1(lambda x: Implies(x != tab(v, h), Select(v.m("A:ptr"), x) == Select(lc.entry.m("A:ptr"), x)), lambda x: Select(v.m("A:ptr"), x), "x")))
        else:
            # walking a chain: of the bucket of the key, or to the end of the bucket being collected
            out += self.chain_loops(lc, lc.args[1])
            hB, hK = hB0, hK0
            for j, p in ptrs:
                out.append(("member%d" % j, And(mem(p))))
                for t2, b in lc.scope:
                    if t2 == "i32":
                        out.append(("bucket%d.%s" % (j, b), And(mem(p), Select(hB0, p) == b)))
        return out

    def variants(self, lc):
        out = super().variants(lc)
        hK0 = lc.pre.m("G:hK")
        out += [("rank0%d" % j, If(p == 0, 0, Select(hK0, p) + 1)) for j, (t, p, e) in enumerate(lc.phis) if t == "ptr"]
        lI, c = lc.entry.m("G:lI"), lc.entry.m("G:ln")
        out += [("list%d" % j, If(p == 0, 0, c - Select(lI, p))) for j, (t, p, e) in enumerate(lc.phis) if t == "ptr"]
        return out
    head = Int("none")


def alloc_other(pre, post, h):
    """memory that is not of the hash is neither released nor lost"""
    x = FreshInt("x")
    return ForAll([x], Implies(And(pre.alloc(x), x != h, Or(h == 0, And(x != tab(pre, h), pre.g("aown", x) != pre.f("axlHash.factory", h)))), post.alloc(x)), patterns=[post.alloc(x), pre.alloc(x)])


_fresh = [0]


def fresh_row(name):
    _fresh[0] += 1
    return Const("%s#%d" % (name, _fresh[0]), AI)


@contract
class InsertSimple(Contract):
    name = "axl_hash_insert"
    tags = ("C05", "C06")
    modifies = Insert.modifies
    witness = ("x",)
    full = Insert()
    def args(self, a): return [a[0], a[1], IntVal(0), a[2], IntVal(0)]
    def requires(self, pre, a): return self.full.requires(pre, self.args(a))
    def frame(self, pre, a): return hframe(pre, a[0])
    def candidates(self, rc): return [{"x": t} for k, t in rc.wits if k == "x"] or [{"x": IntVal(0)}]
    def ensures(self, pre, post, a, ret, w): return self.full.ensures(pre, post, self.args(a), ret, w)


class RemoveCommon(HashC):
    tags = ("C05", "C06")
    modifies = ["alloc", "A:ptr", "F:axlHashNode.next", "F:axlHash.items"] + HG + EV
    witness = ("x",)
    destroys = True
    candidates = Insert.candidates
    def frame(self, pre, a): return hframe(pre, a[0])
    def loops(self, lc): return self.chain_loops(lc, lc.args[1])

    def ghost_ret(self, pre, cur, a, ret, w):
        h, x = a[0], w["x"]
        n, r, hI, hB, hK = n_(pre, h), R(pre, h), pre.m("G:hI"), pre.m("G:hB"), pre.m("G:hK")
        C, L, fa = pre.g("hC", h), pre.g("hL", h), pre.f("axlHash.factory", h)
        i, k, rk = Select(hI, x), Select(hB, x), Select(hK, x)
        last = Select(r, n - 1)
        row, hk = fresh_row("hC"), fresh_row("hK")
        j, y = FreshInt("j"), FreshInt("y")
        ax = [ForAll([j], Select(row, j) == If(j < rk, Select(Select(C, k), j), Select(Select(C, k), j + 1)), patterns=[Select(row, j)]),
              ForAll([y], Select(hk, y) == If(And(Select(pre.m("G:aown"), y) == fa, Select(hB, y) == k, Select(hK, y) > rk), Select(hK, y) - 1, Select(hK, y)), patterns=[Select(hk, y)])]
        d = {"G:hR": Store(pre.m("G:hR"), h, Store(r, i, last)), "G:hI": Store(hI, last, i), "G:hK": hk, "G:hC": Store(pre.m("G:hC"), h, Store(C, k, row)), "G:hL": Store(pre.m("G:hL"), h, Store(L, k, Select(L, k) - 1))}
        hit = And(h != 0, x != 0)
        return {g: If(hit, t, cur.m(g)) for g, t in d.items()}, ax

    def ensures(self, pre, post, a, ret, w):
        h, q = a
        x = w["x"]
        n, r0 = n_(pre, h), R(pre, h)
        hit = And(h != 0, x != 0)
        return [("C05:removes-the-key-or-nothing", Implies(h != 0, If(x != 0, And(found(pre, h, q, x), n_(post, h) == n - 1), And(missing(pre, h, q), n_(post, h) == n)))),
                ("C05:reports-it", ret == If(hit, 1, 0))] + \
            [(l, Implies(h != 0, f)) for l, f in wf_parts(post, h)] + \
            [("C05:other-entries-kept", Implies(h != 0, q1(lambda i: Implies(And(0 <= i, i < n, Select(r0, i) != x), And(member(post, h, Select(r0, i)), node_same(pre, post, Select(r0, i)))), lambda i: Select(r0, i), "i"))),
             ("C05:key-is-gone", Implies(h != 0, missing(post, h, q))),
             ("C06:destroys-exactly-the-removed" if self.destroys else "C06:destroys-nothing", events(pre, post, And(hit, BoolVal(self.destroys)), x)),
             ("C06:releases-the-node-only", post.m("alloc") == If(hit, Store(pre.m("alloc"), x, False), pre.m("alloc"))),
             ("settings-kept", Implies(h != 0, And(*[post.f("axlHash." + f, h) == pre.f("axlHash." + f, h) for f in ("hash", "equal", "step", "factory", "table", "hash_size")])))]


@contract
class Remove(RemoveCommon):
    name = "axl_hash_remove"


@contract
class Delete(RemoveCommon):
    name = "axl_hash_delete"
    destroys = False


class NewC(Contract):
    tags = ("C05", "C06")
    modifies = ["alloc", "A:ptr", "B"] + ["F:axlHash." + f for f in ("hash", "equal", "table", "factory", "items", "hash_size", "step")] + HG
    def hes(self, a): return a
    def requires(self, pre, a):
        f, e, s = self.hes(a)
        return [("functions", And(f != 0, e != 0)), ("step", s > 0)]
    def ensures(self, pre, post, a, ret, w):
        f, e, s = self.hes(a)
        x = FreshInt("x")
        return [("C05:new-empty-hash", And(ret != 0, Not(pre.alloc(ret)), n_(post, ret) == 0, size(post, ret) == 0, post.f("axlHash.hash", ret) == f, post.f("axlHash.equal", ret) == e, post.f("axlHash.step", ret) == s))] + \
            wf_parts(post, ret) + [("C06:other-memory-kept", ForAll([x], Implies(pre.alloc(x), post.alloc(x)), patterns=[post.alloc(x)]))]


@contract
class NewFull(NewC):
    name = "axl_hash_new_full"


@contract
class New(NewC):
    name = "axl_hash_new"
    def hes(self, a): return [a[0], a[1], IntVal(10)]


@contract
class Capacity(HashC):
    name = "axl_hash_capacity"
    modifies = []
    def ensures(self, pre, post, a, ret, w): return [("C05:capacity", ret == If(a[0] == 0, IntVal(-1), size(pre, a[0])))]


# ---- visiting all the items
GHOST_SORTS["G:evr"] = AI


class Visits:
    """vE[e] the node of the e-th visit, vN[x] the visit of node x (ghost, built while walking)"""

    def bijection(self, v, h, m, done, extra):
        vE, vN, r = v.m("G:vE"), v.m("G:vN"), R(v, h)
        return [("every-item", q1(lambda i: Implies(And(0 <= i, i < n_(v, h), done(Select(r, i))), And(0 <= Select(vN, Select(r, i)), Select(vN, Select(r, i)) < m, Select(vE, Select(vN, Select(r, i))) == Select(r, i))), lambda i: Select(r, i), "i")),
                ("once", q1(lambda e: Implies(And(0 <= e, e < m), And(member(v, h, Select(vE, e)), done(Select(vE, e)), Select(vN, Select(vE, e)) == e, extra(e, Select(vE, e)))), lambda e: Select(vE, e), "e"))]


class ForeachC(HashC, Visits):
    modifies = ["G:evn", "G:evf", "G:eva", "G:evb", "G:evr", "G:vE", "G:vN"]
    callback_modifies = ["G:evn", "G:evf", "G:eva", "G:evb", "G:evr"]
    fns = False
    fi = 1
    witness = ("x",)          # the node at which the user asked to stop, 0 when all were visited

    def frame(self, pre, a): return {m: (lambda x: x >= pre.m("G:evn")) for m in ("G:evf", "G:eva", "G:evb", "G:evr")} if False else {}

    def requires(self, pre, a): return super().requires(pre, a) + [("function", a[self.fi] != 0)]

    def candidates(self, rc): return [{"x": IntVal(0)}] + [{"x": p} for p in rc.ptrs]

    def callback(self, eng, st, ins, fp, pv, args):
        n = eng.getmap(st.maps, "G:evn")
        r = eng.fresh(st, "visit")
        st.facts += rng(ins.ty, r)
        for g, t in (("G:evf", fp), ("G:eva", args[0]), ("G:evb", args[1]), ("G:evr", r)):
            st.maps[g] = Store(eng.getmap(st.maps, g), n, t)
        st.maps["G:evn"] = n + 1
        eng.assumptions.add("user callbacks (destroy, comparator, visitor, copy functions) return normally and do not modify the container")
        return r

    def event(self, pre, v, a, base):
        return lambda e, x: And(Select(v.m("G:evf"), base + e) == a[self.fi], Select(v.m("G:eva"), base + e) == keyof(v, x), Select(v.m("G:evb"), base + e) == v.f("axlHashNode.data", x))

    def ghost_ret(self, pre, cur, a, ret, w):
        m = cur.m("G:evn") - pre.m("G:evn")
        x = w["x"]
        return {"G:vE": If(x != 0, Store(cur.m("G:vE"), m - 1, x), cur.m("G:vE")), "G:vN": If(x != 0, Store(cur.m("G:vN"), x, m - 1), cur.m("G:vN"))}, []

    def ensures(self, pre, post, a, ret, w):
        h, x = a[0], w["x"]
        base = pre.m("G:evn")
        m = post.m("G:evn") - base
        vN = post.m("G:vN")
        out = [("null-hash", Implies(h == 0, m == 0)), ("count", m >= 0),
               ("C05:earlier-visits-asked-to-go-on", Implies(h != 0, q1(lambda e: Implies(And(base <= e, e < base + m - If(x != 0, 1, 0)), Select(post.m("G:evr"), e) == 0), lambda e: Select(post.m("G:evr"), e), "e"))),
               ("C05:stopped-by-the-user", Implies(And(h != 0, x != 0), And(m > 0, Select(post.m("G:evr"), base + m - 1) != 0, Select(vN, x) == m - 1)))]
        vis = lambda y: Or(x == 0, And(0 <= Select(vN, y), Select(vN, y) < m, Select(post.m("G:vE"), Select(vN, y)) == y))
        out += [("C05:visits:" + l, Implies(h != 0, f)) for l, f in self.bijection(post, h, m, vis, self.event(pre, post, a, base))]
        out.append(("earlier-events-kept", And(*[q1(lambda e: Implies(e < base, Select(post.m(g), e) == Select(pre.m(g), e)), lambda e: Select(post.m(g), e), "e") for g in ("G:evf", "G:eva", "G:evb")])))
        return out

    def loop_ghost_maps(self, mods): return ["G:vE", "G:vN"]

    def ranks(self, lc):
        ints = [p for t, p, e in lc.phis if t == "i32"]
        ptrs = [p for t, p, e in lc.phis if t == "ptr"]
        return ints, ptrs

    def loop_ghost(self, lc, lc0):
        if lc0 is None:
            return {}, []
        h, v = lc.args[0], lc.post
        ints, ptrs = self.ranks(lc0)
        m = v.m("G:evn") - lc.pre.m("G:evn") - 1
        if len(ptrs) == 1:              # the walk of one chain: the node just visited
            x, c = ptrs[0], BoolVal(True)
        elif len(ints) == 1:            # the last node of the chain
            k = ints[0]
            x, c = Select(Select(v.g("hC", h), k), 0), Select(v.g("hL", h), k) > 0
        else:
            return {}, []
        return {"G:vE": If(c, Store(v.m("G:vE"), m, x), v.m("G:vE")), "G:vN": If(c, Store(v.m("G:vN"), x, m), v.m("G:vN"))}, []

    def loops(self, lc):
        h, v, pre = lc.args[0], lc.post, lc.pre
        ints, ptrs = self.ranks(lc)
        base = pre.m("G:evn")
        m = v.m("G:evn") - base
        hB, hK = v.m("G:hB"), v.m("G:hK")
        out = [("m", m >= 0), ("kept", And(*[q1(lambda e: Implies(e < base, Select(v.m(g), e) == Select(pre.m(g), e)), lambda e: Select(v.m(g), e), "e") for g in ("G:evf", "G:eva", "G:evb")])),
               ("goes-on", q1(lambda e: Implies(And(base <= e, e < base + m), Select(v.m("G:evr"), e) == 0), lambda e: Select(v.m("G:evr"), e), "e"))]
        ev = self.event(pre, v, lc.args, base)
        if len(ptrs) == 1:
            p = ptrs[0]
            for t, it in lc.scope:
                if t != "i32" or not (is_const(it) and str(it).startswith("phi")):
                    continue
                out.append(("at:%s" % it, And(member(v, h, p), Select(hB, p) == it)))
                done = lambda x: Or(Select(hB, x) < it, And(Select(hB, x) == it, Select(hK, x) > Select(hK, p)))
                out += [("%s:%s" % (l, it), f) for l, f in self.bijection(v, h, m, done, ev)]
        for it in ints:
            out.append(("it", And(0 <= it, it <= size(v, h))))
            out += self.bijection(v, h, m, lambda x: Select(hB, x) < it, ev)
        return out


@contract
class Foreach(ForeachC):
    name = "axl_hash_foreach"


@contract
class Foreach2(ForeachC):
    name = "axl_hash_foreach2"


@contract
class Foreach3(ForeachC):
    name = "axl_hash_foreach3"


@contract
class Foreach4(ForeachC):
    name = "axl_hash_foreach4"


GHOST_SORTS.update({"G:vK": AI, "G:vD": AI, "G:vT": AI})


@contract
class Free(HashC):
    """vE[e] the node of the e-th destroy call, vT[e] whether it is for the key (1) or the data (2), vK[x] and vD[x]
    the calls for the key and the data of node x"""
    name = "axl_hash_free"
    tags = ("C06",)
    modifies = ["alloc", "G:aown", "G:evn", "G:evf", "G:eva", "G:vE", "G:vT", "G:vK", "G:vD"] + NF[:4]
    callback_modifies = ["G:evn", "G:evf", "G:eva", "G:vE", "G:vT", "G:vK", "G:vD"]
    fns = False

    def frame(self, pre, a): return {k: f for k, f in hframe(pre, a[0]).items() if k in NF or k == "G:aown"}
    def kc(self, pre, x): return And(pre.f("axlHashNode.key", x) != 0, pre.f("axlHashNode.key_destroy", x) != 0)
    def dc(self, pre, x): return And(pre.f("axlHashNode.data", x) != 0, pre.f("axlHashNode.data_destroy", x) != 0)

    def callback(self, eng, st, ins, fp, pv, args):
        if pv not in ("axlHashNode.key_destroy", "axlHashNode.data_destroy") or not is_app(fp) or fp.num_args() != 2:
            return None
        x, key = fp.arg(1), pv.endswith("key_destroy")
        n, g = eng.getmap(st.maps, "G:evn"), lambda m: eng.getmap(st.maps, m)
        e = n - eng.pre.m("G:evn")
        st.maps.update({"G:evf": Store(g("G:evf"), n, fp), "G:eva": Store(g("G:eva"), n, args[0]), "G:evn": n + 1, "G:vE": Store(g("G:vE"), e, x), "G:vT": Store(g("G:vT"), e, IntVal(1 if key else 2))})
        m = "G:vK" if key else "G:vD"
        st.maps[m] = Store(g(m), x, e)
        eng.assumptions.add("user callbacks (destroy, comparator, visitor, copy functions) return normally and do not modify the container")
        return IntVal(0)

    def destroyed(self, pre, v, m, done):
        h = self.h
        base, r, n = pre.m("G:evn"), R(pre, h), n_(pre, h)
        vE, vT, vK, vD, f, a = (v.m("G:" + g) for g in ("vE", "vT", "vK", "vD", "evf", "eva"))
        kc, dc = (lambda x: self.kc(pre, x)), (lambda x: self.dc(pre, x))
        def each(body): return q1(lambda i: Implies(And(0 <= i, i < n, done(Select(r, i))), body(Select(r, i))), lambda i: Select(r, i), "i")
        def call(x, e, t, fl): return And(0 <= e, e < m, Select(vE, e) == x, Select(vT, e) == t, Select(f, base + e) == pre.f("axlHashNode.%s_destroy" % fl, x), Select(a, base + e) == pre.f("axlHashNode." + fl, x))
        return [("every-key", each(lambda x: Implies(kc(x), call(x, Select(vK, x), 1, "key")))),
                ("every-data", each(lambda x: Implies(dc(x), call(x, Select(vD, x), 2, "data")))),
                ("once", q1(lambda e: Implies(And(0 <= e, e < m), And(member(pre, h, Select(vE, e)), done(Select(vE, e)), Or(And(Select(vT, e) == 1, kc(Select(vE, e)), e == Select(vK, Select(vE, e))),
                                                                                                                        And(Select(vT, e) == 2, dc(Select(vE, e)), e == Select(vD, Select(vE, e)))))), lambda e: Select(vE, e), "e"))]

    def ensures(self, pre, post, a, ret, w):
        self.h = h = a[0]
        m = post.m("G:evn") - pre.m("G:evn")
        fa, base = pre.f("axlHash.factory", h), pre.m("G:evn")
        x = FreshInt("x")
        return [("count", m >= 0), ("null-hash", Implies(h == 0, And(m == 0, post.m("alloc") == pre.m("alloc"))))] + \
            [("C06:destroys:" + l, Implies(h != 0, f)) for l, f in self.destroyed(pre, post, m, lambda x: BoolVal(True))] + \
            [("earlier-events-kept", And(*[q1(lambda e: Implies(e < base, Select(post.m(g), e) == Select(pre.m(g), e)), lambda e: Select(post.m(g), e), "e") for g in ("G:evf", "G:eva")])),
             ("C06:releases-all-of-it", Implies(h != 0, ForAll([x], post.alloc(x) == And(pre.alloc(x), x != h, x != tab(pre, h), x != fa, pre.g("aown", x) != fa), patterns=[post.alloc(x)])))]

    ranks = ForeachC.ranks

    def loops(self, lc):
        self.h = h = lc.args[0]
        v, pre = lc.post, lc.pre
        ints, ptrs = self.ranks(lc)
        base = pre.m("G:evn")
        m = v.m("G:evn") - base
        hB, hK, r = pre.m("G:hB"), pre.m("G:hK"), R(pre, h)
        out = [("m", m >= 0), ("kept", And(*[q1(lambda e: Implies(e < base, Select(v.m(g), e) == Select(pre.m(g), e)), lambda e: Select(v.m(g), e), "e") for g in ("G:evf", "G:eva")]))]
        pend = lambda done: q1(lambda i: Implies(And(0 <= i, i < n_(pre, h), Not(done(Select(r, i)))), node_same(pre, v, Select(r, i))), lambda i: Select(r, i), "i")
        if len(ptrs) == 1:
            p = ptrs[0]
            for t, it in lc.scope:
                if t != "i32" or not (is_const(it) and str(it).startswith("phi")):
                    continue
                out.append(("at:%s" % it, And(member(pre, h, p), Select(hB, p) == it)))
                done = lambda x: Or(Select(hB, x) < it, And(Select(hB, x) == it, Select(hK, x) > Select(hK, p)))
                out += [("%s:%s" % (l, it), f) for l, f in self.destroyed(pre, v, m, done) + [("pending", pend(done))]]
        for it in ints:
            done = lambda x: Select(hB, x) < it
            out.append(("it", And(0 <= it, it <= size(pre, h))))
            out += self.destroyed(pre, v, m, done) + [("pending", pend(done))]
        return out
